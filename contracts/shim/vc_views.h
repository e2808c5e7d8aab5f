#pragma once
#include "../vc.h"
extern "C" void __vc_view_range(void* h, double lo, double hi);
namespace vc {
// view whose contents are arbitrary (integers within [lo,hi])
template <class V> inline V view_uint(const char* name, uint64_t lo, uint64_t hi, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0) { V v; v.make_(name, 2, lo, hi, n0, n1, n2, n3, 0); return v; }
template <class V> inline V view_real(const char* name, double lo, double hi, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0) { V v; v.make_(name, 3, 0, 0, n0, n1, n2, n3, 0); __vc_view_range(v.h, lo, hi); return v; }
}
