#pragma once
#include "../vc.h"
#include <Kokkos_Core.hpp>
namespace vc {
template <class V, class F> inline void fill_view(V& v, F f) {
  auto h = Kokkos::create_mirror_view(v);
  uint64_t i[4] = {0, 0, 0, 0};
  constexpr int r = V::traits::dimension::rank;
  uint64_t e[4] = {1, 1, 1, 1};
  for (int k = 0; k < r; k++) e[k] = v.extent(k);
  for (i[0] = 0; i[0] < e[0]; i[0]++) for (i[1] = 0; i[1] < e[1]; i[1]++) for (i[2] = 0; i[2] < e[2]; i[2]++) for (i[3] = 0; i[3] < e[3]; i[3]++) {
    if constexpr (r == 0) h() = f(i, r); else if constexpr (r == 1) h(i[0]) = f(i, r); else if constexpr (r == 2) h(i[0], i[1]) = f(i, r);
    else if constexpr (r == 3) h(i[0], i[1], i[2]) = f(i, r); else h(i[0], i[1], i[2], i[3]) = f(i, r);
  }
  Kokkos::deep_copy(v, h);
}
template <class V> inline V mk(const char* name, size_t n0, size_t n1, size_t n2, size_t n3) {
  constexpr int r = V::traits::dimension::rank_dynamic;
  if constexpr (r == 0) return V(std::string(name)); else if constexpr (r == 1) return V(std::string(name), n0); else if constexpr (r == 2) return V(std::string(name), n0, n1);
  else if constexpr (r == 3) return V(std::string(name), n0, n1, n2); else return V(std::string(name), n0, n1, n2, n3);
}
template <class V> inline V view_uint(const char* name, uint64_t lo, uint64_t hi, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0) {
  V v = mk<V>(name, n0, n1, n2, n3); view_input_begin(name);
  fill_view(v, [&](const uint64_t* i, int r) { return (typename V::non_const_value_type)elem_uint(name, i, r, lo, hi); }); return v;
}
template <class V> inline V view_real(const char* name, double lo, double hi, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0) {
  V v = mk<V>(name, n0, n1, n2, n3); view_input_begin(name);
  fill_view(v, [&](const uint64_t* i, int r) { return (typename V::non_const_value_type)elem_real(name, i, r, lo, hi); }); return v;
}
}
