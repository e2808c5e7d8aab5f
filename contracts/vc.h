// Contract language used by the files in this directory.
// The same source is compiled twice on every run, against the real headers and sources of /repo:
//  * by clang to LLVM IR with the contract shim of Kokkos (contracts/shim), from which vc/exec.py generates
//    the proof obligations (all inputs symbolic), and
//  * by g++ with the real Kokkos and the real build flags (VC_NATIVE), to replay counterexamples and to
//    validate the contracts on concrete inputs.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
uint64_t __vc_uint(const char* name, int bits, uint64_t lo, uint64_t hi, uint64_t native_hi);
int64_t  __vc_sint(const char* name, int bits, int64_t lo, int64_t hi);
double   __vc_real(const char* name, double lo, double hi);
void __vc_assume(bool c);
void __vc_check(bool c, const char* label);
void __vc_check_eq(double a, double b, double scale, const char* label);
void __vc_check_le(double a, double b, double scale, const char* label);
void __vc_cover(bool c, const char* label);
[[noreturn]] void __vc_abort(const char* msg);
double __vc_uf(const char* name, double a, double b, double c, double d);   // opaque pure function of its arguments
}

namespace vc {
// ---- inputs (arbitrary values within the stated range)
inline uint64_t u64(const char* n, uint64_t lo = 0, uint64_t hi = ~0ull) { return __vc_uint(n, 64, lo, hi, hi); }
inline uint32_t u32(const char* n, uint32_t lo = 0, uint32_t hi = ~0u) { return (uint32_t)__vc_uint(n, 32, lo, hi, hi); }
inline uint16_t u16(const char* n, uint16_t lo = 0, uint16_t hi = 0xffff) { return (uint16_t)__vc_uint(n, 16, lo, hi, hi); }
inline uint8_t  u8(const char* n, uint8_t lo = 0, uint8_t hi = 255) { return (uint8_t)__vc_uint(n, 8, lo, hi, hi); }
inline bool     b(const char* n) { return __vc_uint(n, 8, 0, 1, 1) != 0; }
inline int32_t  i32(const char* n, int32_t lo, int32_t hi) { return (int32_t)__vc_sint(n, 32, lo, hi); }
inline int64_t  i64(const char* n, int64_t lo, int64_t hi) { return __vc_sint(n, 64, lo, hi); }
// a size: symbolic over [lo,hi], but natively only sampled up to native_hi (memory)
inline uint32_t dim(const char* n, uint32_t lo, uint32_t hi, uint32_t native_hi) { return (uint32_t)__vc_uint(n, 32, lo, hi, native_hi); }
inline double real(const char* n, double lo, double hi) { return __vc_real(n, lo, hi); }
// an index below n (n > 0)
inline uint32_t below(const char* nm, uint32_t n) {
#ifdef VC_NATIVE
  uint32_t x = (uint32_t)__vc_uint(nm, 32, 0, ~0u, ~0u); return n ? x % n : x;
#else
  uint32_t x = (uint32_t)__vc_uint(nm, 32, 0, ~0u, ~0u); __vc_assume(x < n); return x;
#endif
}
// ---- requires / ensures
inline void assume(bool c) { __vc_assume(c); }
inline void check(bool c, const char* label) { __vc_check(c, label); }
inline void check_eq(double a, double b, const char* label, double scale = 1.0) { __vc_check_eq(a, b, scale, label); }
inline void check_le(double a, double b, const char* label, double scale = 1.0) { __vc_check_le(a, b, scale, label); }
inline void cover(bool c, const char* label) { __vc_cover(c, label); }
inline double uf(const char* n, double a, double b = 0, double c = 0, double d = 0) { return __vc_uf(n, a, b, c, d); }
}

#ifdef VC_NATIVE
namespace vc { struct Reg { Reg(const char* n, void (*f)()); }; 
struct Reject {};
void view_input_begin(const char* name);
double   elem_real(const char* name, const uint64_t* idx, int rank, double lo, double hi);
uint64_t elem_uint(const char* name, const uint64_t* idx, int rank, uint64_t lo, uint64_t hi);
}
#define VC_CONTRACT(fn) static void vc_##fn(); static vc::Reg vc_reg_##fn(#fn, vc_##fn); static void vc_##fn()
#else
#define VC_CONTRACT(fn) extern "C" __attribute__((used, noinline)) void vc_##fn()
#endif
