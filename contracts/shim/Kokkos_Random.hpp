#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos {
template <class E = OpenMP> struct Random_XorShift64 { double drand(double a, double b) { return __vc_real("rand", 0, 1) * (b - a) + a; } double drand() { return __vc_real("rand", 0, 1); } double normal() { return __vc_real("randn", -1e30, 1e30); } };
template <class E = OpenMP> struct Random_XorShift64_Pool { using generator_type = Random_XorShift64<E>; Random_XorShift64_Pool(uint64_t = 0) {} generator_type get_state() const { return {}; } void free_state(const generator_type&) const {} };
template <class E = OpenMP> using Random_XorShift1024_Pool = Random_XorShift64_Pool<E>;
}
