// Contract shim of the part of Kokkos that Dyablo uses. Used only to compile /repo's sources to LLVM IR for
// verification; the native replays use the real Kokkos.  Assumed contracts (listed in every evidence file):
//  * a View is a total map from index tuples inside its extents to elements, shared by copies (no layout, no addresses);
//    every access generates a bounds obligation;
//  * parallel_for(n, f) calls f exactly once for each i in [0,n); the calls do not depend on each other's writes
//    (f is executed at one arbitrary i, and its writes are generalised over all i);
//  * host mirrors alias the device view (as in a host-only Kokkos build), deep_copy copies the whole contents.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <algorithm>
#include <array>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <utility>
#include <tuple>
#include <type_traits>
#include <limits>
#include <functional>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <stdexcept>
#include <cassert>

#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_ENABLE_OPENMP
#define KOKKOS_HAVE_OPENMP
#define KOKKOS_IF_ON_HOST(x) KOKKOS_STRIP_ x
#define KOKKOS_IF_ON_DEVICE(x)
#define KOKKOS_STRIP_(...) __VA_ARGS__
#define KOKKOS_ASSERT(x)
#define KOKKOS_IMPL_STRINGIFY(x) #x
#define KOKKOS_INVALID_INDEX (~std::size_t(0))
#define KOKKOS_VERSION 30701

extern "C" {
void* __vc_view_new(const char* name, int rank, int esize, int init, uint64_t nlo, uint64_t nhi, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
void* __vc_view_at(void* h, int rank, ...);
void* __vc_view_sub(void* h, int rank, int mask, ...);
void* __vc_view_resize(void* h, int rank, int keep, ...);
uint64_t __vc_view_extent(void* h, int i);
void __vc_view_copy(void* dst, void* src);
void __vc_view_fill_r(void* dst, double v);
void __vc_view_fill_i(void* dst, uint64_t v, int bits);
void __vc_red_inst(int back, uint64_t i);
uint64_t __vc_par_mode(uint64_t n);
uint64_t __vc_par_begin(uint64_t n);
void __vc_par_end();
double   __vc_red_end_r(int kind, double contribution, double init);
uint64_t __vc_red_end_i(int kind, uint64_t contribution, uint64_t init);
uint64_t __vc_scan_begin(uint64_t n);
uint64_t __vc_scan_mid(uint64_t contribution, int bits);
uint64_t __vc_scan_end(int bits);
[[noreturn]] void __vc_abort(const char* msg);
}

namespace Kokkos {
struct LayoutLeft { size_t dimension[8]; LayoutLeft(size_t a = KOKKOS_INVALID_INDEX, size_t b = KOKKOS_INVALID_INDEX, size_t c = KOKKOS_INVALID_INDEX, size_t d = KOKKOS_INVALID_INDEX, size_t e = KOKKOS_INVALID_INDEX, size_t f = KOKKOS_INVALID_INDEX, size_t g = KOKKOS_INVALID_INDEX, size_t h = KOKKOS_INVALID_INDEX) : dimension{a, b, c, d, e, f, g, h} {} };
struct LayoutRight { size_t dimension[8]; LayoutRight(size_t a = KOKKOS_INVALID_INDEX, size_t b = KOKKOS_INVALID_INDEX, size_t c = KOKKOS_INVALID_INDEX, size_t d = KOKKOS_INVALID_INDEX, size_t e = KOKKOS_INVALID_INDEX, size_t f = KOKKOS_INVALID_INDEX, size_t g = KOKKOS_INVALID_INDEX, size_t h = KOKKOS_INVALID_INDEX) : dimension{a, b, c, d, e, f, g, h} {} };
struct LayoutStride {};
struct HostSpace { using memory_space = HostSpace; };
struct Serial;
struct OpenMP {
  using execution_space = OpenMP; using memory_space = HostSpace; using device_type = OpenMP; using scratch_memory_space = HostSpace;
  static int concurrency() { return 1; }
  static const char* name() { return "OpenMP"; }
  void fence() const {}
};
struct Serial : OpenMP {};
using DefaultExecutionSpace = OpenMP; using DefaultHostExecutionSpace = OpenMP;
enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned T> struct MemoryTraits {};
using MemoryUnmanaged = MemoryTraits<Unmanaged>; using MemoryManaged = MemoryTraits<0>;
template <class A, class B = HostSpace> struct SpaceAccessibility { enum { accessible = true, assignable = true }; };
template <class E, class M> struct Device { using execution_space = E; using memory_space = M; };
struct ALL_t { constexpr ALL_t operator()() const { return *this; } }; static constexpr ALL_t ALL{};
struct AUTO_t {}; static constexpr AUTO_t AUTO{};
struct WithoutInitializing_t {}; static constexpr WithoutInitializing_t WithoutInitializing{};
template <class L> struct WithoutInit { L l; };
inline WithoutInit<std::string> ViewAllocateWithoutInitializing(const std::string& s) { return {s}; }
template <class L, class... P> inline L view_alloc(const L& l, P...) { return l; }
template <class T> struct IndexType {}; template <class T> struct Schedule {}; struct Static {}; struct Dynamic {};
template <class T> struct LaunchBounds_ {};
inline void fence() {} inline void fence(const std::string&) {}
[[noreturn]] inline void abort(const char* m) { __vc_abort(m); }
template <class... T> inline void printf(const char*, T...) {}
inline void initialize() {} inline void initialize(int&, char**) {} inline void finalize() {} inline bool is_initialized() { return true; }
inline void print_configuration(std::ostream&, bool = false) {}
namespace Profiling { inline void pushRegion(const std::string&) {} inline void popRegion() {} }
namespace hwloc { inline bool available() { return false; } inline unsigned get_available_numa_count() { return 1; } inline unsigned get_available_cores_per_numa() { return 1; } inline unsigned get_available_threads_per_core() { return 1; } }
class ScopeGuard { public: ScopeGuard() {} ScopeGuard(int&, char**) {} };

template <class T, size_t N> struct Array {
  T m_internal_implementation_private_member_data[N ? N : 1];
  using value_type = T;
  inline T& operator[](size_t i) { return m_internal_implementation_private_member_data[i]; }
  inline const T& operator[](size_t i) const { return m_internal_implementation_private_member_data[i]; }
  static constexpr size_t size() { return N; }
  T* data() { return m_internal_implementation_private_member_data; }
  const T* data() const { return m_internal_implementation_private_member_data; }
};
template <class A, class B> struct pair { A first; B second; pair() = default; pair(const A& a, const B& b) : first(a), second(b) {} };
template <class A, class B> pair<A, B> make_pair(A a, B b) { return pair<A, B>(a, b); }

// ---------------------------------------------------------------- Views
namespace impl {
template <class T> struct DT { using value = T; static constexpr int dyn = 0, st = 0; static constexpr size_t sdim(int) { return 1; } };
template <class T> struct DT<T*> { using B = DT<T>; using value = typename B::value; static constexpr int dyn = B::dyn + 1, st = B::st; static constexpr size_t sdim(int i) { return B::sdim(i); } };
template <class T, size_t N> struct DT<T[N]> { using B = DT<T>; using value = typename B::value; static constexpr int dyn = B::dyn, st = B::st + 1; static constexpr size_t sdim(int i) { return i == 0 ? N : B::sdim(i - 1); } };
template <class T, int R> struct MakeDT { using type = typename MakeDT<T, R - 1>::type*; };
template <class T> struct MakeDT<T, 0> { using type = T; };
template <class T> struct is_layout : std::false_type {};
template <> struct is_layout<LayoutLeft> : std::true_type {}; template <> struct is_layout<LayoutRight> : std::true_type {};
template <class... P> struct first_layout { using type = LayoutRight; };
template <class H, class... P> struct first_layout<H, P...> { using type = std::conditional_t<is_layout<H>::value, H, typename first_layout<P...>::type>; };
}
template <class DataType, class... Props> class View {
public:
  using D = impl::DT<DataType>;
  using data_type = DataType; using value_type = typename D::value; using non_const_value_type = std::remove_const_t<value_type>;
  using const_value_type = const value_type; using reference_type = value_type&; using pointer_type = value_type*;
  static constexpr int Rank = D::dyn + D::st;
  static constexpr int rank = Rank; static constexpr int rank_dynamic = D::dyn;
  using array_layout = typename impl::first_layout<Props...>::type;
  using execution_space = OpenMP; using memory_space = HostSpace; using device_type = OpenMP; using size_type = size_t;
  using traits = View; using non_const_data_type = DataType; using const_data_type = const DataType; using memory_traits = MemoryTraits<0>;
  using HostMirror = View<DataType, array_layout, HostSpace>; using host_mirror_type = HostMirror;
  using const_type = View<typename impl::MakeDT<const value_type, Rank>::type, Props...>;
  using non_const_type = View; using uniform_type = View;
  void* h; size_t ext[Rank > 0 ? Rank : 1];
  View() : h(nullptr) { for (int i = 0; i < (Rank > 0 ? Rank : 1); i++) ext[i] = i >= D::dyn ? D::sdim(i - D::dyn) : 0; }
  View(const View&) = default; View& operator=(const View&) = default;
  template <class DT2, class... P2, std::enable_if_t<View<DT2, P2...>::Rank == Rank, int> = 0>
  View(const View<DT2, P2...>& o) : h(o.h) { for (int i = 0; i < (Rank > 0 ? Rank : 1); i++) ext[i] = o.ext[i]; }
  template <class DT2, class... P2, std::enable_if_t<View<DT2, P2...>::Rank == Rank, int> = 0>
  View& operator=(const View<DT2, P2...>& o) { h = o.h; for (int i = 0; i < (Rank > 0 ? Rank : 1); i++) ext[i] = o.ext[i]; return *this; }
  void make_(const char* name, int init, uint64_t lo, uint64_t hi, size_t n0, size_t n1, size_t n2, size_t n3, size_t n4) {
    size_t n[5] = {n0, n1, n2, n3, n4};
    for (int i = 0; i < (Rank > 0 ? Rank : 1); i++) ext[i] = i >= D::dyn ? D::sdim(i - D::dyn) : n[i];
    h = __vc_view_new(name, Rank, sizeof(value_type), init, lo, hi, Rank > 0 ? ext[0] : 1, Rank > 1 ? ext[1 % (Rank ? Rank : 1)] : 1, Rank > 2 ? ext[2 % (Rank ? Rank : 1)] : 1, Rank > 3 ? ext[3 % (Rank ? Rank : 1)] : 1, Rank > 4 ? ext[4 % (Rank ? Rank : 1)] : 1, 1, 1, 1);
  }
  explicit View(const std::string& l, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0, size_t n4 = 0) { make_("view", 0, 0, 0, n0, n1, n2, n3, n4); }
  explicit View(const char* l, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0, size_t n4 = 0) { make_("view", 0, 0, 0, n0, n1, n2, n3, n4); }
  explicit View(const WithoutInit<std::string>& l, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0, size_t n4 = 0) { make_("view", 1, 0, 0, n0, n1, n2, n3, n4); }
  explicit View(value_type* p, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0, size_t n4 = 0) { __vc_abort("view of raw memory"); }
  View(const std::string&, const LayoutLeft& l) { make_("view", 0, 0, 0, l.dimension[0], l.dimension[1], l.dimension[2], l.dimension[3], l.dimension[4]); }
  View(const std::string&, const LayoutRight& l) { make_("view", 0, 0, 0, l.dimension[0], l.dimension[1], l.dimension[2], l.dimension[3], l.dimension[4]); }
  array_layout layout() const { array_layout l; for (int i = 0; i < Rank; i++) l.dimension[i] = ext[i]; return l; }
  static size_t shmem_size(size_t = 0, size_t = 0, size_t = 0, size_t = 0) { return 0; }
  template <class... I> inline value_type& operator()(I... i) const { return *(value_type*)__vc_view_at(h, (int)sizeof...(I), (uint64_t)i...); }
  template <class I> inline value_type& operator[](I i) const { return *(value_type*)__vc_view_at(h, 1, (uint64_t)i); }
  template <class... I> inline value_type& access(I... i) const { return (*this)(i...); }
  inline size_t extent(int i) const { return i < Rank ? ext[i < Rank ? i : 0] : 1; }
  inline int extent_int(int i) const { return (int)extent(i); }
  inline size_t size() const { size_t r = 1; for (int i = 0; i < Rank; i++) r *= ext[i]; return r; }
  inline size_t span() const { return size(); }
  inline bool span_is_contiguous() const { return true; }
  inline bool is_allocated() const { return h != nullptr; }
  inline value_type* data() const { return (value_type*)h; }
  inline const std::string label() const { return std::string(); }
  inline int use_count() const { return 1; }
};
template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};

template <class D, class... P> inline View<D, P...> create_mirror_view(const View<D, P...>& v) { return v; }
template <class S, class D, class... P> inline View<D, P...> create_mirror_view(const S&, const View<D, P...>& v) { return v; }
template <class S, class D, class... P> inline View<D, P...> create_mirror_view_and_copy(const S&, const View<D, P...>& v) { return v; }
template <class D, class... P> inline View<D, P...> create_mirror(const View<D, P...>& v) { View<D, P...> r("mirror", v.extent(0), v.extent(1), v.extent(2), v.extent(3)); return r; }
template <class D1, class... P1, class D2, class... P2> inline void deep_copy(const View<D1, P1...>& a, const View<D2, P2...>& b) {
  if constexpr (View<D1>::Rank == 0) { *(std::remove_const_t<typename View<D1>::value_type>*)&a() = b(); } else __vc_view_copy(a.h, b.h);
}
template <class D1, class... P1> inline void deep_copy(const View<D1, P1...>& a, const typename View<D1>::value_type& v) {
  using T = typename View<D1>::value_type;
  if constexpr (View<D1>::Rank == 0) a() = v;
  else if constexpr (std::is_floating_point_v<T>) __vc_view_fill_r(a.h, v);
  else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) __vc_view_fill_i(a.h, (uint64_t)v, 8 * sizeof(T));
  else __vc_abort("deep_copy of a struct value");
}
template <class T, class D2, class... P2, std::enable_if_t<!is_view<T>::value && View<D2>::Rank == 0, int> = 0> inline void deep_copy(T& a, const View<D2, P2...>& b) { a = b(); }
template <class E, class A, class B, std::enable_if_t<std::is_same_v<E, OpenMP>, int> = 0> inline void deep_copy(const E&, const A& a, const B& b) { deep_copy(a, b); }
template <class D, class... P> inline void realloc(View<D, P...>& v, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0, size_t n4 = 0) { v.make_("view", 0, 0, 0, n0, n1, n2, n3, n4); }
template <class D, class... P> inline void realloc(View<D, P...>& v, const typename View<D, P...>::array_layout& l) { v.make_("view", 0, 0, 0, l.dimension[0], l.dimension[1], l.dimension[2], l.dimension[3], l.dimension[4]); }
template <class D, class... P> inline void resize(View<D, P...>& v, size_t n0 = 0, size_t n1 = 0, size_t n2 = 0, size_t n3 = 0, size_t n4 = 0) {
  void* old = v.h; v.make_("view", 0, 0, 0, n0, n1, n2, n3, n4); if (old) __vc_view_resize(v.h, View<D>::Rank, 1, old);
}
namespace impl {
template <class A> struct isall : std::false_type {}; template <> struct isall<ALL_t> : std::true_type {}; template <> struct isall<const ALL_t> : std::true_type {};
template <class A> struct isrng : std::false_type {}; template <class A, class B> struct isrng<std::pair<A, B>> : std::true_type {}; template <class A, class B> struct isrng<Kokkos::pair<A, B>> : std::true_type {};
template <class A> inline uint64_t ix(const A& a) { if constexpr (isall<A>::value) return 0; else if constexpr (isrng<A>::value) return (uint64_t)a.first; else return (uint64_t)a; }
template <class A> inline uint64_t ix2(const A& a) { if constexpr (isrng<A>::value) return (uint64_t)a.second; else return 0; }
template <class D, class L, class... A> struct SubT { static constexpr int R = (0 + ... + (isall<A>::value || isrng<A>::value ? 1 : 0)); using type = View<typename MakeDT<typename DT<D>::value, R>::type, L>; };
}
template <class D, class... P, class... A> inline auto subview(const View<D, P...>& v, A... a) {
  using V = typename impl::SubT<D, typename View<D, P...>::array_layout, A...>::type;
  V r; int k = 0, i = 0, mask = 0;
  ((impl::isall<A>::value ? (void)(r.ext[k++] = v.ext[i], i++) : impl::isrng<A>::value ? (void)(r.ext[k++] = impl::ix2(a) - impl::ix(a), mask |= 256 << i, i++) : (void)(mask |= 1 << i, i++)), ...);
  r.h = __vc_view_sub(v.h, (int)sizeof...(A), mask, impl::ix(a)..., impl::ix2(a)...);
  return r;
}

// ---------------------------------------------------------------- policies, parallel constructs
template <class... P> struct RangePolicy {
  uint64_t b, e; using member_type = uint64_t; using execution_space = OpenMP;
  RangePolicy(uint64_t b_, uint64_t e_) : b(b_), e(e_) {}
  template <class S> RangePolicy(const S&, uint64_t b_, uint64_t e_) : b(b_), e(e_) {}
  uint64_t begin() const { return b; } uint64_t end() const { return e; }
};
struct ScratchReq {}; inline ScratchReq PerTeam(size_t) { return {}; } inline ScratchReq PerThread(size_t) { return {}; }
struct TeamMember {
  uint64_t lr, ls;
  int league_rank() const { return (int)lr; } int league_size() const { return (int)ls; } int team_rank() const { return 0; } int team_size() const { return 1; }
  void team_barrier() const {}
  HostSpace team_shmem() const { return {}; } HostSpace team_scratch(int) const { return {}; } HostSpace thread_scratch(int) const { return {}; }
};
template <class... P> struct TeamPolicy {
  using member_type = TeamMember; uint64_t n;
  TeamPolicy(uint64_t n_, int) : n(n_) {} TeamPolicy(uint64_t n_, AUTO_t) : n(n_) {} TeamPolicy(uint64_t n_, int, int) : n(n_) {} TeamPolicy(uint64_t n_, AUTO_t, AUTO_t) : n(n_) {}
  template <class... A> TeamPolicy& set_scratch_size(A...) { return *this; }
  template <class F, class T> int team_size_recommended(const F&, const T&) const { return 1; } template <class F, class T> int team_size_max(const F&, const T&) const { return 1; }
};
struct ParallelForTag {}; struct ParallelReduceTag {};
struct TeamR { uint64_t b, e; };
inline TeamR TeamVectorRange(const TeamMember&, uint64_t n) { return {0, n}; } inline TeamR TeamVectorRange(const TeamMember&, uint64_t a, uint64_t b) { return {a, b}; }
inline TeamR TeamThreadRange(const TeamMember&, uint64_t n) { return {0, n}; } inline TeamR TeamThreadRange(const TeamMember&, uint64_t a, uint64_t b) { return {a, b}; }
inline TeamR ThreadVectorRange(const TeamMember&, uint64_t n) { return {0, n}; } inline TeamR ThreadVectorRange(const TeamMember&, uint64_t a, uint64_t b) { return {a, b}; }
inline TeamMember PerTeam(const TeamMember& m) { return m; } inline TeamMember PerThread(const TeamMember& m) { return m; }
template <class F> inline void single(const TeamMember&, const F& f) { f(); }

template <class F> inline void par_range_(uint64_t b, uint64_t e, const F& f) {
  uint64_t n = b < e ? e - b : 0;
  if (__vc_par_mode(n)) { for (uint64_t i = 0; i < n; i++) f(b + i); }
  else { uint64_t i = __vc_par_begin(n); f(b + i); __vc_par_end(); }
}
template <class... P, class F> inline void parallel_for(const RangePolicy<P...>& p, const F& f) { par_range_(p.b, p.e, f); }
template <class F> inline void parallel_for(const TeamR& p, const F& f) { par_range_(p.b, p.e, f); }
template <class... P, class F> inline void parallel_for(const TeamPolicy<P...>& p, const F& f) { par_range_(0, p.n, [&](uint64_t i) { TeamMember m{i, p.n}; f(m); }); }
template <class I, class F, std::enable_if_t<std::is_integral_v<I>, int> = 0> inline void parallel_for(I n, const F& f) { par_range_(0, (uint64_t)n, f); }
template <class Pol, class F> inline void parallel_for(const char*, const Pol& p, const F& f) { parallel_for(p, f); }
template <class Pol, class F> inline void parallel_for(const std::string&, const Pol& p, const F& f) { parallel_for(p, f); }

template <class T, class S = HostSpace> struct Sum { using value_type = T; T& r; Sum(T& x) : r(x) {} static constexpr int kind = 0; static T identity() { return T(0); } };
template <class T, class S = HostSpace> struct Max { using value_type = T; T& r; Max(T& x) : r(x) {} static constexpr int kind = 1; static T identity() { return std::numeric_limits<T>::lowest(); } };
template <class T, class S = HostSpace> struct Min { using value_type = T; T& r; Min(T& x) : r(x) {} static constexpr int kind = 2; static T identity() { return std::numeric_limits<T>::max(); } };
template <class T, class S = HostSpace> struct LAnd { using value_type = T; T& r; LAnd(T& x) : r(x) {} static constexpr int kind = 3; static T identity() { return T(1); } };
template <class T, class S = HostSpace> struct LOr { using value_type = T; T& r; LOr(T& x) : r(x) {} static constexpr int kind = 4; static T identity() { return T(0); } };
namespace impl {
template <class R> struct is_red : std::false_type {};
template <class T, class S> struct is_red<Sum<T, S>> : std::true_type {}; template <class T, class S> struct is_red<Max<T, S>> : std::true_type {}; template <class T, class S> struct is_red<Min<T, S>> : std::true_type {};
template <class T, class S> struct is_red<LAnd<T, S>> : std::true_type {}; template <class T, class S> struct is_red<LOr<T, S>> : std::true_type {};
template <class F, class R> inline void reduce1(uint64_t b, uint64_t e, const F& f, R red) {
  using T = typename R::value_type;
  uint64_t n = b < e ? e - b : 0;
  T acc = R::identity();
  if (__vc_par_mode(n)) { for (uint64_t i = 0; i < n; i++) f(b + i, acc); red.r = acc; return; }
  uint64_t i = __vc_par_begin(n);
  T* pa = new T(R::identity());
  f(b + i, *pa);
  if constexpr (std::is_floating_point_v<T>) red.r = (T)__vc_red_end_r(R::kind, *pa, R::identity());
  else red.r = (T)__vc_red_end_i(R::kind, (uint64_t)*pa, (uint64_t)R::identity());
}
template <class F, class... R> inline void reduceN(uint64_t b, uint64_t e, const F& f, R... red) {
  if constexpr (sizeof...(R) == 1) reduce1(b, e, f, red...);
  else {
    uint64_t n = b < e ? e - b : 0;
    std::tuple<typename R::value_type...> acc{R::identity()...};
    if (__vc_par_mode(n)) { std::apply([&](auto&... a) { for (uint64_t i = 0; i < n; i++) f(b + i, a...); }, acc); std::apply([&](auto&... a) { ((red.r = a), ...); }, acc); return; }
    __vc_abort("multi-result reduction");
  }
}
template <class X> inline auto as_red(X&& x) { if constexpr (is_red<std::remove_const_t<std::remove_reference_t<X>>>::value) return x; else return Sum<std::remove_reference_t<X>>(x); }
}
template <class... P, class F, class... R> inline void parallel_reduce(const RangePolicy<P...>& p, const F& f, R&&... r) { impl::reduceN(p.b, p.e, f, impl::as_red(r)...); }
template <class F, class... R> inline void parallel_reduce(const TeamR& p, const F& f, R&&... r) { impl::reduceN(p.b, p.e, f, impl::as_red(r)...); }
template <class... P, class F, class... R> inline void parallel_reduce(const TeamPolicy<P...>& p, const F& f, R&&... r) { __vc_abort("team reduction"); }
template <class I, class F, class... R, std::enable_if_t<std::is_integral_v<I>, int> = 0> inline void parallel_reduce(I n, const F& f, R&&... r) { impl::reduceN(0, (uint64_t)n, f, impl::as_red(r)...); }
template <class Pol, class F, class... R> inline void parallel_reduce(const char*, const Pol& p, const F& f, R&&... r) { parallel_reduce(p, f, r...); }
template <class Pol, class F, class... R> inline void parallel_reduce(const std::string&, const Pol& p, const F& f, R&&... r) { parallel_reduce(p, f, r...); }

namespace impl {
template <class A> struct scan_arg; 
template <class C, class R, class I, class T> struct scan_arg<R (C::*)(I, T&, bool) const> { using type = T; };
template <class C, class R, class I, class T> struct scan_arg<R (C::*)(I, T&, const bool) const volatile> { using type = T; };
}
template <class F> inline auto scan_(uint64_t b, uint64_t e, const F& f) {
  using T = typename impl::scan_arg<decltype(&F::operator())>::type;
  uint64_t n = b < e ? e - b : 0;
  if (__vc_par_mode(n)) { T u = 0; for (uint64_t i = 0; i < n; i++) f(b + i, u, true); return u; }
  uint64_t i = __vc_scan_begin(n); T u = 0;
  f(b + i, u, false);
  u = (T)__vc_scan_mid((uint64_t)u, 8 * sizeof(T));
  f(b + i, u, true);
  return (T)__vc_scan_end(8 * sizeof(T));
}
template <class... P, class F> inline void parallel_scan(const RangePolicy<P...>& p, const F& f) { scan_(p.b, p.e, f); }
template <class I, class F, std::enable_if_t<std::is_integral_v<I>, int> = 0> inline void parallel_scan(I n, const F& f) { scan_(0, (uint64_t)n, f); }
template <class... P, class F, class T> inline void parallel_scan(const RangePolicy<P...>& p, const F& f, T& r) { r = scan_(p.b, p.e, f); }
template <class I, class F, class T, std::enable_if_t<std::is_integral_v<I>, int> = 0> inline void parallel_scan(I n, const F& f, T& r) { r = scan_(0, (uint64_t)n, f); }
template <class Pol, class F> inline void parallel_scan(const char*, const Pol& p, const F& f) { parallel_scan(p, f); }
template <class Pol, class F> inline void parallel_scan(const std::string&, const Pol& p, const F& f) { parallel_scan(p, f); }
template <class Pol, class F, class T> inline void parallel_scan(const char*, const Pol& p, const F& f, T& r) { parallel_scan(p, f, r); }
template <class Pol, class F, class T> inline void parallel_scan(const std::string&, const Pol& p, const F& f, T& r) { parallel_scan(p, f, r); }

// ---------------------------------------------------------------- atomics: sequential semantics of one call
template <class T, class U> inline void atomic_add(T* p, U v) { *p += v; }
template <class T, class U> inline T atomic_fetch_add(T* p, U v) { T o = *p; *p += v; return o; }
template <class T, class U> inline T atomic_fetch_sub(T* p, U v) { T o = *p; *p -= v; return o; }
template <class T, class U> inline T atomic_fetch_max(T* p, U v) { T o = *p; if (o < (T)v) *p = v; return o; }
template <class T, class U> inline T atomic_fetch_min(T* p, U v) { T o = *p; if ((T)v < o) *p = v; return o; }
template <class T, class U> inline void atomic_max(T* p, U v) { atomic_fetch_max(p, v); }
template <class T, class U> inline void atomic_min(T* p, U v) { atomic_fetch_min(p, v); }
template <class T, class U> inline T atomic_fetch_or(T* p, U v) { T o = *p; *p = o | v; return o; }
template <class T, class U> inline void atomic_or(T* p, U v) { *p = *p | v; }
template <class T, class U> inline T atomic_fetch_and(T* p, U v) { T o = *p; *p = o & v; return o; }
template <class T> inline void atomic_increment(T* p) { ++*p; }
template <class T> inline void atomic_decrement(T* p) { --*p; }
template <class T, class U> inline T atomic_exchange(T* p, U v) { T o = *p; *p = v; return o; }
template <class T, class U> inline void atomic_store(T* p, U v) { *p = v; }
template <class T> inline T atomic_load(const T* p) { return *p; }
namespace Experimental {
template <class S, class V, class T> inline void fill(const S&, const V& v, T x) { deep_copy(v, x); }
}
}
#include "vc_views.h"
