// State vectors: conversions between conservative and primitive variables, axis swaps, storage in cell arrays, arithmetic.
#include "stub_mesh.h"
#include "UserData.h"
#include "states/State_hydro.h"
#include "states/State_MHD.h"
#include "states/State_GLMMHD.h"
#include "utils_hydro.h"
using namespace dyablo;
using FC = ForeachCell; using CI = FC::CellIndex;
template <class S> static constexpr int NV = State_traits<S>::nvars;
template <class S> static S any(const char* p, bool cons, int ndim) {
  static const char* N[2][9] = {{"A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8"}, {"B0", "B1", "B2", "B3", "B4", "B5", "B6", "B7", "B8"}};
  const char** n = N[p[0] == 'B']; S s; double* v = (double*)&s;
  for (int i = 0; i < NV<S>; i++) v[i] = i == 0 ? vc::real(n[i], 1e-3, 100) : i == 1 && !cons ? vc::real(n[i], 1e-3, 100) : vc::real(n[i], -100, 100);
  if (ndim == 2) v[4] = 0;
  return s;
}
template <class S> static void equal(const S& a, const S& b, const char* l) { const double* x = (const double*)&a; const double* y = (const double*)&b; for (int i = 0; i < NV<S>; i++) vc::check_eq(x[i], y[i], l, 1e3); }
template <class S, int ndim, bool mag> static void convert() {
  using P = typename S::PrimState; using C = typename S::ConsState; double g = vc::real("gamma", 1.01, 3);
  P q = any<P>("A", false, ndim); C u = primToCons<ndim>(q, g);
  double em = 0, ek = q.rho * (q.u * q.u + q.v * q.v + q.w * q.w) / 2; if constexpr (mag) em = (q.Bx * q.Bx + q.By * q.By + q.Bz * q.Bz) / 2;
  vc::check_eq(u.rho, q.rho, "density is the same in both forms"); vc::check_eq(u.e_tot, q.p / (g - 1) + ek + em, "total energy is internal plus kinetic plus magnetic energy", 1e6);
  vc::check_eq(u.rho_u, q.rho * q.u, "momentum is density times velocity", 1e4); vc::check_eq(u.rho_v, q.rho * q.v, "momentum is density times velocity", 1e4); vc::check_eq(u.rho_w, q.rho * q.w, "momentum is density times velocity", 1e4);
  if constexpr (mag) { vc::check_eq(u.Bx, q.Bx, "the magnetic field is the same in both forms"); vc::check_eq(u.By, q.By, "the magnetic field is the same in both forms"); vc::check_eq(u.Bz, q.Bz, "the magnetic field is the same in both forms"); }
  const double* a = (const double*)&q; P r = consToPrim<ndim>(u, g); const double* b = (const double*)&r;
  for (int i = 0; i < NV<P>; i++) vc::check_eq(a[i], b[i], "converting to conservative form and back changes nothing", 1e6);
  C c = any<C>("B", true, ndim); C d = primToCons<ndim>(consToPrim<ndim>(c, g), g); const double* x = (const double*)&c; const double* y = (const double*)&d;
  for (int i = 0; i < NV<C>; i++) vc::check_eq(x[i], y[i], "converting to primitive form and back changes nothing", 1e6);
}
VC_CONTRACT(convert_hydro_2d) { convert<HydroState, 2, false>(); }
VC_CONTRACT(convert_hydro_3d) { convert<HydroState, 3, false>(); }
VC_CONTRACT(convert_mhd_2d) { convert<MHDState, 2, true>(); }
VC_CONTRACT(convert_mhd_3d) { convert<MHDState, 3, true>(); }
VC_CONTRACT(convert_glmmhd_2d) { convert<GLMMHDState, 2, true>(); }
VC_CONTRACT(convert_glmmhd_3d) { convert<GLMMHDState, 3, true>(); }
// exchanging x with another axis: vectors are permuted, nothing else changes, doing it twice is the identity, and it commutes with the conversions
template <class S, bool mag> static void swap_() {
  using P = typename S::PrimState; using C = typename S::ConsState; double g = vc::real("gamma", 1.01, 3); int d = vc::i32("axis", 0, 2);
  for (int a = 0; a < 3; a++) if (a == d) {
    ComponentIndex3D ax = (ComponentIndex3D)a; P q = any<P>("A", false, 3); C u = any<C>("B", true, 3);
    P s = swapComponents(q, ax); C t = swapComponents(u, ax);
    const double* x = (const double*)&q; const double* y = (const double*)&s; const double* z = (const double*)&u; const double* w = (const double*)&t;
    for (int i = 0; i < NV<P>; i++) {
      int b = i < 2 || i > 7 ? i : i < 5 ? 2 + (i - 2 == 0 ? a : i - 2 == a ? 0 : i - 2) : 5 + (i - 5 == 0 ? a : i - 5 == a ? 0 : i - 5);
      vc::check_eq(y[i], x[b], "exchanging two axes permutes the vector components and nothing else"); vc::check_eq(w[i], z[b], "exchanging two axes permutes the vector components and nothing else");
    }
    equal(swapComponents(s, ax), q, "exchanging two axes twice changes nothing"); equal(swapComponents(t, ax), u, "exchanging two axes twice changes nothing");
    C e = swapComponents(primToCons<3>(q, g), ax), f = primToCons<3>(s, g); const double* m = (const double*)&e; const double* n = (const double*)&f;
    for (int i = 0; i < NV<C>; i++) vc::check_eq(m[i], n[i], "exchanging axes commutes with the conversion", 1e6);
  }
}
VC_CONTRACT(swap_hydro) { swap_<HydroState, false>(); }
VC_CONTRACT(swap_mhd) { swap_<MHDState, true>(); }
VC_CONTRACT(swap_glmmhd) { swap_<GLMMHDState, true>(); }
// writing a state to a cell of an array and reading it back
template <class S, int ndim> static void store() {
  using P = typename S::PrimState; using C = typename S::ConsState; uint32_t b[3] = {4, 4, ndim == 3 ? 4u : 1u}, no = 3; const int nv = NV<P>;
  VcMesh m; m.dim = ndim; m.no = no; VcConfig k; k.seti("amr", "bx", b[0]); k.seti("amr", "by", b[1]); k.seti("amr", "bz", b[2]); FC fc(m, k);
  for (int form = 0; form < 2; form++) {
    FieldManager f = form ? C::getFieldManager() : P::getFieldManager(); auto a = fc.allocate_ghosted_array("a", f); vc::check(a.nbfields() == nv, "an array of states has one field per variable");
    auto cell = [&](const char* i, const char* j, const char* kk, const char* o) { CI c; c.bx = b[0]; c.by = b[1]; c.bz = b[2]; c.i = vc::u32(i, 0, b[0] - 1); c.j = vc::u32(j, 0, b[1] - 1); c.k = vc::u32(kk, 0, b[2] - 1); c.status = CI::LOCAL_TO_BLOCK; c.iOct.isGhost = false; c.iOct.iOct = vc::u32(o, 0, no - 1); return c; };
    CI c = cell("i", "j", "k", "o"), d = cell("i2", "j2", "k2", "o2"); vc::assume(c.i != d.i || c.j != d.j || c.k != d.k || c.iOct.iOct != d.iOct.iOct);
    if (form) { C u = any<C>("A", true, ndim), v = any<C>("B", true, ndim), r; setConservativeState<ndim>(a, c, u); setConservativeState<ndim>(a, d, v); getConservativeState<ndim>(a, c, r); equal(r, u, "a state written to a cell is read back from it"); getConservativeState<ndim>(a, d, r); equal(r, v, "a state written to a cell is read back from it"); }
    else { P u = any<P>("A", true, ndim), v = any<P>("B", true, ndim), r; setPrimitiveState<ndim>(a, c, u); setPrimitiveState<ndim>(a, d, v); getPrimitiveState<ndim>(a, c, r); equal(r, u, "a state written to a cell is read back from it"); getPrimitiveState<ndim>(a, d, r); equal(r, v, "a state written to a cell is read back from it"); }
  }
}
VC_CONTRACT(store_hydro_2d) { store<HydroState, 2>(); }
VC_CONTRACT(store_hydro_3d) { store<HydroState, 3>(); }
VC_CONTRACT(store_mhd_2d) { store<MHDState, 2>(); }
VC_CONTRACT(store_mhd_3d) { store<MHDState, 3>(); }
VC_CONTRACT(store_glmmhd_2d) { store<GLMMHDState, 2>(); }
VC_CONTRACT(store_glmmhd_3d) { store<GLMMHDState, 3>(); }
// arithmetic acts on every variable
template <class S> static void arith() {
  S a = any<S>("A", true, 3), b = any<S>("B", true, 3); double s = vc::real("s", 0.1, 10); const double* x = (const double*)&a; const double* y = (const double*)&b;
  S r[10] = {a + b, a - b, a * s, s * a, a / s, a, a, a, a, a * b}; r[5] += b; r[6] -= b; r[7] *= s; r[8] /= s;
  for (int i = 0; i < NV<S>; i++) {
    double e[10] = {x[i] + y[i], x[i] - y[i], x[i] * s, x[i] * s, x[i] / s, x[i] + y[i], x[i] - y[i], x[i] * s, x[i] / s, x[i] * y[i]};
    for (int k = 0; k < 10; k++) vc::check_eq(((const double*)&r[k])[i], e[k], "state arithmetic acts on every variable", 1e3);
  }
}
VC_CONTRACT(arithmetic_hydro) { arith<ConsHydroState>(); arith<PrimHydroState>(); }
VC_CONTRACT(arithmetic_mhd) { arith<ConsMHDState>(); arith<PrimMHDState>(); }
VC_CONTRACT(arithmetic_glmmhd) { arith<ConsGLMMHDState>(); arith<PrimGLMMHDState>(); }
// the state with floors used by the time step: the same as the plain conversion where no floor is active
VC_CONTRACT(primitives_with_floors) {
  double g = vc::real("gamma", 1.01, 3), sr = vc::real("smallr", 1e-10, 1e-2), sp = vc::real("smallp", 1e-10, 1e-2), c; ConsHydroState u; u.rho = vc::real("rho", -1, 100); u.e_tot = vc::real("e", -100, 100); u.rho_u = vc::real("mu", -100, 100); u.rho_v = vc::real("mv", -100, 100); u.rho_w = vc::real("mw", -100, 100);
  PrimHydroState q; computePrimitives(u, &c, q, g, sr, sp);
  vc::check(q.rho >= sr, "density is not below its floor"); vc::check_le(q.rho * sp, q.p, "pressure is not below its floor"); vc::check(c > 0, "the sound speed is positive"); vc::check_eq(c * c, g * q.p / q.rho, "the sound speed follows from pressure and density", 1e6);
  if (u.rho > sr) {
    PrimHydroState p = consToPrim<3>(u, g); vc::check_eq(q.rho, p.rho, "without floors the conversion is the plain one"); vc::check_eq(q.u, p.u, "without floors the conversion is the plain one", 1e4); vc::check_eq(q.v, p.v, "without floors the conversion is the plain one", 1e4); vc::check_eq(q.w, p.w, "without floors the conversion is the plain one", 1e4);
    if (p.p > p.rho * sp) vc::check_eq(q.p, p.p, "without floors the conversion is the plain one", 1e8);
  }
}
