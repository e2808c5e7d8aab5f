// Finite-volume update: slopes, reconstruction, predictor, the flux through each face and the update of a cell.
// The Riemann solver (C07) is replaced by its interface: it records the states it is given and returns an arbitrary flux.
#include "stub_mesh.h"
#include "UserData.h"
#include "states/State_hydro.h"
#include "states/State_MHD.h"
#include "states/State_GLMMHD.h"
#include "utils_hydro.h"
#include "RiemannSolvers.h"
namespace dyablo {
struct VcCall { double l[9], r[9], f[9], p; };
struct VcLog { int n; VcCall c[10]; };
static VcLog vc_log;
template <class P> typename std::conditional<std::is_same<P, PrimHydroState>::value, ConsHydroState, typename std::conditional<std::is_same<P, PrimMHDState>::value, ConsMHDState, ConsGLMMHDState>::type>::type
vc_riemann_hydro(const P& l, const P& r, const RiemannParams&, double& p_out, double) {
  static const char* N[10][10] = {
#define R(a) {#a "0", #a "1", #a "2", #a "3", #a "4", #a "5", #a "6", #a "7", #a "8", #a "p"}
    R(fa), R(fb), R(fc), R(fd), R(fe), R(ff), R(fg), R(fh), R(fi), R(fj)
#undef R
  };
  constexpr int n = sizeof(P) / sizeof(double); VcCall& c = vc_log.c[vc_log.n]; const char** nm = N[vc_log.n]; vc_log.n++;
  const double* x = (const double*)&l; const double* y = (const double*)&r;
  typename std::conditional<std::is_same<P, PrimHydroState>::value, ConsHydroState, typename std::conditional<std::is_same<P, PrimMHDState>::value, ConsMHDState, ConsGLMMHDState>::type>::type F; double* z = (double*)&F;
  for (int i = 0; i < n; i++) { c.l[i] = x[i]; c.r[i] = y[i]; c.f[i] = z[i] = vc::real(nm[i], -9, 9); }
  p_out = c.p = vc::real(nm[9], -9, 9); return F;
}
template <class P> auto vc_riemann_hydro(const P& l, const P& r, const RiemannParams& p) { double po; return vc_riemann_hydro(l, r, p, po, 0.0); }
}
#define riemann_hydro vc_riemann_hydro
#include "hydro/HydroUpdate_utils.h"
#undef riemann_hydro
// the user's flux at a boundary, any function of the solver's flux and the side
namespace dyablo {
static double vc_user_flux(double f, int i, int dir, bool min) { return vc::uf("user", f, i, dir, min); }
#define USER(n) template <> ConsHydroState BoundaryConditions::overrideBoundaryFlux<n, HydroState>(const ConsHydroState f, const PrimHydroState, const ComponentIndex3D dir, const bool min) const { ConsHydroState c; double* x = (double*)&c; const double* y = (const double*)&f; for (int i = 0; i < 5; i++) x[i] = vc_user_flux(y[i], i, dir, min); return c; }
USER(2) USER(3)
#undef USER
}
using namespace dyablo;
using CI = ForeachCell::CellIndex;
struct Par { alignas(16) char m[sizeof(RiemannParams)]; RiemannParams& r() { return *(RiemannParams*)m; } };
static RiemannParams& params(Par& b) { RiemannParams& p = b.r(); p.gamma0 = vc::real("gamma", 1.01, 3); p.smallr = 1e-9; p.smallp = 1e-9; p.ch = vc::real("ch", 0.01, 1); p.cr = vc::real("cr", 0.01, 1); return p; }
struct Bc { alignas(16) char m[sizeof(BoundaryConditions)]; BoundaryConditions& r() { return *(BoundaryConditions*)m; } };
template <class S> static constexpr int NV = sizeof(S) / sizeof(double);
// axis exchange of variable i (0: density, 1: pressure or energy, 2-4: velocity or momentum, 5-7: field, 8: potential)
static int sw(int i, int d) { if (i < 2 || i > 7) return i; int b = i < 5 ? 2 : 5, k = i - b; return b + (k == 0 ? d : k == d ? 0 : k); }

// ---- slopes: minmod of the two one-sided differences
template <class P> static void slope() {
  P m, c, p; double* a = (double*)&m; double* b = (double*)&c; double* d = (double*)&p; static const char* M[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8"}; static const char* C[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"}; static const char* Q[] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8"};
  for (int i = 0; i < NV<P>; i++) { a[i] = vc::real(M[i], -9, 9); b[i] = vc::real(C[i], -9, 9); d[i] = vc::real(Q[i], -9, 9); }
  double dl = vc::real("dl", 0.25, 4), dr = vc::real("dr", 0.25, 4); P s = compute_slope<3>(m, c, p, dl, dr), t = compute_slope<3>(p, c, m, dr, dl); const double* x = (const double*)&s; const double* y = (const double*)&t;
  for (int i = 0; i < NV<P>; i++) {
    double r = (d[i] - b[i]) / dr, l = (b[i] - a[i]) / dl;
    if (r > 0 && l > 0) vc::check_eq(x[i], r < l ? r : l, "the slope is the smaller of the two one-sided slopes", 1e2);
    else if (r < 0 && l < 0) vc::check_eq(x[i], r < l ? l : r, "the slope is the smaller of the two one-sided slopes", 1e2);
    else vc::check_eq(x[i], 0, "the slope is zero at an extremum", 1e2);
    vc::check_eq(y[i], -x[i], "mirroring the cells changes the sign of the slope", 1e2);
  }
}
VC_CONTRACT(slope_hydro) { slope<PrimHydroState>(); }
VC_CONTRACT(slope_mhd) { slope<PrimMHDState>(); }
VC_CONTRACT(slope_glmmhd) { slope<PrimGLMMHDState>(); }
template <class P> static void reconstruct() {
  P q, s; double* a = (double*)&q; double* b = (double*)&s; static const char* M[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8"}; static const char* C[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"};
  for (int i = 0; i < NV<P>; i++) { a[i] = vc::real(M[i], -9, 9); b[i] = vc::real(C[i], -9, 9); }
  double h = vc::real("size", 0.25, 2), fl = vc::real("smallr", 1e-9, 1e-2);
  for (int g = -1; g < 2; g += 2) { P r = reconstruct_lin_state(q, s, g, fl, h); const double* x = (const double*)&r; for (int i = 0; i < NV<P>; i++) { double e = a[i] + g * h * b[i]; vc::check_eq(x[i], i == 0 && e < fl ? fl : e, "the reconstruction is linear with a floor on the density", 1e2); } }
}
VC_CONTRACT(reconstruct_hydro) { reconstruct<PrimHydroState>(); }
VC_CONTRACT(reconstruct_mhd) { reconstruct<PrimMHDState>(); }
VC_CONTRACT(reconstruct_glmmhd) { reconstruct<PrimGLMMHDState>(); }

// ---- predictor: half a time step of the equations in primitive form, written for one direction and applied to the three with axes exchanged
template <class P> static void rate(const P& q, const P& s, double g, double* o) {
  const double* x = (const double*)&q; const double* d = (const double*)&s; for (int i = 0; i < 9; i++) o[i] = 0;
  double r = x[0], p = x[1], u = x[2]; o[0] = -u * d[0] - r * d[2]; o[1] = -u * d[1] - g * p * d[2]; o[2] = -u * d[2] - d[1] / r; o[3] = -u * d[3]; o[4] = -u * d[4];
  if constexpr (NV<P> == 8) { double bx = x[5], by = x[6], bz = x[7], v = x[3], w = x[4]; o[2] -= (by * d[6] + bz * d[7]) / r; o[3] += bx * d[6] / r; o[4] += bx * d[7] / r; o[6] = v * d[5] + d[3] * bx - u * d[6] - d[2] * by; o[7] = w * d[5] + d[4] * bx - u * d[7] - d[2] * bz; }
}
template <class P, int ndim> static void predictor() {
  P q, s[3]; static const char* N[4][8] = {{"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7"}, {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"}, {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7"}, {"z0", "z1", "z2", "z3", "z4", "z5", "z6", "z7"}};
  for (int k = 0; k < 4; k++) { double* a = k ? (double*)&s[k - 1] : (double*)&q; for (int i = 0; i < NV<P>; i++) a[i] = i == 4 && ndim == 2 ? 0.0 : !k && i < 2 ? vc::real(N[k][i], 0.01, 9) : vc::real(N[k][i], -9, 9); }
  double g = vc::real("gamma", 1.01, 3), t[3] = {vc::real("tx", 0, 1), vc::real("ty", 0, 1), vc::real("tz", 0, 1)}; P r = compute_source<ndim>(q, s[0], s[1], s[2], t[0], t[1], t[2], g);
  double e[9]; const double* a = (const double*)&q; for (int i = 0; i < 9; i++) e[i] = i < NV<P> ? a[i] : 0;
  for (int d = 0; d < ndim; d++) { P x = swapComponents(q, (ComponentIndex3D)d), y = swapComponents(s[d], (ComponentIndex3D)d); double o[9]; rate(x, y, g, o); for (int i = 0; i < NV<P>; i++) e[sw(i, d)] += o[i] * t[d] / 2; }
  const double* x = (const double*)&r; for (int i = 0; i < NV<P>; i++) if (ndim == 3 || i != 4) vc::check_eq(x[i], e[i], "the predicted state is half a time step of the equations in primitive form", 1e5);
}
VC_CONTRACT(predictor_hydro_2d) { predictor<PrimHydroState, 2>(); }
VC_CONTRACT(predictor_hydro_3d) { predictor<PrimHydroState, 3>(); }
VC_CONTRACT(predictor_mhd_2d) { predictor<PrimMHDState, 2>(); }
VC_CONTRACT(predictor_mhd_3d) { predictor<PrimMHDState, 3>(); }

// ---- the update of one cell: cells on a line along the flux direction, known to the update through the array interface below.
// Contract of the neighbour functions (C05): the cell next to the updated one has a level difference and, if finer, several cells touch the face.
struct World { int dir, ld[2]; bool bd[2]; double Q[5][9], U[2][2][4][9], out[9]; int nsub; };
static World W;
struct LineCell {
  using offset_t = CI::offset_t; int where, pos, k;   // where: 0 in a patch, 1 in the input array, 2 in the output array
  LineCell operator+(const offset_t& o) const { LineCell c = *this; c.pos += o[0] + o[1] + o[2]; for (int i = 0; i < 3; i++) vc::check(i == W.dir || o[i] == 0, "only cells along the flux direction are used"); return c; }
  template <class S> LineCell getNeighbor_ghost(const offset_t& o, const S&) const { return *this + o; }
  int level_diff() const { return where == 1 && (pos == 1 || pos == -1) ? W.ld[pos > 0] : 0; }
  bool is_boundary() const { return where == 1 && pos != 0 && W.bd[pos > 0]; }
  bool is_valid() const { return true; }
};
struct LineShape { LineCell convert_index(const LineCell& c) const { return LineCell{1, c.pos, 0}; } };
struct LineArray {
  int where;
  LineShape getShape() const { return LineShape(); }
  LineCell convert_index(const LineCell& c) const { return LineCell{where, c.pos, 0}; }
  double& at(const LineCell& c, int v) const {
    vc::check(c.where == where, "an array is accessed with an index of its own");
    if (where == 0) { vc::check(c.pos >= -2 && c.pos <= 2, "two ghost cells are enough"); return W.Q[c.pos + 2][v]; }
    if (where == 2) { vc::check(c.pos == 0, "only the updated cell is written"); return W.out[v]; }
    vc::check(c.pos == 1 || c.pos == 2 || c.pos == -1 || c.pos == -2, "a neighbour cell is read"); return W.U[c.pos > 0][c.pos == 2 || c.pos == -2][c.k][v];
  }
};
template <int ndim, class F> int foreach_smaller_neighbor(const LineCell& c, const CI::offset_t&, const LineShape&, const F& f) { for (int k = 0; k < W.nsub; k++) f(LineCell{1, c.pos, k}); return W.nsub; }
template <class S> static void cons(double* o, const double* q, double g) { typename S::PrimState p; double* x = (double*)&p; for (int i = 0; i < NV<typename S::PrimState>; i++) x[i] = q[i]; typename S::ConsState c = primToCons<3>(p, g); const double* y = (const double*)&c; for (int i = 0; i < NV<typename S::PrimState>; i++) o[i] = y[i]; }
static void geometry(int ndim, int dir, int l, int r) { W.dir = dir; W.ld[0] = l; W.ld[1] = r; W.bd[0] = W.bd[1] = false; W.nsub = ndim == 2 ? 2 : 4; vc_log.n = 0; }
static const char* NM[12][9] = {
#define R(a) {#a "0", #a "1", #a "2", #a "3", #a "4", #a "5", #a "6", #a "7", #a "8"}
  R(A), R(B), R(C), R(D), R(E), R(F), R(G), R(H), R(I), R(J), R(K), R(L)
#undef R
};
template <class S, int ndim> static void prim(double* q, const char** nm) { for (int i = 0; i < NV<typename S::PrimState>; i++) q[i] = i == 4 && ndim == 2 ? 0.0 : i < 2 ? vc::real(nm[i], 0.5, 2) : vc::real(nm[i], -2, 2); }
template <class S, int ndim> static void update(const RiemannParams& p, double dt, double dx, const BoundaryConditions& bc, const GravityInfo& g) { LineArray in{1}, q{0}, out{2}; euler_update<ndim, S>(p, (ComponentIndex3D)W.dir, LineCell{2, 0, 0}, in, q, dt, dx, bc, g, out); }
static int nl(int i) { return W.ld[i] < 0 ? W.nsub : 1; }

// linear data: whatever the neighbour sizes, both sides of each face get the exact value on the face
template <class S, int ndim> static void linear(int dir, int l, int r) {
  Par b; RiemannParams& p = params(b); Bc c; BoundaryConditions& bc = c.r(); for (int i = 0; i < 3; i++) bc.bc_min[i] = bc.bc_max[i] = BC_ABSORBING; GravityInfo gi{0, 0, 0, false, false}; constexpr int n = NV<typename S::PrimState>;
  double q0[9], s[9]; for (int i = 0; i < n; i++) { q0[i] = i == 4 && ndim == 2 ? 0.0 : i < 2 ? vc::real(NM[0][i], 2, 4) : vc::real(NM[0][i], -2, 2); s[i] = i == 4 && ndim == 2 ? 0.0 : vc::real(NM[1][i], -0.25, 0.25); }
  geometry(ndim, dir, l, r); double at[3] = {0.75, 1, 1.5}, far[3] = {1.25, 2, 3.5};
  for (int i = 0; i < n; i++) { W.Q[2][i] = q0[i]; for (int d = 0; d < 2; d++) { int g = d ? 1 : -1, e = d ? r : l; W.Q[2 + g][i] = q0[i] + g * s[i] * (e == 1 ? 1.5 : 1); W.Q[2 + 2 * g][i] = q0[i] + g * s[i] * (e == 1 ? 1.5 : 2); } W.out[i] = 0; }
  for (int d = 0; d < 2; d++) { int g = d ? 1 : -1, e = (d ? r : l) + 1; for (int k = 0; k < W.nsub; k++) for (int f = 0; f < 2; f++) { double v[9]; for (int i = 0; i < n; i++) v[i] = q0[i] + g * s[i] * (f ? far[e] : at[e]); cons<S>(W.U[d][f][k], v, p.gamma0); } }
  update<S, ndim>(p, vc::real("dt", 0.01, 1), vc::real("dx", 0.1, 1), bc, gi);
  vc::check(vc_log.n == nl(0) + nl(1), "one flux per cell that touches a face");
  for (int k = 0; k < nl(0) + nl(1); k++) for (int i = 0; i < n; i++) { double e = q0[sw(i, dir)] + (k < nl(0) ? -0.5 : 0.5) * s[sw(i, dir)]; vc::check_eq(vc_log.c[k].l[i], e, "linear data is reconstructed exactly on the near side of a face", 1e2); vc::check_eq(vc_log.c[k].r[i], e, "linear data is reconstructed exactly on the far side of a face", 1e2); }
}
template <class S, int ndim> static void linears(int dir) { for (int l = -1; l < 2; l++) for (int r = -1; r < 2; r++) linear<S, ndim>(dir, l, r); }
VC_CONTRACT(linear_hydro_2d) { linears<HydroState, 2>(0); linears<HydroState, 2>(1); }
VC_CONTRACT(linear_hydro_3d) { for (int d = 0; d < 3; d++) linears<HydroState, 3>(d); }
VC_CONTRACT(linear_mhd_3d) { linears<MHDState, 3>(2); }
VC_CONTRACT(linear_glmmhd_3d) { linears<GLMMHDState, 3>(1); }

// arbitrary data: the update is the difference of the two face fluxes, a face shared with finer cells has their mean flux; gravity; boundaries of a well-balanced run
template <class S, int ndim> static void formula(int dir, int l, int r) {
  constexpr bool hydro = std::is_same<S, HydroState>::value; constexpr int n = NV<typename S::PrimState>;
  Par b; RiemannParams& p = params(b); Bc c; BoundaryConditions& bc = c.r(); bool um = vc::b("user_min"), ux = vc::b("user_max"); for (int i = 0; i < 3; i++) { bc.bc_min[i] = um && i == dir ? BC_USER : BC_REFLECTING; bc.bc_max[i] = ux && i == dir ? BC_USER : BC_REFLECTING; }
  double gx = vc::real("gx", -5, 5), gy = vc::real("gy", -5, 5), gz = vc::real("gz", -5, 5), dt = vc::real("dt", 0.01, 1), dx = vc::real("dx", 0.1, 1); GravityInfo gi{gx, gy, gz, vc::b("gravity"), hydro && vc::b("balanced")};
  geometry(ndim, dir, l, r); static const char* O[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8"};
  W.bd[0] = l == 0 && vc::b("boundary_min"); W.bd[1] = r == 0 && vc::b("boundary_max"); vc::assume(!W.bd[0] || !W.bd[1]);
  for (int i = 0; i < 5; i++) prim<S, ndim>(W.Q[i], NM[i]); double o[9]; for (int i = 0; i < n; i++) o[i] = W.out[i] = vc::real(O[i], -9, 9);
  static const char* V[2][2][4][9]; for (int d = 0; d < 2; d++) for (int f = 0; f < 2; f++) for (int k = 0; k < 4; k++) { double v[9]; for (int i = 0; i < n; i++) v[i] = W.Q[d ? 3 + f : 1 - f][i]; v[2] += 0.125 * k; v[0] += 0.0625 * (k + f); cons<S>(W.U[d][f][k], v, p.gamma0); }
  double q[9]; for (int i = 0; i < n; i++) q[i] = W.Q[2][i];
  update<S, ndim>(p, dt, dx, bc, gi);
  double F[2][9], P[2], g = !gi.apply_gravity_in_step ? 0 : dir == 0 ? gx : dir == 1 ? gy : gz; int m = 0;
  vc::check(vc_log.n == nl(0) + nl(1), "one flux per cell that touches a face");
  for (int d = 0; d < 2; d++) { for (int i = 0; i < n; i++) F[d][sw(i, dir)] = 0; P[d] = 0; for (int k = 0; k < nl(d); k++, m++) { for (int i = 0; i < n; i++) F[d][sw(i, dir)] += vc_log.c[m].f[i] / nl(d); P[d] += vc_log.c[m].p / nl(d); } }
  if (hydro) for (int d = 0; d < 2; d++) if (W.bd[d] && (d ? ux : um)) for (int i = 0; i < n; i++) F[d][i] = vc_user_flux(F[d][i], i, dir, d == 0);
  if (gi.well_balanced) for (int d = 0; d < 2; d++) if (W.bd[d] && !(d ? ux : um)) { for (int i = 0; i < n; i++) F[d][i] = 0; F[d][2 + dir] = P[1 - d] + (d ? 1 : -1) * q[0] * g * dx; }
  for (int i = 0; i < n; i++) {
    double e = o[i] + dt / dx * (F[0][i] - F[1][i]); if (i == 2 + dir) e += dt * q[0] * g; if (i == 1) e += dt * g * (F[0][0] + F[1][0]) / 2;
    if (i == 8) e *= exp(-0.5 * dt * (p.ch / dt) / p.cr);
    if (i != 4 || ndim == 3) vc::check_eq(W.out[i], e, "the update is the flux through the two faces plus gravity", 1e4);
  }
  // a well-balanced run extrapolates the pressure hydrostatically to the face
  if (gi.well_balanced) { double a = dir == 0 ? gx : dir == 1 ? gy : gz; for (int d = 0; d < 2; d++) if (nl(d) == 1) {
    VcCall& h = vc_log.c[d == 0 ? 0 : nl(0)]; const double* x = W.Q[1 + d]; const double* y = W.Q[2 + d];
    for (int i = 0; i < n; i++) { vc::check_eq(h.l[i], x[sw(i, dir)] + (i == 1 ? x[0] * a * dx / 2 : 0), "hydrostatic pressure on the near side", 1e2); vc::check_eq(h.r[i], y[sw(i, dir)] - (i == 1 ? y[0] * a * dx / 2 : 0), "hydrostatic pressure on the far side", 1e2); } } }
}
VC_CONTRACT(update_hydro_2d) { formula<HydroState, 2>(0, 0, 0); formula<HydroState, 2>(1, -1, 0); formula<HydroState, 2>(1, 0, 1); }
VC_CONTRACT(update_hydro_3d_x) { formula<HydroState, 3>(0, 0, 0); formula<HydroState, 3>(0, -1, 0); formula<HydroState, 3>(0, 0, -1); }
VC_CONTRACT(update_hydro_3d_y) { formula<HydroState, 3>(1, 0, 0); formula<HydroState, 3>(1, 1, 0); formula<HydroState, 3>(1, 0, -1); }
VC_CONTRACT(update_hydro_3d_z) { formula<HydroState, 3>(2, 0, 0); formula<HydroState, 3>(2, -1, 0); formula<HydroState, 3>(2, 1, 1); }
VC_CONTRACT(update_mhd_3d) { formula<MHDState, 3>(0, 0, 0); formula<MHDState, 3>(1, -1, 0); formula<MHDState, 3>(2, 1, -1); }
VC_CONTRACT(update_glmmhd_3d) { formula<GLMMHDState, 3>(0, 0, -1); formula<GLMMHDState, 3>(1, 1, 0); formula<GLMMHDState, 3>(2, 0, 0); }

// conservation: the two cells on the two sides of a face hand the same states to the Riemann solver
template <class S> static void same_calls(const VcCall& a, const VcCall& b) { for (int i = 0; i < NV<typename S::PrimState>; i++) { vc::check_eq(a.l[i], b.l[i], "both cells next to a face compute the same flux", 1e2); vc::check_eq(a.r[i], b.r[i], "both cells next to a face compute the same flux", 1e2); } }
template <class S, int ndim> static void setup_none(BoundaryConditions& bc) { for (int i = 0; i < 3; i++) bc.bc_min[i] = bc.bc_max[i] = BC_ABSORBING; }
static void copy(double* a, const double* b) { for (int i = 0; i < 9; i++) a[i] = b[i]; }
// equal sizes; the cells further out have any size
template <class S, int ndim> static void same_size(int dir, int l, int r) {
  constexpr int n = NV<typename S::PrimState>; Par b; RiemannParams& p = params(b); Bc c; BoundaryConditions& bc = c.r(); setup_none<S, ndim>(bc); GravityInfo gi{0, 0, 0, false, false}; double dt = vc::real("dt", 0.01, 1), dx = vc::real("dx", 0.1, 1);
  double v[6][9]; for (int i = 0; i < 6; i++) prim<S, ndim>(v[i], NM[i]);   // cells -2 -1 [0 1] 2 3
  auto fill = [&](int o, int a, int e) { geometry(ndim, dir, a, e); for (int i = 0; i < 5; i++) copy(W.Q[i], v[o + i]); for (int i = 0; i < n; i++) W.out[i] = 0; for (int d = 0; d < 2; d++) for (int f = 0; f < 2; f++) for (int k = 0; k < W.nsub; k++) cons<S>(W.U[d][f][k], W.Q[d ? 3 + f : 1 - f], p.gamma0); };
  fill(0, l, 0); update<S, ndim>(p, dt, dx, bc, gi); VcCall a = vc_log.c[nl(0)]; fill(1, 0, r); update<S, ndim>(p, dt, dx, bc, gi); same_calls<S>(a, vc_log.c[0]);
}
template <class S, int ndim> static void same_sizes() { for (int l = -1; l < 2; l++) same_size<S, ndim>(l + 1 < ndim ? l + 1 : 0, l, 0); for (int r = -1; r < 2; r += 2) same_size<S, ndim>(0, 0, r); }
VC_CONTRACT(conservation_same_size_hydro_2d) { same_sizes<HydroState, 2>(); }
VC_CONTRACT(conservation_same_size_hydro_3d) { same_sizes<HydroState, 3>(); }
VC_CONTRACT(conservation_same_size_mhd) { same_size<MHDState, 3>(0, 0, 0); same_size<MHDState, 3>(2, 0, 0); }
// a cell and the finer cells across one face (side 0: below, 1: above)
template <class S, int ndim> static void coarse_fine(int dir, int side) {
  constexpr int n = NV<typename S::PrimState>, ns = ndim == 2 ? 2 : 4; Par b; RiemannParams& p = params(b); Bc c; BoundaryConditions& bc = c.r(); setup_none<S, ndim>(bc); GravityInfo gi{0, 0, 0, false, false}; double dt = vc::real("dt", 0.01, 1), dx = vc::real("dx", 0.1, 1);
  double far[9], ctr[9], mean[9], f[4][9], g[4][9], h[9]; prim<S, ndim>(far, NM[0]); prim<S, ndim>(ctr, NM[1]); prim<S, ndim>(mean, NM[2]); prim<S, ndim>(h, NM[3]); for (int k = 0; k < ns; k++) { prim<S, ndim>(f[k], NM[4 + k]); prim<S, ndim>(g[k], NM[8 + k]); }
  int s = side ? 1 : -1; auto zero = [&] { for (int i = 0; i < n; i++) W.out[i] = 0; };
  geometry(ndim, dir, side ? 0 : -1, side ? -1 : 0); zero(); copy(W.Q[2], ctr); copy(W.Q[2 - s], far); copy(W.Q[2 - 2 * s], h); copy(W.Q[2 + s], mean); copy(W.Q[2 + 2 * s], mean);
  for (int k = 0; k < ns; k++) { cons<S>(W.U[side][0][k], f[k], p.gamma0); cons<S>(W.U[side][1][k], g[k], p.gamma0); }
  update<S, ndim>(p, dt, dx, bc, gi); VcCall a[4]; for (int k = 0; k < ns; k++) a[k] = vc_log.c[(side ? 1 : 0) + k];
  for (int k = 0; k < ns; k++) {
    geometry(ndim, dir, side ? 1 : 0, side ? 0 : 1); zero(); copy(W.Q[2], f[k]); copy(W.Q[2 - s], ctr); copy(W.Q[2 - 2 * s], ctr); copy(W.Q[2 + s], g[k]); copy(W.Q[2 + 2 * s], h);
    for (int j = 0; j < ns; j++) { cons<S>(W.U[1 - side][0][j], ctr, p.gamma0); cons<S>(W.U[1 - side][1][j], far, p.gamma0); }
    update<S, ndim>(p, dt, dx / 2, bc, gi); same_calls<S>(a[k], vc_log.c[side ? 0 : 1]);
  }
}
VC_CONTRACT(conservation_coarse_fine_2d) { for (int d = 0; d < 2; d++) for (int s = 0; s < 2; s++) coarse_fine<HydroState, 2>(d, s); }
VC_CONTRACT(conservation_coarse_fine_3d) { for (int s = 0; s < 2; s++) coarse_fine<HydroState, 3>(2 - s, s); }
VC_CONTRACT(conservation_coarse_fine_mhd) { for (int s = 0; s < 2; s++) coarse_fine<MHDState, 3>(s, s); }

// a reflecting wall: with mirrored cells beyond it, the states on the two sides of the boundary face are mirror images, and the predictor keeps them so
template <int ndim> static void wall(int dir, int side) {
  Par b; RiemannParams& p = params(b); Bc c; BoundaryConditions& bc = c.r(); for (int i = 0; i < 3; i++) bc.bc_min[i] = bc.bc_max[i] = BC_REFLECTING; GravityInfo gi{0, 0, 0, false, false};
  geometry(ndim, dir, 0, 0); W.bd[side] = true; int g = side ? 1 : -1; for (int i = 0; i < 3; i++) prim<HydroState, ndim>(W.Q[2 - g * i], NM[i]); for (int i = 0; i < 5; i++) { double m = i == 2 + dir ? -1 : 1; W.Q[2 + g][i] = m * W.Q[2][i]; W.Q[2 + 2 * g][i] = m * W.Q[2 - g][i]; W.out[i] = 0; }
  update<HydroState, ndim>(p, vc::real("dt", 0.01, 1), vc::real("dx", 0.1, 1), bc, gi);
  for (int i = 0; i < 5; i++) if (i != 4 || ndim == 3) vc::check_eq(vc_log.c[side].l[i], (i == 2 ? -1 : 1) * vc_log.c[side].r[i], "the states on the two sides of a wall are mirror images", 1e2);
}
VC_CONTRACT(wall_faces) { for (int d = 0; d < 2; d++) for (int s = 0; s < 2; s++) wall<2>(d, s); for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) wall<3>(d, s); }
template <int ndim> static void mirrored(int d) {
  PrimHydroState q{}, s[3]{}, mq{}, ms[3]{}; static const char* N[4][5] = {{"q0", "q1", "q2", "q3", "q4"}, {"x0", "x1", "x2", "x3", "x4"}, {"y0", "y1", "y2", "y3", "y4"}, {"z0", "z1", "z2", "z3", "z4"}};
  for (int j = 0; j < (ndim == 3 ? 4 : 3); j++) for (int i = 0; i < (ndim == 3 ? 5 : 4); i++) { double v = j == 0 && i < 2 ? vc::real(N[j][i], 0.5, 2) : vc::real(N[j][i], -2, 2); double m = (i == 2 + d ? -1 : 1) * (j == d + 1 ? -1 : 1); ((double*)(j ? &s[j - 1] : &q))[i] = v; ((double*)(j ? &ms[j - 1] : &mq))[i] = m * v; }
  double a = vc::real("dtdx", 0.01, 1), e = vc::real("dtdy", 0.01, 1), f = vc::real("dtdz", 0.01, 1), g = vc::real("gamma", 1.1, 3); PrimHydroState r = compute_source<ndim>(q, s[0], s[1], s[2], a, e, f, g), m = compute_source<ndim>(mq, ms[0], ms[1], ms[2], a, e, f, g);
  for (int i = 0; i < (ndim == 3 ? 5 : 4); i++) vc::check_eq(((double*)&m)[i], (i == 2 + d ? -1 : 1) * ((double*)&r)[i], "the predicted state of the mirrored cell is the mirrored predicted state", 1e2);
}
VC_CONTRACT(predictor_mirror) { for (int d = 0; d < 2; d++) mirrored<2>(d); for (int d = 0; d < 3; d++) mirrored<3>(d); }
