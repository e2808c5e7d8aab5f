// A whole update of one periodic block, against the same update written cell by cell with the functions under contract in C06 and C08.
#pragma once
#include "hydro_world.h"
#include "hydro/HydroUpdate_utils.h"
using namespace dyablo; using FC = ForeachCell; using CI = FC::CellIndex; using Oct = LightOctree_base::OctantIndex;
// the mesh: one octant, its own neighbour in every direction
static bool vc_per[3];
struct Box { VcMesh m; VcConfig k; Box(int dim, uint32_t bx, uint32_t by, uint32_t bz, bool px = true, bool py = true, bool pz = true) { m.dim = dim; m.lm.storage = LightOctree_storage<>(dim, 1, 0, 0, {1, 1, 1}); Oct o; o.iOct = 0; o.isGhost = false; m.lm.storage.set(o, 0, 0, 0, 0); m.lm.min_level = m.lm.max_level = 0; m.lm.is_periodic = {px, py, pz}; vc_per[0] = px; vc_per[1] = py; vc_per[2] = pz;
#ifndef VC_IR
  m.lm.oct_map = decltype(m.lm.oct_map)(8); LightOctree_hashmap::key_t K; K.level = 0; K.i = K.j = K.k = 0; m.lm.oct_map.insert(K, o);
#endif
  k.seti("amr", "bx", bx); k.seti("amr", "by", by); k.seti("amr", "bz", bz); k.set("hydro", "gamma0", 1.4); k.set("hydro", "smallr", 1e-3); k.set("mesh", "xmax", 4); k.set("mesh", "ymax", 2); k.set("mesh", "zmax", 8); } };
extern "C" __attribute__((used, noinline)) LightOctree_base::NeighborList vc_selfNeighbor(const LightOctree_hashmap* m, const Oct& o, const LightOctree_base::offset_t& off) { LightOctree_base::NeighborList r; r.m_size = 1; r.m_neighbors[0] = o; return r; }
extern "C" __attribute__((used, noinline)) bool vc_noBoundary(const LightOctree_hashmap* m, const Oct& o, const LightOctree_base::offset_t& off) { return false; }
extern "C" __attribute__((used, noinline)) bool vc_edge(const LightOctree_hashmap* m, const Oct& o, const LightOctree_base::offset_t& off) { return (off[0] && !vc_per[0]) || (off[1] && !vc_per[1]) || (off[2] && !vc_per[2]); }
extern "C" __attribute__((used, noinline)) uint32_t vc_cell_count(const LightOctree_storage<>* s, ComponentIndex3D i, uint32_t L) { return 1; }
extern "C" __attribute__((used, noinline)) void vc_keep(const ForeachCell&, const void*, double, double, double) {}
static char vc_names[600][6]; static int vc_nn;
static const char* name(char a, int c, int i) { char* s = vc_names[vc_nn++]; s[0] = a; s[1] = 'a' + c / 26; s[2] = 'a' + c % 26; s[3] = '0' + i; s[4] = 0; return s; }
static const double SIZE[3] = {4, 2, 8};
template <class S, int ndim> struct Grid {
  static constexpr int n = S::N; using P = typename S::PrimState; using C = typename S::ConsState;
  int b[3]; double u[64][9], q[64][9];
  Grid(int x, int y, int z) : b{x, y, z} {}
  int count() const { return b[0] * b[1] * b[2]; }
  int at(int c, int d, int o) const { int p[3] = {c % b[0], c / b[0] % b[1], c / b[0] / b[1]}; p[d] = (p[d] + o + b[d]) % b[d]; return p[0] + b[0] * (p[1] + b[1] * p[2]); }
  double h(int d) const { return SIZE[d] / b[d]; }
  C cons(int c) const { C r; double* x = (double*)&r; for (int i = 0; i < n; i++) x[i] = u[c][i]; return r; }
  P prim(int c) const { P r; double* x = (double*)&r; for (int i = 0; i < n; i++) x[i] = q[c][i]; return r; }
  void prims(double gamma) { for (int c = 0; c < count(); c++) { P p = consToPrim<ndim>(cons(c), gamma); const double* x = (const double*)&p; for (int i = 0; i < n; i++) q[c][i] = x[i]; } }
  P slope(int c, int d) const { return compute_slope<ndim>(prim(at(c, d, -1)), prim(c), prim(at(c, d, 1)), 1.0, 1.0); }
  P oneslope(int c, int d) const { P s; double* x = (double*)&s; int a = at(c, d, 1), b = at(c, d, -1); for (int i = 0; i < n; i++) { double r = (q[a][i] - q[c][i]) / h(d), l = (q[b][i] - q[c][i]) / -h(d); x[i] = (r == 1e99 ? l : r * l < 0 ? 0.0 : fabs(l) < fabs(r) ? l : r) * h(d); } return s; }
  void any() { for (int c = 0; c < count(); c++) for (int i = 0; i < n; i++) u[c][i] = i == 4 && ndim == 2 ? 0.0 : i == 0 ? vc::real(name('u', c, i), 0.5, 1) : i == 1 ? vc::real(name('u', c, i), 5, 9) : vc::real(name('u', c, i), -0.5, 0.5); }
  void flux(double* o, const double* l, const double* r, int d, const RiemannParams& p, bool fp) const { P a, b; double *x = (double*)&a, *y = (double*)&b; for (int i = 0; i < n; i++) { x[i] = l[i]; y[i] = r[i]; } if (fp) { x[0] = fmax(p.smallr, x[0]); x[1] = fmax(p.smallp, x[1]); y[0] = fmax(p.smallr, y[0]); y[1] = fmax(p.smallp, y[1]); } else { if (x[0] < p.smallr) x[0] = p.smallr; if (y[0] < p.smallr) y[0] = p.smallr; } C f = swapComponents(vc_riemann_hydro(swapComponents(a, (ComponentIndex3D)d), swapComponents(b, (ComponentIndex3D)d), p), (ComponentIndex3D)d); const double* z = (const double*)&f; for (int i = 0; i < n; i++) o[i] = z[i]; }
  // new values from the states on the two sides of each face; gravity: mean of old and new density times g, energy from the momenta
  template <class F> void step(const Grid& o, double dt, const F& face, const RiemannParams& p, const double (*g)[3], bool fp) {
    for (int c = 0; c < count(); c++) {
      for (int i = 0; i < n; i++) u[c][i] = o.u[c][i];
      for (int d = 0; d < ndim; d++) { double f[2][9]; for (int s = 0; s < 2; s++) { double l[9], r[9]; int a = s ? c : at(c, d, -1); face(l, a, d, 1); face(r, at(a, d, 1), d, -1); flux(f[s], l, r, d, p, fp); } for (int i = 0; i < n; i++) u[c][i] += (f[0][i] - f[1][i]) * (dt / h(d)); }
      if (g) { double k0 = 0, k1 = 0; for (int d = 0; d < ndim; d++) { double& m = u[c][2 + d]; k0 += m * m; m += 0.5 * dt * g[c][d] * (o.u[c][0] + u[c][0]); k1 += m * m; } u[c][1] += 0.5 * k1 / u[c][0] - 0.5 * k0 / u[c][0]; }
    }
  }
};
enum Scheme { EULER, HANCOCK, ONE };   // the states on a face: linear in a cell; and predicted; ONE: floor of the pressure too
enum Gravity { NONE, CONSTANT, FIELD };
template <class U> auto vc_params(const U& u) -> decltype((u.params)) { return u.params; }
template <class U> auto vc_params(const U& u) -> decltype((u.riemann_params)) { return u.riemann_params; }
// Up: the update class; stages: 2 for the Runge-Kutta update, the mean of the start and two steps
template <template <class> class Up, class S, int ndim, int scheme, int stages> static void whole(int bx, int by, int bz, Gravity gr) {
  using C = typename S::ConsState; using P = typename S::PrimState; constexpr int n = S::N; Box b(ndim, bx, by, bz); vc_nn = 0;
  double g0[3] = {vc::real("gx", -1, 1), vc::real("gy", -1, 1), vc::real("gz", -1, 1)}, dt = vc::real("dt", 1e-4, 1e-3); static double g[64][3];
  if (gr == CONSTANT) { b.k.set("gravity", "gx", g0[0]); b.k.set("gravity", "gy", g0[1]); b.k.set("gravity", "gz", g0[2]); }
  b.k.seti("gravity", "gravity_type", gr == CONSTANT ? GRAVITY_CST_SCALAR : gr == FIELD ? GRAVITY_CST_FIELD : GRAVITY_NONE);
  FC fc(b.m, b.k); VcTimers t; Up<S> up(b.k, fc, t); Grid<S, ndim> old(bx, by, bz), now(bx, by, bz); old.any();
  VcUserData U; auto info = C::getFieldsInfo(); FieldManager f(2 * n + 3); U.a = fc.allocate_ghosted_array("U", f);
  auto next = info; for (auto& i : next) i.name += "_next"; for (auto& i : info) U.names.push_back(i.name); for (auto& i : next) U.names.push_back(i.name); U.names.push_back("gx"); U.names.push_back("gy"); U.names.push_back("gz");
  for (int c = 0; c < old.count(); c++) { for (int i = 0; i < n; i++) U.a.U(c, i, 0) = old.u[c][i]; for (int d = 0; d < 3; d++) U.a.U(c, 2 * n + d, 0) = g[c][d] = gr == FIELD ? vc::real(name('g', c, d), -1, 1) : g0[d]; }
  if constexpr (stages == 0) up.template rk_update<ndim>(U.getAccessor(info), U.getAccessor({{"gx", 0}, {"gy", 1}, {"gz", 2}}), U.getAccessor(next), dt);   // one stage
  else up.template update_aux<ndim>(U, dt);
  const RiemannParams& p = vc_params(up); double (*gg)[3] = gr == NONE ? nullptr : g;
  Grid<S, ndim> cur = old; static double src[64][9];
  for (int s = 0; s < (stages ? stages : 1); s++) {
    cur.prims(p.gamma0);
    auto sl = [&](int c, int d) { return scheme == ONE ? cur.oneslope(c, d) : cur.slope(c, d); };
    if (scheme != EULER) for (int c = 0; c < cur.count(); c++) { P x = sl(c, 0), y = sl(c, 1), z{}; if (ndim == 3) z = sl(c, 2); P q = compute_source<ndim>(cur.prim(c), x, y, z, dt / cur.h(0), dt / cur.h(1), dt / cur.h(2), p.gamma0); const double* v = (const double*)&q; for (int i = 0; i < n; i++) src[c][i] = v[i]; }
    auto face = [&](double* o, int c, int d, int side) { P w = sl(c, d); const double* v = (const double*)&w; for (int i = 0; i < n; i++) o[i] = (scheme != EULER ? src[c][i] : cur.q[c][i]) + side * v[i] * 0.5; };
    now.step(cur, dt, face, p, gg, scheme == ONE); cur = now;
  }
  for (int i = 0; i < n; i++) {
    double s = 0, e = 0;
    for (int c = 0; c < old.count(); c++) {
      double v = U.a.U(c, n + i, 0); s += old.u[c][i]; e += v;
      vc::check_eq(U.a.U(c, i, 0), old.u[c][i], "the update reads the old values and does not change them", 10);
      if (i != 4 || ndim == 3) vc::check_eq(v, stages == 2 ? 0.5 * (old.u[c][i] + now.u[c][i]) : now.u[c][i], "the new value is the old one plus the fluxes through the faces and the gravity", 1e4);
    }
    if (gr == NONE) vc::check_eq(e, s, "the update conserves the total over a periodic block", 1e4);
  }
}

