// The time step: no signal crosses more than the configured fraction of any cell, and the step is not smaller than some cell asks for.
//@ file define=VC_STRINGS
#include "hydro_world.h"
#undef UserData
#include "hydro_box.h"
namespace dyablo {
struct VcScalars { double v = -1; template <class T> void set(const std::string&, T x) { v = x; } template <class T> T get(const std::string&) const { return (T)v; } };
struct VcDtData : VcUserData { FieldAccessor getAccessor(const std::vector<F>& v) const { return const_cast<VcDtData*>(this)->VcUserData::getAccessor(v); } ForeachCell::CellArray_global_ghosted::Shape_t getShape() const { return a.getShape(); } };
}
#include "ScalarSimulationData.h"
#include "boundary_conditions/BoundaryConditions.h"
#undef UserData
#define UserData VcDtData
#define ScalarSimulationData VcScalars
#include "compute_dt/Compute_dt_hydro.cpp"
#include "compute_dt/Compute_dt_parabolic.cpp"
// two octants of different levels
struct Pair { VcMesh m; VcConfig k; Pair(int dim, uint32_t bx, uint32_t by, uint32_t bz, int no = 2) { m.dim = dim; m.no = no; m.lm.storage = LightOctree_storage<>(dim, 2, 0, 0, {1, 1, 1}); Oct o; o.isGhost = false; for (int i = 0; i < 2; i++) { o.iOct = i; m.lm.storage.set(o, 1 + i, i, dim == 3 ? 1 : 0, 1 + i); } m.lm.min_level = 1; m.lm.max_level = 2; m.lm.is_periodic = {true, true, true};
  k.seti("amr", "bx", bx); k.seti("amr", "by", by); k.seti("amr", "bz", bz); k.set("mesh", "xmax", 4); k.set("mesh", "ymax", 2); k.set("mesh", "zmax", 8); } };
extern "C" __attribute__((used, noinline)) uint32_t vc_pow2(const LightOctree_storage<>* s, ComponentIndex3D d, uint32_t L) { return d == 2 && s->getNdim() == 2 ? 1 : 1u << L; }
static double width(int o, int d, int b) { static const double S[3] = {4, 2, 8}; return S[d] / (o ? 4 : 2) / b; }
template <class S, int ndim> static void hydro(uint32_t bx, uint32_t by, uint32_t bz, int no = 2) {
  using C = typename S::ConsState; constexpr int n = S::N; constexpr bool mhd = n > 5; Pair M(ndim, bx, by, bz, no); vc_nn = 0; double cfl = vc::real("cfl", 0.1, 0.9), gamma = vc::real("gamma", 1.1, 2); M.k.set("hydro", "gamma0", gamma); M.k.set("dt", "hydro_cfl", cfl); M.k.sets("hydro", "update", mhd ? "MHDUpdate_hancock" : "HydroUpdate_hancock");
  FC fc(M.m, M.k); VcTimers t; Compute_dt_hydro dt(M.k, fc, t); VcScalars out; VcDtData U; auto info = C::getFieldsInfo(); FieldManager f(n); U.a = fc.allocate_ghosted_array("U", f); for (auto& i : info) U.names.push_back(i.name);
  int cells = bx * by * bz, B[3] = {(int)bx, (int)by, (int)bz}; static double u[8][9];
  for (int o = 0; o < no; o++) for (int c = 0; c < cells; c++) for (int i = 0; i < n; i++) U.a.U(c, i, o) = u[o * cells + c][i] = ndim == 2 && i == 4 ? 0.0 : i == 0 ? vc::real(name('u', o * cells + c, i), 0.5, 1) : i == 1 ? vc::real(name('u', o * cells + c, i), 5, 9) : vc::real(name('u', o * cells + c, i), -0.5, 0.5);
  dt.compute_dt(U, out); double inv = std::numeric_limits<double>::lowest();
  auto need = [&](double r) { inv = fmax(inv, r); };
  for (int o = 0; o < no; o++) for (int c = 0; c < cells; c++) {
    double* q = u[o * cells + c]; double r = q[0], k = 0.5 * (q[2] * q[2] + q[3] * q[3] + q[4] * q[4]) / r, B2 = mhd ? q[5] * q[5] + q[6] * q[6] + q[7] * q[7] : 0, p = (gamma - 1) * (q[1] - k - 0.5 * B2); double a = sqrt(p * gamma / r), s = 0;
    for (int d = 0; d < ndim; d++) s += (fabs(q[2 + d] / r) + a) / width(o, d, B[d]);
    need(s);
    if (mhd) for (int d = 0; d < ndim; d++) { double g = gamma * p, w = g - B2, bx = q[5 + (d + 1) % 3], by = q[5 + (d + 2) % 3], T = bx * bx + by * by, cf = sqrt(0.5 * (g + B2 + sqrt(w * w + 4 * g * T)) / r), v = q[2 + d] / r; need(fmax(fabs(v - cf), fabs(v + cf)) / width(o, d, B[d])); }
  }
  vc::check_eq(cfl / out.v, inv, "the time step lets no signal cross more than the CFL fraction of any cell and is the largest such step", 100);
}
//@ dt_hydro_2d seq=100 replace=LightOctree_storage<.*>::cell_count=>vc_pow2
VC_CONTRACT(dt_hydro_2d) { hydro<HydroState, 2>(2, 1, 1); }
//@ dt_hydro_3d seq=100 replace=LightOctree_storage<.*>::cell_count=>vc_pow2
VC_CONTRACT(dt_hydro_3d) { hydro<HydroState, 3>(1, 1, 2); }
//@ dt_mhd_2d seq=100 replace=LightOctree_storage<.*>::cell_count=>vc_pow2
VC_CONTRACT(dt_mhd_2d) { hydro<MHDState, 2>(1, 1, 1); }
//@ dt_mhd_3d seq=100 replace=LightOctree_storage<.*>::cell_count=>vc_pow2
VC_CONTRACT(dt_mhd_3d) { hydro<MHDState, 3>(1, 1, 1, 1); }
// explicit diffusion: dt times the coefficient stays below the fraction of the squared width of every cell in every direction
template <int ndim> static void diffusion(bool heat, bool visc) {
  Pair M(ndim, 2, 1, 1); double cfl = vc::real("cfl", 0.1, 0.9), kappa = vc::real("kappa", 0.01, 10), mu = vc::real("mu", 0.01, 10); M.k.set("dt", "parabolic_cfl", cfl); M.k.set("thermal_conduction", "kappa", kappa); M.k.set("viscosity", "mu", mu);
  if (heat) M.k.sets("thermal_conduction", "update", "ParabolicUpdate_explicit"); if (visc) M.k.sets("viscosity", "update", "ParabolicUpdate_explicit"); M.k.set("hydro", "gamma0", 1.4);
  FC fc(M.m, M.k); VcTimers t; Compute_dt_parabolic dt(M.k, fc, t); VcScalars out; VcDtData U; FieldManager f(1); U.a = fc.allocate_ghosted_array("U", f); dt.compute_dt(U, out);
  double h = 1e99; int B[3] = {2, 1, 1}; for (int o = 0; o < 2; o++) for (int d = 0; d < ndim; d++) h = fmin(h, width(o, d, B[d]));
  double D = 0; if (heat) D = kappa; if (visc && mu > D) D = mu;
  vc::check_eq(cfl / out.v, D / (h * h), "the time step keeps every enabled diffusion term stable in every cell and is the largest such step", 100);
}
//@ dt_diffusion_2d seq=100 replace=LightOctree_storage<.*>::cell_count=>vc_pow2
VC_CONTRACT(dt_diffusion_2d) { diffusion<2>(true, false); diffusion<2>(false, true); diffusion<2>(true, true); }
//@ dt_diffusion_3d seq=100 replace=LightOctree_storage<.*>::cell_count=>vc_pow2
VC_CONTRACT(dt_diffusion_3d) { diffusion<3>(true, false); diffusion<3>(false, true); diffusion<3>(true, true); }
