// Common parts of the contracts of whole hydro updates: the Riemann solver (C07) is replaced by an unknown function of its arguments,
// the user data by a table of fields of one ghosted array.
#pragma once
#include "stub_mesh.h"
#include "UserData.h"
#include "states/State_hydro.h"
#include "states/State_MHD.h"
#include "states/State_GLMMHD.h"
#include "utils_hydro.h"
#include "RiemannSolvers.h"
namespace dyablo {
template <class P> using VcCons = typename std::conditional<std::is_same<P, PrimHydroState>::value, ConsHydroState, typename std::conditional<std::is_same<P, PrimMHDState>::value, ConsMHDState, ConsGLMMHDState>::type>::type;
static bool vc_mirror;   // the flux of mirrored states is the mirrored flux (C07)
template <class P> VcCons<P> vc_riemann_hydro(const P& l, const P& r, const RiemannParams& p, double& p_out, double v) {
  if (vc_mirror) { vc_mirror = false; P a = l, b = r; double po; a.u = -a.u; b.u = -b.u; VcCons<P> f = vc_riemann_hydro(l, r, p, p_out, v), g = vc_riemann_hydro(b, a, p, po, v), m; double *x = (double*)&f, *y = (double*)&g, *z = (double*)&m; for (size_t i = 0; i < sizeof(m) / sizeof(double); i++) z[i] = i == 2 ? 0.5 * (x[i] + y[i]) : 0.5 * (x[i] - y[i]); p_out = 0.5 * (p_out + po); vc_mirror = true; return m; }
  constexpr int n = sizeof(P) / sizeof(double); const double* x = (const double*)&l; const double* y = (const double*)&r; VcCons<P> F; double* z = (double*)&F;
#ifdef VC_IR
  double h = 0; for (int i = 0; i < n; i++) h = vc::uf("h", h, x[i], y[i], 0);
  for (int i = 0; i < n; i++) z[i] = vc::uf("flux", h, i);
  p_out = vc::uf("pressure", h);
#else   // any smooth function without symmetries, so that rounding stays rounding
  for (int i = 0; i <= n; i++) { double v = 0.3 * i; for (int j = 0; j < n; j++) v += (0.2 + 0.13 * i - 0.07 * j) * x[j] - (0.1 + 0.05 * i * j) * y[j] + 0.03 * (i + 1) * x[j] * y[(i + j) % n]; if (i < n) z[i] = v; else p_out = v; }
#endif
  return F;
}
template <class P> auto vc_riemann_hydro(const P& l, const P& r, const RiemannParams& p) { double po; return vc_riemann_hydro(l, r, p, po, 0.0); }
struct VcUserData {
  using FieldAccessor = UserData_fields::FieldAccessor; using F = FieldAccessor::FieldInfo;
  ForeachCell::CellArray_global_ghosted a; std::vector<std::string> names; int last = 0;
  int find(const std::string& s) { for (size_t i = 0; i < names.size(); i++) if (names[i] == s) return (int)i; __vc_abort("unknown field"); }
  FieldAccessor getAccessor(const std::vector<F>& v) { FieldAccessor f; f.fields = a; int i = 0; for (const F& x : v) { int k = find(x.name); f.fm_ivar.activate(x.id, k); f.fm_active[i++] = k; } return f; }
  ForeachCell::CellArray_global_ghosted::Shape_t getShape() { return a.getShape(); }
};
}
struct VcTimers { struct T { void start() {} void stop() {} } t; T& get(const char*) { return t; } T& get(const std::string&) { return t; } };
#define Timers VcTimers
#define riemann_hydro vc_riemann_hydro
#define UserData VcUserData
