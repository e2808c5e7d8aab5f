// Viscosity and thermal conduction on a whole periodic block against the divergence of the stress tensor and of the heat flux, written index by index.
//@ file define=VC_STRINGS
#include "hydro_box.h"
#include "parabolic/ParabolicUpdate_explicit.cpp"
extern "C" __attribute__((used, noinline)) std::string vc_termName(ParabolicTermType) { return std::string("term"); }   // the name is only used for the timers
template <class Term, int ndim> static void diffuse(int bx, int by, int bz, bool viscous) {
  Box b(ndim, bx, by, bz); vc_nn = 0; double dt = vc::real("dt", 1e-4, 1e-2), mu = vc::real("mu", 0.01, 1); b.k.set("viscosity", "mu", mu); b.k.set("thermal_conduction", "kappa", mu);
  FC fc(b.m, b.k); VcTimers t; ParabolicUpdate_explicit up(b.k, fc, t, viscous ? PARABOLIC_VISCOSITY : PARABOLIC_THERMAL_CONDUCTION); using S = HydroState; constexpr int n = S::N; Grid<S, ndim> o(bx, by, bz); static double next[64][5];
  for (int c = 0; c < o.count(); c++) { for (int i = 0; i < n; i++) o.u[c][i] = i == 4 && ndim == 2 ? 0.0 : i == 0 ? 0.5 * (1 + (5 * c + 3) % 4) : i == 1 ? vc::real(name('u', c, i), 5, 9) : vc::real(name('u', c, i), -0.5, 0.5); for (int i = 0; i < n; i++) next[c][i] = i == 4 && ndim == 2 ? 0.0 : vc::real(name('n', c, i), 1, 2); }
  o.prims(1.4);
  VcUserData U; auto info = ConsHydroState::getFieldsInfo(); FieldManager f(2 * n); U.a = fc.allocate_ghosted_array("U", f); auto nx = info; for (auto& i : nx) i.name += "_next"; for (auto& i : info) U.names.push_back(i.name); for (auto& i : nx) U.names.push_back(i.name);
  for (int c = 0; c < o.count(); c++) for (int i = 0; i < n; i++) { U.a.U(c, i, 0) = o.u[c][i]; U.a.U(c, n + i, 0) = next[c][i]; }
  up.template update_aux<ndim, Term>(U, dt);
  for (int i = 0; i < n; i++) { double s = 0, e = 0; if (i == 4 && ndim == 2) continue;
    for (int c = 0; c < o.count(); c++) { double r = 0;
      for (int d = 0; d < ndim; d++) for (int side = 0; side < 2; side++) { int l = side ? c : o.at(c, d, -1), q = o.at(l, d, 1); double F = 0;
        if (viscous) { double G[3][3] = {}, div = 0;   // G[k][j]: derivative of velocity k along j on the face
          for (int k = 0; k < ndim; k++) for (int j = 0; j < ndim; j++) G[k][j] = j == d ? (o.q[q][2 + k] - o.q[l][2 + k]) / o.h(d) : (o.q[o.at(q, j, 1)][2 + k] - o.q[o.at(q, j, -1)][2 + k] + o.q[o.at(l, j, 1)][2 + k] - o.q[o.at(l, j, -1)][2 + k]) / (4 * o.h(j));
          for (int k = 0; k < ndim; k++) div += G[k][k];
          for (int k = 0; k < ndim; k++) { double tau = k == d ? 4.0 / 3.0 * G[d][d] - 2.0 / 3.0 * (div - G[d][d]) : G[k][d] + G[d][k]; if (i == 2 + k) F += tau; if (i == 1) F += tau * 0.5 * (o.q[l][2 + k] + o.q[q][2 + k]); }
        } else if (i == 1) F = (o.q[q][1] / o.q[q][0] - o.q[l][1] / o.q[l][0]) / o.h(d);
        r += (side ? 1 : -1) * F / o.h(d); }
      double v = U.a.U(c, n + i, 0); s += next[c][i]; e += v;
      vc::check_eq(U.a.U(c, i, 0), o.u[c][i], "the old state is only read", 10);
      vc::check_eq(v, next[c][i] + dt * mu * r, "the new state changes by the time step times the divergence of the diffusive flux", 100); }
    vc::check_eq(e, s, "diffusion conserves mass, momentum and energy over a periodic block", 1000); }
}
//@ viscosity_2d seq=600 replace=named_enum<.*ParabolicTermType>::to_string=>vc_termName replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(viscosity_2d) { diffuse<ParabolicTerm_viscosity, 2>(4, 4, 1, true); }
//@ viscosity_3d seq=600 replace=named_enum<.*ParabolicTermType>::to_string=>vc_termName replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(viscosity_3d) { diffuse<ParabolicTerm_viscosity, 3>(4, 4, 4, true); }
//@ conduction_2d seq=600 replace=named_enum<.*ParabolicTermType>::to_string=>vc_termName replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(conduction_2d) { diffuse<ParabolicTerm_thermal_conduction, 2>(4, 4, 1, false); }
//@ conduction_3d seq=600 replace=named_enum<.*ParabolicTermType>::to_string=>vc_termName replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(conduction_3d) { diffuse<ParabolicTerm_thermal_conduction, 3>(4, 4, 4, false); }
