// One block that is the whole domain, with boundary conditions on some sides.
#pragma once
#include "hydro_box.h"
namespace dyablo { struct VcGhosts { template <class M, class S> VcGhosts(const M&, const S&, int) {} template <class A> void exchange_ghosts(const A&) const {} }; }   // one process: no ghosts
#include "mpi/GhostCommunicator.h"
#define GhostCommunicator VcGhosts
// the user's boundary: a state that depends on the axis and the side, and fluxes that depend on them too
namespace dyablo {
static ConsHydroState vc_user_state(int dir, int side) { ConsHydroState c{}; c.rho = 2 + dir; c.e_tot = 20 + side; c.rho_u = 0.25 * (dir + 1) * side; return c; }
static double vc_user_flux(int i, int dir, bool min) { return vc::uf("user", dir, min, i); }
template <> ConsHydroState BoundaryConditions::getUserdefBoundaryValue<2, HydroState, UserData_fields::FieldAccessor>(const UserData_fields::FieldAccessor&, const CellIndex&, const CellMetaData&, const CellIndex::offset_t& o, ComponentIndex3D dir) const { return vc_user_state(dir, o[dir]); }
template <> ConsHydroState BoundaryConditions::overrideBoundaryFlux<2, HydroState>(const ConsHydroState, const PrimHydroState, const ComponentIndex3D dir, const bool min) const { ConsHydroState c; double* x = (double*)&c; for (int i = 0; i < 5; i++) x[i] = vc_user_flux(i, dir, min); return c; }
}
static const char* SIDE[6] = {"boundary_type_xmin", "boundary_type_xmax", "boundary_type_ymin", "boundary_type_ymax", "boundary_type_zmin", "boundary_type_zmax"};
template <template <class> class Up, int ndim> struct Wall { using S = HydroState; using C = ConsHydroState; Box b; VcTimers t; VcUserData U; Grid<S, ndim> old; int n; double dt; std::unique_ptr<FC> fc;
  Wall(bool py) : b(ndim, 4, 4, 1, false, py, true), old(4, 4, 1), n(S::N), dt(vc::real("dt", 1e-4, 1e-3)) { vc_nn = 0; old.any(); }
  void run() {
    FC fc(b.m, b.k); Up<S> up(b.k, fc, t); auto info = C::getFieldsInfo(); FieldManager f(2 * n); U.a = fc.allocate_ghosted_array("U", f); auto next = info; for (auto& i : next) i.name += "_next"; for (auto& i : info) U.names.push_back(i.name); for (auto& i : next) U.names.push_back(i.name);
    for (int c = 0; c < old.count(); c++) for (int i = 0; i < n; i++) U.a.U(c, i, 0) = old.u[c][i];
    up.template update_aux<ndim>(U, dt);
  }
  double gain(int i) { double s = 0; for (int c = 0; c < old.count(); c++) s += U.a.U(c, n + i, 0) - old.u[c][i]; return s; }
};
template <template <class> class Up> static void walls(bool py) {
  Wall<Up, 2> w(py); for (int i = 0; i < (py ? 2 : 4); i++) w.b.k.seti("mesh", SIDE[i], BC_REFLECTING); vc_mirror = true; w.run(); vc_mirror = false;
  vc::check_eq(w.gain(0), 0, "no mass passes through a reflecting wall", 1e4); vc::check_eq(w.gain(1), 0, "no energy passes through a reflecting wall", 1e4); if (py) vc::check_eq(w.gain(3), 0, "a reflecting wall does not change the momentum along it", 1e4);
}
template <template <class> class Up> static void user_fluxes() {
  Wall<Up, 2> w(true); for (int i = 0; i < 2; i++) w.b.k.seti("mesh", SIDE[i], BC_USER); w.run();
  for (int i = 0; i < 4; i++) vc::check_eq(w.gain(i), (vc_user_flux(i, 0, true) - vc_user_flux(i, 0, false)) * (w.dt / w.old.h(0)) * 4, "what passes through a user-defined boundary is the user's flux for that side", 1e4);
}
template <template <class> class Up> static void user_side(int side) {
  Wall<Up, 2> w(true); w.b.k.seti("mesh", SIDE[side], BC_USER); w.b.k.seti("mesh", SIDE[1 - side], BC_REFLECTING); vc_mirror = true; w.run(); vc_mirror = false;
  for (int i = 0; i < 2; i++) vc::check_eq(w.gain(i), vc_user_flux(i, 0, side == 0) * (side ? -1 : 1) * (w.dt / w.old.h(0)) * 4, "a user-defined boundary on one side and a wall on the other", 1e4);
}
