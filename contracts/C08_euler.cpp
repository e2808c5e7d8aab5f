// First-order-in-time update of a whole block.
//@ file define=VC_STRINGS
#include "hydro_box.h"
#include "hydro/HydroUpdate_euler.cpp"
//@ euler_hydro_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(euler_hydro_2d) { whole<HydroUpdate_euler, HydroState, 2, EULER, 1>(4, 4, 1, NONE); }
//@ euler_gravity_field_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(euler_gravity_field_2d) { whole<HydroUpdate_euler, HydroState, 2, EULER, 1>(4, 4, 1, FIELD); }
//@ euler_mhd_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(euler_mhd_2d) { whole<HydroUpdate_euler, MHDState, 2, EULER, 1>(4, 4, 1, NONE); }
// after the update, only cells with negative density or pressure are changed, and those get the floors
//@ floors_after_update seq=200
VC_CONTRACT(floors_after_update) {
  Box b(2, 2, 2, 1); vc_nn = 0; FC fc(b.m, b.k); auto a = fc.allocate_ghosted_array("U", ConsHydroState::getFieldManager()); double g = vc::real("gamma", 1.1, 3), sr = vc::real("smallr", 1e-8, 1e-2), sp = vc::real("smallp", 1e-8, 1e-2); Grid<HydroState, 2> o(2, 2, 1);
  for (int c = 0; c < 4; c++) for (int i = 0; i < 5; i++) a.U(c, i, 0) = o.u[c][i] = i == 4 ? 0.0 : i == 0 ? vc::real(name('u', c, i), -1, 2) : i == 1 ? vc::real(name('u', c, i), -1, 2) : vc::real(name('u', c, i), -2, 2);
  for (int c = 0; c < 4; c++) vc::assume(o.u[c][0] > 0.001 || o.u[c][0] < -0.001);
  clean_negative_primitive_values<2, HydroState>(fc, a, g, sr, sp);
  for (int c = 0; c < 4; c++) {
    double* u = o.u[c]; double r = u[0], k = 0.5 * (u[2] * u[2] + u[3] * u[3]) / r, p = (g - 1) * (u[1] - k);
    bool bad = r < 0 || p < 0; double r1 = r < 0 ? sr : r, p1 = p < 0 ? sp : p, w = u[2] / r, v = u[3] / r;
    vc::check_eq(a.U(c, 0, 0), r1, "a negative density becomes the floor, others are kept", 10); vc::check_eq(a.U(c, 2, 0), bad ? r1 * w : u[2], "the velocity is kept", 1e4); vc::check_eq(a.U(c, 3, 0), bad ? r1 * v : u[3], "the velocity is kept", 1e4);
    vc::check_eq(a.U(c, 1, 0), bad ? p1 / (g - 1) + 0.5 * r1 * (w * w + v * v) : u[1], "a negative pressure becomes the floor, others are kept", 1e7);
  }
}
