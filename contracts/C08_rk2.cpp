// Runge-Kutta update of a whole block: the mean of the old state and two steps.
//@ file define=VC_STRINGS
#include "hydro_box.h"
namespace dyablo { static int vc_exchanged; struct VcGhosts { template <class M, class S> VcGhosts(const M&, const S&, int) {} template <class A> void exchange_ghosts(const A&) const { vc_exchanged++; } }; }   // one process: no ghosts
#include "mpi/GhostCommunicator.h"
#define GhostCommunicator VcGhosts
#include "hydro/HydroUpdate_RK2.cpp"
//@ rk2_stage_hydro_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(rk2_stage_hydro_2d) { whole<HydroUpdate_RK2, HydroState, 2, EULER, 0>(4, 4, 1, NONE); }
//@ rk2_stage_gravity_field_2d seq=200 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count replace=clean_negative_primitive_values=>vc_keep
VC_CONTRACT(rk2_stage_gravity_field_2d) { whole<HydroUpdate_RK2, HydroState, 2, EULER, 0>(4, 4, 1, FIELD); }
// two stages, checked on inputs only; the contracts above and below prove the stage and how the stages are put together
//@ rk2_hydro_2d prove=0
VC_CONTRACT(rk2_hydro_2d) { whole<HydroUpdate_RK2, HydroState, 2, EULER, 2>(4, 4, 1, FIELD); }
// the new state is the mean of the old one and the second stage, which starts from the first one after its ghosts were exchanged
static double vc_u[4][4], vc_s[4][4], vc_t[4][4], vc_dt; static int vc_stages; static int vc_first[4];
template <class A> static double& ref(const A& a, int c, int i) { CI k; k.bx = 4; k.by = k.bz = 1; k.i = c; k.j = k.k = 0; k.status = CI::LOCAL_TO_BLOCK; k.iOct.isGhost = false; k.iOct.iOct = 0; return a.at(k, i); }
using Acc = UserData_fields::FieldAccessor; using Arr = FC::CellArray_global_ghosted;
static const int VAR[4] = {ConsHydroState::VarIndex::Irho, ConsHydroState::VarIndex::Ie_tot, ConsHydroState::VarIndex::Irho_vx, ConsHydroState::VarIndex::Irho_vy};
template <class I, class O> static void stage(const I& in, const O& out, double dt, int k) {
  vc::check(vc_stages++ == k, "two stages, the second starts from the first"); vc::check(vc_exchanged == k, "ghosts are exchanged between the stages"); vc::check_eq(dt, vc_dt, "both stages use the time step");
  for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { vc::check_eq(ref(in, c, VAR[i]), k ? vc_s[c][i] : vc_u[c][i], "a stage starts from the state before it"); ref(out, c, VAR[i]) = k ? vc_t[c][i] : vc_s[c][i]; }
}
extern "C" __attribute__((used, noinline)) void vc_stage1(void*, const Acc& in, const Acc&, const Arr& out, double dt) { stage(in, out, dt, 0); }
extern "C" __attribute__((used, noinline)) void vc_stage2(void*, const Arr& in, const Acc&, const Acc& out, double dt) { stage(in, out, dt, 1); }
//@ rk2_stages seq=200 native=0 replace=rk_update<2,.dyablo::UserData_fields.*=>vc_stage1 replace=rk_update<2,.dyablo::AMR.*=>vc_stage2
VC_CONTRACT(rk2_stages) {
  Box b(2, 4, 1, 1); vc_nn = 0; vc_stages = vc_exchanged = 0; vc_dt = vc::real("dt", 1e-4, 1); FC fc(b.m, b.k); VcTimers t; HydroUpdate_RK2<HydroState> up(b.k, fc, t);
  VcUserData U; auto info = HydroState::ConsState::getFieldsInfo(); FieldManager f(20); U.a = fc.allocate_ghosted_array("U", f); auto next = info; for (auto& i : next) i.name += "_next"; for (auto& i : info) U.names.push_back(i.name); for (auto& i : next) U.names.push_back(i.name);
  Acc a = U.getAccessor(info), z = U.getAccessor(next);
  for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { ref(a, c, VAR[i]) = vc_u[c][i] = vc::real(name('u', c, i), -9, 9); vc_s[c][i] = vc::real(name('s', c, i), -9, 9); vc_t[c][i] = vc::real(name('t', c, i), -9, 9); }
  up.update_aux<2>(U, vc_dt); vc::check(vc_stages == 2, "two stages, the second starts from the first");
  for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) { vc::check_eq(ref(z, c, VAR[i]), (vc_u[c][i] + vc_t[c][i]) / 2, "the new state is the mean of the old one and the second stage"); vc::check_eq(ref(a, c, VAR[i]), vc_u[c][i], "the update reads the old values and does not change them"); }
}
