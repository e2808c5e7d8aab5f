// Cells around a block: the values of the neighbour blocks of any size, and beyond the domain the boundary conditions.
//@ file define=VC_STRINGS
#include "hydro_box.h"
namespace dyablo { using GhostedArray = ForeachCell::CellArray_global_ghosted; using PatchArray = ForeachCell::CellArray_patch; }
#include "hydro/CopyGhostBlockCellData.h"
#include "nest.h"
static double value(const Oct& o, int c, int i) { return vc::uf("u", o.isGhost ? o.iOct + 1 : 0, c, i); }
template <class S, int ndim> static void ghosts(int px, int py, int pz, int pattern) {
  using C = typename S::ConsState; constexpr int n = S::N, b = 4, bz = ndim == 3 ? 4 : 1; Nest M(ndim, px, py, pz, pattern, b); FC fc(M.m, M.k); BoundaryConditions bc(M.k);
  VcUserData U; auto info = C::getFieldsInfo(); FieldManager f(n); U.a = fc.allocate_ghosted_array("U", f); for (auto& i : info) U.names.push_back(i.name);
  vc::check(M.count - 1 <= (int)M.m.ng, "contract: enough ghost octants");
  for (int c = 0; c < b * b * bz; c++) for (int i = 0; i < n; i++) { Oct me; me.iOct = 0; me.isGhost = false; U.a.U(c, i, 0) = value(me, c, i); for (int g = 0; g < M.count - 1; g++) { Oct o; o.iOct = g; o.isGhost = true; U.a.Ughost(c, i, g) = value(o, c, i); } }
  auto acc = U.getAccessor(info); auto ref = fc.reserve_patch_tmp("Ugroup", 2, 2, ndim == 3 ? 2 : 0, C::getFieldManager().get_id2index(), n); auto meta = fc.getCellMetaData();
  fc.foreach_patch("contract", PATCH_LAMBDA(const FC::Patch& patch) {
    auto G = patch.allocate_tmp(ref);
    patch.foreach_cell(G, CELL_LAMBDA(const CI& ic) { copyGhostBlockCellData<ndim, S>(acc, ic, meta, bc, G); });
    patch.foreach_cell(G, CELL_LAMBDA(const CI& ic) {
      int pos[3] = {(int)ic.i - 2, (int)ic.j - 2, ndim == 3 ? (int)ic.k - 2 : 0}, B[3] = {b, b, bz}, o[3], t[3]; for (int i = 0; i < 3; i++) { o[i] = pos[i] < 0 ? -1 : pos[i] >= B[i] ? 1 : 0; t[i] = pos[i] - o[i] * B[i]; }
      int d = Nest::code(o); auto at = [&](const int* x) { return x[0] + b * (x[1] + b * x[2]); };
      for (int v = 0; v < n; v++) {
        double e;
        if (d == 13) { Oct me; me.iOct = 0; me.isGhost = false; e = value(me, at(t), v); }
        else if (M.kind[d] == SAME) e = value(M.of[d][0], at(t), v);
        else if (M.kind[d] == BIGGER) { int x[3]; for (int i = 0; i < 3; i++) x[i] = i < ndim ? (((3 * M.par[i] + o[i] + 4) & 1) * B[i] + t[i]) / 2 : 0; e = value(M.of[d][0], at(x), v); }
        else { e = 0; int m = 0; for (int s = 0; s < (ndim == 3 ? 8 : 4); s++) { int x[3], q = 0; for (int i = 0; i < 3; i++) { x[i] = i < ndim ? 2 * t[i] + (s >> i & 1) : 0; q |= x[i] / B[i] << i; x[i] %= B[i]; } e += value(M.of[d][q], at(x), v); m++; } e /= m; }
        if (v != 4 || ndim == 3) vc::check_eq(G.at_ivar(ic, v), e, "a cell around the block has the value of the neighbour there, the mean of the finer cells that cover it", 10);
      }
    });
  });
}
//@ ghosts_2d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(ghosts_2d) { ghosts<HydroState, 2>(0, 0, 0, ALL_SAME); for (int p = 0; p < 4; p++) ghosts<HydroState, 2>(p & 1, p >> 1, 0, COARSER); ghosts<HydroState, 2>(1, 0, 0, ALL_FINER); for (int p = 0; p < 4; p++) ghosts<HydroState, 2>(p & 1, p >> 1, 0, MIXED); }
//@ ghosts_mhd_2d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(ghosts_mhd_2d) { ghosts<GLMMHDState, 2>(1, 1, 0, MIXED); }
//@ ghosts_3d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_noBoundary replace=LightOctree_hashmap::findNeighbors=>vc_tableNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count4
VC_CONTRACT(ghosts_3d) { ghosts<HydroState, 3>(0, 1, 1, MIXED); }
// beyond the edges of a domain of one octant: the mirrored cell, its velocity turned around where the boundary crossed is reflecting, or the user's state
namespace dyablo {
template <> ConsHydroState BoundaryConditions::getUserdefBoundaryValue<2, HydroState, UserData_fields::FieldAccessor>(const UserData_fields::FieldAccessor&, const CellIndex&, const CellMetaData&, const CellIndex::offset_t& o, ComponentIndex3D dir) const { ConsHydroState c{}; c.rho = 2 + dir; c.e_tot = 20 + o[dir]; return c; }
}
static const char* SIDE[6] = {"boundary_type_xmin", "boundary_type_xmax", "boundary_type_ymin", "boundary_type_ymax", "boundary_type_zmin", "boundary_type_zmax"};
template <class S, int ndim, bool user = false> static void boundary(int b) {
  using C = typename S::ConsState; constexpr int n = S::N; int bz = ndim == 3 ? b : 1; Box M(ndim, b, b, bz, false, false, ndim == 2); bool wall[6]; bool usr[6] = {};
  for (int i = 0; i < 6; i++) { static const char* N[6] = {"t0", "t1", "t2", "t3", "t4", "t5"}; wall[i] = vc::b(N[i]); if (user) usr[i] = i == 0 || i == 3; M.k.seti("mesh", SIDE[i], usr[i] ? BC_USER : wall[i] ? BC_REFLECTING : BC_ABSORBING); }
  FC fc(M.m, M.k); BoundaryConditions bc(M.k);
  VcUserData U; auto info = C::getFieldsInfo(); FieldManager f(n); U.a = fc.allocate_ghosted_array("U", f); for (auto& i : info) U.names.push_back(i.name);
  for (int c = 0; c < b * b * bz; c++) for (int i = 0; i < n; i++) U.a.U(c, i, 0) = vc::uf("u", c, i);
  auto acc = U.getAccessor(info); auto ref = fc.reserve_patch_tmp("Ugroup", 2, 2, ndim == 3 ? 2 : 0, C::getFieldManager().get_id2index(), n); auto meta = fc.getCellMetaData();
  fc.foreach_patch("contract", PATCH_LAMBDA(const FC::Patch& patch) {
    auto G = patch.allocate_tmp(ref);
    patch.foreach_cell(G, CELL_LAMBDA(const CI& ic) { copyGhostBlockCellData<ndim, S>(acc, ic, meta, bc, G); });
    patch.foreach_cell(G, CELL_LAMBDA(const CI& ic) {
      int pos[3] = {(int)ic.i - 2, (int)ic.j - 2, ndim == 3 ? (int)ic.k - 2 : 0}, B[3] = {b, b, bz}, m[3], out = 0, ax = 0, dist = 0; bool turn[3] = {}; bool mine = false;
      for (int i = 0; i < 3; i++) { m[i] = pos[i]; int s = -1; if (pos[i] < 0) { m[i] = -1 - pos[i]; s = 2 * i; dist = pos[i]; } if (pos[i] >= B[i]) { m[i] = 2 * B[i] - 1 - pos[i]; s = 2 * i + 1; dist = pos[i] - B[i] + 1; } if (s >= 0) { out++; ax = i; turn[i] = wall[s]; mine = usr[s]; } }
      if (user && out > 1) return;
      for (int v = 0; v < n; v++) {
        double e = vc::uf("u", m[0] + b * (m[1] + b * m[2]), v); if (v >= 2 && v < 5 && turn[v - 2]) e = -e;
        if (mine) e = v == 0 ? 2 + ax : v == 1 ? 20 + dist : 0;
        if (v != 4 || ndim == 3) vc::check_eq(G.at_ivar(ic, v), e, "a cell beyond the domain has the state its boundary condition says", 10);
      }
    });
  });
}
//@ boundary_2d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(boundary_2d) { boundary<HydroState, 2>(4); }
//@ boundary_user_2d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(boundary_user_2d) { boundary<HydroState, 2, true>(4); }
//@ boundary_3d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(boundary_3d) { boundary<HydroState, 3>(4); }
//@ boundary_mhd_3d seq=800 replace=LightOctree_hashmap::isBoundary=>vc_edge replace=LightOctree_hashmap::findNeighbors=>vc_selfNeighbor replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(boundary_mhd_3d) { boundary<MHDState, 3>(4); }
