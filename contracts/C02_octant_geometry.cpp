// Octant geometry: sizes, corners, centres, levels and domain-boundary tests of an arbitrary octant of an arbitrary
// forest (coarse grid of any extents, any level), local or ghost.
#include "vc_views.h"
#include "amr/LightOctree_hashmap.h"
using namespace dyablo;
using Oct = LightOctree_base::OctantIndex;
#ifdef VC_IR
namespace vc { template <class M> struct MapContract {
  static uint32_t find(int, const typename M::key_type&) { return ~0u; } static bool valid_at(int, uint32_t) { return false; }
  static typename M::value_type& value_at(int, uint32_t) { __vc_abort("map"); } static typename M::key_type key_at(int, uint32_t) { __vc_abort("map"); }
  static Kokkos::UnorderedMapInsertResult insert(int, const typename M::key_type&, const typename M::value_type&) { return {0, true, false, false}; } static uint32_t size(int) { return 0; } }; }
#endif
struct St {
  int ndim; uint32_t no, ng, lmin; LightOctree_storage<>::coarse_grid_size_t cg;
  LightOctree_storage<> s;
  uint32_t d, level, n[3], l[3]; Oct o;
  St(uint32_t maxd = 20) {
    ndim = vc::b("three_d") ? 3 : 2;
    no = vc::dim("numOctants", 1, 1u << 30, 6); ng = vc::dim("numGhosts", 0, 1u << 30, 4);
    lmin = vc::u32("level_min", 0, 10);
    cg = {vc::u32("coarse_x", 1, 1024), vc::u32("coarse_y", 1, 1024), 1};
    if (ndim == 3) cg[IZ] = vc::u32("coarse_z", 1, 1024);
    s = LightOctree_storage<>(ndim, no, ng, lmin, cg);
    s.oct_data = vc::view_uint<LightOctree_storage<>::oct_data_t>("oct_data", 0, 1000, no + ng, 4);
    d = vc::u32("refinements", 0, maxd);
    level = lmin + d;
    for (int i = 0; i < 3; i++) n[i] = (i < 2 || ndim == 3) ? cg[i] << d : 1;
    l[0] = vc::u32("lx", 0, 1u << 30); l[1] = vc::u32("ly", 0, 1u << 30); l[2] = ndim == 3 ? vc::u32("lz", 0, 1u << 30) : 0;
    vc::assume(l[0] < n[0] && l[1] < n[1] && l[2] < n[2]);
    o.isGhost = vc::b("ghost"); o.iOct = vc::u32("iOct", 0, 1u << 30);
    vc::assume(o.iOct < (o.isGhost ? ng : no));
    s.set(o, l[0], l[1], l[2], level);
  }
};
VC_CONTRACT(octant_index_bijection) {
  uint32_t no = vc::u32("numOctants", 0, 1u << 31), ng = vc::u32("numGhosts", 0, (1u << 31) - 1);
  uint32_t i = vc::u32("i");
  vc::assume(i < no + ng);
  Oct o = Oct::iOctLocal_to_OctantIndex(i, no);
  vc::check(o.isGhost == (i >= no), "exactly the local indices past the local octants are ghosts");
  vc::check(o.iOct < (o.isGhost ? ng : no), "the split index is in range");
  vc::check(Oct::OctantIndex_to_iOctLocal(o, no) == i, "the flat index is recovered");
  Oct p; p.isGhost = vc::b("pg"); p.iOct = vc::u32("pi"); vc::assume(p.iOct < (p.isGhost ? ng : no));
  Oct q = Oct::iOctLocal_to_OctantIndex(Oct::OctantIndex_to_iOctLocal(p, no), no);
  vc::check(q.iOct == p.iOct && q.isGhost == p.isGhost, "the split index is recovered");
}
VC_CONTRACT(storage_set_get) {
  St t; auto& s = t.s;
  auto lc = s.get_logical_coords(t.o);
  vc::check(lc[IX] == t.l[0] && lc[IY] == t.l[1] && lc[IZ] == t.l[2] && s.getLevel(t.o) == t.level, "an octant's stored position and level are read back");
  Oct p; p.isGhost = vc::b("pg"); p.iOct = vc::u32("pi", 0, 1u << 30); vc::assume(p.iOct < (p.isGhost ? t.ng : t.no));
  vc::assume(p.iOct != t.o.iOct || p.isGhost != t.o.isGhost);
  s.set(p, 1, 2, 3, 4);
  lc = s.get_logical_coords(t.o);
  vc::check(lc[IX] == t.l[0] && lc[IY] == t.l[1] && lc[IZ] == t.l[2] && s.getLevel(t.o) == t.level, "setting an octant leaves every other octant as it was");
  vc::check(s.getNumOctants() == t.no && s.getNumGhosts() == t.ng && s.getNdim() == t.ndim, "the octree has the announced numbers of octants, ghosts and dimensions");
}
VC_CONTRACT(octant_size) {
  St t; auto h = t.s.getSize(t.o);
  for (int i = 0; i < t.ndim; i++) vc::check_eq(h[i] * t.n[i], 1.0, "as many octant sizes as octants of that level fit the unit domain");
}
VC_CONTRACT(octant_corner_center) {
  St t; auto h = t.s.getSize(t.o); auto c = t.s.getCorner(t.o); auto m = t.s.getCenter(t.o);
  for (int i = 0; i < 3; i++) {
    vc::check_eq(c[i], (double)t.l[i] / t.n[i], "the corner is the logical position over the number of octants of that level");
    vc::check_eq(m[i] - c[i], i < t.ndim ? h[i] / 2 : 0.0, "the centre is half a size away from the corner");
  }
}
VC_CONTRACT(octant_inside) {
  St t; auto h = t.s.getSize(t.o); auto c = t.s.getCorner(t.o);
  for (int i = 0; i < t.ndim; i++) {
    vc::check_le(0.0, c[i], "octants start inside the domain");
    vc::check_le(c[i] + h[i], 1.0, "octants end inside the domain");
    vc::check((t.l[i] + 1 == t.n[i]) || c[i] + h[i] < 1.0 , "only the last octant reaches the upper side");
  }
}
// the 2^d children of an octant tile it
VC_CONTRACT(children_tile_parent) {
  St t(19); auto H = t.s.getSize(t.o); auto C = t.s.getCorner(t.o);
  uint32_t b[3]; for (int i = 0; i < 3; i++) b[i] = vc::u32(i == 0 ? "bx" : i == 1 ? "by" : "bz", 0, 1);
  if (t.ndim == 2) b[2] = 0;
  t.s.set(t.o, 2 * t.l[0] + b[0], 2 * t.l[1] + b[1], t.ndim == 3 ? 2 * t.l[2] + b[2] : 0, t.level + 1);
  auto h = t.s.getSize(t.o); auto c = t.s.getCorner(t.o);
  for (int i = 0; i < t.ndim; i++) {
    vc::check_eq(2 * h[i], H[i], "a child is half as large as its parent");
    vc::check_eq(c[i], C[i] + b[i] * h[i], "child b starts b child sizes after its parent");
  }
}
// two different octants of one level do not overlap, and next ones touch
VC_CONTRACT(same_level_tiling) {
  St t; auto h = t.s.getSize(t.o); auto c = t.s.getCorner(t.o);
  int ax = vc::u32("axis", 0, t.ndim - 1);
  vc::assume(t.l[ax] + 1 < t.n[ax]);
  uint32_t l[3] = {t.l[0], t.l[1], t.l[2]}; l[ax]++;
  t.s.set(t.o, l[0], l[1], l[2], t.level);
  auto c2 = t.s.getCorner(t.o);
  for (int i = 0; i < 3; i++) vc::check_eq(c2[i], c[i] + (i == ax ? h[i] : 0.0), "the next octant starts where this one ends");
}
VC_CONTRACT(storage_full_grid_constructor) {
  int ndim = vc::b("three_d") ? 3 : 2; uint32_t lmin = vc::u32("level_min", 0, 20), no = vc::dim("numOctants", 1, 1u << 30, 6), ng = vc::dim("numGhosts", 0, 1u << 30, 6);
  LightOctree_storage<> s(ndim, no, ng, lmin);
  vc::check(s.cell_count(IX, lmin) == (1u << lmin) && s.cell_count(IY, lmin) == (1u << lmin) && s.cell_count(IZ, lmin) == (ndim == 3 ? (1u << lmin) : 1u), "without coarse grid size the coarse grid is 2^level_min wide");
  vc::check(s.oct_data.extent(0) == (size_t)no + ng, "one entry per octant and ghost");
  vc::check(s.getNumOctants() == no && s.getNumGhosts() == ng && s.getNdim() == ndim && s.level_min == lmin, "fields are initialised from the arguments");
}
VC_CONTRACT(storage_copy) {
  St t; LightOctree_storage<Kokkos::HostSpace> s(t.s);
  auto lc = s.get_logical_coords(t.o);
  vc::check(lc[IX] == t.l[0] && lc[IY] == t.l[1] && lc[IZ] == t.l[2] && s.getLevel(t.o) == t.level, "a copy in another memory space holds the same octants");
  vc::check(s.getNumOctants() == t.no && s.getNumGhosts() == t.ng && s.getNdim() == t.ndim && s.level_min == t.lmin, "a copy has the same sizes");
  for (int i = 0; i < 3; i++) vc::check(s.coarse_grid_size[i] == t.cg[i], "a copy has the same coarse grid");
}
VC_CONTRACT(storage_subviews) {
  St t; auto lv = t.s.getLocalSubview(); auto gv = t.s.getGhostSubview();
  vc::check(lv.extent(0) == t.no && gv.extent(0) == t.ng, "the local and ghost parts have the announced lengths");
  vc::check((t.o.isGhost ? gv(t.o.iOct, 0) : lv(t.o.iOct, 0)) == t.l[0], "the local and ghost parts index the same octants");
}
static LightOctree_hashmap tree(St& t, bool px, bool py, bool pz) {
  LightOctree_hashmap m; m.storage = t.s; m.min_level = t.lmin; m.max_level = t.lmin + 20; m.is_periodic = {px, py, pz}; return m;
}
// isBoundary(oct, offset): the neighbour position lies outside the domain across a non-periodic side
VC_CONTRACT(is_boundary) {
  St t; bool p[3] = {vc::b("px"), vc::b("py"), vc::b("pz")};
  auto m = tree(t, p[0], p[1], p[2]);
  int8_t off[3]; bool out = false;
  for (int i = 0; i < 3; i++) {
    off[i] = (int8_t)vc::i32(i == 0 ? "ox" : i == 1 ? "oy" : "oz", -1, 1); if (i >= t.ndim) off[i] = 0;
    if (!p[i] && ((off[i] == -1 && t.l[i] == 0) || (off[i] == 1 && t.l[i] + 1 == t.n[i]))) out = true;
  }
  bool r = m.isBoundary(t.o, {off[0], off[1], off[2]});
  vc::check(r == out, "an offset leaves the domain exactly when it crosses a non-periodic side");
}
VC_CONTRACT(get_bound) {
  St t; auto m = tree(t, false, false, false); bool b = false;
  for (int i = 0; i < t.ndim; i++) b = b || t.l[i] == 0 || t.l[i] + 1 == t.n[i];
  vc::check(m.getBound(t.o) == b, "an octant is on the domain boundary exactly when it touches a side");
}
VC_CONTRACT(light_octree_forwards) {
  St t; auto m = tree(t, true, true, true);
  auto a = m.getSize(t.o), b = t.s.getSize(t.o), c = m.getCorner(t.o), d = t.s.getCorner(t.o), e = m.getCenter(t.o), f = t.s.getCenter(t.o);
  for (int i = 0; i < 3; i++) vc::check(a[i] == b[i] && c[i] == d[i] && e[i] == f[i], "the octree reports the stored geometry");
  vc::check(m.getLevel(t.o) == t.level && m.getNdim() == t.ndim && m.getNumOctants() == t.no && m.getNumGhosts() == t.ng, "the octree reports the stored sizes");
}
