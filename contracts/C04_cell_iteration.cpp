// Iteration over cells and cell arrays: every cell exactly once, storage without aliasing, position and size of cells.
#include "stub_mesh.h"
using namespace dyablo;
using FC = ForeachCell; using CI = FC::CellIndex; using Oct = LightOctree_base::OctantIndex;
struct Sh { uint32_t b[3]; Sh(uint32_t m = 32) { b[0] = vc::dim("bx", 1, m, 6); b[1] = vc::dim("by", 1, m, 5); b[2] = vc::dim("bz", 1, m, 4); } uint32_t n() const { return b[0] * b[1] * b[2]; } };
static VcConfig cfg(const Sh& s) { VcConfig c; c.seti("amr", "bx", s.b[0]); c.seti("amr", "by", s.b[1]); c.seti("amr", "bz", s.b[2]); return c; }
// what = 0: foreach_cell, 1: foreach_ghost_cell, 2: Patch::foreach_cell of one group
template <int what> static void once() {
  Sh s; uint32_t no = vc::dim("octants", 1, 100000, 5); VcMesh m; m.no = m.ng = no; VcConfig c = cfg(s); FC fc(m, c);
  Kokkos::View<uint32_t*> out("count", s.n() * no);
  uint32_t N = s.n(), bx = s.b[0], by = s.b[1], bz = s.b[2];
  auto body = [=](const CI& ic) {
    vc::check(ic.bx == bx && ic.by == by && ic.bz == bz, "a visited cell has the shape of the iteration space");
    vc::check(ic.i < bx && ic.j < by && ic.k < bz && ic.iOct.iOct < no, "a visited cell lies inside a block of the mesh");
    vc::check(ic.iOct.isGhost == (what == 1), "the cells visited are local (or ghosts, for the loop over ghosts)");
    vc::check(ic.is_local() && ic.is_valid() && ic.level_diff() == 0, "a visited cell is valid and local");
    out(ic.i + bx * (ic.j + by * (ic.k + bz * ic.iOct.iOct))) += 1;
  };
  FC::CellArray_shape sh{bx, by, bz};
  if (what == 0) fc.foreach_cell("k", sh, body); else fc.foreach_ghost_cell("k", sh, body);
  uint32_t q = vc::below("cell", N * no);
  vc::check(out(q) == 1, "every cell is visited exactly once");
}
VC_CONTRACT(each_cell_once) { once<0>(); }
VC_CONTRACT(each_ghost_cell_once) { once<1>(); }
// one group of octants (Patch), then the groups of a mesh: every octant in exactly one group
VC_CONTRACT(each_cell_once_in_patch) {
  Sh s; uint32_t no = vc::dim("octants in group", 1, 10000, 5), g0 = vc::dim("group begin", 0, 100000, 7);
  FC::Patch::PData pd{{}, g0, no}; FC::Patch pa(pd);
  uint32_t N = s.n(), bx = s.b[0], by = s.b[1], bz = s.b[2];
  Kokkos::View<uint32_t*> out("count", N * no);
  FC::CellArray_shape sh{bx, by, bz};
  pa.foreach_cell(sh, [=](const CI& ic) {
    vc::check(ic.bx == bx && ic.by == by && ic.bz == bz && !ic.iOct.isGhost && ic.is_local(), "a visited cell has the shape of the iteration space");
    vc::check(ic.i < bx && ic.j < by && ic.k < bz && ic.iOct.iOct >= g0 && ic.iOct.iOct < g0 + no, "a visited cell lies inside a block of the group");
    out(ic.i + bx * (ic.j + by * (ic.k + bz * (ic.iOct.iOct - g0)))) += 1;
  });
  uint32_t q = vc::below("cell", N * no);
  vc::check(out(q) == 1, "every cell of the group is visited exactly once");
}
//@ groups_partition_octants unwind=60 assume="group sizes 1, 2, 7, 64, 1024 and 4096, at most 12 groups of octants (bounded)"
VC_CONTRACT(groups_partition_octants) {
  static const uint32_t P[6] = {1, 2, 7, 64, 1024, 4096}; uint32_t sel = vc::u32("size", 0, 5);
  for (int q = 0; q < 6; q++) if (sel == q) {
    VcMesh m; VcConfig c; c.seti("amr", "bx", 4); c.seti("amr", "by", 4); c.seti("amr", "bz", 1);
    const uint32_t per = P[q]; m.no = vc::dim("octants", 1, 12 * P[q] - 1, 12 * P[q] - 1);
    c.seti("amr", "nbOctsPerGroup", per); FC fc(m, c); uint32_t end = 0;
    fc.foreach_patch("k", [&](const FC::Patch& p) { auto& d = p.pdata; vc::check(d.nbOctsInGroup <= per, "a group does not exceed the group size"); vc::check(d.group_begin == end || d.nbOctsInGroup == 0, "a group starts where the previous one ended"); end += d.nbOctsInGroup; });
    vc::check(end == m.no, "the groups cover all octants");
  }
}
// reductions see every cell once: the sum of a cell function over the mesh is the sum over flat indices
VC_CONTRACT(reduce_visits_valid_cells) {
  Sh s; uint32_t no = vc::dim("octants", 1, 100000, 5); VcMesh m; m.no = no; VcConfig c = cfg(s); FC fc(m, c);
  uint32_t N = s.n(), bx = s.b[0], by = s.b[1], bz = s.b[2];
  Kokkos::View<uint32_t*> seen("count", N * no); double total = 0;
  fc.reduce_cell("k", FC::CellArray_shape{bx, by, bz}, [=](const CI& ic, double& u) {
    vc::check(ic.i < bx && ic.j < by && ic.k < bz && ic.iOct.iOct < no && !ic.iOct.isGhost && ic.is_local() && ic.bx == bx && ic.by == by && ic.bz == bz, "a visited cell lies inside a block of the mesh");
    seen(ic.i + bx * (ic.j + by * (ic.k + bz * ic.iOct.iOct))) += 1; u += 1;
  }, total);
  uint32_t q = vc::below("cell", N * no);
  vc::check(seen(q) == 1, "every cell contributes exactly once to a reduction");
}
// ---- cell arrays
// block shapes: cubic, flat, elongated, odd (the storage contracts are enumerated over these shapes, everything else is symbolic)
static const uint32_t SHAPES[][3] = {{1, 1, 1}, {2, 2, 2}, {4, 4, 4}, {8, 8, 8}, {4, 4, 1}, {3, 5, 2}, {7, 3, 1}, {16, 4, 8}, {2, 9, 5}, {32, 32, 1}};
static const uint32_t GHOSTS[][3] = {{0, 0, 0}, {1, 1, 1}, {2, 2, 0}, {0, 1, 2}};
static CI anycell(const uint32_t (&b)[3]) { CI c; c.bx = b[0]; c.by = b[1]; c.bz = b[2]; c.i = vc::below("i", b[0]); c.j = vc::below("j", b[1]); c.k = vc::below("k", b[2]); c.status = CI::LOCAL_TO_BLOCK; c.iOct.isGhost = false; return c; }
template <class A> static void twocells(A& a, const CI& c, const CI& d, int nf, bool samecell) {
  int fc = vc::below("fc", nf), fd = vc::below("fd", nf); bool same = samecell && fc == fd;
  double v = vc::real("v", -1e6, 1e6), w = vc::real("w", -1e6, 1e6);
  a.at_ivar(c, fc) = v; a.at_ivar(d, fd) = w;
  vc::check_eq(a.at_ivar(c, fc), same ? w : v, "writing one field of one cell changes no other value");
  vc::check_eq(a.at_ivar(d, fd), w, "a value written is read back");
}
//@ cell_storage_is_private assume="block shapes enumerated: cubic, flat, elongated and odd ones up to 32 cells a side"
VC_CONTRACT(cell_storage_is_private) {
  uint32_t sel = vc::u32("shape", 0, 9), no = vc::dim("octants", 1, 100000, 5), ng = vc::dim("ghosts", 0, 100000, 3); int nf = vc::u32("fields", 1, 20);
  for (int q = 0; q < 10; q++) if (sel == q) {
    VcMesh m; m.no = no; m.ng = ng; VcConfig k; k.seti("amr", "bx", SHAPES[q][0]); k.seti("amr", "by", SHAPES[q][1]); k.seti("amr", "bz", SHAPES[q][2]);
    FC fc(m, k); FieldManager f; f.id2index._nbfields = nf; auto a = fc.allocate_ghosted_array("a", f);
    vc::check(a.nbOcts == no && a.nbfields() == nf && a.bx == SHAPES[q][0] && a.by == SHAPES[q][1] && a.bz == SHAPES[q][2], "an allocated array has the fields, octants and block shape asked for");
    CI c[2]; for (CI& x : c) { x = anycell(SHAPES[q]); x.iOct.isGhost = vc::b("g"); if (x.iOct.isGhost) vc::assume(ng > 0); x.iOct.iOct = vc::below("o", x.iOct.isGhost ? ng : no); }
    twocells(a, c[0], c[1], nf, c[0].i == c[1].i && c[0].j == c[1].j && c[0].k == c[1].k && c[0].iOct.iOct == c[1].iOct.iOct && c[0].iOct.isGhost == c[1].iOct.isGhost);
  }
}
//@ patch_storage_is_private assume="block shapes and group sizes enumerated: cubic, flat, elongated and odd ones up to 32 cells a side, with 0 to 2 ghost cells, groups of 1 to 1000 octants"
VC_CONTRACT(patch_storage_is_private) {
  uint32_t sel = vc::u32("shape", 0, 9); int nf = vc::u32("fields", 1, 20);
  for (int q = 0; q < 10; q++) if (sel == q) {
    const uint32_t* g = GHOSTS[q % 4]; const uint32_t per = q == 3 ? 1000 : q == 9 ? 1 : 3 * q + 2; uint32_t e[3]; for (int r = 0; r < 3; r++) e[r] = SHAPES[q][r] + 2 * g[r];
    VcMesh m; if (e[2] == 1) m.dim = 2; VcConfig k; k.seti("amr", "bx", SHAPES[q][0]); k.seti("amr", "by", SHAPES[q][1]); k.seti("amr", "bz", SHAPES[q][2]); k.seti("amr", "nbOctsPerGroup", per);
    FC fc(m, k); id2index_t fm; auto a = fc.reserve_patch_tmp("t", g[0], g[1], g[2], fm, nf);
    vc::check(a.bx == e[0] && a.by == e[1] && a.bz == e[2], "a temporary has the block shape extended by its ghost cells");
    uint32_t base = per * vc::u32("group", 0, 1000); // both octants in one group
    CI c[2]; for (CI& x : c) { x = anycell(e); x.iOct.iOct = base + vc::below("o", per); }
    twocells(a, c[0], c[1], nf, c[0].i == c[1].i && c[0].j == c[1].j && c[0].k == c[1].k && c[0].iOct.iOct == c[1].iOct.iOct);
  }
}
// ---- conversion of a cell index between arrays with different numbers of ghost cells
static CI conv_cell(const Sh& s, const uint32_t (&b)[3]) { CI c; c.iOct.isGhost = false; c.iOct.iOct = vc::u32("o"); c.bx = b[0]; c.by = b[1]; c.bz = b[2]; c.i = vc::below("i", b[0]); c.j = vc::below("j", b[1]); c.k = vc::below("k", b[2]); c.status = CI::LOCAL_TO_BLOCK; return c; }
VC_CONTRACT(convert_index) {
  Sh s(1024); uint32_t g[3] = {vc::u32("gx", 0, 4), vc::u32("gy", 0, 4), vc::u32("gz", 0, 4)}, h[3] = {vc::u32("hx", 0, 4), vc::u32("hy", 0, 4), vc::u32("hz", 0, 4)};
  uint32_t b[3], d[3]; for (int q = 0; q < 3; q++) { b[q] = s.b[q] + 2 * g[q]; d[q] = s.b[q] + 2 * h[q]; }
  FC::CellArray_global a; a.bx = d[0]; a.by = d[1]; a.bz = d[2];
  CI c = conv_cell(s, b);
  // position relative to the block is kept
  int32_t p[3] = {(int32_t)c.i - (int32_t)g[0] + (int32_t)h[0], (int32_t)c.j - (int32_t)g[1] + (int32_t)h[1], (int32_t)c.k - (int32_t)g[2] + (int32_t)h[2]};
  bool in = true; for (int q = 0; q < 3; q++) in = in && p[q] >= 0 && p[q] < (int32_t)d[q];
  CI r = a.getShape().convert_index_ghost(c);
  vc::check(r.is_valid() == in, "conversion fails exactly when the array has no storage for the cell");
  if (in) {
    vc::check(r.i == (uint32_t)p[0] && r.j == (uint32_t)p[1] && r.k == (uint32_t)p[2] && r.iOct.iOct == c.iOct.iOct && !r.iOct.isGhost && r.is_local(), "conversion keeps the position of the cell relative to its block");
    vc::check(r.bx == d[0] && r.by == d[1] && r.bz == d[2], "a converted index has the shape of the array");
    CI q = a.getShape().convert_index(c);
    vc::check(q == r && q.bx == r.bx && q.by == r.by && q.bz == r.bz, "both conversions agree on cells that have storage");
  }
}

// ---- geometry: the cells of a level form a regular grid over the physical domain
struct Geo {
  int dim; uint32_t n[3], l[3], b[3]; double lo[3], hi[3]; VcMesh m; VcConfig c; Oct o; uint32_t no, ng, lmin, d;
  Geo(int dim_, const uint32_t (&bb)[3]) : dim(dim_) {
    no = vc::dim("octants", 1, 100000, 5); ng = vc::dim("ghosts", 0, 100000, 3); lmin = vc::u32("level_min", 0, 8); d = vc::u32("refinements", 0, 12);
    Kokkos::Array<uint32_t, 3> cg{vc::u32("coarse_x", 1, 256), vc::u32("coarse_y", 1, 256), 1}; if (dim == 3) cg[IZ] = vc::u32("coarse_z", 1, 256);
    for (int i = 0; i < 3; i++) { b[i] = bb[i]; n[i] = i < dim ? cg[i] << d : 1; }
    l[0] = vc::below("lx", n[0]); l[1] = vc::below("ly", n[1]); l[2] = dim == 3 ? vc::below("lz", n[2]) : 0;
    o.isGhost = vc::b("ghost"); vc::assume(!o.isGhost || ng > 0); o.iOct = vc::below("iOct", o.isGhost ? ng : no);
    m.dim = dim; m.no = no; m.ng = ng; m.lmin = lmin; m.lmax = lmin + d; m.cg = cg;
    m.lm.storage = LightOctree_storage<>(dim, no, ng, lmin, cg);
    m.lm.storage.oct_data = vc::view_uint<LightOctree_storage<>::oct_data_t>("oct_data", 0, 1000, no + ng, 4);
    m.lm.storage.set(o, l[0], l[1], l[2], lmin + d);
    m.lm.min_level = lmin; m.lm.max_level = lmin + d; m.lm.is_periodic = {true, true, true};
    static const char* ln[3] = {"xmin", "ymin", "zmin"}; static const char* hn[3] = {"xmax", "ymax", "zmax"};
    static const char* bn[3] = {"bx", "by", "bz"};
    for (int i = 0; i < 3; i++) { lo[i] = vc::real(ln[i], -10, 10); hi[i] = vc::real(hn[i], -10, 30); vc::assume(hi[i] > lo[i] + 0.1); c.set("mesh", ln[i], lo[i]); c.set("mesh", hn[i], hi[i]); c.seti("amr", bn[i], b[i]); }
  }
};
template <int dim> static void cell_position() {
  uint32_t b[3] = {vc::u32("bx", 1, 64), vc::u32("by", 1, 64), dim == 3 ? vc::u32("bz", 1, 64) : 1};
  Geo t(dim, b); FC fc(t.m, t.c); auto md = fc.getCellMetaData();
  CI c = anycell(b); c.iOct = t.o;
  auto s = md.getCellSize(c); auto p = md.getCellCenter(c); uint32_t ci[3] = {c.i, c.j, c.k};
  for (int i = 0; i < dim; i++) {
    double w = (t.hi[i] - t.lo[i]) / ((double)t.n[i] * b[i]);
    vc::check_eq(s[i], w, "the cells of a level have equal size and cover the domain");
    vc::check_eq(p[i], t.lo[i] + ((double)t.l[i] * b[i] + ci[i] + 0.5) * w, "the centre of a cell is the middle of its slot in the grid of its level", 100);
  }
}
VC_CONTRACT(cell_position_2d) { cell_position<2>(); }
VC_CONTRACT(cell_position_3d) { cell_position<3>(); }
// contract of getiOctFromPos (proved in C03, from_position): the leaf that contains the position
static Oct vc_found;
extern "C" __attribute__((used, noinline)) Oct vc_getiOctFromPos(const LightOctree_hashmap* m, const LightOctree_base::pos_t& p) { return vc_found; }
template <int dim> static void cell_at_position() {
  static const uint32_t SH[5][3] = {{4, 4, 4}, {1, 1, 1}, {3, 5, 2}, {8, 2, 16}, {2, 7, 1}}; uint32_t sel = vc::u32("shape", 0, 4);
  for (int q = 0; q < 5; q++) if (sel == q) {
    uint32_t b[3] = {SH[q][0], SH[q][1], dim == 3 ? SH[q][2] : 1}; Geo t(dim, b); vc::assume(!t.o.isGhost); vc_found = t.o;
    CI c = anycell(b); uint32_t ci[3] = {c.i, c.j, c.k}; double pos[3] = {0, 0, t.lo[2]}; static const char* fn[3] = {"fx", "fy", "fz"};
    for (int i = 0; i < dim; i++) {
      double f = vc::real(fn[i], 0, 1); vc::assume(f > 0 && f < 1);
#ifndef VC_IR
      f = 0.05 + 0.9 * f;
#endif
      pos[i] = t.lo[i] + ((double)t.l[i] * b[i] + ci[i] + f) * ((t.hi[i] - t.lo[i]) / ((double)t.n[i] * b[i]));
    }
#ifndef VC_IR
    t.m.lm.oct_map = decltype(t.m.lm.oct_map)(16); LightOctree_hashmap::key_t K; K.level = t.lmin + t.d; K.i = t.l[0]; K.j = t.l[1]; K.k = t.l[2]; t.m.lm.oct_map.insert(K, t.o);
#endif
    FC fc(t.m, t.c); CI r = fc.getCellMetaData().getCellFromPos({pos[0], pos[1], pos[2]});
    vc::check(r.i == c.i && r.j == c.j && r.k == c.k && r.iOct.iOct == t.o.iOct && !r.iOct.isGhost && r.bx == b[0] && r.by == b[1] && r.bz == b[2] && r.is_local(), "a position is located in the cell that contains it");
  }
}
//@ cell_at_position_2d replace=LightOctree_hashmap::getiOctFromPos=>vc_getiOctFromPos
VC_CONTRACT(cell_at_position_2d) { cell_at_position<2>(); }
//@ cell_at_position_3d replace=LightOctree_hashmap::getiOctFromPos=>vc_getiOctFromPos
VC_CONTRACT(cell_at_position_3d) { cell_at_position<3>(); }
