// Neighbour cells across and inside blocks, against the geometry of the grid of cells.
#include "stub_mesh.h"
using namespace dyablo;
using FC = ForeachCell; using CI = FC::CellIndex; using Oct = LightOctree_base::OctantIndex; using Tree = LightOctree_hashmap; using Key = Tree::key_t;
static bool same(const Oct& a, const Oct& b) { return a.iOct == b.iOct && a.isGhost == b.isGhost; }
// ---- contracts of the octree (proved in C02 and C03), at the state chosen by the contract
static uint32_t vc_n[3], vc_level; static bool vc_boundary; static Oct vc_nb[8]; static int vc_nnb;
extern "C" __attribute__((used, noinline)) uint32_t vc_cell_count(const LightOctree_storage<>* s, ComponentIndex3D i, uint32_t L) {
  return L == vc_level ? vc_n[i] : L == vc_level + 1 ? 2 * vc_n[i] : vc_n[i] / 2;
}
static bool vc_offset_ok; static int vc_o[3];
extern "C" __attribute__((used, noinline)) bool vc_isBoundary(const Tree* m, const Oct& o, const LightOctree_base::offset_t& off) {
  for (int i = 0; i < 3; i++) vc::check(off[i] == vc_o[i], "the neighbour octant asked for is the one that holds the cell");
  return vc_boundary;
}
extern "C" __attribute__((used, noinline)) LightOctree_base::NeighborList vc_findNeighbors(const Tree* m, const Oct& o, const LightOctree_base::offset_t& off) {
  for (int i = 0; i < 3; i++) vc::check(off[i] == vc_o[i], "the neighbour octant asked for is the one that holds the cell");
  LightOctree_base::NeighborList r; r.m_size = vc_nnb;
  for (int q = 0; q < 8; q++) if (q < vc_nnb && q < 4) r.m_neighbors[q] = vc_nb[q];
  return r;
}
enum Kind { SAME, BIGGER, SMALLER, BOUND };
enum Mode { NEIGHBOR, CONVERT, CONVERT_NEIGHBOR };
// the cell off cells away from cell ci lies at position t = ci + off - o*b of the octant at offset o (o given, not null)
template <int dim, int kind, int mode> static void neighbour(const uint32_t (&b)[3], const int (&o)[3], const uint32_t (&ci)[3], const int (&off)[3], const uint32_t (&t)[3]) {
  for (int i = 0; i < 3; i++) vc_o[i] = o[i];
  uint32_t lmin = vc::u32("level_min", 0, 8), d = vc::u32("refinements", kind == BIGGER, 12); bool per[3] = {vc::b("px"), vc::b("py"), vc::b("pz")};
  uint32_t no = 40, ng = 40; uint32_t n[3], l[3], c[3];
  LightOctree_storage<>::coarse_grid_size_t cg{vc::u32("coarse_x", 1, 64), vc::u32("coarse_y", 1, 64), 1}; if (dim == 3) cg[IZ] = vc::u32("coarse_z", 1, 64);
#ifdef VC_IR
  n[0] = vc::u32("nx", 1, 1u << 20); n[1] = vc::u32("ny", 1, 1u << 20); n[2] = vc::u32("nz", 1, 1u << 20);
  if (kind == BIGGER) for (int i = 0; i < 3; i++) n[i] *= 2;
  no = 100000; ng = 80000;
  for (int i = 0; i < 3; i++) vc_n[i] = n[i]; vc_level = lmin + d;
#else
  for (int i = 0; i < 3; i++) n[i] = cg[i] << d;
#endif
  static const char* ln[3] = {"lx", "ly", "lz"}; bool out = false;
#ifdef VC_IR
  uint32_t edge = vc::u32("edge", 0, 7);   // one case per set of axes along which the octant is at the edge of the domain it is left through
#endif
  for (int i = 0; i < 3; i++) {
#ifdef VC_IR
    bool e = edge >> i & 1; if (e && !o[i]) return;
    if (e) l[i] = o[i] == -1 ? 0 : n[i] - 1;
    else { l[i] = i < dim ? vc::u32(ln[i], 0, 1u << 20) + (o[i] == -1) : 0; if (i < dim) vc::assume(l[i] + (o[i] == 1) < n[i]); }
#else
    l[i] = i < dim ? vc::below(ln[i], n[i]) : 0; bool e = (o[i] == -1 && l[i] == 0) || (o[i] == 1 && l[i] + 1 == n[i]);
#endif
    if (!per[i] && e) out = true;
    c[i] = !e ? l[i] + o[i] : o[i] == -1 ? n[i] - 1 : 0;
  }
  vc::assume(out == (kind == BOUND)); vc_boundary = kind == BOUND;
  bool ghost = (b[0] + o[0] + o[1]) & 1, own = kind == SAME ? vc::u32("own_neighbour", 0, 1) : 0;
#ifdef VC_IR
  const uint32_t base = 70000, step = 300;
#else
  const uint32_t base = 7, step = 3;
#endif
  Oct oct; oct.isGhost = false; oct.iOct = base;
  Tree m; m.storage = LightOctree_storage<>(dim, no, ng, lmin, cg);
  m.storage.oct_data = vc::view_uint<LightOctree_storage<>::oct_data_t>("oct_data", 0, 1000, no + ng, 4);
  m.min_level = lmin; m.max_level = lmin + d + 1; m.is_periodic = {per[0], per[1], per[2]};
  m.storage.set(oct, l[0], l[1], l[2], lmin + d);
  m.oct_map = decltype(m.oct_map)(64);
  // the neighbour leaves
  int bits[8] = {0}; vc_nnb = 0;
  auto put = [&](uint32_t i, uint32_t j, uint32_t k, uint32_t L) {
    // octants are named by arbitrary distinct numbers, local or ghost; an octant is its own neighbour across a periodic direction one octant wide
    int q = vc_nnb++; Oct v; bool self = kind == SAME && L == lmin + d && i == l[0] && j == l[1] && k == l[2];
    if (kind == SAME) vc::assume(self == own);
    v.isGhost = ghost & !own; v.iOct = base + (own ? 0 : (q + 1) * step);
    m.storage.set(v, i, j, k, L); vc_nb[q] = v;
#ifndef VC_IR
    Key K; K.level = L; K.i = i; K.j = j; K.k = k; m.oct_map.insert(K, v);
#endif
  };
  if (kind == SAME) put(c[0], c[1], c[2], lmin + d);
  if (kind == BIGGER) put(c[0] / 2, c[1] / 2, c[2] / 2, lmin + d - 1);
  if (kind == SMALLER) for (int q = 0; q < 8; q++) {
    bool ok = true; for (int i = 0; i < 3; i++) { int bit = q >> i & 1; if ((o[i] == 1 && bit) || (o[i] == -1 && !bit) || (i >= dim && bit)) ok = false; }
    if (ok) bits[vc_nnb] = q;
    if (ok) put(2 * c[0] + (q & 1), 2 * c[1] + (q >> 1 & 1), dim == 3 ? 2 * c[2] + (q >> 2 & 1) : 0, lmin + d + 1);
  }
  FC::CellArray_global_ghosted a; a.bx = b[0]; a.by = b[1]; a.bz = b[2]; a.nbOcts = no; a.lmesh = m;
  CI cell; cell.iOct = oct; cell.status = CI::LOCAL_TO_BLOCK; CI r;
  if (mode == NEIGHBOR) {
    cell.i = ci[0]; cell.j = ci[1]; cell.k = ci[2]; cell.bx = b[0]; cell.by = b[1]; cell.bz = b[2];
    r = cell.getNeighbor_ghost({(int16_t)off[0], (int16_t)off[1], (int16_t)off[2]}, a);
  } else { // the same cell, as an index of a block with g ghost cells on each side
#ifdef VC_IR
    uint32_t gs = vc::u32("ghosts", 0, 1), g[3] = {gs ? 4u : 2u, gs ? 3u : 2u, gs ? 1u : 2u}, p[3];
#else
    uint32_t g[3] = {vc::u32("gx", 0, 4), vc::u32("gy", 0, 4), vc::u32("gz", 0, 4)}, p[3];
#endif
    for (int i = 0; i < 3; i++) { p[i] = t[i] + (g[i] + o[i] * (int)b[i]); vc::assume(p[i] < b[i] + 2 * g[i]); vc::assume(o[i] != 0 || off[i] == 0); vc::assume(o[i] == 0 || ci[i] == (o[i] == 1 ? b[i] - 1 : 0)); }
    cell.i = p[0]; cell.j = p[1]; cell.k = p[2]; cell.bx = b[0] + 2 * g[0]; cell.by = b[1] + 2 * g[1]; cell.bz = b[2] + 2 * g[2];
    r = mode == CONVERT ? a.convert_index_ghost(cell) : a.convert_index_getNeighbor(cell);
  }
  vc::check(r.bx == b[0] && r.by == b[1] && r.bz == b[2], "a neighbour index has the block shape of the array");
  uint32_t ri[3] = {r.i, r.j, r.k};
  if (kind == BOUND) {
    vc::check(r.is_boundary() && !r.is_valid(), "a cell outside a non-periodic boundary is a boundary cell");
    CI in; CI::offset_t f; r.getBoundaryPosAndOffset(in, f); uint32_t ii[3] = {in.i, in.j, in.k};
    vc::check(same(in.iOct, oct) && in.is_local() && in.bx == b[0] && in.by == b[1] && in.bz == b[2], "the inside position of a boundary cell is in the same octant");
    for (int i = 0; i < 3; i++) {
      vc::check(ii[i] < b[i], "the inside position of a boundary cell lies in the block");
      vc::check((int)ii[i] + f[i] == (int)ci[i] + off[i], "inside position and offset lead to the boundary cell");
      vc::check(o[i] == 0 ? f[i] == 0 : (int)ii[i] == (o[i] == 1 ? (int)b[i] - 1 : 0), "the inside position is the closest one to the boundary cell");
    }
    return;
  }
  vc::check(r.is_valid() && !r.is_local(), "a cell of another octant is valid and not local");
  vc::check(r.level_diff() == (kind == BIGGER) - (kind == SMALLER), "the level difference of a neighbour cell is the one of the octants");
  if (kind == SMALLER) {
    // fine cell of the equally sized cell: the closest one along the axes crossed, the first one along the others
    int bit[3]; bool found = false;
    for (int i = 0; i < 3; i++) {
      uint32_t f = 2 * t[i] + (mode != CONVERT && o[i] == -1); if (i >= dim) f = 0;
      bit[i] = f >= b[i]; vc::check(ri[i] == f - bit[i] * b[i], "a finer neighbour cell is the subcell next to the cell it is reached from");
    }
    for (int q = 0; q < 8; q++) if (q < vc_nnb) { bool eq = true; for (int i = 0; i < 3; i++) eq = eq && (bits[q] >> i & 1) == bit[i]; if (eq) found = same(r.iOct, vc_nb[q]); }
    vc::check(found, "a finer neighbour cell is in the leaf that covers it");
  } else {
    vc::check(same(r.iOct, vc_nb[0]), "a neighbour cell is in the leaf that covers it");
    for (int i = 0; i < 3; i++) vc::check(ri[i] == (kind == SAME ? t[i] : i < dim ? (c[i] % 2 * b[i] + t[i]) / 2 : 0), kind == SAME ? "a neighbour cell of equal size is at the position asked for" : "a coarser neighbour cell covers the position asked for");
  }
}
// all offsets |off| <= (b + 1) / 2 (b / 2 where all subcells are to be in one octant) that leave the block
template <int dim, int kind, int mode> static void neighbours(uint32_t bx, uint32_t by, uint32_t bz) {
  uint32_t b[3] = {bx, by, bz}, ci[3], t[3]; int off[3], O[3]; static const char* cn[3] = {"i", "j", "k"}; static const char* on[3] = {"di", "dj", "dk"};
#ifdef VC_IR
  int q = vc::u32("direction", 0, 26);   // one case per direction: the position reached in the neighbour octant and the offset, from these the cell
  for (int i = 0, p = q; i < 3; i++, p /= 3) O[i] = p % 3 - 1;
  if (q == 13 || (dim == 2 && O[2])) return;
#endif
  for (int i = 0; i < 3; i++) {
    int mx = (b[i] + (mode == CONVERT ? 0 : 1)) / 2; if (mx > 4) mx = 4; if (i >= dim) mx = 0;
#ifdef VC_IR
    if (mode != NEIGHBOR) { // the cell of the block nearest to the ghost cell is the one to start from
      if (O[i] && mx == 0) return;
      if (O[i] == 0) { off[i] = 0; t[i] = ci[i] = vc::u32(cn[i], 0, b[i] - 1); }
      else { t[i] = O[i] == 1 ? vc::u32(cn[i], 0, mx - 1) : vc::u32(cn[i], b[i] - mx, b[i] - 1); ci[i] = O[i] == 1 ? b[i] - 1 : 0; off[i] = O[i] == 1 ? (int)t[i] + 1 : (int)t[i] - (int)b[i]; }
      continue;
    }
    off[i] = vc::i32(on[i], -mx, mx);
    t[i] = vc::u32(cn[i], 0, b[i] - 1); int x = (int)t[i] + O[i] * (int)b[i] - off[i]; vc::assume(x >= 0 && x < (int)b[i]); ci[i] = x;
#else
    off[i] = vc::i32(on[i], -mx, mx);
    ci[i] = vc::u32(cn[i], 0, b[i] - 1); int x = (int)ci[i] + off[i]; O[i] = x < 0 ? -1 : x >= (int)b[i] ? 1 : 0; t[i] = x - O[i] * (int)b[i];
#endif
  }
#ifndef VC_IR
  if (!O[0] && !O[1] && !O[2]) return;
#endif
  neighbour<dim, kind, mode>(b, O, ci, off, t);
}
template <int kind, int mode> static void neighbours2() {
  static const uint32_t S[5][2] = {{4, 4}, {1, 1}, {2, 3}, {8, 2}, {5, 7}}; uint32_t sel = vc::u32("shape", 0, 4);
  for (int q = 0; q < 5; q++) if (sel == q) neighbours<2, kind, mode>(S[q][0], S[q][1], 1);
}
// inside a block: no search needed, and arrays without ghosts give nothing outside of it
template <int dim> static void in_block(uint32_t bx, uint32_t by, uint32_t bz) {
  uint32_t b[3] = {bx, by, bz}, c[3]; int off[3]; bool in = true; static const char* cn[3] = {"i", "j", "k"}; static const char* on[3] = {"di", "dj", "dk"};
#ifdef VC_IR
  int dir = vc::u32("direction", 0, 26);
#endif
  for (int i = 0; i < 3; i++) {
#ifdef VC_IR
    int O = dir % 3 - 1; dir /= 3; if (O) in = false;
    off[i] = vc::i32(on[i], -(int)b[i], b[i]); uint32_t t = vc::u32(cn[i], 0, b[i] - 1); int x = (int)t + O * (int)b[i] - off[i]; vc::assume(x >= 0 && x < (int)b[i]); c[i] = x;
#else
    c[i] = vc::u32(cn[i], 0, b[i] - 1); off[i] = vc::i32(on[i], -(int)b[i], b[i]); int x = (int)c[i] + off[i]; in = in && x >= 0 && x < (int)b[i];
#endif
  }
  CI cell; cell.iOct.iOct = vc::u32("oct", 0, 1000); cell.iOct.isGhost = false; cell.status = CI::LOCAL_TO_BLOCK; cell.i = c[0]; cell.j = c[1]; cell.k = c[2]; cell.bx = bx; cell.by = by; cell.bz = bz;
  CI::offset_t o = {(int16_t)off[0], (int16_t)off[1], (int16_t)off[2]};
  FC::CellArray_patch pa; pa.bx = bx; pa.by = by; pa.bz = bz; pa.nbOcts = 1;
  auto ok = [&](const CI& r) { return r.is_valid() && r.is_local() && r.level_diff() == 0 && same(r.iOct, cell.iOct) && (int)r.i == (int)c[0] + off[0] && (int)r.j == (int)c[1] + off[1] && (int)r.k == (int)c[2] + off[2] && r.bx == bx && r.by == by && r.bz == bz; };
  CI r = cell.getNeighbor_ghost(o, pa);
  if (in) vc::check(ok(r), "a neighbour inside the block is the local cell at the offset asked for"); else vc::check(!r.is_valid(), "an array without ghosts has no cell outside the block");
  if (in) {
    vc::check(ok(cell.getNeighbor(o)), "an offset inside the block leads to the cell at that offset");
    bool small = true; for (int i = 0; i < 3; i++) small = small && 2 * (off[i] < 0 ? -off[i] : off[i]) - 1 <= (int)b[i];
    if (small) { FC::CellArray_global_ghosted a; a.bx = bx; a.by = by; a.bz = bz; a.nbOcts = 1; vc::check(ok(cell.getNeighbor_ghost(o, a)), "a neighbour inside the block needs no search"); vc::cover(true, "ghosted"); }
    vc::cover(true, "inside");
  } else vc::cover(true, "outside");
}
//@ neighbour_in_block cases=shape:0..6 cases=direction:0..26
VC_CONTRACT(neighbour_in_block) {
  static const uint32_t S[7][3] = {{4, 4, 1}, {1, 1, 1}, {2, 3, 1}, {4, 4, 4}, {3, 5, 2}, {8, 8, 8}, {1, 2, 4}}; uint32_t sel = vc::u32("shape", 0, 6);
  for (int q = 0; q < 7; q++) if (sel == q) { if (q < 3) in_block<2>(S[q][0], S[q][1], S[q][2]); else in_block<3>(S[q][0], S[q][1], S[q][2]); }
}
// the loops over sibling cells and over the finer cells that face a cell: every such cell once, and their number
template <int dim> static void siblings(uint32_t bx, uint32_t by, uint32_t bz) {
  uint32_t b[3] = {bx, by, bz}, c[3]; static const char* cn[3] = {"i", "j", "k"}; static const char* on[3] = {"di", "dj", "dk"};
  for (int i = 0; i < 3; i++) c[i] = i < dim ? 2 * vc::u32(cn[i], 0, b[i] / 2 - 1) : 0;
  CI cell; cell.iOct.iOct = vc::u32("oct", 0, 1000); cell.iOct.isGhost = false; cell.status = CI::SMALLER; cell.i = c[0]; cell.j = c[1]; cell.k = c[2]; cell.bx = bx; cell.by = by; cell.bz = bz;
  FC::CellArray_global_ghosted ga; ga.bx = bx; ga.by = by; ga.bz = bz; ga.nbOcts = 1; FC::CellArray_global_ghosted::Shape_t a = ga.getShape();
  auto each = [&](bool all, const int (&o)[3]) {
    int seen[8] = {0}, n = 0, want = 0; bool ok = true;
    auto f = [&](const CI& x) {
      uint32_t e[3] = {x.i - c[0], x.j - c[1], x.k - c[2]}; ok = ok && x.is_valid() && same(x.iOct, cell.iOct) && e[0] < 2 && e[1] < 2 && e[2] < 2 && x.bx == bx && x.by == by && x.bz == bz; n++;
      for (int q = 0; q < 8; q++) seen[q] += (e[0] == (q & 1) && e[1] == (q >> 1 & 1) && e[2] == (q >> 2));
    };
    CI::offset_t of = {(int16_t)o[0], (int16_t)o[1], (int16_t)o[2]};
    int r = all ? foreach_sibling<dim>(cell, a, f) : foreach_smaller_neighbor<dim>(cell, of, a, f);
    vc::check(ok, "sibling cells are the cells of the same parent");
    for (int q = 0; q < 8; q++) { bool w = true; for (int i = 0; i < 3; i++) if (q >> i & 1) w = w && i < dim && (all || o[i] == 0); want += w; vc::check(seen[q] == w, all ? "every sibling cell is visited once" : "every finer cell facing the cell is visited once"); }
    vc::check(n == want && r == want, "the number of cells visited is reported");
  };
  each(true, {0, 0, 0});
  for (int q = 0; q < (dim == 3 ? 27 : 9); q++) if (q != (dim == 3 ? 13 : 4)) {
    int o[3] = {q % 3 - 1, q / 3 % 3 - 1, dim == 3 ? q / 9 - 1 : 0}; each(false, o);
  }
}
//@ siblings_2d
VC_CONTRACT(siblings_2d) { siblings<2>(6, 4, 1); }
//@ siblings_3d
VC_CONTRACT(siblings_3d) { siblings<3>(4, 2, 6); }
//@ neighbour_same_2d cases=edge:0..3 cases=own_neighbour:0..1 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_same_2d) { neighbours2<SAME, NEIGHBOR>(); }
//@ neighbour_same_444 cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_same_444) { neighbours<3, SAME, NEIGHBOR>(4, 4, 4); }
//@ neighbour_same_352 cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_same_352) { neighbours<3, SAME, NEIGHBOR>(3, 5, 2); }
//@ neighbour_same_111 tier=thorough cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_same_111) { neighbours<3, SAME, NEIGHBOR>(1, 1, 1); }
//@ neighbour_coarser_2d cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_coarser_2d) { neighbours2<BIGGER, NEIGHBOR>(); }
//@ neighbour_coarser_444 tier=thorough cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_coarser_444) { neighbours<3, BIGGER, NEIGHBOR>(4, 4, 4); }
//@ neighbour_coarser_352 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_coarser_352) { neighbours<3, BIGGER, NEIGHBOR>(3, 5, 2); }
//@ neighbour_coarser_111 tier=thorough cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_coarser_111) { neighbours<3, BIGGER, NEIGHBOR>(1, 1, 1); }
//@ neighbour_finer_2d cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_finer_2d) { neighbours2<SMALLER, NEIGHBOR>(); }
//@ neighbour_finer_444 tier=thorough cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_finer_444) { neighbours<3, SMALLER, NEIGHBOR>(4, 4, 4); }
//@ neighbour_finer_352 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_finer_352) { neighbours<3, SMALLER, NEIGHBOR>(3, 5, 2); }
//@ neighbour_finer_111 tier=thorough cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_finer_111) { neighbours<3, SMALLER, NEIGHBOR>(1, 1, 1); }
//@ neighbour_boundary_2d cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_boundary_2d) { neighbours2<BOUND, NEIGHBOR>(); }
//@ neighbour_boundary_444 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_boundary_444) { neighbours<3, BOUND, NEIGHBOR>(4, 4, 4); }
//@ neighbour_boundary_352 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_boundary_352) { neighbours<3, BOUND, NEIGHBOR>(3, 5, 2); }
//@ neighbour_boundary_111 tier=thorough cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_boundary_111) { neighbours<3, BOUND, NEIGHBOR>(1, 1, 1); }
//@ convert_neighbour_same_2d cases=ghosts:0..1 cases=edge:0..3 cases=own_neighbour:0..1 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_same_2d) { neighbours2<SAME, CONVERT>(); }
//@ convert_neighbour_same_444 cases=ghosts:0..0 cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_same_444) { neighbours<3, SAME, CONVERT>(4, 4, 4); }
//@ convert_neighbour_same_352 tier=thorough cases=ghosts:1..1 cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_same_352) { neighbours<3, SAME, CONVERT>(3, 5, 2); }
//@ convert_neighbour_coarser_2d cases=ghosts:0..1 cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_coarser_2d) { neighbours2<BIGGER, CONVERT>(); }
//@ convert_neighbour_coarser_444 cases=ghosts:0..0 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_coarser_444) { neighbours<3, BIGGER, CONVERT>(4, 4, 4); }
//@ convert_neighbour_coarser_352 tier=thorough cases=ghosts:1..1 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_coarser_352) { neighbours<3, BIGGER, CONVERT>(3, 5, 2); }
//@ convert_neighbour_finer_2d cases=ghosts:0..1 cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_finer_2d) { neighbours2<SMALLER, CONVERT>(); }
//@ convert_neighbour_finer_444 cases=ghosts:0..0 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_finer_444) { neighbours<3, SMALLER, CONVERT>(4, 4, 4); }
//@ convert_neighbour_finer_352 tier=thorough cases=ghosts:1..1 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_finer_352) { neighbours<3, SMALLER, CONVERT>(3, 5, 2); }
//@ convert_neighbour_boundary_2d cases=ghosts:0..1 cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_boundary_2d) { neighbours2<BOUND, CONVERT>(); }
//@ convert_neighbour_boundary_444 cases=ghosts:0..0 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_boundary_444) { neighbours<3, BOUND, CONVERT>(4, 4, 4); }
//@ convert_neighbour_boundary_352 tier=thorough cases=ghosts:1..1 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_neighbour_boundary_352) { neighbours<3, BOUND, CONVERT>(3, 5, 2); }
//@ convert_near_neighbour_same_2d cases=ghosts:0..1 cases=edge:0..3 cases=own_neighbour:0..1 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_same_2d) { neighbours2<SAME, CONVERT_NEIGHBOR>(); }
//@ convert_near_neighbour_same_444 tier=thorough cases=ghosts:0..0 cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_same_444) { neighbours<3, SAME, CONVERT_NEIGHBOR>(4, 4, 4); }
//@ convert_near_neighbour_same_352 cases=ghosts:1..1 cases=edge:0..7 cases=own_neighbour:0..1 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_same_352) { neighbours<3, SAME, CONVERT_NEIGHBOR>(3, 5, 2); }
//@ convert_near_neighbour_coarser_2d cases=ghosts:0..1 cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_coarser_2d) { neighbours2<BIGGER, CONVERT_NEIGHBOR>(); }
//@ convert_near_neighbour_coarser_444 tier=thorough cases=ghosts:0..0 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_coarser_444) { neighbours<3, BIGGER, CONVERT_NEIGHBOR>(4, 4, 4); }
//@ convert_near_neighbour_coarser_352 cases=ghosts:1..1 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_coarser_352) { neighbours<3, BIGGER, CONVERT_NEIGHBOR>(3, 5, 2); }
//@ convert_near_neighbour_finer_2d cases=ghosts:0..1 cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_finer_2d) { neighbours2<SMALLER, CONVERT_NEIGHBOR>(); }
//@ convert_near_neighbour_finer_444 tier=thorough cases=ghosts:0..0 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_finer_444) { neighbours<3, SMALLER, CONVERT_NEIGHBOR>(4, 4, 4); }
//@ convert_near_neighbour_finer_352 cases=ghosts:1..1 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_finer_352) { neighbours<3, SMALLER, CONVERT_NEIGHBOR>(3, 5, 2); }
//@ convert_near_neighbour_boundary_2d cases=ghosts:0..1 cases=edge:0..3 cases=shape:0..4 cases=direction:9..17 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_boundary_2d) { neighbours2<BOUND, CONVERT_NEIGHBOR>(); }
//@ convert_near_neighbour_boundary_444 tier=thorough cases=ghosts:0..0 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_boundary_444) { neighbours<3, BOUND, CONVERT_NEIGHBOR>(4, 4, 4); }
//@ convert_near_neighbour_boundary_352 cases=ghosts:1..1 cases=edge:0..7 cases=direction:0..26 replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_hashmap::findNeighbors=>vc_findNeighbors replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(convert_near_neighbour_boundary_352) { neighbours<3, BOUND, CONVERT_NEIGHBOR>(3, 5, 2); }
