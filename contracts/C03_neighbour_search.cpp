// Neighbour search and point location in the octree, against the definition of adjacency of leaves.
#include "mesh_map.h"
#include "amr/LightOctree_hashmap.h"
using namespace dyablo;
using Oct = LightOctree_base::OctantIndex; using Key = LightOctree_hashmap::key_t; using Tree = LightOctree_hashmap;
static bool same(const Oct& a, const Oct& b) { return a.iOct == b.iOct && a.isGhost == b.isGhost; }
// contract of cell_count at the octant's level (C02: coarse grid size times 2^(level - level_min)): some number n of octants
static uint32_t vc_n[3], vc_level;
extern "C" __attribute__((used, noinline)) uint32_t vc_cell_count(const LightOctree_storage<>* s, ComponentIndex3D i, uint32_t L) {
  vc::check(L >= s->level_min && L < 32, "cell_count is asked for an existing level");
  if (L == vc_level) return vc_n[i];
  return s->coarse_grid_size[i] << (L - s->level_min);
}
struct St {
  int ndim; uint32_t no, ng, lmin, d, D; LightOctree_storage<>::coarse_grid_size_t cg; uint32_t n[3], l[3]; bool per[3]; Oct o; Tree m;
  St(int dim = 0, bool abstract_counts = false, uint32_t maxd = 20) {
    ndim = dim ? dim : vc::b("three_d") ? 3 : 2;
    no = vc::dim("numOctants", 1, 1u << 30, 20); ng = vc::dim("numGhosts", 0, 1u << 30, 20);
    lmin = vc::u32("level_min", 0, 8); D = vc::u32("levels", 0, 20); d = vc::u32("refinements", 0, maxd); vc::assume(d <= D);
    cg = {vc::u32("coarse_x", 1, 1024), vc::u32("coarse_y", 1, 1024), 1};
    if (ndim == 3) cg[IZ] = vc::u32("coarse_z", 1, 1024);
    for (int i = 0; i < 3; i++) n[i] = (i < 2 || ndim == 3) ? cg[i] << d : 1;
#ifdef VC_IR
    if (abstract_counts) {
      n[0] = vc::u32("nx", 1, 1u << 30); n[1] = vc::u32("ny", 1, 1u << 30); if (ndim == 3) n[2] = vc::u32("nz", 1, 1u << 30);
      for (int i = 0; i < 3; i++) vc_n[i] = n[i]; vc_level = lmin + d;
    }
#endif
    l[0] = vc::below("lx", n[0]); l[1] = vc::below("ly", n[1]); l[2] = ndim == 3 ? vc::below("lz", n[2]) : 0;
    per[0] = vc::b("px"); per[1] = vc::b("py"); per[2] = vc::b("pz");
    o.isGhost = vc::b("ghost"); vc::assume(!o.isGhost || ng > 0); o.iOct = vc::below("iOct", o.isGhost ? ng : no);
    m.storage = LightOctree_storage<>(ndim, no, ng, lmin, cg);
    m.storage.oct_data = vc::view_uint<LightOctree_storage<>::oct_data_t>("oct_data", 0, 1000, no + ng, 4);
    m.storage.set(o, l[0], l[1], l[2], lmin + d);
    m.min_level = lmin; m.max_level = lmin + D; m.is_periodic = {per[0], per[1], per[2]};
    m.oct_map = decltype(m.oct_map)(64);
  }
};
static Oct anyoct(const char* a, const char* b) { Oct v; v.iOct = vc::u32(a, 0, 1u << 29); v.isGhost = vc::b(b); return v; }
// what = 0: the neighbour position holds a leaf of the same level, 1: a coarser leaf, 2: finer leaves
template <int what> static void neighbours1(bool boundary, St& t, const int8_t (&off)[3]) {
  bool out = false; Key K;
  uint32_t c[3];
  for (int i = 0; i < 3; i++) {
    int f = off[i];
    bool lo = f == -1 && t.l[i] == 0, hi = f == 1 && t.l[i] + 1 == t.n[i];
    if (!t.per[i] && (lo || hi)) out = true;
    c[i] = lo ? t.n[i] - 1 : hi ? 0 : t.l[i] + f;
  }
  vc::assume(out == boundary);
  if (boundary) {
    vc::check(t.m.findNeighbors(t.o, {off[0], off[1], off[2]}).size() == 0, "there is no neighbour across a non-periodic boundary");
    return;
  }
  K.level = t.lmin + t.d; K.i = c[0]; K.j = c[1]; K.k = c[2];
  Key P; P.level = K.level - 1; P.i = K.i / 2; P.j = K.j / 2; P.k = K.k / 2;
  if (what == 0) {
    Oct v = anyoct("nb", "nbg"); mesh_leaf(t.m.oct_map, K, v); mesh_absent(t.m.oct_map, P);
    auto r = t.m.findNeighbors(t.o, {off[0], off[1], off[2]});
    vc::check(r.size() == 1, "a neighbour of the same level is the only neighbour");
    vc::check(same(r[0], v), "the neighbour of the same level is found");
  } else if (what == 1) {
    vc::assume(t.d >= 1);
    Oct v = anyoct("nb", "nbg"); mesh_absent(t.m.oct_map, K); mesh_leaf(t.m.oct_map, P, v);
    auto r = t.m.findNeighbors(t.o, {off[0], off[1], off[2]});
    vc::check(r.size() == 1, "a coarser neighbour is the only neighbour");
    vc::check(same(r[0], v), "the coarser neighbour is found");
  } else {
    vc::assume(t.d < t.D);
    mesh_absent(t.m.oct_map, K); mesh_absent(t.m.oct_map, P);
    // the finer leaves that touch the octant: child bit 0 where the offset is +1, 1 where it is -1, both where it is 0
    Oct v[8]; int cnt = 0; int ok[8];
    for (int b = 0; b < 8; b++) {
      int bit[3] = {b & 1, b >> 1 & 1, b >> 2 & 1}; ok[b] = 1;
      for (int i = 0; i < 3; i++) if ((off[i] == 1 && bit[i] == 1) || (off[i] == -1 && bit[i] == 0) || (i >= t.ndim && bit[i] == 1)) ok[b] = 0;
      static const char* na[8] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"};
      static const char* ga[8] = {"g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7"};
      v[b] = anyoct(na[b], ga[b]);
      Key C; C.level = K.level + 1; C.i = 2 * K.i + bit[0]; C.j = 2 * K.j + bit[1]; C.k = (t.ndim == 3 ? 2 * K.k : 0) + bit[2];
      if (ok[b]) { mesh_leaf(t.m.oct_map, C, v[b]); cnt++; }
    }
    auto r = t.m.findNeighbors(t.o, {off[0], off[1], off[2]});
    vc::check(r.size() == cnt, "there are as many finer neighbours as finer leaves touching the octant");
    for (int q = 0; q < 8; q++) if (ok[q]) {
      bool f = false;
      for (int s = 0; s < 4; s++) if (s < cnt) f = f || same(r[s], v[q]);
      vc::check(f, "every finer leaf touching the octant is returned");
    }
  }
}
// every offset in {-1,0,1}^d except the null one
template <int what, int dim> static void neighbours(bool boundary) {
  St t(dim, true); int sel = vc::i32("offset", 0, 26);
  for (int q = 0; q < 27; q++) if (sel == q && q != 13) {
    const int8_t off[3] = {(int8_t)(q % 3 - 1), (int8_t)(q / 3 % 3 - 1), (int8_t)(q / 9 - 1)};
    if (off[2] == 0 || dim == 3) neighbours1<what>(boundary, t, off);
  }
}
// contract of isBoundary, proved in C02 (is_boundary)
extern "C" __attribute__((used, noinline)) bool vc_isBoundary(const Tree* m, const Oct& o, const LightOctree_base::offset_t& off) {
  auto l = m->storage.get_logical_coords(o); uint32_t L = m->storage.getLevel(o); bool out = false;
  for (int i = 0; i < m->storage.getNdim(); i++) { uint32_t n = m->storage.cell_count((ComponentIndex3D)i, L); if (!m->is_periodic[i] && ((off[i] == -1 && l[i] == 0) || (off[i] == 1 && l[i] + 1 == n))) out = true; }
  return out;
}
//@ neighbour_same_level_2d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_same_level_2d) { neighbours<0, 2>(false); }
//@ neighbour_coarser_2d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_coarser_2d) { neighbours<1, 2>(false); }
//@ neighbour_finer_2d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_finer_2d) { neighbours<2, 2>(false); }
//@ neighbour_boundary_2d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_boundary_2d) { neighbours<0, 2>(true); }
//@ neighbour_same_level_3d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_same_level_3d) { neighbours<0, 3>(false); }
//@ neighbour_coarser_3d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_coarser_3d) { neighbours<1, 3>(false); }
//@ neighbour_finer_3d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_finer_3d) { neighbours<2, 3>(false); }
//@ neighbour_boundary_3d replace=LightOctree_hashmap::isBoundary=>vc_isBoundary replace=LightOctree_storage<.*>::cell_count=>vc_cell_count
VC_CONTRACT(neighbour_boundary_3d) { neighbours<0, 3>(true); }
VC_CONTRACT(neighbour_self) {
  St t; auto r = t.m.findNeighbors(t.o, {0, 0, 0});
  vc::check(r.size() == 1 && same(r[0], t.o), "the neighbour at the null offset is the octant itself");
}
// building the lookup table: every octant, local or ghost, is entered under its own level and coordinates
VC_CONTRACT(hash_fill) {
  St t;
#ifdef VC_IR
  vc_ins = Kokkos::View<uint32_t**>("inserted", t.no + t.ng, 5); vc_ins_on = true; vc_ins_no = t.no;
  t.m.private_init();
  uint32_t i = t.o.iOct + (t.o.isGhost ? t.no : 0);
  vc::check(vc_ins(i, 4) == 1, "every octant is entered in the lookup table");
  vc::check(vc_ins(i, 0) == t.lmin + t.d && vc_ins(i, 1) == t.l[0] && vc_ins(i, 2) == t.l[1] && vc_ins(i, 3) == t.l[2], "an octant is entered under its own level and coordinates");
#else
  for (uint32_t i = 0; i < t.no + t.ng; i++) if (i != t.o.iOct + (t.o.isGhost ? t.no : 0)) { t.m.storage.oct_data(i, 0) = i; t.m.storage.oct_data(i, 1) = 0; t.m.storage.oct_data(i, 2) = 0; t.m.storage.oct_data(i, 3) = 31; }
  Tree m(LightOctree_storage<>(t.m.storage), t.lmin, t.lmin + t.D, {true, true, true});
  Key K; K.level = t.lmin + t.d; K.i = t.l[0]; K.j = t.l[1]; K.k = t.l[2];
  auto it = m.oct_map.find(K);
  vc::check(m.oct_map.valid_at(it), "every octant is entered in the lookup table");
  vc::check(same(m.oct_map.value_at(it), t.o), "an octant is entered under its own level and coordinates");
#endif
}
VC_CONTRACT(from_coordinates) {
  St t; Oct v = anyoct("nb", "nbg");
  Key K; K.level = t.lmin + t.d; K.i = t.l[0]; K.j = t.l[1]; K.k = t.l[2];
  mesh_leaf(t.m.oct_map, K, v);
  vc::check(same(t.m.getiOctFromCoordinates(K.i, K.j, K.k, K.level), v), "an octant is found from its logical coordinates");
}
// point location: the leaf that covers the finest-level cell containing the position; none of the leaf's descendants is a leaf
template <int dim> static void from_position() {
  St t(dim); static const char* na[3] = {"x", "y", "z"}; static const char* fa[3] = {"fx", "fy", "fz"};
  double pos[3]; uint32_t f[3]; int sel = vc::i32("up", 0, 20);
  for (int i = 0; i < 3; i++) {
    pos[i] = 0; f[i] = 0;
    if (i < dim) {
      uint32_t n = t.cg[i] << t.D;
      f[i] = vc::below(fa[i], n);
      double fr = vc::real(na[i], 0, 1); vc::assume(0 < fr && fr < 1);
#ifndef VC_IR
      fr = 0.05 + 0.9 * fr;
#endif
      pos[i] = (f[i] + fr) / n;
    }
  }
  for (uint32_t up = 0; up <= 20; up++) if (sel == (int)up && up <= t.D) {
    Key K; K.level = t.m.max_level - up; K.i = f[0] >> up; K.j = f[1] >> up; K.k = f[2] >> up;
    Oct v = anyoct("nb", "nbg"); mesh_covering_leaf(t.m.oct_map, K, v);
    vc::check(same(t.m.getiOctFromPos({pos[0], pos[1], pos[2]}), v), "the octant that contains a position is found");
  }
}
VC_CONTRACT(from_position_2d) { from_position<2>(); }
VC_CONTRACT(from_position_3d) { from_position<3>(); }
// process that owns a position: the one whose interval of Morton keys contains the key of the finest cell around it
// (bounded: up to 4 processes)
template <int dim> static void domain_from_position() {
  St t(dim); static const char* na[3] = {"x", "y", "z"}; static const char* fa[3] = {"fx", "fy", "fz"};
  double pos[3]; uint32_t f[3]; vc::assume(t.D <= 10);
  for (int i = 0; i < 3; i++) {
    pos[i] = 0; f[i] = 0;
    if (i < dim) {
      uint32_t n = t.cg[i] << t.D; f[i] = vc::below(fa[i], n);
      double fr = vc::real(na[i], 0, 1); vc::assume(0 < fr && fr < 1);
#ifndef VC_IR
      fr = 0.05 + 0.9 * fr;
#endif
      pos[i] = (f[i] + fr) / n;
    }
  }
  uint64_t m = dyablo::compute_morton_key(index_t<3>{(int)f[0], (int)f[1], (int)f[2]});
  for (int np = 1; np <= 4; np++) if (vc::i32("processes", 1, 4) == np) {
    t.m.morton_intervals = Kokkos::View<uint64_t*>("morton_intervals", np + 1);
    static const char* ia[5] = {"i0", "i1", "i2", "i3", "i4"};
    uint64_t iv[5]; iv[0] = 0; iv[np] = ~0ull;
    for (int p = 1; p < np; p++) { iv[p] = vc::u64(ia[p], 0, ~0ull - 1); vc::assume(iv[p - 1] <= iv[p]); }
    for (int p = 0; p <= np; p++) t.m.morton_intervals(p) = iv[p];
    int r = t.m.getDomainFromPos({pos[0], pos[1], pos[2]});
    bool okr = false;
    for (int p = 0; p < np; p++) if (r == p) okr = iv[p] <= m && m < iv[p + 1];
    vc::check(okr, "the process found for a position owns the Morton interval that contains it");
  }
}
VC_CONTRACT(domain_from_position_2d) { domain_from_position<2>(); }
VC_CONTRACT(domain_from_position_3d) { domain_from_position<3>(); }
// the Morton intervals gathered when the search structure is built: this process starts at the key of its first octant
struct StubComm {
  int rank, size;
  int MPI_Comm_size() const { return size; } int MPI_Comm_rank() const { return rank; }
  template <class T> void MPI_Allgather(const T* in, T* out, int n) const { for (int p = 0; p < 4; p++) if (p == rank) out[p] = *in; }
};
struct StubMesh {
  LightOctree_storage<> s; StubComm comm; bool per[3]; Kokkos::Array<double, 3> corner;
  const LightOctree_storage<>& getStorage() const { return s; }
  uint32_t getNumOctants() const { return s.numOctants; } uint32_t getNumGhosts() const { return s.numGhosts; }
  bool getPeriodic(int i) const { return per[i / 2]; } const StubComm& getMpiComm() const { return comm; }
  Kokkos::Array<double, 3> getCoordinates(uint32_t) const { return corner; } int getDim() const { return s.ndim; }
};
template <int dim> static void domain_intervals() {
  St t(dim, false, 10); vc::assume(!t.o.isGhost && t.o.iOct == 0);
  StubMesh m; m.s = t.m.storage; m.comm.size = vc::i32("processes", 1, 4); m.comm.rank = vc::below("rank", m.comm.size);
  for (int i = 0; i < 3; i++) m.per[i] = t.per[i];
  m.corner = m.s.getCorner(t.o);
#ifndef VC_IR
  for (uint32_t i = 1; i < t.no + t.ng; i++) { m.s.oct_data(i, 0) = i; m.s.oct_data(i, 1) = 0; m.s.oct_data(i, 2) = 0; m.s.oct_data(i, 3) = 31; }
#endif
  int sel = vc::i32("up", 0, 10);
  for (uint32_t up = 0; up <= 10; up++) if (sel == (int)up) {
  Tree tree(&m, t.lmin, t.lmin + t.d + up);
  uint64_t key = dyablo::compute_morton_key(index_t<3>{(int)(t.l[0] << up), (int)(t.l[1] << up), (int)(t.l[2] << up)});
  bool ok = true;
  for (int p = 0; p < 4; p++) if (p == m.comm.rank) ok = tree.morton_intervals(p) == key;
  vc::check(ok, "a process announces the Morton key of its first octant at the finest level");
  for (int p = 1; p <= 4; p++) if (p == m.comm.size) vc::check(tree.morton_intervals(p) == ~0ull, "the last interval is unbounded");
  vc::check(tree.getNumOctants() == t.no && tree.getNumGhosts() == t.ng && tree.getNdim() == dim, "the search structure describes the mesh it was built from");
  bool pe = true; for (int i = 0; i < 3; i++) pe = pe && tree.is_periodic[i] == t.per[i];
  vc::check(pe, "the search structure has the periodicity of the mesh");
  }
}
//@ domain_intervals_2d samples=200
VC_CONTRACT(domain_intervals_2d) { domain_intervals<2>(); }
//@ domain_intervals_3d samples=200
VC_CONTRACT(domain_intervals_3d) { domain_intervals<3>(); }
