// Field data on an adapted mesh: copies of the cell that was there, or the mean of the finer cells it replaces.
//@ file define=VC_STRINGS
#include "hydro_world.h"
#include <set>
#undef UserData
namespace dyablo {
struct VcRemapData : VcUserData { ForeachCell* fc; int extended = 0;
  std::vector<std::string> getEnabledFields() { return names; }
  FieldAccessor backup_and_realloc() { std::vector<F> v; int i = 0; for (auto& s : names) v.push_back({s, VarIndex(i++)}); FieldAccessor f = getAccessor(v); FieldManager m((int)names.size()); a = fc->allocate_ghosted_array("U", m); return f; }
  void extend_fields() { extended++; }
};
struct VcGhosts { template <class M, class S> VcGhosts(const M&, const S&, int) {} template <class A> void exchange_ghosts(const A&) const {} };   // one process: no ghosts
}
#include "mpi/GhostCommunicator_full_blocks.h"
#define GhostCommunicator_full_blocks VcGhosts
#define UserData VcRemapData
#include "amr/MapUserData_mean.cpp"
using namespace dyablo; using FC = ForeachCell; using CI = FC::CellIndex; using Oct = LightOctree_base::OctantIndex;
// leaves of a mesh in the order of their octant numbers, and the search functions over them (contracts of C03)
struct Leaf { uint32_t l, i, j, k; };
static Leaf vc_old[64]; static int vc_nold; static uint32_t vc_grid[3];
static Oct octant(int i) { Oct o; o.iOct = i; o.isGhost = false; return o; }
static int covering(const uint32_t* p, uint32_t L) { for (int q = 0; q < vc_nold; q++) { const Leaf& f = vc_old[q]; if (f.l <= L && p[0] >> (L - f.l) == f.i && p[1] >> (L - f.l) == f.j && p[2] >> (L - f.l) == f.k) return q; } return -1; }
extern "C" __attribute__((used, noinline)) Oct vc_at(const LightOctree_hashmap* m, const LightOctree_base::pos_t& x) { uint32_t p[3]; for (int d = 0; d < 3; d++) { uint32_t n = vc_grid[d] << (d == 2 && m->getNdim() == 2 ? 0 : 4); p[d] = 0; for (uint32_t c = 1; c < n; c++) if (x[d] * n >= c) p[d] = c; } int q = covering(p, 4); vc::check(q >= 0, "the position looked up in the old mesh is inside the domain"); return octant(q); }
extern "C" __attribute__((used, noinline)) LightOctree_base::NeighborList vc_siblings(const LightOctree_hashmap* m, const Oct& o, const LightOctree_base::offset_t& off) { const Leaf& f = vc_old[o.iOct]; uint32_t p[3] = {f.i + off[0], f.j + off[1], f.k + off[2]}; int q = covering(p, f.l); vc::check(q >= 0 && vc_old[q].l == f.l, "a sibling of the same size is looked for"); LightOctree_base::NeighborList r; r.m_size = 1; r.m_neighbors[0] = octant(q); return r; }
extern "C" __attribute__((used, noinline)) uint32_t vc_count(const LightOctree_storage<>* s, ComponentIndex3D d, uint32_t L) { return d == 2 && s->getNdim() == 2 ? 1 : vc_grid[d] << L; }
extern "C" __attribute__((used, noinline)) bool vc_inside(const LightOctree_hashmap* m, const Oct& o, const LightOctree_base::offset_t& off) { return false; }
// mesh: one digit per coarse octant, in order of position: 0 as it is, 1 refined once, 2 its first child refined again
static int leaves(Leaf* f, int dim, const int* how) {
  int n = 0; uint32_t nc = dim == 3 ? 8 : 4; uint32_t g[3] = {vc_grid[0], vc_grid[1], dim == 3 ? vc_grid[2] : 1};
  auto child = [](const Leaf& p, uint32_t c) { return Leaf{p.l + 1, 2 * p.i + (c & 1), 2 * p.j + (c >> 1 & 1), 2 * p.k + (c >> 2 & 1)}; };
  for (uint32_t o = 0; o < g[0] * g[1] * g[2]; o++) { Leaf p{0, o % g[0], o / g[0] % g[1], o / g[0] / g[1]}; if (!how[o]) { f[n++] = p; continue; }
    for (uint32_t c = 0; c < nc; c++) { Leaf q = child(p, c); if (how[o] != 2 || c != nc - 1) { f[n++] = q; continue; } for (uint32_t e = 0; e < nc; e++) f[n++] = child(q, e); } }
  return n;
}
static void tree(VcMesh& m, int dim, const Leaf* f, int n) {
  m.dim = dim; m.no = n; m.lmin = 0; m.lmax = 4; m.cg = {vc_grid[0], vc_grid[1], dim == 3 ? vc_grid[2] : 1};
  m.lm = LightOctree(); m.lm.storage = LightOctree_storage<>(dim, n, 0, 0, {vc_grid[0], vc_grid[1], dim == 3 ? vc_grid[2] : 1}); m.lm.min_level = 0; m.lm.max_level = 4; m.lm.is_periodic = {true, true, true};
#ifndef VC_IR
  m.lm.oct_map = decltype(m.lm.oct_map)(128);
#endif
  for (int q = 0; q < n; q++) { m.lm.storage.set(octant(q), f[q].i, f[q].j, f[q].k, f[q].l);
#ifndef VC_IR
    LightOctree_hashmap::key_t K; K.level = f[q].l; K.i = f[q].i; K.j = f[q].j; K.k = f[q].k; m.lm.oct_map.insert(K, octant(q));
#endif
  }
}
static void remap(int dim, uint32_t gx, uint32_t gy, uint32_t gz, const int* before, const int* after, uint32_t bx, uint32_t by, uint32_t bz, int vars) {
  vc_grid[0] = gx; vc_grid[1] = gy; vc_grid[2] = gz; static Leaf now[64]; vc_nold = leaves(vc_old, dim, before); int n = leaves(now, dim, after);
  VcMesh m; tree(m, dim, vc_old, vc_nold); VcConfig k; k.seti("amr", "bx", bx); k.seti("amr", "by", by); k.seti("amr", "bz", bz); FC fc(m, k); VcTimers t;
  VcRemapData U; U.fc = &fc; static const char* NAMES[3] = {"rho", "e_tot", "rho_vx"}; for (int v = 0; v < vars; v++) U.names.push_back(NAMES[v]);
  FieldManager fm(vars); U.a = fc.allocate_ghosted_array("U", fm); int cells = bx * by * bz; auto old = [&](int o, int c, int v) { return vc::uf("u", o, c, v); };
  for (int o = 0; o < vc_nold; o++) for (int c = 0; c < cells; c++) for (int v = 0; v < vars; v++) U.a.U(c, v, o) = old(o, c, v);
  MapUserData_mean map(k, fc, t); map.save_old_mesh(); tree(m, dim, now, n); map.remap(U);
  vc::check(U.extended == 1 && (int)U.a.U.extent(2) == n && (int)U.a.U.extent(1) >= vars, "the fields have the size of the new mesh");
  uint32_t b[3] = {bx, by, bz}; double s0[3] = {}, s1[3] = {};
  for (int o = 0; o < vc_nold; o++) for (int c = 0; c < cells; c++) for (int v = 0; v < vars; v++) s0[v] += old(o, c, v) / (1u << dim * vc_old[o].l);
  for (int o = 0; o < n; o++) for (int c = 0; c < cells; c++) for (int v = 0; v < vars; v++) {
    const Leaf& f = now[o]; uint32_t x[3] = {f.i * bx + c % bx, f.j * by + c / bx % by, f.k * bz + c / bx / by}, lo[3] = {f.i, f.j, f.k}; int q = covering(lo, f.l); double e = 0; double got = U.a.U(c, v, o);
    auto cell = [&](const uint32_t* y, const Leaf& g, int p) { uint32_t z[3] = {y[0] - g.i * bx, y[1] - g.j * by, y[2] - g.k * bz}; return old(p, z[0] + bx * (z[1] + by * z[2]), v); };
    if (q >= 0) { for (int d = 0; d < dim; d++) x[d] >>= f.l - vc_old[q].l; e = cell(x, vc_old[q], q); }
    else for (int s = 0; s < 1 << dim; s++) { uint32_t y[3], p[3]; for (int d = 0; d < 3; d++) { y[d] = d < dim ? 2 * x[d] + (s >> d & 1) : x[d]; p[d] = y[d] / b[d]; } int w = covering(p, f.l + 1); vc::check(w >= 0, "contract: levels change by one"); e += cell(y, vc_old[w], w) / (1 << dim); }
    vc::check_eq(got, e, q >= 0 ? "a cell of the new mesh has the value of the cell that was there" : "a coarsened cell has the mean of the cells it replaces", 10);
    s1[v] += got / (1u << dim * f.l);
  }
  for (int v = 0; v < vars; v++) vc::check_eq(s1[v], s0[v], "adapting the mesh conserves the total of every field", 100);
}
//@ remap_2d seq=800 replace=LightOctree_hashmap::getiOctFromPos=>vc_at replace=LightOctree_hashmap::findNeighbors=>vc_siblings replace=LightOctree_hashmap::isBoundary=>vc_inside replace=LightOctree_storage<.*>::cell_count=>vc_count
VC_CONTRACT(remap_2d) { int a[6] = {1, 0, 0, 1, 2, 1}, z[6] = {0, 1, 0, 2, 1, 1}; remap(2, 3, 2, 1, a, z, 4, 4, 1, 2); }
//@ remap_flat_2d seq=800 replace=LightOctree_hashmap::getiOctFromPos=>vc_at replace=LightOctree_hashmap::findNeighbors=>vc_siblings replace=LightOctree_hashmap::isBoundary=>vc_inside replace=LightOctree_storage<.*>::cell_count=>vc_count
VC_CONTRACT(remap_flat_2d) { int a[2] = {1, 0}, z[2] = {0, 1}; remap(2, 1, 2, 1, a, z, 6, 2, 1, 3); remap(2, 1, 2, 1, a, z, 2, 4, 1, 1); }
//@ remap_odd_2d seq=800 replace=LightOctree_hashmap::getiOctFromPos=>vc_at replace=LightOctree_hashmap::findNeighbors=>vc_siblings replace=LightOctree_hashmap::isBoundary=>vc_inside replace=LightOctree_storage<.*>::cell_count=>vc_count
VC_CONTRACT(remap_odd_2d) { int a[2] = {1, 0}, z[2] = {0, 1}; remap(2, 2, 1, 1, a, z, 3, 3, 1, 1); remap(2, 2, 1, 1, a, z, 1, 1, 1, 1); remap(2, 2, 1, 1, a, z, 5, 2, 1, 1); }
//@ remap_3d seq=800 replace=LightOctree_hashmap::getiOctFromPos=>vc_at replace=LightOctree_hashmap::findNeighbors=>vc_siblings replace=LightOctree_hashmap::isBoundary=>vc_inside replace=LightOctree_storage<.*>::cell_count=>vc_count
VC_CONTRACT(remap_3d) { int a[4] = {1, 0, 0, 1}, z[4] = {0, 0, 1, 1}; remap(3, 2, 1, 2, a, z, 2, 2, 2, 2); remap(3, 1, 2, 2, a, z, 3, 1, 2, 1); }
