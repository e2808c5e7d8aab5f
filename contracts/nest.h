#pragma once
#include "hydro_box.h"
// one octant of a grid of 4 octants per direction, at an edge of the periodic domain, with neighbours of its size, coarser or finer
enum Kind { SAME, BIGGER, SMALLER };
enum Pattern { ALL_SAME, COARSER, ALL_FINER, MIXED, FINER_THERE };
static LightOctree_base::NeighborList vc_nb[27]; static int vc_nbn[27]; static Oct vc_nbo[27][8];
extern "C" __attribute__((used, noinline)) LightOctree_base::NeighborList vc_tableNeighbors(const LightOctree_hashmap* m, const Oct& o, const LightOctree_base::offset_t& off) {
  int d = off[0] + 1 + 3 * (off[1] + 1) + 9 * (off[2] + 1); LightOctree_base::NeighborList r; r.m_size = vc_nbn[d]; for (int q = 0; q < 4; q++) if (q < vc_nbn[d]) r.m_neighbors[q] = vc_nbo[d][q]; return r;
}
extern "C" __attribute__((used, noinline)) uint32_t vc_cell_count4(const LightOctree_storage<>* s, ComponentIndex3D i, uint32_t L) { return 2u << (L - 1); }
struct Nest { VcMesh m; VcConfig k; int dim, par[3], pat, count; Oct of[27][8]; bool has[27]; int kind[27];
  static int code(const int* o) { return o[0] + 1 + 3 * (o[1] + 1) + 9 * (o[2] + 1); }
  bool leaves(const int* o, int* p) const { bool a = false; for (int i = 0; i < 3; i++) { p[i] = o[i] == 1 && par[i] ? 1 : o[i] == -1 && !par[i] ? -1 : 0; if (p[i]) a = true; } return a; }
  Kind kindOf(const int* o) const { int p[3]; bool l = leaves(o, p); if (pat == ALL_SAME) return SAME; if (pat == ALL_FINER) return SMALLER; if (pat == FINER_THERE) { for (int i = 0; i < 3; i++) if (o[i] && o[i] != (par[i] ? 1 : -1)) return SAME; return SMALLER; } if (pat == COARSER) return l ? BIGGER : SAME; int h = (5 * o[0] + 3 * o[1] + 7 * o[2] + 30) % 4; return l && p[0] ? BIGGER : h < 2 ? SMALLER : SAME; }
  Nest(int dim, int px, int py, int pz, int pattern, uint32_t b) : dim(dim), par{px, py, pz}, pat(pattern), count(1) {
    uint32_t nz = dim == 3 ? 2 : 1; m.dim = dim; m.ng = dim == 3 ? 60 : 16; m.lmin = 1; m.lmax = 3; m.cg = {2, 2, nz}; m.lm.storage = LightOctree_storage<>(dim, 1, m.ng, 1, {2, 2, nz}); m.lm.min_level = 1; m.lm.max_level = 3; m.lm.is_periodic = {true, true, true};
    uint32_t l[3]; for (int i = 0; i < 3; i++) l[i] = i < dim ? 3 * par[i] : 0;
    m.lm.oct_map = decltype(m.lm.oct_map)(128);
    auto put = [&](uint32_t i, uint32_t j, uint32_t k, uint32_t L, Oct o) { m.lm.storage.set(o, i, j, k, L);
#ifndef VC_IR
      LightOctree_hashmap::key_t K; K.level = L; K.i = i; K.j = j; K.k = k; m.lm.oct_map.insert(K, o);
#endif
    };
    Oct me; me.iOct = 0; me.isGhost = false; put(l[0], l[1], l[2], 2, me); Oct big[27]; bool done[27] = {};
    for (int d = 0; d < 27; d++) { int o[3] = {d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1}; vc_nbn[d] = 0; if (d == 13 || (dim == 2 && o[2])) continue;
      uint32_t c[3]; for (int i = 0; i < 3; i++) c[i] = i < dim ? (l[i] + o[i] + 4) % 4 : 0; kind[d] = kindOf(o);
      auto fresh = [&] { Oct g; g.iOct = count++ - 1; g.isGhost = true; return g; };
      if (kind[d] == SAME) { of[d][0] = fresh(); put(c[0], c[1], c[2], 2, of[d][0]); vc_nbo[d][vc_nbn[d]++] = of[d][0]; }
      if (kind[d] == BIGGER) { int p[3]; leaves(o, p); int e = code(p); if (!done[e]) { done[e] = true; big[e] = fresh(); put(c[0] / 2, c[1] / 2, c[2] / 2, 1, big[e]); } of[d][0] = big[e]; vc_nbo[d][vc_nbn[d]++] = big[e]; }
      if (kind[d] == SMALLER) for (int q = 0; q < 8; q++) { bool touch = true; for (int i = 0; i < 3; i++) { int s = q >> i & 1; if ((o[i] == 1 && s) || (o[i] == -1 && !s) || (i >= dim && s)) touch = false; } if (!touch) continue;
        of[d][q] = fresh(); put(2 * c[0] + (q & 1), 2 * c[1] + (q >> 1 & 1), dim == 3 ? 2 * c[2] + (q >> 2 & 1) : 0, 3, of[d][q]); vc_nbo[d][vc_nbn[d]++] = of[d][q]; }
    }
    k.seti("amr", "bx", b); k.seti("amr", "by", b); k.seti("amr", "bz", dim == 3 ? b : 1); k.set("hydro", "gamma0", 1.4); k.set("hydro", "smallr", 1e-3);
  }
};
