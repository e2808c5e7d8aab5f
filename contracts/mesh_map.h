// Abstract hash map of the leaves of a mesh, keyed by (level, i, j, k).
// Verification: which keys are leaves and which octant they hold are uninterpreted functions; a contract states what it
// requires about the keys it names. Native: a real Kokkos::UnorderedMap that holds exactly the required leaves.
#pragma once
#include "vc_views.h"
#include <Kokkos_UnorderedMap.hpp>
#ifdef VC_IR
// the leaf that covers a region (level, i, j, k): none of its descendants is a leaf
static bool vc_leaf_on; static uint32_t vc_leaf_l, vc_leaf_i, vc_leaf_j, vc_leaf_k;
static Kokkos::View<uint32_t**> vc_ins; static bool vc_ins_on; static uint32_t vc_ins_no;
namespace vc {
template <class M> struct MapContract {
  using K = typename M::key_type; using V = typename M::value_type;
  static bool leaf(const K& k) {
    if (vc_leaf_on) {
      uint32_t dl = k.level - vc_leaf_l;
      if (dl <= 20 && k.i >> dl == vc_leaf_i && k.j >> dl == vc_leaf_j && k.k >> dl == vc_leaf_k) return dl == 0;
    }
    return __vc_uf_int("map.leaf", 0, 1, 4, k.level, k.i, k.j, k.k) != 0; }
  static uint32_t slot(const K& k) { return (uint32_t)__vc_uf_int("map.slot", 0, 1u << 30, 4, k.level, k.i, k.j, k.k); }
  static uint32_t find(int, const K& k) { return leaf(k) ? slot(k) : ~0u; }
  static bool valid_at(int, uint32_t i) { return i != ~0u; }
  static V& value_at(int, uint32_t i) { V* v = new V(); v->iOct = (uint32_t)__vc_uf_int("map.iOct", 0, 1u << 30, 1, i, 0, 0, 0); v->isGhost = __vc_uf_int("map.isGhost", 0, 1, 1, i, 0, 0, 0) != 0; return *v; }
  static K key_at(int, uint32_t) { __vc_abort("key_at"); }
  // an insertion is recorded in ghost state, under the flat index of the inserted octant
  static Kokkos::UnorderedMapInsertResult insert(int, const K& k, const V& v) { if (vc_ins_on) { uint64_t i = v.iOct + (v.isGhost ? vc_ins_no : 0); vc_ins(i, 0) = k.level; vc_ins(i, 1) = k.i; vc_ins(i, 2) = k.j; vc_ins(i, 3) = k.k; vc_ins(i, 4) = 1; } return {slot(k), true, false, false}; }
  static uint32_t size(int) { return 0; }
  static void vc_put(const K& k, const V& v) {
    assume(leaf(k)); uint32_t i = slot(k);
    assume(__vc_uf_int("map.iOct", 0, 1u << 30, 1, i, 0, 0, 0) == v.iOct); assume((__vc_uf_int("map.isGhost", 0, 1, 1, i, 0, 0, 0) != 0) == v.isGhost);
  }
};
}
template <class Map> void mesh_leaf(const Map& m, const typename Map::key_type& k, const typename Map::value_type& v) { vc::MapContract<Map>::vc_put(k, v); }
template <class Map> void mesh_covering_leaf(const Map& m, const typename Map::key_type& k, const typename Map::value_type& v) {
  vc_leaf_on = true; vc_leaf_l = k.level; vc_leaf_i = k.i; vc_leaf_j = k.j; vc_leaf_k = k.k; mesh_leaf(m, k, v);
}
template <class Map> void mesh_absent(const Map& m, const typename Map::key_type& k) { vc::assume(!vc::MapContract<Map>::leaf(k)); }
#else
template <class Map> void mesh_leaf(const Map& m, const typename Map::key_type& k, const typename Map::value_type& v) { const_cast<Map&>(m).insert(k, v); }
template <class Map> void mesh_covering_leaf(const Map& m, const typename Map::key_type& k, const typename Map::value_type& v) { mesh_leaf(m, k, v); }
template <class Map> void mesh_absent(const Map& m, const typename Map::key_type& k) {}
#endif
