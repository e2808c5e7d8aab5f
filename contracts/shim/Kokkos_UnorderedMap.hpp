// Contract of Kokkos::UnorderedMap: a finite partial map. Lookups are answered by a hook that the contract file may
// specialise (vc::map_find): the default contract says nothing about the contents.
#pragma once
#include "Kokkos_Core.hpp"
extern "C" uint64_t __vc_uf_int(const char* name, uint64_t lo, uint64_t hi, int n, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3);
namespace vc { template <class Map> struct MapContract; }
namespace Kokkos {
template <class K> struct pod_hash { uint32_t operator()(K const& k) const { return 0; } };
template <class K> struct pod_equal_to { bool operator()(K const& a, K const& b) const { return a == b; } };
struct UnorderedMapInsertResult { uint32_t i; bool s, e, f; bool success() const { return s; } bool existing() const { return e; } bool failed() const { return f; } uint32_t index() const { return i; } uint32_t list_position() const { return 0; } };
template <class K, class V, class... P> class UnorderedMap {
public:
  using key_type = K; using value_type = V; using size_type = uint32_t; using HostMirror = UnorderedMap<K, V>; using declared_key_type = K; using declared_value_type = V; using insert_result = UnorderedMapInsertResult;
  int id = 0; uint32_t cap = 0;
  UnorderedMap() {}
  UnorderedMap(uint32_t c) : cap(c) {}
  template <class... Q> UnorderedMap(const UnorderedMap<K, V, Q...>& o) : id(o.id), cap(o.cap) {}
  static constexpr uint32_t invalid_index = ~0u;
  uint32_t find(const K& k) const { return vc::MapContract<UnorderedMap<K, V>>::find(id, k); }
  bool exists(const K& k) const { return valid_at(find(k)); }
  bool valid_at(uint32_t i) const { return vc::MapContract<UnorderedMap<K, V>>::valid_at(id, i); }
  V& value_at(uint32_t i) const { return vc::MapContract<UnorderedMap<K, V>>::value_at(id, i); }
  K key_at(uint32_t i) const { return vc::MapContract<UnorderedMap<K, V>>::key_at(id, i); }
  insert_result insert(const K& k, const V& v = V()) const { return vc::MapContract<UnorderedMap<K, V>>::insert(id, k, v); }
  bool erase(const K& k) const { return false; }
  uint32_t capacity() const { return cap; }
  uint32_t size() const { return vc::MapContract<UnorderedMap<K, V>>::size(id); }
  bool failed_insert() const { return false; }
  bool rehash(uint32_t c) { cap = c; return true; }
  void clear() {} bool begin_erase() { return true; } bool end_erase() { return true; }
  bool is_allocated() const { return true; }
  template <class M> void create_copy_view(const M& o) { id = o.id; }
};
template <class K, class V, class... P, class... Q> inline void deep_copy(UnorderedMap<K, V, P...>& a, const UnorderedMap<K, V, Q...>& b) { a.id = b.id; a.cap = b.cap; }
template <class K, class V, class... P> inline UnorderedMap<K, V> create_mirror(const UnorderedMap<K, V, P...>& a) { return a; }
}
