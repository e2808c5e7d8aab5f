// Morton codec: interleaving is a bijection, agrees with the definition bit by bit, and respects the octree hierarchy.
#include "vc.h"
#include "morton_utils.h"
using namespace dyablo;
static const uint32_t M21 = (1u << 21) - 1;
VC_CONTRACT(morton3_roundtrip) {
  uint32_t x = vc::u32("x", 0, M21), y = vc::u32("y", 0, M21), z = vc::u32("z", 0, M21);
  uint64_t m = compute_morton_key(x, y, z);
  vc::check(morton_extract_coord<IX>(3, m) == x, "extracting x from the 3D key gives x back");
  vc::check(morton_extract_coord<IY>(3, m) == y, "extracting y from the 3D key gives y back");
  vc::check(morton_extract_coord<IZ>(3, m) == z, "extracting z from the 3D key gives z back");
  vc::check((m >> 63) == 0, "a 3D key fits in 63 bits");
}
VC_CONTRACT(morton3_index_overload) {
  uint32_t x = vc::u32("x", 0, M21), y = vc::u32("y", 0, M21), z = vc::u32("z", 0, M21);
  index_t<3> i; i[IX] = x; i[IY] = y; i[IZ] = z;
  vc::check(compute_morton_key(i) == compute_morton_key(x, y, z), "both 3D encoders agree");
  index_t<3> k((int)x, (int)y, (int)z);
  vc::check(k[IX] == x && k[IY] == y && k[IZ] == z, "an index keeps its coordinates");
}
VC_CONTRACT(morton2_index_overload) {
  uint32_t x = vc::u32("x"), y = vc::u32("y");
  index_t<2> i; i[IX] = x; i[IY] = y;
  vc::check(compute_morton_key(i) == compute_morton_key(x, y), "both 2D encoders agree");
}
VC_CONTRACT(morton3_decode_encode) {
  uint64_t m = vc::u64("m", 0, (1ull << 63) - 1);
  vc::check(compute_morton_key(morton_extract_coord<IX>(3, m), morton_extract_coord<IY>(3, m), morton_extract_coord<IZ>(3, m)) == m, "re-encoding the decoded 3D coordinates gives the key back");
}
VC_CONTRACT(morton2_roundtrip) {
  uint32_t x = vc::u32("x"), y = vc::u32("y");
  uint64_t m = compute_morton_key(x, y);
  vc::check(morton_extract_coord<IX>(2, m) == x, "extracting x from the 2D key gives x back");
  vc::check(morton_extract_coord<IY>(2, m) == y, "extracting y from the 2D key gives y back");
}
VC_CONTRACT(morton2_decode_encode) {
  uint64_t m = vc::u64("m");
  vc::check(compute_morton_key(morton_extract_coord<IX>(2, m), morton_extract_coord<IY>(2, m)) == m, "re-encoding the decoded 2D coordinates gives the key back");
}
VC_CONTRACT(morton3_bits) {
  uint32_t x = vc::u32("x", 0, M21), y = vc::u32("y", 0, M21), z = vc::u32("z", 0, M21);
  uint64_t m = compute_morton_key(x, y, z);
  uint64_t ref = 0;
  for (int b = 0; b < 21; b++) ref |= ((uint64_t)(x >> b & 1) << (3 * b)) | ((uint64_t)(y >> b & 1) << (3 * b + 1)) | ((uint64_t)(z >> b & 1) << (3 * b + 2));
  vc::check(m == ref, "bit b of x,y,z is bit 3b,3b+1,3b+2 of the key");
}
VC_CONTRACT(morton2_bits) {
  uint32_t x = vc::u32("x"), y = vc::u32("y");
  uint64_t m = compute_morton_key(x, y);
  uint64_t ref = 0;
  for (int b = 0; b < 32; b++) ref |= ((uint64_t)(x >> b & 1) << (2 * b)) | ((uint64_t)(y >> b & 1) << (2 * b + 1));
  vc::check(m == ref, "bit b of x,y is bit 2b,2b+1 of the key");
}
VC_CONTRACT(morton3_hierarchy) {
  uint32_t x = vc::u32("x", 0, M21), y = vc::u32("y", 0, M21), z = vc::u32("z", 0, M21);
  vc::check((compute_morton_key(x, y, z) >> 3) == compute_morton_key(x >> 1, y >> 1, z >> 1), "dropping one level drops three key bits");
  uint32_t k = vc::u32("k", 0, 20);
  vc::check((compute_morton_key(x, y, z) >> (3 * k)) == compute_morton_key(x >> k, y >> k, z >> k), "the ancestor's key is a prefix of the key");
}
VC_CONTRACT(morton2_hierarchy) {
  uint32_t x = vc::u32("x"), y = vc::u32("y");
  uint32_t k = vc::u32("k", 0, 31);
  vc::check((compute_morton_key(x, y) >> (2 * k)) == compute_morton_key(x >> k, y >> k), "the ancestor's key is a prefix of the key");
}
VC_CONTRACT(morton3_injective_order) {
  uint32_t x = vc::u32("x", 0, M21), y = vc::u32("y", 0, M21), z = vc::u32("z", 0, M21);
  uint32_t p = vc::u32("p", 0, M21), q = vc::u32("q", 0, M21), r = vc::u32("r", 0, M21);
  uint64_t a = compute_morton_key(x, y, z), b = compute_morton_key(p, q, r);
  vc::check((a == b) == (x == p && y == q && z == r), "distinct 3D coordinates have distinct keys");
  if (x <= p && y <= q && z <= r) vc::check(a <= b, "the key is monotone in each coordinate");
}
VC_CONTRACT(morton2_injective_order) {
  uint32_t x = vc::u32("x"), y = vc::u32("y"), p = vc::u32("p"), q = vc::u32("q");
  uint64_t a = compute_morton_key(x, y), b = compute_morton_key(p, q);
  vc::check((a == b) == (x == p && y == q), "distinct 2D coordinates have distinct keys");
  if (x <= p && y <= q) vc::check(a <= b, "the key is monotone in each coordinate");
}
VC_CONTRACT(morton_planar_consistency) {
  // a 2D tree stored with z = 0 is ordered by the 3D key exactly as by the 2D key
  uint32_t x = vc::u32("x", 0, M21), y = vc::u32("y", 0, M21), p = vc::u32("p", 0, M21), q = vc::u32("q", 0, M21);
  vc::check((compute_morton_key(x, y, 0u) < compute_morton_key(p, q, 0u)) == (compute_morton_key(x, y) < compute_morton_key(p, q)), "the planar order agrees with the 3D order");
}
