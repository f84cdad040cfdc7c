// Compat shim: a 64/128-bit seeded byte hash with the interface of cityhash.
// The real library is not available offline; arolla's contract on it is only
// that it is a high-quality seeded hash (fingerprint values are documented to
// be unstable between runtimes).
#ifndef VERIF_COMPAT_CITYHASH_H_
#define VERIF_COMPAT_CITYHASH_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
namespace third_party_cityhash {
typedef uint64_t uint64;
typedef std::pair<uint64_t, uint64_t> uint128;
inline uint64_t VMix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint128 CityHash128WithSeed(const char* s, size_t n, uint128 seed) {
  uint64_t a = seed.first ^ 0x9e3779b97f4a7c15ull;
  uint64_t b = seed.second + 0xc2b2ae3d27d4eb4full;
  size_t len = n;
  while (n > 0) {
    uint64_t w = 0;
    size_t k = n < 8 ? n : 8;
    std::memcpy(&w, s, k);
    s += k; n -= k;
    a = VMix(a ^ w) + 0x9e3779b97f4a7c15ull;
    b = VMix(b + w * 0xff51afd7ed558ccdull) ^ (a >> 7);
  }
  a = VMix(a ^ len); b = VMix(b + a + len);
  a = VMix(a + b);
  return {a, b};
}
inline uint64_t CityHash64WithSeed(const char* s, size_t n, uint64_t seed) {
  return CityHash128WithSeed(s, n, {seed, ~seed}).first;
}
}  // namespace third_party_cityhash
#endif
