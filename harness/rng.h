// Deterministic pseudo random source: every random choice of the machinery
// comes from one of these, seeded from (VERIF_SEED, property, case number).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace vf {
inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ULL; }
  return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL) {
  return hash_bytes(s.data(), s.size(), h);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  // [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // [lo,hi]
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
  bool chance(unsigned pct) { return below(100) < pct; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
} // namespace vf
