// An allocator that records every event and checks the allocation protocol:
// each block goes back to the allocator it came from, once, with the size it
// was obtained with. Every reallocation moves the block, so that stale
// pointers show under AddressSanitizer.
#pragma once
#include "rng.h"
#include <mfast.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <unordered_map>
namespace vf {
struct MonAlloc : mfast::allocator {
  struct Block { size_t n; bool re; };
  std::unordered_map<void *, Block> live;
  std::string error, name;
  uint64_t allocs = 0, reallocs = 0, frees = 0, bytes = 0, peak = 0, failed = 0;
  Rng r; int slack; // 0: exact, 1: random, 2: doubling
  int64_t fail_at = -1; // throw on the n-th request from now
  MonAlloc(std::string n, uint64_t seed, int s) : name(n), r(seed), slack(s) {}
  ~MonAlloc() { for (auto &b : live) ::free(b.first); }
  void bad(const std::string &e) { if (error.empty()) error = name + ": " + e; }
  void tick() { if (fail_at > 0 && --fail_at == 0) { ++failed; fail_at = -1; throw std::bad_alloc(); } }
  void *get(size_t n) { void *p = ::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xCD, n); bytes += n; if (bytes > peak) peak = bytes; return p; }
  void *allocate(std::size_t n) override { tick(); ++allocs; void *p = get(n); live[p] = {n, false}; return p; }
  std::size_t reallocate(void *&p, std::size_t old_size, std::size_t new_size) override {
    tick(); ++reallocs;
    size_t n = new_size + (slack == 0 ? 0 : slack == 1 ? r.below(40) : new_size);
    if (p) {
      auto it = live.find(p);
      if (it == live.end()) bad("reallocate of a block that is not live");
      else if (it->second.n != old_size) bad("reallocate with old size " + std::to_string(old_size) + " of a block of " + std::to_string(it->second.n));
    } else if (old_size) bad("reallocate of null with a nonzero old size");
    void *q = get(n);
    if (p) {
      auto it = live.find(p);
      if (it != live.end()) { memcpy(q, p, it->second.n < n ? it->second.n : n); bytes -= it->second.n; live.erase(it); ::free(p); }
    }
    live[q] = {n, true}; p = q;
    return n;
  }
  void deallocate(void *p, std::size_t n) override {
    ++frees;
    if (!p) { if (n) bad("deallocate of null with size " + std::to_string(n)); return; }
    auto it = live.find(p);
    if (it == live.end()) { bad("deallocate of a block that is not live here (size " + std::to_string(n) + ")"); return; }
    if (it->second.n != n) bad("deallocate with size " + std::to_string(n) + " of a block of " + std::to_string(it->second.n));
    bytes -= it->second.n; live.erase(it); ::free(p);
  }
};
} // namespace vf
