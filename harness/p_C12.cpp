// C12: the arena (and malloc) allocator against a shadow map of live blocks.
#include "runner.h"
#include <mfast.h>
#include <mfast/arena_allocator.h>
#include <mfast/malloc_allocator.h>
#include <sanitizer/allocator_interface.h>
#include <map>
using namespace vf;

static bool tracking = false; static int64_t live_bytes = 0, live_blocks = 0, peak = 0; static uint64_t system_calls = 0;
static void on_malloc(const volatile void *p, size_t n) { if (tracking && p) { live_bytes += (int64_t)n; ++live_blocks; ++system_calls; if (live_bytes > peak) peak = live_bytes; } }
static void on_free(const volatile void *p) { if (tracking && p && __sanitizer_get_ownership((const void *)p)) { live_bytes -= (int64_t)__sanitizer_get_allocated_size((const void *)p); --live_blocks; } }

struct Block { size_t n; uint64_t pat; bool re; };
struct Shadow {
  Ctx &c; std::map<char *, Block> b; std::string *log; std::function<void(char *)> on_empty;
  Shadow(Ctx &c_, std::string *l) : c(c_), log(l) {}
  static char at(uint64_t pat, size_t i) { return (char)(mix64(pat + i / 8) >> (8 * (i % 8))); }
  void fill(char *p, size_t n, uint64_t pat) { for (size_t i = 0; i < n; ++i) p[i] = at(pat, i); }
  void add(char *p, size_t n, bool re, size_t keep, uint64_t old_pat) {
    if ((uintptr_t)p % alignof(mfast::value_storage) || (uintptr_t)p % alignof(void *)) c.fail("arena: misaligned block", *log);
    auto it = b.lower_bound(p);
    if (n) {
      if (it != b.end() && p + n > it->first && it->second.n) c.fail("arena: block overlaps a live block", *log);
      if (it != b.begin()) { --it; if (it->second.n && it->first + it->second.n > p) c.fail("arena: block overlaps a live block", *log); }
    }
    for (size_t i = 0; i < keep; ++i) if (p[i] != at(old_pat, i)) c.fail("arena: growing a block changed its content", *log);
    uint64_t pat = c.rng.next();
    fill(p, n, pat);
    if (n) b[p] = {n, pat, re}; else if (on_empty) on_empty(p);
    c.evaluated(mix64(n) ^ hash_str(*log), true);
    c.count("blocks handed out");
  }
  void check(char *p, const Block &k) { for (size_t i = 0; i < k.n; ++i) if (p[i] != at(k.pat, i)) c.fail("arena: the content of a live block changed", *log + " block of " + std::to_string(k.n)); }
  void check_all() { for (auto &x : b) check(x.first, x.second); c.count("full sweeps of the live blocks"); c.maxi("live blocks", b.size()); }
};
static size_t size_of(Rng &r) {
  switch (r.below(9)) {
  case 0: return r.below(9);
  case 1: return r.below(70);
  case 2: return 4096 - 40 + r.below(80);
  case 3: return r.below(5000);
  case 4: return 3900 + r.below(200);
  case 5: return r.chance(30) ? r.below(60000) : r.below(300);
  case 6: return 8192 - 60 + r.below(120);
  default: return r.below(600);
  }
}
template <class A> static void history(Ctx &c, A &a, bool arena, std::string &log) {
  Rng &r = c.rng; Shadow s(c, &log); if (!arena) s.on_empty = [&](char *p) { a.deallocate(p, 0); };
  int n = (int)r.range(10, 120); bool small = r.chance(30);
  for (int k = 0; k < n; ++k) {
    switch (r.below(12)) {
    case 0: case 1: case 2: case 3: case 4: { size_t z = small ? r.below(100) : size_of(r); log += "a" + std::to_string(z) + " "; char *p = (char *)a.allocate(z); s.add(p, z, false, 0, 0); break; }
    case 5: case 6: { size_t z = small ? r.below(100) : size_of(r); log += "g" + std::to_string(z) + " "; void *p = nullptr; size_t got = a.reallocate(p, 0, z); if (got < z) c.fail("arena: reallocate returned less than requested", log); s.add((char *)p, got, true, 0, 0); break; }
    case 7: case 8: { // grow a block
      std::vector<char *> v; for (auto &x : s.b) if (x.second.re) v.push_back(x.first);
      if (v.empty()) break;
      char *q = v[r.below(v.size())]; Block o = s.b[q]; size_t z = o.n + 1 + r.below(r.chance(20) ? 5000 : 200);
      log += "r" + std::to_string(o.n) + ">" + std::to_string(z) + " "; s.check(q, o); void *p = q; s.b.erase(q);
      size_t got = a.reallocate(p, o.n, z); if (got < z) c.fail("arena: reallocate returned less than requested", log); s.add((char *)p, got, true, o.n, o.pat); break; }
    case 9: { if (s.b.empty()) break; auto it = s.b.begin(); std::advance(it, r.below(s.b.size())); log += "d "; s.check(it->first, it->second); a.deallocate(it->first, it->second.n); s.b.erase(it); break; }
    case 10: { size_t huge = (size_t)0 - 1 - r.below(200); if (r.chance(50)) huge = ((size_t)1 << 63) + r.below(200);
      log += "huge "; bool thrown = false; void *p = nullptr; size_t got = huge;
      try { if (r.chance(50)) p = a.allocate(huge); else got = a.reallocate(p, 0, huge); } catch (std::bad_alloc &) { thrown = true; }
      if (!thrown) c.fail("arena: a request that cannot be satisfied was granted", log + std::to_string(huge) + " got " + std::to_string(got)); c.count("impossible requests refused"); break; }
    case 11: if constexpr (std::is_same<A, mfast::arena_allocator>::value) { if (r.chance(50)) { log += "reset "; s.check_all(); if (!a.reset()) c.fail("arena: reset refused", log); s.b.clear(); c.count("resets"); } } break;
    }
    if (r.chance(10)) s.check_all();
  }
  s.check_all();
  if (!arena) for (auto &x : s.b) a.deallocate(x.first, x.second.n);
}
static void one(Ctx &c) {
  Rng &r = c.rng; std::string log;
  if (r.chance(10)) { mfast::malloc_allocator a; log = "malloc: "; live_bytes = live_blocks = 0; history(c, a, false, log); c.count("malloc histories"); return; }
  if (r.chance(65)) {
    log = "arena: "; log.reserve(200000); live_bytes = live_blocks = 0;
    { mfast::arena_allocator a; history(c, a, true, log); }
    c.sample(log); c.count("arena histories"); return;
  }
  // identical cycles between resets: memory is reused, and all of it returned
  std::vector<size_t> cyc; std::vector<bool> re; int n = 1 + (int)r.below(25);
  for (int i = 0; i < n; ++i) { cyc.push_back(size_of(r)); re.push_back(r.chance(30)); }
  log = "cycle:"; for (size_t i = 0; i < cyc.size(); ++i) log += (re[i] ? " r" : " a") + std::to_string(cyc[i]);
  live_bytes = live_blocks = peak = 0; int64_t at20 = 0, at80 = 0;
  tracking = true;
  {
    mfast::arena_allocator a;
    for (int k = 0; k < 80; ++k) {
      for (size_t i = 0; i < cyc.size(); ++i) { if (re[i]) { void *p = nullptr; size_t got = a.reallocate(p, 0, cyc[i]); memset(p, 1, got); } else memset(a.allocate(cyc[i]), 2, cyc[i]); }
      a.reset();
      if (k == 19) at20 = live_bytes; if (k == 79) at80 = live_bytes;
    }
  }
  int64_t left = live_bytes; tracking = false;
  c.evaluated(hash_str(log)); c.count("reset cycles", 80); c.maxi("bytes held by an arena", (uint64_t)peak);
  if (left != 0) c.fail("arena: memory not returned on destruction", log + " left " + std::to_string(left));
  if (at80 > at20) { if (c.verbose) fprintf(stderr, "%ld %ld\n", (long)at20, (long)at80); c.fail("arena: does not reuse memory after reset", log + " bytes held after 20 cycles " + std::to_string(at20) + ", after 80 cycles " + std::to_string(at80)); }
}
int main(int argc, char **argv) { return run_main(argc, argv, one, [](Ctx &) { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }); }
