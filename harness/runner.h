// Runs numbered, deterministic cases of one property and records what the
// monitors saw. One process of several: case numbers from, from+step, ... < to.
#pragma once
#include "rng.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <boost/exception/diagnostic_information.hpp>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VF_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define VF_SAN 1
#endif
#endif
#ifdef VF_SAN
extern "C" void __sanitizer_print_stack_trace();
#endif
namespace vf {
struct CaseFailed { };
struct SkipCase { };

struct Ctx {
  Rng rng{1};
  uint64_t case_no = 0, seed = 1;
  bool thorough = false, verbose = false;
  std::string out, argv0;
  std::vector<std::string> extra;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
  uint64_t evals = 0, cases = 0, failures = 0;
  std::set<std::string> seen_keys;

  void count(const std::string &k, uint64_t n = 1) { counters[k] += n; }
  void maxi(const std::string &k, uint64_t n) { uint64_t &x = counters["max:" + k]; if (n > x) x = n; }
  // one evaluation of the property's oracle, on an input identified by h
  void evaluated(uint64_t h, bool nontrivial = true) { ++evals; if (nontrivial) hashes.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s.substr(0, 600)); }
  static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += (char)c;
    }
    return r;
  }
  // record a violation of the property; key classifies it
  void report(const std::string &key, const std::string &detail) {
    ++failures;
    FILE *f = fopen((out + ".fail").c_str(), "a");
    if (f) { fprintf(f, "{\"case\": %llu, \"key\": \"%s\", \"detail\": \"%s\"}\n", (unsigned long long)case_no, esc(key).c_str(), esc(detail.substr(0, 12000)).c_str()); fclose(f); }
    if (verbose) fprintf(stderr, "FAIL case %llu key %s\n%s\n", (unsigned long long)case_no, key.c_str(), detail.c_str());
  }
  [[noreturn]] void fail(const std::string &key, const std::string &detail) { report(key, detail); throw CaseFailed(); }
  void flush() {
    std::string tmp = out + ".stat.tmp";
    FILE *f = fopen(tmp.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"cases\": %llu, \"evals\": %llu, \"failures\": %llu, \"counters\": {", (unsigned long long)cases, (unsigned long long)evals, (unsigned long long)failures);
    bool first = true;
    for (auto &c : counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(samples[i]).c_str());
    fprintf(f, "]}\n"); fclose(f);
    rename(tmp.c_str(), (out + ".stat").c_str());
    f = fopen((out + ".hash").c_str(), "w");
    if (f) { std::vector<uint64_t> v(hashes.begin(), hashes.end()); fwrite(v.data(), 8, v.size(), f); fclose(f); }
  }
};

inline volatile uint64_t *&progress_ptr() { static volatile uint64_t *p = nullptr; return p; }
inline void on_alarm(int) {
  const char m[] = "\nVF-HANG: the case did not end within its time limit\n";
  (void)!write(2, m, sizeof m - 1);
#ifdef VF_SAN
  __sanitizer_print_stack_trace();
#endif
  _exit(87);
}
inline void arm(unsigned sec) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_REAL, &t, nullptr); }

// usage: prog --prop NAME --seed S --from A --to B --step K --out PREFIX --tier quick|thorough [--limit SEC] [--verbose] [extra...]
inline int run_main(int argc, char **argv, const std::function<void(Ctx &)> &one, const std::function<void(Ctx &)> &init = nullptr) {
  Ctx c; uint64_t from = 0, to = 1, step = 1; unsigned limit = 20; std::string prop = "x"; uint64_t budget = 0;
  c.argv0 = argv[0]; c.out = "/tmp/vf_out";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") c.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = strtoull(nx().c_str(), 0, 10); else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
    else if (a == "--step") step = strtoull(nx().c_str(), 0, 10); else if (a == "--out") c.out = nx();
    else if (a == "--tier") c.thorough = nx() == "thorough"; else if (a == "--limit") limit = (unsigned)atoi(nx().c_str());
    else if (a == "--only") { from = strtoull(nx().c_str(), 0, 10); to = from + 1; step = 1; }
    else if (a == "--budget") budget = strtoull(nx().c_str(), 0, 10);
    else if (a == "--verbose") c.verbose = true; else c.extra.push_back(a);
  }
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); }
  int fd = open((c.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, 64) != 0) { fprintf(stderr, "cannot write %s\n", c.out.c_str()); return 2; }
  progress_ptr() = (volatile uint64_t *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
  signal(SIGALRM, on_alarm);
  if (init) init(c);
  time_t t0 = time(nullptr);
  for (uint64_t i = from; i < to; i += step) {
    if (budget && (uint64_t)(time(nullptr) - t0) > budget) { c.count("stopped early by the time budget"); break; }
    progress_ptr()[0] = i + 1;
    c.case_no = i; c.rng = Rng(mix64(c.seed * 0x1000003 + hash_str(prop)) ^ mix64(i));
    arm(limit);
    try { one(c); }
    catch (CaseFailed &) {}
    catch (SkipCase &) { c.count("skipped cases"); }
    catch (boost::exception &e) { c.report("unexpected exception", boost::diagnostic_information(e)); }
    catch (std::exception &e) { c.report(std::string("unexpected exception"), std::string(typeid(e).name()) + ": " + e.what()); }
    arm(0);
    ++c.cases;
    if (c.cases % 32 == 0) c.flush();
    if (c.failures > 40) { c.count("stopped early after many failures"); break; }
  }
  c.flush();
  progress_ptr()[1] = 1;
  return 0;
}
} // namespace vf
