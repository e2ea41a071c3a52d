// C04: damaged, truncated and hostile bytes given to a decoder.
#include "world.h"
using namespace vf;

static std::string big_int(Rng &r) { // hostile length or value
  std::string s; size_t n = r.below(r.chance(20) ? 14 : 6);
  for (size_t i = 0; i < n; ++i) s += (char)(r.chance(50) ? r.below(128) : r.chance(50) ? 0x7f : 0);
  s += (char)(0x80 | r.below(128)); return s;
}
static void damage(Rng &r, std::string &s, const std::vector<std::string> &others) {
  int n = 1 + (int)r.below(r.chance(70) ? 3 : 12);
  for (int i = 0; i < n; ++i) {
    size_t p = s.empty() ? 0 : r.below(s.size());
    switch (r.below(12)) {
    case 0: if (!s.empty()) s.resize(p); break;
    case 1: if (!s.empty()) s[p] = (char)r.next(); break;
    case 2: if (!s.empty()) s[p] ^= (char)(1 << r.below(8)); break;
    case 3: if (!s.empty()) s[p] ^= (char)0x80; break;
    case 4: if (!s.empty()) s.erase(p, 1 + r.below(4)); break;
    case 5: s.insert(p, big_int(r)); break;
    case 6: if (!s.empty()) { std::string b = big_int(r); s.replace(p, 1, b); } break;
    case 7: if (!others.empty()) { const std::string &o = r.pick(others); s = s.substr(0, p) + o.substr(r.below(o.size() + 1)); } break;
    case 8: s.insert(p, std::string(r.below(30), (char)(r.chance(50) ? 0x80 : r.chance(50) ? 0 : r.next()))); break;
    case 9: { size_t k = r.below(40); s.clear(); for (size_t j = 0; j < k; ++j) s += (char)(r.chance(40) ? 0x80 | r.below(128) : r.next()); break; }
    case 10: if (!s.empty()) s[0] = (char)(0x40 | r.next()); break;
    case 11: s += s.substr(p); break;
    }
    if (s.size() > 4000) s.resize(4000);
  }
}
static uint64_t touch(const mfast::message_cref &m, const Schema &sc) { Message x = read_message(m, sc); return hash_str(show(x, sc)); }

static void one(Ctx &c) {
  Rng &r = c.rng; World w;
#ifdef VF_GEN
  int gi = (int)r.below(gen_count);
  w.generated(gi); w.dec_kind = (int)r.below(2);
#else
  GenCfg cfg; cfg.many_pmap = r.chance(10); Schema sc0 = r.chance(3) ? matrix_schema(r) : make_schema(r, cfg); w.dynamic(sc0);
#endif
  const Schema &sc = w.sc;
  // an element that occupies no bytes may legally repeat four billion times
  for (auto &t : sc.t) if (has_zero_byte_elements(t.f)) { c.count("template sets with elements of no bytes left out"); return; }
  MonAlloc al("decoder", r.next(), (int)r.below(3)); bool mon = r.chance(25);
  auto dec = w.decoder(mon ? (mfast::allocator *)&al : World::def());
  DictState ds; ds.active = sc.t.size() == 1 ? 0 : -1; ds.slots.resize(sc.slots.size());
  bool sync = true; std::string log = w.xmls; std::vector<std::string> seen;
  int n = (int)r.range(10, 40);
  for (int k = 0; k < n; ++k) {
    bool reset = !sync ? r.chance(60) : r.chance(8);
    DictState before = ds;
    std::string s; Message gm; DictState g = ds; g.slots.resize(sc.slots.size());
    if (!sync) g.active = -1;
    try { if (!gen_stream(sc, r, g, reset, !sync, s, gm, -1, 2)) { s += std::string(20, (char)0x80); } } catch (Malformed &) { continue; }
    if (seen.size() < 20) seen.push_back(s);
    bool damaged = r.chance(75);
    if (damaged) damage(r, s, seen);
    if (s.empty()) { c.count("empty inputs (outside the precondition) left out"); continue; }
    // judge with the reference
    DictState rs = before; if (!sync) rs.active = -1;
    bool have = false; Message want; size_t used = 0; std::string why;
    if (sync || reset) {
      ByteSource src(s.data(), s.size()); RefDecoder<ByteSource> ref(sc, src, rs);
      try { want = ref.message(reset); used = src.p; have = true; if (ref.wrapped) c.count("wrapped 64 bit deltas"); }
      catch (DynError &e) { why = e.code; } catch (Malformed &e) { why = e.why; }
    }
    std::unique_ptr<char[]> exact(new char[s.size()]); memcpy(exact.get(), s.data(), s.size());
    const char *b = exact.get(), *p = b, *e = b + s.size();
    log += "message " + std::to_string(k) + (reset ? " (reset)" : "") + " bytes " + hex(s) + (have ? "\n  means " + show(want, sc) : "\n  not judged or erroneous: " + why) + "\n";
    if (c.verbose) fprintf(stderr, "%s", log.substr(log.rfind("message ")).c_str());
    c.evaluated(hash_str(s, hash_str(w.xmls) + k)); c.count("inputs"); c.count("bytes", s.size());
    bool ok = false;
    try {
      mfast::message_cref m = dec->decode(p, e, reset);
      ok = true;
      if (p < b || p > e) c.fail("decode: the read position left the buffer", log);
      c.count("inputs decoded to a message");
      touch(m, sc);
      if (have) {
        Message got = read_message(m, sc); std::string wh; c.count("damaged inputs that are valid and compared", damaged);
        if (!same(want, got, sc, &wh)) c.fail("decode: wrong value for a damaged but valid stream", log + "  decoded " + show(got, sc) + "\n  differs at " + wh);
        if (p != b + used) c.fail("decode: consumed a different number of bytes", log + std::to_string(p - b) + " of " + std::to_string(used));
      } else if ((sync || reset) && why.compare(0, 6, "stream") == 0) c.fail("decode: accepted a truncated message", log);
    } catch (mfast::fast_error &x) {
      c.count("inputs refused");
      if (have) c.fail("decode: rejected a valid stream", log + boost::diagnostic_information(x));
    } catch (std::exception &x) {
      c.count("inputs refused with another exception");
      if (have) c.fail("decode: rejected a valid stream", log + x.what());
      if (c.verbose) fprintf(stderr, "%s\n", x.what());
    } catch (BridgeError &x) { c.fail("decode: " + x.what, log); }
    if (al.error.size()) c.fail("allocator protocol: " + al.error, log);
    if (ok && have) { ds = rs; sync = true; } else { sync = false; }
  }
  c.sample(log.substr(w.xmls.size()));
  dec.reset();
  if (al.error.size()) c.fail("allocator protocol: " + al.error, log);
  if (!al.live.empty()) c.fail("leak: blocks not returned by the decoder", log);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
