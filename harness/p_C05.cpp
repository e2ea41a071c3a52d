// C05: a coder that is told to reset, whatever happened to it before, against
// a new coder.
#include "world.h"
using namespace vf;

static void mess(Rng &r, std::string &s) {
  for (int i = 0, n = 1 + (int)r.below(3); i < n && !s.empty(); ++i) {
    size_t p = r.below(s.size());
    switch (r.below(4)) { case 0: s.resize(p); break; case 1: s[p] = (char)r.next(); break; case 2: s[p] ^= (char)0x80; break; case 3: s.erase(p, 1); break; }
  }
}
static void decode_side(Ctx &c, World &w) {
  Rng &r = c.rng; const Schema &sc = w.sc; std::string log = w.xmls;
  MonAlloc al("decoder", r.next(), (int)r.below(3)); bool mon = r.chance(40);
  auto dec = w.decoder(mon ? (mfast::allocator *)&al : World::def());
  DictState g; g.slots.resize(sc.slots.size());
  for (int round = 0; round < 4; ++round) {
    // arbitrary history, often with failures
    int n = (int)r.below(6); bool failed_last = false;
    for (int k = 0; k < n; ++k) {
      std::string s; Message m;
      try { if (!gen_stream(sc, r, g, r.chance(20), r.chance(50), s, m, -1, 3)) s += std::string(20, (char)0x80); } catch (Malformed &) { continue; }
      if (r.chance(50)) mess(r, s);
      if (s.empty()) continue;
      if (mon && r.chance(30)) { al.fail_at = 1 + (int)r.below(12); }
      std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); const char *p = b.get();
      log += "history bytes " + hex(s) + (al.fail_at > 0 ? " with allocation failure " + std::to_string(al.fail_at) : "") + "\n";
      uint64_t f0 = al.failed; failed_last = false;
      try { auto x = dec->decode(p, p + s.size(), r.chance(20)); (void)x; } catch (std::exception &) { failed_last = true; c.count(al.failed > f0 ? "histories with an allocation failure" : "failed decodings"); }
      al.fail_at = -1;
    }
    if (failed_last) c.count("resets right after a failure");
    // from here on with a reset: exactly like a new decoder
    auto fresh = w.decoder(); DictState ds; ds.active = -1; ds.slots.resize(sc.slots.size());
    bool by_template = r.chance(25); int rt = -1;
    for (size_t t = 0; t < sc.t.size(); ++t) if (sc.t[t].reset && r.chance(60)) rt = (int)t;
    if (by_template && rt < 0) by_template = false;
    int m = 1 + (int)r.below(5);
    for (int k = 0; k < m; ++k) {
      std::string s; Message want; bool reset = k == 0 && !by_template;
      try { if (!gen_stream(sc, r, ds, reset, k == 0, s, want, k == 0 && by_template ? rt : -1)) break; } catch (Malformed &) { break; }
      std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size()); const char *p = b.get(), *p2 = p, *e = p + s.size();
      log += std::string(reset ? "reset " : by_template && k == 0 ? "reset template " : "") + "bytes " + hex(s) + "\n  means " + show(want, sc) + "\n";
      c.evaluated(hash_str(log)); c.count("messages after a reset");
      try {
        Message got = read_message(dec->decode(p, e, reset), sc), exp = read_message(fresh->decode(p2, e, reset), sc); std::string wh;
        if (!same(exp, got, sc, &wh)) c.fail("decode after reset: differs from a new decoder", log + "  decoded " + show(got, sc) + "\n  new one " + show(exp, sc) + "\n  at " + wh);
        if (!same(want, got, sc, &wh)) c.fail("decode after reset: wrong value", log + "  decoded " + show(got, sc) + "\n  at " + wh);
        if (p != p2 || p != e) c.fail("decode after reset: consumed a different number of bytes", log);
      } catch (std::exception &x) { c.fail("decode after reset: rejected a valid stream", log + boost::current_exception_diagnostic_information()); }
      catch (BridgeError &x) { c.fail("decode after reset: " + x.what, log); }
    }
    if (log.size() > 200000) break;
    g = ds;
  }
  c.sample(log.substr(w.xmls.size()));
  dec.reset();
  if (al.error.size()) c.fail("allocator protocol: " + al.error, log);
  if (!al.live.empty()) c.fail("leak: blocks not returned by the decoder", log);
}
static void encode_side(Ctx &c, World &w) {
  Rng &r = c.rng; const Schema &sc = w.sc; std::string log = w.xmls;
  MonAlloc al("encoder", r.next(), (int)r.below(3)); bool mon = r.chance(40);
  auto enc = w.encoder(mon ? (mfast::allocator *)&al : World::def()); bool minimal = r.chance(40); enc->overlong(!minimal);
  int active = sc.t.size() == 1 ? 0 : -1;
  auto make = [&](int t, Message &val, const DictState *d) -> std::unique_ptr<mfast::message_type> {
    MsgGen g(sc, r, d); val = g.gen_message(t); if (g.failed) return nullptr;
    std::unique_ptr<mfast::message_type> m(new mfast::message_type(World::def(), w.inst[t])); write_fields(sc.t[t].f, val.f, m->mref(), sc, w.inst); val = read_message(m->cref(), sc); return m;
  };
  for (int round = 0; round < 4; ++round) {
    int n = (int)r.below(6); bool failed_last = false;
    for (int k = 0; k < n; ++k) {
      int t = (int)r.below(sc.t.size()); Message v; auto m = make(t, v, nullptr); if (!m) continue;
      if (mon && r.chance(30)) al.fail_at = 1 + (int)r.below(8);
      size_t cap = r.chance(50) ? 1 + r.below(30) : 100000; std::unique_ptr<char[]> b(new char[cap]);
      log += "history " + show(v, sc) + " into " + std::to_string(cap) + (al.fail_at > 0 ? " with allocation failure " + std::to_string(al.fail_at) : "") + "\n"; uint64_t f0 = al.failed;
      try { failed_last = false; enc->encode(m->cref(), b.get(), cap, r.chance(20)); active = t; } catch (std::exception &x) { failed_last = true; c.count(al.failed > f0 ? "histories with an allocation failure" : dynamic_cast<mfast::fast_error *>(&x) ? "refused messages" : "overflows"); }
      al.fail_at = -1;
    }
    if (failed_last) c.count("resets right after a failure");
    auto fresh = w.encoder(); fresh->overlong(!minimal);
    DictState ds; ds.active = active; ds.slots.resize(sc.slots.size());
    if (active >= 0 && sc.t.size() > 1) { // bring the same template into effect
      bool done = false;
      for (int tries = 0; tries < 5 && !done; ++tries) { Message v; auto m = make(active, v, nullptr); if (!m) break; try { std::vector<char> o; fresh->encode(m->cref(), o, true); done = true; } catch (mfast::fast_error &) {} }
      if (!done) { c.count("rounds left out: no message of the template in effect can be encoded after a reset"); continue; }
    }
    int rt = -1; for (size_t t = 0; t < sc.t.size(); ++t) if (sc.t[t].reset && r.chance(60)) rt = (int)t;
    bool by_template = rt >= 0 && r.chance(30);
    int nm = 1 + (int)r.below(5);
    for (int k = 0; k < nm; ++k) {
      bool reset = k == 0 && !by_template; int t = k == 0 && by_template ? rt : (int)r.below(sc.t.size());
      Message v; auto m = make(t, v, k ? &ds : nullptr); if (!m) break;
      log += std::string(reset ? "reset " : "") + show(v, sc) + "\n";
      std::vector<char> o1, o2; bool t1 = false, t2 = false;
      try { enc->encode(m->cref(), o1, reset); } catch (mfast::fast_error &) { t1 = true; }
      try { fresh->encode(m->cref(), o2, reset); } catch (mfast::fast_error &) { t2 = true; }
      c.evaluated(hash_str(log)); c.count("messages after a reset");
      if (t1 != t2) c.fail("encode after reset: " + std::string(t1 ? "refuses what a new encoder accepts" : "accepts what a new encoder refuses"), log);
      if (t1) break;
      std::string s(o1.begin(), o1.end());
      if (o1 != o2) c.fail("encode after reset: different bytes than a new encoder", log + " bytes " + hex(s) + "\n new one " + hex(std::string(o2.begin(), o2.end())));
      ByteSource src(s.data(), s.size()); RefDecoder<ByteSource> ref(sc, src, ds); Message got; std::string wh;
      try { got = ref.message(reset); } catch (DynError &e) { c.fail("encode after reset: the bytes raise " + e.code, log + hex(s)); } catch (Malformed &e) { c.fail("encode after reset: malformed " + e.why, log + hex(s)); }
      undo_defaults(sc.t[t].f, v.f, got.f, sc, !w.gen);
      if (!same(v, got, sc, &wh)) c.fail("encode after reset: the bytes mean a different message", log + hex(s) + "\n means " + show(got, sc) + " at " + wh);
      active = t;
    }
    if (log.size() > 200000) break;
  }
  c.sample(log.substr(w.xmls.size()));
  enc.reset();
  if (al.error.size()) c.fail("allocator protocol: " + al.error, log);
  if (!al.live.empty()) c.fail("leak: blocks not returned by the encoder", log);
}
static void one(Ctx &c) {
  Rng &r = c.rng; World w;
#ifdef VF_GEN
  w.generated((int)r.below(gen_count)); w.dec_kind = (int)r.below(2);
#else
  GenCfg cfg; cfg.many_pmap = r.chance(8); cfg.max_templates = 5; w.dynamic(r.chance(3) ? matrix_schema(r) : make_schema(r, cfg));
#endif
  for (auto &t : w.sc.t) if (has_zero_byte_elements(t.f)) { c.count("template sets with elements of no bytes left out"); return; }
  if (r.chance(50)) decode_side(c, w); else encode_side(c, w);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
