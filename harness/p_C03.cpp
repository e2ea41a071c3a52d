// C03: the coders specialised for generated types and the generic coders are
// interchangeable on every history.
#include "world.h"
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;

// the same messages through encoders of both kinds
static void encode_side(Ctx &c, const World &w, const Loaded &ld) {
  Rng &r = c.rng; const Schema &sc = w.sc; std::string log = w.xmls;
  V1Encoder dyn(World::def(), ld.ptr), mix(World::def(), w.ptr); auto gen = w.encoder();
  bool minimal = r.chance(50); dyn.overlong(!minimal); mix.overlong(!minimal); gen->overlong(!minimal);
  DictState ds; ds.active = sc.t.size() == 1 ? 0 : -1; ds.slots.resize(sc.slots.size()); bool after_error = false;
  std::vector<char> vec; std::map<int, std::pair<std::unique_ptr<MT>, std::unique_ptr<MT>>> pool;
  for (int k = (int)r.range(3, 14); k > 0; --k) {
    int t = (int)r.below(sc.t.size()); bool reset = after_error || r.chance(6);
    MsgGen g(sc, r, reset ? nullptr : &ds); g.absent_pct = r.chance(20) ? 80 : r.chance(20) ? 5 : 30; if (r.chance(20)) g.same_pct = 90;
    Message v = g.gen_message(t); if (g.failed) continue;
    auto &p = pool[t]; if (!p.first || r.chance(50)) { p.first.reset(new MT(World::def(), ld.inst[t])); p.second.reset(new MT(World::def(), w.inst[t])); }
    write_fields(sc.t[t].f, v.f, p.first->mref(), sc, ld.inst); write_fields(sc.t[t].f, v.f, p.second->mref(), sc, w.inst);
    log += std::string(reset ? "reset " : "") + show(v, sc) + "\n";
    std::string out[3]; bool threw[3] = {false, false, false};
    for (int e = 0; e < 3; ++e) {
      AnyEncoder &E = e == 0 ? (AnyEncoder &)dyn : e == 1 ? (AnyEncoder &)mix : *gen; const message_cref m = e == 0 ? p.first->cref() : p.second->cref();
      try {
        if (r.chance(50)) { size_t old = vec.size(); E.encode(m, vec, reset); out[e].assign(vec.begin() + old, vec.end()); if (r.chance(20)) vec.clear(); }
        else { std::unique_ptr<char[]> b(new char[80000]); size_t n = E.encode(m, b.get(), 80000, reset); out[e].assign(b.get(), n); }
      } catch (fast_error &x) { threw[e] = true; }
    }
    static const char *who[] = {"the generic encoder with loaded templates", "the generic encoder with generated types", "the encoder for generated types"};
    for (int e = 1; e < 3; ++e) {
      if (threw[e] != threw[0]) c.fail("encode: refused by one encoder only", log + who[threw[e] ? e : 0] + " refused, " + who[threw[e] ? 0 : e] + " wrote " + hex(out[threw[e] ? 0 : e]));
      if (out[e] != out[0]) c.fail("encode: the encoders write different bytes", log + who[0] + ": " + hex(out[0]) + "\n" + who[e] + ": " + hex(out[e]));
    }
    c.evaluated(hash_str(out[0], hash_str(w.xmls))); c.count("messages encoded by all encoders"); c.count("bytes", out[0].size()); if (threw[0]) c.count("messages refused by all encoders");
    after_error = threw[0]; if (after_error) continue;
    ByteSource src(out[0].data(), out[0].size()); RefDecoder<ByteSource> ref(sc, src, ds);
    try { ref.message(reset); } catch (DynError &) { after_error = true; } catch (Malformed &) { after_error = true; }
    for (int a = 0; a < 18; ++a) for (int b = 0; b < 8; ++b) for (int q = 0; q < 2; ++q) if (ref.cov[a][b][q]) c.count(std::string("seen ") + type_name((T)a) + "/" + op_name((Op)b) + (q ? "/present" : "/absent"), ref.cov[a][b][q]);
  }
  c.sample(log.substr(w.xmls.size()));
}
// the same bytes through decoders of both kinds
static void decode_side(Ctx &c, const World &w, const Loaded &ld) {
  Rng &r = c.rng; const Schema &sc = w.sc; std::string log = w.xmls; bool zero = false;
  for (auto &t : sc.t) if (has_zero_byte_elements(t.f)) zero = true;
  V1Decoder dyn(World::def(), ld.ptr), mix(World::def(), w.ptr); std::unique_ptr<AnyDecoder> plain(w.ge->decoder(World::def(), 0)), tok(w.ge->decoder(World::def(), 1));
  DictState ds; ds.active = sc.t.size() == 1 ? 0 : -1; ds.slots.resize(sc.slots.size()); bool sync = true;
  struct Held { bool have = false; std::unique_ptr<message_mref> m; Message v; } held[DECODER_TOKENS];
  for (int k = (int)r.range(4, 20); k > 0; --k) {
    bool reset = !sync || r.chance(6); DictState g = ds; g.slots.resize(sc.slots.size()); if (!sync) g.active = -1;
    std::string s; Message want; bool valid = false;
    GenSource src(r); src.err_pct = sync ? 2 : 0; if (r.chance(15)) src.one_pct = r.chance(50) ? 2 : 97; { RefDecoder<GenSource> ref(sc, src, g); ref.force_id = !sync; if (r.chance(3)) ref.unknown_id_pct = 20;
      try { want = ref.message(reset); valid = true; s = src.out; } catch (DynError &) { ref.close_all(); s = src.out + std::string(64, (char)0x80); } catch (Malformed &) { continue; } }
    if (s.empty()) { ds = g; sync = sync && valid; if (!valid) sync = false; continue; }
    bool damaged = !zero && r.chance(12); if (damaged) { size_t p = r.below(s.size()); switch (r.below(4)) { case 0: s.resize(p + 1); break; case 1: s[p] ^= (char)(1 << r.below(8)); break; case 2: s[p] = (char)r.next(); break; default: s.insert(p, 1 + r.below(3), (char)r.next()); } }
    std::unique_ptr<char[]> exact(new char[s.size()]); memcpy(exact.get(), s.data(), s.size()); const char *b = exact.get();
    log += std::string(reset ? "(reset) " : "") + (damaged ? "damaged " : "") + "bytes " + hex(s) + "\n";
    static const char *who[] = {"the generic decoder with loaded templates", "the generic decoder with generated types", "the decoder for generated types", "the decoder with tokens"};
    Message got[4]; bool threw[4]; size_t used[4]; size_t token = r.below(DECODER_TOKENS); std::string why[4];
    held[token].have = false;
    for (int d = 0; d < 4; ++d) {
      const char *p = b; threw[d] = false; used[d] = 0;
      try {
        if (d < 3) { AnyDecoder &D = d == 0 ? (AnyDecoder &)dyn : d == 1 ? (AnyDecoder &)mix : *plain; got[d] = read_message(D.decode(p, b + s.size(), reset), sc); }
        else { message_mref m = tok->decode(token, p, b + s.size(), reset); got[d] = read_message(m, sc); held[token].have = true; held[token].m.reset(new message_mref(m)); held[token].v = got[d]; }
        used[d] = p - b;
      } catch (fast_error &x) { threw[d] = true; why[d] = boost::diagnostic_information(x); }
      catch (std::bad_alloc &) { threw[d] = true; why[d] = "bad_alloc"; }
    }
    for (int d = 1; d < 4; ++d) {
      std::string wh;
      if (threw[d] != threw[0]) c.fail("decode: refused by one decoder only", log + who[threw[d] ? d : 0] + " refused (" + why[threw[d] ? d : 0] + "), " + who[threw[d] ? 0 : d] + " decoded " + show(got[threw[d] ? 0 : d], sc));
      if (threw[0]) continue;
      if (!same(got[0], got[d], sc, &wh)) c.fail("decode: the decoders give different messages", log + who[0] + " " + show(got[0], sc) + "\n" + who[d] + " " + show(got[d], sc) + "\nat " + wh);
      if (used[d] != used[0]) c.fail("decode: the decoders consume different numbers of bytes", log + who[0] + " " + std::to_string(used[0]) + ", " + who[d] + " " + std::to_string(used[d]));
    }
    c.evaluated(hash_str(s, hash_str(w.xmls))); c.count("messages decoded by all decoders"); c.count("bytes", s.size()); if (threw[0]) c.count("messages refused by all decoders"); if (damaged && !threw[0]) c.count("damaged messages decoded by all");
    // messages of the other tokens stay what they are; they may be changed
    for (auto &h : held) if (h.have) {
      std::string wh; Message now = read_message(*h.m, sc);
      if (!same(h.v, now, sc, &wh)) c.fail("decode: a message changed although its token was not used again", log + "was " + show(h.v, sc) + "\nis " + show(now, sc) + "\nat " + wh);
      c.count("messages of other tokens compared");
      if (r.chance(25)) { MsgGen mg(sc, r, nullptr); Message v = mg.gen_message(h.v.tmpl); if (!mg.failed) { write_fields(sc.t[v.tmpl].f, v.f, *h.m, sc, w.inst); h.v = read_message(*h.m, sc); if (!same(v, h.v, sc, &wh)) c.fail("decode: a decoded message cannot be changed", log + "assigned " + show(v, sc) + "\nholds " + show(h.v, sc)); c.count("decoded messages changed"); log += "changed\n"; } }
    }
    if (valid && !damaged && !threw[0]) { ds = g; sync = true; } else sync = false;
  }
  c.sample(log.substr(w.xmls.size()));
}
static void one(Ctx &c) {
  Rng &r = c.rng; World w; w.generated((int)r.below(gen_count));
  static std::map<int, std::unique_ptr<Loaded>> cache; auto &ld = cache[w.gen_index]; if (!ld) ld.reset(new Loaded(w.sc));
  if (r.chance(50)) encode_side(c, w, *ld); else decode_side(c, w, *ld);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
