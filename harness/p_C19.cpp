// C19: template identifiers: which template a message is coded with.
#include "hist.h"
using namespace vf;

static bool uses(const std::vector<Field> &fs, const std::vector<Value> &v, const Schema &sc, const std::vector<bool> &in) {
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    if (f.t == T::GROUP || f.t == T::SEQ) { for (auto &e : v[i].elems) if (uses(f.sub, e, sc, in)) return true; }
    else if (f.t == T::TREF && v[i].tmpl >= 0) { if (!in[v[i].tmpl] || uses(sc.t[v[i].tmpl].f, v[i].elems[0], sc, in)) return true; }
  }
  return false;
}
static void duplicates(Ctx &c, GenCfg cfg) {
  Rng &r = c.rng; cfg.max_templates = 6; cfg.max_docs = 4;
  SchemaGen g(r, cfg); Schema sc = g.generate();
  if (g.conflict || sc.t.size() < 2) throw SkipCase();
  // documents in which two templates have the same identifier
  size_t a = r.below(sc.t.size()), b = r.below(sc.t.size() - 1); if (b >= a) ++b;
  bool dup = r.chance(70);
  if (dup) { g.sc.t[b].id = g.sc.t[a].id; g.write(); sc = g.sc; }
  std::string xmls; for (auto &x : sc.xml) xmls += x;
  mfast::template_registry reg; std::vector<std::unique_ptr<mfast::dynamic_templates_description>> ds; std::vector<const mfast::templates_description *> p;
  int refused = 0;
  try { for (size_t i = 0; i < sc.xml.size(); ++i) { std::string ns = "d" + std::to_string(i); ds.emplace_back(new mfast::dynamic_templates_description(sc.xml[i].c_str(), ns.c_str(), &reg)); p.push_back(ds.back().get()); } }
  catch (mfast::fast_error &) { refused = 7; }
  if (!refused) {
    { mfast::fast_decoder d; try { d.include(p.data(), p.size()); } catch (mfast::fast_error &) { refused |= 1; } }
    { mfast::fast_encoder d; try { d.include(p.data(), p.size()); } catch (mfast::fast_error &) { refused |= 2; } }
  }
  if (dup && (refused & 3) != 3) c.fail("include: two templates with the same identifier were accepted", xmls);
  if (!dup && refused) c.fail("include: templates with distinct identifiers were refused", xmls);
  c.evaluated(hash_str(xmls)); c.count(dup ? "duplicate identifiers refused" : "distinct identifiers accepted");
}
static void subset(Ctx &c, const Schema &sc) {
  Rng &r = c.rng; if (sc.docs.size() < 2) throw SkipCase();
  std::string log; for (auto &x : sc.xml) log += x;
  Loaded ld(sc);
  std::vector<bool> in(sc.t.size(), false); std::vector<const mfast::templates_description *> p; size_t nin = 0; int last = -1;
  for (size_t d = 0; d < sc.docs.size(); ++d) if (r.chance(60)) { p.push_back(ld.ptr[d]); for (int t : sc.docs[d].tmpl) { in[t] = true; ++nin; last = t; } log += " included:" + std::to_string(d); }
  if (p.empty()) throw SkipCase();
  mfast::fast_decoder dec; dec.include(p.data(), p.size());
  mfast::fast_encoder enc; enc.include(p.data(), p.size());
  for (size_t t = 0; t < sc.t.size(); ++t) {
    const mfast::template_instruction *ti = enc.template_with_id(sc.t[t].id);
    if (in[t] ? !ti || sc.t[t].name != ti->name() : ti != nullptr) c.fail("template_with_id: wrong template", log + " id " + std::to_string(sc.t[t].id));
  }
  DictState ds, es; ds.active = es.active = nin == 1 ? last : -1; ds.slots.resize(sc.slots.size()); es.slots = ds.slots;
  bool dfail = false, efail = false;
  for (int k = 0; k < 10; ++k) {
    if (r.chance(50)) { // decoding
      GenSource src(r); RefDecoder<GenSource> ref(sc, src, ds); src.err_pct = 0;
      bool reset = dfail; ref.force_id = dfail; Message want;
      try { want = ref.message(reset); } catch (DynError &e) { return; } catch (Malformed &) { throw SkipCase(); }
      bool known = in[want.tmpl] && !uses(sc.t[want.tmpl].f, want.f, sc, in);
      std::vector<char> b(src.out.begin(), src.out.end()); const char *q = b.data();
      log += "\ndecode " + hex(src.out) + " " + show(want, sc);
      c.evaluated(hash_str(log));
      try {
        mfast::message_cref m = dec.decode(q, b.data() + b.size(), reset);
        if (!known) c.fail("decode: a message of an unknown template was accepted", log + "\n  as " + m.name());
        Message got = read_message(m, sc); std::string w; if (!same(want, got, sc, &w)) c.fail("decode: wrong value", log + "\n decoded " + show(got, sc) + " differs at " + w);
        dfail = false; c.count("known templates decoded");
      } catch (mfast::fast_error &e) { if (known) c.fail("decode: a message of a known template was rejected", log + boost::diagnostic_information(e)); dfail = true; c.count("unknown templates refused by the decoder"); }
      catch (BridgeError &e) { c.fail("decode: " + e.what, log); }
    } else {
      int t = (int)r.below(sc.t.size()); MsgGen g(sc, r, nullptr); Message m = g.gen_message(t); if (g.failed) continue;
      bool known = in[t] && !uses(sc.t[t].f, m.f, sc, in);
      mfast::message_type msg(mfast::malloc_allocator::instance(), ld.inst[t]); write_fields(sc.t[t].f, m.f, msg.mref(), sc, ld.inst);
      Message want = read_message(msg.cref(), sc);
      log += "\nencode " + show(want, sc);
      c.evaluated(hash_str(log));
      std::string bytes;
      EncSim sim(sc, es); if (efail || sc.t[t].reset) for (auto &s : sim.ds.slots) s = Slot(); sim.fields(sc.t[t].f, want.f);
      try { std::vector<char> v; enc.encode(msg.cref(), v, efail); bytes.assign(v.begin(), v.end()); }
      catch (mfast::fast_error &e) { if (known && sim.why.empty()) c.fail("encode: a message of a known template was rejected", log + boost::diagnostic_information(e)); efail = true; if (!known) c.count("unknown templates refused by the encoder"); continue; }
      if (!known) c.fail("encode: a message of an unknown template was accepted", log + "\n as " + hex(bytes));
      ByteSource src(bytes.data(), bytes.size()); RefDecoder<ByteSource> ref(sc, src, es); Message got;
      try { got = ref.message(efail); } catch (DynError &e) { c.fail("encode: the bytes raise " + e.code, log + " " + hex(bytes)); } catch (Malformed &e) { c.fail("encode: malformed " + e.why, log + " " + hex(bytes)); }
      efail = false; undo_defaults(sc.t[t].f, want.f, got.f, sc, true); std::string w;
      if (!same(want, got, sc, &w)) c.fail("encode: the bytes mean a different message", log + "\n bytes " + hex(bytes) + "\n means " + show(got, sc) + " differs at " + w);
      c.count("known templates encoded");
    }
  }
}
static void one(Ctx &c) {
  GenCfg cfg; Rng &r = c.rng;
  cfg.max_docs = 4; cfg.max_templates = 9; cfg.max_fields = 3; cfg.forms = false; cfg.tref_pct = r.chance(70) ? 100 : 40; cfg.max_depth = r.chance(50) ? 4 : 2; cfg.vectors = false; cfg.individual = false;
  int x = (int)r.below(100);
  if (x < 12) { duplicates(c, cfg); return; }
  Schema sc = make_schema(r, cfg);
  HistCfg h; h.unknown_msg_pct = 12; h.shuffle = true; h.min_msg = 6; h.max_msg = 24;
  c.maxi("templates", sc.t.size()); c.maxi("documents", sc.docs.size());
  if (x < 50) decode_history(c, sc, h); else if (x < 75) encode_history(c, sc, h); else subset(c, sc);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
