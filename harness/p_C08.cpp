// C08: which fields share a previous value. Template sets with few names,
// keys, namespaces and dictionaries, so that sharing is frequent.
#include "hist.h"
using namespace vf;
static void one(Ctx &c) {
  GenCfg cfg; Rng &r = c.rng;
  cfg.max_docs = 3; cfg.max_templates = 5; cfg.max_fields = 6; cfg.forms = false; cfg.individual = r.chance(30);
  cfg.dict_heavy = true; cfg.enums = r.chance(40); cfg.vectors = false; cfg.resets = true;
  if (r.chance(8)) {
    // two fields of different types on one key must be refused by either coder
    for (int tries = 0; tries < 40; ++tries) {
      GenCfg k = cfg; k.key_any_type = true;
      SchemaGen g(r, k); Schema sc = g.generate();
      std::string xmls; for (auto &x : sc.xml) xmls += x;
      std::unique_ptr<Loaded> ld;
      try { ld.reset(new Loaded(sc)); } catch (mfast::fast_error &) { c.fail("load: a valid template document was rejected", xmls); }
      int refused = 0;
      { mfast::fast_decoder d; try { d.include(ld->ptr.data(), ld->ptr.size()); } catch (mfast::fast_error &) { refused |= 1; } }
      { mfast::fast_encoder d; try { d.include(ld->ptr.data(), ld->ptr.size()); } catch (mfast::fast_error &) { refused |= 2; } }
      if (refused != (g.conflict ? 3 : 0)) c.fail(g.conflict ? "include: fields of different types on one key were accepted" : "include: fields that may share a key were refused", xmls);
      c.evaluated(hash_str(xmls)); c.count(g.conflict ? "key type conflicts refused" : "conflict free template sets accepted");
    }
    return;
  }
  Schema sc = make_schema(r, cfg);
  for (auto &s : sc.slots) { c.count("dictionary entries"); if (s.users.size() > 1) c.count("shared dictionary entries"); c.maxi("fields on one entry", s.users.size()); }
  HistCfg h; h.min_msg = 6; h.max_msg = 24; h.reset_pct = 8; h.err_pct = 3; h.shuffle = false;
  if (r.chance(60)) decode_history(c, sc, h); else encode_history(c, sc, h);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
