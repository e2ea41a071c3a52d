// C17: loading a template document builds exactly the fields its text
// describes; documents that FAST forbids are rejected.
#include "docgen.h"
#include "runner.h"
using namespace vf;
using namespace mfast;
static std::string bad_op_value(Rng &r, const char *type) { (void)r; return std::string(type) == "string" ? "a" : std::string(type) == "byteVector" ? "ab" : std::string(type) == "boolean" ? "true" : "1"; }
// fields that break one rule
static std::string illegal(Rng &r, std::string &rule) {
  static const char *ints[] = {"int32", "uInt32", "int64", "uInt64"}, *strs[] = {"string", "byteVector"}, *all[] = {"int32", "uInt32", "int64", "uInt64", "decimal", "string", "byteVector", "boolean"};
  std::string i = ints[r.below(4)], s = strs[r.below(2)], a = all[r.below(8)], pres = r.chance(50) ? " presence=\"optional\"" : "", name = " name=\"bad\"";
  auto el = [&](const std::string &t, const std::string &in, bool opt = true) { std::string p = opt ? pres : ""; switch (r.below(t == "x" ? 1 : 3)) { case 0: return "<" + t + name + p + ">" + in + "</" + t + ">"; case 1: return "<field" + name + p + "><" + t + ">" + in + "</" + t + "></field>"; default: return "<field" + name + p + "><" + t + "/>" + in + "</field>"; } };
  auto init = [&](const std::string &t) { return r.chance(50) ? " value=\"" + bad_op_value(r, t.c_str()) + "\"" : std::string(); };
  switch (r.below(17)) {
  case 0: rule = "unknown type"; return "<" + std::string(r.chance(50) ? "float" : "int16") + name + pres + "/>";
  case 1: rule = "unknown referenced type"; return "<field" + name + pres + "><type name=\"Undefined\"/></field>";
  case 2: rule = "field without a type"; return "<field" + name + pres + "/>";
  case 3: rule = "unknown template"; return "<templateRef name=\"Undefined\"/>";
  case 4: rule = "nested template"; return "<template name=\"Nested\" id=\"77\"><int32 name=\"x\"/></template>";
  case 5: rule = "constant without a value"; return el(a, "<constant/>");
  case 6: rule = "mandatory default without a value"; return el(a, "<default/>", false);
  case 7: rule = "increment of a type that cannot be incremented"; { std::string t = r.chance(30) ? "decimal" : r.chance(30) ? "boolean" : s; return el(t, "<increment" + init(t) + "/>"); }
  case 8: rule = "tail of a type without tail"; { std::string t = r.chance(30) ? "decimal" : r.chance(30) ? "boolean" : i; return el(t, "<tail" + init(t) + "/>"); }
  case 9: rule = "delta of an enumeration"; if (r.chance(50)) return el("boolean", "<delta/>"); return "<enum" + name + pres + "><element name=\"A\"/><element name=\"B\"/><" + (r.chance(50) ? "delta" : r.chance(50) ? "increment" : "tail") + "/></enum>";
  case 10: rule = "initial value of another type"; { std::string t = r.chance(25) ? "decimal" : r.chance(25) ? "boolean" : i; std::string op = r.chance(50) ? "copy" : r.chance(50) ? "default" : "constant"; static const char *v[] = {"abc", "1x", "--1", "1.5.2", "0x10", "yes?"}; return el(t, "<" + op + " value=\"" + v[r.below(6)] + "\"/>"); }
  case 11: rule = "initial value that is no hexadecimal string"; { static const char *v[] = {"abc", "zz", "0", "12 3", "0x12"}; return el("byteVector", "<copy value=\"" + std::string(v[r.below(5)]) + "\"/>"); }
  case 12: rule = "identifier that is no number"; return "<" + a + name + " id=\"" + (r.chance(50) ? "x1" : r.chance(50) ? "4294967296" : r.chance(50) ? "-1" : "1 2") + "\"/>";
  case 13: rule = "enumeration element without a name"; return "<enum" + name + pres + "><element value=\"1\"/></enum>";
  case 14: rule = "initial value that names no element"; return "<enum" + name + pres + "><element name=\"A\"/><element name=\"B\"/><copy value=\"C\"/></enum>";
  case 15: rule = "operator of a part of a decimal"; switch (r.below(5)) { case 0: return "<decimal" + name + pres + "><exponent><constant/></exponent></decimal>"; case 1: return "<decimal" + name + pres + "><mantissa><constant/></mantissa></decimal>"; case 2: return "<decimal" + name + pres + "><mantissa><tail/></mantissa></decimal>"; case 3: return "<decimal" + name + pres + "><mantissa><default/></mantissa></decimal>"; default: return "<decimal" + name + pres + "><exponent><tail/></exponent></decimal>"; }
  default: rule = "operator of a sequence length"; return "<sequence" + name + pres + "><length name=\"len\">" + (r.chance(50) ? "<constant/>" : "<tail/>") + "</length><int32 name=\"x\"/></sequence>"; }
}
static void one(Ctx &c) {
  Rng &r = c.rng;
  GenCfg cfg; cfg.max_docs = 3; cfg.max_templates = 5; cfg.max_fields = 7; cfg.unnamed_pct = r.chance(30) ? 30 : 0;
  DocGen g(r, make_schema(r, cfg));
  std::vector<std::string> docs = g.write(); std::string all; for (auto &d : docs) all += d + "\n--\n";
  template_registry reg; std::vector<std::unique_ptr<dynamic_templates_description>> desc;
  for (size_t d = 0; d < docs.size(); ++d) {
    const Doc &D = g.sc.docs[d];
    try { desc.emplace_back(new dynamic_templates_description(docs[d].c_str(), "", &reg)); }
    catch (std::exception &e) { c.fail("a valid document is rejected", all + "document " + std::to_string(d) + ": " + boost::diagnostic_information(e)); }
    auto &L = *desc.back();
    if (L.ns() != D.ns || L.template_ns() != D.template_ns || L.dictionary() != D.dict) c.fail("the attributes of the document are wrong", all);
    if (L.size() != D.tmpl.size()) c.fail("the number of templates is wrong", all);
    for (size_t k = 0; k < D.tmpl.size(); ++k) {
      const Template &t = g.sc.t[D.tmpl[k]]; std::string want = desc_template(t, D), got = Describe::tmpl(L[k]);
      if (want != got) { std::string diff = first_difference(want, got); std::string kind = diff.substr(9, diff.find('\n') - 9); c.fail("a template does not mean what its text says", diff + "\n" + all); }
      if (L.instruction_with_id(t.id) != L[k]) c.fail("template not found by identifier", all);
      c.evaluated(hash_str(want)); c.count("templates compared"); size_t lines = std::count(want.begin(), want.end(), '\n'); c.count("fields compared", lines - 1);
    }
  }
  for (auto &s : g.spell) { c.count(s.second.form == 0 ? "fields spelled directly" : s.second.form == 1 ? "fields spelled with an inner type" : "fields spelled with a defined type"); if (s.second.form == 2 && !s.second.write_def) c.count("fields sharing a definition"); }
  c.sample(docs[0]);
  // documents loaded earlier are unaffected by ones that fail
  for (int n = 0; n < 3; ++n) {
    std::string rule, bad = illegal(r, rule), doc = docs[r.below(docs.size())]; size_t at = std::max(doc.rfind("</template>") + 1, doc.rfind("</template >") + 1); if (!at--) return;
    if (r.chance(25)) { bad = std::string("<group name=\"badgroup\">") + bad + "</group>"; } else if (r.chance(25)) bad = std::string("<sequence name=\"badseq\" presence=\"optional\"><length name=\"l\"/>") + bad + "</sequence>";
    doc.insert(at, bad);
    try { template_registry own; std::vector<std::unique_ptr<dynamic_templates_description>> before; for (auto &x : docs) before.emplace_back(new dynamic_templates_description(x.c_str(), "", &own)); dynamic_templates_description x(doc.c_str(), "", &own); c.fail("accepted: " + rule, bad); }
    catch (CaseFailed &) { throw; } catch (std::exception &) { c.count("illegal documents rejected"); c.count("rejected: " + rule); c.evaluated(hash_str(bad)); }
  }
  for (size_t d = 0; d < docs.size(); ++d) for (size_t k = 0; k < g.sc.docs[d].tmpl.size(); ++k) if (desc_template(g.sc.t[g.sc.docs[d].tmpl[k]], g.sc.docs[d]) != Describe::tmpl((*desc[d])[k])) c.fail("a template changed after it was loaded", all);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
