// schemagen SEED COUNT DIR: writes the documents for which types are
// generated, and for each set a file that uses the generated types: coders
// specialised for them, and functions that read and write every field through
// the typed accessors.
#include "cppschema.h"
#include <cstdio>
#include <cstdlib>
using namespace vf;
static bool only_tref(const Field &f) { return f.sub.size() == 1 && f.sub[0].t == T::TREF; }
struct Emit {
  std::string out; int n = 0;
  static std::string S(size_t x) { return std::to_string(x); }
  // the functions for one aggregate; returns their number
  int aggregate(const std::vector<Field> &fs) {
    std::string rd, wr;
    for (size_t i = 0; i < fs.size(); ++i) {
      const Field &f = fs[i]; std::string I = S(i), nm = f.t == T::TREF ? "nested_message" + I : f.name, o = f.optional ? "true" : "false";
      std::string get = "m.get_" + nm + "()", tr = "[&] { (void)m.try_get_" + nm + "(); }";
      std::string omit = f.optional ? "m.omit_" + nm + "()" : "k.bad(m, " + I + ", \"a mandatory field has no value\")";
      rd += "  k.try_get(m, " + I + ", " + tr + ");\n";
      if (f.t == T::GROUP && only_tref(f)) {
        rd += "  k.sole(m, " + I + ", " + get + "); v.push_back(k.generic(m, " + I + "));\n";
        wr += "  if (!v[" + I + "].present) " + omit + "; else { m.set_" + nm + "(); k.generic(m, " + I + ", v[" + I + "]); }\n";
      } else if (f.t == T::GROUP) {
        int s = aggregate(f.sub);
        rd += "  { auto x = " + get + "; k.group(m, " + I + ", x); Value g; g.present = x.present(); if (g.present) { g.elems.emplace_back(); R" + S(s) + "(k, x, g.elems[0]); } v.push_back(g); }\n";
        wr += "  if (!v[" + I + "].present) " + omit + "; else { auto x = m.set_" + nm + "(); W" + S(s) + "(k, x, v[" + I + "].elems.at(0)); }\n";
      } else if (f.t == T::SEQ) {
        int s = aggregate(f.sub); bool sole = f.sub.size() == 1 && f.sub[0].name.empty();
        rd += "  { auto x = " + get + "; k.place(m, " + I + ", x); Value g; g.present = x.present(); if (g.present) for (size_t i = 0; i < x.size(); ++i) { g.elems.emplace_back(); " +
          (sole ? "g.elems.back().push_back(Typed::value(x[i]));" : "R" + S(s) + "(k, x[i], g.elems.back());") + " } v.push_back(g); }\n";
        wr += "  if (!v[" + I + "].present) " + omit + "; else { auto x = m.set_" + nm + "(); x.resize(v[" + I + "].elems.size()); for (size_t i = 0; i < x.size(); ++i) " +
          (sole ? "k.assign(x[i], v[" + I + "].elems[i].at(0));" : "W" + S(s) + "(k, x[i], v[" + I + "].elems[i]);") + " }\n";
      } else if (f.t == T::TREF) {
        rd += "  k.place(m, " + I + ", " + get + "); v.push_back(k.generic(m, " + I + "));\n";
        wr += "  m.set_" + nm + "(); k.generic(m, " + I + ", v[" + I + "]);\n";
      } else {
        rd += "  { auto x = " + get + "; k.place(m, " + I + ", x); v.push_back(Typed::value(x));";
        if (f.t == T::ENUM) {
          rd += " typedef typename decltype(x)::element_type E;";
          for (size_t e = 0; e < f.enum_names.size(); ++e) {
            std::string val = S(f.enum_vals.empty() ? e : f.enum_vals[e]);
            rd += " k.enumerator(m, " + I + ", (uint64_t)E::" + f.enum_names[e] + ", " + val + "ull); if (x.present()) k.is(m, " + I + ", x.is_" + f.enum_names[e] + "(), v.back().u == " + val + "ull);";
          }
        }
        if (f.t == T::BOOL) rd += " if (x.present()) { k.is(m, " + I + ", x.is_true(), v.back().u == 1); k.is(m, " + I + ", x.is_false(), v.back().u == 0); }";
        rd += " }\n";
        bool constant = f.op.op == Op::Constant && !(f.t == T::DEC && f.indiv && f.mop.op != Op::Constant);
        if (constant) wr += "  if (!v[" + I + "].present) " + omit + "; else k.generic(m, " + I + ", v[" + I + "]);\n";
        else if (f.t == T::ENUM || f.t == T::BOOL) {
          wr += "  if (!v[" + I + "].present) " + omit + "; else { auto x = m.set_" + nm + "(); if (k.flip()) k.assign(x, v[" + I + "]); else switch (v[" + I + "].u) {";
          for (size_t e = 0; e < f.enum_names.size(); ++e) { std::string val = S(f.enum_vals.empty() ? e : f.enum_vals[e]); wr += " case " + val + "ull: x.as_" + f.enum_names[e] + "(); break;"; }
          wr += " default: k.assign(x, v[" + I + "]); } }\n";
        } else wr += "  if (!v[" + I + "].present) " + omit + "; else k.assign(m.set_" + nm + "(), v[" + I + "]);\n";
      }
    }
    int id = n++;
    out += "template <class M> static void R" + S(id) + "(Typed &k, const M &m, Values &v) {\n  k.count(m, " + S(fs.size()) + ");\n" + rd + "}\n";
    out += "template <class M> static void W" + S(id) + "(Typed &k, const M &m, const Values &v) {\n" + wr + "}\n";
    return id;
  }
};
static void put(const std::string &file, const std::string &s) { FILE *f = fopen(file.c_str(), "w"); if (!f) exit(2); fwrite(s.data(), 1, s.size(), f); fclose(f); }
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  uint64_t seed = strtoull(argv[1], 0, 10); int n = atoi(argv[2]); std::string dir = argv[3];
  std::string all = "#include \"world.h\"\nnamespace vf {\n", tab;
  for (int i = 0; i < n; ++i) {
    Schema sc = cpp_schema(seed, i);
    std::string I = std::to_string(i), inc, inst, entries; Emit e;
    for (size_t d = 0; d < sc.xml.size(); ++d) {
      std::string base = "g" + I + "d" + std::to_string(d);
      put(dir + "/" + base + ".xml", sc.xml[d]); inc += "#include \"" + base + ".cpp\"\n"; inst += std::string(d ? ", " : "") + base + "::templates_description::instance()";
    }
    for (size_t t = 0; t < sc.t.size(); ++t) {
      int d = 0; for (size_t k = 0; k < sc.docs.size(); ++k) for (int x : sc.docs[k].tmpl) if (x == (int)t) d = (int)k;
      std::string cls = "::g" + I + "d" + std::to_string(d) + "::" + sc.t[t].name, id = std::to_string(e.aggregate(sc.t[t].f));
      entries += "  {[](allocator *a) -> std::shared_ptr<message_type> { return std::make_shared<" + cls + ">(a); },\n"
        "   [](Typed &k, const message_cref &m, Values &v) { R" + id + "(k, " + cls + "_cref(m), v); },\n"
        "   [](Typed &k, const message_mref &m, const Values &v) { W" + id + "(k, " + cls + "_mref(m), v); },\n"
        "   [](Typed &k, message_type &o, const Values &v) { W" + id + "(k, static_cast<" + cls + " &>(o).mref(), v); },\n"
        "   [](Typed &k, message_type &o, Values &v) { R" + id + "(k, static_cast<" + cls + " &>(o).cref(), v); },\n"
        "   [](const message_cref &m, allocator *a) -> std::shared_ptr<message_type> { return std::make_shared<" + cls + ">(" + cls + "_cref(m), a); },\n"
        "   [] { return (const template_instruction *)" + cls + "::instruction(); }, (uint32_t)" + cls + "::the_id},\n";
    }
    std::string g = inc + "#include <mfast/coder/fast_encoder_v2.h>\n#include <mfast/coder/fast_decoder_v2.h>\n#include \"typed.h\"\nnamespace {\nusing namespace vf; using namespace mfast;\n" + e.out +
      "const GenTyped typed[] = {\n" + entries + "};\n"
      "struct Dec0 : AnyDecoder { fast_decoder_v2<0> d; Dec0(allocator *a) : d(a, " + inst + ") {} message_cref decode(const char *&p, const char *e, bool r) override { return d.decode(p, e, r); } };\n"
      "template <unsigned N> struct Dec : AnyDecoder { fast_decoder_v2<N> d; size_t k = 0; Dec(allocator *a) : d(a, " + inst + ") {} message_cref decode(const char *&p, const char *e, bool r) override { return d.decode(k++ % N, p, e, r); }\n"
      "  bool changeable() const override { return true; } message_mref decode(size_t t, const char *&p, const char *e, bool r) override { return d.decode(t, p, e, r); } };\n"
      "struct Enc : AnyEncoder { fast_encoder_v2 d; Enc(allocator *a) : d(a, " + inst + ") {} size_t encode(const message_cref &m, char *b, size_t n, bool r) override { return d.encode(m, b, n, r); } void encode(const message_cref &m, std::vector<char> &v, bool r) override { d.encode(m, v, r); } void overlong(bool v) override { d.allow_overlong_pmap(v); } };\n"
      "std::unique_ptr<AnyDecoder> mk_dec(allocator *a, int kind) { return std::unique_ptr<AnyDecoder>(kind == 0 ? (AnyDecoder *)new Dec0(a) : (AnyDecoder *)new Dec<3>(a)); }\n"
      "std::unique_ptr<AnyEncoder> mk_enc(allocator *a) { return std::unique_ptr<AnyEncoder>(new Enc(a)); }\n}\n"
      "namespace vf { extern const GenEntry gen_entry_" + I + "; const GenEntry gen_entry_" + I + " = {[] { return std::vector<const templates_description *>{" + inst + "}; }, mk_dec, mk_enc, typed}; }\n";
    put(dir + "/glue_" + I + ".cpp", g);
    all += "extern const GenEntry gen_entry_" + I + ";\n"; tab += std::string(i ? ", " : "") + "&gen_entry_" + I;
  }
  all += "extern const GenEntry *const gen_entries[]; extern const int gen_count; extern const unsigned long long gen_seed;\nconst GenEntry *const gen_entries[] = {" + tab + "}; const int gen_count = " + std::to_string(n) + "; const unsigned long long gen_seed = " + std::to_string(seed) + "ull;\n}\n";
  put(dir + "/gen_all.cpp", all);
  return 0;
}
