// C18: any text given as a template document loads to something usable or is
// rejected, and documents loaded before stay as they were.
#include "docgen.h"
#include "genmsg.h"
#include "runner.h"
#include <mfast/coder/fast_encoder.h>
#include <mfast/coder/fast_decoder.h>
#include <mfast/view_iterator.h>
using namespace vf;
using namespace mfast;
extern "C" int __lsan_do_recoverable_leak_check();
// ---- hostile documents
struct Mangle {
  Rng &r;
  static const std::vector<std::string> &words() {
    static const std::vector<std::string> w = {"templates", "template", "define", "view", "field", "reference", "type", "typeRef", "templateRef", "group", "sequence", "length", "int32", "uInt32", "int64", "uInt64", "decimal", "exponent", "mantissa", "string", "byteVector", "int32Vector", "uInt32Vector", "int64Vector", "uInt64Vector", "boolean", "enum", "element", "set", "constant", "default", "copy", "increment", "delta", "tail", "none", "timestamp", "x:y", "T0", "T1", "T2", "D0", "D1", "D2", "D3", "mfast:tag", "__length__"};
    return w; }
  static const std::vector<std::string> &attrs() { static const std::vector<std::string> a = {"name", "id", "ns", "templateNs", "dictionary", "presence", "charset", "value", "key", "reset", "scp:reset", "reference", "mfast:tag", "xmlns", "length"}; return a; }
  std::string value() {
    switch (r.below(12)) {
    case 0: return ""; case 1: return r.pick(words()); case 2: return std::to_string(r.range(-3, 70)); case 3: { static const char *v[] = {"2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "1e400", "1e63", "-1e-63", "1e64", "0.0000001", "nan", "inf", "0x1F", "1 2", "+5", " 7", "1e-99999", "99999999999999999999e0"}; return v[r.below(24)]; }
    case 4: { std::string s; for (size_t i = 0, n = r.below(40); i < n; ++i) { char c = (char)r.below(256); if (c && c != '"' && c != '<' && c != '&') s += c; } return s; }
    case 5: return std::string(r.below(r.chance(5) ? 70000 : 600), r.chance(50) ? 'a' : '7'); case 6: return r.chance(50) ? "optional" : "mandatory"; case 7: return r.chance(50) ? "unicode" : "ascii"; case 8: return r.chance(50) ? "global" : r.chance(50) ? "template" : "type";
    case 9: { static const char *v[] = {"abcdef", "ab", "a", "zz", "12 34", "0xAB", "ab-cd", "\xC3\xA4", "-", "%s%n", "true", "false", "A"}; return v[r.below(13)]; }
    case 10: { std::string s; for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) { s += (r.chance(50) ? std::string(1, "idlsganbx"[r.below(9)]) + std::to_string(r.below(8)) : r.pick(words())); s += r.chance(30) ? "[" + (r.chance(20) ? std::string(r.chance(50) ? "" : "-1") : r.chance(20) ? "4294967295" : std::to_string(r.below(4))) + (r.chance(95) ? "]" : "") : ""; if (i + 1 < n) s += r.chance(95) ? "." : "["; } return s; }
    default: return std::string(1, "tdo"[r.below(3)]) + std::to_string(r.below(8)); }
  }
  std::string attr() { return " " + r.pick(attrs()) + "=\"" + value() + "\""; }
  std::string elem(int depth) {
    std::string t = r.pick(words()), s = "<" + t; for (size_t i = 0, n = r.below(4); i < n; ++i) s += attr();
    if (r.chance(30)) s += " name=\"" + std::string(1, "idlsganbx"[r.below(9)]) + std::to_string(r.below(8)) + "\"";
    if (depth > 3 || r.chance(40)) return s + "/>";
    s += ">"; for (size_t i = 0, n = r.below(4); i < n; ++i) s += elem(depth + 1);
    return s + "</" + t + ">";
  }
  struct Tag { size_t b, e; bool close, self; std::string name; };
  static std::vector<Tag> tags(const std::string &d) {
    std::vector<Tag> v; size_t i = 0;
    while ((i = d.find('<', i)) != std::string::npos) { if (d.compare(i, 4, "<!--") == 0) { size_t e = d.find("-->", i); if (e == std::string::npos) break; i = e + 3; continue; } size_t e = d.find('>', i); if (e == std::string::npos) break; Tag t; t.b = i; t.e = e + 1; t.close = d[i + 1] == '/'; t.self = d[e - 1] == '/'; size_t n = i + 1 + t.close; size_t m = d.find_first_of(" \t\n/>", n); t.name = d.substr(n, m - n); if (d[i + 1] != '?') v.push_back(t); i = e + 1; }
    return v;
  }
  // [b, e) of the whole element that starts with tag k
  static bool extent(const std::vector<Tag> &t, size_t k, size_t &b, size_t &e) { if (t[k].close) return false; b = t[k].b; if (t[k].self) { e = t[k].e; return true; } int n = 0; for (size_t j = k; j < t.size(); ++j) { if (t[j].self) continue; n += t[j].close ? -1 : 1; if (n == 0) { e = t[j].e; return true; } } return false; }
  void structure(std::string &d) {
    auto t = tags(d); if (t.empty()) return; size_t k = r.below(t.size()), b, e;
    switch (r.below(12)) {
    case 0: if (extent(t, k, b, e)) d.erase(b, e - b); break;
    case 1: if (extent(t, k, b, e) && e - b < 3000) { std::string x = d.substr(b, e - b); d.insert(b, x); } break;
    case 2: if (extent(t, k, b, e) && e - b < 3000) { std::string x = d.substr(b, e - b); size_t j = r.below(t.size()); d.insert(r.chance(50) ? t[j].b : t[j].e, x); } break; // copied elsewhere
    case 3: d.insert(r.chance(50) ? t[k].b : t[k].e, elem(0)); break;
    case 4: { std::string w = r.pick(words()); if (t[k].self || t[k].close || !extent(t, k, b, e)) { if (t[k].close) break; d.replace(t[k].b + 1, t[k].name.size(), w); break; } std::string x = d.substr(b, e - b); size_t c = x.rfind("</"); x.replace(c + 2, t[k].name.size(), w); x.replace(1, t[k].name.size(), w); d.replace(b, e - b, x); break; }
    case 5: if (!t[k].close) { size_t at = t[k].b + 1 + t[k].name.size(); d.insert(at, attr()); } break;
    case 6: case 7: { size_t q = d.find("=\"", t[k].b); if (q == std::string::npos || q >= t[k].e) break; std::vector<size_t> qs; for (; q != std::string::npos && q < t[k].e; q = d.find("=\"", q + 2)) qs.push_back(q); q = r.pick(qs) + 2; size_t z = d.find('"', q); if (z != std::string::npos) d.replace(q, z - q, value()); break; }
    case 8: { size_t q = d.find("=\"", t[k].b); if (q == std::string::npos || q > t[k].e) break; size_t n = d.find_last_of(" \n", q); if (n == std::string::npos || n < t[k].b) break; if (r.chance(50)) { size_t z = d.find('"', q + 2); if (z != std::string::npos) d.erase(n, z + 1 - n); } else d.replace(n + 1, q - n - 1, r.pick(attrs())); break; }
    case 9: if (!t[k].close && !t[k].self) d.insert(t[k].e, elem(1)); break;
    case 10: if (extent(t, k, b, e)) { std::string w = r.pick(words()); d.insert(e, "</" + w + ">"); d.insert(b, "<" + w + (r.chance(50) ? attr() : "") + ">"); } break; // wrapped
    default: if (extent(t, k, b, e)) { size_t j = r.below(t.size()), b2, e2; if (extent(t, j, b2, e2) && (e2 <= b || e <= b2) && e - b < 3000 && e2 - b2 < 3000) { std::string x = d.substr(b, e - b), y = d.substr(b2, e2 - b2); if (b > b2) { std::swap(b, b2); std::swap(e, e2); std::swap(x, y); } d.replace(b2, e2 - b2, x); d.replace(b, e - b, y); } } break; }
  }
  void bytes(std::string &d) {
    if (d.empty()) return; size_t a = r.below(d.size()), n = 1 + r.below(r.chance(70) ? 4 : 80);
    switch (r.below(6)) { case 0: d.erase(a, n); break; case 1: d.insert(a, std::string(n, "<>/\"'=&;[]! \n\xff\x80" [r.below(15)])); break; case 2: d[a] = (char)(1 + r.below(255)); break; case 3: d.resize(a); break; case 4: d.insert(r.below(d.size()), d.substr(a, n)); break; default: for (size_t i = 0; i < n && a + i < d.size(); ++i) d[a + i] ^= (char)(1 << r.below(7)); for (auto &c : d) if (!c) c = ' '; }
  }
  std::string deep() { // nested deeper than usual
    static const char *w[] = {"group", "sequence", "field", "define", "template", "decimal"}; std::string t = w[r.below(r.chance(60) ? 2 : 6)], s, e; size_t n = 2 + r.below(r.chance(10) ? 600 : 40); for (size_t i = 0; i < n; ++i) { s += "<" + t + " name=\"n" + std::to_string(i) + "\">"; e += "</" + t + ">"; } return s + elem(2) + e; }
};
// ---- using whatever was loaded
struct User {
  Rng &r; Ctx &c; int budget = 3000; allocator *al; std::string text;
  void fill(const field_mref &f, int depth) {
    if (--budget < 0) return;
    if (f.optional() && r.chance(25)) { f.omit(); return; }
    switch (f.field_type()) {
    case field_type_int32: { int32_mref m(f); if (!is_const(f)) m.as((int32_t)r.next()); break; } case field_type_uint32: { uint32_mref m(f); if (!is_const(f)) m.as((uint32_t)r.next()); break; }
    case field_type_int64: { int64_mref m(f); if (!is_const(f)) m.as((int64_t)r.next()); break; } case field_type_uint64: { uint64_mref m(f); if (!is_const(f)) m.as(r.next()); break; }
    case field_type_decimal: case field_type_exponent: { decimal_mref m(f); if (!is_const(f)) m.as(r.range(-1000, 1000), (int16_t)r.range(-9, 9)); break; }
    case field_type_ascii_string: { ascii_string_mref m(f); if (!is_const(f)) m.as("abc"); break; } case field_type_unicode_string: { unicode_string_mref m(f); if (!is_const(f)) m.as("\xC3\xA4"); break; } case field_type_byte_vector: { byte_vector_mref m(f); if (!is_const(f)) { unsigned char b[3] = {0, 255, 7}; m.assign(b, b + r.below(4)); } break; }
    case field_type_int32_vector: { int32_vector_mref m(f); m.resize(r.below(4)); break; } case field_type_uint32_vector: { uint32_vector_mref m(f); m.resize(r.below(4)); break; } case field_type_int64_vector: { int64_vector_mref m(f); m.resize(r.below(4)); break; } case field_type_uint64_vector: { uint64_vector_mref m(f); m.resize(r.below(4)); break; }
    case field_type_group: { group_mref g(f); fields(g, depth + 1); break; }
    case field_type_sequence: { sequence_mref s(f); auto *len = s.instruction()->length_instruction(); s.resize(len && len->field_operator() == operator_constant ? std::min<uint32_t>(len->initial_value().get<uint32_t>(), 5000) : depth > 4 ? 1 : r.below(3)); for (size_t i = 0; i < s.size(); ++i) fields(s[i], depth + 1); break; }
    case field_type_enum: { enum_mref e(f); auto *in = e.instruction(); if (!is_const(f) && in->num_elements()) { uint64_t k = r.below(in->num_elements()); e.as(in->element_values() ? in->element_values()[k] : k); (void)e.value_name(); } break; }
    default: break; }
  }
  static bool is_const(const field_mref &f) { return f.instruction()->field_operator() == operator_constant; }
  template <class A> void fields(const A &a, int depth) { for (size_t i = 0; i < a.num_fields() && budget > 0; ++i) fill(a[i], depth); }
  void use(const dynamic_templates_description &d) {
    const templates_description *p = &d; std::string all;
    for (size_t k = 0; k < d.size(); ++k) { all += Describe::tmpl(d[k]); (void)d.instruction_with_id(d[k]->id()); }
    for (auto *x : d.defined_type_instructions()) all += Describe::field(x, 0);
    for (auto &v : d.view_infos()) all += v.name_;
    c.count("bytes of descriptions read", all.size());
    fast_encoder enc; fast_decoder dec; try { enc.include(&p, 1); dec.include(&p, 1); } catch (fast_error &) { c.count("descriptions refused by the coders"); return; }
    for (size_t k = 0; k < d.size() && k < 6; ++k) {
      message_type m(al, d[k]); fields(m.mref(), 0); c.count("messages made");
      for (auto &v : d.view_infos()) if (v.instruction_ == d[k]) { view_iterator i(m.cref(), v.data_.begin(), v.max_depth_), e(v.data_.end() - 1); for (; i != e; ++i) if ((*i).present()) c.count("fields presented by views"); }
      message_type copy(m.cref(), al); if (!(copy.cref() == m.cref())) c.fail("a copy differs", text);
      std::vector<char> buf;
      try { enc.encode(m.cref(), buf, k == 0); } catch (fast_error &) { c.count("messages not encodable"); return; }
      c.count("messages encoded");
      if (buf.empty() || (d[k]->subinstructions().size() == 0 && buf.size() < 1)) continue;
      try { const char *b = buf.data(), *e = b + buf.size(); auto got = dec.decode(b, e, k == 0); if (b != e) c.fail("bytes left after decoding", text); (void)(got == m.cref()); c.count("messages decoded"); }
      catch (fast_error &) { c.count("messages not decodable"); return; }
    }
  }
};
static void one(Ctx &c) {
  Rng &r = c.rng; GenCfg cfg; cfg.max_docs = 2; cfg.max_templates = 3; cfg.max_fields = 5; cfg.unnamed_pct = r.chance(30) ? 30 : 0;
  DocGen g(r, make_schema(r, cfg)); std::vector<std::string> docs = g.write(); Mangle m{r}; malloc_allocator ma;
  template_registry reg; std::vector<std::unique_ptr<dynamic_templates_description>> good; std::string before;
  for (auto &x : docs) good.emplace_back(new dynamic_templates_description(x.c_str(), "", &reg));
  for (auto &x : good) for (size_t k = 0; k < x->size(); ++k) before += Describe::tmpl((*x)[k]);
  std::vector<std::unique_ptr<dynamic_templates_description>> loaded;
  for (int n = 0, tries = 3; n < tries; ++n) {
    std::string d;
    switch (r.below(8)) {
    case 0: { DocGen h(r, make_schema(r, cfg)); d = h.write()[0]; break; } // other templates of the same names
    case 1: d = "<templates" + m.attr() + ">"; for (size_t i = 0, k = 1 + r.below(4); i < k; ++i) { d += r.chance(50) ? m.elem(0) : "<template name=\"T" + std::to_string(r.below(4)) + "\" id=\"" + std::to_string(r.below(9)) + "\">" + m.elem(0) + m.elem(1) + "</template>"; } d += "</templates>"; break;
    default: d = r.pick(docs); }
    if (r.chance(30)) { size_t at = d.rfind("</templates"); if (at != std::string::npos) { std::string v = "<view name=\"v\" reference=\"T" + std::to_string(r.below(3)) + "\">"; for (size_t i = 0, k = r.below(4); i < k; ++i) { v += "<field name=\"f\">"; for (size_t j = 0, q = r.below(r.chance(20) ? 3 : 2) + r.chance(85); j < q; ++j) v += "<reference name=\"" + m.value() + "\"/>"; v += "</field>"; } d.insert(at, v + "</view>"); } }
    if (r.chance(4)) { auto t = Mangle::tags(d); if (!t.empty()) d.insert(t[r.below(t.size())].e, m.deep()); }
    size_t k = r.chance(5) ? 0 : 1 + r.below(r.chance(70) ? 3 : 12); for (size_t i = 0; i < k; ++i) if (r.chance(85)) m.structure(d); else m.bytes(d);
    if (d.find('\0') != std::string::npos) d.erase(std::remove(d.begin(), d.end(), '\0'), d.end());
    std::unique_ptr<char[]> exact(new char[d.size() + 1]); memcpy(exact.get(), d.c_str(), d.size() + 1);
    c.evaluated(hash_str(d));
    try {
      loaded.emplace_back(new dynamic_templates_description(exact.get(), "", &reg)); c.count("documents loaded");
      exact.reset(); // the text is not needed any more
      User u{r, c, 3000, &ma, d}; try { u.use(*loaded.back()); } catch (CaseFailed &) { throw; } catch (std::bad_alloc &) { c.count("initial lengths beyond the memory"); } catch (std::exception &e) { c.fail("a loaded document cannot be used", d + "\n" + boost::diagnostic_information(e)); }
    } catch (CaseFailed &) { throw; } catch (std::exception &) { c.count("documents rejected"); }
    c.sample(d.substr(0, 400));
  }
  std::string after; for (auto &x : good) for (size_t k = 0; k < x->size(); ++k) after += Describe::tmpl((*x)[k]);
  if (before != after) c.fail("loading another document changed a description", first_difference(before, after));
  User u{r, c, 3000, &ma, docs[0]}; for (auto &x : good) u.use(*x);
  if (getenv("VF_LEAK")) { std::string lt; for (auto &x : loaded) for (size_t k = 0; k < x->size(); ++k) lt += Describe::tmpl((*x)[k]) + "--\n"; loaded.clear(); good.clear(); if (__lsan_do_recoverable_leak_check()) c.report("leak", lt); }
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
