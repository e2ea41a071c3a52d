// C15: reading any text as JSON is memory safe and ends in success or failure;
// respellings of a valid document mean the same, incomplete ones are rejected.
#include "json.h"
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;
struct Spell { // a document that says the same in other words
  Rng &r; const Schema &sc; unsigned mask; uint64_t *unknown; unsigned wsp, esc, unk, shuf;
  std::string ws() { return json_ws(r, wsp); }
  std::string num(const std::string &s) { return s; }
  std::string dec(const Value &v, bool ce) { // a literal for mantissa * 10^exponent
    Exact x = Exact::of((int64_t)v.u, v.e); std::string sg = x.neg ? "-" : ""; (void)ce;
    if (x.d.empty()) { static const char *z[] = {"0", "0.0", "-0", "0e0", "0.00"}; return z[r.below(5)]; }
    switch (r.below(4)) {
    case 0: return sg + x.d + (r.chance(50) ? "e" : "E") + (x.e >= 0 && r.chance(50) ? "+" : "") + std::to_string(x.e);
    case 1: if (x.d.size() > 1) return sg + x.d.substr(0, 1) + "." + x.d.substr(1) + "e" + std::to_string(x.e + (long long)x.d.size() - 1); // fallthrough
    default: if (x.e >= 0 && x.e < 30) return sg + x.d + std::string((size_t)x.e, '0') + (x.e < 3 && r.chance(30) ? ".0" : "");
      if (x.e < 0 && -x.e < 30) { std::string d = x.d; while ((long long)d.size() <= -x.e) d = "0" + d; d.insert(d.size() - (size_t)-x.e, "."); if (r.chance(20)) d += "0"; return sg + d; }
      return sg + x.d + "e" + std::to_string(x.e); }
  }
  std::string leaf(const Field &f, const Value &v) {
    switch (f.t) {
    case T::I32: case T::I64: return std::to_string((int64_t)v.u);
    case T::U32: case T::U64: case T::ENUM: return std::to_string(v.u);
    case T::BOOL: return v.u ? "true" : "false";
    case T::DEC: return dec(v, f.indiv);
    case T::ASCII: case T::UNI: return json_quote(r, v.s, esc);
    case T::BYTES: if (f.tag & mask) return v.s; { std::string h = "\"", d = hex(v.s, 1u << 30); bool up = r.chance(50); for (size_t i = 0; i < d.size(); ++i) { h += up ? (char)toupper(d[i]) : d[i]; if (i % 2 && r.chance(5)) h += '-'; } return h + "\""; }
    case T::VI32: case T::VU32: case T::VI64: case T::VU64: { std::string o = "[" + ws(); for (size_t i = 0; i < v.iv.size(); ++i) o += (i ? "," + ws() : "") + (is_signed_t(f.t) ? std::to_string((int64_t)v.iv[i]) : std::to_string(v.iv[i])) + ws(); return o + "]"; }
    case T::GROUP: return object(f.sub, v.elems.at(0));
    case T::SEQ: { std::string o = "[" + ws(); bool un = f.sub.size() == 1 && f.sub[0].name.empty();
      for (size_t i = 0; i < v.elems.size(); ++i) o += (i ? "," + ws() : "") + (!un ? object(f.sub, v.elems[i]) : v.elems[i][0].present ? leaf(f.sub[0], v.elems[i][0]) : std::string("null")) + ws(); return o + "]"; }
    default: return "null"; }
  }
  std::string object(const std::vector<Field> &fs, const std::vector<Value> &v) {
    std::vector<std::string> m; std::set<std::string> known;
    for (size_t i = 0; i < fs.size(); ++i) { known.insert(fs[i].name);
      if (v[i].present) m.push_back(json_quote(r, fs[i].name, esc / 2) + ws() + ":" + ws() + leaf(fs[i], v[i])); else if (r.chance(unk)) m.push_back(json_quote(r, fs[i].name, 0) + ":" + ws() + "null"); }
    while (r.chance(unk) && m.size() < 60) { std::string n = rand_str(r, T::UNI, 5); if (r.chance(30) && !fs.empty()) { n = fs[r.below(fs.size())].name; n += r.chance(50) ? std::string(1, '\0') : "x"; if (r.chance(30)) n = n.substr(1); } if (known.count(n)) continue;
      m.insert(m.begin() + (long)r.below(m.size() + 1), json_quote(r, n, esc) + ws() + ":" + ws() + rand_json(r, 3)); ++*unknown; }
    if (shuf) for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[r.below(i)]);
    std::string o = "{" + ws(); for (size_t i = 0; i < m.size(); ++i) o += (i ? "," + ws() : "") + m[i] + ws(); return o + "}";
  }
};
struct J15 {
  Ctx &c; Rng &r; World &w; const Schema &sc; unsigned mask; std::string text, shown;
  int t; const std::vector<Field> *fs; std::vector<Value> val; std::string valid;
  [[noreturn]] void bad(const std::string &k, const std::string &d = "") { c.fail(k, w.xmls + "\n" + shown + "\n" + cquote(text) + "\n" + d); }
  void usable(MT &b) { // whatever is left must be a proper object
    const MT &cb = b; std::vector<Value> v;
    try { v = read_fields(*fs, cb.cref(), sc); } catch (BridgeError &e) { bad("the message left behind is not a message of its template", e.what); }
    MT d(b); const MT &cd = d; std::string where;
    if (!same(*fs, v, read_fields(*fs, cd.cref(), sc), sc, &where)) bad("a copy of the message left behind differs", where);
    if (!(cb.cref() == cd.cref())) bad("the message left behind is not equal to its copy");
    std::ostringstream os; json::encode(os, cb.cref(), mask); c.count("messages inspected after a read");
  }
  bool read(MT &b, const std::string &s, std::string *why = nullptr) {
    std::istringstream is(s);
    try { json::decode(is, b.mref(), mask); return true; }
    catch (boost::exception &e) { if (why) *why = boost::diagnostic_information(e); } catch (std::exception &e) { if (why) *why = e.what(); }
    return false;
  }
  void must(MT &b, const std::string &s, const std::vector<Value> &want0, const char *what) {
    text = s; std::string why; if (!read(b, s, &why)) bad(std::string(what) + " is rejected", why);
    const MT &cb = b; std::vector<Value> want = want0, got = read_fields(*fs, cb.cref(), sc); canon(*fs, want, sc); canon(*fs, got, sc); std::string where;
    if (!same(*fs, want, got, sc, &where)) bad(std::string(what) + " is misread: " + where.substr(where.find('(')), where + "\nread " + show(*fs, got, sc) + "\nmeans " + show(*fs, want, sc));
    c.evaluated(hash_str(s));
  }
  std::string mutate(std::string s) {
    static const char *tok[] = {"{", "}", "[", "]", ",", ":", "\"", "null", "true", "false", "-1", "0", "1e999", "18446744073709551616", "4294967296", "9223372036854775808", "-9223372036854775809", "\\u12", "\\ud800", "\\u0000", "\\x", "\xff", "\xc3", "nul", "tru", "-", ".5", "1.5", "1e5", "99999999999999999999", "\"\"", "{}", "[]", "[[", "\"zz\"", " ", "\n"};
    for (size_t n = 1 + r.below(3); n; --n) {
      size_t i = r.below(s.size() + 1);
      switch (r.below(8)) {
      case 0: s.resize(i); break;
      case 1: if (i < s.size()) s[i] = (char)r.below(256); break;
      case 2: s.insert(i, tok[r.below(sizeof tok / sizeof *tok)]); break;
      case 3: s.erase(i, 1 + r.below(4)); break;
      case 4: { size_t k = r.below(s.size() + 1); s.insert(i, s.substr(k, r.below(12))); break; }
      case 5: case 6: { // put something else in place of a value
        size_t k = s.find(r.chance(60) ? ':' : r.chance(50) ? '[' : ',', i); if (k == std::string::npos) break; size_t e = k + 1; int d = 0; bool q = false;
        for (; e < s.size(); ++e) { if (q) { if (s[e] == '\\') ++e; else if (s[e] == '"') q = false; continue; } if (s[e] == '"') q = true; else if (s[e] == '{' || s[e] == '[') ++d; else if (s[e] == '}' || s[e] == ']') { if (!d) break; --d; } else if (s[e] == ',' && !d) break; }
        if (e > s.size()) e = s.size();
        s.replace(k + 1, e - k - 1, r.chance(50) ? std::string(tok[r.below(sizeof tok / sizeof *tok)]) : rand_json(r, 2)); break; }
      default: if (i < s.size()) s[i] = (char)(s[i] ^ (1 << r.below(8))); break; }
      if (s.size() > 200000) s.resize(1000);
    }
    return s;
  }
  void hostile(MT &b, const std::string &s, bool incomplete) {
    text = s; bool ok = read(b, s); c.count(ok ? "hostile texts accepted" : "hostile texts rejected");
    if (ok && incomplete) bad("an incomplete document is accepted");
    JParser p(s); JV j; bool json = p.value(j); // text after the document is not the reader's business
    if (json && !p.lone) {
      c.count("hostile texts that are JSON");
      JMeaning m(sc, mask); std::vector<Value> v; Sense e = j.k == JV::Obj ? m.object(*fs, j, v) : j.k == JV::Null ? Sense::Any : Sense::Bad;
      if (e == Sense::Ok) { c.count("hostile texts with a meaning"); MT n(malloc_allocator::instance(), w.inst[t]); must(r.chance(50) ? b : n, s, v, "a valid document"); }
      if (e == Sense::Bad) { c.count("hostile texts with a value of another type or range"); if (ok) { const MT &cb = b; bad("a value its field cannot hold is accepted", show(*fs, read_fields(*fs, cb.cref(), sc), sc)); } }
    }
    c.evaluated(hash_str(s)); usable(b);
  }
  void run() {
    t = (int)r.below(sc.t.size()); fs = &sc.t[t].f;
    MsgGen g(sc, r, nullptr); g.absent_pct = (unsigned)r.below(60); g.budget = 80; Message m = g.gen_message(t); embed_objects(r, *fs, m.f, mask); shown = show(m, sc);
    MT a(malloc_allocator::instance(), w.inst[t]); write_fields(*fs, m.f, a.mref(), sc, w.inst); const MT &ca = a; val = read_fields(*fs, ca.cref(), sc);
    { std::string where; if (!same(*fs, m.f, val, sc, &where)) { c.count("skipped: the message could not be built"); return; } }
    MT b(malloc_allocator::instance(), w.inst[t]); uint64_t unknown = 0;
    for (int n = 0; n < 6; ++n) {
      Spell sp{r, sc, mask, &unknown, (unsigned)r.below(3) * 25, (unsigned)r.below(3) * 30, n ? (unsigned)r.below(50) : 0, (unsigned)r.below(2)};
      valid = sp.ws() + sp.object(*fs, val); must(b, valid + (r.chance(50) ? sp.ws() : ""), val, "a respelt document"); c.count("respelt documents");
    }
    c.count("unknown members", unknown); c.sample(valid);
    Spell plain{r, sc, mask, &unknown, 5, 10, 10, 0}; valid = plain.object(*fs, val);
    for (int n = 0; n < 30; ++n) {
      if (r.chance(30)) { size_t k = r.chance(20) ? valid.size() - 1 : r.below(valid.size()); hostile(b, valid.substr(0, k), true); c.count("truncated documents"); }
      else hostile(b, mutate(valid), false);
      if (r.chance(10)) must(b, valid, val, "a document read after a failure");
    }
    if (r.chance(20)) { // what comes after the reader's document stays in the stream
      std::istringstream is(valid + " tail"); json::decode(is, b.mref(), mask); std::string rest; is >> rest; if (rest != "tail") { text = valid; bad("text after the document was consumed", rest); } }
    // sequences read on their own
    for (size_t i = 0; i < fs->size(); ++i) if ((*fs)[i].t == T::SEQ && val[i].present) {
      std::string s = plain.leaf((*fs)[i], val[i]); MT q(malloc_allocator::instance(), w.inst[t]); const MT &cq = q; text = s;
      auto rd = [&](const std::string &x) { std::istringstream is(x); try { json::decode(is, sequence_mref(q.mref()[i]), mask); return true; } catch (std::exception &) { return false; } };
      if (!rd(s)) bad("a sequence of its own is rejected");
      std::vector<Field> f1(1, (*fs)[i]); std::vector<Value> x(1, val[i]), y(1, read_field((*fs)[i], cq.cref()[i], sc)); canon(f1, x, sc); canon(f1, y, sc); std::string where;
      if (!same(f1, x, y, sc, &where)) bad("a sequence of its own is misread", where);
      for (int n = 0; n < 4; ++n) { text = s.substr(0, r.below(s.size())); if (rd(text)) bad("an incomplete sequence is accepted"); usable(q); }
      text = mutate(s); rd(text); usable(q); c.count("sequences on their own");
    }
  }
};
static void one(Ctx &c) {
  Rng &r = c.rng; World w; w.dynamic(json_schema(r));
  for (int n = 0; n < 3; ++n) { J15 j{c, r, w, w.sc, r.chance(60) ? 1u : 0u}; j.run(); }
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
