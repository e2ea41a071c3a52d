// C16: decimals and integers keep their numeric value through text, big
// decimals and floating point; text that denotes no value is rejected.
#include "json.h"
#include <mfast/output.h>
#include <cmath>
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;
static int64_t rand_m(Rng &r) {
  switch (r.below(6)) {
  case 0: return (int64_t)rand_int(r, T::I64);
  case 1: { int64_t v = 1 + (int64_t)r.below(9); for (size_t n = r.below(19); n && v < INT64_MAX / 10; --n) v = v * 10 + (r.chance(70) ? 0 : (int64_t)r.below(10)); return r.chance(50) ? -v : v; }
  case 2: { int64_t p = 1; for (size_t n = r.below(19); n; --n) p *= 10; p += r.range(-2, 2); return r.chance(50) ? -p : p; }
  case 3: return r.chance(50) ? INT64_MAX - (int64_t)r.below(200) : INT64_MIN + (int64_t)r.below(200);
  case 4: return r.range(-1000, 1000);
  default: { uint64_t x = r.next() >> r.below(64); return (int64_t)x; } }
}
static int rand_e(Rng &r) { return (int)(r.chance(50) ? r.range(-10, 10) : r.range(-63, 63)); }
// text of a number, sometimes one that no field can hold
static std::string rand_literal(Rng &r) {
  std::string s; if (r.chance(40)) s += r.chance(80) ? "-" : "+";
  auto digits = [&](size_t n) { std::string d; bool z = r.chance(40); for (size_t i = 0; i < n; ++i) d += (char)(z && r.chance(80) ? '0' : '0' + r.below(10)); return d; };
  s += r.chance(20) ? digits(1 + r.below(40)) : digits(1 + r.below(20));
  if (r.chance(15)) s = (s[0] == '-' ? "-" : "") + std::to_string((uint64_t)INT64_MAX + r.below(5)) + (r.chance(50) ? std::string(r.below(5), '0') : "");
  if (r.chance(60)) s += "." + (r.chance(20) ? digits(r.below(60)) : digits(1 + r.below(10)));
  if (s.back() == '.') s += "0";
  if (r.chance(40)) { s += r.chance(50) ? "e" : "E"; if (r.chance(60)) s += r.chance(70) ? "-" : "+"; s += r.chance(85) ? std::to_string(r.below(70)) : r.chance(50) ? std::to_string(r.below(40000)) : "99999999999"; }
  return s;
}
// written with at most 18 digits and an exponent that FAST can transmit
static bool plain(const std::string &s) {
  size_t n = 0, frac = 0, i = s[0] == '-'; bool dot = false; for (; i < s.size() && s[i] != 'e' && s[i] != 'E'; ++i) { if (s[i] == '.') dot = true; else if (isdigit((unsigned char)s[i])) { ++n; frac += dot; } else return false; }
  long e = i < s.size() ? strtol(s.c_str() + i + 1, nullptr, 10) : 0; return n <= 18 && e <= 63 && e - (long)frac >= -63;
}
struct C16 {
  Ctx &c; Rng &r; std::string xml; std::unique_ptr<dynamic_templates_description> d; int ce; std::unique_ptr<MT> m;
  explicit C16(Ctx &x) : c(x), r(x.rng) {
    ce = (int)r.range(-12, 12); if (r.chance(10)) ce = (int)r.range(-63, 63);
    xml = "<templates xmlns=\"http://www.fixprotocol.org/ns/template-definition\"><template name=\"T\" id=\"1\"><decimal name=\"a\"/><decimal name=\"b\" presence=\"optional\"><copy/></decimal>"
      "<decimal name=\"c\"><exponent><constant value=\"" + std::to_string(ce) + "\"/></exponent><mantissa><delta/></mantissa></decimal><decimal name=\"d\" presence=\"optional\"><exponent><copy/></exponent></decimal><decimal name=\"e\" presence=\"optional\"><exponent><constant value=\"" + std::to_string(ce) + "\"/></exponent></decimal>"
      "<int32 name=\"i\"/><uInt32 name=\"u\"/><int64 name=\"l\"/><uInt64 name=\"m\"/></template></templates>";
    d.reset(new dynamic_templates_description(xml.c_str())); m.reset(new MT(malloc_allocator::instance(), (*d)[0]));
  }
  [[noreturn]] void bad(const std::string &k, const std::string &w) { c.fail(k, w + "\nconstant exponent " + std::to_string(ce)); }
  bool fixed(size_t f) { return f == 2 || f == 4; }
    // the fields of a message, or values on their own
  std::unique_ptr<char[]> mem[5]; decimal_type *own[5] = {};
  ~C16() { for (auto p : own) if (p) p->~decimal_type(); }
  void alone() {
    for (size_t f = 0; f < 5; ++f) {
      mem[f].reset(new char[sizeof(decimal_type)]); memset(mem[f].get(), (int)r.below(256), sizeof(decimal_type));
      auto *di = static_cast<const decimal_field_instruction *>((*d)[0]->subinstruction(f)); own[f] = new (mem[f].get()) decimal_type(nullptr, di);
      decimal_cref q(cf(f)), w((*m).cref()[f]); if (q.present() != w.present() || (q.present() && !(q == w))) bad("a value on its own is not made like a field", std::to_string(f));
    }
    memset(buf.get(), (int)r.below(256), sizeof(decimal_type)); decimal_type *p = new (buf.get()) decimal_type; decimal_cref q(static_cast<const decimal_type *>(p)->cref());
    if (!q.present() || q.mantissa() != 0 || q.exponent() != 0) bad("a new decimal is not zero", rep_of(q)); p->mref().as(25, -1); if (q.mantissa() != 25 || q.exponent() != -1) bad("a decimal on its own cannot be assigned", rep_of(q)); p->~decimal_type();
    c.count("decimals on their own");
  }
  std::unique_ptr<char[]> buf{new char[sizeof(decimal_type)]};
  static std::string rep_of(const decimal_cref &x) { return std::to_string(x.mantissa()) + "e" + std::to_string(x.exponent()); }
  decimal_mref fld(size_t f) { if (own[f]) return own[f]->mref(); return decimal_mref(m->mref()[f]); }
  decimal_cref cf(size_t f) { if (own[f]) return static_cast<const decimal_type *>(own[f])->cref(); return decimal_cref(m->cref()[f]); }
  Exact got(size_t f) { decimal_cref x(cf(f)); return Exact::of(x.mantissa(), x.exponent()); }
  std::string rep(size_t f) { decimal_cref x(cf(f)); return std::to_string(x.mantissa()) + "e" + std::to_string(x.exponent()); }
  // the field holds x, exactly; fields with a constant exponent keep it
  void holds(size_t f, const Exact &x, const std::string &how, const std::string &in) {
    decimal_cref q(cf(f)); if (!q.present()) bad("absent after " + how, in);
    if (fixed(f) && q.exponent() != ce) bad("constant exponent changed by " + how, in + " -> " + rep(f));
    if (!(got(f) == x)) bad("value changed by " + how, in + " -> " + rep(f));
    c.evaluated(hash_str(how + in + (fixed(f) ? std::to_string(ce) : "")));
  }
  bool can(size_t f, const Exact &x) { return fixed(f) ? x.decimal(ce, ce) : x.decimal(-63, 63); }
  // digits that a constant exponent cannot hold are dropped: that is what such a field is
  bool lossy(size_t f, const Exact &x) { return fixed(f) && !x.d.empty() && x.e < ce; }
  void decimals() {
    int64_t mant = rand_m(r); int e = rand_e(r); Exact x = Exact::of(mant, e); std::string in = std::to_string(mant) + "e" + std::to_string(e);
    size_t f = r.below(5); auto q = fld(f);
    if (fixed(f) && !can(f, x)) { if (lossy(f, x)) return; try { q.as(mant, (int16_t)e); } catch (std::exception &) { c.count("values a constant exponent cannot hold"); return; } bad("a value out of range was stored in a field with constant exponent", in + " -> " + rep(f)); }
    q.as(mant, (int16_t)e); holds(f, x, "as(mantissa, exponent)", in); if (!fixed(f) && (q.mantissa() != mant || q.exponent() != e)) bad("as(mantissa, exponent) stored another representation", in + " -> " + rep(f));
    decimal_cref cr(cf(f)); c.count(fixed(f) ? "decimals with constant exponent" : "decimals");
    std::string t = cr.to_string(); if (!(Exact::literal(t) == x) || t.find_first_not_of("-0123456789.") != std::string::npos) bad("to_string", in + " -> " + t);
    { std::ostringstream os; os << std::setprecision(60) << cr; std::string s = os.str(); if (!(Exact::literal(s) == x)) bad("operator<<", in + " -> " + s); }
    decimal dv = cr.value(); if (!(Exact::literal(dv.str(60, std::ios_base::fmtflags(0))) == x)) bad("value()", in + " -> " + dv.str(60, std::ios_base::fmtflags(0)));
    if (!(make_decimal(mant, (int16_t)e) == dv)) bad("make_decimal", in);
    { double y = (double)cr, z = strtod(in.c_str(), nullptr); if (!(std::fabs(y - z) <= 8e-16 * std::fabs(z))) { std::ostringstream os; os << std::setprecision(20) << y << " for " << z; bad("conversion to double", in + " -> " + os.str()); } }
    // back from text and from the big decimal, into fields of every kind
    for (size_t g = 0; g < 5; ++g) {
      if (!can(g, x)) continue; auto p = fld(g);
      p.as(-77, (int16_t)(fixed(g) ? ce : 3)); if (r.chance(30)) p.omit();
      if (r.chance(50)) p.as(t.c_str()); else p.as(t); holds(g, x, "to_string and as(text)", in);
      p.as(dv); holds(g, x, "value() and as(decimal)", in);
      p.as(cr); holds(g, x, "as(decimal field)", in);
      if (g != f) { field_mref fm(fld(g)); fm.as(dv); holds(g, x, "untyped assignment of a decimal", in); }
      p.as(mant, (int16_t)e); p.normalize(); holds(g, x, "normalize()", in);
      if (!fixed(g) && p.mantissa() % 10 == 0 && p.mantissa() != 0 && p.exponent() < 63) bad("normalize() left trailing zeros", in + " -> " + rep(g));
      decimal_value_storage st; std::istringstream is(t); is >> st; if (!is && !is.eof()) bad("operator>> of a value", t); if (is.fail() || !(Exact::of(st.mantissa(), st.exponent()) == x)) bad("operator>> of a value", t);
      std::ostringstream os; os << st; if (!(Exact::literal(os.str()) == x)) bad("operator<< of a value", t + " -> " + os.str());
    }
  }
  void literal() {
    std::string s = rand_literal(r); Exact x = Exact::literal(s); size_t f = r.below(5); auto q = fld(f); q.as(5, (int16_t)(fixed(f) ? ce : 0));
    bool threw = false; std::string why; try { if (r.chance(70)) q.as(s.c_str()); else q.as(s); } catch (std::exception &e) { threw = true; why = e.what(); }
    Exact probe = x; bool any = !fixed(f) && !x.decimal(-63, 63) && x.decimal(-32768, 32767); // outside what FAST can transmit: refused or exact
    bool text_ok = x.decimal(-32768, 32767) && !(x.d.empty() && s.find_first_of("eE") != std::string::npos && std::abs(strtol(s.c_str() + s.find_first_of("eE") + 1, nullptr, 10)) > 32767); // the text itself can be read
    if (fixed(f) && lossy(f, x)) { if (!text_ok && !threw && !(got(f) == x)) c.count("texts with more digits than a constant exponent holds"); return; }
    if (can(f, x) && text_ok) { c.count("literals of values"); if (threw) { if (s[0] == '+') return; bad("text of a value is rejected", s + ": " + why); } holds(f, x, "as(text)", s); }
    else { c.count("literals of no value"); if (!threw && !(got(f) == x)) bad("text of no value is misread", s + " -> " + rep(f)); if (!threw && !any) bad("text of no value is accepted", s + " -> " + rep(f)); c.evaluated(hash_str(s)); }
    (void)probe;
  }
  void garbage() {
    std::string s = r.chance(60) ? rand_literal(r) : std::to_string((int64_t)rand_m(r)); static const char *junk[] = {"x", ".", "..", "-", "e", " 1", ",5", "'", "e+", "1e", "0x1", "nan", "inf", "/", ":"};
    if (r.chance(20)) s = junk[r.below(15)]; else { size_t i = r.below(s.size() + 1); s.insert(i, junk[r.below(15)]); }
    if (r.chance(5)) s = "";
    JParser p(s); JV j; bool num = p.document(j) && j.k == JV::Num; // a plain number after all
    std::string z = s; while (!z.empty() && z[0] == '+') z.erase(0, 1); while (!z.empty() && z.find_first_not_of("-0") == z.find_first_of("123456789") && z.size() > 1 && z[0] == '0' && isdigit((unsigned char)z[1])) z.erase(0, 1); JParser p2(z); JV j2; num = num || (p2.document(j2) && j2.k == JV::Num);
    if (num) return;
    if (s.find_first_not_of("+-0123456789.eE \tx,'/:naif") != std::string::npos) return;
    // number forms that are read although JSON has no such spelling: leading zeros, a trailing point
    { std::string y = s; size_t i = 0; if (i < y.size() && (y[i] == '-' || y[i] == '+')) ++i; while (i < y.size() && isspace((unsigned char)y[i]) && i == 0) ++i; size_t b = i; while (i < y.size() && isdigit((unsigned char)y[i])) ++i; bool ok = i > b; if (i < y.size() && y[i] == '.') { ++i; while (i < y.size() && isdigit((unsigned char)y[i])) ++i; } if (i < y.size() && (y[i] == 'e' || y[i] == 'E')) { ++i; if (i < y.size() && (y[i] == '-' || y[i] == '+')) ++i; size_t k = i; while (i < y.size() && isdigit((unsigned char)y[i])) ++i; ok = ok && i > k; } while (i < y.size() && isspace((unsigned char)y[i])) ++i; if (ok && i == y.size()) return; }
    if (!s.empty() && isspace((unsigned char)s[0])) return;
    size_t f = r.below(2); auto q = fld(f); q.as(5, 0);
    try { if (r.chance(50)) q.as(s.c_str()); else q.as(s); } catch (std::exception &) { c.count("texts that are no numbers"); c.evaluated(hash_str("g" + s)); return; }
    bad("text that is no number is accepted", cquote(s) + " -> " + rep(f));
  }
  void integers() {
    int64_t v = (int64_t)rand_int(r, T::I64); uint64_t u = rand_int(r, T::U64); size_t f = r.below(5); auto q = fld(f); q.as(5, (int16_t)(fixed(f) ? ce : 0));
    Exact x = Exact::of(v, 0); std::string in = std::to_string(v);
    auto put = [&](const char *how, const Exact &y, const std::string &s, const std::function<void()> &go) {
      if (lossy(f, y)) return; bool threw = false; try { go(); } catch (std::exception &) { threw = true; }
      if (can(f, y)) { if (threw) bad(std::string(how) + " rejected a value", s); holds(f, y, how, s); c.count("integers assigned to decimals"); }
      else { if (!threw) bad(std::string(how) + " accepted a value that does not fit", s + " -> " + rep(f)); c.count("integers that do not fit"); c.evaluated(hash_str(how + s)); }
    };
    put("as(int64)", x, in, [&] { q.as(v); });
    Exact y; y.d = std::to_string(u); y.norm(); bool wide = u > (uint64_t)INT64_MAX; // wider than a mantissa: refused, or exact
    if (!wide) put("as(uint64)", y, std::to_string(u), [&] { q.as(u); });
    else { try { q.as(u); if (!(got(f) == y)) bad("as(uint64) misread a value", std::to_string(u) + " -> " + rep(f)); } catch (std::exception &) { c.count("integers that do not fit"); } }
    int32_t w = (int32_t)rand_int(r, T::I32); put("as(int32)", Exact::of(w, 0), std::to_string(w), [&] { q.as(w); });
    // text of integer fields
    uint32_t u3 = (uint32_t)rand_int(r, T::U32);
    int32_mref(m->mref()[5]).as(w); uint32_mref(m->mref()[6]).as(u3); int64_mref(m->mref()[7]).as(v); uint64_mref(m->mref()[8]).as(u);
    std::ostringstream os; os << int32_cref(m->cref()[5]) << ' ' << uint32_cref(m->cref()[6]) << ' ' << int64_cref(m->cref()[7]) << ' ' << uint64_cref(m->cref()[8]);
    std::string want = std::to_string(w) + ' ' + std::to_string(u3) + ' ' + in + ' ' + std::to_string(u); if (os.str() != want) bad("text of integer fields", want + " -> " + os.str());
    c.evaluated(hash_str(want));
  }
  void doubles() {
    double x; switch (r.below(4)) { case 0: x = (double)r.range(-100000, 100000) / 100; break; case 1: x = (double)(int64_t)r.next() * std::pow(10.0, (double)r.range(-30, 30)); break; case 2: x = (double)r.range(-1000000, 1000000) / 1024; break; default: x = (double)r.range(-9999, 9999); }
    size_t f = r.chance(50) ? 0 : 1; auto q = fld(f); q.as(x); decimal_cref cr(cf(f)); double y = (double)cr;
    if (!(std::fabs(y - x) <= 2e-15 * std::fabs(x))) { std::ostringstream os; os << std::setprecision(20) << x << " -> " << rep(f); bad("as(double)", os.str()); }
    if (std::fabs(x) < 1e15 && x * 1024 == std::floor(x * 1024)) { Exact e = Exact::of((int64_t)(x * 1024), 0); Exact g = got(f); (void)e; (void)g; if (x == std::floor(x) && !(got(f) == Exact::of((int64_t)x, 0))) bad("as(double) of a whole number", rep(f)); }
    c.evaluated(hash_bytes(&x, 8)); c.count("doubles");
  }
  // initial values in template documents are text, too
  void xml_int() {
    static const T ts[] = {T::I32, T::U32, T::I64, T::U64}; T t = ts[r.below(4)]; __int128 lo, hi, v; int_range(t, lo, hi);
    std::string s; switch (r.below(5)) { case 0: s = rand_literal(r); break; case 1: s = std::to_string((int64_t)rand_int(r, T::I64)); break; case 2: s = std::to_string(rand_int(r, T::U64)); break; case 3: { v = (r.chance(50) ? lo : hi) + r.range(-2, 2); bool n = v < 0; unsigned __int128 a = n ? -v : v; s = ""; do { s.insert(s.begin(), (char)('0' + (int)(a % 10))); a /= 10; } while (a); if (n) s = "-" + s; break; } default: s = r.chance(50) ? "-" + std::to_string(r.below(100)) : std::to_string(r.below(100)) + "x"; }
    bool digits = !s.empty() && s.find_first_not_of("0123456789", s[0] == '-' ? 1 : 0) == std::string::npos && s != "-";
    Exact x = Exact::literal(s); bool ok = digits && x.integer(lo, hi, v);
    std::string doc = std::string("<templates><template name=\"T\" id=\"1\"><") + type_name(t) + " name=\"f\"><copy value=\"" + s + "\"/></" + type_name(t) + "></template></templates>";
    try {
      dynamic_templates_description z(doc.c_str()); MT w(malloc_allocator::instance(), z[0]); const MT &cw = w; Field f; f.t = t; f.name = "f"; Schema sc; Value g = read_field(f, cw.cref()[0], sc);
      if (!ok && digits) bad("an initial value out of range is accepted", doc + " -> " + show(g, t));
      if (ok && g.u != (uint64_t)v) bad("an initial value is misread", doc + " -> " + show(g, t));
      if (!digits && s.find_first_not_of("0123456789+-") != std::string::npos) bad("an initial value that is no integer is accepted", doc + " -> " + show(g, t));
    } catch (CaseFailed &) { throw; } catch (std::exception &e) { if (ok && !(s[0] == '-' && v == 0)) bad("an initial value is rejected", doc + ": " + e.what()); }
    c.count(ok ? "initial values of integers" : "initial values that are no integers of the type"); c.evaluated(hash_str(doc));
  }
  void xml_dec() {
    std::string s = rand_literal(r); Exact x = Exact::literal(s); bool ok = x.decimal(-63, 63);
    std::string doc = "<templates><template name=\"T\" id=\"1\"><decimal name=\"f\"><copy value=\"" + s + "\"/></decimal></template></templates>";
    try {
      dynamic_templates_description z(doc.c_str()); MT w(malloc_allocator::instance(), z[0]); const MT &cw = w; decimal_cref q(cw.cref()[0]);
      if (!ok) bad("a decimal initial value out of range is accepted", doc + " -> " + q.to_string());
      if (!(Exact::of(q.mantissa(), q.exponent()) == x)) bad("a decimal initial value is misread", doc + " -> " + q.to_string());
    } catch (CaseFailed &) { throw; } catch (std::exception &e) { if (ok && plain(s)) { // the reader may keep trailing zeros, so that the exponent of a value near the limits leaves the range
        bad("a decimal initial value is rejected", doc + ": " + boost::diagnostic_information(e)); } }
    c.count(ok ? "decimal initial values" : "decimal initial values out of range"); c.evaluated(hash_str(doc));
  }
};
static void one(Ctx &c) {
  C16 x(c); if (c.rng.chance(30)) x.alone();
  for (int n = 0; n < 60; ++n) switch (c.rng.below(8)) { case 0: case 1: x.decimals(); break; case 2: x.literal(); break; case 3: x.garbage(); break; case 4: x.integers(); break; case 5: x.doubles(); break; case 6: x.xml_int(); break; default: x.xml_dec(); }
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
