// A strict JSON reader and writer, independent of the one under test, and the
// meaning of a JSON value for a field of the model.
#pragma once
#include "world.h"
#include <mfast/json/json.h>
#include <cstring>
namespace vf {
struct JV {
  enum K { Null, False, True, Num, Str, Arr, Obj } k = Null;
  std::string s;                                    // string content / literal of a number / text of an object
  std::vector<JV> a;
  std::vector<std::pair<std::string, JV>> o;
  bool operator==(const JV &x) const { if (k != x.k || (k != Obj && s != x.s) || a != x.a || o.size() != x.o.size()) return false; for (size_t i = 0; i < o.size(); ++i) if (o[i].first != x.o[i].first || !(o[i].second == x.o[i].second)) return false; return true; }
  bool operator!=(const JV &x) const { return !(*this == x); }
  const JV *get(const std::string &n, size_t *count = nullptr) const { const JV *r = nullptr; size_t c = 0; for (auto &m : o) if (m.first == n) { if (!c) r = &m.second; ++c; } if (count) *count = c; return r; }
};
inline void put_utf8(std::string &s, uint32_t c) {
  if (c < 0x80) s += (char)c;
  else if (c < 0x800) { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char)(0xE0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
  else { s += (char)(0xF0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
}
// decodes one code point; false when the bytes are not well formed UTF-8
inline bool get_utf8(const std::string &s, size_t &i, uint32_t &c) {
  unsigned char b = s[i]; int n; uint32_t lo;
  if (b < 0x80) { c = b; ++i; return true; }
  if (b >= 0xC2 && b < 0xE0) { n = 1; c = b & 31; lo = 0x80; } else if (b >= 0xE0 && b < 0xF0) { n = 2; c = b & 15; lo = 0x800; } else if (b >= 0xF0 && b < 0xF5) { n = 3; c = b & 7; lo = 0x10000; } else return false;
  for (int k = 1; k <= n; ++k) { if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xC0) != 0x80) return false; c = (c << 6) | (s[i + k] & 63); }
  if (c < lo || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false;
  i += n + 1; return true;
}
struct JParser {
  const std::string &t; size_t i = 0; std::string err;
  bool lone = false; // some escape denotes half a surrogate pair
  explicit JParser(const std::string &x) : t(x) {}
  bool bad(const char *w) { if (err.empty()) err = std::string(w) + " at " + std::to_string(i); return false; }
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) ++i; }
  bool lit(const char *w) { size_t n = strlen(w); if (t.compare(i, n, w) != 0) return bad("literal"); i += n; return true; }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  bool hex4(uint32_t &v) {
    v = 0; if (i + 4 > t.size()) return bad("\\u");
    for (int k = 0; k < 4; ++k) { char c = t[i++]; v <<= 4; if (dig(c)) v |= c - '0'; else if (c >= 'a' && c <= 'f') v |= c - 'a' + 10; else if (c >= 'A' && c <= 'F') v |= c - 'A' + 10; else return bad("\\u"); }
    return true;
  }
  bool str(std::string &s) {
    s.clear(); if (i >= t.size() || t[i] != '"') return bad("string expected"); ++i;
    for (;;) {
      if (i >= t.size()) return bad("unterminated string");
      unsigned char c = t[i];
      if (c == '"') { ++i; return true; }
      if (c < 32) return bad("control character in a string");
      if (c == '\\') {
        ++i; if (i >= t.size()) return bad("escape"); char e = t[i++];
        switch (e) {
        case '"': case '\\': case '/': s += e; break;
        case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
        case 'u': { uint32_t v, w; if (!hex4(v)) return false;
          if ((v & 0xFC00) == 0xD800 && t.compare(i, 2, "\\u") == 0) { size_t save = i; i += 2; if (!hex4(w)) return false; if ((w & 0xFC00) == 0xDC00) v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); else i = save; }
          if (v >= 0xD800 && v < 0xE000) lone = true;
          put_utf8(s, v); break; }
        default: return bad("escape"); }
      } else { uint32_t cp; size_t b = i; if (!get_utf8(t, i, cp)) return bad("UTF-8"); s.append(t, b, i - b); }
    }
  }
  bool value(JV &v, int depth = 0) {
    if (depth > 200) return bad("too deep");
    ws(); if (i >= t.size()) return bad("value expected");
    char c = t[i];
    if (c == '{') {
      size_t b = i; v.k = JV::Obj; ++i; ws(); if (i < t.size() && t[i] == '}') { ++i; v.s = t.substr(b, i - b); return true; }
      for (;;) {
        ws(); std::string n; if (!str(n)) return false; ws(); if (i >= t.size() || t[i] != ':') return bad("colon"); ++i;
        JV x; if (!value(x, depth + 1)) return false; v.o.emplace_back(n, std::move(x)); ws();
        if (i < t.size() && t[i] == ',') { ++i; continue; } if (i < t.size() && t[i] == '}') { ++i; v.s = t.substr(b, i - b); return true; } return bad(", or }");
      }
    }
    if (c == '[') {
      v.k = JV::Arr; ++i; ws(); if (i < t.size() && t[i] == ']') { ++i; return true; }
      for (;;) { JV x; if (!value(x, depth + 1)) return false; v.a.push_back(std::move(x)); ws(); if (i < t.size() && t[i] == ',') { ++i; continue; } if (i < t.size() && t[i] == ']') { ++i; return true; } return bad(", or ]"); }
    }
    if (c == '"') { v.k = JV::Str; return str(v.s); }
    if (c == 'n') { v.k = JV::Null; return lit("null"); }
    if (c == 't') { v.k = JV::True; return lit("true"); }
    if (c == 'f') { v.k = JV::False; return lit("false"); }
    size_t b = i; v.k = JV::Num;
    if (t[i] == '-') ++i;
    if (i >= t.size() || !dig(t[i])) return bad("value");
    if (t[i] == '0') ++i; else while (i < t.size() && dig(t[i])) ++i;
    if (i < t.size() && t[i] == '.') { ++i; if (i >= t.size() || !dig(t[i])) return bad("fraction"); while (i < t.size() && dig(t[i])) ++i; }
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; if (i >= t.size() || !dig(t[i])) return bad("exponent"); while (i < t.size() && dig(t[i])) ++i; }
    v.s = t.substr(b, i - b); return true;
  }
  bool document(JV &v) { if (!value(v)) return false; ws(); return i == t.size() || bad("text after the value"); }
};
// a decimal number, exactly: value = (neg ? -1 : 1) * digits * 10^exp, digits without leading or trailing zeros ("" is zero)
struct Exact {
  bool neg = false; std::string d; long long e = 0;
  bool operator==(const Exact &x) const { return d == x.d && (d.empty() || (neg == x.neg && e == x.e)); }
  void norm() { size_t k = 0; while (k < d.size() && d[k] == '0') ++k; d.erase(0, k); while (!d.empty() && d.back() == '0') { d.pop_back(); ++e; } if (d.empty()) { neg = false; e = 0; } }
  static Exact of(int64_t m, int exp) { Exact x; x.neg = m < 0; x.d = std::to_string(m < 0 ? 0 - (uint64_t)m : (uint64_t)m); x.e = exp; x.norm(); return x; }
  static Exact literal(const std::string &s) {
    Exact x; size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) x.neg = s[i++] == '-';
    while (i < s.size() && JParser::dig(s[i])) x.d += s[i++];
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && JParser::dig(s[i])) { x.d += s[i++]; --x.e; } }
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; bool n = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) n = s[i++] == '-'; long long q = 0; while (i < s.size() && JParser::dig(s[i])) { if (q < 1000000000) q = q * 10 + (s[i] - '0'); ++i; } x.e += n ? -q : q; }
    x.norm(); return x;
  }
  // as an integer, if it is one that fits
  bool integer(__int128 lo, __int128 hi, __int128 &v) const {
    if (d.empty()) { v = 0; return lo <= 0 && hi >= 0; } if (e < 0 || d.size() + (size_t)e > 25 || e > 25) return false;
    v = 0; for (char c : d) v = v * 10 + (c - '0'); for (long long k = 0; k < e; ++k) v *= 10; if (neg) v = -v; return v >= lo && v <= hi;
  }
  // some mantissa of 64 bits and exponent in [lo,hi] denote it
  bool decimal(int lo, int hi) const {
    if (d.empty()) return true; __int128 v; Exact x = *this; long long q = x.e;
    if (q < lo) return false;
    if (q > hi) { x.e = q - hi; q = hi; } else x.e = 0;
    return x.integer((__int128)INT64_MIN, (__int128)INT64_MAX, v);
  }
  std::string show() const { return (neg ? "-" : "") + (d.empty() ? "0" : d) + "e" + std::to_string(e); }
};
inline void int_range(T t, __int128 &lo, __int128 &hi) {
  switch (t) { case T::I32: case T::VI32: lo = INT32_MIN; hi = INT32_MAX; break; case T::U32: case T::VU32: lo = 0; hi = UINT32_MAX; break; case T::I64: case T::VI64: lo = INT64_MIN; hi = INT64_MAX; break; default: lo = 0; hi = UINT64_MAX; }
}
// the form messages are compared in: decimals by value
inline void canon(const std::vector<Field> &fs, std::vector<Value> &v, const Schema &sc) {
  for (size_t i = 0; i < fs.size(); ++i) {
    if (!v[i].present) continue;
    if (fs[i].t == T::DEC) { int64_t m = (int64_t)v[i].u; if (m == 0) v[i].e = 0; else while (m % 10 == 0) { m /= 10; ++v[i].e; } v[i].u = (uint64_t)m; }
    if (fs[i].t == T::GROUP || fs[i].t == T::SEQ) for (auto &e : v[i].elems) canon(fs[i].sub, e, sc);
  }
}
enum class Sense { Ok, Bad, Any }; // the value it denotes / must be rejected / unspecified
struct JMeaning {
  const Schema &sc; unsigned mask;
  JMeaning(const Schema &s, unsigned m) : sc(s), mask(m) {}
  static Sense worst(Sense a, Sense b) { return a == Sense::Any || b == Sense::Any ? Sense::Any : a == Sense::Bad || b == Sense::Bad ? Sense::Bad : Sense::Ok; }
  static bool unhex(const std::string &s, std::string &o) {
    std::string d; for (char c : s) { if (c == '-') continue; if (!isxdigit((unsigned char)c)) return false; d += c; }
    if (d.size() % 2) return false; o.clear();
    for (size_t i = 0; i < d.size(); i += 2) o += (char)strtol(d.substr(i, 2).c_str(), 0, 16);
    return true;
  }
  Sense leaf(const Field &f, const JV &j, Value &v, const std::string &raw_text) {
    v = Value(); v.present = true; __int128 lo, hi, x;
    bool konst = f.op.op == Op::Constant && !(f.t == T::DEC && f.indiv);
    switch (f.t) {
    case T::I32: case T::U32: case T::I64: case T::U64: case T::ENUM:
      if (j.k != JV::Num) return Sense::Bad;
      int_range(f.t == T::ENUM ? T::U64 : f.t, lo, hi); { Exact e = Exact::literal(j.s); bool plain = j.s.find_first_of(".eE") == std::string::npos; if (!e.integer(lo, hi, x)) return Sense::Bad; if (!plain) return Sense::Any; }
      v.u = (uint64_t)x; if (f.t == T::ENUM) { bool known = false; for (size_t i = 0; i < f.enum_names.size(); ++i) known = known || v.u == (f.enum_vals.empty() ? i : f.enum_vals[i]); if (!known) return Sense::Any; }
      return konst && v.u != f.op.init.u ? Sense::Any : Sense::Ok;
    case T::BOOL: if (j.k == JV::True || j.k == JV::False) { v.u = j.k == JV::True; return konst && v.u != f.op.init.u ? Sense::Any : Sense::Ok; } return j.k == JV::Num ? Sense::Any : Sense::Bad;
    case T::DEC: {
      if (j.k != JV::Num) return Sense::Bad;
      { size_t k = j.s.find_first_of("eE"); if (k != std::string::npos && (strtol(j.s.c_str() + k + 1, nullptr, 10) > 32000 || strtol(j.s.c_str() + k + 1, nullptr, 10) < -32000)) return Exact::literal(j.s).d.empty() ? Sense::Any : Sense::Bad; }
      Exact e = Exact::literal(j.s); bool ce = f.indiv && f.op.op == Op::Constant, cm = f.indiv && f.mop.op == Op::Constant;
      if (konst || cm) return konst && e == Exact::of((int64_t)f.op.init.u, f.op.init.e) ? (v = f.op.init, Sense::Ok) : Sense::Any;
      if (ce) { if (!e.decimal(f.op.init.e, f.op.init.e)) return Sense::Any; } else if (!e.decimal(-63, 63)) return e.decimal(-32768, 32767) ? Sense::Any : Sense::Bad;
      // the canonical form
      x = 0; for (char c : e.d) x = x * 10 + (c - '0'); long long q = e.e; while (!ce && q > 63) { x *= 10; --q; } if (e.neg) x = -x; v.u = (uint64_t)(int64_t)x; v.e = (int)q;
      return Sense::Ok; }
    case T::ASCII: case T::UNI: if (j.k != JV::Str) return Sense::Bad; v.s = j.s; return konst && v.s != f.op.init.s ? Sense::Any : Sense::Ok;
    case T::BYTES:
      if (f.tag & mask) { if (j.k != JV::Obj) return Sense::Bad; if (raw_text.empty()) return Sense::Any; v.s = raw_text; return konst ? Sense::Any : Sense::Ok; }
      if (j.k != JV::Str) return Sense::Bad; if (!unhex(j.s, v.s)) return Sense::Any; return konst && v.s != f.op.init.s ? Sense::Any : Sense::Ok;
    case T::VI32: case T::VU32: case T::VI64: case T::VU64:
      if (j.k != JV::Arr) return Sense::Bad; int_range(f.t, lo, hi);
      { Sense w = Sense::Ok; for (auto &e : j.a) { if (e.k != JV::Num) return Sense::Bad; bool plain = e.s.find_first_of(".eE") == std::string::npos; if (!Exact::literal(e.s).integer(lo, hi, x)) return Sense::Bad; if (!plain) w = Sense::Any; v.iv.push_back((uint64_t)x); } return w; }
    default: return Sense::Any; }
  }
  // base: what the message holds where the document does not say
  Sense field(const Field &f, const JV &j, Value &v) {
    if (f.t == T::GROUP) { if (j.k != JV::Obj) return Sense::Bad; v = Value(); v.present = true; v.elems.resize(1); return object(f.sub, j, v.elems[0]); }
    if (f.t == T::SEQ) {
      if (j.k != JV::Arr) return Sense::Bad; v = Value(); v.present = true; Sense w = Sense::Ok; bool un = f.sub.size() == 1 && f.sub[0].name.empty();
      if (f.len_op.op == Op::Constant && j.a.size() != f.len_op.init.u) w = Sense::Any;
      for (auto &e : j.a) {
        std::vector<Value> row; Sense x;
        if (un) { row.resize(1); if (e.k == JV::Null) x = f.sub[0].optional ? Sense::Ok : Sense::Any; else x = field(f.sub[0], e, row[0]); }
        else if (e.k == JV::Null) { x = Sense::Any; row.resize(f.sub.size()); } else if (e.k != JV::Obj) return Sense::Bad; else x = object(f.sub, e, row);
        v.elems.push_back(row); w = worst(w, x);
      }
      return w; }
    return leaf(f, j, v, j.k == JV::Obj ? j.s : "");
  }
  Sense object(const std::vector<Field> &fs, const JV &j, std::vector<Value> &v) {
    v.assign(fs.size(), Value()); Sense w = Sense::Ok; std::set<std::string> seen;
    for (auto &m : j.o) {
      size_t i = 0; while (i < fs.size() && fs[i].name != m.first) ++i; if (i == fs.size()) continue;
      if (!seen.insert(m.first).second) return Sense::Any;
      if (m.second.k == JV::Null) { if (!fs[i].optional) w = worst(w, Sense::Any); continue; }
      w = worst(w, field(fs[i], m.second, v[i]));
    }
    for (size_t i = 0; i < fs.size(); ++i) if (!v[i].present && !fs[i].optional) w = worst(w, Sense::Any);
    return w;
  }
};
// random JSON text (no control over white space or spelling: for members nobody knows, and for embedded objects)
inline std::string json_quote(Rng &r, const std::string &s, unsigned esc_pct, bool raw_ok = true) {
  std::string o = "\""; char b[8]; size_t i = 0;
  while (i < s.size()) {
    uint32_t c; size_t k = i; if (!get_utf8(s, i, c)) { ++i; continue; }
    const char *sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr;
    bool must = c < 32 || c == '"' || c == '\\';
    if (!must && !r.chance(esc_pct)) { o.append(s, k, i - k); continue; }
    if (sh && r.chance(60)) { o += sh; continue; }
    const char *f = r.chance(50) ? "\\u%04x" : "\\u%04X";
    if (c >= 0x10000) { snprintf(b, 8, f, 0xD800 + ((c - 0x10000) >> 10)); o += b; snprintf(b, 8, f, 0xDC00 + ((c - 0x10000) & 0x3FF)); o += b; }
    else { snprintf(b, 8, f, c); o += b; }
  }
  (void)raw_ok; return o + "\"";
}
inline std::string json_ws(Rng &r, unsigned pct) { std::string o; while (r.chance(pct) && o.size() < 6) o += " \t\n\r"[r.below(4)]; return o; }
inline std::string rand_json(Rng &r, int depth, int kind = -1) {
  switch (kind >= 0 ? kind : (int)r.below(depth > 0 ? 8 : 6)) {
  case 0: return "null"; case 1: return r.chance(50) ? "true" : "false";
  case 2: { static const char *n[] = {"0", "-0", "1", "-1.5", "1e5", "123456789012345678901234567890", "1E+400", "-2.5e-400", "0.1", "1e999"}; return n[r.below(10)]; }
  case 3: case 4: { std::string s = rand_str(r, T::UNI, 8); if (r.chance(30)) s += "}]{[\",:\\"; return json_quote(r, s, 20); }
  case 5: return r.chance(50) ? "[]" : "{}";
  case 6: { std::string o = "[" + json_ws(r, 20); for (size_t n = 1 + r.below(3), i = 0; i < n; ++i) o += (i ? "," : "") + json_ws(r, 10) + rand_json(r, depth - 1) + json_ws(r, 10); return o + "]"; }
  default: { std::string o = "{" + json_ws(r, 20); for (size_t n = 1 + r.below(3), i = 0; i < n; ++i) o += (i ? "," : "") + json_ws(r, 10) + json_quote(r, rand_str(r, T::UNI, 4), 20) + json_ws(r, 10) + ":" + json_ws(r, 10) + rand_json(r, depth - 1) + json_ws(r, 10); return o + "}"; }
  }
}
// byte vectors that hold JSON objects
inline void embed_objects(Rng &r, const std::vector<Field> &fs, std::vector<Value> &v, unsigned mask) {
  for (size_t i = 0; i < fs.size(); ++i) {
    if (!v[i].present) continue;
    if (fs[i].t == T::BYTES && (fs[i].tag & mask)) v[i].s = rand_json(r, 2, r.chance(15) ? 5 : 7);
    if (fs[i].t == T::BYTES && (fs[i].tag & mask) && v[i].s == "[]") v[i].s = "{}";
    for (auto &e : v[i].elems) embed_objects(r, fs[i].sub, e, mask);
  }
}
inline Schema json_schema(Rng &r) {
  GenCfg cfg; cfg.max_docs = 1; cfg.max_templates = 3; cfg.tref = false; cfg.dicts = false; cfg.ns = false; cfg.resets = false;
  cfg.unnamed_pct = 30; cfg.tag_pct = 30; cfg.odd_names = r.chance(40);
  return make_schema(r, cfg);
}
} // namespace vf
