// The model of a FAST template set and of message values, independent of
// mFAST's own data structures; plus the generator of template sets and the
// writer that turns them into template documents.
#pragma once
#include "rng.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <limits>
#include <stdexcept>
namespace vf {

enum class T { I32, U32, I64, U64, DEC, ASCII, UNI, BYTES, BOOL, ENUM, VI32, VU32, VI64, VU64, GROUP, SEQ, TREF, STATIC };
enum class Op { None, Constant, Delta, Default, Copy, Increment, Tail };
inline const char *op_name(Op o) { static const char *n[] = {"none","constant","delta","default","copy","increment","tail"}; return n[(int)o]; }
inline const char *type_name(T t) { static const char *n[] = {"int32","uInt32","int64","uInt64","decimal","ascii","unicode","byteVector","boolean","enum","int32Vector","uInt32Vector","int64Vector","uInt64Vector","group","sequence","templateRef","staticRef"}; return n[(int)t]; }
inline bool is_int(T t) { return t == T::I32 || t == T::U32 || t == T::I64 || t == T::U64; }
inline bool is_enum(T t) { return t == T::BOOL || t == T::ENUM; }
inline bool is_str(T t) { return t == T::ASCII || t == T::UNI || t == T::BYTES; }
inline bool is_vec(T t) { return t == T::VI32 || t == T::VU32 || t == T::VI64 || t == T::VU64; }
inline bool is_signed_t(T t) { return t == T::I32 || t == T::I64 || t == T::VI32 || t == T::VI64; }
inline int bits_of(T t) { return (t == T::I32 || t == T::U32 || t == T::VI32 || t == T::VU32) ? 32 : 64; }

struct Value {
  bool present = false;
  uint64_t u = 0;              // integers (sign extended), enum, boolean, mantissa
  int e = 0;                   // exponent
  std::string s;               // strings and byte vectors
  std::vector<uint64_t> iv;    // integer vectors (sign extended)
  std::vector<std::vector<Value>> elems; // sequence elements; group / nested message: elems[0]
  int tmpl = -1;               // nested message: template index
};
struct Message { int tmpl = -1; std::vector<Value> f; };

struct OpSpec {
  Op op = Op::None;
  std::string key, ns, dict; // attributes of the operator element
  bool has_init = false;
  Value init;                // typed initial value
  std::string init_text;     // spelling in the document
  int slot = -1;             // resolved dictionary entry
};

struct Field {
  T t = T::I32;
  std::string name, ns;
  uint32_t id = 0;
  bool optional = false;
  OpSpec op;                 // decimal with individual operators: the exponent's
  bool indiv = false;        // decimal with individual operators
  bool has_exp = false, has_man = false; // which elements are written
  OpSpec mop;
  std::vector<std::string> enum_names;
  std::vector<uint64_t> enum_vals; // empty: the index is the value
  bool enum_explicit = false;
  std::vector<Field> sub;
  std::string dict, typeref, typeref_ns;
  uint64_t tag = 0;
  bool has_length = false;   // sequence: explicit length element
  std::string len_name, len_ns; uint32_t len_id = 0;
  OpSpec len_op;
  std::string ref_name;      // static reference target (template name)
  int form = 0;              // spelling: 0 direct, 1 <field> wrapper, 2 define + type
  // computed by resolve()
  uint64_t pm_bits = 0;      // presence map bits inside a group / element segment
  int uid = 0;
};

struct Template {
  std::string name, ns, dict, typeref, typeref_ns;
  uint32_t id = 0;
  bool reset = false;
  std::vector<Field> src;    // as written
  std::vector<Field> f;      // static references inlined, slots assigned
};
struct Doc { std::string ns, template_ns, dict; std::vector<int> tmpl; };
struct SlotInfo { std::string key; int vtype; std::vector<int> users; };
struct Schema {
  std::vector<Template> t;
  std::vector<Doc> docs;
  std::vector<std::string> xml;
  std::vector<SlotInfo> slots;
  int nuid = 0;
  bool has_tref = false;
};

inline bool same(const std::vector<Field> &fs, const std::vector<Value> &a, const std::vector<Value> &b, const Schema &sc, std::string *where = nullptr);
std::string show(const Value &v, T t);

inline int64_t sx(uint64_t v) { return static_cast<int64_t>(v); }

inline std::string hex(const std::string &s, size_t limit = 4000) {
  static const char *d = "0123456789abcdef"; std::string r;
  for (size_t i = 0; i < s.size() && i < limit; ++i) { unsigned char c = s[i]; r += d[c >> 4]; r += d[c & 15]; }
  if (s.size() > limit) r += "...";
  return r;
}
inline std::string cquote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } }
  return r + "\"";
}
inline std::string show(const Value &v, T t) {
  if (!v.present) return "-";
  std::ostringstream o;
  if (t == T::DEC) o << sx(v.u) << "e" << v.e;
  else if (is_str(t)) o << cquote(v.s);
  else if (is_vec(t)) { o << "["; for (auto x : v.iv) { if (is_signed_t(t)) o << sx(x) << " "; else o << x << " "; } o << "]"; }
  else if (is_signed_t(t)) o << sx(v.u);
  else o << v.u;
  return o.str();
}
inline std::string show(const std::vector<Field> &fs, const std::vector<Value> &v, const Schema &sc) {
  std::string r = "{";
  for (size_t i = 0; i < fs.size() && i < v.size(); ++i) {
    const Field &f = fs[i];
    if (i) r += ", ";
    r += f.name + "=";
    if (!v[i].present) { r += "-"; continue; }
    if (f.t == T::GROUP) r += show(f.sub, v[i].elems.at(0), sc);
    else if (f.t == T::SEQ) { r += "["; for (auto &e : v[i].elems) r += show(f.sub, e, sc); r += "]"; }
    else if (f.t == T::TREF) { if (v[i].tmpl < 0) r += "unbound"; else r += sc.t[v[i].tmpl].name + show(sc.t[v[i].tmpl].f, v[i].elems.at(0), sc); }
    else r += show(v[i], f.t);
  }
  return r + "}";
}
inline std::string show(const Message &m, const Schema &sc) { return m.tmpl < 0 ? "<none>" : sc.t[m.tmpl].name + show(sc.t[m.tmpl].f, m.f, sc); }

inline bool same_simple(T t, const Value &a, const Value &b) {
  if (a.present != b.present) return false;
  if (!a.present) return true;
  if (t == T::DEC) return a.u == b.u && a.e == b.e;
  if (is_str(t)) return a.s == b.s;
  if (is_vec(t)) return a.iv == b.iv;
  return a.u == b.u;
}
inline bool same(const std::vector<Field> &fs, const std::vector<Value> &a, const std::vector<Value> &b, const Schema &sc, std::string *where) {
  if (a.size() != fs.size() || b.size() != fs.size()) { if (where) *where = "field count"; return false; }
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    bool ok = true; std::string sub;
    if (a[i].present != b[i].present) ok = false;
    else if (!a[i].present) ok = true;
    else if (f.t == T::GROUP) ok = same(f.sub, a[i].elems.at(0), b[i].elems.at(0), sc, &sub);
    else if (f.t == T::SEQ) {
      if (a[i].elems.size() != b[i].elems.size()) { ok = false; sub = "length"; }
      else for (size_t k = 0; k < a[i].elems.size() && ok; ++k) ok = same(f.sub, a[i].elems[k], b[i].elems[k], sc, &sub);
    } else if (f.t == T::TREF) {
      if (a[i].tmpl != b[i].tmpl) { ok = false; sub = "target"; }
      else if (a[i].tmpl >= 0) ok = same(sc.t[a[i].tmpl].f, a[i].elems.at(0), b[i].elems.at(0), sc, &sub);
    } else ok = same_simple(f.t, a[i], b[i]);
    if (!ok) {
      if (where) *where = f.name + "(" + type_name(f.t) + "," + op_name(f.op.op) + (f.optional ? ",optional)" : ",mandatory)") + (sub.empty() ? "" : "." + sub);
      return false;
    }
  }
  return true;
}
inline bool same(const Message &a, const Message &b, const Schema &sc, std::string *where = nullptr) {
  if (a.tmpl != b.tmpl) { if (where) *where = "template"; return false; }
  return same(sc.t[a.tmpl].f, a.f, b.f, sc, where);
}

// ---------------------------------------------------------------- generation

struct GenCfg {
  int max_docs = 2, max_templates = 4, max_fields = 9, max_depth = 3;
  bool tref = true, static_ref = true, ns = true, dicts = true, forms = true, resets = true;
  bool enums = true, vectors = true, decimals = true, individual = true, sequences = true, groups = true;
  bool many_pmap = false;      // sometimes produce templates with very many presence map bits
  bool length_ops = true;
  bool field_ns = true;
  bool cpp_safe = false;       // restrict to what the type generator's users would write
  bool typerefs = true;
  unsigned tref_pct = 40, many_pct = 25;
  bool dict_heavy = false;     // few names and keys, frequent explicit dictionaries
  unsigned unnamed_pct = 0, tag_pct = 0; bool odd_names = false; // JSON: unnamed sequence elements, tags, names that need quoting
  bool key_any_type = false;   // keys that are not tied to a type: conflicts arise
};

inline uint64_t rand_int(Rng &r, T t) {
  bool sg = is_signed_t(t); int b = bits_of(t);
  uint64_t v;
  switch (r.below(8)) {
  case 0: v = r.below(4); break;
  case 1: v = r.below(200); break;
  case 2: { // around 7-bit group boundaries
    int sh = 7 * (int)r.range(0, b == 32 ? 4 : 9);
    v = (sh < 64 ? (1ULL << sh) : 0) + (uint64_t)r.range(-2, 2); if (r.chance(30)) v = (sh ? (1ULL << (sh - 1)) : 0) + (uint64_t)r.range(-2, 2);
    if (sg && r.chance(50)) v = 0 - v; break; }
  case 3: v = sg ? (uint64_t)(b == 32 ? INT32_MAX : INT64_MAX) : (b == 32 ? UINT32_MAX : UINT64_MAX); v -= r.below(3); break;
  case 4: v = sg ? (uint64_t)(b == 32 ? (int64_t)INT32_MIN : INT64_MIN) : 0; v += r.below(3); break;
  case 5: v = r.next() >> r.below(64); if (sg && r.chance(50)) v = 0 - v; break;
  default: v = sg ? (uint64_t)r.range(-70, 70) : r.below(140); break;
  }
  if (b == 32) v = sg ? (uint64_t)(int64_t)(int32_t)v : (uint64_t)(uint32_t)v;
  return v;
}
inline std::string rand_str(Rng &r, T t, int maxlen = 12) {
  size_t n = r.chance(8) ? 0 : r.below(maxlen + 1);
  if (r.chance(3)) n = 100 + r.below(200);
  std::string s;
  int style = (int)r.below(4);
  for (size_t i = 0; i < n; ++i) {
    if (t == T::ASCII) {
      if (style == 0) s += (char)('a' + r.below(2));
      else if (style == 1) s += (char)(1 + r.below(127));
      else s += (char)('A' + r.below(26));
    } else if (t == T::BYTES) s += (char)(style == 0 ? r.below(2) : r.below(256));
    else { // unicode: well formed UTF-8
      uint32_t c = style == 0 ? 'a' + (uint32_t)r.below(2) : style == 1 ? 1 + (uint32_t)r.below(0x7ff) : style == 2 ? 'A' + (uint32_t)r.below(26) : (uint32_t)(r.chance(50) ? 0x800 + r.below(0x5000) : 0x10000 + r.below(0x10000));
      if (c < 0x80) s += (char)c;
      else if (c < 0x800) { s += (char)(0xC0 | (c >> 6)); s += (char)(0x80 | (c & 63)); }
      else if (c < 0x10000) { s += (char)(0xE0 | (c >> 12)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
      else { s += (char)(0xF0 | (c >> 18)); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    }
  }
  if (t == T::ASCII && s.empty() == false && r.chance(2)) s = std::string(1, '\0');
  return s;
}
inline std::string xml_escape(const std::string &s) {
  std::string r;
  for (char c : s) switch (c) {
    case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break; case '\'': r += "&apos;"; break;
    default: r += c; }
  return r;
}

struct SchemaGen {
  Rng &r; GenCfg cfg; Schema sc;
  std::map<std::string, Field> enum_defs;
  SchemaGen(Rng &r_, GenCfg c) : r(r_), cfg(c) {}

  static const char *code(T t, bool indiv) {
    switch (t) {
    case T::I32: return "i"; case T::U32: return "u"; case T::I64: return "l"; case T::U64: return "m";
    case T::DEC: return indiv ? "x" : "d"; case T::ASCII: return "a"; case T::UNI: return "n"; case T::BYTES: return "b";
    case T::BOOL: return "o"; case T::ENUM: return "e"; case T::VI32: return "vi"; case T::VU32: return "vu"; case T::VI64: return "vl"; case T::VU64: return "vm";
    case T::GROUP: return "g"; case T::SEQ: return "s"; default: return "t"; }
  }
  std::string ns_pick() { static const char *n[] = {"urn:a", "urn:b", "urn:c"}; return n[r.below(3)]; }
  std::string dict_pick() { static const char *n[] = {"global", "template", "type", "dictA", "dictB"}; return n[r.below(5)]; }

  void gen_init(const Field &f, OpSpec &o, T vt) {
    o.has_init = true; o.init = Value(); o.init.present = true;
    std::ostringstream t;
    switch (vt) {
    case T::I32: case T::I64: o.init.u = rand_int(r, vt); t << sx(o.init.u); break;
    case T::U32: case T::U64: o.init.u = rand_int(r, vt); t << o.init.u; break;
    case T::DEC: {
      // spelled as digits with an optional fraction: value = mantissa * 10^exponent
      // never a multiple of ten, so that the normalized form is the spelled one
      int64_t m = r.range(-100000, 100000); int frac = (int)r.below(4);
      if (m % 10 == 0) m += m < 0 ? -1 : 1;
      if (r.chance(5)) { m = 0; frac = 0; }
      std::string d = std::to_string(m < 0 ? -m : m);
      if (frac) { while ((int)d.size() <= frac) d = "0" + d; d.insert(d.size() - frac, "."); }
      o.init.u = (uint64_t)m; o.init.e = -frac; t << (m < 0 ? "-" : "") << d; break; }
    case T::ASCII: case T::UNI: {
      size_t n = r.chance(10) ? 0 : 1 + r.below(8);
      for (size_t i = 0; i < n; ++i) o.init.s += (char)(r.chance(50) ? 'a' + r.below(2) : 33 + r.below(90));
      t << xml_escape(o.init.s); break; }
    case T::BYTES: {
      size_t n = r.chance(10) ? 0 : 1 + r.below(8);
      for (size_t i = 0; i < n; ++i) o.init.s += (char)(r.chance(50) ? r.below(2) : r.below(256));
      t << hex(o.init.s); break; }
    case T::BOOL: o.init.u = r.below(2); t << (o.init.u ? "true" : "false"); break;
    case T::ENUM: {
      size_t i = r.below(f.enum_names.size());
      o.init.u = f.enum_vals.empty() ? i : f.enum_vals[i]; t << f.enum_names[i]; break; }
    default: break;
    }
    o.init_text = t.str();
  }
  void gen_op_attrs(const Field &f, OpSpec &o, const char *kc) {
    if (o.op != Op::Copy && o.op != Op::Increment && o.op != Op::Delta && o.op != Op::Tail) return;
    if (!cfg.dicts) return;
    if (cfg.key_any_type && r.chance(25)) o.key = "k" + std::to_string(r.below(6));
    else if (r.chance(cfg.dict_heavy ? 55 : 25)) o.key = is_enum(f.t) ? "k" + f.name : std::string("k") + kc + std::to_string(r.below(cfg.dict_heavy ? 2 : 3));
    if (r.chance(cfg.dict_heavy ? 45 : 20)) o.dict = dict_pick();
    if (cfg.ns && r.chance(cfg.dict_heavy ? 25 : 12)) o.ns = ns_pick();
  }
  Op pick_op(T t) {
    if (cfg.dict_heavy && r.chance(75)) {
      if (is_int(t)) return r.chance(40) ? Op::Copy : r.chance(50) ? Op::Increment : Op::Delta;
      if (is_str(t)) return r.chance(40) ? Op::Copy : r.chance(50) ? Op::Tail : Op::Delta;
      return t == T::DEC && r.chance(50) ? Op::Delta : Op::Copy;
    }
    static const std::vector<Op> ints{Op::None, Op::Constant, Op::Default, Op::Copy, Op::Copy, Op::Increment, Op::Increment, Op::Delta, Op::Delta, Op::None};
    static const std::vector<Op> decs{Op::None, Op::Constant, Op::Default, Op::Copy, Op::Copy, Op::Delta, Op::Delta};
    static const std::vector<Op> strs{Op::None, Op::Constant, Op::Default, Op::Copy, Op::Copy, Op::Delta, Op::Delta, Op::Delta, Op::Tail, Op::Tail};
    static const std::vector<Op> enums{Op::None, Op::Constant, Op::Default, Op::Copy, Op::Copy};
    if (is_int(t)) return r.pick(ints);
    if (t == T::DEC) return r.pick(decs);
    if (is_str(t)) return r.pick(strs);
    if (is_enum(t)) return r.pick(enums);
    return Op::None;
  }
  void gen_op(Field &f, OpSpec &o, T vt, bool optional, const char *kc) {
    o.op = pick_op(vt);
    bool need = o.op == Op::Constant || (o.op == Op::Default && !optional);
    if (o.op != Op::None && (need || r.chance(45))) gen_init(f, o, vt);
    gen_op_attrs(f, o, kc);
  }
  Field gen_field(int depth, std::set<std::string> &used, bool toplevel) {
    Field f;
    std::vector<T> ts{T::I32, T::U32, T::I64, T::U64, T::ASCII, T::ASCII, T::UNI, T::BYTES};
    if (cfg.dict_heavy) ts = {T::I32, T::U32, T::U32, T::ASCII, T::ASCII, T::U32, T::BYTES, T::I64};
    if (cfg.decimals) { ts.push_back(T::DEC); ts.push_back(T::DEC); }
    if (cfg.enums) { ts.push_back(T::BOOL); ts.push_back(T::ENUM); }
    if (cfg.vectors) { T v[] = {T::VI32, T::VU32, T::VI64, T::VU64}; ts.push_back(v[r.below(4)]); }
    if (depth < cfg.max_depth) { if (cfg.groups) ts.push_back(T::GROUP); if (cfg.sequences) { ts.push_back(T::SEQ); ts.push_back(T::SEQ); } }
    if (cfg.tref && !sc.t.empty() && depth < cfg.max_depth && r.chance(cfg.tref_pct)) for (unsigned k = 0; k <= cfg.tref_pct / 25; ++k) { if (k && cfg.tref_pct <= 40) break; ts.push_back(T::TREF); }
    (void)toplevel;
    f.t = r.pick(ts);
    if (f.t == T::DEC && cfg.individual) f.indiv = r.chance(50);
    const char *c = code(f.t, f.indiv);
    if (f.t != T::TREF) {
      do f.name = std::string(c) + std::to_string(r.below(cfg.dict_heavy ? 3 : 6)); while (used.count(f.name) && r.chance(cfg.dict_heavy ? 60 : 95));
      while (used.count(f.name)) f.name += "z";
      used.insert(f.name);
      if (cfg.odd_names && f.t != T::ENUM && r.chance(15)) { static const char *odd[] = {"\"", "\\", "\xc3\xa9", " ", "/", "'", "&"}; std::string n = f.name + odd[r.below(7)]; if (used.insert(n).second) f.name = n; }
      f.optional = r.chance(50);
      if (cfg.tag_pct && r.chance(cfg.tag_pct)) f.tag = 1 + r.below(7);
      if (r.chance(40)) f.id = 1 + (uint32_t)r.below(5000);
      if (cfg.ns && cfg.field_ns && r.chance(cfg.dict_heavy ? 20 : 8)) f.ns = ns_pick();
      if (cfg.forms && r.chance(25)) f.form = 1 + (int)r.below(2);
    } else { sc.has_tref = true; return f; }
    switch (f.t) {
    case T::ENUM: {
      auto it = enum_defs.find(f.name);
      if (it == enum_defs.end()) {
        Field d; size_t n = 1 + r.below(6); bool ex = r.chance(50); uint64_t v = 0; d.enum_explicit = ex;
        for (size_t i = 0; i < n; ++i) { d.enum_names.push_back(f.name + "_v" + std::to_string(i)); if (ex) { v += (i ? 1 : 0) + r.below(200); d.enum_vals.push_back(v); } }
        it = enum_defs.emplace(f.name, d).first;
      }
      f.enum_names = it->second.enum_names; f.enum_vals = it->second.enum_vals; f.enum_explicit = it->second.enum_explicit;
      gen_op(f, f.op, f.t, f.optional, c); break; }
    case T::BOOL: f.enum_names = {"false", "true"}; gen_op(f, f.op, f.t, f.optional, c); break;
    case T::DEC:
      if (!f.indiv) gen_op(f, f.op, f.t, f.optional, c);
      else {
        f.has_exp = r.chance(85); f.has_man = !f.has_exp || r.chance(85);
        if (f.has_exp) {
          static const std::vector<Op> eo{Op::None, Op::Constant, Op::Default, Op::Copy, Op::Delta};
          f.op.op = r.pick(eo);
          if (f.op.op == Op::Constant || (f.op.op == Op::Default && !f.optional) || (f.op.op != Op::None && r.chance(45))) {
            f.op.has_init = true; f.op.init.present = true; f.op.init.e = (int)r.range(-8, 8); f.op.init_text = std::to_string(f.op.init.e);
          }
          gen_op_attrs(f, f.op, "E");
        }
        if (f.has_man) gen_op(f, f.mop, T::I64, false, "l");
        f.form = 0;
      }
      break;
    case T::GROUP: case T::SEQ: {
      std::set<std::string> u2; int n = 1 + (int)r.below(4);
      if (cfg.cpp_safe) { outer.push_back(f.name); u2.insert(outer.begin(), outer.end()); }
      for (int i = 0; i < n; ++i) f.sub.push_back(gen_field(depth + 1, u2, false));
      if (cfg.cpp_safe) outer.pop_back();
      if (cfg.unnamed_pct && f.t == T::SEQ && r.chance(cfg.unnamed_pct)) { T k = f.sub[0].t; if (k != T::GROUP && k != T::SEQ && k != T::TREF && k != T::ENUM) { f.sub.resize(1); f.sub[0].name.clear(); f.sub[0].form = 0; if (f.sub[0].tag) f.sub[0].tag = 1; } }
      if (cfg.dicts && r.chance(cfg.dict_heavy ? 40 : 15)) f.dict = dict_pick();
      if (cfg.typerefs && r.chance(cfg.dict_heavy ? 40 : 15)) { f.typeref = r.chance(50) ? "TypeA" : "TypeB"; if (cfg.ns && r.chance(25)) f.typeref_ns = ns_pick(); }
      if (f.t == T::SEQ) {
        f.has_length = cfg.length_ops ? r.chance(60) : r.chance(30);
        if (f.has_length) {
          f.len_name = r.chance(80) ? "len" + std::to_string(r.below(3)) + "_" + f.name : "";
          if (r.chance(30)) f.len_id = 1 + (uint32_t)r.below(5000);
          if (cfg.length_ops && r.chance(70)) {
            Field tmp; tmp.t = T::U32; tmp.name = f.len_name;
            f.len_op.op = r.pick(std::vector<Op>{Op::Default, Op::Copy, Op::Copy, Op::Increment, Op::Delta, Op::Constant});
            bool need = f.len_op.op == Op::Constant || (f.len_op.op == Op::Default && !f.optional);
            if (need || r.chance(45)) { f.len_op.has_init = true; f.len_op.init.present = true; f.len_op.init.u = r.below(4); f.len_op.init_text = std::to_string(f.len_op.init.u); }
            gen_op_attrs(tmp, f.len_op, "u");
            if (f.len_name.empty() && f.len_op.key.empty()) f.len_op.key = "klen" + std::to_string(r.below(2));
          }
        }
      }
      f.form = 0;
      break; }
    default:
      if (is_vec(f.t)) break;
      gen_op(f, f.op, f.t, f.optional, c);
      if (f.t == T::BYTES && f.op.op == Op::Constant) f.tag &= ~1ull;
    }
    return f;
  }

  // lets groups and sequences include earlier templates, on their own or between other fields
  void static_inside(Field &f, int i, int di) {
    if (f.t != T::GROUP && f.t != T::SEQ) return;
    for (auto &x : f.sub) static_inside(x, i, di);
    if (!r.chance(12)) return;
    int j = (int)r.below(i); if (doc_of(j) > di || doc_of(j) < 0) return;
    bool sole = r.chance(60); std::set<std::string> used;
    if (!sole) { if (f.sub.size() == 1 && f.sub[0].name.empty()) return; for (auto &x : flatten(f.sub)) used.insert(x.name); }
    for (auto &x : flatten(sc.t[j].src)) if (x.t == T::TREF || x.name.empty() || used.count(x.name)) return;
    Field s; s.t = T::STATIC; s.ref_name = sc.t[j].name;
    if (sole) f.sub.clear();
    f.sub.insert(f.sub.begin() + r.below(f.sub.size() + 1), s);
  }
  // does `to` (transitively) include template `from` ?
  Schema generate() {
    int nd = 1 + (int)r.below(cfg.max_docs), nt = 1 + (int)r.below(cfg.max_templates);
    if (nt < nd) nd = nt;
    sc.docs.resize(nd);
    for (auto &d : sc.docs) {
      if (cfg.ns && r.chance(30)) d.template_ns = ns_pick();
      if (cfg.ns && r.chance(20)) d.ns = ns_pick();
      if (cfg.dicts && r.chance(25)) d.dict = dict_pick();
    }
    std::set<uint32_t> ids;
    for (int i = 0; i < nt; ++i) {
      Template t;
      t.name = "T" + std::to_string(i);
      do t.id = r.chance(60) ? 1 + (uint32_t)r.below(20) : r.chance(80) ? 1 + (uint32_t)r.below(70000) : 0xFFFFFFFFu - (uint32_t)r.below(5); while (!ids.insert(t.id).second);
      if (cfg.dicts && r.chance(20)) t.dict = dict_pick();
      if (cfg.typerefs && r.chance(12)) { t.typeref = r.chance(50) ? "TypeA" : "TypeB"; if (cfg.ns && r.chance(25)) t.typeref_ns = ns_pick(); }
      t.reset = cfg.resets && i > 0 && r.chance(10);
      std::set<std::string> used;
      int nf = 1 + (int)r.below(cfg.max_fields);
      int di = i < nd ? i : (int)r.below(nd);
      sc.docs[di].tmpl.push_back(i);
      if (cfg.many_pmap && r.chance(cfg.many_pct)) {
        int extra = (int)r.range(40, 200);
        for (int k = 0; k < extra; ++k) {
          Field f; f.t = r.chance(50) ? T::U32 : T::I32; f.name = std::string("p") + code(f.t, false) + std::to_string(k); f.optional = r.chance(50);
          f.op.op = r.chance(40) ? Op::Copy : r.chance(50) ? Op::Default : Op::Increment;
          if ((f.op.op == Op::Default && !f.optional) || r.chance(60)) gen_init(f, f.op, f.t);
          if (r.chance(3)) { Field g; g.t = T::GROUP; g.name = "pg" + std::to_string(k); g.optional = true; std::set<std::string> u3; g.sub.push_back(gen_field(cfg.max_depth, u3, false)); t.src.push_back(g); }
          t.src.push_back(f);
        }
        // groups with many bits of their own
        if (r.chance(40)) { Field g; g.t = T::GROUP; g.name = "pgg"; g.optional = r.chance(50);
          if (r.chance(40)) { g.t = T::SEQ; g.name = "pgs"; }
          for (int k = 0, many = (int)r.range(8, 250); k < many; ++k) { Field f; f.t = T::U32; f.name = "qu" + std::to_string(k); f.optional = true; f.op.op = r.chance(50) ? Op::Copy : Op::Increment; g.sub.push_back(f); }
          t.src.push_back(g); }
      }
      for (int k = 0; k < nf; ++k) {
        if (cfg.static_ref && i > 0 && r.chance(8)) {
          // include an earlier template whose field names do not clash
          int j = (int)r.below(i); bool clash = false;
          std::vector<Field> fl = flatten(sc.t[j].src);
          for (auto &x : fl) if (x.t != T::TREF && used.count(x.name)) clash = true;
          int dj = doc_of(j);
          if (!clash && dj <= di && (sc.docs[dj].template_ns == sc.docs[di].template_ns || true)) {
            for (auto &x : fl) used.insert(x.name);
            Field f; f.t = T::STATIC; f.ref_name = sc.t[j].name; t.src.push_back(f); continue;
          }
        }
        t.src.push_back(gen_field(1, used, true));
        if (cfg.static_ref && i > 0) static_inside(t.src.back(), i, di);
      }
      sc.t.push_back(t);
    }
    resolve();
    write();
    return sc;
  }
  int doc_of(int tmpl) const { for (size_t d = 0; d < sc.docs.size(); ++d) for (int x : sc.docs[d].tmpl) if (x == tmpl) return (int)d; return -1; }
  int tmpl_named(const std::string &n) const { for (size_t i = 0; i < sc.t.size(); ++i) if (sc.t[i].name == n) return (int)i; return -1; }
  std::vector<Field> flatten(const std::vector<Field> &src) const {
    std::vector<Field> o;
    for (auto f : src) {
      if (f.t == T::STATIC) { auto in = flatten(sc.t[tmpl_named(f.ref_name)].src); o.insert(o.end(), in.begin(), in.end()); }
      else { f.sub = flatten(f.sub); o.push_back(f); }
    }
    return o;
  }
  // dictionary context
  struct Ctx { std::string ns, dict, tmpl, type; };
  std::map<std::string, int> slot_index;
  int slot_for(const Ctx &c, const std::string &fname, const std::string &fns, const OpSpec &o, int vtype, int uid) {
    if (o.op != Op::Copy && o.op != Op::Increment && o.op != Op::Delta && o.op != Op::Tail) return -1;
    std::string dict = o.dict.empty() ? c.dict : o.dict;
    if (dict.empty()) dict = "global";
    std::string ns = !o.ns.empty() ? o.ns : !fns.empty() ? fns : c.ns;
    std::string key = dict;
    if (dict == "template") key += "\1" + c.tmpl; else if (dict == "type") key += "\1" + c.type;
    key += "\2" + ns + "\3" + (o.key.empty() ? fname : o.key);
    auto it = slot_index.find(key);
    if (it == slot_index.end()) { it = slot_index.emplace(key, (int)sc.slots.size()).first; sc.slots.push_back({key, vtype, {}}); }
    SlotInfo &s = sc.slots[it->second];
    if (s.vtype != vtype) conflict = true;
    s.users.push_back(uid);
    return it->second;
  }
  bool conflict = false;
  static int vtype_of(const Field &f) { return is_enum(f.t) ? (int)T::U64 : (int)f.t; }
  uint64_t op_bits(const OpSpec &o, bool optional) {
    switch (o.op) { case Op::None: case Op::Delta: return 0; case Op::Constant: return optional ? 1 : 0; default: return 1; }
  }
  uint64_t resolve_fields(std::vector<Field> &fs, const Ctx &c) {
    uint64_t bits = 0;
    for (auto &f : fs) {
      f.uid = sc.nuid++;
      switch (f.t) {
      case T::GROUP: case T::SEQ: {
        Ctx in = c;
        if (!f.ns.empty()) in.ns = f.ns;
        if (!f.dict.empty()) in.dict = f.dict;
        if (!f.typeref.empty()) in.type = (f.typeref_ns.empty() ? in.ns : f.typeref_ns) + "|" + f.typeref;
        f.pm_bits = resolve_fields(f.sub, in);
        if (f.t == T::GROUP) bits += f.optional;
        else { bits += op_bits(f.len_op, f.optional); f.len_op.slot = slot_for(c, f.len_name, "", f.len_op, (int)T::U32, f.uid); }
        break; }
      case T::DEC:
        if (f.indiv) {
          f.op.slot = slot_for(c, f.name + "....exponent", f.ns, f.op, 1000, f.uid);
          f.mop.slot = slot_for(c, f.name + "....mantissa", f.ns, f.mop, (int)T::I64, f.uid);
          bits += op_bits(f.op, f.optional) + op_bits(f.mop, false);
        } else { f.op.slot = slot_for(c, f.name, f.ns, f.op, (int)T::DEC, f.uid); bits += op_bits(f.op, f.optional); }
        break;
      case T::TREF: break;
      default:
        if (is_vec(f.t)) break;
        f.op.slot = slot_for(c, f.name, f.ns, f.op, vtype_of(f), f.uid); bits += op_bits(f.op, f.optional);
      }
    }
    return bits;
  }
  void resolve() {
    slot_index.clear(); sc.slots.clear(); sc.nuid = 0; conflict = false;
    for (auto &d : sc.docs) for (int ti : d.tmpl) {
      Template &t = sc.t[ti];
      t.f = flatten(t.src);
      Ctx c; c.ns = t.ns.empty() ? d.template_ns : t.ns; c.dict = t.dict.empty() ? d.dict : t.dict;
      c.tmpl = c.ns + "|" + t.name;
      if (!t.typeref.empty()) c.type = (t.typeref_ns.empty() ? c.ns : t.typeref_ns) + "|" + t.typeref;
      resolve_fields(t.f, c);
    }
  }

  // ------------------------------------------------------------ documents
  int ndef = 0;
  std::vector<std::string> outer; // names of the enclosing groups
  std::string attr(const char *n, const std::string &v) { return v.empty() ? "" : std::string(" ") + n + "=\"" + xml_escape(v) + "\""; }
  std::string op_xml(const OpSpec &o) {
    if (o.op == Op::None) return "";
    std::string s = std::string("<") + op_name(o.op);
    std::string a[4] = {attr("key", o.key), attr("ns", o.ns), attr("dictionary", o.dict), o.has_init ? " value=\"" + o.init_text + "\"" : ""};
    for (int i = 3; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
    for (auto &x : a) s += x;
    return s + "/>";
  }
  std::string common_attrs(const Field &f, bool with_presence = true) {
    std::string a[4] = {attr("name", f.name), f.id ? " id=\"" + std::to_string(f.id) + "\"" : "", attr("ns", f.ns),
      with_presence ? (f.optional ? " presence=\"optional\"" : r.chance(30) ? " presence=\"mandatory\"" : "") : ""};
    for (int i = 3; i > 0; --i) std::swap(a[i], a[r.below(i + 1)]);
    return a[0] + a[1] + a[2] + a[3] + (f.tag ? " mfast:tag=\"" + std::to_string(f.tag) + "\"" : "");
  }
  std::string type_body(const Field &f) { // element content that belongs to the type
    std::string s;
    if (f.t == T::ENUM) for (size_t i = 0; i < f.enum_names.size(); ++i) {
      s += "<element name=\"" + f.enum_names[i] + "\"";
      if (!f.enum_vals.empty()) s += " value=\"" + std::to_string(f.enum_vals[i]) + "\"";
      s += "/>";
    }
    return s;
  }
  std::string tag_of(const Field &f) {
    switch (f.t) {
    case T::ASCII: case T::UNI: return "string";
    default: return type_name(f.t); }
  }
  std::string charset(const Field &f) { return f.t == T::UNI ? " charset=\"unicode\"" : f.t == T::ASCII && r.chance(20) ? " charset=\"ascii\"" : ""; }
  std::string field_xml(const Field &f, std::string &defs) {
    switch (f.t) {
    case T::STATIC: return "<templateRef name=\"" + f.ref_name + "\"" + ref_ns(f.ref_name) + "/>";
    case T::TREF: return "<templateRef/>";
    case T::GROUP: case T::SEQ: {
      std::string tag = f.t == T::GROUP ? "group" : "sequence";
      std::string s = "<" + tag + common_attrs(f) + attr("dictionary", f.dict) + ">";
      if (!f.typeref.empty()) s += "<typeRef name=\"" + f.typeref + "\"" + attr("ns", f.typeref_ns) + "/>";
      if (f.t == T::SEQ && f.has_length) s += "<length" + attr("name", f.len_name) + (f.len_id ? " id=\"" + std::to_string(f.len_id) + "\"" : "") + (f.len_op.op == Op::None ? "/>" : ">" + op_xml(f.len_op) + "</length>");
      for (auto &x : f.sub) s += field_xml(x, defs);
      return s + "</" + tag + ">"; }
    case T::DEC: if (f.indiv) {
      std::string s = "<decimal" + common_attrs(f) + ">";
      std::string e = f.has_exp ? "<exponent>" + op_xml(f.op) + "</exponent>" : "", m = f.has_man ? "<mantissa>" + op_xml(f.mop) + "</mantissa>" : "";
      return s + e + m + "</decimal>";
    } break;
    default: break;
    }
    std::string tag = tag_of(f), body = type_body(f), op = op_xml(f.op);
    if (f.form == 1) return "<field" + common_attrs(f) + "><" + tag + charset(f) + ">" + body + "</" + tag + ">" + op + "</field>";
    if (f.form == 2) {
      std::string dn = "D" + std::to_string(ndef++);
      bool op_in_def = false;
      defs += "<define name=\"" + dn + "\"><" + tag + charset(f) + ">" + body + (op_in_def ? op : "") + "</" + tag + "></define>";
      return "<field" + common_attrs(f) + "><type name=\"" + dn + "\"/>" + op + "</field>";
    }
    std::string in = body + op;
    if (r.chance(50)) in = op + body;
    return "<" + tag + common_attrs(f) + charset(f) + (in.empty() ? "/>" : ">" + in + "</" + tag + ">");
  }
  int writing_doc = 0;
  std::string ref_ns(const std::string &name) {
    int d = doc_of(tmpl_named(name));
    if (sc.docs[d].template_ns == sc.docs[writing_doc].template_ns) return "";
    return " templateNs=\"" + sc.docs[d].template_ns + "\"";
  }
  void write() {
    sc.xml.clear();
    for (size_t d = 0; d < sc.docs.size(); ++d) {
      writing_doc = (int)d;
      const Doc &doc = sc.docs[d];
      std::string s = r.chance(50) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "";
      s += "<templates xmlns=\"http://www.fixprotocol.org/ns/template-definition\"" + attr("ns", doc.ns) + attr("templateNs", doc.template_ns) + attr("dictionary", doc.dict) + ">\n";
      for (int ti : doc.tmpl) {
        const Template &t = sc.t[ti];
        std::string defs, body;
        for (auto &f : t.src) body += "  " + field_xml(f, defs) + "\n";
        s += defs + "<template name=\"" + t.name + "\" id=\"" + std::to_string(t.id) + "\"" + attr("dictionary", t.dict) + (t.reset ? (r.chance(50) ? " reset=\"yes\"" : " scp:reset=\"true\" xmlns:scp=\"http://www.fixprotocol.org/ns/fast/scp/1.1\"") : "") + ">\n" + (t.typeref.empty() ? "" : "  <typeRef name=\"" + t.typeref + "\"" + attr("ns", t.typeref_ns) + "/>\n") + body + "</template>\n";
      }
      s += "</templates>\n";
      sc.xml.push_back(s);
    }
  }
};

// can the fields be members of nested classes?
inline bool cpp_names(const std::vector<Field> &fs, std::vector<std::string> &outer) {
  std::set<std::string> here;
  for (auto &f : fs) { if (f.t == T::TREF) continue; if (!here.insert(f.name).second) return false;
    if (f.t != T::SEQ && f.t != T::GROUP) continue;
    for (auto &o : outer) if (o == f.name) return false;
    outer.push_back(f.name); for (auto &g : f.sub) for (auto &o : outer) if (o == g.name) return false;
    if (!cpp_names(f.sub, outer)) return false; outer.pop_back(); }
  return true;
}
inline Schema make_schema(Rng &r, const GenCfg &cfg) {
  for (;;) {
    SchemaGen g(r, cfg);
    Schema s = g.generate();
    if (g.conflict) continue;
    bool ok = true; if (cfg.cpp_safe) for (auto &t : s.t) { std::vector<std::string> outer; if (!cpp_names(t.f, outer)) ok = false; }
    if (ok) return s;
  }
}
} // namespace vf
