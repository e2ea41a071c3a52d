// What the files of generated types use to read and write fields through the
// typed accessors and to compare them with generic access.
#pragma once
#include "world.h"
namespace vf {
typedef std::vector<Value> Values;
struct Typed {
  const Schema &sc; const std::vector<const mfast::template_instruction *> &inst; Rng &r; std::string error; uint64_t checks = 0;
  Typed(const Schema &s, const std::vector<const mfast::template_instruction *> &i, Rng &r_) : sc(s), inst(i), r(r_) {}
  bool flip() { return r.chance(50); }
  static const mfast::value_storage *at(const mfast::field_cref &f) { return mfast::field_cref_core_access::storage_of(f); }
  template <class M> void bad(const M &m, size_t i, const char *what) { if (error.empty()) { const mfast::aggregate_cref a(m); error = std::string(what) + " (field " + std::to_string(i) + " " + (i < a.num_fields() ? a[i].name() : "?") + ")"; } }
  template <class M> void count(const M &m, size_t n) { if (mfast::aggregate_cref(m).num_fields() != n) bad(m, 0, "number of fields"); }
  template <class M> void place(const M &m, size_t i, const mfast::field_cref &x) { ++checks; mfast::field_cref g = mfast::aggregate_cref(m)[i]; if (at(g) != at(x) || g.instruction() != x.instruction()) bad(m, i, "the typed accessor refers to another field"); }
  template <class M, class G> void group(const M &m, size_t i, const G &x) {
    ++checks; mfast::field_cref g = mfast::aggregate_cref(m)[i];
    if (g.present() != x.present()) { bad(m, i, "the typed accessor of a group differs in presence"); return; }
    if (!g.present()) return;
    mfast::aggregate_cref a(g), b(x); if (a.num_fields() != b.num_fields()) { bad(m, i, "the typed accessor refers to another group"); return; }
    for (size_t k = 0; k < a.num_fields(); ++k) if (at(a[k]) != at(b[k])) bad(m, i, "the typed accessor refers to another group");
  }
  template <class M> void sole(const M &m, size_t i, const mfast::nested_message_cref &x) { ++checks; mfast::field_cref g = mfast::aggregate_cref(m)[i]; if (!g.present()) { if (x.present()) bad(m, i, "the typed accessor of an absent group is present"); return; } if (at(mfast::aggregate_cref(g)[0]) != at(x)) bad(m, i, "the typed accessor refers to another field"); }
  template <class M, class F> void try_get(const M &m, size_t i, F f) { ++checks; mfast::field_cref g = mfast::aggregate_cref(m)[i]; bool thrown = false; try { f(); } catch (mfast::bad_optional_access &) { thrown = true; } if (thrown != !g.present()) bad(m, i, "try_get: throws although present, or not although absent"); }
  template <class M> void enumerator(const M &m, size_t i, uint64_t got, uint64_t want) { ++checks; if (got != want) bad(m, i, "value of an enumerator"); }
  template <class M> void is(const M &m, size_t i, bool got, bool want) { ++checks; if (got != want) bad(m, i, "is_: wrong answer"); }
  // generic access, by position
  const Field &field_of(const std::vector<Field> &fs, size_t i) { return fs[i]; }
  const std::vector<Field> *here = nullptr;
  template <class M> Value generic(const M &m, size_t i) { return read_any(mfast::aggregate_cref(m)[i]); }
  template <class M> void generic(const M &m, size_t i, const Value &v) { write_any(mfast::aggregate_mref(m)[i], v); }
  Value read_any(const mfast::field_cref &c) {
    Value v; v.present = c.present(); if (!v.present) return v;
    if (c.field_type() == mfast::field_type_templateref) { mfast::nested_message_cref n(c); v.tmpl = template_index(n.target_instruction(), sc); if (v.tmpl >= 0) v.elems.push_back(read_fields(sc.t[v.tmpl].f, n.target(), sc)); return v; }
    v.elems.emplace_back(); mfast::aggregate_cref a(c); for (size_t k = 0; k < a.num_fields(); ++k) v.elems[0].push_back(read_any(a[k])); return v; // a group of a reference only
  }
  void write_any(const mfast::field_mref &m, const Value &v) {
    if (m.field_type() == mfast::field_type_group) { mfast::group_mref g(m); write_any(g[0], v.elems.at(0).at(0)); return; }
    Field f; f.t = T::TREF; f.optional = m.optional();
    switch (m.field_type()) {
    case mfast::field_type_templateref: break;
    case mfast::field_type_int32: f.t = T::I32; break; case mfast::field_type_uint32: f.t = T::U32; break; case mfast::field_type_int64: f.t = T::I64; break; case mfast::field_type_uint64: f.t = T::U64; break;
    case mfast::field_type_decimal: f.t = T::DEC; break; case mfast::field_type_exponent: f.t = T::DEC; break; case mfast::field_type_ascii_string: f.t = T::ASCII; break; case mfast::field_type_unicode_string: f.t = T::UNI; break; case mfast::field_type_byte_vector: f.t = T::BYTES; break; case mfast::field_type_enum: f.t = T::ENUM; break;
    default: throw BridgeError{"unexpected type of a constant field"}; }
    if (f.t != T::TREF) f.op.op = Op::Constant;
    write_field(f, v, m, sc, inst);
  }
  // typed values
  template <class C> static Value num(const C &c) { Value v; v.present = c.present(); if (v.present) v.u = (uint64_t)(int64_t)c.value(); return v; }
  template <class C> static Value str(const C &c) { Value v; v.present = c.present(); if (v.present) v.s = view_str((const char *)c.data(), c.size()); return v; }
  template <class C> static Value vec(const C &c) { Value v; v.present = c.present(); if (v.present) for (size_t i = 0; i < c.size(); ++i) v.iv.push_back((uint64_t)c[i]); return v; }
  static Value value(const mfast::int32_cref &c) { return num(c); }
  static Value value(const mfast::uint32_cref &c) { return num(c); }
  static Value value(const mfast::int64_cref &c) { return num(c); }
  static Value value(const mfast::uint64_cref &c) { return num(c); }
  static Value value(const mfast::decimal_cref &c) { Value v; v.present = c.present(); if (v.present) { v.u = (uint64_t)c.mantissa(); v.e = c.exponent(); } return v; }
  static Value value(const mfast::ascii_string_cref &c) { return str(c); }
  static Value value(const mfast::unicode_string_cref &c) { return str(c); }
  static Value value(const mfast::byte_vector_cref &c) { return str(c); }
  static Value value(const mfast::int32_vector_cref &c) { return vec(c); }
  static Value value(const mfast::uint32_vector_cref &c) { return vec(c); }
  static Value value(const mfast::int64_vector_cref &c) { return vec(c); }
  static Value value(const mfast::uint64_vector_cref &c) { return vec(c); }
  static Value value(const mfast::boolean_cref &c) { Value v; v.present = c.present(); if (v.present) v.u = c.value(); return v; }
  template <class C, class = typename C::element_type> static Value value(const C &c) { Value v; v.present = c.present(); if (v.present) v.u = (uint64_t)c.value(); return v; }
  void assign(const mfast::int32_mref &m, const Value &v) { m.as((int32_t)(int64_t)v.u); }
  void assign(const mfast::uint32_mref &m, const Value &v) { m.as((uint32_t)v.u); }
  void assign(const mfast::int64_mref &m, const Value &v) { m.as((int64_t)v.u); }
  void assign(const mfast::uint64_mref &m, const Value &v) { m.as(v.u); }
  void assign(const mfast::decimal_mref &m, const Value &v) { m.as((int64_t)v.u, (int16_t)v.e); }
  void assign(const mfast::ascii_string_mref &m, const Value &v) { if (flip()) m.as(v.s); else m.assign(v.s.begin(), v.s.end()); }
  void assign(const mfast::unicode_string_mref &m, const Value &v) { m.assign(v.s.begin(), v.s.end()); }
  void assign(const mfast::byte_vector_mref &m, const Value &v) { const unsigned char *p = (const unsigned char *)v.s.data(); m.assign(p, p + v.s.size()); }
  void assign(const mfast::int32_vector_mref &m, const Value &v) { write_vec<mfast::int32_vector_mref>(m, v); }
  void assign(const mfast::uint32_vector_mref &m, const Value &v) { write_vec<mfast::uint32_vector_mref>(m, v); }
  void assign(const mfast::int64_vector_mref &m, const Value &v) { write_vec<mfast::int64_vector_mref>(m, v); }
  void assign(const mfast::uint64_vector_mref &m, const Value &v) { write_vec<mfast::uint64_vector_mref>(m, v); }
  void assign(const mfast::boolean_mref &m, const Value &v) { m.as(v.u != 0); }
  template <class M, class E = typename M::element_type> void assign(const M &m, const Value &v) { m.as((E)v.u); }
};
struct GenTyped {
  std::shared_ptr<mfast::message_type> (*make)(mfast::allocator *);
  void (*read)(Typed &, const mfast::message_cref &, Values &);
  void (*write)(Typed &, const mfast::message_mref &, const Values &);
  void (*write_object)(Typed &, mfast::message_type &, const Values &);
  void (*read_object)(Typed &, mfast::message_type &, Values &);
  std::shared_ptr<mfast::message_type> (*copy)(const mfast::message_cref &, mfast::allocator *);
  const mfast::template_instruction *(*instruction)();
  uint32_t id;
};
} // namespace vf
