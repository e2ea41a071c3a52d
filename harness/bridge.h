// Moves values between the model and mFAST messages through the public API.
#pragma once
#include "model.h"
#include <mfast.h>
#include <mfast/xml_parser/dynamic_templates_description.h>
#include <mfast/coder/fast_decoder.h>
#include <mfast/coder/fast_encoder.h>
#include <mfast/coder/common/exceptions.h>
namespace vf {

struct BridgeError { std::string what; };

// The descriptions loaded from a schema's documents, with the template
// instruction of every template of the model.
struct Loaded {
  mfast::template_registry reg;
  std::vector<std::unique_ptr<mfast::dynamic_templates_description>> desc;
  std::vector<const mfast::templates_description *> ptr;
  std::vector<const mfast::template_instruction *> inst;
  explicit Loaded(const Schema &sc) {
    for (size_t i = 0; i < sc.xml.size(); ++i) {
      std::string ns = "doc" + std::to_string(i);
      desc.emplace_back(new mfast::dynamic_templates_description(sc.xml[i].c_str(), ns.c_str(), &reg));
      ptr.push_back(desc.back().get());
    }
    inst.resize(sc.t.size());
    for (auto &d : desc) for (uint32_t k = 0; k < d->size(); ++k) {
      const mfast::template_instruction *ti = (*d)[k];
      for (size_t t = 0; t < sc.t.size(); ++t) if (sc.t[t].name == ti->name()) inst[t] = ti;
    }
    for (auto p : inst) if (!p) throw BridgeError{"a template of the document is missing from the description"};
  }
};

inline std::string view_str(const char *p, size_t n) { return n ? std::string(p, n) : std::string(); }

inline Value read_field(const Field &f, const mfast::field_cref &c, const Schema &sc);
inline std::vector<Value> read_fields(const std::vector<Field> &fs, const mfast::aggregate_cref &a, const Schema &sc) {
  if (a.num_fields() != fs.size()) throw BridgeError{"number of fields differs: " + std::to_string(a.num_fields()) + " instead of " + std::to_string(fs.size())};
  std::vector<Value> r; r.reserve(fs.size());
  for (size_t i = 0; i < fs.size(); ++i) r.push_back(read_field(fs[i], a[i], sc));
  return r;
}
inline int template_index(const mfast::template_instruction *ti, const Schema &sc) {
  if (!ti) return -1;
  for (size_t t = 0; t < sc.t.size(); ++t) if (sc.t[t].name == ti->name() && sc.t[t].id == ti->id()) return (int)t;
  throw BridgeError{"message of a template that is not in the schema"};
}
inline mfast::field_type_enum_t mf_type(T t) {
  using namespace mfast;
  switch (t) {
  case T::I32: return field_type_int32; case T::U32: return field_type_uint32; case T::I64: return field_type_int64; case T::U64: return field_type_uint64;
  case T::DEC: return field_type_decimal; case T::ASCII: return field_type_ascii_string; case T::UNI: return field_type_unicode_string; case T::BYTES: return field_type_byte_vector;
  case T::BOOL: case T::ENUM: return field_type_enum;
  case T::VI32: return field_type_int32_vector; case T::VU32: return field_type_uint32_vector; case T::VI64: return field_type_int64_vector; case T::VU64: return field_type_uint64_vector;
  case T::GROUP: return field_type_group; case T::SEQ: return field_type_sequence; case T::TREF: return field_type_templateref; default: return field_type_group; }
}
template <class C> inline void read_vec(const mfast::field_cref &c, Value &v) { C x(c); for (size_t i = 0; i < x.size(); ++i) v.iv.push_back((uint64_t)(int64_t)x[i]); }
inline Value read_field(const Field &f, const mfast::field_cref &c, const Schema &sc) {
  using namespace mfast;
  if (c.field_type() != (f.t == T::DEC && f.indiv ? field_type_exponent : mf_type(f.t))) throw BridgeError{"field " + f.name + " has type number " + std::to_string((int)c.field_type()) + " instead of " + std::to_string((int)mf_type(f.t))};
  Value v; v.present = c.present();
  if (!v.present) return v;
  switch (f.t) {
  case T::I32: v.u = (uint64_t)(int64_t)int32_cref(c).value(); break;
  case T::U32: v.u = uint32_cref(c).value(); break;
  case T::I64: v.u = (uint64_t)int64_cref(c).value(); break;
  case T::U64: v.u = uint64_cref(c).value(); break;
  case T::BOOL: case T::ENUM: v.u = enum_cref(c).value(); break;
  case T::DEC: v.u = (uint64_t)decimal_cref(c).mantissa(); v.e = decimal_cref(c).exponent(); break;
  case T::ASCII: { ascii_string_cref s(c); v.s = view_str(s.data(), s.size()); break; }
  case T::UNI: { unicode_string_cref s(c); v.s = view_str(s.data(), s.size()); break; }
  case T::BYTES: { byte_vector_cref s(c); v.s = view_str((const char *)s.data(), s.size()); break; }
  case T::VI32: read_vec<int32_vector_cref>(c, v); break;
  case T::VU32: { uint32_vector_cref x(c); for (size_t i = 0; i < x.size(); ++i) v.iv.push_back(x[i]); break; }
  case T::VI64: read_vec<int64_vector_cref>(c, v); break;
  case T::VU64: read_vec<uint64_vector_cref>(c, v); break;
  case T::GROUP: v.elems.push_back(read_fields(f.sub, aggregate_cref(c), sc)); break;
  case T::SEQ: { sequence_cref s(c); for (uint32_t i = 0; i < s.size(); ++i) v.elems.push_back(read_fields(f.sub, s[i], sc)); break; }
  case T::TREF: {
    nested_message_cref n(c); v.tmpl = template_index(n.target_instruction(), sc);
    if (v.tmpl >= 0) v.elems.push_back(read_fields(sc.t[v.tmpl].f, n.target(), sc));
    break; }
  default: break;
  }
  return v;
}
inline Message read_message(const mfast::message_cref &m, const Schema &sc) {
  Message r; r.tmpl = template_index(m.instruction(), sc);
  r.f = read_fields(sc.t[r.tmpl].f, m, sc);
  return r;
}

inline void write_field(const Field &f, const Value &v, const mfast::field_mref &m, const Schema &sc, const std::vector<const mfast::template_instruction *> &inst);
inline void write_fields(const std::vector<Field> &fs, const std::vector<Value> &v, const mfast::aggregate_mref &a, const Schema &sc, const std::vector<const mfast::template_instruction *> &inst) {
  if (a.num_fields() != fs.size()) throw BridgeError{"number of fields differs"};
  for (size_t i = 0; i < fs.size(); ++i) write_field(fs[i], v[i], a[i], sc, inst);
}
template <class M> inline void write_vec(const mfast::field_mref &m, const Value &v) {
  M x(m); x.resize(v.iv.size());
  // resize does not mark an optional vector present when it stays empty in some histories: the value is what matters
  for (size_t i = 0; i < v.iv.size(); ++i) x[i] = (typename std::remove_reference<decltype(x[i])>::type)v.iv[i];
}
inline void write_field(const Field &f, const Value &v, const mfast::field_mref &m, const Schema &sc, const std::vector<const mfast::template_instruction *> &inst) {
  using namespace mfast;
  if (!v.present) { m.omit(); return; }
  if ((f.op.op == Op::Constant) && !(f.t == T::DEC && f.indiv) && f.t != T::GROUP && f.t != T::SEQ) {
    if (f.optional) {
      // an optional constant is present or absent; its value never changes
      switch (f.t) {
      case T::I32: int32_mref(m).to_initial_value(); return;
      case T::U32: uint32_mref(m).to_initial_value(); return;
      case T::I64: int64_mref(m).to_initial_value(); return;
      case T::U64: uint64_mref(m).to_initial_value(); return;
      case T::BOOL: case T::ENUM: enum_mref(m).to_initial_value(); return;
      case T::DEC: decimal_mref(m).to_initial_value(); return;
      case T::ASCII: ascii_string_mref(m).to_initial_value(); return;
      case T::UNI: unicode_string_mref(m).to_initial_value(); return;
      case T::BYTES: byte_vector_mref(m).to_initial_value(); return;
      default: break;
      }
    }
    return;
  }
  switch (f.t) {
  case T::I32: int32_mref(m).as((int32_t)(int64_t)v.u); break;
  case T::U32: uint32_mref(m).as((uint32_t)v.u); break;
  case T::I64: int64_mref(m).as((int64_t)v.u); break;
  case T::U64: uint64_mref(m).as(v.u); break;
  case T::BOOL: case T::ENUM: enum_mref(m).as(v.u); break;
  case T::DEC: decimal_mref(m).as((int64_t)v.u, (int16_t)v.e); break;
  case T::ASCII: ascii_string_mref(m).assign(v.s.begin(), v.s.end()); break;
  case T::UNI: unicode_string_mref(m).assign(v.s.begin(), v.s.end()); break;
  case T::BYTES: { const unsigned char *p = (const unsigned char *)v.s.data(); byte_vector_mref(m).assign(p, p + v.s.size()); break; }
  case T::VI32: write_vec<int32_vector_mref>(m, v); break;
  case T::VU32: write_vec<uint32_vector_mref>(m, v); break;
  case T::VI64: write_vec<int64_vector_mref>(m, v); break;
  case T::VU64: write_vec<uint64_vector_mref>(m, v); break;
  case T::GROUP: { group_mref g(m); write_fields(f.sub, v.elems.at(0), aggregate_mref(g), sc, inst); break; }
  case T::SEQ: { sequence_mref s(m); s.resize(v.elems.size());
    for (size_t i = 0; i < v.elems.size(); ++i) write_fields(f.sub, v.elems[i], s[i], sc, inst); break; }
  case T::TREF: {
    nested_message_mref n(m);
    if (v.tmpl < 0) break;
    message_mref t = n.rebind(inst[v.tmpl]);
    write_fields(sc.t[v.tmpl].f, v.elems.at(0), t, sc, inst);
    break; }
  default: break;
  }
}

} // namespace vf
