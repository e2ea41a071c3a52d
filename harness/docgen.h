// Template documents in every spelling the grammar (schema/mfast.rnc) allows,
// and the description they must load to, as text that can be compared.
#pragma once
#include "model.h"
#include "bridge.h"
#include <mfast/boolean_ref.h>
#include <algorithm>
namespace vf {
struct DocGen {
  Rng &r; Schema sc; bool shared_defs;
  DocGen(Rng &x, Schema s) : r(x), sc(std::move(s)), shared_defs(r.chance(70)) { vary(); }
  // ---- the template set: more than the coders' generator needs
  struct Def { T t; std::string name; Field body; int doc; bool with_op; };
  std::vector<Def> defs; int nd = 0;
  std::map<const Field *, std::string> dummy;
  static Field body_of(const Field &f) { Field b = f; b.name.clear(); b.ns.clear(); b.id = 0; b.optional = false; b.tag = 0; b.op = OpSpec(); return b; }
  static bool typed(const Field &f) { return f.t != T::STATIC && f.t != T::TREF; }
  std::map<std::string, int> use; // uid of the source field (by address path) -> definition
  struct Spell { int form = 0; int def = -1; int op_at = 0; bool write_def = false, over = false; }; // op_at: 0 on the field, 1 in the type element, 2 in the definition
  std::map<int, Spell> spell; int counter = 0;
  void vary_fields(std::vector<Field> &fs, int doc) {
    for (auto &f : fs) {
      if (!typed(f)) continue;
      f.uid = counter++; Spell &s = spell[f.uid];
      if (f.t == T::UNI || f.t == T::BYTES) if (r.chance(40)) { f.has_length = true; f.len_name = "n" + std::to_string(r.below(9)); if (r.chance(50)) f.len_id = r.chance(80) ? 1 + (uint32_t)r.below(900) : 0xFFFFFFFFu - (uint32_t)r.below(9); if (r.chance(40)) f.len_ns = "urn:l" + std::to_string(r.below(3)); }
      if (f.t == T::SEQ && f.has_length && r.chance(25)) f.len_ns = "urn:l" + std::to_string(r.below(3));
      if (r.chance(5)) f.id = 0xFFFFFFFFu - (uint32_t)r.below(9);
      if (r.chance(10)) f.tag = 1 + r.below(1000);
      s.form = f.name.empty() ? 0 : r.chance(50) ? 0 : 1 + (int)r.below(2);
      s.op_at = (int)r.below(s.form == 2 ? 3 : 2);
      if (is_vec(f.t) || f.t == T::GROUP || f.t == T::SEQ) s.op_at = 0;
      if (s.form == 2) {
        std::vector<int> fit; if (shared_defs) for (size_t i = 0; i < defs.size(); ++i) if (defs[i].t == f.t && (defs[i].doc == doc || ((f.t == T::GROUP || f.t == T::SEQ || f.t == T::ENUM) && defs[i].doc < doc && !sc.docs[defs[i].doc].template_ns.empty()))) fit.push_back((int)i);
        if (!fit.empty() && r.chance(60)) {
          s.def = r.pick(fit); const Def &d = defs[s.def];
          Field o = f; f = d.body; f.uid = o.uid; f.name = o.name; f.ns = o.ns; f.id = o.id; f.optional = o.optional; f.tag = o.tag; f.op = o.op;
          if (d.with_op && overrides(o, d.body) && r.chance(50)) { s.over = true; if (s.op_at == 2) s.op_at = (int)r.below(2); }
          else if (d.with_op) { f.op = d.body.op; s.op_at = 2; } else if (s.op_at == 2) s.op_at = (int)r.below(2);
          if (f.t == T::ENUM && (!d.with_op || s.over) && f.op.has_init) { size_t k = r.below(f.enum_names.size()); f.op.init.u = f.enum_vals.empty() ? k : f.enum_vals[k]; f.op.init_text = f.enum_names[k]; }
          if (f.t == T::DEC && f.indiv) { f.op = d.body.op; f.mop = d.body.mop; s.op_at = 2; }
          else if (f.t == T::DEC && !d.with_op && (o.indiv || !plain_dec(f.op))) f.op = OpSpec();
          if (f.optional == false && f.op.op == Op::Default && !f.op.has_init && !f.indiv) f.optional = true;
          if (f.indiv && f.op.op == Op::Default && !f.op.has_init) f.optional = true;
          if (f.t == T::SEQ && f.len_op.op == Op::Default && !f.len_op.has_init) f.optional = true;
        } else {
          if (f.t == T::GROUP || f.t == T::SEQ) vary_fields(f.sub, doc);
          if (f.t == T::DEC && f.indiv) s.op_at = 2; // the parts are written in the definition
          Def d; d.t = f.t; d.name = "D" + std::to_string(nd++); d.doc = doc; d.with_op = s.op_at == 2 && !(f.t == T::GROUP || f.t == T::SEQ || is_vec(f.t)); d.body = body_of(f); if (d.with_op) d.body.op = f.op;
          s.def = (int)defs.size(); s.write_def = true; defs.push_back(d); continue;
        }
        continue;
      }
      if (f.t == T::GROUP || f.t == T::SEQ) vary_fields(f.sub, doc);
    }
  }
  // an operator that replaces the one of the definition, leaving nothing of it
  static bool overrides(const Field &f, const Field &d) {
    const OpSpec &o = f.op, &b = d.op;
    return o.op != Op::None && !f.indiv && !d.indiv && (f.t != T::DEC || plain_dec(o)) && (b.key.empty() || !o.key.empty()) && (b.ns.empty() || !o.ns.empty()) && (b.dict.empty() || !o.dict.empty()) && (!b.has_init || o.has_init);
  }
  static bool plain_dec(const OpSpec &o) { return !(o.has_init && o.init_text.empty()); }
  void vary() {
    for (size_t d = 0; d < sc.docs.size(); ++d) for (int ti : sc.docs[d].tmpl) {
      vary_fields(sc.t[ti].src, (int)d);
      if (r.chance(20)) sc.t[ti].ns = "urn:f" + std::to_string(r.below(3));
    }
    for (size_t i = 0; i < sc.t.size(); ++i) sc.t[i].f = flatten(sc.t[i].src);
  }
  int tmpl_named(const std::string &n) const { for (size_t i = 0; i < sc.t.size(); ++i) if (sc.t[i].name == n) return (int)i; return -1; }
  int doc_of(int t) const { for (size_t d = 0; d < sc.docs.size(); ++d) for (int x : sc.docs[d].tmpl) if (x == t) return (int)d; return -1; }
  std::vector<Field> flatten(const std::vector<Field> &src) const {
    std::vector<Field> o;
    for (auto f : src) if (f.t == T::STATIC) { auto in = flatten(sc.t[tmpl_named(f.ref_name)].src); o.insert(o.end(), in.begin(), in.end()); } else { f.sub = flatten(f.sub); o.push_back(f); }
    return o;
  }
  // ---- spelling
  int doc = 0; std::set<int> written;
  std::string ws() {
    switch (r.below(12)) { case 0: return "\n"; case 1: return "  "; case 2: return "\t\n "; case 3: return "<!-- <int32 name=\"no\"/> -->"; case 4: return r.chance(50) ? "<!---->" : " "; default: return ""; }
  }
  std::string lit(const std::string &v) { // text of an attribute
    std::string o; for (char c : v) { if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '"') o += "&quot;"; else if (c == '\'') o += "&apos;"; else if (r.chance(3) && (unsigned char)c < 128) { char b[12]; snprintf(b, 12, r.chance(50) ? "&#%d;" : "&#x%x;", c); o += b; } else o += c; }
    return o;
  }
  std::string attr(const char *n, const std::string &v, bool even_empty = false) {
    if (v.empty() && !even_empty) return ""; std::string x = lit(v); char q = r.chance(80) ? '"' : '\'';
    return std::string(r.chance(10) ? "\n  " : " ") + n + (r.chance(5) ? " = " : "=") + q + x + q;
  }
  std::string shuffled(std::vector<std::string> a, const char *sep = "") { for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[r.below(i)]); std::string s; for (auto &x : a) { s += x; if (!x.empty() && *sep) s += ws(); } return s; }
  std::string foreign() { return r.chance(8) ? " x:note=\"y\"" : ""; }
  std::string elem(const std::string &tag, const std::string &attrs, const std::string &in) { return "<" + tag + attrs + foreign() + (in.empty() ? (r.chance(80) ? "/>" : "></" + tag + ">") : ">" + ws() + in + ws() + "</" + tag + (r.chance(5) ? " >" : ">")); }
  static std::string unescape(std::string s) { static const char *e[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&amp;", "&"}}; for (auto &p : e) { size_t i = 0; while ((i = s.find(p[0], i)) != std::string::npos) { s.replace(i, strlen(p[0]), p[1]); ++i; } } return s; }
  std::string op_xml(const OpSpec &o) {
    if (o.op == Op::None) return "";
    return elem(op_name(o.op), shuffled({attr("key", o.key), attr("ns", o.ns), attr("dictionary", o.dict), o.has_init ? attr("value", unescape(o.init_text), true) : ""}), "");
  }
  std::string length_xml(const Field &f) { return f.has_length ? elem("length", shuffled({attr("name", f.len_name), attr("id", f.len_id ? std::to_string(f.len_id) : ""), attr("ns", f.len_ns)}), f.t == T::SEQ ? op_xml(f.len_op) : "") : ""; }
  // the element of the type with everything that belongs to it; op: the operator written inside
  std::string type_elem(const Field &f, const std::string &attrs, bool with_op, bool with_fields = true) {
    std::string tag = f.t == T::ASCII || f.t == T::UNI ? "string" : type_name(f.t); std::string op = with_op ? op_xml(f.op) : "";
    std::vector<std::string> a{attrs};
    if (f.t == T::UNI) a.push_back(attr("charset", "unicode")); if (f.t == T::ASCII && r.chance(20)) a.push_back(attr("charset", "ascii"));
    std::string in;
    switch (f.t) {
    case T::GROUP: case T::SEQ: a.push_back(attr("dictionary", f.dict)); (void)with_fields;
      if (!f.typeref.empty()) in += elem("typeRef", shuffled({attr("name", f.typeref), attr("ns", f.typeref_ns)}), "") + ws();
      if (f.t == T::SEQ) in += length_xml(f) + ws();
      for (auto &x : f.sub) in += field_xml(x) + ws();
      break;
    case T::DEC: if (f.indiv) { in = shuffled({f.has_exp ? elem("exponent", "", op_xml(f.op)) : "", f.has_man ? elem("mantissa", "", op_xml(f.mop)) : ""}, " "); break; } in = op; break;
    case T::UNI: case T::BYTES: in = shuffled({length_xml(f), op}, " "); break;
    case T::ENUM: { std::string e; for (size_t i = 0; i < f.enum_names.size(); ++i) e += elem("element", shuffled({attr("name", f.enum_names[i]), f.enum_vals.empty() ? "" : attr("value", std::to_string(f.enum_vals[i]))}), "") + ws(); in = shuffled({e, op}, " "); break; }
    default: in = op; }
    return elem(tag, shuffled(a), in);
  }
  std::string field_xml(const Field &f) {
    if (f.t == T::TREF) return elem("templateRef", "", "");
    if (f.t == T::STATIC) { int d = doc_of(tmpl_named(f.ref_name)); std::string nsa; const std::string &want = sc.docs[d].template_ns; if (want != sc.docs[doc].template_ns || !sc.t[cur].ns.empty() || r.chance(20)) nsa = attr("templateNs", want, true); return elem("templateRef", shuffled({attr("name", f.ref_name), nsa}), ""); }
    const Spell &s = spell.at(f.uid);
    std::string common = shuffled({attr("name", f.name), attr("id", f.id ? std::to_string(f.id) : ""), attr("ns", f.ns), f.optional ? attr("presence", "optional") : r.chance(30) ? attr("presence", "mandatory") : "", f.tag && true ? attr("mfast:tag", std::to_string(f.tag)) : ""});
    bool whole = f.t == T::DEC && f.indiv; // the operators are those of the parts
    if (s.form == 0) return type_elem(f, common, true);
    if (s.form == 1) {
      if (whole || f.t == T::GROUP || f.t == T::SEQ || is_vec(f.t)) return elem("field", common, type_elem(f, "", true));
      return elem("field", common, shuffled({type_elem(f, "", s.op_at == 1), s.op_at == 0 ? op_xml(f.op) : ""}, "").find('<') == 0 ? two(type_elem(f, "", s.op_at == 1), s.op_at == 0 ? op_xml(f.op) : "") : "");
    }
    const Def &d = defs[s.def];
    std::string nsa = d.doc != doc ? attr("ns", sc.docs[d.doc].template_ns) : "";
    std::string op = whole || (d.with_op && !s.over) ? "" : op_xml(f.op);
    std::string ty = elem("type", shuffled({attr("name", d.name), nsa}), s.op_at == 1 ? op : "");
    return elem("field", common, two(ty, s.op_at == 1 ? "" : op));
  }
  std::string two(const std::string &a, const std::string &b) { return a + ws() + b; }
  void collect(const std::vector<Field> &fs, std::vector<int> &out) { // definitions used for the first time, innermost first
    for (auto &f : fs) { if (!typed(f)) continue; const Spell &s = spell.at(f.uid); if (s.form == 2) { if (defs[s.def].doc == doc && written.insert(s.def).second) { collect(defs[s.def].body.sub, out); out.push_back(s.def); } } else collect(f.sub, out); }
  }
  int cur = 0;
  std::vector<std::string> write() {
    std::vector<std::string> docs;
    for (size_t d = 0; d < sc.docs.size(); ++d) {
      doc = (int)d; const Doc &D = sc.docs[d];
      std::string in;
      for (int ti : D.tmpl) {
        cur = ti; const Template &t = sc.t[ti]; std::vector<int> ds; collect(t.src, ds);
        for (int k : ds) { in += elem("define", attr("name", defs[k].name), type_elem(defs[k].body, "", defs[k].with_op)) + ws(); }
        std::string body; if (!t.typeref.empty()) body += elem("typeRef", shuffled({attr("name", t.typeref), attr("ns", t.typeref_ns)}), "") + ws();
        for (auto &f : t.src) body += field_xml(f) + ws();
        std::string reset = t.reset ? (r.chance(50) ? attr("reset", "yes") : " scp:reset=\"true\"") : r.chance(10) ? attr("reset", "no") : "";
        in += elem("template", shuffled({attr("name", t.name), attr("id", std::to_string(t.id)), attr("dictionary", t.dict), attr("ns", t.ns), reset}), body) + ws() + "\n";
      }
      std::string s = r.chance(40) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : ""; s += r.chance(10) ? "\xEF\xBB\xBF" : "";
      if (s.size() > 3 && s.substr(s.size() - 3) == "\xEF\xBB\xBF") { s = "\xEF\xBB\xBF" + s.substr(0, s.size() - 3); }
      s += elem("templates", " xmlns=\"http://www.fixprotocol.org/ns/template-definition\" xmlns:scp=\"http://www.fixprotocol.org/ns/fast/scp/1.1\" xmlns:x=\"urn:other\" xmlns:mfast=\"http://www.ociweb.com/ns/mfast/td/1.2\"" + shuffled({attr("ns", D.ns), attr("templateNs", D.template_ns), attr("dictionary", D.dict)}), in);
      docs.push_back(s);
    }
    return docs;
  }
};
// ---- the description, from the model
inline std::string desc_op(const OpSpec &o, const std::string &init) {
  std::string s = std::string(" ") + op_name(o.op); if (o.op == Op::None) return s;
  return s + " key=" + cquote(o.key) + " ns=" + cquote(o.ns) + " dict=" + cquote(o.dict) + " init=" + (o.has_init ? init : "-");
}
inline std::string desc_fields(const std::vector<Field> &fs, int depth);
inline std::string desc_field(const Field &f, int depth) {
  std::string s = std::string(depth * 2, ' ') + type_name(f.t); if (f.t == T::TREF) return s + "\n";
  s += " name=" + cquote(f.name) + " id=" + std::to_string(f.id) + " ns=" + cquote(f.ns) + (f.optional ? " optional" : " mandatory") + " tag=" + std::to_string(f.tag);
  switch (f.t) {
  case T::GROUP: case T::SEQ:
    s += " dictionary=" + cquote(f.dict) + " typeRef=" + cquote(f.typeref) + "/" + cquote(f.typeref_ns);
    if (f.t == T::SEQ) { s += " length"; if (f.has_length) s += " name=" + cquote(f.len_name) + " id=" + std::to_string(f.len_id) + " ns=" + cquote(f.len_ns); s += (f.optional ? " optional" : " mandatory") + desc_op(f.has_length ? f.len_op : OpSpec(), std::to_string(f.len_op.init.u)); }
    return s + "\n" + desc_fields(f.sub, depth + 1);
  case T::DEC: if (f.indiv) return s + " exponent" + desc_op(f.op, std::to_string(f.op.init.e)) + " mantissa" + desc_op(f.mop, std::to_string((int64_t)f.mop.init.u)) + "\n"; break;
  case T::UNI: case T::BYTES: s += " length=" + cquote(f.has_length ? f.len_name : "") + "/" + std::to_string(f.has_length ? f.len_id : 0) + "/" + cquote(f.has_length ? f.len_ns : ""); break;
  case T::ENUM: case T::BOOL: s += " elements"; for (size_t i = 0; i < f.enum_names.size(); ++i) s += " " + cquote(f.enum_names[i]) + "=" + std::to_string(f.enum_vals.empty() ? i : f.enum_vals[i]); break;
  default: break; }
  if (is_vec(f.t)) return s + "\n";
  return s + desc_op(f.op, show(f.op.init, f.t)) + "\n";
}
inline std::string desc_fields(const std::vector<Field> &fs, int depth) { std::string s; for (auto &f : fs) s += desc_field(f, depth); return s; }
inline std::string desc_template(const Template &t, const Doc &) {
  return "template name=" + cquote(t.name) + " id=" + std::to_string(t.id) + " ns=" + cquote(t.ns) + " dictionary=" + cquote(t.dict) + " typeRef=" + cquote(t.typeref) + "/" + cquote(t.typeref_ns) + (t.reset ? " reset" : "") + "\n" + desc_fields(t.f, 1);
}
// ---- and from the instructions mFAST built
struct Describe {
  static std::string q(const char *s) { return cquote(s ? s : ""); }
  static std::string ctx(mfast::operator_enum_t op, const mfast::op_context_t *c, bool has, const std::string &init) {
    std::string s = std::string(" ") + names(op); if (op == mfast::operator_none) return s;
    return s + " key=" + q(c ? c->key_ : "") + " ns=" + q(c ? c->ns_ : "") + " dict=" + q(c ? c->dictionary_ : "") + " init=" + (has ? init : "-");
  }
  static const char *names(mfast::operator_enum_t o) { switch (o) { case mfast::operator_none: return "none"; case mfast::operator_constant: return "constant"; case mfast::operator_delta: return "delta"; case mfast::operator_default: return "default"; case mfast::operator_copy: return "copy"; case mfast::operator_increment: return "increment"; case mfast::operator_tail: return "tail"; default: return "?"; } }
  template <typename I> static std::string scalar(const mfast::field_instruction *p, T t) {
    auto *i = static_cast<const I *>(p); const mfast::value_storage &v = i->initial_value(); Value x; x.present = true;
    if (is_str(t)) { if (!v.is_empty()) x.s.assign(v.get<const char *>(), v.array_length()); } else if (t == T::DEC) { x.u = (uint64_t)v.of_decimal.mantissa_; x.e = v.of_decimal.exponent_; }
    else if (t == T::I32) x.u = (uint64_t)(int64_t)v.get<int32_t>(); else if (t == T::U32) x.u = v.get<uint32_t>(); else x.u = v.get<uint64_t>();
    return ctx(p->field_operator(), i->op_context(), !v.is_empty(), show(x, t));
  }
  static std::string field(const mfast::field_instruction *p, int depth) {
    using namespace mfast; T t; std::string ind(depth * 2, ' ');
    switch (p->field_type()) {
    case field_type_int32: t = T::I32; break; case field_type_uint32: t = T::U32; break; case field_type_int64: t = T::I64; break; case field_type_uint64: t = T::U64; break;
    case field_type_decimal: case field_type_exponent: t = T::DEC; break; case field_type_ascii_string: t = T::ASCII; break; case field_type_unicode_string: t = T::UNI; break; case field_type_byte_vector: t = T::BYTES; break;
    case field_type_int32_vector: t = T::VI32; break; case field_type_uint32_vector: t = T::VU32; break; case field_type_int64_vector: t = T::VI64; break; case field_type_uint64_vector: t = T::VU64; break;
    case field_type_group: t = T::GROUP; break; case field_type_sequence: t = T::SEQ; break; case field_type_templateref: return ind + "templateRef\n"; case field_type_enum: t = static_cast<const enum_field_instruction *>(p)->elements() == boolean::instruction()->elements() ? T::BOOL : T::ENUM; break;
    default: return ind + "unknown type " + std::to_string(p->field_type()) + "\n"; }
    std::string s = ind + type_name(t) + " name=" + q(p->name()) + " id=" + std::to_string(p->id()) + " ns=" + q(p->ns()) + (p->optional() ? " optional" : " mandatory") + " tag=" + std::to_string(p->tag().to_uint64());
    switch (t) {
    case T::GROUP: case T::SEQ: {
      auto *g = static_cast<const group_field_instruction *>(p); s += " dictionary=" + q(g->dictionary()) + " typeRef=" + q(g->typeref_name()) + "/" + q(g->typeref_ns());
      if (t == T::SEQ) { auto *l = static_cast<const sequence_field_instruction *>(p)->length_instruction(); s += " length"; if (!l) s += " none"; else { if (std::strcmp(l->name(), "__length__")) s += " name=" + q(l->name()) + " id=" + std::to_string(l->id()) + " ns=" + q(l->ns()); s += (l->optional() ? " optional" : " mandatory") + ctx(l->field_operator(), l->op_context(), !l->initial_value().is_empty(), std::to_string(l->initial_value().get<uint32_t>())); } }
      return s + "\n" + fields(g, depth + 1); }
    case T::DEC: {
      auto *d = static_cast<const decimal_field_instruction *>(p); auto *m = d->mantissa_instruction();
      if ((m != nullptr) != (p->field_type() == field_type_exponent)) s += " inconsistent parts";
      if (m) { const value_storage &v = d->initial_value(); return s + " exponent" + ctx(p->field_operator(), d->op_context(), !v.is_empty(), std::to_string(v.of_decimal.exponent_)) + " mantissa" + ctx(m->field_operator(), m->op_context(), !m->initial_value().is_empty(), std::to_string(m->initial_value().get<int64_t>())) + "\n"; }
      return s + scalar<decimal_field_instruction>(p, t) + "\n"; }
    case T::UNI: { auto *u = static_cast<const unicode_field_instruction *>(p); s += " length=" + q(u->length_name()) + "/" + std::to_string(u->length_id()) + "/" + q(u->length_ns()); return s + scalar<unicode_field_instruction>(p, t) + "\n"; }
    case T::BYTES: { auto *u = static_cast<const byte_vector_field_instruction *>(p); s += " length=" + q(u->length_name()) + "/" + std::to_string(u->length_id()) + "/" + q(u->length_ns()); return s + scalar<byte_vector_field_instruction>(p, t) + "\n"; }
    case T::ASCII: return s + scalar<ascii_field_instruction>(p, t) + "\n";
    case T::I32: return s + scalar<int32_field_instruction>(p, t) + "\n"; case T::U32: return s + scalar<uint32_field_instruction>(p, t) + "\n"; case T::I64: return s + scalar<int64_field_instruction>(p, t) + "\n"; case T::U64: return s + scalar<uint64_field_instruction>(p, t) + "\n";
    case T::ENUM: case T::BOOL: { auto *e = static_cast<const enum_field_instruction *>(p); s += " elements"; for (uint64_t i = 0; i < e->num_elements(); ++i) s += " " + q(e->elements()[i]) + "=" + std::to_string(e->element_values() ? e->element_values()[i] : i); return s + scalar<enum_field_instruction>(p, t) + "\n"; }
    default: return s + "\n"; }
  }
  static std::string fields(const mfast::group_field_instruction *g, int depth) { std::string s; for (size_t i = 0; i < g->subinstructions().size(); ++i) s += field(g->subinstruction(i), depth); return s; }
  static std::string tmpl(const mfast::template_instruction *t) { return "template name=" + q(t->name()) + " id=" + std::to_string(t->id()) + " ns=" + q(t->ns()) + " dictionary=" + q(t->dictionary()) + " typeRef=" + q(t->typeref_name()) + "/" + q(t->typeref_ns()) + (t->has_reset_attribute() ? " reset" : "") + "\n" + fields(t, 1); }
};
inline std::string first_difference(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b); std::string p, q; for (;;) { bool m = (bool)std::getline(x, p), n = (bool)std::getline(y, q); if (!m && !n) return ""; if (!m) p = "(end)"; if (!n) q = "(end)"; if (p != q) return "expected " + p + "\nloaded   " + q; }
}
} // namespace vf
