// Generation of message values, aware of what the dictionaries hold, and a
// simulation of the dictionaries that says when an encoder may refuse a value.
#pragma once
#include "refcodec.h"
namespace vf {

struct MsgGen {
  const Schema &sc; Rng &r; const DictState *ds; size_t budget = 400;
  bool constants_free = false;
  unsigned absent_pct = 30, long_pct = 0, same_pct = 0;
  MsgGen(const Schema &s, Rng &r_, const DictState *d) : sc(s), r(r_), ds(d) {}
  const Slot *slot(const OpSpec &o) const { if (o.slot < 0 || !ds || (size_t)o.slot >= ds->slots.size()) return nullptr; const Slot *s = &ds->slots[o.slot]; return s->st == Prev::Assigned ? s : nullptr; }
  uint64_t gen_int(T t, const OpSpec &o) {
    if (o.op == Op::Constant) return o.init.u;
    const Slot *s = slot(o);
    if (same_pct && r.chance(same_pct)) { if (s) return s->v.u; if (o.has_init) return o.init.u; }
    if (s && r.chance(55)) { __int128 v = as128(t, s->v.u) + (r.chance(35) ? 0 : r.chance(60) ? 1 : r.range(-3, 3)); if (v >= tmin(t) && v <= tmax(t)) return (uint64_t)v; }
    if (o.has_init && r.chance(25)) { __int128 v = as128(t, o.init.u) + (r.chance(60) ? 0 : 1); if (v <= tmax(t)) return (uint64_t)v; }
    return rand_int(r, t);
  }
  std::string gen_str(T t, const OpSpec &o) {
    if (o.op == Op::Constant) return o.init.s;
    const Slot *s = slot(o);
    std::string base; bool have = false;
    if (s && r.chance(75)) { base = s->v.s; have = true; }
    else if (o.has_init && r.chance(35)) { base = o.init.s; have = true; }
    bool nonul = t == T::ASCII && (o.op == Op::Delta || o.op == Op::Tail);
    std::string v;
    if (same_pct && have && r.chance(same_pct)) return base;
    if (long_pct && r.chance(long_pct)) { v = rand_str(r, t, 12); if (v.empty()) v = "x"; if (t == T::UNI || t == T::ASCII) v = "long"; size_t n = 200 + r.below(1500); while (v.size() < n) v += v; return v; }
    if (!have) v = rand_str(r, t);
    else if (t == T::UNI) {
      // keep it well formed: only extend or keep
      switch (r.below(4)) { case 0: v = base; break; case 1: v = base + rand_str(r, t, 4); break; case 2: v = rand_str(r, t, 4) + base; break; default: v = rand_str(r, t); }
    } else switch (r.below(8)) {
      case 0: v = base; break;
      case 1: v = base.substr(0, r.below(base.size() + 1)) + rand_str(r, t, 4); break;
      case 2: { size_t k = r.below(base.size() + 1); v = rand_str(r, t, 4) + base.substr(k); break; }
      case 3: v = base.substr(r.below(base.size() + 1)); break;
      case 4: v = base; if (!v.empty()) v[r.below(v.size())] = (char)(t == T::BYTES ? r.below(256) : 1 + r.below(127)); break;
      case 5: v = base + rand_str(r, t, 3); break;
      case 6: v = base.substr(0, r.below(base.size() + 1)); break;
      default: v = rand_str(r, t);
    }
    if (v.size() > 600) v.resize(t == T::UNI ? 0 : 300);
    if (t == T::ASCII) {
      if (nonul || v.size() != 1) for (char &c : v) if (c == 0) c = 'z';
    }
    return v;
  }
  Value gen(const Field &f, int depth) {
    Value v;
    bool opt = f.optional;
    if (opt && r.chance(absent_pct)) return v;
    v.present = true;
    switch (f.t) {
    case T::I32: case T::U32: case T::I64: case T::U64: v.u = gen_int(f.t, f.op); break;
    case T::BOOL: case T::ENUM: {
      if (f.op.op == Op::Constant) { v.u = f.op.init.u; break; }
      const Slot *s = slot(f.op);
      if (s && r.chance(35)) { v.u = s->v.u; break; }
      if (f.op.has_init && r.chance(25)) { v.u = f.op.init.u; break; }
      size_t i = r.below(f.enum_names.size()); v.u = f.enum_vals.empty() ? i : f.enum_vals[i]; break; }
    case T::DEC: {
      if (f.op.op == Op::Constant && !f.indiv) { v = f.op.init; break; }
      const Slot *s = slot(f.op);
      int x = (int)r.below(100);
      if (f.op.op == Op::Constant) v.e = f.op.init.e;
      else if (s && x < 40) v.e = s->v.e;
      else if (f.op.has_init && x < 60) v.e = f.op.init.e;
      else v.e = (int)(r.chance(80) ? r.range(-9, 9) : r.chance(30) ? (r.chance(50) ? 63 : -63) : r.range(-63, 63));
      if (f.indiv) v.u = gen_int(T::I64, f.mop);
      else {
        if (s && r.chance(40)) v.u = s->v.u; else if (f.op.has_init && r.chance(30)) v.u = f.op.init.u; else v.u = rand_int(r, T::I64);
      }
      break; }
    case T::ASCII: case T::UNI: case T::BYTES: v.s = gen_str(f.t, f.op); break;
    case T::VI32: case T::VU32: case T::VI64: case T::VU64: {
      T et = f.t == T::VI32 ? T::I32 : f.t == T::VU32 ? T::U32 : f.t == T::VI64 ? T::I64 : T::U64;
      size_t n = r.below(r.chance(85) ? 5 : 40); for (size_t i = 0; i < n; ++i) v.iv.push_back(rand_int(r, et)); break; }
    case T::GROUP: v.elems.push_back(gen_fields(f.sub, depth + 1)); break;
    case T::SEQ: {
      size_t n;
      if (f.len_op.op == Op::Constant) n = f.len_op.init.u;
      else {
        const Slot *s = slot(f.len_op);
        n = r.below(r.chance(85) ? 4 : r.chance(80) ? 9 : 30);
        if (s && r.chance(60)) { uint64_t w = s->v.u + (r.chance(50) ? 0 : 1); if (w < 40) n = w; }
        else if (f.len_op.has_init && r.chance(30)) n = f.len_op.init.u;
        if (budget < 50 && n > 1) n = 0;
      }
      for (size_t i = 0; i < n; ++i) v.elems.push_back(gen_fields(f.sub, depth + 1));
      break; }
    case T::TREF: {
      std::vector<int> c;
      for (size_t i = 0; i < sc.t.size(); ++i) if (!sc.t[i].reset && !((depth >= 3 || budget < 60) && RefDecoder<ByteSource>::has_tref(sc.t[i].f))) c.push_back((int)i);
      if (c.empty()) { failed = true; break; }
      v.tmpl = c[r.below(c.size())];
      v.elems.push_back(gen_fields(sc.t[v.tmpl].f, depth + 1));
      break; }
    default: break;
    }
    return v;
  }
  bool failed = false;
  std::vector<Value> gen_fields(const std::vector<Field> &fs, int depth) {
    std::vector<Value> o; o.reserve(fs.size());
    for (auto &f : fs) { if (budget) --budget; o.push_back(gen(f, depth)); }
    return o;
  }
  Message gen_message(int t) { Message m; m.tmpl = t; m.f = gen_fields(sc.t[t].f, 1); return m; }
};

// What an encoder that follows FAST 1.1 may refuse, given the dictionaries the
// receiver has: the reasons are collected in `why`.
struct EncSim {
  const Schema &sc; DictState ds; std::string why; bool def_absent = false; uint64_t defs = 0;
  EncSim(const Schema &s, const DictState &d) : sc(s), ds(d) { ds.slots.resize(sc.slots.size()); }
  Slot *slot(const OpSpec &o) { return o.slot >= 0 ? &ds.slots[o.slot] : nullptr; }
  void scalar(T t, const OpSpec &o, bool optional, const Value &v) {
    Slot *s = slot(o);
    switch (o.op) {
    case Op::Default: if (!v.present && o.has_init) ++defs; break;
    case Op::Copy: case Op::Increment:
      if (s->st == Prev::Empty && !optional) why += "D6 ";
      s->st = v.present ? Prev::Assigned : Prev::Empty; s->v = v; break;
    case Op::Tail: {
      std::string base = s->st == Prev::Assigned ? s->v.s : o.has_init ? o.init.s : "";
      if (s->st == Prev::Empty && !optional) why += "D7 ";
      if (v.present && v.s.size() < base.size()) why += "D1 ";
      s->st = v.present ? Prev::Assigned : Prev::Empty; s->v = v; break; }
    case Op::Delta:
      if (!v.present) break;
      if (s->st == Prev::Empty) why += "D6 ";
      s->st = Prev::Assigned; s->v = v; break;
    default: break;
    }
    (void)t;
  }
  void field(const Field &f, const Value &v) {
    switch (f.t) {
    case T::GROUP: if (v.present) fields(f.sub, v.elems.at(0)); break;
    case T::SEQ: { Value len; len.present = v.present; len.u = v.elems.size(); scalar(T::U32, f.len_op, f.optional, len);
      for (auto &e : v.elems) fields(f.sub, e); break; }
    case T::TREF: if (v.tmpl >= 0) fields(sc.t[v.tmpl].f, v.elems.at(0)); break;
    case T::DEC: if (f.indiv) { scalar(T::I32, f.op, f.optional, v); if (v.present) scalar(T::I64, f.mop, false, v); } else scalar(T::DEC, f.op, f.optional, v); break;
    default: if (!is_vec(f.t)) scalar(f.t, f.op, f.optional, v);
    }
  }
  void fields(const std::vector<Field> &fs, const std::vector<Value> &v) { for (size_t i = 0; i < fs.size(); ++i) field(fs[i], v[i]); }
};

// Does `got` differ from `want` only in that absent optional fields with the
// default operator came out as their initial value? Such fields are turned
// back to absent in `got` (returns how many).
inline size_t undo_defaults(const std::vector<Field> &fs, const std::vector<Value> &want, std::vector<Value> &got, const Schema &sc, bool top_only, bool in_top = true) {
  size_t n = 0;
  if (want.size() != fs.size() || got.size() != fs.size()) return 0;
  for (size_t i = 0; i < fs.size(); ++i) {
    const Field &f = fs[i];
    if (f.t == T::GROUP || f.t == T::SEQ) {
      for (size_t k = 0; k < want[i].elems.size() && k < got[i].elems.size(); ++k) n += undo_defaults(f.sub, want[i].elems[k], got[i].elems[k], sc, top_only, false);
    } else if (f.t == T::TREF) {
      if (want[i].tmpl >= 0 && want[i].tmpl == got[i].tmpl && want[i].elems.size() == 1 && got[i].elems.size() == 1)
        n += undo_defaults(sc.t[want[i].tmpl].f, want[i].elems[0], got[i].elems[0], sc, top_only);
    } else if ((in_top || !top_only) && f.optional && !(f.t == T::DEC && f.indiv) && f.op.op == Op::Default && f.op.has_init && !want[i].present && got[i].present) {
      bool is_init = same_simple(f.t, got[i], f.op.init);
      if (is_init) { got[i] = Value(); ++n; }
    }
  }
  return n;
}
} // namespace vf
