// The template sets for which C++ types are generated: a fixed one that has
// every legal combination of type, operator, presence and initial value, and
// random ones.
#pragma once
#include "model.h"
namespace vf {

inline Field mk_field(SchemaGen &g, T t, const std::string &name, Op op, bool optional, bool init) {
  Field f; f.t = t; f.name = name; f.optional = optional; f.op.op = op;
  if (t == T::ENUM) { f.enum_names = {name + "_a", name + "_b", name + "_c"}; if (op != Op::None) { f.enum_vals = {3, 70, 400}; f.enum_explicit = true; } }
  if (t == T::BOOL) f.enum_names = {"false", "true"};
  if (init) g.gen_init(f, f.op, t);
  return f;
}
inline Schema matrix_schema(Rng &r) {
  GenCfg cfg; cfg.forms = false; SchemaGen g(r, cfg); Schema &sc = g.sc;
  sc.docs.resize(1);
  uint32_t id = 1;
  auto add = [&](std::vector<Field> fs, bool reset = false) {
    Template t; t.name = "M" + std::to_string(sc.t.size()); t.id = id; id += 1 + id / 3; t.src = std::move(fs); t.reset = reset;
    sc.docs[0].tmpl.push_back((int)sc.t.size()); sc.t.push_back(t);
  };
  std::vector<T> ts{T::I32, T::U32, T::I64, T::U64, T::DEC, T::ASCII, T::UNI, T::BYTES, T::BOOL, T::ENUM};
  for (T t : ts) {
    std::vector<Op> ops{Op::None, Op::Constant, Op::Default, Op::Copy};
    if (is_int(t)) ops.push_back(Op::Increment);
    if (!is_enum(t)) ops.push_back(Op::Delta);
    if (is_str(t)) ops.push_back(Op::Tail);
    std::vector<Field> fs; int k = 0;
    for (Op op : ops) for (int o = 0; o < 2; ++o) for (int in = 0; in < 2; ++in) {
      if (op == Op::None && in) continue;
      if ((op == Op::Constant || (op == Op::Default && !o)) && !in) continue;
      fs.push_back(mk_field(g, t, std::string(SchemaGen::code(t, false)) + "f" + std::to_string(k++), op, o, in));
    }
    add(fs);
  }
  // decimals with individual operators
  { std::vector<Field> fs; int k = 0;
    for (Op eo : {Op::None, Op::Constant, Op::Default, Op::Copy, Op::Delta}) for (Op mo : {Op::None, Op::Constant, Op::Default, Op::Copy, Op::Increment, Op::Delta}) for (int o = 0; o < 2; ++o) {
      Field f; f.t = T::DEC; f.indiv = true; f.name = "xf" + std::to_string(k++); f.optional = o; f.has_exp = f.has_man = true;
      f.op.op = eo; f.mop.op = mo;
      if (eo == Op::Constant || (eo == Op::Default && !o) || (eo != Op::None && k % 3 == 0)) { f.op.has_init = true; f.op.init.present = true; f.op.init.e = (int)r.range(-8, 8); f.op.init_text = std::to_string(f.op.init.e); }
      if (mo == Op::Constant || mo == Op::Default || (mo != Op::None && k % 2 == 0)) g.gen_init(f, f.mop, T::I64);
      fs.push_back(f);
    }
    add(fs); }
  // vectors, and groups and sequences with every length operator
  { std::vector<Field> fs; int k = 0;
    for (T t : {T::VI32, T::VU32, T::VI64, T::VU64}) for (int o = 0; o < 2; ++o) { Field f; f.t = t; f.name = std::string(SchemaGen::code(t, false)) + "f" + std::to_string(k++); f.optional = o; fs.push_back(f); }
    for (int o = 0; o < 2; ++o) for (int pm = 0; pm < 2; ++pm) { Field f; f.t = T::GROUP; f.name = "gf" + std::to_string(k++); f.optional = o;
      f.sub.push_back(mk_field(g, T::U32, "ug" + std::to_string(k), pm ? Op::Copy : Op::None, pm, false));
      f.sub.push_back(mk_field(g, T::ASCII, "ag" + std::to_string(k), pm ? Op::Tail : Op::Delta, false, false)); fs.push_back(f); }
    add(fs); }
  { std::vector<Field> fs; int k = 0;
    for (Op op : {Op::None, Op::Constant, Op::Default, Op::Copy, Op::Increment, Op::Delta}) for (int o = 0; o < 2; ++o) for (int in = 0; in < 2; ++in) {
      if (op == Op::None && in) continue;
      if ((op == Op::Constant || (op == Op::Default && !o)) && !in) continue;
      Field f; f.t = T::SEQ; f.name = "sf" + std::to_string(k++); f.optional = o; f.has_length = true; f.len_name = "len_" + f.name; f.len_op.op = op;
      if (in) { f.len_op.has_init = true; f.len_op.init.present = true; f.len_op.init.u = r.below(4); f.len_op.init_text = std::to_string(f.len_op.init.u); }
      bool pm = k % 2;
      f.sub.push_back(mk_field(g, T::I32, "is" + std::to_string(k), pm ? Op::Increment : Op::Delta, pm, false));
      f.sub.push_back(mk_field(g, T::UNI, "ns" + std::to_string(k), pm ? Op::Copy : Op::None, true, false)); fs.push_back(f);
    }
    add(fs); }
  // dynamic references at several levels
  { std::vector<Field> fs; fs.push_back(mk_field(g, T::U32, "ur", Op::Increment, true, false));
    Field t; t.t = T::TREF; t.name = "t0"; fs.push_back(t);
    Field s; s.t = T::SEQ; s.name = "sr"; s.optional = true; s.sub.push_back(mk_field(g, T::U64, "mr", Op::Copy, true, false)); t.name = "t1"; s.sub.push_back(t); fs.push_back(s);
    Field gr; gr.t = T::GROUP; gr.name = "gr"; gr.optional = true; t.name = "t2"; gr.sub.push_back(t); fs.push_back(gr);
    sc.has_tref = true; add(fs); }
  { std::vector<Field> fs; fs.push_back(mk_field(g, T::U32, "uz", Op::Copy, true, false)); fs.push_back(mk_field(g, T::ASCII, "az", Op::Delta, false, true)); add(fs, true); }
  g.resolve(); g.write();
  return sc;
}
inline Schema cpp_schema(uint64_t seed, int i) {
  Rng r(mix64(seed * 7919 + 13) ^ mix64((uint64_t)i + 1000));
  if (i == 0) return matrix_schema(r);
  GenCfg cfg; cfg.cpp_safe = true; cfg.max_docs = 2; cfg.max_templates = 5; cfg.max_fields = 10;
  cfg.many_pmap = i % 8 == 3;
  return make_schema(r, cfg);
}
} // namespace vf
