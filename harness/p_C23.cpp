// C23: every way of reading a message shows the same fields, and a change made
// through one of them is seen by all others and changes nothing else.
#include "objmodel.h"
#include <mfast/field_comparator.h>
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;

struct Reader { // accessor visitor; knows nothing of the template but the references it is given
  const Schema &sc; std::string problem; Value v; T t = T::I32; std::string name; uint32_t id = 0; const field_instruction *fi = nullptr;
  int (*idx)(const Schema &, const template_instruction *) = nullptr;
  explicit Reader(const Schema &s) : sc(s) {}
  void base(const field_cref &c, T k) { t = k; v = Value(); v.present = c.present(); name = c.name(); id = c.id(); fi = c.instruction(); if (c.absent() == c.present()) problem = "absent() and present() agree"; }
  void visit(const int32_cref &c) { base(c, T::I32); v.u = (uint64_t)(int64_t)c.value(); }
  void visit(const uint32_cref &c) { base(c, T::U32); v.u = c.value(); }
  void visit(const int64_cref &c) { base(c, T::I64); v.u = (uint64_t)c.value(); }
  void visit(const uint64_cref &c) { base(c, T::U64); v.u = c.value(); }
  void visit(const enum_cref &c) { base(c, c.is_boolean() ? T::BOOL : T::ENUM); v.u = c.value(); }
  void visit(const set_cref &c) { base(c, T::ENUM); problem = "visited as a set"; }
  void visit(const decimal_cref &c) { base(c, T::DEC); v.u = (uint64_t)c.mantissa(); v.e = c.exponent();
    if (c.has_individual_operators()) { if (c.present() && (c.get_mantissa().value() != c.mantissa() || c.get_exponent().value() != c.exponent())) problem = "parts of a decimal differ from the decimal"; if (c.get_exponent().present() != c.present()) problem = "presence of the exponent differs from that of the decimal"; } }
  void visit(const ascii_string_cref &c) { base(c, T::ASCII); v.s.assign(c.begin(), c.end()); }
  void visit(const unicode_string_cref &c) { base(c, T::UNI); v.s.assign(c.begin(), c.end()); }
  void visit(const byte_vector_cref &c) { base(c, T::BYTES); v.s.assign(c.begin(), c.end()); }
  template <class C> void vec(const C &c, T k) { base(c, k); for (auto x : c) v.iv.push_back(is_signed_t(k) ? (uint64_t)(int64_t)x : (uint64_t)x); }
  void visit(const int32_vector_cref &c) { vec(c, T::VI32); }
  void visit(const uint32_vector_cref &c) { vec(c, T::VU32); }
  void visit(const int64_vector_cref &c) { vec(c, T::VI64); }
  void visit(const uint64_vector_cref &c) { vec(c, T::VU64); }
  void all(const aggregate_cref &a, std::vector<Value> &out) {
    for (size_t i = 0; i < a.num_fields(); ++i) { Reader sub(sc); apply_accessor(sub, a[i]); if (!sub.problem.empty()) problem = sub.problem; if (!sub.v.present) sub.v = Value(); out.push_back(sub.v); }
  }
  void visit(const group_cref &c, int) { base(c, T::GROUP); if (!v.present) return; std::vector<Value> e; all(aggregate_cref(c), e); v.elems.push_back(e); if (c.num_fields() != e.size()) problem = "number of fields of a group"; }
  void visit(const sequence_cref &c, int) { base(c, T::SEQ); if (!v.present) return; for (uint32_t k = 0; k < c.size(); ++k) { std::vector<Value> e; all(c[k], e); v.elems.push_back(e); } }
  void visit(const nested_message_cref &c, int) { base(c, T::TREF); const template_instruction *ti = c.target_instruction(); if (!ti) return; v.tmpl = template_index(ti, sc); std::vector<Value> e; all(c.target(), e); v.elems.push_back(e); }
};
struct Writer { // mutator visitor: stores a value
  const Value &v; bool done = false; std::string problem; T t = T::I32; bool konst;
  Writer(const Value &x, bool k) : v(x), konst(k) {}
  template <class M, class X> void put(const M &m, X x, T k) { t = k; done = true; if (!v.present) m.omit(); else if (konst) m.to_initial_value(); else m.as(x); }
  void visit(int32_mref m) { put(m, (int32_t)(int64_t)v.u, T::I32); }
  void visit(uint32_mref m) { put(m, (uint32_t)v.u, T::U32); }
  void visit(int64_mref m) { put(m, (int64_t)v.u, T::I64); }
  void visit(uint64_mref m) { put(m, v.u, T::U64); }
  void visit(enum_mref m) { put(m, v.u, T::ENUM); }
  void visit(set_mref) { problem = "visited as a set"; }
  void visit(decimal_mref m) { t = T::DEC; done = true; if (!v.present) m.omit(); else if (konst) m.to_initial_value(); else if (m.has_individual_operators() && v.e >= -60) { m.set_mantissa().as((int64_t)v.u); m.set_exponent().as((int16_t)v.e); } else m.as((int64_t)v.u, (int16_t)v.e); }
  template <class M> void str(const M &m, T k) { t = k; done = true; if (!v.present) m.omit(); else if (konst) m.to_initial_value(); else m.as(v.s); }
  void visit(ascii_string_mref m) { str(m, T::ASCII); }
  void visit(unicode_string_mref m) { str(m, T::UNI); }
  void visit(byte_vector_mref m) { t = T::BYTES; done = true; if (!v.present) m.omit(); else if (konst) m.to_initial_value(); else m.assign(v.s.begin(), v.s.end()); }
  template <class M, class E> void vec(const M &m, T k) { t = k; done = true; if (!v.present) { m.omit(); return; } std::vector<E> x(v.iv.begin(), v.iv.end()); m.assign(x.begin(), x.end()); }
  void visit(int32_vector_mref m) { vec<int32_vector_mref, int32_t>(m, T::VI32); }
  void visit(uint32_vector_mref m) { vec<uint32_vector_mref, uint32_t>(m, T::VU32); }
  void visit(int64_vector_mref m) { vec<int64_vector_mref, int64_t>(m, T::VI64); }
  void visit(uint64_vector_mref m) { vec<uint64_vector_mref, uint64_t>(m, T::VU64); }
  void visit(group_mref, int) {} void visit(sequence_mref, int) {} void visit(nested_message_mref, int) {}
};

struct Acc {
  Ctx &c; Rng &r; World &w; const Schema &sc; ObjModel M; uint64_t routes = 0;
  Acc(Ctx &c_, World &w_) : c(c_), r(c_.rng), w(w_), sc(w_.sc), M(w_.sc, c_.rng, w_.inst) {}
  [[noreturn]] void bad(const std::string &k, const std::string &d = "") { c.fail(k, w.xmls + "\n" + M.log + "\n" + d); }
  void match(const Field &f, const Value &want, const Value &got, const std::string &route) {
    ++routes; std::vector<Field> one(1, f);
    if (!same(one, {want}, {got}, sc)) bad(route + " shows another value: field of type " + type_name(f.t), f.name + " should be " + show(one, {want}, sc) + ", shown " + show(one, {got}, sc));
  }
  void by_visitor(const Field &f, const Value &want, const field_cref &x, const std::string &route, bool member) {
    Reader rd(sc); if (member) x.accept_accessor(rd); else apply_accessor(rd, x);
    if (!rd.problem.empty()) bad("visitor: " + rd.problem, f.name);
    if (rd.t != f.t) bad("visitor was given another type", f.name + ": " + type_name(rd.t) + " instead of " + type_name(f.t));
    if (!rd.v.present) rd.v = Value();
    match(f, want, rd.v, route);
    meta(f, x, route);
  }
  void meta(const Field &f, const field_cref &x, const std::string &route) {
    if (f.t == T::TREF) return;
    if (f.name != x.name() || f.id != x.id() || f.optional != x.optional()) bad(route + ": name, id or presence attribute", f.name + " shown as " + x.name() + " id " + std::to_string(x.id()));
  }
  static int first_name(const std::vector<std::string> &n, const std::string &s) { for (size_t i = 0; i < n.size(); ++i) if (n[i] == s) return (int)i; return -1; }
  void read(const std::vector<Field> &fs, const std::vector<Value> &v, const aggregate_cref &a, const group_cref *g, int depth) {
    if (a.num_fields() != fs.size() || (g && g->num_fields() != fs.size())) bad("number of fields");
    size_t n = fs.size(); if (!n) { if (a.begin() != a.end()) bad("iteration of no fields"); return; }
    size_t k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k) { if (k >= n) bad("iteration has more fields than the template"); match(fs[k], v[k], read_field(fs[k], *it, sc), "iteration"); meta(fs[k], *it, "iteration"); }
    if (k != n) bad("iteration has fewer fields than the template");
    if (a.end() - a.begin() != (std::ptrdiff_t)n) bad("distance of iterators");
    { auto it = a.end(); for (size_t q = n; q > 0; --q) { --it; match(fs[q - 1], v[q - 1], read_field(fs[q - 1], *it, sc), "backward iteration"); }
      size_t q = r.below(n); match(fs[q], v[q], read_field(fs[q], *(a.begin() + (std::ptrdiff_t)q), sc), "iterator plus offset"); match(fs[q], v[q], read_field(fs[q], a.begin()[(std::ptrdiff_t)q], sc), "iterator index"); }
    std::vector<std::string> names; for (size_t i = 0; i < n; ++i) names.push_back(a.subinstruction(i)->name());
    for (size_t i = 0; i < n; ++i) {
      const Field &f = fs[i];
      match(f, v[i], read_field(f, a[i], sc), "index"); meta(f, a[i], "index");
      by_visitor(f, v[i], a[i], "visitor", false); by_visitor(f, v[i], a[i], "member visitor", true);
      if (g) match(f, v[i], read_field(f, (*g)[i], sc), "index of a group");
      if (f.t != T::TREF && names[i] != f.name) bad("name of a field in the template", names[i] + " for " + f.name);
      int x = a.field_index_with_name(std::string(names[i]).c_str()), want = first_name(names, names[i]);
      if (x != want) bad("field_index_with_name", names[i] + " found at " + std::to_string(x) + " instead of " + std::to_string(want));
      if (g && g->field_index_with_name(names[i].c_str()) != want) bad("field_index_with_name of a group", names[i]);
      if ((size_t)want == i) { field_cref q = mfast::detail::field_ref_with_name(a.field_storage(0), a.instruction(), names[i].c_str()); match(f, v[i], read_field(f, q, sc), "name"); }
      uint32_t id = a.subinstruction(i)->id(); int wi = -1; for (size_t q = 0; q < n; ++q) if (a.subinstruction(q)->id() == id) { wi = (int)q; break; }
      x = a.field_index_with_id(id); if (x != wi) bad("field_index_with_id", std::to_string(id) + " found at " + std::to_string(x) + " instead of " + std::to_string(wi));
      if (g && g->field_index_with_id(id) != wi) bad("field_index_with_id of a group");
      if ((size_t)wi == i) match(f, v[i], read_field(f, mfast::detail::field_ref_with_id(a.field_storage(0), a.instruction(), id), sc), "id");
      for (const std::string &no : {names[i] + "x", names[i].empty() ? std::string("zz") : names[i].substr(0, names[i].size() - 1), " " + names[i], std::string("no-such-field")})
        if (first_name(names, no) < 0) { if (a.field_index_with_name(no.c_str()) != -1) bad("a field that does not exist was found by name", no); if (mfast::detail::field_ref_with_name(a.field_storage(0), a.instruction(), no.c_str()).present()) bad("a field that does not exist is present", no); c.count("lookups of missing names"); }
      uint32_t no = id ^ (1u << r.below(32)); bool ex = false; for (size_t q = 0; q < n; ++q) ex = ex || a.subinstruction(q)->id() == no;
      if (!ex) { if (a.field_index_with_id(no) != -1) bad("a field that does not exist was found by id", std::to_string(no)); if (mfast::detail::field_ref_with_id(a.field_storage(0), a.instruction(), no).present()) bad("a field that does not exist is present"); c.count("lookups of missing ids"); }
      c.evaluated(hash_str(f.name + show(std::vector<Field>(1, f), {v[i]}, sc)));
      if (!v[i].present || depth > 3) continue;
      if (f.t == T::GROUP) { group_cref q(a[i]); read(f.sub, v[i].elems.at(0), aggregate_cref(q), &q, depth + 1); }
      else if (f.t == T::SEQ) { sequence_cref s(a[i]); for (uint32_t q = 0; q < s.size() && q < 3; ++q) read(f.sub, v[i].elems[q], s[q], nullptr, depth + 1); }
      else if (f.t == T::TREF && v[i].tmpl >= 0) read(sc.t[v[i].tmpl].f, v[i].elems.at(0), nested_message_cref(a[i]).target(), nullptr, depth + 1);
    }
  }
  // a leaf somewhere, with the aggregate it belongs to
  struct Leaf { const Field *f; MVal *m; aggregate_mref a; size_t i; const group_mref *g; };
  void write_leaf(const std::vector<Field> &fs, MFields &m, const aggregate_mref &a, const group_mref *g) {
    if (fs.empty()) return;
    size_t i = r.below(fs.size()); const Field &f = fs[i];
    if (f.t == T::GROUP) { if (!m[i].v.present) return; group_mref q(a[i]); write_leaf(f.sub, m[i].el[0], aggregate_mref(q), &q); return; }
    if (f.t == T::SEQ) { if (m[i].el.empty()) return; sequence_mref s(a[i]); size_t k = r.below(m[i].el.size()); write_leaf(f.sub, m[i].el[k], s[k], nullptr); return; }
    if (f.t == T::TREF) { if (m[i].v.tmpl < 0) return; nested_message_mref n(a[i]); write_leaf(sc.t[m[i].v.tmpl].f, m[i].el[0], n.target(), nullptr); return; }
    bool konst = f.op.op == Op::Constant && !(f.t == T::DEC && f.indiv);
    MsgGen gen(sc, r, nullptr); gen.absent_pct = 25; Value v = gen.gen(f, 2);
    if (konst && (!f.optional || is_vec(f.t))) return;
    std::string how; auto pick = [&]() -> field_mref {
      const char *nm = a.subinstruction(i)->name(); uint32_t id = a.subinstruction(i)->id();
      switch (r.below(6)) {
      case 0: how = "iterator"; return *(a.begin() + (std::ptrdiff_t)i);
      case 1: if (a.field_index_with_name(nm) != (int)i) break; how = "name"; return mfast::detail::field_ref_with_name(const_cast<value_storage *>(static_cast<const aggregate_cref &>(a).field_storage(0)), a.instruction(), a.allocator(), nm);
      case 2: if (a.field_index_with_id(id) != (int)i) break; how = "id"; return mfast::detail::field_ref_with_id(const_cast<value_storage *>(static_cast<const aggregate_cref &>(a).field_storage(0)), a.instruction(), a.allocator(), id);
      case 3: if (!g) break; how = "index of a group"; return (*g)[i];
      case 4: { auto it = a.end(); for (size_t k = fs.size(); k > i; --k) --it; how = "backward iterator"; return *it; }
      default: break;
      }
      how = "index"; return a[i];
    };
    field_mref fm = pick(); std::string via;
    switch (r.below(4)) {
    case 0: { Writer x(v, konst); apply_mutator(x, fm); if (!x.done || !x.problem.empty()) bad("mutator visitor", x.problem); if (x.t != f.t && !(f.t == T::BOOL && x.t == T::ENUM)) bad("mutator visitor was given another type", type_name(x.t)); via = "mutator"; break; }
    case 1: if (v.present && !konst && generic(f, v, fm)) { via = "untyped assignment"; break; } // fall through
    default: write_field(f, v, fm, sc, w.inst); via = "typed reference";
    }
    m[i].v = v; M.note(f.name + " = " + show(v, f.t) + " through " + how + " and " + via); c.count("changes through " + how); c.count("changes through " + via);
  }
  bool generic(const Field &f, Value &v, field_mref &fm) { // field_mref::as
    switch (f.t) {
    case T::I32: if (r.chance(50)) fm.as((int32_t)(int64_t)v.u); else fm.as((int64_t)v.u); return true;
    case T::U32: fm.as((uint32_t)v.u); return true;
    case T::I64: fm.as((int64_t)v.u); return true;
    case T::U64: fm.as(v.u); return true;
    case T::BOOL: case T::ENUM: fm.as(v.u); return true;
    case T::DEC: { if (f.indiv && f.op.op == Op::Constant) return false;
      int64_t x = r.chance(50) ? (int64_t)v.u : (int64_t)(v.u % 1000) * 100; fm.as(x); // stored normalised
      v.e = 0; if (x) while (x % 10 == 0) { x /= 10; ++v.e; } v.u = (uint64_t)x; return true; }
    case T::ASCII: case T::UNI: if (v.s.find('\0') != std::string::npos) return false; fm.as(v.s.c_str()); return true;
    case T::BYTES: fm.as(std::vector<unsigned char>(v.s.begin(), v.s.end())); return true;
    default: return false;
    }
  }
  void run() {
    arena_allocator arena; allocator *al = r.chance(50) ? static_cast<allocator *>(&arena) : malloc_allocator::instance();
    int t = (int)r.below(sc.t.size()); const auto &fs = sc.t[t].f; M.limit = 100;
    MT a(al, w.inst[t]); MFields m = M.initial(fs); const MT &ca = a;
    read(fs, plain(m), ca.cref(), nullptr, 0);
    for (int n = 0; n < 14; ++n) {
      if (r.chance(40) && M.size(m) < M.limit) { M.mutate(fs, m, a.mref(), 0, "a"); if (!M.problem.empty()) return; }
      else write_leaf(fs, m, a.mref(), nullptr);
      read(fs, plain(m), ca.cref(), nullptr, 0); if (r.chance(30)) { message_mref mm = a.mref(); read(fs, plain(m), mm, nullptr, 0); } if (r.chance(15)) { message_mref mm = a.mref(); message_cref mc = mm; read(fs, plain(m), mc, nullptr, 0); message_cref mt = a.mref(); read(fs, plain(m), mt, nullptr, 0); }
    }
    c.count("values read through a route", routes); c.sample(M.log);
  }
};
static void one(Ctx &c) {
  Rng &r = c.rng; World w; GenCfg cfg; cfg.forms = false; cfg.dicts = false; cfg.max_docs = 1; cfg.max_fields = 8; cfg.max_templates = 3;
  w.dynamic(make_schema(r, cfg)); Acc a(c, w); a.run();
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
