// C13: equality of messages and their parts against equality of the values
// they hold, for values reached by different histories and for pairs that
// differ in one place; ordering of strings against std::string.
#include "objmodel.h"
#include <mfast/field_comparator.h>
using namespace vf;
typedef mfast::message_type MT;

// changes one randomly chosen place of the value; says what it changed
struct Tweak {
  const Schema &sc; Rng &r; std::string what;
  Tweak(const Schema &s, Rng &r_) : sc(s), r(r_) {}
  void str(std::string &s, T t) {
    size_t n = s.size();
    switch (r.below(n ? 6 : 1)) {
    case 0: s += t == T::BYTES && r.chance(50) ? '\0' : 'q'; what = "longer"; return;
    case 1: s.resize(n - 1); what = "shorter"; return;
    case 2: s[0] = (char)(s[0] ^ 1); what = "first character"; return;
    case 3: s[n - 1] = (char)(s[n - 1] ^ 1); what = "last character"; return;
    case 4: s[r.below(n)] ^= 64; what = "one character"; return;
    default: s.clear(); what = "emptied"; return;
    }
  }
  bool leaf(const Field &f, Value &v) {
    bool konst = f.op.op == Op::Constant && !(f.t == T::DEC && f.indiv);
    if (konst && !f.optional) return false;
    if (f.optional && (konst || r.chance(40))) {
      if (v.present) { v = Value(); what = "made absent"; return true; }
      v.present = true; what = "made present";
      if (konst) { v = f.op.init; v.present = true; return true; }
      return true; // zero or empty: the representation closest to absent
    }
    if (!v.present) { v.present = true; what = "made present"; return true; }
    if (konst) return false;
    if (is_str(f.t)) { str(v.s, f.t); return true; }
    if (is_vec(f.t)) {
      size_t n = v.iv.size(); unsigned k = (unsigned)r.below(n ? 4 : 1); uint64_t bit = 1ull << r.below(width(f.t) - 1); // keeps the sign
      if (k == 0) { v.iv.push_back(0); what = "longer"; } else if (k == 1) { v.iv.pop_back(); what = "shorter"; } else { v.iv[k == 2 ? n - 1 : r.below(n)] ^= bit; what = "one element"; }
      return true; }
    if (f.t == T::DEC) {
      if (r.chance(50) || (f.indiv && f.op.op == Op::Constant)) { v.u ^= 1ull << r.below(64); what = "mantissa"; }
      else { v.e += v.e > 0 ? -1 : 1; what = "exponent"; if (r.chance(30) && sx(v.u) < 900000000000000000 && sx(v.u) > -900000000000000000) { /* same number, other representation */ } }
      return true; }
    if (f.t == T::BOOL) { v.u ^= 1; what = "boolean"; return true; }
    if (f.t == T::ENUM) { if (f.enum_names.size() < 2) return false; uint64_t old = v.u; for (int k = 0; k < 20 && v.u == old; ++k) { size_t i = r.below(f.enum_names.size()); v.u = f.enum_vals.empty() ? i : f.enum_vals[i]; } what = "enumeration"; return v.u != old; }
    v.u ^= 1ull << r.below(width(f.t) - (is_signed_t(f.t) ? 1 : 0)); what = "integer"; return true;
  }
  static int width(T t) { return t == T::I32 || t == T::U32 || t == T::VI32 || t == T::VU32 ? 32 : 64; }
  bool at(const std::vector<Field> &fs, std::vector<Value> &v) {
    if (fs.empty()) return false;
    for (int tries = 0; tries < 6; ++tries) {
      size_t i = r.below(fs.size()); const Field &f = fs[i]; Value &x = v[i];
      if (f.t == T::GROUP) { if (x.present && !(f.optional && r.chance(25))) { if (at(f.sub, x.elems.at(0))) return true; continue; } if (x.present) { x = Value(); what = "group made absent"; return true; } continue; }
      if (f.t == T::SEQ) {
        if (!x.present) { x.present = true; what = "absent sequence made empty"; return true; }
        if (x.elems.empty()) { if (f.optional) { x = Value(); what = "empty sequence made absent"; return true; } continue; }
        switch (r.below(6)) {
        case 0: x.elems.push_back(x.elems.back()); what = "element added"; return true;
        case 1: x.elems.pop_back(); what = "element removed"; return true;
        case 2: { size_t a = r.below(x.elems.size()), b = r.below(x.elems.size()); if (a == b || same(f.sub, x.elems[a], x.elems[b], sc)) continue; std::swap(x.elems[a], x.elems[b]); what = "elements swapped"; return true; }
        case 3: if (at(f.sub, x.elems.back())) return true; continue;
        default: if (at(f.sub, x.elems[r.below(x.elems.size())])) return true; continue;
        } }
      if (f.t == T::TREF) {
        if (x.tmpl < 0) continue;
        if (r.chance(20)) { x = Value(); x.present = true; what = "nested message unbound"; return true; }
        if (at(sc.t[x.tmpl].f, x.elems.at(0))) return true; continue; }
      if (leaf(f, x)) return true;
    }
    return false;
  }
};

struct Eq {
  Ctx &c; Rng &r; World &w; const Schema &sc; std::string log;
  uint64_t eq = 0, ne = 0;
  Eq(Ctx &c_, World &w_) : c(c_), r(c_.rng), w(w_), sc(w_.sc) {}
  template <class A, class B> void expect(const A &a, const B &b, bool want, const std::string &what, const std::string &det) {
    bool x = a == b, y = b == a;
    if (x != want || y != want) c.fail(what + (want ? ": equal values compare unequal" : ": different values compare equal") + (x != y ? " in one direction" : ""), w.xmls + "\n" + det + "\n" + log);
    (want ? eq : ne)++;
  }
  template <class CR> void typed(const mfast::field_cref &a, const mfast::field_cref &b, bool want, const std::string &det, const char *k) {
    CR x(a), y(b); if ((x == y) != want || (y == x) != want) c.fail(std::string("typed equality of ") + k, w.xmls + "\n" + det + "\n" + log);
    if ((x != y) == want) c.fail(std::string("typed inequality of ") + k, w.xmls + "\n" + det + "\n" + log);
    c.count("typed comparisons");
  }
  template <class S> void order(const S &x, const S &y, const std::string &a, const std::string &b, const char *k) {
    int m = a < b ? -1 : a > b; int g = x.compare(y); g = g < 0 ? -1 : g > 0;
    if (g != m || (x < y) != (m < 0) || (x <= y) != (m <= 0) || (x > y) != (m > 0) || (x >= y) != (m >= 0) || (x == y) != (m == 0) || (x != y) != (m != 0))
      c.fail(std::string("ordering of ") + k, cquote(a) + " and " + cquote(b));
    boost::string_ref br(b); g = x.compare(br); g = g < 0 ? -1 : g > 0;
    if (g != m || (x < br) != (m < 0) || (x <= br) != (m <= 0) || (x > br) != (m > 0) || (x >= br) != (m >= 0) || (x == br) != (m == 0) || (x != br) != (m != 0))
      c.fail(std::string("ordering against a string of ") + k, cquote(a) + " and " + cquote(b));
    c.count("string orderings"); if (m) c.count("string orderings of different strings");
  }
  void parts(const std::vector<Field> &fs, const std::vector<Value> &va, const std::vector<Value> &vb, const mfast::aggregate_cref &a, const mfast::aggregate_cref &b, int depth) {
    using namespace mfast;
    expect(a, b, same(fs, va, vb, sc), "aggregates", show(fs, va, sc) + "\n" + show(fs, vb, sc));
    for (size_t i = 0; i < fs.size(); ++i) {
      const Field &f = fs[i]; std::vector<Field> one(1, f); bool want = same(one, {va[i]}, {vb[i]}, sc);
      std::string det = "field " + f.name + " of type " + type_name(f.t) + ": " + show(one, {va[i]}, sc) + " and " + show(one, {vb[i]}, sc);
      expect(a[i], b[i], want, std::string("fields of type ") + type_name(f.t), det);
      c.evaluated(hash_str(det));
      switch (f.t) {
      case T::I32: typed<int32_cref>(a[i], b[i], want, det, "int32"); break; case T::U32: typed<uint32_cref>(a[i], b[i], want, det, "uInt32"); break;
      case T::I64: typed<int64_cref>(a[i], b[i], want, det, "int64"); break; case T::U64: typed<uint64_cref>(a[i], b[i], want, det, "uInt64"); break;
      case T::DEC: typed<decimal_cref>(a[i], b[i], want, det, "decimal"); break;
      case T::BOOL: case T::ENUM: typed<enum_cref>(a[i], b[i], want, det, "enum"); break;
      default: break;
      }
      if (!va[i].present || !vb[i].present) continue;
      switch (f.t) {
      case T::VI32: typed<int32_vector_cref>(a[i], b[i], want, det, "int32 vectors"); break; case T::VU32: typed<uint32_vector_cref>(a[i], b[i], want, det, "uint32 vectors"); break;
      case T::VI64: typed<int64_vector_cref>(a[i], b[i], want, det, "int64 vectors"); break; case T::VU64: typed<uint64_vector_cref>(a[i], b[i], want, det, "uint64 vectors"); break;
      case T::BYTES: typed<byte_vector_cref>(a[i], b[i], want, det, "byte vectors"); break;
      case T::ASCII: order(ascii_string_cref(a[i]), ascii_string_cref(b[i]), va[i].s, vb[i].s, "ascii strings"); break;
      case T::UNI: order(unicode_string_cref(a[i]), unicode_string_cref(b[i]), va[i].s, vb[i].s, "unicode strings"); break;
      case T::GROUP: parts(f.sub, va[i].elems.at(0), vb[i].elems.at(0), aggregate_cref(group_cref(a[i])), aggregate_cref(group_cref(b[i])), depth + 1); break;
      case T::SEQ: { sequence_cref x(a[i]), y(b[i]); if (depth > 3) break; size_t n = 0;
        for (uint32_t k = 0; k < x.size() && k < y.size() && n < 4; ++k, ++n) parts(f.sub, va[i].elems[k], vb[i].elems[k], x[k], y[k], depth + 1); break; }
      case T::TREF: if (depth > 3 || va[i].tmpl != vb[i].tmpl || va[i].tmpl < 0) break; parts(sc.t[va[i].tmpl].f, va[i].elems.at(0), vb[i].elems.at(0), nested_message_cref(a[i]).target(), nested_message_cref(b[i]).target(), depth + 1); break;
      default: break;
      }
    }
  }
  std::unique_ptr<MT> build(int t, const std::vector<Value> &v, mfast::allocator *al) { std::unique_ptr<MT> m(new MT(al, w.inst[t])); write_fields(sc.t[t].f, v, m->mref(), sc, w.inst); return m; }
  static const MT &k(const std::unique_ptr<MT> &m) { return *m; }
  void cmp(int t, const std::vector<Value> &va, const std::vector<Value> &vb, const MT &a, const MT &b) { parts(sc.t[t].f, va, vb, a.cref(), b.cref(), 0); }
  void run() {
    mfast::arena_allocator arena; mfast::allocator *mal = mfast::malloc_allocator::instance();
    int t = (int)r.below(sc.t.size()); const auto &fs = sc.t[t].f;
    // a: reached by a history of changes
    ObjModel M(sc, r, w.inst); M.limit = 120; MT a(r.chance(50) ? mal : &arena, w.inst[t]); MFields ma = M.initial(fs);
    for (int n = (int)r.below(60); n > 0 && M.size(ma) < M.limit; --n) M.mutate(fs, ma, a.mref(), 0, "a");
    if (!M.problem.empty()) return; // C11's business
    std::vector<Value> va = plain(ma);
    if (!same(fs, va, read_fields(fs, static_cast<const MT &>(a).cref(), sc), sc)) return; // C09's business
    log = M.log;
    cmp(t, va, va, a, a);
    auto b = build(t, va, r.chance(50) ? mal : &arena); cmp(t, va, va, a, *b); c.count("equal messages built differently");
    { MT cp(static_cast<const MT &>(a).cref(), mal); cmp(t, va, va, a, cp); cmp(t, va, va, cp, *b); c.count("copies compared"); }
    for (int n = 0; n < 6; ++n) { // one place changed
      std::vector<Value> vb = va; Tweak tw(sc, r); if (!tw.at(fs, vb)) continue;
      auto x = build(t, vb, mal); bool eq_ = same(fs, va, vb, sc);
      c.count("pairs differing in one place: " + tw.what, !eq_); log = "difference: " + tw.what;
      cmp(t, va, vb, a, *x); cmp(t, vb, vb, *x, *x);
    }
    { // the same object changed a little
      MFields mb = ma; MT x(static_cast<const MT &>(a).cref(), mal); ObjModel::strip(fs, mb, sc); ObjModel M2(sc, r, w.inst); for (int n = 0; n < 4 && M2.problem.empty(); ++n) { M2.mutate(fs, mb, x.mref(), 0, "x"); if (!M2.problem.empty()) break; log = M2.log; cmp(t, va, plain(mb), a, x); c.count("pairs after a change"); } }
    { // unrelated message of the same template
      MsgGen g(sc, r, nullptr); std::vector<Value> vb; for (auto &f : fs) vb.push_back(g.gen(f, 2)); auto x = build(t, vb, mal); log = "unrelated"; cmp(t, va, vb, a, *x); }
    c.count("comparisons of equal values", eq); c.count("comparisons of different values", ne);
    c.sample(show(fs, va, sc));
  }
};
static void one(Ctx &c) {
  Rng &r = c.rng; World w; GenCfg cfg; cfg.forms = false; cfg.dicts = false; cfg.max_docs = 1; cfg.max_fields = 7; cfg.max_templates = 3;
  w.dynamic(make_schema(r, cfg)); Eq e(c, w); e.run();
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
