// C09: histories of copying, assigning, moving and destroying messages and
// their parts, on several allocators, against a model of independent values.
// C11 (-DVF_C11): the same machinery on single objects, sequences only.
#include "objmodel.h"
using namespace vf;
typedef mfast::message_type MT;

struct Obj { std::unique_ptr<MT> m; MFields v; int t; std::string al; };
struct GrpObj { std::unique_ptr<mfast::group_type> g; MFields v; const Field *f; };
struct SeqObj { std::unique_ptr<mfast::sequence_type> s; MVal v; const Field *f; };

static bool inside(const std::string &a, const std::string &b) { return a.size() >= b.size() && a.compare(0, b.size(), b) == 0; }
struct Pool {
  Ctx &c; Rng &r; World &w; const Schema &sc; ObjModel M;
  mfast::arena_allocator arena; MonAlloc mon, mon2; std::vector<Obj> o; std::vector<SeqObj> so; std::vector<GrpObj> go;
  Pool(Ctx &c_, World &w_) : c(c_), r(c_.rng), w(w_), sc(w_.sc), M(w_.sc, c_.rng, w_.inst), mon("first", c_.rng.next(), (int)c_.rng.below(3)), mon2("second", c_.rng.next(), (int)c_.rng.below(3)) { M.log = w.xmls; }
  mfast::allocator *pick(std::string &n) {
    switch (r.below(4)) { case 0: n = "malloc"; return mfast::malloc_allocator::instance(); case 1: n = "arena"; return &arena; case 2: n = "second"; return &mon2; default: n = "first"; return &mon; }
  }
  std::string nm(size_t i) { return "m" + std::to_string(i) + ":" + sc.t[o[i].t].name + "(" + o[i].al + ")"; }
  MFields copied(int t, const MFields &v) { MFields x = v; ObjModel::strip(sc.t[t].f, x, sc); return x; }
  [[noreturn]] void bad(const std::string &k, const std::string &d = "") { c.fail(k, M.log + d); }
  void check(const char *what) {
    if (!M.problem.empty()) bad(std::string("after ") + what + ": hidden content", M.problem);
    for (size_t i = 0; i < o.size(); ++i) {
      if (!o[i].m) continue;
      std::vector<Value> got; std::string wh;
      try { got = read_fields(sc.t[o[i].t].f, static_cast<const MT &>(*o[i].m).cref(), sc); } catch (BridgeError &e) { bad(e.what); }
      std::vector<Value> want = plain(o[i].v);
      if (!same(sc.t[o[i].t].f, want, got, sc, &wh)) bad(std::string("after ") + what + ": an object holds another value", nm(i) + " at " + wh + "\n should be " + show(sc.t[o[i].t].f, want, sc) + "\n holds " + show(sc.t[o[i].t].f, got, sc));
      c.evaluated(hash_str(show(sc.t[o[i].t].f, want, sc), hash_str(what) + i));
    }
    for (auto &x : so) { Value got; std::string wh; if (!x.s) continue;
      const mfast::sequence_type &cs = *x.s; mfast::sequence_cref q = cs.cref(); got.present = x.v.v.present;
      if (q.present() != x.v.v.present) bad(std::string("after ") + what + ": presence of a sequence object");
      if (q.present()) for (uint32_t k = 0; k < q.size(); ++k) got.elems.push_back(read_fields(x.f->sub, q[k], sc));
      std::vector<Field> ff(1, *x.f); if (!same(ff, {plain(x.v)}, {got}, sc, &wh)) bad(std::string("after ") + what + ": a sequence object holds another value", wh);
    }
    for (auto &x : go) { std::string wh; const mfast::group_type &cg = *x.g; mfast::group_cref q = cg.cref();
      if (!q.present()) bad(std::string("after ") + what + ": a group object is absent");
      if (!same(x.f->sub, plain(x.v), read_fields(x.f->sub, mfast::aggregate_cref(q), sc), sc, &wh)) bad(std::string("after ") + what + ": a group object holds another value", wh); }
    if (mon.error.size()) bad("allocator protocol: " + mon.error); if (mon2.error.size()) bad("allocator protocol: " + mon2.error);
  }
  void make(int t) {
    Obj x; x.t = t; mfast::allocator *a = pick(x.al); x.m.reset(new MT(a, w.inst[t])); x.v = M.initial(sc.t[t].f);
    o.push_back(std::move(x)); M.note("new " + nm(o.size() - 1)); check("construction");
  }
  int any() { std::vector<int> l; for (size_t i = 0; i < o.size(); ++i) if (o[i].m) l.push_back((int)i); return l.empty() ? -1 : l[r.below(l.size())]; }
  int anyt(int t) { std::vector<int> l; for (size_t i = 0; i < o.size(); ++i) if (o[i].m && o[i].t == t) l.push_back((int)i); return l.empty() ? -1 : l[r.below(l.size())]; }
  void parts() {
    int i = any(); if (i < 0) return; int j = r.chance(30) ? i : anyt(o[i].t);
    std::vector<ObjModel::Node> a, b; M.nodes(sc.t[o[i].t].f, o[i].v, o[i].m->mref(), "", a); M.nodes(sc.t[o[j].t].f, o[j].v, o[j].m->mref(), "", b);
    if (a.empty() || b.empty()) return;
    for (int tries = 0; tries < 20; ++tries) {
      auto &x = a[r.below(a.size())]; auto &y = b[r.below(b.size())];
      if (x.f != y.f) continue;
      const Field &f = *x.f; bool nested = i == j && (inside(x.path, y.path) || inside(y.path, x.path));
      std::string d = nm(i) + x.path + " from " + nm(j) + y.path;
      if (x.el && y.el) { // elements
        if (M.size(*y.el) > M.limit) return;
        MFields v = *y.el; ObjModel::strip(f.sub, v, sc); M.note("element " + d);
        mfast::sequence_mref s(x.fm), q(y.fm); s[x.index].as(q[y.index]); *x.el = v; check("element assignment"); c.count("element assignments"); return;
      }
      if (x.el || y.el) continue;
      if (f.t == T::SEQ) {
        mfast::sequence_mref s(x.fm), q(y.fm);
        size_t tot = 0; for (auto &e : y.m->el) tot += M.size(e); if (tot > M.limit) return;
        unsigned k = (unsigned)r.below(4);
        if (k == 0 && x.fm.allocator() == y.fm.allocator() && (!nested || x.path == y.path)) { M.note("swap " + d); s.swap(q); if (x.m != y.m) std::swap(*x.m, *y.m); check("sequence swap"); c.count("sequence swaps"); return; }
        if (k == 1 && x.m->v.present && y.m->v.present && !nested) { // range assignment
          M.note("assign range " + d); mfast::sequence_cref qc(y.fm); size_t first = r.below(y.m->el.size() + 1), last = first + r.below(y.m->el.size() - first + 1);
          std::vector<MFields> v(y.m->el.begin() + first, y.m->el.begin() + last); for (auto &e : v) ObjModel::strip(f.sub, e, sc);
          s.assign(q.begin() + first, q.begin() + last); while (x.m->el.size() > v.size()) { x.m->spare.insert(x.m->spare.begin(), x.m->el.back()); x.m->el.pop_back(); } while (x.m->el.size() < v.size()) { x.m->el.emplace_back(); if (x.m->spare.size()) x.m->spare.erase(x.m->spare.begin()); }
          x.m->el = v; x.m->v.present = true; check("range assignment"); c.count("range assignments"); return; }
        MVal v = *y.m; ObjModel::strip1(f, v, sc); M.note("sequence " + d); mfast::sequence_cref qc(y.fm); s.as(qc); *x.m = v; check("sequence assignment"); c.count("sequence assignments"); return;
      }
      if (!y.m->v.present) continue;
      if (f.t == T::GROUP) { if (M.size(y.m->el[0]) > M.limit || (nested && !x.m->v.present)) return; // group_mref makes the destination present first
        MVal v = *y.m; ObjModel::strip1(f, v, sc); M.note("group " + d); mfast::aggregate_mref(mfast::group_mref(x.fm)).as(mfast::aggregate_cref(mfast::group_cref(y.fm))); *x.m = v; check("group assignment"); c.count("group assignments"); return; }
      if (f.t == T::TREF && y.m->v.tmpl >= 0) { if (M.size(y.m->el[0]) > M.limit || nested) return;
        MVal v = *y.m; ObjModel::strip1(f, v, sc); M.note("nested " + d); mfast::nested_message_mref n(x.fm); mfast::nested_message_cref src(y.fm);
        n.rebind(w.inst[v.v.tmpl]).as(src.target()); *x.m = v; check("nested message assignment"); c.count("nested message assignments"); return; }
    }
  }
  void seqobj() {
    int i = any(); if (i < 0) return; std::vector<ObjModel::Node> a; M.nodes(sc.t[o[i].t].f, o[i].v, o[i].m->mref(), "", a);
    for (int tries = 0; tries < 10 && !a.empty(); ++tries) {
      auto &x = a[r.below(a.size())]; if (x.f->t != T::SEQ || x.el) continue; size_t tot = 0; for (auto &e : x.m->el) tot += M.size(e); if (tot > M.limit) return;
      std::string n; mfast::allocator *al = pick(n); SeqObj q; q.f = x.f; q.v = *x.m; ObjModel::strip1(*x.f, q.v, sc); M.note("sequence object from " + nm(i) + x.path + " on " + n);
      q.s.reset(new mfast::sequence_type(mfast::sequence_cref(x.fm), al)); so.push_back(std::move(q)); check("construction of a sequence object"); c.count("sequence objects");
      if (r.chance(50)) { auto &z = so.back(); M.mutate(*z.f, z.v, mfast::field_mref(z.s->allocator(), const_cast<mfast::value_storage *>(&z.s->storage()), z.s->instruction()), 1, "sequence object"); check("change of a sequence object"); }
      if (r.chance(40)) { mfast::sequence_type mv(std::move(*so.back().s)); *so.back().s = std::move(mv); M.note("moved out and back"); check("move of a sequence object"); }
      if (r.chance(60)) { auto &z = so[r.below(so.size())]; if (z.f == x.f) { MVal v = z.v; ObjModel::strip1(*x.f, v, sc); M.note("back into " + x.path); mfast::sequence_mref(x.fm).as(static_cast<const mfast::sequence_type &>(*z.s).cref()); *x.m = v; check("assignment from a sequence object"); } }
      return;
    }
  }
  void grpobj() {
    int i = any(); if (i < 0) return; std::vector<ObjModel::Node> a; M.nodes(sc.t[o[i].t].f, o[i].v, o[i].m->mref(), "", a);
    for (int tries = 0; tries < 10 && !a.empty(); ++tries) {
      auto &x = a[r.below(a.size())]; if (x.f->t != T::GROUP || go.size() > 6) continue;
      std::string n; mfast::allocator *al = pick(n); GrpObj q; q.f = x.f;
      if (x.m->v.present && r.chance(60)) { if (M.size(x.m->el[0]) > M.limit) return; q.v = x.m->el[0]; ObjModel::strip(x.f->sub, q.v, sc); M.note("group object from " + nm(i) + x.path + " on " + n);
        q.g.reset(new mfast::group_type(mfast::group_cref(x.fm), al)); }
      else { M.note("new group object of " + x.path + " on " + n); q.v = M.initial(x.f->sub); q.g.reset(new mfast::group_type(al, static_cast<mfast::group_type::instruction_cptr>(x.fm.instruction()))); }
      go.push_back(std::move(q)); check("construction of a group object"); c.count("group objects");
      if (r.chance(70)) { auto &z = go.back(); M.mutate(z.f->sub, z.v, mfast::aggregate_mref(z.g->mref()), 1, "group object"); check("change of a group object"); }
      if (r.chance(40)) { GrpObj cp; auto &z = go[r.below(go.size())]; cp.f = z.f; cp.v = z.v; ObjModel::strip(z.f->sub, cp.v, sc); cp.g.reset(new mfast::group_type(*z.g)); go.push_back(std::move(cp)); M.note("copy of a group object"); check("copy of a group object"); M.mutate(go.back().f->sub, go.back().v, mfast::aggregate_mref(go.back().g->mref()), 1, "group object"); check("change of a copied group object"); }
      if (r.chance(40)) { size_t k = r.below(go.size()); mfast::group_type mv(std::move(*go[k].g)); { mfast::group_type empty; mfast::group_type again(empty); (void)again; } M.note("moved out and back"); *go[k].g = std::move(mv); check("move of a group object"); }
      if (r.chance(40)) { size_t k = r.below(go.size()), l = r.below(go.size()); if (k != l) { MFields v = go[l].v; ObjModel::strip(go[l].f->sub, v, sc); *go[k].g = *go[l].g; go[k].v = v; go[k].f = go[l].f; M.note("group object assigned"); check("assignment of a group object"); } }
      if (r.chance(60)) { auto &z = go[r.below(go.size())]; if (z.f == x.f) { MFields v = z.v; ObjModel::strip(x.f->sub, v, sc); M.note("back into " + x.path); const mfast::group_type &cz = *z.g; mfast::aggregate_mref(mfast::group_mref(x.fm)).as(mfast::aggregate_cref(cz.cref())); x.m->v.present = true; x.m->spare.clear(); x.m->el.assign(1, v); check("assignment from a group object"); } }
      if (r.chance(40)) { go.erase(go.begin() + r.below(go.size())); check("destruction of a group object"); }
      return;
    }
  }
  template <typename VT, typename S, typename GEN> void values(const char *kind, GEN gen) { // strings, vectors
    struct X { std::unique_ptr<VT> p; bool pres; S v; }; std::vector<X> l; int n = 4 + (int)r.below(20);
    auto chk = [&](const char *what) { for (auto &x : l) { const VT &q = *x.p; auto cr = q.cref(); if (cr.present() != x.pres) bad(std::string(kind) + ": presence after " + what); if (x.pres && (cr.size() != x.v.size() || !std::equal(x.v.begin(), x.v.end(), cr.begin()))) bad(std::string(kind) + ": content after " + what); c.evaluated(hash_str(std::string(x.v.begin(), x.v.end()), hash_str(what) + x.pres)); }
      if (mon.error.size()) bad("allocator protocol: " + mon.error); if (mon2.error.size()) bad("allocator protocol: " + mon2.error); };
    for (int k = 0; k < n; ++k) {
      unsigned op = l.empty() ? 0 : (unsigned)r.below(6); std::string an; size_t i = l.empty() ? 0 : r.below(l.size()), j = l.empty() ? 0 : r.below(l.size());
      if (op == 0 && l.size() < 6) { X x; x.p.reset(new VT(pick(an))); x.pres = x.p->cref().present(); x.v.clear(); l.push_back(std::move(x)); chk("construction"); }
      else if (op == 1 && l.size() < 6) { X x; x.p.reset(new VT(*l[i].p)); x.pres = l[i].pres; x.v = l[i].v; l.push_back(std::move(x)); chk("copy construction"); }
      else if (op == 2) { *l[i].p = *l[j].p; l[i].v = S(l[j].v); l[i].pres = l[j].pres; chk("assignment"); }
      else if (op == 3 && l.size() > 1) { l.erase(l.begin() + i); chk("destruction"); }
      else { S v = gen(); l[i].p->mref().assign(v.begin(), v.end()); l[i].v = v; l[i].pres = true; chk("change"); }
    }
    c.count(std::string(kind) + " histories");
  }
  void standalone() {
    auto str = [&]() { std::string s; int n = (int)r.below(r.chance(80) ? 12 : 200); for (int k = 0; k < n; ++k) s += (char)r.below(128); return s; };
    switch (r.below(4)) {
    case 0: values<mfast::ascii_string_type, std::string>("string objects", str); break;
    case 1: values<mfast::vector_type<mfast::byte_vector_cref>, std::vector<unsigned char>>("byte vector objects", [&]() { auto s = str(); return std::vector<unsigned char>(s.begin(), s.end()); }); break;
    case 2: values<mfast::vector_type<mfast::int64_vector_cref>, std::vector<int64_t>>("int64 vector objects", [&]() { auto s = str(); return std::vector<int64_t>(s.begin(), s.end()); }); break;
    default: values<mfast::vector_type<mfast::uint32_vector_cref>, std::vector<uint32_t>>("uint32 vector objects", [&]() { auto s = str(); return std::vector<uint32_t>(s.begin(), s.end()); });
    }
  }
  void iterate() { // iterators, front and back agree with indexing
    int i = any(); if (i < 0) return; std::vector<ObjModel::Node> a; M.nodes(sc.t[o[i].t].f, o[i].v, o[i].m->mref(), "", a);
    for (auto &x : a) { if (x.f->t != T::SEQ || x.el || !x.m->v.present) continue; mfast::sequence_mref s(x.fm); mfast::sequence_cref q(x.fm); size_t k = 0;
      if (q.size() != x.m->el.size()) bad("size of a sequence");
      for (auto it = q.begin(); it != q.end(); ++it, ++k) { if (k >= x.m->el.size()) bad("iteration goes beyond the sequence"); if (!same(x.f->sub, plain(x.m->el[k]), read_fields(x.f->sub, *it, sc), sc)) bad("iterator shows another element", x.path); }
      if (k != x.m->el.size()) bad("iteration ends early"); k = 0;
      for (auto it = s.rbegin(); it != s.rend(); ++it, ++k) if (k >= x.m->el.size() || !same(x.f->sub, plain(x.m->el[x.m->el.size() - 1 - k]), read_fields(x.f->sub, *it, sc), sc)) bad("reverse iterator shows another element", x.path);
      if (!x.m->el.empty() && (!same(x.f->sub, plain(x.m->el.front()), read_fields(x.f->sub, q.front(), sc), sc) || !same(x.f->sub, plain(x.m->el.back()), read_fields(x.f->sub, s.back(), sc), sc))) bad("front or back", x.path);
      c.count("sequences iterated"); }
  }
  void run() {
#ifdef VF_C11
    const size_t max_objs = 2; const int nops = 60;
#else
    const size_t max_objs = 6; const int nops = 45;
#endif
#ifndef VF_C11
    if (r.chance(10)) standalone();
#endif
    make((int)r.below(sc.t.size()));
    for (int k = 0; k < nops; ++k) {
      int i = any(); if (i < 0) { make((int)r.below(sc.t.size())); continue; }
      unsigned op = (unsigned)r.below(100);
#ifdef VF_C11
      op = op < 75 ? 0 : op < 85 ? 60 : op < 90 ? 70 : op < 94 ? 75 : op < 96 ? 99 : 98;
#endif
      if (op < 40) { for (int n = 1 + (int)r.below(4); n && M.problem.empty(); --n) { if (M.size(o[i].v) > M.limit) { M.note(nm(i) + " cleared by replacement"); *o[i].m = MT(o[i].m->allocator(), w.inst[o[i].t]); o[i].v = M.initial(sc.t[o[i].t].f); } M.mutate(sc.t[o[i].t].f, o[i].v, o[i].m->mref(), 0, nm(i)); check("a change"); } continue; }
      if (op < 66) { parts(); continue; }
      if (op < 70) { seqobj(); continue; }
      if (op < 72) { grpobj(); continue; }
      if (op < 76) { iterate(); continue; }
      size_t room = o.size(); if (room > 40) break;
      int live = 0; for (auto &x : o) live += x.m != nullptr;
      if (op < 80) { if (live < (int)max_objs) { Obj x; x.t = o[i].t; x.al = o[i].al; x.v = copied(x.t, o[i].v); x.m.reset(new MT(*o[i].m)); o.push_back(std::move(x)); M.note("copy of " + nm(i)); check("copy construction"); c.count("copies"); } }
      else if (op < 84) { if (live < (int)max_objs) { Obj x; x.t = o[i].t; mfast::allocator *al = pick(x.al); x.v = copied(x.t, o[i].v); x.m.reset(new MT(static_cast<const MT &>(*o[i].m).cref(), al)); o.push_back(std::move(x)); M.note("copy of " + nm(i) + " on another allocator"); check("copy construction on an allocator"); c.count("copies"); } }
      else if (op < 87) { int j = any(); M.note(nm(j) + " = " + nm(i)); MFields v = copied(o[i].t, o[i].v); *o[j].m = *o[i].m; o[j].v = v; o[j].t = o[i].t; o[j].al = o[i].al; check("copy assignment"); c.count("copy assignments"); }
      else if (op < 90) { int j = any(); if (j == i) continue; M.note(nm(j) + " = move(" + nm(i) + ")"); *o[j].m = std::move(*o[i].m); o[j].v = o[i].v; o[j].t = o[i].t; o[j].al = o[i].al; if (r.chance(50)) { MT again(*o[i].m); (void)again; } o[i].m.reset(); check("move assignment"); c.count("moves"); }
      else if (op < 92) { if (live < (int)max_objs) { Obj x; x.t = o[i].t; x.al = o[i].al; x.v = o[i].v; x.m.reset(new MT(std::move(*o[i].m))); o[i].m.reset(); o.push_back(std::move(x)); M.note("moved " + nm(i)); check("move construction"); c.count("moves"); } }
      else if (op < 95) { int j = anyt(o[i].t); M.note(nm(j) + ".as(" + nm(i) + ")"); MFields v = copied(o[i].t, o[i].v); o[j].m->mref().as(static_cast<const MT &>(*o[i].m).cref()); o[j].v = v; check("as"); c.count("whole message assignments"); }
      else if (op < 97) { if (live > 1) { M.note("destroy " + nm(i)); o[i].m.reset(); check("destruction"); } }
      else if (op < 98) { if (!so.empty()) { so.erase(so.begin() + r.below(so.size())); check("destruction of a sequence object"); } }
      else if (live < (int)max_objs) make((int)r.below(sc.t.size()));
    }
    so.clear(); go.clear(); for (auto &x : o) x.m.reset();
    if (mon.error.size()) bad("allocator protocol: " + mon.error); if (mon2.error.size()) bad("allocator protocol: " + mon2.error);
    if (!mon.live.empty() || !mon2.live.empty()) bad("leak: blocks were not returned");
    c.count("allocations watched", mon.allocs + mon.reallocs + mon2.allocs + mon2.reallocs); c.count("changes applied", M.ops);
    for (auto &s : M.seen) c.count(s.first, s.second);
    c.sample(M.log.substr(w.xmls.size() < M.log.size() ? w.xmls.size() : 0));
  }
};
static bool has_seq(const std::vector<Field> &fs) { for (auto &f : fs) if (f.t == T::SEQ || has_seq(f.sub)) return true; return false; }
static void one(Ctx &c) {
  Rng &r = c.rng; World w; GenCfg cfg; cfg.forms = false; cfg.dicts = false; cfg.max_docs = 1; cfg.max_fields = 6; cfg.max_templates = 3;
  Schema s;
  for (int i = 0; i < 20; ++i) { s = make_schema(r, cfg);
#ifdef VF_C11
    bool h = false; for (auto &t : s.t) h = h || has_seq(t.f); if (!h) continue;
#endif
    break; }
  w.dynamic(s); Pool p(c, w); p.run();
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
