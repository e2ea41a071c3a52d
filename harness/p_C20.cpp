// C20: a view presents exactly the fields its definition references.
#include "docgen.h"
#include "genmsg.h"
#include "runner.h"
#include <mfast/view_iterator.h>
using namespace vf;
using namespace mfast;
struct Step { int field; long elem; }; // the index of the field, then of the sequence element (-1: none)
struct Path { std::string text; std::vector<Step> steps; const Field *leaf = nullptr; bool element = false; };
struct ViewDef { int tmpl; std::string name; std::vector<std::vector<Path>> fields; };
struct ViewGen {
  Rng &r; const Schema &sc;
  // a random path through the fields; names must lead to one field only
  bool path(const std::vector<Field> &fs, Path &p, int depth) {
    std::vector<int> ok; std::map<std::string, int> n; for (auto &f : fs) ++n[f.t == T::TREF ? "" : f.name];
    for (size_t i = 0; i < fs.size(); ++i) if (n[fs[i].t == T::TREF ? "" : fs[i].name] == 1 && fs[i].name.find_first_of(".[]") == std::string::npos) ok.push_back((int)i);
    if (ok.empty()) return false;
    int i = -1; for (int k = 0; k < 3; ++k) { i = ok[r.below(ok.size())]; if (fs[i].t == T::GROUP || fs[i].t == T::SEQ) break; }
    const Field &f = fs[i]; if (!p.text.empty()) p.text += "."; p.text += f.t == T::TREF ? "" : f.name; p.leaf = &f; p.element = false; p.steps.push_back({i, -1});
    if (f.t == T::GROUP && r.chance(85)) { Path q = p; if (path(f.sub, q, depth + 1)) p = q; return true; }
    if (f.t == T::SEQ && r.chance(85)) {
      Path q = p; long k = r.chance(60) ? (long)r.below(2) : r.chance(70) ? (long)r.below(6) : r.chance(50) ? 4294967295L - (long)r.below(3) : 2147483647L + (long)r.below(3);
      q.steps.back().elem = k; q.text += "[" + std::to_string(k) + "]";
      if (r.chance(15)) { q.element = true; p = q; return true; }
      if (path(f.sub, q, depth + 1)) p = q;
      return true; }
    return true;
  }
  bool gen(int t, int no, ViewDef &v) {
    v.tmpl = t; v.name = "V" + std::to_string(no); std::vector<Path> pool;
    for (size_t k = 0, n = 1 + r.below(12); k < n; ++k) { Path p; if (path(sc.t[t].f, p, 0) && !p.text.empty() && p.text != ".") pool.push_back(p); }
    if (pool.empty()) return false;
    for (size_t k = 0, n = 1 + r.below(8); k < n; ++k) { std::vector<Path> alt; for (size_t j = 0, m = r.chance(50) ? 1 : 1 + r.below(4); j < m; ++j) alt.push_back(r.chance(70) && !v.fields.empty() && r.chance(50) ? r.pick(v.fields.back()) : r.pick(pool)); v.fields.push_back(alt); }
    return true;
  }
};
static std::string view_xml(const ViewDef &v, const Schema &sc, Rng &r) {
  std::string s = "<view name=\"" + v.name + "\" reference=\"" + sc.t[v.tmpl].name + "\">"; int n = 0;
  for (auto &f : v.fields) { s += "<field name=\"f" + std::to_string(n++) + "\">"; for (auto &p : f) s += "<reference name=\"" + p.text + "\"/>" + (r.chance(20) ? "\n " : ""); s += "</field>"; }
  return s + "</view>";
}
// the oracle: follow the path through the values of the message
static bool follow(const Path &p, const std::vector<Field> &top, const std::vector<Value> &msg, const Field *&f, const Value *&v) {
  const std::vector<Field> *fs = &top; const std::vector<Value> *vs = &msg;
  for (size_t i = 0; i < p.steps.size(); ++i) {
    f = &(*fs)[p.steps[i].field]; v = &(*vs)[p.steps[i].field]; bool last = i + 1 == p.steps.size();
    if (!v->present) return false;
    if (p.steps[i].elem >= 0) {
      if ((size_t)p.steps[i].elem >= v->elems.size()) return false;
      fs = &f->sub; vs = &v->elems[p.steps[i].elem];
      if (last) { if (fs->empty()) return false; f = &(*fs)[0]; v = &(*vs)[0]; return v->present; } // the element itself stands for its first field
    } else if (!last) { fs = &f->sub; vs = &v->elems.at(0); }
  }
  return true;
}
static void one(Ctx &c) {
  Rng &r = c.rng; GenCfg cfg; cfg.max_docs = 1; cfg.max_templates = 3; cfg.max_fields = 6; cfg.unnamed_pct = r.chance(30) ? 40 : 0;
  DocGen g(r, make_schema(r, cfg)); std::string doc = g.write()[0]; ViewGen vg{r, g.sc}; std::vector<ViewDef> views; int no = 0; std::string xml;
  for (size_t t = 0; t < g.sc.t.size(); ++t) if (g.sc.t[t].ns.empty()) for (size_t k = 0, n = 1 + r.below(3); k < n; ++k) { ViewDef v; if (vg.gen((int)t, no, v)) { ++no; views.push_back(v); xml += view_xml(v, g.sc, r) + "\n"; } }
  if (views.empty()) return;
  size_t at = doc.rfind("</templates"); if (at == std::string::npos) return; doc.insert(at, xml);
  template_registry reg; std::unique_ptr<dynamic_templates_description> D;
  try { D.reset(new dynamic_templates_description(doc.c_str(), "", &reg)); } catch (std::exception &e) { c.fail("a document with views is rejected", doc + "\n" + boost::diagnostic_information(e)); }
  if (D->view_infos().size() != views.size()) c.fail("the number of views is wrong", doc);
  std::vector<const template_instruction *> inst; for (size_t i = 0; i < D->size(); ++i) inst.push_back((*D)[i]);
  malloc_allocator ma;
  for (size_t k = 0; k < views.size(); ++k) {
    const ViewDef &v = views[k]; auto &info = D->view_infos()[k];
    if (v.name != info.name_ || info.instruction_ != inst[v.tmpl]) c.fail("a view is about another template", doc);
    for (int n = 0; n < 6; ++n) {
      message_type m(&ma, inst[v.tmpl]); MsgGen mg(g.sc, r, nullptr); mg.absent_pct = r.chance(50) ? 20 : 50; std::vector<Value> w; for (auto &f : g.sc.t[v.tmpl].f) w.push_back(mg.gen(f, 3));
      write_fields(g.sc.t[v.tmpl].f, w, m.mref(), g.sc, inst);
      Message now = read_message(m.cref(), g.sc);
      view_iterator it(m.cref(), info.data_.begin(), info.max_depth_), end(info.data_.end() - 1); std::vector<view_iterator> copies;
      size_t i = 0;
      for (; it != end; ++it, ++i) {
        if (i >= v.fields.size()) c.fail("the view has too many fields", doc);
        if (r.chance(10)) copies.push_back(it);
        const Field *f = nullptr; const Value *x = nullptr; bool want = false; const Path *used = nullptr;
        for (auto &p : v.fields[i]) if (follow(p, g.sc.t[v.tmpl].f, now.f, f, x)) { want = true; used = &p; break; }
        field_cref leaf = *it;
        auto where = [&] { return "view " + v.name + " field " + std::to_string(i) + (used ? " path " + used->text : std::string()) + "\nmessage " + show(now, g.sc) + "\n" + doc; };
        if (leaf.present() != want) c.fail(want ? "a field of the message is missing from the view" : "the view presents a field that does not exist", where());
        c.count(want ? "fields presented" : "fields absent"); if (v.fields[i].size() > 1) c.count("fields with alternatives"); if (used) { c.maxi("longest path", used->steps.size()); for (auto &s : used->steps) if (s.elem >= 0) { c.count("paths through sequences"); break; } }
        if (want) {
          auto ty = leaf.instruction()->field_type(); if (ty == field_type_exponent) ty = field_type_decimal; if (ty != mf_type(f->t) || std::string(leaf.name()) != (f->t == T::TREF ? "" : f->name)) c.fail("the view presents another field", where());
          Value got = read_field(*f, leaf, g.sc); if (!same({*f}, {got}, {*x}, g.sc)) c.fail("the view presents another value", where() + "\ngot " + show({*f}, {got}, g.sc));
        }
        c.evaluated(hash_str(v.name + std::to_string(i) + doc) + n);
      }
      if (i != v.fields.size()) c.fail("the view has too few fields", doc);
      for (auto &q : copies) { auto j = q; size_t left = 0; for (; j != end; ++j) { (void)(*j).present(); ++left; } if (!left) c.fail("a copied iterator does not continue", doc); }
    }
  }
  c.sample(xml);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
