// C22: the generated types describe the templates of their documents, and
// their typed accessors are the fields that generic access reaches.
#include "docgen.h"
#include "world.h"
#include "typed.h"
#include "objmodel.h"
#include "monalloc.h"
using namespace vf;
using namespace mfast;
static void describe(Ctx &c, const World &w) {
  static std::set<int> done; if (!done.insert(w.gen_index).second) return;
  Loaded ld(w.sc);
  if (ld.ptr.size() != w.ptr.size()) c.fail("number of descriptions", w.xmls);
  for (size_t d = 0; d < ld.ptr.size(); ++d) {
    const templates_description &a = *ld.ptr[d], &b = *w.ptr[d];
    auto str = [](const char *x) { return std::string(x ? x : ""); };
    if (str(a.ns()) != str(b.ns()) || str(a.template_ns()) != str(b.template_ns()) || str(a.dictionary()) != str(b.dictionary())) c.fail("the attributes of the document differ in the generated description", w.xmls + "loaded " + cquote(str(a.ns())) + cquote(str(a.template_ns())) + cquote(str(a.dictionary())) + " generated " + cquote(str(b.ns())) + cquote(str(b.template_ns())) + cquote(str(b.dictionary())));
    if (a.size() != b.size()) c.fail("the generated description has another number of templates", w.xmls);
    for (uint32_t k = 0; k < a.size(); ++k) {
      std::string x = Describe::tmpl(a[k]), y = Describe::tmpl(b[k]);
      if (x != y) c.fail("the generated description of a template differs from the loaded one", first_difference(x, y) + "\n(loaded is what is expected, generated what was found)\n" + w.xmls);
      if (b.instruction_with_id(a[k]->id()) != b[k]) c.fail("template of the generated description not found by identifier", w.xmls);
      c.count("templates described"); c.count("fields described", std::count(x.begin(), x.end(), '\n') - 1); c.evaluated(hash_str(x));
    }
  }
  for (size_t t = 0; t < w.sc.t.size(); ++t) {
    const GenTyped &g = w.ge->typed[t];
    if (g.instruction() != w.inst[t]) c.fail("instruction() of the generated type is not the one of its description", w.xmls);
    if (g.id != w.sc.t[t].id) c.fail("the_id differs from the identifier of the template", w.xmls);
  }
}
static void one(Ctx &c) {
  Rng &r = c.rng; World w; w.generated((int)r.below(gen_count)); const Schema &sc = w.sc;
  describe(c, w);
  MonAlloc al("message", r.next(), (int)r.below(3)); mfast::allocator *A = r.chance(30) ? (mfast::allocator *)&al : World::def();
  std::string log = w.xmls;
  {
    int t = (int)r.below(sc.t.size()); const GenTyped &g = w.ge->typed[t]; const std::vector<Field> &F = sc.t[t].f;
    std::shared_ptr<message_type> obj(g.make(A)); Typed k(sc, w.inst, r); log += "message of " + sc.t[t].name + "\n";
    if (obj->instruction() != w.inst[t]) c.fail("a new object has another instruction", log);
    auto check = [&](message_type &o, const std::vector<Value> *want, const char *what) {
      Values typed, gen; std::string wh;
      try { if (r.chance(50)) g.read(k, o.cref(), typed); else g.read_object(k, o, typed); } catch (bad_optional_access &) { c.fail(std::string(what) + ": get_ throws", log); }
      if (!k.error.empty()) c.fail(std::string(what) + ": " + k.error, log);
      gen = read_fields(F, o.cref(), sc);
      if (!same(F, gen, typed, sc, &wh)) c.fail(std::string(what) + ": typed access reads something else than generic access", log + "generic " + show(F, gen, sc) + "\ntyped " + show(F, typed, sc) + "\nat " + wh);
      if (want && !same(F, *want, gen, sc, &wh)) c.fail(std::string(what) + ": the field does not hold the value it was given", log + "assigned " + show(F, *want, sc) + "\nholds " + show(F, gen, sc) + "\nat " + wh);
      c.evaluated(hash_str(show(F, gen, sc), hash_str(w.xmls) + t)); c.count("messages read");
      return gen;
    };
    { // as new: what a message of the loaded description holds
      Loaded ld(sc); message_type m(World::def(), ld.inst[t]); Message x = read_message(m.cref(), sc); check(*obj, &x.f, "new object"); }
    std::vector<std::shared_ptr<message_type>> old;
    for (int n = (int)r.range(2, 8); n > 0; --n) {
      MsgGen mg(sc, r, nullptr); mg.absent_pct = r.chance(20) ? 80 : r.chance(20) ? 5 : 30; Message v = mg.gen_message(t); if (mg.failed) continue;
      log += show(v, sc) + "\n";
      if (r.chance(75)) { if (r.chance(50)) g.write(k, obj->mref(), v.f); else g.write_object(k, *obj, v.f); c.count("messages written through typed accessors"); if (!k.error.empty()) c.fail("written with typed accessors: " + k.error, log); check(*obj, &v.f, "written with typed accessors"); }
      else { write_fields(F, v.f, obj->mref(), sc, w.inst); check(*obj, &v.f, "written generically"); }
      if (r.chance(30)) { std::shared_ptr<message_type> o(g.copy(obj->cref(), r.chance(50) ? A : World::def())); log += "copied\n"; check(*o, &v.f, "copy"); if (r.chance(50)) std::swap(o, obj); old.push_back(std::move(o)); }
    }
    c.count("accessor checks", k.checks);
  }
  c.sample(log.substr(w.xmls.size()));
  if (al.error.size()) c.fail("allocator protocol: " + al.error, log);
  if (!al.live.empty()) c.fail("leak: blocks not returned by the messages", log);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
