// C10: string, byte vector and integer vector fields against std::vector.
#include "model.h"
#include "monalloc.h"
#include "runner.h"
#include <mfast.h>
#include <mfast/xml_parser/dynamic_templates_description.h>
#include <list>
#include <sstream>
using namespace vf;
using namespace mfast;

static const char XML[] =
  "<templates xmlns=\"http://www.fixprotocol.org/ns/template-definition\"><template name=\"V\" id=\"1\">"
  "<string name=\"a0\"/><string name=\"a1\" presence=\"optional\"/>"
  "<string name=\"a2\"><copy value=\"initial\"/></string><string name=\"a3\" presence=\"optional\"><default value=\"start-value\"/></string>"
  "<string name=\"n0\" charset=\"unicode\"/><string name=\"n1\" charset=\"unicode\" presence=\"optional\"/>"
  "<string name=\"n2\" charset=\"unicode\"><copy value=\"uni\"/></string><string name=\"n3\" charset=\"unicode\" presence=\"optional\"><delta value=\"x\"/></string>"
  "<byteVector name=\"b0\"/><byteVector name=\"b1\" presence=\"optional\"/>"
  "<byteVector name=\"b2\"><copy value=\"00ff1080\"/></byteVector><byteVector name=\"b3\" presence=\"optional\"><tail value=\"deadbeef01\"/></byteVector>"
  "<int32Vector name=\"vi0\"/><int32Vector name=\"vi1\" presence=\"optional\"/>"
  "<uInt32Vector name=\"vu0\"/><uInt32Vector name=\"vu1\" presence=\"optional\"/>"
  "<int64Vector name=\"vl0\"/><int64Vector name=\"vl1\" presence=\"optional\"/>"
  "<uInt64Vector name=\"vm0\"/><uInt64Vector name=\"vm1\" presence=\"optional\"/>"
  "</template></templates>";

template <class T> struct Model { bool present = false; std::vector<T> v; bool owned = false; bool initial = false; };
template <class M> struct IsStr : std::false_type {};
template <> struct IsStr<ascii_string_mref> : std::true_type {};
template <> struct IsStr<unicode_string_mref> : std::true_type {};

template <class M, class C, class T> struct Tester {
  Ctx &c; Rng &r; const field_instruction *fi; allocator *al; MonAlloc *mon; arena_allocator *arena;
  std::string log; bool opt; std::vector<T> init; bool has_init; bool small;
  std::vector<std::unique_ptr<T[]>> borrowed;
  static constexpr bool str = IsStr<M>::value;
  Tester(Ctx &c_, const field_instruction *f, allocator *a, MonAlloc *m, arena_allocator *ar, const std::string &how) : c(c_), r(c_.rng), fi(f), al(a), mon(m), arena(ar) {
    opt = f->optional(); log = std::string("field ") + f->name() + ", " + how + ": ";
    value_storage iv; f->construct_value(iv, al); // borrows the initial value
    has_init = false;
    std::string n = f->name();
    static const std::map<std::string, std::string> inits{{"a2", "initial"}, {"a3", "start-value"}, {"n2", "uni"}, {"n3", "x"}, {"b2", std::string("\x00\xff\x10\x80", 4)}, {"b3", "\xde\xad\xbe\xef\x01"}};
    auto it = inits.find(n);
    if (it != inits.end()) { has_init = true; init.assign(it->second.begin(), it->second.end()); }
    small = r.chance(60);
    f->destruct_value(iv, al);
  }
  T elem() { return (T)(small ? 'a' + r.below(4) : sizeof(T) == 1 ? r.below(256) : r.next()); }
  std::vector<T> some(size_t max = 12) {
    size_t n = r.chance(15) ? 0 : r.below(r.chance(10) ? 300 : max); std::vector<T> v(n); for (auto &x : v) x = elem(); return v; }
  size_t some_n() { return r.chance(10) ? 60 + r.below(10) : r.chance(8) ? 250 + r.below(800) : r.below(24); }
  static std::string txt(const std::vector<T> &v) { std::ostringstream o; o << "[" << v.size() << ":"; for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? "," : "") << (sizeof(T) == 1 ? (long long)(unsigned char)v[i] : (long long)v[i]); o << "]"; return o.str(); }
  std::vector<T> read(const C &x) { std::vector<T> v; for (size_t i = 0; i < x.size(); ++i) v.push_back((T)x[i]); return v; }
  [[noreturn]] void bad(const std::string &k) { c.fail(std::string("field value: ") + k, log); }
  void check(const M &m, Model<T> &mo) {
    C x(m);
    if (m.present() != (mo.present || !opt) || m.absent() == m.present()) bad(mo.present ? "absent after an operation that gives it a value" : "present although it has no value");
    std::vector<T> got = read(x), want = mo.present || !opt ? mo.v : std::vector<T>();
    if (m.present()) {
      if (x.size() != want.size() || got != want) { log += " holds " + txt(got) + " expected " + txt(want); bad("differs from the standard container"); }
      std::vector<T> it; for (auto p = x.begin(); p != x.end(); ++p) it.push_back((T)*p);
      std::vector<T> rv; for (auto p = x.rbegin(); p != x.rend(); ++p) rv.push_back((T)*p);
      std::reverse(rv.begin(), rv.end());
      if (it != want || rv != want) bad("iteration differs from indexing");
      if (m.size() != want.size() || x.length() != want.size()) bad("size");
      bool is_init = has_init && want == init;
      if constexpr (sizeof(T) == 1) { if (x.is_initial_value() != is_init && !(opt && !has_init)) bad("is_initial_value() is wrong"); }
      if constexpr (str) {
        if (mo.owned || mo.initial || mo.v.empty()) {
          std::string s(want.begin(), want.end()); const char *p = x.c_str();
          for (size_t i = 0; i < s.size(); ++i) if (p[i] != s[i]) bad("c_str() differs");
          if (p[s.size()] != 0) bad("c_str() is not terminated");
        }
        if (x.value() != boost::string_ref(want.data() ? (const char *)want.data() : "", want.size())) bad("value() differs");
      }
    } else if constexpr (str) { if (x.c_str()[0] != 0) bad("c_str() of an absent string"); }
    if (has_init) {
      // the shared initial value never changes
      value_storage s; fi->construct_value(s, al);
      if (opt) s.present(1);
      const char *p = (const char *)s.of_array.content_;
      if (!p || memcmp(p, init.data(), init.size() * sizeof(T))) bad("the shared initial value changed");
    }
    if (mon && !mon->error.empty()) { log += " " + mon->error; bad("allocation protocol broken"); }
    c.evaluated(hash_str(log.substr(0, 60)) ^ mix64(hash_bytes(want.data(), want.size() * sizeof(T), mo.owned * 4 + mo.present * 2 + mo.initial)), true);
  }
  void set(Model<T> &mo, std::vector<T> v) { mo.v = std::move(v); mo.present = true; mo.owned = true; mo.initial = false; }
  // one random operation on field 0 (field 1 is the partner for swaps and copies)
  void step(const M &m, Model<T> &mo, const M &m2, Model<T> &mo2) {
    size_t sz = mo.present || !opt ? mo.v.size() : 0;
    std::vector<T> cur = mo.present || !opt ? mo.v : std::vector<T>();
    auto say = [&](const std::string &s) { log += s + "; "; };
    int op = (int)r.below(26);
    bool inject = mon && r.chance(6);
    if (inject) mon->fail_at = 1;
    Model<T> before = mo;
    struct Off { MonAlloc *m; ~Off() { if (m) m->fail_at = -1; } } off{mon};
    try {
    switch (op) {
    case 0: { auto v = some(); say("assign " + txt(v)); m.assign(v.begin(), v.end()); set(mo, v); break; }
    case 1: { auto v = some(); say("assign(input) " + txt(v)); if (inject) mon->fail_at = -1; std::list<T> l(v.begin(), v.end()); m.assign(l.begin(), l.end()); set(mo, v); break; }
    case 2: { size_t n = some_n(); T e = elem(); say("assign n=" + std::to_string(n)); m.assign(n, e); set(mo, std::vector<T>(n, e)); break; }
    case 3: { say("as(partner)"); C o(m2); M(m).as(o); if (mo2.present || !opt) set(mo, mo2.v); else { mo.present = false; mo.initial = false; } break; }
    case 4: { auto v = some(4); say("append " + txt(v)); m.insert(m.end(), v.begin(), v.end()); cur.insert(cur.end(), v.begin(), v.end());
      set(mo, cur); break; }
    case 5: { size_t p = r.below(sz + 1); auto v = some(5); say("insert range at " + std::to_string(p) + " " + txt(v)); m.insert(m.begin() + p, v.begin(), v.end()); cur.insert(cur.begin() + p, v.begin(), v.end()); set(mo, cur); break; }
    case 6: { size_t p = r.below(sz + 1); auto v = some(4); say("insert input range at " + std::to_string(p) + " " + txt(v)); if (inject) mon->fail_at = -1; std::list<T> l(v.begin(), v.end()); m.insert(m.begin() + p, l.begin(), l.end()); cur.insert(cur.begin() + p, v.begin(), v.end());
      if (v.empty()) { Model<T> keep = mo; if (opt && !mo.present && m.present()) set(mo, cur); else mo = keep; } else set(mo, cur); break; }
    case 7: { size_t p = r.below(sz + 1); T e = elem(); say("insert one at " + std::to_string(p)); auto it = m.insert(m.begin() + p, e); if ((size_t)(it - m.begin()) != p) bad("insert() returned the wrong position"); cur.insert(cur.begin() + p, e); set(mo, cur); break; }
    case 8: { size_t p = r.below(sz + 1), n = r.chance(80) ? r.below(6) : some_n(); T e = elem(); say("insert " + std::to_string(n) + " at " + std::to_string(p)); m.insert(m.begin() + p, n, e); cur.insert(cur.begin() + p, n, e); set(mo, cur); break; }
    case 9: { size_t p = r.below(sz + 1), k = r.below(sz - p + 1); if (r.chance(10)) k = sz - p + r.below(3); auto v = some(8);
      say("replace at " + std::to_string(p) + " count " + std::to_string(k) + " by " + txt(v)); m.replace(p, k, (decltype(C(m).data()))v.data(), v.size());
      size_t kk = std::min(k, sz - p); cur.erase(cur.begin() + p, cur.begin() + p + kk); cur.insert(cur.begin() + p, v.begin(), v.end()); set(mo, cur); break; }
    case 10: { if (!sz) return; size_t p = r.below(sz), k = 1 + r.below(sz - p); say("erase " + std::to_string(p) + "+" + std::to_string(k)); m.replace(p, k, nullptr, 0); cur.erase(cur.begin() + p, cur.begin() + p + k); set(mo, cur); break; }
    case 11: { T e = elem(); say("push_back"); m.push_back(e); cur.push_back(e); set(mo, cur); break; }
    case 12: { if (!sz) return; say("pop_back"); bool was_owned = mo.owned; m.pop_back(); cur.pop_back(); set(mo, cur); (void)was_owned; break; }
    case 13: case 14: { size_t n = some_n(); T e = elem(); say("resize " + std::to_string(n)); m.resize(n, e); cur.resize(n, e); set(mo, cur); break; }
    case 15: { size_t n = some_n(); say("reserve " + std::to_string(n)); size_t old = sz; m.reserve(n);
      if (mo.present || !opt) { if (n < old && !mo.owned) { // documented: a borrowed value may be cut when less is reserved
            std::vector<T> g = read(C(m)); if (g.size() == old) { std::vector<T> a(g.begin(), g.begin() + n), b(mo.v.begin(), mo.v.begin() + n); if (a != b) bad("reserve changed the content"); m.resize(n); cur.resize(n); set(mo, cur); } else { log += "(cut)"; set(mo, cur); }
        } else { bool init0 = mo.initial; set(mo, cur); (void)init0; } }
      break; }
    case 16: { say("clear"); m.clear(); if (opt) mo.present = false; else { mo.v.clear(); mo.present = true; } mo.initial = false; break; }
    case 17: { say("omit"); m.omit(); if (opt) { mo.present = false; mo.initial = false; } break; }
    case 18: { say("swap"); m.swap(m2); std::swap(mo, mo2); break; }
    case 19: { auto v = some(); borrowed.emplace_back(new T[v.size() + 1]()); T *p = borrowed.back().get(); if (!v.empty()) { borrowed.back().reset(new T[v.size()]); p = borrowed.back().get(); std::copy(v.begin(), v.end(), p); }
      say("refers_to " + txt(v)); m.vector_mref_base_refers((const T *)p, v.size()); mo.v = v; mo.present = true; mo.owned = false; mo.initial = false; break; }
    case 20: if constexpr (sizeof(T) == 1) { say("to_initial_value"); m.to_initial_value(); if (has_init) { set(mo, init); } else if (opt) { mo.present = false; mo.initial = false; } else { if (m.size() == 0) { mo.v.clear(); mo.initial = false; } } break; }
    case 21: { if (!sz || !mo.owned) return; size_t p = r.below(sz); T e = elem(); say("write [" + std::to_string(p) + "]"); write(m, p, e); cur[p] = e; set(mo, cur); break; }
    case 22: { if (!(mo.present || !opt)) return; size_t p = r.below(sz + 1), k = r.below(sz - p + 1); say("self assign " + std::to_string(p) + "+" + std::to_string(k)); C x(m); m.assign(x.begin() + p, x.begin() + p + k); set(mo, std::vector<T>(cur.begin() + p, cur.begin() + p + k)); break; }
    case 23: { if (!(mo.present || !opt)) return; say("self as"); C x(m); M(m).as(x); set(mo, cur); break; }
    case 24: { // an independent copy through the instruction
      say("copy"); value_storage s; fi->copy_construct_value(*st, s, al); C x(&s, (typename C::instruction_cptr)fi);
      std::vector<T> g = read(x); bool p = x.present(); if (p != (mo.present || !opt) || (p && g != cur)) { fi->destruct_value(s, al); bad("a copy differs"); }
      if (p && !cur.empty() && mo.owned && r.chance(50)) { M y(al, &s, (typename C::instruction_cptr)fi); y.resize(g.size() + 3); if (read(C(m)) != cur) bad("changing a copy changed the original"); }
      fi->destruct_value(s, al); break; }
    case 25: strings(m, mo, cur); break;
    }
    } catch (std::bad_alloc &) {
      if (!inject) throw;
      log += "(no memory) ";
      c.count("allocation failures injected");
      mo = before;
      // the value is still a valid one: either the old one or a prefix of the new
      Model<T> old = before; std::vector<T> g = read(C(m));
      if (op == 9 || op == 8 || op == 3 || op == 22 || op == 23 || true) { if (!m.present()) mo.present = false; else { if (g != before.v) { if (!(mo.present || !opt) || true) mo.v = g; } mo.present = true; } }
      if (m.present() && g != old.v && (old.present || !opt)) bad("a failed operation changed the value");
    }
    if (inject) { mon->fail_at = -1; }
    c.count("operations");
  }
  void write(const M &m, size_t p, T e) { m[p] = e; }
  void strings(const M &m, Model<T> &mo, std::vector<T> cur) {
    if constexpr (str) {
      auto v = some(6); std::string s(v.begin(), v.end());
      switch (r.below(6)) {
      case 0: log += "+=str; "; m += boost::string_ref(s); cur.insert(cur.end(), v.begin(), v.end()); break;
      case 1: { T e = elem(); log += "+=char; "; m += (char)e; cur.push_back(e); break; }
      case 2: { size_t p = r.below(s.size() + 1), k = r.below(s.size() - p + 1); if (s.empty()) return; log += "append sub; "; m.append(boost::string_ref(s), p, k); cur.insert(cur.end(), v.begin() + p, v.begin() + p + k); break; }
      case 3: log += "append(ptr,n); "; m.append(s.data(), s.size()); cur.insert(cur.end(), v.begin(), v.end()); break;
      case 4: { size_t n = r.below(20); char e = (char)elem(); log += "append(n,c); "; m.append(n, e); cur.insert(cur.end(), n, (T)e); break; }
      default: log += "=str; "; { typename M::Base y(m); y = boost::string_ref(s); } cur.assign(v.begin(), v.end()); break;
      }
      set(mo, cur);
    }
  }
  const value_storage *st = nullptr;
};
// refers_to has different signatures for strings and vectors
template <class M> struct Wrap : M {
  using M::M; typedef M Base;
  Wrap(const M &m) : M(m) {}
  template <class T> void vector_mref_base_refers(const T *p, size_t n) const {
    if constexpr (IsStr<M>::value) M::refers_to(boost::string_ref((const char *)p, n)); else M::refers_to(p, n);
  }
};
template <class M> struct IsStr<Wrap<M>> : IsStr<M> {};

template <class M0, class C, class T> static void run(Ctx &c, const template_instruction *ti, size_t idx) {
  typedef Wrap<M0> M; Rng &r = c.rng;
  const field_instruction *fi = ti->subinstruction(idx);
  int kind = (int)r.below(4);
  std::unique_ptr<MonAlloc> mon; arena_allocator arena; allocator *al;
  if (kind == 0) al = malloc_allocator::instance(); else if (kind == 1) al = &arena;
  else { mon.reset(new MonAlloc("allocator", r.next(), (int)r.below(3))); al = mon.get(); }
  static const char *names[] = {"malloc", "arena", "monitored", "monitored"};
  {
    value_storage s[2];
    Tester<M, C, T> t(c, fi, al, mon.get(), kind == 1 ? &arena : nullptr, names[kind]);
    for (auto &x : s) fi->construct_value(x, al);
    typedef typename C::instruction_cptr IP;
    M m[2] = {M(M0(al, &s[0], (IP)fi)), M(M0(al, &s[1], (IP)fi))};
    Model<T> mo[2];
    for (auto &x : mo) { if (!t.opt) { x.present = true; if (t.has_init) { x.v = t.init; x.initial = true; } } }
    struct Clean { const field_instruction *f; value_storage *s; allocator *a; ~Clean() { f->destruct_value(s[0], a); f->destruct_value(s[1], a); } } clean{fi, s, al};
    t.check(m[0], mo[0]);
    int n = (int)r.range(5, 40);
    for (int k = 0; k < n; ++k) {
      int w = r.chance(70) ? 0 : 1;
      t.st = &s[w];
      t.step(m[w], mo[w], m[1 - w], mo[1 - w]);
      t.check(m[w], mo[w]); t.check(m[1 - w], mo[1 - w]);
    }
    c.sample(t.log);
    c.count(std::string("histories with ") + names[kind]);
    c.count(std::string("histories of ") + fi->name());
  }
  if (mon) { if (!mon->error.empty()) c.fail("field value: allocation protocol broken", mon->error); if (!mon->live.empty()) c.fail("field value: memory not returned to its allocator", std::to_string(mon->live.size()) + " blocks"); }
}
static void one(Ctx &c) {
  static dynamic_templates_description desc(XML);
  const template_instruction *ti = desc[0];
  size_t i = c.rng.below(20);
  if (i < 4) run<ascii_string_mref, ascii_string_cref, char>(c, ti, i);
  else if (i < 8) run<unicode_string_mref, unicode_string_cref, char>(c, ti, i);
  else if (i < 12) run<byte_vector_mref, byte_vector_cref, unsigned char>(c, ti, i);
  else if (i < 14) run<int32_vector_mref, int32_vector_cref, int32_t>(c, ti, i);
  else if (i < 16) run<uint32_vector_mref, uint32_vector_cref, uint32_t>(c, ti, i);
  else if (i < 18) run<int64_vector_mref, int64_vector_cref, int64_t>(c, ti, i);
  else run<uint64_vector_mref, uint64_vector_cref, uint64_t>(c, ti, i);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
