// A model of message objects: what a newly constructed field holds, random
// changes applied to the real object and the model alike, and the content that
// may become visible again when a sequence grows or a group comes back.
#pragma once
#include "world.h"
#include "monalloc.h"
#include <mfast/sequence_type.h>
namespace vf {
struct MVal;
typedef std::vector<MVal> MFields;
struct MVal {
  Value v;                       // scalars, presence, target of a nested message
  std::vector<MFields> el;       // visible elements / content
  std::vector<MFields> spare;    // sequence: what elements el.size().. held when last visible; group: content while absent
};
inline std::vector<Value> plain(const MFields &m);
inline Value plain(const MVal &m) { Value v = m.v; v.elems.clear(); if (v.present) for (auto &e : m.el) v.elems.push_back(plain(e)); return v; }
inline std::vector<Value> plain(const MFields &m) { std::vector<Value> r; for (auto &x : m) r.push_back(plain(x)); return r; }

struct ObjModel {
  const Schema &sc; Rng &r; const std::vector<const mfast::template_instruction *> &inst;
  std::string problem, log; uint64_t ops = 0; std::map<std::string, uint64_t> seen;
  size_t limit = 300;
  ObjModel(const Schema &s, Rng &r_, const std::vector<const mfast::template_instruction *> &i) : sc(s), r(r_), inst(i) {}
  void note(const std::string &s) { log += s + "\n"; if (log.size() > 60000) log = log.substr(log.size() - 40000); }

  MVal initial(const Field &f) {
    MVal m;
    switch (f.t) {
    case T::GROUP: { MFields c = initial(f.sub); if (f.optional) m.spare.push_back(c); else { m.v.present = true; m.el.push_back(c); } return m; }
    case T::SEQ: {
      if (f.optional) return m;
      m.v.present = true; size_t n = f.len_op.has_init ? f.len_op.init.u : 0;
      for (size_t i = 0; i < n; ++i) m.el.push_back(initial(f.sub));
      return m; }
    case T::TREF: m.v.present = true; return m;
    default: break;
    }
    if (f.optional) return m;
    m.v.present = true;
    if (f.t == T::DEC && f.indiv) { if (f.op.has_init) m.v.e = f.op.init.e; if (f.mop.has_init) m.v.u = f.mop.init.u; return m; }
    if (f.op.has_init) { m.v = f.op.init; m.v.present = true; }
    return m;
  }
  MFields initial(const std::vector<Field> &fs) { MFields o; for (auto &f : fs) o.push_back(initial(f)); return o; }
  // the hidden content does not survive a copy
  static void strip(const std::vector<Field> &fs, MFields &m, const Schema &sc) {
    for (size_t i = 0; i < fs.size(); ++i) {
      const Field &f = fs[i];
      if (f.t == T::SEQ) m[i].spare.clear();
      const std::vector<Field> *sub = f.t == T::TREF ? (m[i].v.tmpl >= 0 ? &sc.t[m[i].v.tmpl].f : nullptr) : &f.sub;
      if (sub) { for (auto &e : m[i].el) strip(*sub, e, sc); for (auto &e : m[i].spare) strip(*sub, e, sc); }
    }
  }
  static void strip1(const Field &f, MVal &m, const Schema &sc) { std::vector<Field> fs(1, f); MFields x(1, m); strip(fs, x, sc); m = x[0]; }

  std::vector<Value> rd(const std::vector<Field> &fs, const mfast::aggregate_cref &a) { return read_fields(fs, a, sc); }
  // content that has become visible: as it was, or as new
  MFields adopt(const std::vector<Field> &fs, const mfast::aggregate_cref &a, const MFields *last, const char *what) {
    std::vector<Value> got = rd(fs, a);
    if (last && same(fs, plain(*last), got, sc)) { seen[std::string(what) + " with its last content"]++; return *last; }
    MFields ini = initial(fs);
    if (same(fs, plain(ini), got, sc)) { seen[std::string(what) + " in its initial state"]++; return ini; }
    problem = std::string(what) + " neither as new nor as it was: " + show(fs, got, sc) + "\n new: " + show(fs, plain(ini), sc) + (last ? "\n was: " + show(fs, plain(*last), sc) : std::string());
    return ini;
  }
  void resized(const Field &f, MVal &m, const mfast::sequence_cref &s, size_t n) {
    while (m.el.size() > n) { m.spare.insert(m.spare.begin(), m.el.back()); m.el.pop_back(); }
    m.v.present = true;
    if (s.size() != n) { problem = "sequence " + f.name + " has " + std::to_string(s.size()) + " elements instead of " + std::to_string(n); return; }
    while (m.el.size() < n) {
      MFields last; bool have = !m.spare.empty(); if (have) { last = m.spare.front(); m.spare.erase(m.spare.begin()); }
      m.el.push_back(adopt(f.sub, s[m.el.size()], have ? &last : nullptr, "sequence element exposed"));
    }
  }
  size_t size(const MFields &m) { size_t n = 1; for (auto &x : m) for (auto &e : x.el) n += size(e); return n; }

  // one random change somewhere below
  void mutate(const std::vector<Field> &fs, MFields &m, const mfast::aggregate_mref &a, int depth, const std::string &path) {
    if (fs.empty() || !problem.empty()) return;
    size_t i = r.below(fs.size()); mutate(fs[i], m[i], a[i], depth, path + "." + (fs[i].name.empty() ? "#" + std::to_string(i) : fs[i].name));
  }
  void mutate(const Field &f, MVal &m, const mfast::field_mref &fm, int depth, const std::string &path) {
    using namespace mfast; ++ops;
    switch (f.t) {
    case T::GROUP:
      if (m.v.present && r.chance(75)) { group_mref g(fm); mutate(f.sub, m.el[0], aggregate_mref(g), depth + 1, path); return; }
      if (m.v.present) { note(path + " omit"); if (r.chance(50)) fm.omit(); else fm.clear(); if (f.optional) { m.v.present = false; m.spare = m.el; m.el.clear(); } return; }
      { note(path + " bring back"); group_mref g(fm); m.v.present = true; MFields last = m.spare.empty() ? initial(f.sub) : m.spare[0]; m.spare.clear(); m.el.push_back(adopt(f.sub, aggregate_mref(g), &last, "group brought back")); }
      return;
    case T::SEQ: {
      sequence_mref s(fm); unsigned op = (unsigned)r.below(100);
      if (!m.el.empty() && op < 50) { size_t k = r.below(m.el.size()); mutate(f.sub, m.el[k], s[k], depth + 1, path + "[" + std::to_string(k) + "]"); return; }
      if (op < 70) { size_t n = depth > 3 ? r.below(2) : r.below(r.chance(90) ? 5 : 14); note(path + " resize " + std::to_string(n)); s.resize(n); resized(f, m, s, n); return; }
      if (op < 78) { size_t n = r.below(3); size_t old = m.el.size(); if (old + n > 16 || fm.absent()) { n = 0; } note(path + " grow_by " + std::to_string(n)); auto it = s.grow_by(n); resized(f, m, s, old + n); if (n && it - s.begin() != (std::ptrdiff_t)old) problem = "grow_by returned a position other than the first new element"; return; }
      if (op < 84) { note(path + " reserve"); s.reserve(r.below(20)); return; }
      if (op < 92) { note(path + " omit"); fm.omit(); if (f.optional) { m.v.present = false; shrink(m, 0); } return; }
      note(path + " clear"); fm.clear(); shrink(m, 0); if (f.optional) m.v.present = false;
      return; }
    case T::TREF: {
      nested_message_mref n(fm);
      if (m.v.tmpl >= 0 && r.chance(70)) { mutate(sc.t[m.v.tmpl].f, m.el[0], n.target(), depth + 1, path + "<" + sc.t[m.v.tmpl].name + ">"); return; }
      int t = (int)r.below(sc.t.size()); note(path + " rebind " + sc.t[t].name); message_mref x = n.rebind(inst[t]);
      MFields last; bool was = m.v.tmpl == t; if (was) last = m.el[0];
      m.v.tmpl = t; m.el.clear(); m.el.push_back(adopt(sc.t[t].f, x, was ? &last : nullptr, "nested message bound")); return; }
    default: break;
    }
    if (r.chance(25)) {
      bool cl = r.chance(50) && (f.optional || f.op.op != Op::Constant); note(path + (cl ? " clear" : " omit"));
      if (cl) fm.clear(); else fm.omit();
      if (f.optional) { m.v = Value(); }
      else if (cl && !is_int(f.t) && f.t != T::DEC && !is_enum(f.t)) { m.v.s.clear(); m.v.iv.clear(); }
      return;
    }
    MsgGen g(sc, r, nullptr); g.absent_pct = 15; Value v = g.gen(f, 3);
    note(path + " = " + show(v, f.t)); write_field(f, v, fm, sc, inst);
    m.v = v;
  }
  void shrink(MVal &m, size_t n) { while (m.el.size() > n) { m.spare.insert(m.spare.begin(), m.el.back()); m.el.pop_back(); } }

  // all the parts of a message that can be assigned from one another
  struct Node { const Field *f; MVal *m; MFields *el; mfast::field_mref fm; size_t index; std::string path; };
  void nodes(const std::vector<Field> &fs, MFields &m, const mfast::aggregate_mref &a, const std::string &path, std::vector<Node> &out) {
    for (size_t i = 0; i < fs.size(); ++i) {
      const Field &f = fs[i]; if (f.t != T::GROUP && f.t != T::SEQ && f.t != T::TREF) continue;
      if (out.size() > 200) return;
      std::string p = path + "/" + std::to_string(i);
      mfast::field_mref fm = a[i];
      out.push_back(Node{&f, &m[i], nullptr, fm, 0, p});
      if (!m[i].v.present) continue;
      if (f.t == T::GROUP) nodes(f.sub, m[i].el[0], mfast::aggregate_mref(mfast::group_mref(fm)), p, out);
      else if (f.t == T::SEQ) { mfast::sequence_mref s(fm); for (size_t k = 0; k < m[i].el.size(); ++k) { std::string q = p + "[" + std::to_string(k) + "]"; out.push_back(Node{&f, &m[i], &m[i].el[k], fm, k, q}); nodes(f.sub, m[i].el[k], s[k], q, out); } }
      else if (m[i].v.tmpl >= 0) { mfast::nested_message_mref n(fm); nodes(sc.t[m[i].v.tmpl].f, m[i].el[0], n.target(), p, out); }
    }
  }
};
} // namespace vf
