// C24: enumerations, sets and booleans: names and values of the template, of
// the loaded description, of fields, streams, copies and texts stay in step.
#include "json.h"
#include <mfast/set_ref.h>
#include <mfast/boolean_ref.h>
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;
#ifdef XETRA_FAST_SPECIFICATION
static const bool xetra = true;
#else
static const bool xetra = false;
#endif
enum Kind { ENUM, BOOLEAN, SET };
struct Elem { std::string name, id, value; bool has_name = true, has_id = false, has_value = false; };
struct Type {
  Kind kind = ENUM; std::vector<Elem> elems; std::vector<std::string> names; std::vector<uint64_t> values; bool explicit_values = false, valid = true; std::string define;
  bool known(uint64_t v) const { if (kind == SET) return true; for (auto x : values) if (x == v) return true; return false; }
  const char *name_of(uint64_t v) const { for (size_t i = 0; i < values.size(); ++i) if (values[i] == v) return names[i].c_str(); return nullptr; }
};
struct Fld { std::string name; int type; int op = 0; bool optional = false, has_init = false; std::string init_text; uint64_t init = 0; bool init_ok = true; int form = 0; uint64_t tag = 0; std::string tag_text; };
static const char *opname[] = {"", "constant", "default", "copy"};
static uint64_t rand_v(Rng &r) { switch (r.below(4)) { case 0: return r.below(5); case 1: return r.below(300); case 2: return UINT64_MAX - r.below(4); default: return r.next() >> r.below(64); } }
static std::string rand_name(Rng &r, std::set<std::string> &used) {
  for (;;) { std::string s; switch (r.below(6)) { case 0: s = std::string(1, (char)('A' + r.below(26))); break; case 1: s = "Elem" + std::to_string(r.below(1000)); break; case 2: s = r.chance(50) ? "true" : "false"; break; case 3: s = "Close" + std::string(r.below(4), 'd'); break; case 4: s = "x" + std::to_string(r.next()); break; default: for (size_t n = 1 + r.below(10); n--;) s += (char)('a' + r.below(26)); }
    if (used.insert(s).second) return s; }
}
struct C24 {
  Ctx &c; Rng &r; std::vector<Type> types; std::vector<Fld> fields; std::string xml; bool valid = true; std::string why; malloc_allocator ma;
  bool seq = false;
  C24(Ctx &x) : c(x), r(x.rng) {}
  void make_type(Type &t) {
    t.kind = xetra && r.chance(45) ? SET : r.chance(15) ? BOOLEAN : ENUM;
    if (t.kind == BOOLEAN) { t.names = {"false", "true"}; t.values = {0, 1}; return; }
    std::set<std::string> used; size_t n = r.chance(10) ? 1 : r.chance(80) ? 1 + r.below(8) : 1 + r.below(t.kind == SET ? 70 : 300);
    bool bad = r.chance(4);
    if (t.kind == SET) {
      for (size_t i = 0; i < n; ++i) { Elem e; std::string nm = rand_name(r, used); if (r.chance(30)) { e.has_id = true; e.id = nm; e.name = "other"; e.has_name = r.chance(50); } else e.name = nm; t.names.push_back(nm); t.elems.push_back(e); if (i < 64) t.values.push_back(1ull << i); }
      if (n > 64) { valid = t.valid = false; why = "more elements than a set can have"; } return;
    }
    t.explicit_values = r.chance(60); uint64_t v = 0; bool first = true;
    for (size_t i = 0; i < n; ++i) {
      Elem e; std::string nm = rand_name(r, used); e.name = nm; if (xetra && r.chance(25)) { e.has_id = true; e.id = nm; e.name = "other"; e.has_name = r.chance(50); }
      e.has_value = t.explicit_values && (!xetra || r.chance(75));
      uint64_t nv; if (e.has_value) { if (!first && v == UINT64_MAX) break; uint64_t lo = first ? 0 : v + 1; switch (r.below(4)) { case 0: nv = lo; break; case 1: nv = lo + std::min<uint64_t>(r.below(5), UINT64_MAX - lo); break; case 2: nv = std::max<uint64_t>(lo, i + 1 == n && r.chance(30) ? UINT64_MAX - r.below(2) : lo); break; default: nv = lo + std::min<uint64_t>(r.next() >> (20 + r.below(44)), UINT64_MAX - lo); } e.value = std::to_string(nv); }
      else { if (!first && v == UINT64_MAX) { if (!xetra) break; bad = false; } nv = first ? 0 : v + 1; if (!first && v == UINT64_MAX) { valid = t.valid = false; why = "no value is left for an element"; } }
      first = false; v = nv; t.names.push_back(nm); t.values.push_back(nv); t.elems.push_back(e);
    }
    if (bad && t.valid) { size_t i = r.below(t.elems.size()); Elem &e = t.elems[i];
      switch (r.below(5)) {
      case 0: if (!t.explicit_values || i == 0 || !e.has_value) return; e.value = std::to_string(t.values[i - 1] - (t.values[i - 1] && r.chance(50))); why = "values that do not ascend"; break;
      case 1: if (!t.explicit_values || t.elems.size() < 2 || xetra) return; e.has_value = false; why = "only some values"; break;
      case 2: if (!e.has_value) return; e.value = r.chance(50) ? "x" : r.chance(50) ? "-1" : "99999999999999999999"; why = "no number as value"; break;
      case 3: if (xetra) return; e.has_name = false; why = "an element without a name"; break;
      default: if (!e.has_value) return; e.value += r.chance(50) ? " " : "z"; why = "text after a value"; }
      valid = t.valid = false; }
  }
  std::string body(const Type &t) {
    std::string s; for (auto &e : t.elems) { s += "<element"; if (e.has_id) s += " id=\"" + e.id + "\""; if (e.has_name) s += " name=\"" + e.name + "\""; if (e.has_value) s += " value=\"" + e.value + "\""; s += "/>"; } return s;
  }
  static const char *tagname(const Type &t) { return t.kind == SET ? "set" : t.kind == BOOLEAN ? "boolean" : "enum"; }
  void make_field(Fld &f, const std::vector<std::pair<std::string, uint64_t>> &tags) {
    const Type &t = types[f.type]; f.op = (int)r.below(4); f.optional = r.chance(50);
    f.has_init = f.op == 1 || (f.op == 2 && !f.optional) || (f.op && r.chance(60));
    if (f.has_init) { size_t i = r.below(t.names.size()); f.init_text = t.names[i]; f.init = i < t.values.size() ? t.values[i] : 0;
      bool number = xetra ? r.chance(25) : false;
      if (number && t.kind != BOOLEAN) { f.init_text = std::to_string(f.init); if (t.kind == SET) { f.init = r.next() & (t.values.size() >= 64 ? ~0ull : (1ull << t.values.size()) - 1); f.init_text = std::to_string(f.init); } }
      if (r.chance(3)) { std::vector<std::string> b{"", "nosuchname", t.names[0] + "x", "-1", "1e3", std::string(20, '9')}; if (xetra) { b.push_back(std::to_string(f.init) + "abc"); b.push_back("0x1"); } std::string s = r.pick(b); bool same = false; for (auto &n : t.names) same |= n == s;
        if (!same && !(xetra && t.kind != BOOLEAN && s.empty())) { f.init_text = s; f.init_ok = false; valid = false; why = "no initial value \"" + s + "\""; } } }
    f.form = r.chance(50) && !t.define.empty() ? 2 : (int)r.below(2);
    if (r.chance(40)) { if (tags.empty()) { f.tag = r.next() >> r.below(64); f.tag_text = std::to_string(f.tag); } else { f.tag = 0; for (size_t k = 1 + r.below(3); k--;) { auto &p = r.pick(tags); f.tag |= p.second; if (!f.tag_text.empty()) f.tag_text += r.chance(50) ? "|" : " | "; f.tag_text += p.first; } if (r.chance(3)) { f.tag_text += "|nosuchtag"; valid = false; why = "unknown tag"; } } }
  }
  std::string field_xml(const Fld &f, bool plain) {
    const Type &t = types[f.type]; std::string at = " name=\"" + f.name + "\"" + (f.optional ? " presence=\"optional\"" : "") + (!plain && !f.tag_text.empty() ? " mfast:tag=\"" + f.tag_text + "\"" : "");
    std::string op = f.op ? std::string("<") + opname[f.op] + (f.has_init ? " value=\"" + (plain ? std::to_string(f.init) : f.init_text) + "\"" : "") + "/>" : "";
    if (plain) return "<uInt64" + at + ">" + op + "</uInt64>";
    std::string tn = tagname(t);
    if (t.define.empty() || f.form != 2) { std::string in = "<" + tn; if (f.form == 1) return "<field" + at + "><" + tn + ">" + body(t) + "</" + tn + ">" + op + "</field>"; return "<" + tn + at + ">" + body(t) + op + "</" + tn + ">"; }
    return "<field" + at + "><type name=\"" + t.define + "\"/>" + op + "</field>";
  }
  struct Val { bool present = false; uint64_t v = 0; };
  template <class F> static uint64_t raw(const F &f) { return f.value(); }
  uint64_t get(const field_cref &f, const Type &t) { return t.kind == SET ? set_cref(f).value() : enum_cref(f).value(); }
  void put(const field_mref &f, const Type &t, const Val &v) {
    if (!v.present) { f.omit(); return; }
    if (t.kind == SET) { set_mref(f).as(v.v); return; }
    if (t.kind == BOOLEAN && v.v < 2) { boolean_mref b(f); switch (r.below(3)) { case 0: b.as(v.v != 0); return; case 1: if (v.v) b.as_true(); else b.as_false(); return; } }
    enum_mref(f).as(v.v);
  }
  void check(const char *when, const field_cref &f, const Fld &fd, const Val &v) {
    const Type &t = types[fd.type]; std::string k = std::string(when) + ": wrong " + tagname(t);
    if (f.present() != v.present) c.fail(k + " presence", fd.name + " " + xml);
    if (!v.present) return;
    if (get(f, t) != v.v) c.fail(k + " value", fd.name + " " + std::to_string(get(f, t)) + " for " + std::to_string(v.v) + " " + xml);
    if (t.kind == SET) return;
    enum_cref e(f); const char *n = e.value_name(), *want = t.name_of(v.v);
    if (!want != !n || (n && strcmp(n, want))) c.fail(k + " name", fd.name + ": " + (n ? n : "(null)") + " for " + std::to_string(v.v) + " " + xml);
    if (e.is_boolean() != (t.kind == BOOLEAN)) c.fail(k + " is_boolean", xml);
    if (t.kind == BOOLEAN) { boolean_cref b(f); if (b.value() != (v.v != 0) || b.is_true() != (v.v != 0) || b.is_false() != (v.v == 0)) c.fail(k + " truth", xml); }
  }
  void check_desc(const field_instruction *p, const Fld &fd) {
    const Type &t = types[fd.type]; std::string k = std::string("description of ") + tagname(t) + ": ";
    const char **el; uint64_t n; value_storage init;
    if (t.kind == SET) { auto s = dynamic_cast<const set_field_instruction *>(p); if (!s) c.fail(k + "not a set", xml); el = s->elements(); n = s->num_elements(); init = s->initial_value(); }
    else { auto e = dynamic_cast<const enum_field_instruction *>(p); if (!e) c.fail(k + "not an enumeration", xml); el = e->elements(); n = e->num_elements(); init = e->initial_value();
      for (size_t i = 0; i < t.values.size(); ++i) { const char *nm = e->element_name(t.values[i]); if (!nm || t.names[i] != nm) c.fail(k + "name of a value", std::to_string(t.values[i]) + ": " + (nm ? nm : "(null)") + " " + xml); c.count("names looked up"); }
      for (int i = 0; i < 8; ++i) { uint64_t v = r.chance(50) ? rand_v(r) : r.pick(t.values) + (r.chance(50) ? 1 : -1); if (i == 7) v = t.values.size(); const char *nm = e->element_name(v), *want = t.name_of(v); if (!want != !nm || (nm && strcmp(nm, want))) c.fail(k + "name of an unknown value", std::to_string(v) + " " + xml); c.count("unknown values looked up"); } }
    if (n != t.names.size()) c.fail(k + "number of elements", xml);
    for (size_t i = 0; i < n; ++i) if (t.names[i] != el[i]) c.fail(k + "element name", xml);
    if (fd.has_init ? init.is_empty() || init.get<uint64_t>() != fd.init : fd.op && !init.is_empty()) c.fail(k + "initial value", fd.name + " " + xml);
    if (p->tag().to_uint64() != fd.tag) c.fail(k + "tag", fd.name + " " + fd.tag_text + " gives " + std::to_string(p->tag().to_uint64()) + " " + xml);
  }
  Val rand_val(const Fld &f) {
    const Type &t = types[f.type]; Val v; if (f.optional && r.chance(30)) return v; v.present = true;
    if (f.op == 1) { v.v = f.init; return v; }
    v.v = t.kind == SET ? (r.chance(50) ? r.pick(t.values) | r.pick(t.values) : r.next() & (t.values.size() >= 64 ? ~0ull : (1ull << t.values.size()) - 1)) : f.has_init && r.chance(25) ? f.init : r.pick(t.values);
    return v;
  }
  void run() {
    std::vector<std::pair<std::string, uint64_t>> tags; std::string defs;
    if (r.chance(25)) { std::set<std::string> used; defs += "<define name=\"mfast:tag\"><enum>"; uint64_t b = 0; for (size_t n = 1 + r.below(6); n--;) { std::string nm; do nm = rand_name(r, used); while (isdigit((unsigned char)nm[0])); uint64_t v = 1ull << b; b += 1 + r.below(9); tags.push_back({nm, v}); defs += "<element name=\"" + nm + "\" value=\"" + std::to_string(v) + "\"/>"; } defs += "</enum></define>"; }
    size_t nt = 1 + r.below(3); types.resize(nt);
    for (size_t i = 0; i < nt; ++i) { make_type(types[i]); if (r.chance(50) || i == 0) { types[i].define = "D" + std::to_string(i); defs += "<define name=\"D" + std::to_string(i) + "\"><" + tagname(types[i]) + ">" + body(types[i]) + "</" + tagname(types[i]) + "></define>"; } }
    fields.resize(std::max<size_t>(nt, 1 + r.below(5)));
    for (size_t i = 0; i < fields.size(); ++i) { fields[i].name = "f" + std::to_string(i); fields[i].type = i < nt ? (int)i : (int)r.below(nt); make_field(fields[i], tags); }
    seq = r.chance(30); std::string b1, b2; for (auto &f : fields) { b1 += field_xml(f, false); b2 += field_xml(f, true); }
    auto doc = [&](const std::string &d, const std::string &b) { return "<templates xmlns=\"http://www.fixprotocol.org/ns/template-definition\" xmlns:mfast=\"http://www.ociweb.com/ns/mfast\">" + d + "<template name=\"T\" id=\"1\">" + (seq ? "<sequence name=\"s\"><length name=\"n\"/>" + b + "</sequence>" : b) + "</template></templates>"; };
    xml = doc(defs, b1); std::unique_ptr<dynamic_templates_description> d, dp;
    try { d.reset(new dynamic_templates_description(xml.c_str())); } catch (std::exception &e) { if (valid) c.fail("a valid document was refused", xml + "\n" + boost::diagnostic_information(e)); c.count("documents refused"); c.count("refused: " + why.substr(0, why.find('"'))); c.evaluated(hash_str(xml)); return; }
    if (!valid) c.fail("a document was accepted with " + why.substr(0, why.find('"')), why + "\n" + xml);
    dp.reset(new dynamic_templates_description(doc("", b2).c_str()));
    for (auto &t : types) { c.count(std::string("types: ") + tagname(t) + (t.explicit_values ? " with values" : "")); c.maxi("elements of a type", t.names.size()); }
    const group_field_instruction *g = (*d)[0]; if (seq) g = dynamic_cast<const sequence_field_instruction *>(g->subinstruction(0));
    for (size_t i = 0; i < fields.size(); ++i) check_desc(g->subinstruction(i), fields[i]);
    fast_encoder e(&ma), ep(&ma); fast_decoder dc(&ma), dj(&ma); const templates_description *ds[] = {d.get()}, *dps[] = {dp.get()}; e.include(ds); ep.include(dps); dc.include(ds);
    MT m(&ma, (*d)[0]), used(&ma, (*d)[0]), p(&ma, (*dp)[0]);
    for (int step = 0, n = 2 + (int)r.below(8); step < n; ++step) {
      std::vector<std::vector<Val>> vals; size_t rows = seq ? r.below(4) : 1; bool unknown = false;
      auto group = [&](auto &mt, size_t i) -> aggregate_mref { if (!seq) return mt.mref(); sequence_mref s(static_cast<field_mref>(mt.mref()[0])); return s[i]; };
      if (seq) { sequence_mref(static_cast<field_mref>(m.mref()[0])).resize(rows); sequence_mref(static_cast<field_mref>(p.mref()[0])).resize(rows); }
      for (size_t i = 0; i < rows; ++i) { vals.emplace_back(); auto a = group(m, i), b = group(p, i);
        for (size_t k = 0; k < fields.size(); ++k) { Fld &f = fields[k]; const Type &t = types[f.type]; Val v = rand_val(f); if (f.op != 1 && v.present && t.kind != SET && r.chance(1)) { v.v = rand_v(r); if (!t.known(v.v)) unknown = true; }
          vals.back().push_back(v);
          if (f.op == 1 && !f.optional) continue; // cannot be changed
          if (v.present && f.has_init && v.v == f.init && f.op > 1 && r.chance(40)) { if (t.kind == SET) set_mref(a[k]).to_initial_value(); else enum_mref(a[k]).to_initial_value(); } else if (f.op == 1) { if (v.present) { if (t.kind == SET) set_mref(a[k]).to_initial_value(); else enum_mref(a[k]).to_initial_value(); } else a[k].omit(); } else put(a[k], t, v);
          if (f.op == 1) { if (v.present) uint64_mref(b[k]).to_initial_value(); else b[k].omit(); } else if (v.present) uint64_mref(b[k]).as(v.v); else b[k].omit();
        } }
      auto all = [&](const char *when, auto &mt) { message_cref x = mt.cref(); if (seq) { sequence_cref s(x[0]); if (s.size() != rows) c.fail(std::string(when) + ": sequence length", xml); for (size_t i = 0; i < rows; ++i) for (size_t k = 0; k < fields.size(); ++k) check(when, s[i][k], fields[k], vals[i][k]); } else for (size_t k = 0; k < fields.size(); ++k) check(when, x[k], fields[k], vals[0][k]); };
      all("assigned", m);
      { MT copy(m.cref(), &ma); all("copied", copy); if (!(copy.cref() == m.cref())) c.fail("a copy is not equal", xml); }
      for (size_t i = 0; i < rows && i < 2; ++i) { auto a = group(m, i); Fld &f = fields[r.below(fields.size())]; size_t k = &f - &fields[0]; const Type &t = types[f.type]; MT o(&ma, (*d)[0]); if (seq) { sequence_mref(static_cast<field_mref>(o.mref()[0])).resize(rows); } auto oa = group(o, i);
        if (f.op == 1 && !f.optional) continue;
        if (t.kind == SET) { set_mref(oa[k]).as(set_cref(a[k])); if (set_cref(oa[k]) != set_cref(a[k])) c.fail("assigned sets differ", xml); } else { enum_mref(oa[k]).as(enum_cref(a[k])); if (!(enum_cref(oa[k]) == enum_cref(a[k]))) c.fail("assigned enumerations differ", xml); }
        check("assigned from a field", oa[k], f, vals[i][k]);
        bool init = vals[i][k].present == f.has_init && (!f.has_init || vals[i][k].v == f.init); if (f.op > 1) { bool got = t.kind == SET ? set_cref(a[k]).is_initial_value() : enum_cref(a[k]).is_initial_value(); if (got != init) c.fail("is_initial_value", f.name + " " + xml); } }
      c.evaluated(hash_str(xml) * 31 + r.next());
      std::vector<char> a, b; bool te = false, tp = false;
      try { e.encode(m.cref(), a, false); } catch (std::exception &) { te = true; } try { ep.encode(p.cref(), b, false); } catch (std::exception &) { tp = true; }
      if (te != tp) c.fail("encoding fails for one of the field and the integer it stands for", xml);
      if (te) { c.count("messages that cannot be sent"); break; }
      if (a != b) c.fail("encoding differs from that of the integers the values stand for", xml);
      bool v1_absent_default = false; for (auto &row : vals) for (size_t k = 0; k < fields.size(); ++k) if (fields[k].op == 2 && fields[k].has_init && fields[k].optional && !row[k].present && !seq) v1_absent_default = true;
      const char *first = a.data(), *last = first + a.size(); message_cref x = dc.decode(first, last);
      if (first != last) c.fail("decoding leaves bytes", xml);
      struct { message_cref m; message_cref cref() { return m; } } dm{x};
      if (!v1_absent_default) { all("decoded", dm); if (!(x == m.cref())) c.fail("decoded message differs", xml); } else { c.count("known: absent default at top level"); break; }
      // text
      bool boolean_odd = false; for (auto &row : vals) for (size_t k = 0; k < fields.size(); ++k) if (types[fields[k].type].kind == BOOLEAN && row[k].present && row[k].v > 1) boolean_odd = true;
      std::stringstream ss; bool ok = json::encode(ss, m.cref(), 0); std::string text = ss.str(); if (!ok || ss.fail()) c.fail("no text can be written", xml);
      JV j; JParser jp(text); if (!jp.document(j)) c.fail("the text is no JSON", jp.err + "\n" + text + "\n" + xml);
      auto jrow = [&](const JV &o, const std::vector<Val> &row) { for (size_t k = 0; k < fields.size(); ++k) { const JV *q = o.get(fields[k].name); const Type &t = types[fields[k].type];
          if (!row[k].present) { if (q) c.fail("text of an absent field", text + "\n" + xml); continue; } if (!q) c.fail("no text for a present field", text + "\n" + xml);
          std::string want = t.kind == BOOLEAN && row[k].v < 2 ? t.name_of(row[k].v) : std::to_string(row[k].v); if ((q->k == JV::True ? "true" : q->k == JV::False ? "false" : q->s) != want) c.fail("text of a value", text + "\nwant " + want + "\n" + xml); } };
      if (seq) { const JV *q = j.get("s"); if (!q || q->a.size() != rows) c.fail("text of the sequence", text); for (size_t i = 0; i < rows; ++i) jrow(q->a[i], vals[i]); } else jrow(j, vals[0]);
      c.count("texts compared");
      if (!boolean_odd) { std::istringstream is(text); MT back(&ma, (*d)[0]); try { json::decode(is, r.chance(50) ? back.mref() : used.mref()); } catch (std::exception &q) { c.fail("the text is not read back", text + "\n" + boost::diagnostic_information(q) + xml); }
        std::istringstream is2(text); json::decode(is2, back.mref()); all("read from text", back); }
      if (unknown) c.count("messages with unknown values"); c.count("messages"); c.sample(xml.substr(0, 500));
    }
  }
};
static void one(Ctx &c) { C24 t(c); t.run(); }
int main(int argc, char **argv) { return run_main(argc, argv, one); }
