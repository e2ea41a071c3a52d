// C14: the JSON text of a message is valid, says exactly what the message
// holds, and reads back as an equal message.
#include "json.h"
#include "objmodel.h"
#include <boost/io/ios_state.hpp>
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;
struct J14 {
  Ctx &c; Rng &r; World &w; const Schema &sc; unsigned mask, ignore; std::string text; std::string shown;
  [[noreturn]] void bad(const std::string &k, const std::string &d = "") { c.fail(k, w.xmls + "\n" + shown + "\n" + text + "\n" + d); }
  void check_object(const std::vector<Field> &fs, const std::vector<Value> &v, const JV &j, bool top) {
    if (j.k != JV::Obj) bad("a message or group is not written as an object");
    size_t want = 0;
    for (size_t i = 0; i < fs.size(); ++i) {
      bool there = v[i].present && !(fs[i].tag & ignore); size_t n; const JV *x = j.get(fs[i].name, &n); want += there;
      if (n != (there ? 1u : 0u)) bad(there ? "a present field is missing or repeated in the text" : "an absent or ignored field is in the text", fs[i].name);
      if (there) check(fs[i], v[i], *x);
    }
    if (j.o.size() != want) bad("the text has members that are not fields");
    (void)top;
  }
  void check(const Field &f, const Value &v, const JV &j) {
    ++c.counters[std::string("values checked of type ") + type_name(f.t)];
    auto no = [&](const char *why) { bad(std::string("text of a field of type ") + type_name(f.t) + ": " + why, f.name + " is " + (f.t == T::GROUP || f.t == T::SEQ ? "" : show(v, f.t))); };
    auto num = [&](const JV &x, uint64_t u, bool sg) { if (x.k != JV::Num) no("not a number"); if (x.s != (sg ? std::to_string((int64_t)u) : std::to_string(u))) no("another number"); };
    switch (f.t) {
    case T::I32: case T::I64: num(j, v.u, true); break;
    case T::U32: case T::U64: case T::ENUM: num(j, v.u, false); break;
    case T::BOOL: if (j.k != (v.u ? JV::True : JV::False)) no("not the truth value"); break;
    case T::DEC: if (j.k != JV::Num || !(Exact::literal(j.s) == Exact::of((int64_t)v.u, v.e))) no("not the value"); break;
    case T::ASCII: case T::UNI: if (j.k != JV::Str || j.s != v.s) no("not the string"); break;
    case T::BYTES:
      if (f.tag & mask) { JV x; JParser p(v.s); p.document(x); if (j.k != JV::Obj || j.s != v.s) no("not the embedded object"); c.count("embedded objects"); break; }
      { std::string b; if (j.k != JV::Str || !JMeaning::unhex(j.s, b) || b != v.s) no("not the bytes in hexadecimal"); } break;
    case T::VI32: case T::VU32: case T::VI64: case T::VU64: if (j.k != JV::Arr || j.a.size() != v.iv.size()) no("not an array of that size"); for (size_t i = 0; i < v.iv.size(); ++i) num(j.a[i], v.iv[i], is_signed_t(f.t)); break;
    case T::GROUP: check_object(f.sub, v.elems.at(0), j, false); break;
    case T::SEQ: { if (j.k != JV::Arr || j.a.size() != v.elems.size()) no("not an array of that size"); bool un = f.sub.size() == 1 && f.sub[0].name.empty();
      for (size_t i = 0; i < v.elems.size(); ++i) { if (!un) check_object(f.sub, v.elems[i], j.a[i], false); else if (v.elems[i][0].present) { c.count("unnamed elements"); check(f.sub[0], v.elems[i][0], j.a[i]); } else { c.count("absent unnamed elements"); if (j.a[i].k != JV::Null) no("an absent element is not null"); } } break; }
    default: break;
    }
  }
  JV parse() { JParser p(text); JV j; if (!p.document(j)) bad("the text is not valid JSON", p.err); return j; }
  void compare(const std::vector<Field> &fs, std::vector<Value> want, std::vector<Value> got, const char *what) {
    check_const(fs, got); canon(fs, want, sc); canon(fs, got, sc); std::string where;
    if (!same(fs, want, got, sc, &where)) bad(std::string(what) + ": " + where.substr(where.find('(')), where + "\nread back " + show(fs, got, sc));
    c.evaluated(hash_str(text));
  }
  void check_const(const std::vector<Field> &fs, const std::vector<Value> &v) { // reading must not turn an exponent that the template fixes into another one
    for (size_t i = 0; i < fs.size(); ++i) { if (!v[i].present) continue; if (fs[i].t == T::DEC && fs[i].indiv && fs[i].op.op == Op::Constant && v[i].e != fs[i].op.init.e) bad("a constant exponent changed by reading", fs[i].name + " " + show(v[i], T::DEC)); for (auto &e : v[i].elems) check_const(fs[i].sub, e); }
  }
  void run() {
    int t = (int)r.below(sc.t.size()); const auto &fs = sc.t[t].f;
    auto make = [&](Message &m) { MsgGen g(sc, r, nullptr); g.absent_pct = (unsigned)r.below(60); m = g.gen_message(t); embed_objects(r, fs, m.f, mask); };
    Message m; make(m); shown = show(m, sc);
    MT a(malloc_allocator::instance(), w.inst[t]); write_fields(fs, m.f, a.mref(), sc, w.inst);
    const MT &ca = a; std::vector<Value> val = read_fields(fs, ca.cref(), sc);
    { std::string where; if (!same(fs, m.f, val, sc, &where)) { c.count("skipped: the message could not be built"); return; } }
    std::ostringstream os; std::ios_base::fmtflags fl = os.flags(); bool ok;
    if (ignore) ok = json::encode(os, ca.cref(), mask, ignore); else ok = json::encode(os, ca.cref(), mask);
    if (!ok) bad("encode reports failure");
    if (os.flags() != fl || os.fill() != ' ') bad("formatting of the stream was changed");
    text = os.str(); JV j = parse(); check_object(fs, val, j, true); c.sample(text);
    if (ignore) return;
    // into a new message, and into one that holds something else
    for (int dirty = 0; dirty < 2; ++dirty) {
      MT b(malloc_allocator::instance(), w.inst[t]); const MT &cb = b;
      if (dirty) { Message o; make(o); write_fields(fs, o.f, b.mref(), sc, w.inst); if (r.chance(50)) { ObjModel M(sc, r, w.inst); M.limit = 60; MFields x = M.initial(fs); MT d(malloc_allocator::instance(), w.inst[t]); for (int n = 0; n < 12; ++n) M.mutate(fs, x, d.mref(), 0, "d"); b = d; } }
      std::istringstream is(text);
      try { json::decode(is, b.mref(), mask); } catch (std::exception &e) { bad("the text is rejected", boost::diagnostic_information(e)); }
      compare(fs, val, read_fields(fs, cb.cref(), sc), dirty ? "read into a used message, different" : "read back different");
      c.count(dirty ? "read into a used message" : "read into a new message");
    }
    // several documents in one stream
    if (r.chance(30)) {
      Message m2; make(m2); MT a2(malloc_allocator::instance(), w.inst[t]); write_fields(fs, m2.f, a2.mref(), sc, w.inst); const MT &ca2 = a2;
      { std::string where; if (!same(fs, m2.f, read_fields(fs, ca2.cref(), sc), sc, &where)) { c.count("skipped: the message could not be built"); return; } }
      std::ostringstream o2; json::encode(o2, ca.cref(), mask); o2 << (r.chance(50) ? "\n" : "") ; json::encode(o2, ca2.cref(), mask);
      text = o2.str(); std::istringstream is(text); MT b(malloc_allocator::instance(), w.inst[t]); const MT &cb = b;
      try { json::decode(is, b.mref(), mask); compare(fs, val, read_fields(fs, cb.cref(), sc), "first of two documents"); json::decode(is, b.mref(), mask); } catch (std::exception &e) { bad("two documents in a stream are rejected", boost::diagnostic_information(e)); }
      compare(fs, read_fields(fs, ca2.cref(), sc), read_fields(fs, cb.cref(), sc), "second of two documents"); c.count("streams of two documents");
    }
    // sequences on their own
    for (size_t i = 0; i < fs.size(); ++i) if (fs[i].t == T::SEQ && val[i].present) {
      std::ostringstream o2; if (!json::encode(o2, sequence_cref(ca.cref()[i]), mask)) bad("encode reports failure");
      text = o2.str(); JV q = parse(); check(fs[i], val[i], q);
      MT b(malloc_allocator::instance(), w.inst[t]); const MT &cb = b; std::istringstream is(text);
      try { json::decode(is, sequence_mref(b.mref()[i]), mask); } catch (std::exception &e) { bad("the text of a sequence is rejected", boost::diagnostic_information(e)); }
      compare(std::vector<Field>(1, fs[i]), {val[i]}, {read_field(fs[i], cb.cref()[i], sc)}, "sequence read back different"); c.count("sequences on their own");
    }
  }
};
static void one(Ctx &c) {
  Rng &r = c.rng; World w; w.dynamic(json_schema(r));
  for (int n = 0; n < 4; ++n) { J14 j{c, r, w, w.sc, r.chance(60) ? 1u : 0u, r.chance(25) ? 2u + 2 * (unsigned)r.below(3) : 0u, "", ""}; j.run(); }
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
