// C25: the rows of the exported database are the exported messages.
// A model of the rows (which table, which parent, which value in which
// column) is kept beside the real converter; the database file is read back
// through a connection of its own.
#include "bridge.h"
#include "genmsg.h"
#include "runner.h"
#include <mfast/sqlite3/converter.h>
#include <mfast/sqlite3/error.h>
#include <sqlite3.h>
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;
// the database needs no durability here
extern "C" int fdatasync(int) { return 0; }
extern "C" int fsync(int) { return 0; }

enum { SKIP = 1, KEY = 2, ORDERED = 4 };
struct Cell { enum K { Null, Int, Real, Text, Blob } k = Null; int64_t i = 0; double d = 0; std::string s; };
static std::string show(const Cell &c) { switch (c.k) { case Cell::Null: return "NULL"; case Cell::Int: return std::to_string(c.i); case Cell::Real: { char b[40]; snprintf(b, 40, "%.17g", c.d); return b; } case Cell::Text: return cquote(c.s); default: return "x" + hex(c.s); } }
static bool same(const Cell &a, const Cell &b) {
  if (a.k != b.k) return false;
  switch (a.k) { case Cell::Int: return a.i == b.i; case Cell::Real: return a.d == b.d || std::fabs(a.d - b.d) <= 1e-12 * std::fabs(a.d); case Cell::Text: case Cell::Blob: return a.s == b.s; default: return true; }
}
typedef std::vector<Cell> Row;
// a row that should be there: cells, and which of them is the number of another row
struct WantRow { Row c; int parent_col = -1; std::string parent_table; size_t parent_row = 0; int elem_col = -1; std::string elem_table; Row elem; };

struct Gen25 {
  Rng &r; Schema sc; int n = 0; unsigned skip_pct; bool sorted_done = false;
  explicit Gen25(Rng &r_) : r(r_), skip_pct(r_.chance(40) ? 15 : 0) {}
  std::string name(const char *p) { return std::string(p) + std::to_string(++n); }
  Field scalar() {
    Field f; static const T ts[] = {T::I32, T::U32, T::I64, T::U64, T::DEC, T::ASCII, T::UNI, T::BYTES, T::BOOL, T::ENUM};
    f.t = ts[r.below(10)]; f.name = name("f"); f.optional = r.chance(50);
    if (r.chance(skip_pct)) f.tag = SKIP;
    if (f.t == T::ENUM) { size_t k = 2 + r.below(3); for (size_t i = 0; i < k; ++i) f.enum_names.push_back(name("e")); }
    if (f.t == T::BOOL) f.enum_names = {"false", "true"};
    if (f.t == T::DEC && r.chance(40)) { f.indiv = f.has_exp = f.has_man = true; f.op.op = Op::Constant; f.op.has_init = true; f.op.init.present = true; f.op.init.e = (int)r.range(-6, 3); }
    return f;
  }
  Field inline_group(int depth) { Field g; g.t = T::GROUP; g.name = name("g"); g.optional = r.chance(60); if (r.chance(skip_pct)) g.tag = SKIP; g.sub = fields(1 + r.below(3), depth + 1, false); return g; }
  // at least one column that is not skipped
  std::vector<Field> fields(size_t k, int depth, bool = false) {
    std::vector<Field> v; for (size_t i = 0; i < k; ++i) v.push_back(depth < 3 && r.chance(20) ? inline_group(depth) : scalar());
    Field f = scalar(); f.tag = 0; v.insert(v.begin() + r.below(v.size() + 1), f); return v;
  }
  int child_template(int depth) {
    Template t; t.name = name("C"); t.f = fields(r.below(4), 1);
    if (depth < 2 && r.chance(25)) t.f.insert(t.f.begin() + r.below(t.f.size() + 1), child_group(depth + 1));
    return add(t);
  }
  Field child_group(int depth) { int i = child_template(depth); Field g; g.t = T::GROUP; g.name = name("g"); g.optional = r.chance(50); g.ref_name = sc.t[i].name; g.sub = sc.t[i].f; if (r.chance(skip_pct / 2)) g.tag = SKIP; return g; }
  int add(Template t) { t.id = (uint32_t)sc.t.size() + 1 + (r.chance(20) ? 1000 * (uint32_t)sc.t.size() : 0); sc.t.push_back(t); return (int)sc.t.size() - 1; }
  int main_template() {
    Template t; t.name = name("M"); t.f = fields(r.below(6), 0);
    int kind = (int)r.below(4); // 0 plain, 1 key, 2 inline sequence, 3 sequence of a template
    if (kind >= 2) {
      Field s; s.t = T::SEQ; s.name = name("s"); s.optional = r.chance(50); s.tag = r.chance(50) ? ORDERED : 0;
      if (kind == 2) s.sub = fields(r.below(4), 1); else { Template e; e.name = name("E"); e.f = fields(r.below(3), 1); int i = add(e); s.ref_name = e.name; s.sub = sc.t[i].f; }
      // in the message, or in one of its groups
      std::vector<Field> *at = &t.f; for (int d = 0; d < 2; ++d) { std::vector<size_t> g; for (size_t i = 0; i < at->size(); ++i) if ((*at)[i].t == T::GROUP && !(*at)[i].tag) g.push_back(i); if (g.empty() || !r.chance(40)) break; at = &(*at)[g[r.below(g.size())]].sub; }
      at->insert(at->begin() + r.below(at->size() + 1), s);
    }
    for (size_t k = r.below(3); k--;) t.f.insert(t.f.begin() + r.below(t.f.size() + 1), child_group(0));
    if (kind == 1) { Field f; static const T ts[] = {T::I32, T::U32, T::I64, T::U64, T::BYTES}; f.t = ts[r.below(5)]; f.name = name("k"); f.tag = KEY;
      size_t p = 0; while (p < t.f.size() && t.f[p].ref_name.empty()) ++p; t.f.insert(t.f.begin() + r.below(p + 1), f); } // before any child group
    return add(t);
  }
  std::string xml(const Field &f) {
    std::string a = " name=\"" + f.name + "\"" + (f.optional ? " presence=\"optional\"" : "") + (f.tag ? " mfast:tag=\"" + std::to_string(f.tag) + "\"" : "");
    switch (f.t) {
    case T::I32: return "<int32" + a + "/>"; case T::U32: return "<uInt32" + a + "/>"; case T::I64: return "<int64" + a + "/>"; case T::U64: return "<uInt64" + a + "/>";
    case T::ASCII: return "<string" + a + "/>"; case T::UNI: return "<string charset=\"unicode\"" + a + "/>"; case T::BYTES: return "<byteVector" + a + "/>"; case T::BOOL: return "<boolean" + a + "/>";
    case T::DEC: if (!f.indiv) return "<decimal" + a + "/>"; return "<decimal" + a + "><exponent><constant value=\"" + std::to_string(f.op.init.e) + "\"/></exponent><mantissa/></decimal>";
    case T::ENUM: { std::string s = "<enum" + a + ">"; for (auto &e : f.enum_names) s += "<element name=\"" + e + "\"/>"; return s + "</enum>"; }
    default: { std::string e = f.t == T::GROUP ? "group" : "sequence", s = "<" + e + a + ">"; if (!f.ref_name.empty()) s += "<templateRef name=\"" + f.ref_name + "\"/>"; else for (auto &x : f.sub) s += xml(x); return s + "</" + e + ">"; }
    }
  }
  void finish() {
    std::string s = "<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\" xmlns:mfast=\"http://www.objectcomputing.com/ns/mfast\">\n";
    for (auto &t : sc.t) { s += "<template name=\"" + t.name + "\" id=\"" + std::to_string(t.id) + "\">"; for (auto &f : t.f) s += xml(f); s += "</template>\n"; }
    sc.xml.push_back(s + "</templates>\n");
  }
};

struct Dir { std::string p; Dir() { const char *c[] = {"/dev/shm/vf25XXXXXX", "/tmp/vf25XXXXXX"}; for (auto t : c) { char b[40]; snprintf(b, 40, "%s", t); if (mkdtemp(b)) { p = b; break; } } }
  ~Dir() { for (const char *f : {"/db", "/db-journal", "/db-wal", "/db-shm"}) unlink((p + f).c_str()); rmdir(p.c_str()); } };
// descriptors of files in that directory
static size_t open_files(const std::string &dir) {
  size_t n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0;
  while (struct dirent *e = readdir(d)) { char b[300]; ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b); if (k > (ssize_t)dir.size() && !memcmp(b, dir.data(), dir.size())) ++n; }
  closedir(d); return n;
}

struct Run {
  Ctx &c; Rng &r; Gen25 &g; Schema &sc; std::string db; std::string log;
  std::map<std::string, std::vector<WantRow>> want;
  std::map<std::string, size_t> next; // number of rows so far
  std::set<std::string> elem_tables;
  std::string text() { return sc.xml[0] + log; }
  [[noreturn]] void bad(const std::string &k, const std::string &d = "") { c.fail(k, text() + d); }
  Cell cell(const Field &f, const Value &v) {
    Cell x; if (!v.present) return x;
    switch (f.t) {
    case T::DEC: if (f.indiv) { x.k = Cell::Int; x.i = (int64_t)v.u; } else { x.k = Cell::Real; x.d = (double)((long double)(int64_t)v.u * powl(10.0L, v.e)); } break;
    case T::ASCII: case T::UNI: x.k = Cell::Text; x.s = v.s; break;
    case T::BYTES: x.k = Cell::Blob; x.s = v.s; break;
    default: x.k = Cell::Int; x.i = (int64_t)v.u;
    }
    return x;
  }
  // the columns of a message's own table; a sequence's columns are left to the caller
  struct SeqAt { const Field *f = nullptr; const Value *v = nullptr; size_t col = 0, n = 0; };
  void columns(const std::vector<Field> &fs, const std::vector<Value> *v, Row &o, SeqAt &s) {
    static const Value none;
    for (size_t i = 0; i < fs.size(); ++i) { const Field &f = fs[i]; const Value &x = v ? (*v)[i] : none; if (f.tag & SKIP) continue;
      if (f.t == T::GROUP) { if (f.ref_name.empty()) columns(f.sub, x.present ? &x.elems.at(0) : nullptr, o, s); }
      else if (f.t == T::SEQ) { s.f = &f; s.v = &x; s.col = o.size(); if (f.ref_name.empty()) { SeqAt q; columns(f.sub, nullptr, o, q); } else o.emplace_back(); if (f.tag & ORDERED) o.emplace_back(); s.n = o.size() - s.col; }
      else o.push_back(cell(f, x)); }
  }
  void children(const std::vector<Field> &fs, const std::vector<Value> &v, const WantRow &link) {
    for (size_t i = 0; i < fs.size(); ++i) if (fs[i].t == T::GROUP && v[i].present && !(fs[i].tag & SKIP)) {
      if (fs[i].ref_name.empty()) children(fs[i].sub, v[i].elems.at(0), link); else insert(fs[i].ref_name, fs[i].sub, v[i].elems.at(0), &link); }
  }
  void insert(const std::string &table, const std::vector<Field> &fs, const std::vector<Value> &v, const WantRow *link) {
    WantRow w; if (link) { w = *link; }
    SeqAt s; columns(fs, &v, w.c, s);
    if (link && s.f) throw std::logic_error("a child with a sequence");
    std::vector<WantRow> &rows = want[table]; size_t first = rows.size();
    if (!s.f || !s.v->present || s.v->elems.empty()) rows.push_back(w);
    else for (size_t i = 0; i < s.v->elems.size(); ++i) {
      WantRow x = w; Row e; SeqAt q; columns(s.f->sub, &s.v->elems[i], e, q);
      if (s.f->ref_name.empty()) std::copy(e.begin(), e.end(), x.c.begin() + s.col); else { x.elem_col = (int)s.col; x.elem_table = s.f->ref_name; x.elem = e; elem_tables.insert(s.f->ref_name); }
      if (s.f->tag & ORDERED) { Cell o; o.k = Cell::Int; o.i = (int64_t)i; x.c[s.col + s.n - 1] = o; }
      rows.push_back(x); c.count("rows of sequence elements expected");
    }
    // what refers to this row
    WantRow l; int key = -1; for (size_t i = 0; i < fs.size(); ++i) if (fs[i].tag & KEY) key = (int)i;
    l.c.resize(1); if (key >= 0) l.c[0] = cell(fs[key], v[key]); else { l.parent_col = 0; l.parent_table = table; l.parent_row = first; }
    children(fs, v, l);
  }
  struct Table { std::vector<int64_t> id; std::vector<Row> row; };
  void verify() {
    sqlite3 *h = nullptr; if (sqlite3_open_v2(db.c_str(), &h, SQLITE_OPEN_READONLY, nullptr)) { sqlite3_close(h); bad("the database cannot be opened"); }
    std::map<std::string, Table> got;
    struct Close { sqlite3 *h; ~Close() { sqlite3_close(h); } } close{h};
    sqlite3_stmt *st = nullptr; std::vector<std::string> names;
    if (sqlite3_prepare_v2(h, "PRAGMA integrity_check", -1, &st, nullptr) != SQLITE_OK || sqlite3_step(st) != SQLITE_ROW || strcmp((const char *)sqlite3_column_text(st, 0), "ok")) { sqlite3_finalize(st); bad("the database is damaged"); }
    sqlite3_finalize(st);
    if (sqlite3_prepare_v2(h, "SELECT name FROM sqlite_master WHERE type='table'", -1, &st, nullptr) != SQLITE_OK) bad("the tables cannot be listed");
    while (sqlite3_step(st) == SQLITE_ROW) names.push_back((const char *)sqlite3_column_text(st, 0)); sqlite3_finalize(st);
    for (auto &n : names) {
      if (sqlite3_prepare_v2(h, ("SELECT rowid, * FROM " + n + " ORDER BY rowid").c_str(), -1, &st, nullptr) != SQLITE_OK) bad("a table cannot be read", n);
      Table &t = got[n];
      while (sqlite3_step(st) == SQLITE_ROW) { Row row; for (int i = 1; i < sqlite3_column_count(st); ++i) { Cell x; size_t len = (size_t)sqlite3_column_bytes(st, i);
          switch (sqlite3_column_type(st, i)) { case SQLITE_INTEGER: x.k = Cell::Int; x.i = sqlite3_column_int64(st, i); break; case SQLITE_FLOAT: x.k = Cell::Real; x.d = sqlite3_column_double(st, i); break;
            case SQLITE_TEXT: x.k = Cell::Text; { const char *p = (const char *)sqlite3_column_text(st, i); len = (size_t)sqlite3_column_bytes(st, i); if (len) x.s.assign(p, len); } break;
            case SQLITE_BLOB: x.k = Cell::Blob; if (len) x.s.assign((const char *)sqlite3_column_blob(st, i), len); break; default: break; }
          row.push_back(x); }
        t.id.push_back(sqlite3_column_int64(st, 0)); t.row.push_back(row); }
      sqlite3_finalize(st);
    }
    std::map<std::string, std::set<int64_t>> referred; uint64_t hash = 0;
    for (auto &p : want) {
      Table &t = got[p.first];
      if (t.row.size() != p.second.size()) bad("another number of rows", p.first + " has " + std::to_string(t.row.size()) + ", expected " + std::to_string(p.second.size()));
      for (size_t i = 0; i < t.row.size(); ++i) {
        WantRow &w = p.second[i]; Row &row = t.row[i]; if (row.size() != w.c.size()) bad("another number of columns", p.first);
        if (w.parent_col >= 0) { w.c[w.parent_col].k = Cell::Int; w.c[w.parent_col].i = got[w.parent_table].id.at(w.parent_row); ++c.counters["links to a row number checked"]; }
        if (w.elem_col >= 0) {
          Cell &x = row[w.elem_col]; Table &e = got[w.elem_table]; size_t k = 0; while (k < e.id.size() && !(x.k == Cell::Int && e.id[k] == x.i)) ++k;
          if (k == e.id.size()) bad("a row refers to no element", p.first); if (e.row[k].size() != w.elem.size()) bad("another number of columns", w.elem_table);
          for (size_t q = 0; q < w.elem.size(); ++q) if (!same(w.elem[q], e.row[k][q])) bad("the element referred to holds another value", w.elem_table + " " + show(e.row[k][q]) + " instead of " + show(w.elem[q]));
          referred[w.elem_table].insert(x.i); w.c[w.elem_col] = x; ++c.counters["links to elements checked"];
        }
        for (size_t q = 0; q < row.size(); ++q) { if (!same(w.c[q], row[q])) bad(w.c[q].k == Cell::Null ? "an absent field is not NULL" : row[q].k == Cell::Null ? "a present field is NULL" : w.c[q].k != row[q].k ? "a value of another type" : "another value", p.first + " row " + std::to_string(i) + " column " + std::to_string(q) + " is " + show(row[q]) + " instead of " + show(w.c[q])); hash = hash_str(show(row[q]), hash); }
        c.evaluated(hash);
      }
    }
    for (auto &e : elem_tables) { Table &t = got[e]; if (t.id.size() != referred[e].size()) bad("an element which no row refers to", e);
      for (size_t i = 0; i < t.row.size(); ++i) { bool null = false; for (auto &x : t.row[i]) null |= x.k == Cell::Null; if (null) { c.count("elements with NULL"); continue; } for (size_t k = 0; k < i; ++k) { bool eq = true; for (size_t q = 0; q < t.row[i].size(); ++q) eq &= t.row[i][q].k == t.row[k][q].k && (t.row[i][q].k == Cell::Real ? t.row[i][q].d == t.row[k][q].d : same(t.row[i][q], t.row[k][q])); if (eq) bad("an element is stored twice", e); } } }
    for (auto &p : got) if (!want.count(p.first) && !elem_tables.count(p.first) && !p.second.row.empty()) bad("rows that belong to no message", p.first);
    c.count("databases read back");
  }
};
static void one(Ctx &c) {
  Rng &r = c.rng; Gen25 g(r); std::vector<int> mains; for (size_t k = 1 + r.below(2); k--;) mains.push_back(g.main_template()); g.finish();
  Dir dir; if (dir.p.empty()) throw SkipCase();
  Run run{c, r, g, g.sc, dir.p + "/db", "", {}, {}, {}};
  Loaded ld(g.sc); std::set<std::string> keys; std::vector<Message> old; 
  int sessions = 1 + (int)r.below(3);
  for (int s = 0; s < sessions; ++s) {
    try {
      SQLite3::converter conv(run.db.c_str(), SQLite3::field_masks(SKIP, KEY, ORDERED));
      for (int m : mains) conv.add_instruction(ld.inst[m], s == 0);
      for (size_t n = r.below(8); n--;) {
        Message m; bool again = !old.empty() && r.chance(20);
        if (again) m = old[r.below(old.size())]; else { MsgGen mg(g.sc, r, nullptr); mg.absent_pct = (unsigned)r.below(70); mg.long_pct = r.chance(5) ? 20 : 0; m = mg.gen_message(mains[r.below(mains.size())]); }
        if (!old.empty() && !again && r.chance(20)) { // share elements with a message before
          Message &o = old[r.below(old.size())]; if (o.tmpl == m.tmpl) for (size_t i = 0; i < m.f.size(); ++i) if (g.sc.t[m.tmpl].f[i].t == T::SEQ) m.f[i] = o.f[i]; }
        const auto &fs = g.sc.t[m.tmpl].f; MT a(malloc_allocator::instance(), ld.inst[m.tmpl]); write_fields(fs, m.f, a.mref(), g.sc, ld.inst); const MT &ca = a;
        { std::string where; if (!vf::same(fs, m.f, read_fields(fs, ca.cref(), g.sc), g.sc, &where)) { c.count("skipped: the message could not be built"); continue; } }
        run.log += show(m, g.sc) + "\n";
        std::string key; for (size_t i = 0; i < fs.size(); ++i) if (fs[i].tag & KEY) key = g.sc.t[m.tmpl].name + show(run.cell(fs[i], m.f[i]));
        bool twice = !key.empty() && !keys.insert(key).second;
        bool thrown = false; try { conv.insert(ca.cref()); } catch (SQLite3::sqlite3_error &) { thrown = true; }
        if (thrown != twice) run.bad(thrown ? "a message is refused" : "two messages with one key are accepted");
        if (twice) { c.count("messages with a used key refused"); continue; }
        run.insert(g.sc.t[m.tmpl].name, fs, m.f, nullptr); old.push_back(m); c.count("messages exported");
        if (r.chance(10)) run.verify(); // while the connection is open
      }
    } catch (CaseFailed &) { throw; } catch (std::exception &e) { run.bad("the exporter fails", boost::diagnostic_information(e)); }
    if (open_files(dir.p)) run.bad("the database stays open");
    run.verify();
  }
  c.sample(run.text());
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
