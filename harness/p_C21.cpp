// C21: threads with their own coders and messages over shared descriptions:
// no data races (ThreadSanitizer), and the same results as without the others.
#include "docgen.h"
#include "world.h"
#include "objmodel.h"
#include "typed.h"
#include <mfast/json/json.h>
#include <mfast/coder/common/exceptions.h>
#include <atomic>
#include <set>
#include <thread>
#include <sched.h>
using namespace vf;
using namespace mfast;
typedef mfast::message_type MT;
static std::atomic<int> in_flight{0}, peak{0}; static std::atomic<uint64_t> overlapped{0}, ops{0};
struct Op1 { Op1() { int n = ++in_flight; ++ops; if (n > 1) ++overlapped; int p = peak.load(); while (n > p && !peak.compare_exchange_weak(p, n)); } ~Op1() { --in_flight; } };
static const char *fixed_doc = "<templates ns=\"f\"><define name=\"FE\"><enum><element name=\"A\"/><element name=\"B\"/></enum></define><define name=\"FS\"><sequence><field name=\"e\"><type name=\"FE\"/><copy/></field><string name=\"s\"><default value=\"x\"/></string></sequence></define>"
  "<template name=\"Fixed1\" id=\"7001\"><uInt32 name=\"a\"><increment value=\"3\"/></uInt32><field name=\"s\"><type name=\"FS\"/></field></template><template name=\"Fixed2\" id=\"7002\"><sequence name=\"q\"><templateRef name=\"Fixed1\"/></sequence><group name=\"g\" presence=\"optional\"><templateRef name=\"Fixed1\"/></group></template></templates>";
static std::string doc; // with definitions, for the shared registry
// results of one thread's work, in order
struct Job {
  const World &w; const Schema &sc; template_registry *reg[2]; uint64_t seed; int steps; bool delays; malloc_allocator own; std::vector<std::string> log; std::map<std::string, uint64_t> n;
  Job(const World &x, uint64_t s, int k, bool d, template_registry *r0, template_registry *r1) : w(x), sc(x.sc), reg{r0, r1}, seed(s), steps(k), delays(d) {}
  void put(const char *what, const std::string &s) { log.push_back(std::string(what) + " " + s); ++n[what]; }
  static void cstr(const aggregate_cref &a, std::string &out) {
    for (size_t i = 0; i < a.num_fields(); ++i) { field_cref f = a[i]; if (!f.present()) { out += "-"; continue; }
      switch (f.field_type()) {
      case field_type_ascii_string: out += ascii_string_cref(f).c_str(); break;
      case field_type_unicode_string: out += unicode_string_cref(f).c_str(); break;
      case field_type_group: cstr(group_cref(f), out); break;
      case field_type_sequence: { sequence_cref s(f); for (size_t k = 0; k < s.size(); ++k) cstr(s[k], out); break; }
      case field_type_templateref: { nested_message_cref m(f); if (m.present() && m.target_instruction()) cstr(m.target(), out); break; }
      default: out += "."; } }
  }
  static std::string err(std::exception &e) { return std::string("throws ") + typeid(e).name() + (getenv("VF_DIAG") ? boost::diagnostic_information(e) : std::string()); }
  void run() {
    Rng r(seed), d(seed ^ 0x5555); allocator *al = malloc_allocator::instance();
    std::unique_ptr<AnyEncoder> enc; std::unique_ptr<AnyDecoder> dec; std::vector<std::unique_ptr<AnyDecoder>> old; /* decoded messages refer to the descriptions of their decoder */ bool fresh_dec = true, lost = false; DictState ds; std::vector<std::unique_ptr<MT>> kept;
    for (int k = 0; k < steps; ++k) {
      if (delays && d.chance(25)) { if (d.chance(50)) sched_yield(); else usleep((useconds_t)d.below(60)); }
      Op1 op;
      if (!enc || r.chance(6)) { enc = w.encoder(r.chance(50) ? al : &own); put("encoders created", ""); }
      if (!dec || r.chance(6)) { if (dec) old.push_back(std::move(dec)); dec = w.decoder(r.chance(50) ? al : &own); fresh_dec = true; put("decoders created", ""); }
      if (fresh_dec) { ds = DictState(); ds.active = sc.t.size() == 1 ? 0 : -1; ds.slots.resize(sc.slots.size()); fresh_dec = lost = false; }
      int t = (int)r.below(sc.t.size());
      auto message = [&] { MsgGen g(sc, r, nullptr); g.absent_pct = (unsigned)r.below(60); return g.gen_message(t); };
      switch (r.below(9)) {
      case 0: case 1: case 2: { Message m = message(); std::unique_ptr<MT> a(new MT(r.chance(50) ? al : (allocator *)&own, w.inst[t])); write_fields(sc.t[t].f, m.f, a->mref(), sc, w.inst); std::vector<char> b;
        try { enc->encode(a->cref(), b, r.chance(20)); put("encoded", std::string(b.begin(), b.end())); } catch (std::exception &e) { put("encoding refused", err(e)); enc.reset(); }
        if (kept.size() < 4) kept.push_back(std::move(a)); break; }
      case 3: case 4: case 5: { bool reset = lost || r.chance(10); DictState g = ds; if (lost) g.active = -1; std::string s; Message want; bool ok = false; try { ok = gen_stream(sc, r, g, reset, lost, s, want); } catch (Malformed &) { break; } if (s.empty()) break;
        bool damaged = r.chance(15); if (damaged && !s.empty()) { size_t p = r.below(s.size()); if (r.chance(50)) s[p] ^= (char)(1 << r.below(8)); else s.resize(p + 1); }
        std::unique_ptr<char[]> x(new char[s.size()]); memcpy(x.get(), s.data(), s.size()); const char *p = x.get();
        try { message_cref m = dec->decode(p, p + s.size(), reset); put(damaged || !ok ? "damaged streams decoded" : "decoded", show(read_message(m, sc), sc)); if (r.chance(40)) { std::string q; cstr(m, q); put("texts", q); } if (r.chance(20) && kept.size() < 6) kept.emplace_back(new MT(m, r.chance(50) ? al : (allocator *)&own)); if (damaged || !ok) lost = true; else ds = g; }
        catch (std::exception &e) { put("decoding refused", err(e)); lost = true; } break; }
      case 6: { // load templates; the description of its own is used at once
        size_t which = r.below(sc.xml.size()); 
        if (r.chance(50)) { try { bool fixed = r.chance(40); dynamic_templates_description own_d(fixed ? fixed_doc : doc.c_str(), "", fixed ? template_registry::instance() : reg[1]); std::string s; for (uint32_t i = 0; i < own_d.size(); ++i) s += Describe::tmpl(own_d[i]); put("templates with definitions loaded", s); } catch (std::exception &x) { put("templates refused", err(x)); } break; }
        try { if (sc.xml.size() == 1) { dynamic_templates_description own_d(sc.xml[which].c_str(), "", reg[0]); std::string s; for (uint32_t i = 0; i < own_d.size(); ++i) s += Describe::tmpl(own_d[i]); put("templates loaded", s);
            if (r.chance(50)) { const templates_description *p[] = {&own_d}; fast_encoder e(&own); e.include(p); Message m = message(); for (uint32_t i = 0; i < own_d.size(); ++i) if (sc.t[t].name == own_d[i]->name()) { MT a(al, own_d[i]); (void)a; std::vector<char> b; std::string q; cstr(a.cref(), q); put("texts", q); try { e.encode(a.cref(), b, false); put("encoded with templates of its own", std::string(b.begin(), b.end())); } catch (std::exception &x) { put("encoding refused", err(x)); } } } }
          else { template_registry reg; std::vector<std::unique_ptr<dynamic_templates_description>> v; std::string s; for (auto &x : sc.xml) { v.emplace_back(new dynamic_templates_description(x.c_str(), "", &reg)); for (uint32_t i = 0; i < v.back()->size(); ++i) s += Describe::tmpl((*v.back())[i]); } put("templates loaded", s); }
        } catch (std::exception &x) { put("templates refused", err(x)); } break; }
      case 7: { std::string s; for (auto i : w.inst) s += Describe::tmpl(i); put("descriptions read", s); MT a(al, w.inst[t]); std::string q; cstr(a.cref(), q); q += show(read_message(a.cref(), sc), sc); put("new messages", q); break; }
      default: if (kept.empty()) break; { std::unique_ptr<MT> &x = kept[r.below(kept.size())]; std::ostringstream os; bool ok = false; try { ok = json::encode(os, x->cref(), 0); } catch (std::exception &e) { put("text refused", err(e)); break; } put("texts of messages", os.str() + (ok ? "" : "!"));
        MT copy(x->cref(), &own); put("copies", copy.cref() == x->cref() ? "equal" : "different"); if (r.chance(50)) { std::istringstream is(os.str()); MT b(al, x->instruction()); try { json::decode(is, b.mref()); put("texts read", show(read_message(b.cref(), sc), sc)); } catch (std::exception &e) { put("texts refused", err(e)); } }
        std::string q; cstr(x->cref(), q); put("texts", q); if (r.chance(40)) x.reset(new MT(*kept[r.below(kept.size())])); if (r.chance(30)) { std::swap(x, kept.back()); kept.pop_back(); } }
      }
    }
  }
};
#ifdef VF_GEN
// the first uses of the types of a template set happen in several threads
static void first_use(Ctx &c, int gi) {
  Rng &r = c.rng; const GenEntry &e = *gen_entries[gi]; size_t n = World::cached(gi).t.size(); int nt = (int)r.range(3, 6); allocator *al = malloc_allocator::instance();
  std::atomic<int> ready{0}; std::vector<std::thread> ts; std::vector<std::vector<const void *>> seen(nt); std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.next());
  for (int i = 0; i < nt; ++i) ts.emplace_back([&, i] { Rng d(seeds[i]); ++ready; while (ready.load() < nt) sched_yield(); int first = (int)d.below(5);
    for (int k = 0; k < 5; ++k) { Op1 op; switch ((first + k) % 5) {
      case 0: e.desc(); break;
      case 1: { size_t t = d.below(n); for (size_t j = 0; j < n; ++j) { std::shared_ptr<MT> m(e.typed[(t + j) % n].make(al)); std::string s; Job::cstr(m->cref(), s); } break; }
      case 2: e.decoder(al, (int)d.below(2)); break;
      case 3: e.encoder(al); break;
      default: e.typed[d.below(n)].instruction(); } }
    for (auto p : e.desc()) { seen[i].push_back(p); for (uint32_t k = 0; k < p->size(); ++k) seen[i].push_back((*p)[k]); } for (size_t k = 0; k < n; ++k) seen[i].push_back(e.typed[k].instruction()); });
  for (auto &t : ts) t.join();
  for (auto &s : seen) if (s != seen[0]) c.fail("threads that use a generated type first see different descriptions", "template set " + std::to_string(gi));
  c.count("first uses of generated types by several threads", nt);
}
#endif
static void one(Ctx &c) {
  Rng &r = c.rng; World w;
#ifdef VF_GEN
  int gi = (int)r.below(gen_count); if (!gen_entries[gi]) throw SkipCase();
  static std::set<int> used; if (used.insert(gi).second) first_use(c, gi); // once for every process and template set
  w.generated(gi); w.dec_kind = (int)r.below(2);
#else
  GenCfg cfg; cfg.max_docs = 2; cfg.max_templates = 4; cfg.unnamed_pct = r.chance(30) ? 30 : 0;
  if (r.chance(15)) w.dynamic(matrix_schema(r)); else w.dynamic(make_schema(r, cfg));
  { GenCfg dc; dc.max_docs = 1; dc.max_templates = 3; DocGen g(r, make_schema(r, dc)); doc = g.write()[0]; }
#endif
  for (auto &t : w.sc.t) if (has_zero_byte_elements(t.f)) { c.count("template sets with elements of no bytes left out"); return; }
  int nt = (int)r.range(2, 6), steps = (int)r.range(5, 30); std::vector<uint64_t> seeds; bool same_work = r.chance(30); for (int i = 0; i < nt; ++i) seeds.push_back(same_work && i ? seeds[0] : r.next());
  template_registry reg[2]; std::vector<std::unique_ptr<Job>> jobs; for (auto s : seeds) jobs.emplace_back(new Job(w, s, steps, true, reg, reg + 1));
  std::atomic<int> ready{0}; std::vector<std::thread> ts; std::vector<std::string> crash(nt); uint64_t o0 = overlapped.load();
  for (int i = 0; i < nt; ++i) ts.emplace_back([&, i] { ++ready; while (ready.load() < nt) sched_yield(); try { jobs[i]->run(); } catch (std::exception &e) { crash[i] = std::string(typeid(e).name()) + ": " + e.what(); } catch (BridgeError &e) { crash[i] = e.what; } });
  for (auto &t : ts) t.join();
  for (auto &s : crash) if (!s.empty()) c.fail("a thread ended with an exception", s + "\n" + w.xmls);
  for (int i = 0; i < nt; ++i) { if (i && seeds[i] == seeds[0]) { if (jobs[i]->log != jobs[0]->log) c.fail("two threads doing the same work have different results", w.xmls); continue; }
    template_registry own[2]; Job alone(w, seeds[i], steps, false, own, own + 1); alone.run(); auto &a = jobs[i]->log, &b = alone.log;
    for (size_t k = 0; k < a.size() || k < b.size(); ++k) if (k >= a.size() || k >= b.size() || a[k] != b[k]) c.fail("the result differs from that of the same work done alone", "thread " + std::to_string(i) + " operation " + std::to_string(k) + "\nwith others: " + (k < a.size() ? a[k] : "(nothing)") + "\nalone: " + (k < b.size() ? b[k] : "(nothing)") + "\n" + w.xmls); }
  uint64_t h = 0; for (auto &j : jobs) for (auto &x : j->n) { c.count(x.first, x.second); h = h * 31 + x.second; } for (auto &j : jobs) for (auto &x : j->log) h = h * 131 + hash_str(x);
  c.evaluated(h, overlapped.load() != o0); c.counters["operations"] = ops.load(); c.counters["operations begun while another thread was inside one"] = overlapped.load(); c.maxi("threads inside an operation at once", peak.load()); c.count("threads", nt); c.sample(w.xmls.substr(0, 300));
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
