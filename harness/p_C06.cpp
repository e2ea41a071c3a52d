// C06: encoding into fixed buffers of every size around the encoded size, into
// exact-size heap blocks watched by ASan, and into growing buffers that already
// hold something.
#include "world.h"
#include <mfast/coder/encoder/fast_ostreambuf.h>
using namespace vf;

// presence map bits of the nested segments of one template that may be open
// at the same time
static uint64_t open_bits(const std::vector<Field> &fs) {
  uint64_t sub = 0; for (auto &f : fs) if (f.t == T::GROUP || f.t == T::SEQ) sub = std::max(sub, open_bits(f.sub));
  return fs.size() * 2 + 8 + sub;
}
static int nesting(const std::vector<Field> &fs, const std::vector<Value> &v, const Schema &sc) {
  int d = 0;
  for (size_t i = 0; i < fs.size(); ++i) for (auto &e : v[i].elems) {
    if (fs[i].t == T::TREF) d = std::max(d, 1 + nesting(sc.t[v[i].tmpl].f, e, sc)); else d = std::max(d, nesting(fs[i].sub, e, sc));
  }
  return d;
}
static std::string content(Rng &r, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += (char)r.next(); return s; }

static void one(Ctx &c) {
  Rng &r = c.rng; World w;
#ifdef VF_GEN
  w.generated((int)r.below(gen_count)); w.dec_kind = (int)r.below(2);
#else
  GenCfg cfg; cfg.many_pmap = r.chance(10); cfg.max_templates = 5; w.dynamic(r.chance(3) ? matrix_schema(r) : make_schema(r, cfg));
#endif
  const Schema &sc = w.sc; std::string log = w.xmls;
  bool minimal = r.chance(50);
  uint64_t bits = 0; for (auto &t : sc.t) bits = std::max(bits, open_bits(t.f));
  size_t slack = 16;
  auto set_slack = [&](const Message &m) { slack = 16 + (minimal ? (bits / 7 + 16) * (1 + nesting(sc.t[m.tmpl].f, m.f, sc)) : 0); };
  MonAlloc al("encoder", r.next(), (int)r.below(3)); bool mon = r.chance(20);
  auto A = w.encoder(), B = w.encoder(mon ? (mfast::allocator *)&al : World::def());
  A->overlong(!minimal); B->overlong(!minimal);
  std::vector<char> grow; bool reset = false; DictState ds; ds.active = sc.t.size() == 1 ? 0 : -1; ds.slots.resize(sc.slots.size());
  auto make = [&](Message &v, int t, const DictState *d) {
    MsgGen g(sc, r, d); g.absent_pct = r.chance(20) ? 80 : 30; g.long_pct = r.chance(15) ? 40 : 0;
    v = g.gen_message(t); if (g.failed) return std::unique_ptr<mfast::message_type>();
    std::unique_ptr<mfast::message_type> m(new mfast::message_type(World::def(), w.inst[t])); write_fields(sc.t[t].f, v.f, m->mref(), sc, w.inst); v = read_message(m->cref(), sc); return m;
  };
  auto fits = [&](size_t size, size_t n) { return size >= n + slack; };
  // a history: A grows a vector, B writes to fixed buffers of about the right size
  int nmsg = (int)r.range(2, 10);
  for (int k = 0; k < nmsg; ++k) {
    int t = (int)r.below(sc.t.size()); bool rs = reset || r.chance(10);
    if (rs) { DictState f; f.active = ds.active; f.slots.resize(sc.slots.size()); ds = f; }
    Message v; auto m = make(v, t, &ds); if (!m) continue;
    set_slack(v); log += std::string(rs ? "reset " : "") + show(v, sc) + "\n";
    size_t old = grow.size(); std::string pre(grow.begin(), grow.end());
    bool ta = false, tb = false, over = false; size_t n = 0, got = 0;
    try { A->encode(m->cref(), grow, rs); } catch (mfast::fast_error &) { ta = true; }
    if (grow.size() < old || std::string(grow.begin(), grow.begin() + old) != pre) c.fail("growing buffer: the content before the message changed", log);
    n = ta ? 0 : grow.size() - old;
    std::string bytes(grow.begin() + old, grow.begin() + old + n);
    if (!ta) { // keep the dictionary model in step so that later messages are interesting
      ByteSource src(bytes.data(), bytes.size()); RefDecoder<ByteSource> ref(sc, src, ds);
      try { ref.message(rs); } catch (DynError &e) { c.fail("encode: the bytes raise " + e.code, log + hex(bytes)); } catch (Malformed &e) { c.fail("encode: malformed " + e.why, log + hex(bytes)); }
      if (src.p != bytes.size()) c.fail("encode: wrong size", log + hex(bytes));
    }
    size_t size = r.chance(75) ? n + slack + r.below(3) : 1 + r.below(n + slack); if (!size) size = 1;
    std::unique_ptr<char[]> b(new char[size]); std::string fill = content(r, size); memcpy(b.get(), fill.data(), size);
    try { got = B->encode(m->cref(), b.get(), size, rs); } catch (mfast::fast_error &) { tb = true; } catch (mfast::buffer_overflow_error &) { over = true; }
    c.evaluated(hash_str(log, size)); c.count("histories messages");
    if (!over && ta != tb) c.fail("fixed buffer: refused by one encoder and accepted by the other", log);
    if (over && !ta && fits(size, n)) c.fail("fixed buffer: overflow although the message fits", log + "size " + std::to_string(size) + " needs " + std::to_string(n));
    if (!over && !tb) {
      if (got > size) c.fail("fixed buffer: returned size beyond the buffer", log);
      if (got != n || memcmp(b.get(), bytes.data(), n)) c.fail("fixed buffer: different bytes than in a growing one", log + " growing " + hex(bytes) + "\n fixed " + hex(std::string(b.get(), got)));
    }
    reset = over || ta || tb;
    if (over && !ta) { // bring the same template into effect in both
      std::vector<char> x, y;
      try { A->encode(m->cref(), x, true); B->encode(m->cref(), y, true); } catch (mfast::fast_error &) { break; }
    }
    if (r.chance(30)) { grow.clear(); if (r.chance(50)) grow.shrink_to_fit(); }
    if (r.chance(20)) { std::string x = content(r, r.below(1100)); grow.insert(grow.end(), x.begin(), x.end()); }
  }
  // one message, always after a reset, against every size
  for (int rep = 0; rep < 2; ++rep) {
    int t = (int)r.below(sc.t.size()); Message v; auto m = make(v, t, nullptr); if (!m) continue;
    set_slack(v); std::vector<char> ref, again;
    try { B->encode(m->cref(), ref, true); ref.clear(); B->encode(m->cref(), ref, true); B->encode(m->cref(), again, true); } catch (mfast::fast_error &) { continue; }
    std::string log2 = w.xmls + "repeated with reset: " + show(v, sc) + "\n bytes " + hex(std::string(ref.begin(), ref.end())) + "\n";
    if (ref != again) c.fail("reset: the same message gives different bytes", log2 + hex(std::string(again.begin(), again.end())));
    size_t n = ref.size(); uint64_t overs = 0, fit = 0; long first_ok = -1;
    for (size_t size = 1; size <= n + slack; size += (size < 16 || (size + 12 > n && size < n + 12) || size == n + slack - 1 ? 1 : std::max<size_t>(1, std::min<size_t>(size < n + slack ? n + slack - size : 1, 1 + r.below(1 + n / 20))))) {
      std::unique_ptr<char[]> b(new char[size]); size_t got = 0; bool over = false;
      try { got = B->encode(m->cref(), b.get(), size, true); } catch (mfast::buffer_overflow_error &) { over = true; }
      catch (mfast::fast_error &x) { c.fail("fixed buffer: refused what was accepted before", log2 + "size " + std::to_string(size) + boost::diagnostic_information(x)); }
      if (over) { ++overs; if (fits(size, n)) c.fail("fixed buffer: overflow although the message fits", log2 + "size " + std::to_string(size) + " needs " + std::to_string(n)); }
      else {
        ++fit; if (first_ok < 0) first_ok = (long)size;
        if (got > size || size < n) c.fail("fixed buffer: reported success for a message that does not fit", log2 + "size " + std::to_string(size));
        if (got != n || memcmp(b.get(), ref.data(), n)) c.fail("fixed buffer: different bytes than in a growing one", log2 + "size " + std::to_string(size) + " bytes " + hex(std::string(b.get(), got)));
      }
    }
    Message after = read_message(m->cref(), sc); std::string wh;
    if (!same(v, after, sc, &wh)) c.fail("encode: the message changed", log2 + " at " + wh);
    c.evaluated(hash_str(log2)); c.count("size sweeps"); c.count("sizes reported as overflow", overs); c.count("sizes that fit", fit);
    if (first_ok >= 0) c.maxi("slack needed beyond the encoded size", first_ok - (long)n);
    c.maxi("encoded size", n);
  }
  c.sample(log.substr(w.xmls.size()));
  A.reset(); B.reset();
  if (al.error.size()) c.fail("allocator protocol: " + al.error, log);
  if (!al.live.empty()) c.fail("leak: blocks not returned by the encoder", log);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
