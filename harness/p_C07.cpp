// C07: presence maps of any length and nesting: whole messages with very many
// presence map bits against the reference, and the presence map classes on
// random bit sequences.
#include "hist.h"
#include <mfast/coder/encoder/encoder_presence_map.h>
#include <mfast/coder/encoder/resizable_fast_ostreambuf.h>
#include <mfast/coder/decoder/fast_istream.h>
#include <mfast/coder/decoder/decoder_presence_map.h>
using namespace vf;

struct Seg { std::vector<bool> bits; uint64_t maxbits; std::vector<std::pair<size_t, int>> ev; std::vector<Seg> sub; std::vector<uint32_t> pay; };
// ev: after bit `first`, a payload integer (second -1) or nested segment (second = index)
static Seg gen_seg(Rng &r, int depth) {
  Seg s; size_t n;
  switch (r.below(5)) { case 0: n = 1 + r.below(7); break; case 1: n = 1 + r.below(20); break; case 2: n = 50 + r.below(20); break; case 3: n = 7 * (1 + r.below(40)) + (size_t)r.range(-1, 1); break; default: n = 1 + r.below(700); }
  s.maxbits = n; size_t used = r.chance(80) ? n : r.below(n + 1);
  unsigned pct = r.chance(30) ? 3 : r.chance(30) ? 97 : r.chance(30) ? 0 : 50; size_t cut = r.chance(40) ? r.below(used + 1) : used;
  for (size_t i = 0; i < used; ++i) {
    s.bits.push_back(i < cut && r.chance(pct));
    if (r.chance(used > 60 ? 4 : 15)) { s.ev.push_back({i, -1}); s.pay.push_back((uint32_t)r.next()); }
    else if (depth < 4 && s.sub.size() < 3 && r.chance(6)) { s.ev.push_back({i, (int)s.sub.size()}); s.sub.push_back(gen_seg(r, depth + 1)); }
  }
  return s;
}
static std::string expect(const Seg &s, bool minimal) {
  std::string body; size_t p = 0;
  for (auto &e : s.ev) { if (e.second >= 0) body += expect(s.sub[e.second], minimal); else { GenSource::put_int(body, {false, 32, false}, false, s.pay[p]); ++p; } }
  std::vector<bool> b = s.bits; size_t nb = (s.maxbits + 6) / 7;
  b.resize(nb * 7);
  if (minimal) { while (!b.empty() && !b.back()) b.pop_back(); nb = b.empty() ? 1 : (b.size() + 6) / 7; b.resize(nb * 7); }
  std::string m; for (size_t i = 0; i < nb; ++i) { int c = 0; for (int k = 0; k < 7; ++k) c = c * 2 + b[i * 7 + k]; if (i + 1 == nb) c |= 0x80; m += (char)c; }
  return m + body;
}
static void write_seg(const Seg &s, mfast::fast_ostream &o) {
  mfast::encoder_presence_map pm; pm.init(&o, s.maxbits); size_t e = 0, p = 0;
  for (size_t i = 0; i < s.bits.size(); ++i) {
    pm.set_next_bit(s.bits[i]);
    for (; e < s.ev.size() && s.ev[e].first == i; ++e) if (s.ev[e].second >= 0) write_seg(s.sub[s.ev[e].second], o); else o.encode((uint32_t)s.pay[p++], false, std::false_type());
  }
  pm.commit();
}
static bool read_seg(const Seg &s, mfast::fast_istream &in, std::string &why, Rng &r) {
  mfast::decoder_presence_map pm; in.decode(pm); size_t e = 0, p = 0;
  for (size_t i = 0; i < s.bits.size(); ++i) {
    bool v = pm.is_next_bit_set();
    if (v != s.bits[i]) { why = "bit " + std::to_string(i) + " of " + std::to_string(s.bits.size()); return false; }
    for (; e < s.ev.size() && s.ev[e].first == i; ++e) if (s.ev[e].second >= 0) { if (!read_seg(s.sub[s.ev[e].second], in, why, r)) return false; } else { uint32_t x = 0; in.decode(x, std::false_type()); if (x != s.pay[p++]) { why = "payload after bit " + std::to_string(i); return false; } }
  }
  // everything that was not transmitted reads as zero
  for (size_t i = 0, n = r.below(150); i < n; ++i) if (pm.is_next_bit_set()) { why = "bit " + std::to_string(i) + " beyond the " + std::to_string(s.bits.size()) + " written ones is set"; return false; }
  return true;
}
static std::string overlong(const Seg &s, Rng &r) { // a legal encoding with padding
  std::string body; size_t p = 0;
  for (auto &e : s.ev) { if (e.second >= 0) body += overlong(s.sub[e.second], r); else { GenSource::put_int(body, {false, 32, false}, false, s.pay[p]); ++p; } }
  return GenSource::encode_pmap(s.bits, (int)r.below(25)) + body;
}
static uint64_t depth_of(const Seg &s) { uint64_t d = 0; for (auto &x : s.sub) d = std::max(d, depth_of(x)); return d + 1; }

static void direct(Ctx &c) {
  Rng &r = c.rng;
  for (int k = 0; k < 20; ++k) {
    Seg s = gen_seg(r, 0); bool minimal = r.chance(60); std::string want = expect(s, minimal), full = expect(s, false), got;
    mfast::fast_ostream o(mfast::malloc_allocator::instance()); o.allow_overlong_pmap(!minimal);
    if (r.chance(50)) {
      std::string pre; for (size_t i = 0, n = r.below(60); i < n; ++i) pre += (char)(r.chance(40) ? 0x80 : r.chance(50) ? 0 : r.next());
      std::vector<char> v(pre.begin(), pre.end()); size_t len;
      { mfast::resizable_fast_ostreambuf b(v); o.rdbuf(&b); write_seg(s, o); len = b.length(); }
      v.resize(len);
      if (v.size() < pre.size() || std::string(v.begin(), v.begin() + pre.size()) != pre) c.fail("presence map: bytes before it were changed", hex(pre) + "\n" + hex(std::string(v.begin(), v.end())));
      got.assign(v.begin() + pre.size(), v.end());
    } else {
      size_t cap = full.size() + 10; std::unique_ptr<char[]> a(new char[cap]); mfast::fast_ostreambuf b(a.get(), cap); o.rdbuf(&b); write_seg(s, o); got.assign(a.get(), b.length());
    }
    c.evaluated(hash_str(want)); c.count("presence map trees"); c.maxi("bits in a presence map", s.bits.size()); c.maxi("nesting", depth_of(s)); if (minimal) c.count("trees with minimal maps");
    // what was written must be the same bits; when minimal maps are asked for, exactly the minimal ones
    if (minimal ? got != want : false) c.fail("presence map: not the minimal encoding of the bits", "wrote " + hex(got) + "\n want " + hex(want));
    for (int pass = 0; pass < 2; ++pass) {
      std::string in = pass ? overlong(s, r) : got; std::unique_ptr<char[]> a(new char[in.size()]); memcpy(a.get(), in.data(), in.size());
      mfast::fast_istreambuf b(a.get(), in.size()); mfast::fast_istream is(&b); std::string why;
      try { if (!read_seg(s, is, why, r)) c.fail(pass ? "presence map: padded map read differently" : "presence map: read back differently", why + "\n" + hex(in)); }
      catch (mfast::fast_error &x) { c.fail("presence map: not readable", hex(in) + boost::diagnostic_information(x)); }
      if (is.in_avail()) c.fail("presence map: bytes left over", hex(in));
    }
  }
}
static uint64_t max_bits(const std::vector<Field> &fs, uint64_t &nested) { uint64_t n = 0; for (auto &f : fs) { if (f.t == T::GROUP || f.t == T::SEQ) { nested = std::max(nested, f.pm_bits); max_bits(f.sub, nested); } ++n; } return n; }
static void one(Ctx &c) {
  Rng &r = c.rng;
  if (r.chance(40)) { direct(c); return; }
  GenCfg cfg; cfg.many_pmap = true; cfg.many_pct = 75; cfg.max_templates = 3; cfg.max_fields = 6; cfg.forms = false; cfg.max_docs = 1;
  Schema sc = make_schema(r, cfg);
  HistCfg h; h.min_msg = 2; h.max_msg = 6; h.always_minimal = r.chance(80); h.sparse = true; h.overlong_pmap_pct = r.chance(50) ? 40 : 0;
  for (auto &t : sc.t) { uint64_t n = 0; c.maxi("fields of a template", max_bits(t.f, n)); c.maxi("presence map bits of a group or element", n); }
  if (r.chance(50)) decode_history(c, sc, h); else encode_history(c, sc, h);
}
int main(int argc, char **argv) { return run_main(argc, argv, one); }
