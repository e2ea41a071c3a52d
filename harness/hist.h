// Histories of messages through one coder, compared with the reference.
#pragma once
#include "bridge.h"
#include "genmsg.h"
#include "runner.h"
#include "cppschema.h"
#include <mfast/coder/fast_decoder_v2.h>
namespace vf {
struct HistCfg {
  unsigned err_pct = 2, reset_pct = 6, unknown_msg_pct = 2;
  int min_msg = 3, max_msg = 14;
  bool always_minimal = false, report_known = false, shuffle = false;
  bool sparse = false;         // long runs of equal presence map bits
  unsigned overlong_pmap_pct = 15;
};
static const char KNOWN_DEFAULT[] = "encode: absent optional default field of the message is sent as its initial value";

// One decoder over a history of generated messages.
inline void decode_history(Ctx &c, const Schema &sc, const HistCfg &h) {
  Rng &r = c.rng;
  std::string xmls; for (auto &x : sc.xml) xmls += x;
  if (c.verbose) fprintf(stderr, "%s\n", xmls.c_str());
  std::unique_ptr<Loaded> ld;
  try { ld.reset(new Loaded(sc)); }
  catch (boost::exception &e) { c.fail("load: a valid template document was rejected", xmls + boost::diagnostic_information(e)); }
  catch (BridgeError &e) { c.fail("load: " + e.what, xmls); }
  mfast::fast_decoder dec;
  if (h.shuffle) for (size_t i = ld->ptr.size(); i > 1; --i) std::swap(ld->ptr[i - 1], ld->ptr[r.below(i)]);
  dec.include(ld->ptr.data(), ld->ptr.size());
  DictState gs; gs.active = sc.t.size() == 1 ? 0 : -1;
  bool after_error = false; std::string log = xmls;
  int nmsg = (int)r.range(h.min_msg, h.max_msg);
  for (int k = 0; k < nmsg; ++k) {
    GenSource src(r); RefDecoder<GenSource> ref(sc, src, gs);
    src.err_pct = after_error ? 0 : h.err_pct; src.overlong_pmap_pct = h.overlong_pmap_pct;
    if (h.sparse) { static const unsigned p[] = {0, 2, 10, 50, 97, 100}; src.one_pct = p[r.below(6)]; }
    if (r.chance(h.unknown_msg_pct)) ref.unknown_id_pct = 20;
    bool reset = after_error || r.chance(h.reset_pct);
    if (after_error) ref.force_id = true;
    Message want; std::string err;
    try { want = ref.message(reset); } catch (DynError &e) { err = e.code; ref.close_all(); src.out += std::string(64, (char)0x80); }
    catch (Malformed &) { throw SkipCase(); } // the generator ran into a corner of its own
    after_error = !err.empty();
    // exact-size heap copy so that the sanitizer sees any over-read
    std::vector<char> buf(src.out.begin(), src.out.end());
    size_t trailing = err.empty() && r.chance(30) ? r.below(4) : 0;
    for (size_t i = 0; i < trailing; ++i) buf.push_back((char)r.below(256));
    std::unique_ptr<char[]> exact(new char[buf.size()]); memcpy(exact.get(), buf.data(), buf.size());
    const char *p = exact.get(), *e = p + buf.size();
    log += "message " + std::to_string(k) + (reset ? " (reset)" : "") + " bytes " + hex(src.out) + "\n  means " + (err.empty() ? show(want, sc) : "dynamic error " + err) + "\n";
    c.evaluated(hash_str(src.out, hash_str(xmls)), ref.nfields > 0);
    c.count("messages"); c.count("fields", ref.nfields); c.count("bytes", src.out.size());
    for (int a = 0; a < 18; ++a) for (int b = 0; b < 8; ++b) for (int q = 0; q < 2; ++q) if (ref.cov[a][b][q]) c.count(std::string("seen ") + type_name((T)a) + "/" + op_name((Op)b) + (q ? "/present" : "/absent"), ref.cov[a][b][q]);
    try {
      mfast::message_cref m = dec.decode(p, e, reset);
      if (!err.empty()) c.fail("decode: accepted a stream that must raise " + err, log + "  decoded " + show(read_message(m, sc), sc));
      Message got = read_message(m, sc); std::string where;
      if (!same(want, got, sc, &where)) c.fail("decode: wrong value", log + "  decoded " + show(got, sc) + "\n  differs at " + where);
      if (p != e - trailing) c.fail("decode: consumed a different number of bytes", log + "  consumed " + std::to_string(p - exact.get()) + " of " + std::to_string(src.out.size()));
    } catch (mfast::fast_error &x) {
      c.count("errors raised");
      if (err.empty()) c.fail("decode: rejected a valid stream", log + boost::diagnostic_information(x));
      if (err != "?" ) c.count("dynamic error " + err);
    } catch (BridgeError &x) { c.fail("decode: " + x.what, log); }
    if (ref.wrapped) c.count("wrapped 64 bit deltas");
  }
  c.sample(log.size() < 1500 ? log : log.substr(xmls.size()));
}
// One encoder over a history of generated messages.
inline void encode_history(Ctx &c, const Schema &sc, const HistCfg &h) {
  Rng &r = c.rng; using mfast::malloc_allocator;
  std::string xmls; for (auto &x : sc.xml) xmls += x;
  if (c.verbose) fprintf(stderr, "%s\n", xmls.c_str());
  Loaded ld(sc);
  mfast::fast_encoder enc;
  if (h.shuffle) for (size_t i = ld.ptr.size(); i > 1; --i) std::swap(ld.ptr[i - 1], ld.ptr[r.below(i)]);
  enc.include(ld.ptr.data(), ld.ptr.size());
  bool minimal = h.always_minimal || r.chance(50);
  enc.allow_overlong_pmap(!minimal);
  DictState ds; ds.active = sc.t.size() == 1 ? 0 : -1; ds.slots.resize(sc.slots.size());
  std::map<int, std::unique_ptr<mfast::message_type>> pool;
  std::string log = xmls; bool after_error = false;
  std::vector<char> vec; std::string stream_prefix;
  int nmsg = (int)r.range(h.min_msg, h.max_msg);
  for (int k = 0; k < nmsg; ++k) {
    int t = (int)r.below(sc.t.size());
    bool reset = after_error || r.chance(h.reset_pct);
    MsgGen g(sc, r, reset ? nullptr : &ds);
    g.absent_pct = r.chance(20) ? 80 : r.chance(20) ? 5 : 30;
    if (h.sparse) { static const unsigned p[] = {0, 50, 90, 97, 100}; g.same_pct = p[r.below(5)]; if (r.chance(40)) g.absent_pct = r.chance(50) ? 97 : 100; }
    Message want0 = g.gen_message(t);
    if (g.failed) continue;
    bool fresh = !pool.count(t) || r.chance(60);
    if (fresh) pool[t].reset(new mfast::message_type(malloc_allocator::instance(), ld.inst[t]));
    mfast::message_type &msg = *pool[t];
    write_fields(sc.t[t].f, want0.f, msg.mref(), sc, ld.inst);
    Message want = read_message(msg.cref(), sc); std::string where;
    if (!same(want0, want, sc, &where)) c.fail("message: a field does not hold the value it was given", log + "assigned " + show(want0, sc) + "\n holds " + show(want, sc) + "\n differs at " + where);
    DictState before = ds;
    if (reset || sc.t[t].reset) for (auto &s : before.slots) s = Slot();
    EncSim sim(sc, before); sim.fields(sc.t[t].f, want.f);
    log += "message " + std::to_string(k) + (reset ? " (reset) " : " ") + show(want, sc) + "\n";
    std::string bytes; bool threw = false;
    try {
      if (r.chance(50)) {
        size_t old = vec.size();
        std::string pre(vec.begin(), vec.end());
        enc.encode(msg.cref(), vec, reset);
        if (vec.size() < old || std::string(vec.begin(), vec.begin() + old) != pre) c.fail("encode: the content before the message changed", log);
        bytes.assign(vec.begin() + old, vec.end());
        if (r.chance(30)) vec.clear();
      } else {
        std::unique_ptr<char[]> b(new char[70000]);
        size_t n = enc.encode(msg.cref(), b.get(), 70000, reset);
        bytes.assign(b.get(), n);
      }
    } catch (mfast::fast_error &x) {
      threw = true;
      if (sim.why.empty()) c.fail("encode: refused a message that can be sent", log + boost::diagnostic_information(x));
      c.count("messages refused for " + sim.why.substr(0, 2));
    }
    Message after = read_message(msg.cref(), sc);
    if (!same(want, after, sc, &where)) c.fail("encode: the message changed", log + " became " + show(after, sc) + " at " + where);
    after_error = threw;
    if (threw) continue;
    log += "  bytes " + hex(bytes) + "\n";
    ByteSource src(bytes.data(), bytes.size()); RefDecoder<ByteSource> ref(sc, src, ds);
    Message got;
    try { got = ref.message(reset); }
    catch (DynError &e) { c.fail("encode: the bytes raise dynamic error " + e.code, log); }
    catch (Malformed &e) { c.fail("encode: the bytes are not a valid stream: " + e.why, log); }
    c.evaluated(hash_str(bytes, hash_str(xmls)), ref.nfields > 0);
    c.count("messages"); c.count("fields", ref.nfields); c.count("bytes", bytes.size());
    c.maxi("presence maps in a message", src.pmaps);
    if (ref.wrapped) c.count("wrapped 64 bit deltas");
    for (int a = 0; a < 18; ++a) for (int b = 0; b < 8; ++b) for (int q = 0; q < 2; ++q) if (ref.cov[a][b][q]) c.count(std::string("seen ") + type_name((T)a) + "/" + op_name((Op)b) + (q ? "/present" : "/absent"), ref.cov[a][b][q]);
    if (sim.defs) {
      Message g2 = got; size_t n = undo_defaults(sc.t[t].f, want.f, g2.f, sc, true);
      if (n && !h.report_known) got = g2;
      else if (n) { c.report(KNOWN_DEFAULT, log + "  means " + show(got, sc)); c.failures--; got = g2; }
    }
    if (!same(want, got, sc, &where)) c.fail("encode: the bytes mean a different message", log + "  means " + show(got, sc) + "\n  differs at " + where);
    if (src.p != bytes.size()) c.fail("encode: bytes after the message", log + "  " + std::to_string(bytes.size() - src.p) + " extra");
    if (minimal && src.overlong_pmaps) c.fail("encode: over-long presence map although disallowed", log);
  }
  c.sample(log.size() < 1500 ? log : log.substr(xmls.size()));
}
} // namespace vf
