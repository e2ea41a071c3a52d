// A template set together with the coders under test for it: the generic
// coders for a random template set, or the coders specialised for generated
// types for one of the compiled template sets.
#pragma once
#include "bridge.h"
#include "genmsg.h"
#include "runner.h"
#include "cppschema.h"
#include "monalloc.h"
namespace vf {
struct AnyDecoder {
  virtual ~AnyDecoder() {}
  virtual mfast::message_cref decode(const char *&p, const char *e, bool reset) = 0;
  // coders with tokens: the message stays until the token is used again, and may be changed
  virtual bool changeable() const { return false; }
  virtual mfast::message_mref decode(size_t token, const char *&p, const char *e, bool reset) { (void)token; (void)p; (void)e; (void)reset; throw BridgeError{"no tokens"}; }
};
enum { DECODER_TOKENS = 3 };
struct AnyEncoder {
  virtual ~AnyEncoder() {}
  virtual size_t encode(const mfast::message_cref &m, char *b, size_t n, bool reset) = 0;
  virtual void encode(const mfast::message_cref &m, std::vector<char> &v, bool reset) = 0;
  virtual void overlong(bool) = 0;
};
struct V1Decoder : AnyDecoder {
  mfast::fast_decoder d;
  V1Decoder(mfast::allocator *a, const std::vector<const mfast::templates_description *> &p) : d(a) { d.include(p.data(), p.size()); }
  mfast::message_cref decode(const char *&p, const char *e, bool r) override { return d.decode(p, e, r); }
};
struct V1Encoder : AnyEncoder {
  mfast::fast_encoder d;
  V1Encoder(mfast::allocator *a, const std::vector<const mfast::templates_description *> &p) : d(a) { d.include(p.data(), p.size()); }
  size_t encode(const mfast::message_cref &m, char *b, size_t n, bool r) override { return d.encode(m, b, n, r); }
  void encode(const mfast::message_cref &m, std::vector<char> &v, bool r) override { d.encode(m, v, r); }
  void overlong(bool v) override { d.allow_overlong_pmap(v); }
};
// what a file of generated types provides
struct GenEntry {
  std::vector<const mfast::templates_description *> (*desc)(); // not called before main
  std::unique_ptr<AnyDecoder> (*decoder)(mfast::allocator *, int kind); // 0: messages share values with the decoder, 1: tokens
  std::unique_ptr<AnyEncoder> (*encoder)(mfast::allocator *);
  const struct GenTyped *typed;                                           // for every template of the set
};
#ifdef VF_GEN
extern const GenEntry *const gen_entries[]; extern const int gen_count; extern const unsigned long long gen_seed;
#endif

struct World {
  Schema sc; bool gen = false; int gen_index = -1, dec_kind = 0;
  std::unique_ptr<Loaded> ld; const GenEntry *ge = nullptr;
  std::vector<const mfast::template_instruction *> inst;
  std::vector<const mfast::templates_description *> ptr;
  std::string xmls;
  static mfast::allocator *def() { return mfast::malloc_allocator::instance(); }
  // a random template set with the generic coders
  void dynamic(Schema s) {
    sc = std::move(s); ld.reset(new Loaded(sc)); inst = ld->inst; ptr = ld->ptr;
    xmls.clear(); for (auto &x : sc.xml) xmls += x;
  }
#ifdef VF_GEN
  void generated(int i) {
    if (!gen_entries[i]) throw SkipCase(); // C22 reports that it did not compile
    gen = true; gen_index = i; ge = gen_entries[i]; sc = cached(i);
    ptr = ge->desc(); inst.assign(sc.t.size(), nullptr);
    for (auto d : ptr) for (uint32_t k = 0; k < d->size(); ++k) for (size_t t = 0; t < sc.t.size(); ++t) if (sc.t[t].name == (*d)[k]->name()) inst[t] = (*d)[k];
    for (auto p : inst) if (!p) throw BridgeError{"a template of the document is missing from the generated description"};
    xmls = "[generated template set " + std::to_string(i) + " of seed " + std::to_string(gen_seed) + "]\n";
    for (auto &x : sc.xml) xmls += x;
  }
  static const Schema &cached(int i) { static std::map<int, Schema> m; auto it = m.find(i); if (it == m.end()) it = m.emplace(i, cpp_schema(gen_seed, i)).first; return it->second; }
#endif
  std::unique_ptr<AnyDecoder> decoder(mfast::allocator *a = def()) const { if (gen) return ge->decoder(a, dec_kind); return std::unique_ptr<AnyDecoder>(new V1Decoder(a, ptr)); }
  std::unique_ptr<AnyEncoder> encoder(mfast::allocator *a = def()) const { if (gen) return ge->encoder(a); return std::unique_ptr<AnyEncoder>(new V1Encoder(a, ptr)); }
};
// can an element of the sequence occupy no bytes in the stream?
inline bool zero_bytes(const std::vector<Field> &fs) {
  for (auto &f : fs) {
    if (f.t == T::GROUP) { if (!f.optional && f.pm_bits == 0 && zero_bytes(f.sub)) continue; if (f.optional) continue; return false; }
    if (f.t == T::SEQ) { if (f.len_op.op == Op::None || f.len_op.op == Op::Delta) return false; continue; }
    if (f.t == T::TREF) return false;
    if (f.t == T::DEC && f.indiv) { auto z = [](Op o) { return !(o == Op::None || o == Op::Delta); }; if (!z(f.op.op)) return false; if (!f.optional && !z(f.mop.op)) return false; continue; }
    if (is_vec(f.t)) return false;
    if (f.op.op == Op::None || f.op.op == Op::Delta) return false;
  }
  return true;
}
inline bool has_zero_byte_elements(const std::vector<Field> &fs) {
  for (auto &f : fs) {
    if (f.t == T::SEQ && f.pm_bits == 0 && zero_bytes(f.sub)) return true;
    if ((f.t == T::SEQ || f.t == T::GROUP) && has_zero_byte_elements(f.sub)) return true;
  }
  return false;
}
// one valid message for the schema, as bytes with its meaning
inline bool gen_stream(const Schema &sc, Rng &r, DictState &ds, bool reset, bool force_id, std::string &bytes, Message &want, int next = -1, unsigned err = 0) {
  GenSource src(r); src.err_pct = err; RefDecoder<GenSource> ref(sc, src, ds); ref.force_id = force_id; ref.next_template = next;
  try { want = ref.message(reset); } catch (DynError &) { return false; }
  bytes = src.out; return true;
}
} // namespace vf
