// Reference FAST 1.1 decoder, written against an abstract Source so that the
// same rules (a) interpret real bytes and (b) drive the generation of
// well-formed streams together with the values they denote.
#pragma once
#include "model.h"
namespace vf {

struct DynError { std::string code; };
struct Malformed { std::string why; };

enum class Prev { Undefined, Empty, Assigned };
struct Slot { Prev st = Prev::Undefined; Value v; };
struct DictState { std::vector<Slot> slots; int active = -1; };

struct BitReq { enum { Free, ErrorIfZero, MustBeOne, PreferOne } zero = Free; };
struct IntReq { bool sg; int bits; bool nullable; };

// ------------------------------------------------------------ byte source
struct ByteSource {
  static const bool generating = false;
  const unsigned char *b; size_t n, p = 0;
  struct Pm { std::vector<bool> bits; size_t i = 0; };
  std::vector<Pm> pm;
  size_t pmaps = 0, overlong_pmaps = 0; bool minimal_violation = false;
  ByteSource(const void *d, size_t len) : b((const unsigned char *)d), n(len) {}
  unsigned char get() { if (p >= n) throw Malformed{"stream ends inside an entity"}; return b[p++]; }
  void pmap_begin(uint64_t) {
    Pm m; int bytes = 0; bool last_zero = false;
    for (;;) { unsigned char c = get(); ++bytes; for (int i = 6; i >= 0; --i) m.bits.push_back((c >> i) & 1); last_zero = (c & 0x7f) == 0; if (c & 0x80) break; }
    ++pmaps; if (bytes > 1 && last_zero) ++overlong_pmaps;
    pm.push_back(m);
  }
  void pmap_end() { pm.pop_back(); }
  bool bit(BitReq) { Pm &m = pm.back(); return m.i < m.bits.size() ? m.bits[m.i++] : (m.i++, false); }
  // false: NULL
  bool integer(const IntReq &q, __int128 &out) {
    unsigned char c = get();
    __int128 v; int n = 1;
    if (q.sg && (c & 0x40)) v = -(__int128)64 + (c & 0x3f); else v = c & 0x7f;
    if (q.sg && !(c & 0x40)) v = c & 0x3f;
    while (!(c & 0x80)) { c = get(); v = v * 128 + (c & 0x7f); if (++n > 12) throw Malformed{"integer of more than 12 bytes"}; }
    if (q.nullable) { if (v == 0) return false; if (v > 0) v -= 1; }
    out = v; return true;
  }
  bool ascii(bool nullable, std::string &s) {
    s.clear(); unsigned char c;
    do { c = get(); s += (char)(c & 0x7f); } while (!(c & 0x80));
    if (s[0] == 0) {
      if (s.size() == 1) { s.clear(); return !nullable; }
      size_t z = nullable ? 2 : 1;
      for (char x : s) if (x) throw Malformed{"overlong ascii string"};
      if (nullable && s.size() == 2) { s.clear(); return true; }
      if (s.size() == z + (nullable ? 1 : 1)) { s = std::string(1, '\0'); return true; }
      throw Malformed{"overlong ascii string"};
    }
    return true;
  }
  bool bytes(bool nullable, std::string &s) {
    __int128 len;
    if (!integer({false, 32, nullable}, len)) return false;
    if (len > (__int128)(n - p)) throw Malformed{"byte vector longer than the stream"};
    s.assign((const char *)b + p, (size_t)len); p += (size_t)len; return true;
  }
  // hooks that only the generator uses
  bool want_id(bool) { return false; }
  template <class F> __int128 choose_int(const IntReq &, F) { return 0; }
};

// ----------------------------------------------------- generating source
// Writes the legal encoding it chose for each entity.
struct GenSource {
  static const bool generating = true;
  Rng &r;
  std::string out;
  struct Pm { std::vector<bool> bits; size_t pos; };
  std::vector<Pm> pm;
  unsigned err_pct = 2;      // how often to run into a dynamic error on purpose
  unsigned overlong_pmap_pct = 15, one_pct = 50;
  uint64_t ents = 0;
  explicit GenSource(Rng &r_) : r(r_) {}
  void pmap_begin(uint64_t) { pm.push_back({{}, out.size()}); }
  static std::string encode_pmap(std::vector<bool> b, int extra) {
    while (!b.empty() && !b.back()) b.pop_back();
    size_t nb = b.empty() ? 1 : (b.size() + 6) / 7; nb += extra; b.resize(nb * 7);
    std::string s;
    for (size_t i = 0; i < nb; ++i) { int c = 0; for (int k = 0; k < 7; ++k) c = c * 2 + b[i * 7 + k]; if (i + 1 == nb) c |= 0x80; s += (char)c; }
    return s;
  }
  void pmap_end() { Pm m = pm.back(); pm.pop_back(); int ex = r.chance(overlong_pmap_pct) ? 1 + (int)r.below(r.chance(10) ? 12 : 2) : 0; out.insert(m.pos, encode_pmap(m.bits, ex)); }
  bool bit(BitReq q) {
    bool v = q.zero == BitReq::MustBeOne ? true : q.zero == BitReq::ErrorIfZero ? !r.chance(err_pct) : q.zero == BitReq::PreferOne ? r.chance(75) : r.chance(one_pct);
    pm.back().bits.push_back(v); return v;
  }
  void set_bit(bool v) { pm.back().bits.push_back(v); }
  static void put_int(std::string &o, const IntReq &q, bool null, __int128 v) {
    if (null) { o += (char)0x80; return; }
    if (q.nullable && v >= 0) v += 1;
    std::string s; 
    if (!q.sg) { do { s.insert(s.begin(), (char)(v & 0x7f)); v >>= 7; } while (v); }
    else { for (;;) { s.insert(s.begin(), (char)(v & 0x7f)); bool neg = (v & 0x40) != 0; v >>= 7; if ((v == 0 && !neg) || (v == -1 && neg)) break; } }
    s.back() = (char)(s.back() | 0x80); o += s;
  }
  static void put_ascii(std::string &o, bool nullable, bool null, const std::string &s) {
    if (null) { o += (char)0x80; return; }
    if (s.empty()) { if (nullable) o += '\0'; o += (char)0x80; return; }
    if (s[0] == 0) { if (nullable) o += '\0'; o += '\0'; o += (char)0x80; return; }
    o += s; o.back() = (char)(o.back() | 0x80);
  }
  static void put_bytes(std::string &o, bool nullable, bool null, const std::string &s) {
    put_int(o, {false, 32, nullable}, null, (__int128)s.size()); if (!null) o += s;
  }
};

inline __int128 tmin(T t) { switch (t) { case T::I32: return INT32_MIN; case T::I64: return INT64_MIN; default: return 0; } }
inline __int128 tmax(T t) { switch (t) { case T::I32: return INT32_MAX; case T::U32: return UINT32_MAX; case T::I64: return INT64_MAX; default: return UINT64_MAX; } }
inline __int128 as128(T t, uint64_t u) { return is_signed_t(t) ? (__int128)(int64_t)u : (__int128)u; }

template <class S> struct RefDecoder {
  const Schema &sc; S &src; DictState &ds;
  // hook: called at every value the field rules assign (coverage accounting)
  uint64_t cov[18][8][2] = {};
  RefDecoder(const Schema &s, S &so, DictState &d) : sc(s), src(so), ds(d) { ds.slots.resize(sc.slots.size()); }

  void reset() { for (auto &s : ds.slots) s = Slot(); }

  // --- entity access: the generator needs to know what would be a good value
  template <class Pick> bool get_int(const IntReq &q, __int128 &v, unsigned null_pct, Pick pick) {
    if constexpr (S::generating) {
      ++src.ents;
      bool null = q.nullable && src.r.chance(null_pct);
      if (!null) v = pick();
      S::put_int(src.out, q, null, v); return !null;
    } else return src.integer(q, v);
  }
  template <class Pick> bool get_str(T t, bool nullable, std::string &s, unsigned null_pct, Pick pick) {
    if constexpr (S::generating) {
      ++src.ents;
      bool null = nullable && src.r.chance(null_pct);
      if (!null) s = pick();
      if (t == T::ASCII) S::put_ascii(src.out, nullable, null, s); else S::put_bytes(src.out, nullable, null, s);
      return !null;
    } else return t == T::ASCII ? src.ascii(nullable, s) : src.bytes(nullable, s);
  }
  Rng &rng() { return src.r; }
  __int128 pick_int(T t, bool small, const Slot *sl, const OpSpec &o) {
    if constexpr (S::generating) {
      Rng &r = src.r;
      if (small && src.ents > 3000) return 0;
      if (small) return (__int128)r.below(r.chance(80) ? 4 : r.chance(90) ? 9 : 60);
      if (sl && sl->st == Prev::Assigned && r.chance(35)) { __int128 v = as128(t, sl->v.u) + r.range(-2, 2); if (v >= tmin(t) && v <= tmax(t)) return v; }
      if (o.has_init && r.chance(15)) return as128(t, o.init.u);
      return as128(t, rand_int(r, t));
    }
    return 0;
  }
  std::string pick_str(T t, const Slot *sl, const OpSpec &o) {
    if constexpr (S::generating) {
      Rng &r = src.r;
      if (o.has_init && r.chance(12)) return o.init.s;
      if (sl && sl->st == Prev::Assigned && r.chance(20) && !(t == T::ASCII && sl->v.s.size() > 1 && sl->v.s[0] == 0)) return sl->v.s;
      return rand_str(r, t);
    }
    return "";
  }

  // ------------------------------------------------------------- integers
  // small: sequence lengths. vt: value type.
  void int_field(T vt, const OpSpec &o, bool optional, Value &v, bool small = false) {
    Slot *sl = o.slot >= 0 ? &ds.slots[o.slot] : nullptr;
    int bits = bits_of(vt); bool sg = is_signed_t(vt);
    IntReq q{sg, bits, optional};
    auto check = [&](__int128 x) { if (x < tmin(vt) || x > tmax(vt)) throw Malformed{"integer outside the range of its type"}; };
    v = Value();
    __int128 x = 0;
    auto init = [&](Value &d) { if (o.has_init) { d = o.init; } else d = Value(); };
    switch (o.op) {
    case Op::None: if (get_int(q, x, 20, [&] { return pick_int(vt, small, nullptr, o); })) { check(x); v.present = true; v.u = (uint64_t)x; } break;
    case Op::Constant:
      if (!optional) v = o.init; else if (src.bit({})) v = o.init;
      break;
    case Op::Default:
      if (src.bit({})) { if (get_int(q, x, 25, [&] { return pick_int(vt, small, nullptr, o); })) { check(x); v.present = true; v.u = (uint64_t)x; } }
      else init(v);
      break;
    case Op::Copy: case Op::Increment: {
      BitReq b; 
      if (sl->st == Prev::Undefined) { if (!optional && !o.has_init) b.zero = BitReq::ErrorIfZero; }
      else if (sl->st == Prev::Empty) { if (!optional) b.zero = BitReq::ErrorIfZero; }
      else if (o.op == Op::Increment && as128(vt, sl->v.u) >= tmax(vt)) b.zero = BitReq::MustBeOne;
      else if (small && as128(vt, sl->v.u) > 8) b.zero = BitReq::MustBeOne;
      if (src.bit(b)) {
        if (get_int(q, x, 25, [&] { return pick_int(vt, small, sl, o); })) { check(x); v.present = true; v.u = (uint64_t)x; }
        set(sl, v);
      } else if (sl->st == Prev::Undefined) {
        init(v); set(sl, v);
        if (!v.present && !optional) throw DynError{"D5"};
      } else if (sl->st == Prev::Empty) { if (!optional) throw DynError{"D6"}; }
      else {
        v = sl->v; v.present = true;
        if (o.op == Op::Increment) { __int128 y = as128(vt, v.u) + 1; if (y > tmax(vt)) throw Malformed{"increment beyond the range"}; v.u = (uint64_t)y; set(sl, v); }
      }
      break; }
    case Op::Delta: {
      __int128 base = sl->st == Prev::Assigned ? as128(vt, sl->v.u) : sl->st == Prev::Undefined && o.has_init ? as128(vt, o.init.u) : 0;
      IntReq dq{true, 64, optional};
      if (!get_int(dq, x, 25, [&] { return pick_delta(vt, small, sl, o, base); })) break;
      chk_delta(x);
      if (sl->st == Prev::Empty) throw DynError{"D6"};
      __int128 y = base + x;
      if (bits == 64) { if (y < tmin(vt) || y > tmax(vt)) { wrapped = true; if (sg) y = (int64_t)(uint64_t)y; else y = (uint64_t)y; } }
      check(y); v.present = true; v.u = (uint64_t)y; set(sl, v);
      break; }
    case Op::Tail: throw Malformed{"tail on an integer"};
    }
    if (bits == 32 && !sg) v.u = (uint32_t)v.u;
  }
  // differences of more than 64 bits are outside what coders have to support
  static void chk_delta(__int128 d) { if (d < INT64_MIN || d > INT64_MAX) throw Malformed{"delta of more than 64 bits"}; }
  bool wrapped = false; // a 64 bit delta that is only right modulo 2^64
  __int128 pick_delta(T vt, bool small, const Slot *sl, const OpSpec &o, __int128 base) {
    for (int i = 0; i < 50; ++i) { __int128 t = pick_int(vt, small, sl, o), d = t - base; if (d >= INT64_MIN && d <= INT64_MAX) return d; }
    return 0;
  }
  void set(Slot *sl, const Value &v) { sl->st = v.present ? Prev::Assigned : Prev::Empty; sl->v = v; }

  // --------------------------------------------------- strings and bytes
  void str_field(T vt, const OpSpec &o, bool optional, Value &v) {
    Slot *sl = o.slot >= 0 ? &ds.slots[o.slot] : nullptr;
    v = Value(); std::string s;
    auto init = [&](Value &d) { if (o.has_init) d = o.init; else d = Value(); };
    switch (o.op) {
    case Op::None: if (get_str(vt, optional, s, 20, [&] { return pick_str(vt, nullptr, o); })) { v.present = true; v.s = s; } break;
    case Op::Constant: if (!optional) v = o.init; else if (src.bit({})) v = o.init; break;
    case Op::Default: if (src.bit({})) { if (get_str(vt, optional, s, 25, [&] { return pick_str(vt, nullptr, o); })) { v.present = true; v.s = s; } } else init(v); break;
    case Op::Copy: case Op::Tail: {
      BitReq b; bool tail = o.op == Op::Tail;
      if (sl->st == Prev::Undefined && !optional && !o.has_init) b.zero = BitReq::ErrorIfZero;
      if (sl->st == Prev::Empty && !optional) b.zero = BitReq::ErrorIfZero;
      if (src.bit(b)) {
        std::string base = sl->st == Prev::Assigned ? sl->v.s : o.has_init ? o.init.s : "";
        if (get_str(vt, optional, s, 25, [&] { return tail ? pick_tail(vt, base) : pick_str(vt, sl, o); })) {
          v.present = true;
          if (tail) { size_t k = std::min(s.size(), base.size()); v.s = base.substr(0, base.size() - k) + s; } else v.s = s;
        }
        set(sl, v);
      } else if (sl->st == Prev::Undefined) {
        init(v); set(sl, v);
        if (!v.present && !optional) throw DynError{tail ? "D6" : "D5"};
      } else if (sl->st == Prev::Empty) { if (!optional) throw DynError{tail ? "D7" : "D6"}; }
      else v = sl->v;
      break; }
    case Op::Delta: {
      std::string base = sl->st == Prev::Assigned ? sl->v.s : sl->st == Prev::Undefined && o.has_init ? o.init.s : "";
      __int128 sub;
      if (!get_int({true, 32, optional}, sub, 20, [&] { return pick_sub(base.size()); })) break;
      if (sl->st == Prev::Empty) throw DynError{"D6"};
      if (sub < INT32_MIN || sub > INT32_MAX) throw DynError{"D7"};
      __int128 cut = sub >= 0 ? sub : -(sub + 1);
      if (cut > (__int128)base.size()) throw DynError{"D7"};
      bool lead0 = false;
      get_str(vt, false, s, 0, [&] { return pick_str(vt, nullptr, o); });
      (void)lead0;
      v.present = true;
      v.s = sub >= 0 ? base.substr(0, base.size() - (size_t)cut) + s : s + base.substr((size_t)cut);
      set(sl, v);
      break; }
    default: throw Malformed{"operator not applicable to strings"};
    }
  }
  __int128 pick_sub(size_t n) {
    if constexpr (S::generating) {
      Rng &r = src.r;
      if (r.chance(src.err_pct)) return r.chance(50) ? (__int128)n + 1 + r.below(5) : -(__int128)n - 2 - (__int128)r.below(5);
      __int128 k = r.chance(25) ? 0 : r.chance(20) ? n : r.below(n + 1);
      return r.chance(50) ? k : -(k + 1);
    }
    return 0;
  }
  std::string pick_tail(T vt, const std::string &base) {
    if constexpr (S::generating) {
      Rng &r = src.r;
      std::string s = rand_str(r, vt, r.chance(80) ? 4 : 12);
      if (r.chance(20)) s = rand_str(r, vt, (int)base.size() + 2);
      if (vt == T::ASCII && !s.empty() && s[0] == 0) s = "q";
      return s;
    }
    return "";
  }
  // ------------------------------------------------------------ decimals
  int pick_exp(const Slot *sl, const OpSpec &o) {
    if constexpr (S::generating) {
      Rng &r = src.r;
      if (sl && sl->st == Prev::Assigned && r.chance(30)) return sl->v.e;
      if (o.has_init && r.chance(15)) return o.init.e;
      return (int)(r.chance(70) ? r.range(-9, 9) : r.chance(30) ? (r.chance(50) ? 63 : -63) : r.range(-63, 63));
    }
    return 0;
  }
  void dec_whole(const OpSpec &o, bool optional, Value &v) {
    Slot *sl = o.slot >= 0 ? &ds.slots[o.slot] : nullptr;
    v = Value(); __int128 e = 0, m = 0;
    auto chk = [&](__int128 ee, __int128 mm) { if (ee < -63 || ee > 63) throw Malformed{"exponent outside [-63,63]"}; if (mm < INT64_MIN || mm > INT64_MAX) throw Malformed{"mantissa outside int64"}; };
    auto wire = [&](const Slot *s2, Value &d) {
      if (!get_int({true, 32, optional}, e, 22, [&] { return (__int128)pick_exp(s2, o); })) { d = Value(); return; }
      get_int({true, 64, false}, m, 0, [&] { return pick_int(T::I64, false, s2, o); });
      chk(e, m); d.present = true; d.e = (int)e; d.u = (uint64_t)m;
    };
    switch (o.op) {
    case Op::None: wire(nullptr, v); break;
    case Op::Constant: if (!optional) v = o.init; else if (src.bit({})) v = o.init; break;
    case Op::Default: if (src.bit({})) wire(nullptr, v); else if (o.has_init) v = o.init; break;
    case Op::Copy: {
      BitReq b;
      if ((sl->st == Prev::Undefined && !optional && !o.has_init) || (sl->st == Prev::Empty && !optional)) b.zero = BitReq::ErrorIfZero;
      if (src.bit(b)) { wire(sl, v); set(sl, v); }
      else if (sl->st == Prev::Undefined) { if (o.has_init) v = o.init; set(sl, v); if (!v.present && !optional) throw DynError{"D5"}; }
      else if (sl->st == Prev::Empty) { if (!optional) throw DynError{"D6"}; }
      else v = sl->v;
      break; }
    case Op::Delta: {
      Value base; if (sl->st == Prev::Assigned) base = sl->v; else if (sl->st == Prev::Undefined && o.has_init) base = o.init;
      if (!get_int({true, 32, optional}, e, 22, [&] { return (__int128)pick_exp(sl, o) - base.e; })) break;
      get_int({true, 64, false}, m, 0, [&] { return pick_delta(T::I64, false, sl, o, (__int128)(int64_t)base.u); });
      chk_delta(e); chk_delta(m);
      if (sl->st == Prev::Empty) throw DynError{"D6"};
      __int128 ee = base.e + e, mm = (__int128)(int64_t)base.u + m;
      if (mm < INT64_MIN || mm > INT64_MAX) { wrapped = true; mm = (int64_t)(uint64_t)mm; }
      chk(ee, mm); v.present = true; v.e = (int)ee; v.u = (uint64_t)mm; set(sl, v);
      break; }
    default: throw Malformed{"operator not applicable to decimals"};
    }
  }
  void exp_field(const OpSpec &o, bool optional, Value &v) { // exponent with its own operator
    Slot *sl = o.slot >= 0 ? &ds.slots[o.slot] : nullptr;
    v = Value(); __int128 e = 0;
    auto chk = [&](__int128 x) { if (x < -63 || x > 63) throw Malformed{"exponent outside [-63,63]"}; };
    switch (o.op) {
    case Op::None: if (get_int({true, 32, optional}, e, 22, [&] { return (__int128)pick_exp(nullptr, o); })) { chk(e); v.present = true; v.e = (int)e; } break;
    case Op::Constant: if (!optional) v = o.init; else if (src.bit({})) v = o.init; break;
    case Op::Default: if (src.bit({})) { if (get_int({true, 32, optional}, e, 25, [&] { return (__int128)pick_exp(nullptr, o); })) { chk(e); v.present = true; v.e = (int)e; } } else if (o.has_init) v = o.init; break;
    case Op::Copy: {
      BitReq b;
      if ((sl->st == Prev::Undefined && !optional && !o.has_init) || (sl->st == Prev::Empty && !optional)) b.zero = BitReq::ErrorIfZero;
      if (src.bit(b)) { if (get_int({true, 32, optional}, e, 25, [&] { return (__int128)pick_exp(sl, o); })) { chk(e); v.present = true; v.e = (int)e; } set(sl, v); }
      else if (sl->st == Prev::Undefined) { if (o.has_init) v = o.init; set(sl, v); if (!v.present && !optional) throw DynError{"D5"}; }
      else if (sl->st == Prev::Empty) { if (!optional) throw DynError{"D6"}; }
      else v = sl->v;
      break; }
    case Op::Delta: {
      int base = sl->st == Prev::Assigned ? sl->v.e : sl->st == Prev::Undefined && o.has_init ? o.init.e : 0;
      if (!get_int({true, 32, optional}, e, 22, [&] { return (__int128)pick_exp(sl, o) - base; })) break;
      chk_delta(e);
      if (sl->st == Prev::Empty) throw DynError{"D6"};
      chk(base + e); v.present = true; v.e = (int)(base + e); set(sl, v);
      break; }
    default: throw Malformed{"operator not applicable to an exponent"};
    }
  }

  void field(const Field &f, Value &v) {
    if constexpr (S::generating) { if (++src.ents > 60000) throw Malformed{"generated message too large"}; }
    ++nfields;
    switch (f.t) {
    case T::GROUP: {
      v = Value();
      if (f.optional && !src.bit({})) return;
      v.present = true; v.elems.resize(1);
      segment(f, v.elems[0]); break; }
    case T::SEQ: {
      Value len; v = Value();
      int_field(T::U32, f.len_op, f.optional, len, true);
      if (!len.present) return;
      if (len.u > 100000) throw Malformed{"implausible sequence length"};
      v.present = true;
      for (uint64_t i = 0; i < len.u; ++i) { v.elems.emplace_back(); std::vector<Value> tmp; segment(f, tmp); v.elems[i] = std::move(tmp); }
      break; }
    case T::TREF: {
      v = Value(); v.present = true;
      int saved = ds.active;
      src.pmap_begin(1);
      template_id(depth);
      v.tmpl = ds.active; v.elems.resize(1); int t = ds.active;
      ++depth; fields(sc.t[t].f, v.elems[0]); --depth;
      src.pmap_end(); ds.active = saved;
      break; }
    case T::DEC:
      if (f.indiv) {
        exp_field(f.op, f.optional, v);
        if (v.present) { Value m; int_field(T::I64, f.mop, false, m); v.u = m.u; }
      } else dec_whole(f.op, f.optional, v);
      break;
    case T::BOOL: case T::ENUM: enum_field(f, v); break;
    case T::ASCII: case T::UNI: case T::BYTES: str_field(f.t, f.op, f.optional, v); break;
    case T::VI32: case T::VU32: case T::VI64: case T::VU64: {
      v = Value(); __int128 n = 0;
      if (!get_int({false, 32, f.optional}, n, 25, [&] { return pick_int(T::U32, true, nullptr, f.op); })) return;
      if (n > 100000) throw Malformed{"implausible vector length"};
      T et = f.t == T::VI32 ? T::I32 : f.t == T::VU32 ? T::U32 : f.t == T::VI64 ? T::I64 : T::U64;
      v.present = true;
      for (__int128 i = 0; i < n; ++i) { __int128 x = 0; get_int({is_signed_t(et), bits_of(et), false}, x, 0, [&] { return pick_int(et, false, nullptr, f.op); });
        if (x < tmin(et) || x > tmax(et)) throw Malformed{"vector element outside its type"}; v.iv.push_back((uint64_t)x); }
      break; }
    default: int_field(f.t, f.op, f.optional, v);
    }
    ++cov[(int)f.t][f.t == T::SEQ ? (int)f.len_op.op : (int)f.op.op][v.present];
  }
  void enum_field(const Field &f, Value &v) {
    if constexpr (S::generating) { cur_enum = &f; }
    Slot *sl = f.op.slot >= 0 ? &ds.slots[f.op.slot] : nullptr;
    const OpSpec &o = f.op; bool optional = f.optional;
    v = Value(); __int128 x = 0;
    auto pick = [&]() -> __int128 { if constexpr (S::generating) { size_t i = src.r.below(f.enum_names.size()); return f.enum_vals.empty() ? (__int128)i : (__int128)f.enum_vals[i]; } return 0; };
    auto chk = [&] { bool ok = false; for (size_t i = 0; i < f.enum_names.size(); ++i) ok |= (f.enum_vals.empty() ? i : f.enum_vals[i]) == (uint64_t)x; if (!ok) throw Malformed{"value outside the enumeration"}; };
    auto wire = [&](Value &d) { if (get_int({false, 64, optional}, x, 22, pick)) { chk(); d.present = true; d.u = (uint64_t)x; } else d = Value(); };
    switch (o.op) {
    case Op::None: wire(v); break;
    case Op::Constant: if (!optional) v = o.init; else if (src.bit({})) v = o.init; break;
    case Op::Default: if (src.bit({})) wire(v); else if (o.has_init) v = o.init; break;
    case Op::Copy: {
      BitReq b;
      if ((sl->st == Prev::Undefined && !optional && !o.has_init) || (sl->st == Prev::Empty && !optional)) b.zero = BitReq::ErrorIfZero;
      if (src.bit(b)) { wire(v); set(sl, v); }
      else if (sl->st == Prev::Undefined) { if (o.has_init) v = o.init; set(sl, v); if (!v.present && !optional) throw DynError{"D5"}; }
      else if (sl->st == Prev::Empty) { if (!optional) throw DynError{"D6"}; }
      else v = sl->v;
      break; }
    default: throw Malformed{"operator not applicable to an enumeration"};
    }
  }
  const Field *cur_enum = nullptr;
  uint64_t nfields = 0;
  int depth = 0;
  void segment(const Field &f, std::vector<Value> &out) {
    if (f.pm_bits) src.pmap_begin(f.pm_bits);
    fields(f.sub, out);
    if (f.pm_bits) src.pmap_end();
  }
  void fields(const std::vector<Field> &fs, std::vector<Value> &out) {
    out.assign(fs.size(), Value());
    for (size_t i = 0; i < fs.size(); ++i) field(fs[i], out[i]);
  }
  // generator settings
  int next_template = -1;   // template of the next message, -1: free choice
  bool force_id = false;
  unsigned unknown_id_pct = 0;
  int pick_template(bool nested) {
    if constexpr (S::generating) {
      std::vector<int> c;
      for (size_t i = 0; i < sc.t.size(); ++i) {
        // nested templates must themselves stay shallow
        if (nested && (sc.t[i].reset || (has_tref(sc.t[i].f) && depth >= 3))) continue;
        c.push_back((int)i);
      }
      if (c.empty()) return -1;
      return c[src.r.below(c.size())];
    }
    return -1;
  }
  static bool has_tref(const std::vector<Field> &fs) { for (auto &f : fs) if (f.t == T::TREF || has_tref(f.sub)) return true; return false; }
  void template_id(bool nested) {
    if constexpr (S::generating) {
      int want = next_template >= 0 && !nested ? next_template : pick_template(nested);
      Rng &r = src.r;
      if (unknown_id_pct && r.chance(unknown_id_pct)) {
        src.set_bit(true); uint32_t id; do id = (uint32_t)r.below(100000); while (find(id) >= 0);
        S::put_int(src.out, {false, 32, false}, false, id); ds.active = -1; throw DynError{"D9"};
      }
      if (want < 0) want = ds.active >= 0 ? ds.active : 0;
      bool send = force_id || want != ds.active || r.chance(40);
      force_id = false;
      src.set_bit(send);
      if (send) { S::put_int(src.out, {false, 32, false}, false, sc.t[want].id); ds.active = want; }
    } else {
      if (src.bit({})) {
        __int128 id; src.integer({false, 32, false}, id);
        int t = id >= 0 && id <= UINT32_MAX ? find((uint32_t)id) : -1;
        if (t < 0) throw DynError{"D9"};
        ds.active = t;
      }
      if (ds.active < 0) throw DynError{"D9"};
    }
  }
  int find(uint32_t id) const { for (size_t i = 0; i < sc.t.size(); ++i) if (sc.t[i].id == id) return (int)i; return -1; }
  // decode one message
  Message message(bool force_reset) {
    depth = 0;
    src.pmap_begin(1);
    template_id(false);
    int t = ds.active;
    if (force_reset || sc.t[t].reset) reset();
    Message m; m.tmpl = t;
    depth = 1;
    fields(sc.t[t].f, m.f);
    src.pmap_end();
    return m;
  }
  // generating only: flush open segments after a dynamic error
  void close_all() { if constexpr (S::generating) while (!src.pm.empty()) src.pmap_end(); }
};
} // namespace vf
