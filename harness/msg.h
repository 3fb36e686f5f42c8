// Bridges FV values and real mFAST messages; uniform access to the v1 and v2 codecs.
#pragma once
#include "spec.h"
#include <mfast.h>
#include <mfast/coder/fast_encoder.h>
#include <mfast/coder/fast_decoder.h>
#include <mfast/coder/fast_encoder_v2.h>
#include <mfast/coder/fast_decoder_v2.h>
#include <tuple>

inline void set_field(const mfast::field_mref &f, Ty t, const FV &v) {
  using namespace mfast;
  if (!v.present) { f.omit(); return; }
  switch (t) {
  case T_U32: uint32_mref(f).as((uint32_t)v.i); break;
  case T_I32: int32_mref(f).as((int32_t)v.i); break;
  case T_U64: uint64_mref(f).as((uint64_t)v.i); break;
  case T_I64: int64_mref(f).as((int64_t)v.i); break;
  case T_DEC: case T_SDEC: decimal_mref(f).as((int64_t)v.i, (int16_t)v.e); break;
  case T_ASC: ascii_string_mref(f).assign((const char *)v.s, (const char *)v.s + v.len); break;
  case T_UNI: unicode_string_mref(f).assign((const char *)v.s, (const char *)v.s + v.len); break;
  case T_BV: byte_vector_mref(f).assign(v.s, v.s + v.len); break;
  }
}
inline FV get_field(const mfast::field_cref &f, Ty t) {
  using namespace mfast;
  FV o;
  if (f.absent()) return o;
  o.present = true;
  auto str = [&](const void *d, std::size_t n) {
    n = symx_concretize(n);
    o.len = (uint32_t)n;
    for (std::size_t k = 0; k < n && k < MAXS; k++) o.s[k] = ((const uint8_t *)d)[k];
  };
  switch (t) {
  case T_U32: o.i = uint32_cref(f).value(); break;
  case T_I32: o.i = (uint64_t)(int64_t)int32_cref(f).value(); break;
  case T_U64: o.i = uint64_cref(f).value(); break;
  case T_I64: o.i = (uint64_t)int64_cref(f).value(); break;
  case T_DEC: case T_SDEC: o.i = (uint64_t)decimal_cref(f).mantissa(); o.e = decimal_cref(f).exponent(); break;
  case T_ASC: { ascii_string_cref c(f); str(c.data(), c.size()); break; }
  case T_UNI: { unicode_string_cref c(f); str(c.data(), c.size()); break; }
  case T_BV: { byte_vector_cref c(f); str(c.data(), c.size()); break; }
  }
  return o;
}

// integers of a restricted domain: 256 values around zero and 8 at each end of the type's range
inline uint64_t window_int(const char *nm, const char *kindnm, Ty t) {
  unsigned k = choose(0, is_signed_ty(t) || t == T_DEC ? 2 : 1, kindnm);
  uint8_t x = sym<uint8_t>(nm);
  if (k == 0) return is_signed_ty(t) || t == T_DEC ? (uint64_t)(int64_t)(int8_t)x : x;
  symx_assume(x < 8);
  uint64_t hi = t == T_U32 ? 0xffffffffu : t == T_U64 ? ~0ull : t == T_I32 ? 0x7fffffffu : 0x7fffffffffffffffull;
  if (k == 1) return hi - x;
  return (t == T_I32 ? (uint64_t)(int64_t)INT32_MIN : (uint64_t)INT64_MIN) + x;
}
// a symbolic value of a field, within the domain the wire format can carry
inline FV sym_value(const FSpec &f, const char *nm, unsigned maxlen, int dom = 0) {
  FV v;
  char n[16]; std::size_t l = 0; while (nm[l] && l < 12) { n[l] = nm[l]; l++; } n[l + 1] = 0;
  auto nn = [&](char c) { n[l] = c; return (const char *)n; };
  if (f.opt) { v.present = flip(nn('p')); if (!v.present) return FV(); } else v.present = true;
  if (f.op == O_CONST && f.ty != T_SDEC) return f.init;
  if (dom == 1 && is_int(f.ty)) {
    char kn[16]; for (std::size_t q = 0; q < 16; q++) kn[q] = n[q];
    kn[l] = 'k';
    v.i = window_int(nn('v'), kn, f.ty);
    return v;
  }
  if (dom >= 1 && (f.ty == T_DEC || f.ty == T_SDEC)) {
    char kn[16]; for (std::size_t q = 0; q < 16; q++) kn[q] = n[q];
    kn[l] = 'k';
    if (dom == 2) v.i = (uint64_t)(int64_t)(int8_t)sym<uint8_t>(nn('m'));
    else v.i = window_int(nn('m'), kn, T_DEC);
    uint8_t e = sym<uint8_t>(nn('e'));
    symx_assume(e < (dom == 2 ? 3 : 4));
    v.e = (int)e - 2;
    if (f.ty == T_SDEC && f.op == O_CONST) v.e = (int32_t)(int64_t)f.init.i;
    if (f.ty == T_SDEC && f.mop == O_CONST) v.i = f.minit.i;
    return v;
  }
  switch (f.ty) {
  case T_U32: v.i = sym<uint32_t>(nn('v')); break;
  case T_I32: v.i = (uint64_t)(int64_t)sym<int32_t>(nn('v')); break;
  case T_U64: v.i = sym<uint64_t>(nn('v')); break;
  case T_I64: v.i = sym<uint64_t>(nn('v')); break;
  case T_DEC: case T_SDEC: {
    v.i = sym<uint64_t>(nn('m'));
    int8_t e = sym<int8_t>(nn('e'));
    symx_assume(e >= -63 && e <= 63);
    v.e = e;
    if (f.ty == T_SDEC && f.op == O_CONST) v.e = (int32_t)(int64_t)f.init.i;
    if (f.ty == T_SDEC && f.mop == O_CONST) v.i = f.minit.i;
    break;
  }
  default:
    v.len = choose(0, maxlen, nn('l'));
    symx_make_symbolic(v.s, v.len ? v.len : 1, nn('s'));
    if (v.len == 0) v.s[0] = 0;
    if (f.ty == T_ASC) {
      for (unsigned k = 0; k < v.len; k++) symx_assume(v.s[k] < 0x80);
      if (v.len) symx_assume(v.s[0] != 0);
    }
  }
  return v;
}
inline void log_fv(Ty t, const FV &v) {
  symx_log(v.present);
  if (!v.present) return;
  if (is_str(t)) { symx_log(v.len); for (unsigned k = 0; k < v.len && k < MAXS; k++) symx_log(v.s[k]); }
  else { symx_log(v.i); if (t == T_DEC || t == T_SDEC) symx_log((uint64_t)(int64_t)v.e); }
}

// ---- codecs -----------------------------------------------------------------------------------
struct Enc {
  virtual ~Enc() {}
  virtual std::size_t encode(const mfast::message_cref &m, char *b, std::size_t n, bool reset) = 0;
  virtual void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) = 0;
  virtual void overlong(bool v) = 0;
};
struct Dec { virtual ~Dec() {} virtual mfast::message_cref decode(const char *&f, const char *l, bool reset) = 0; };

struct Enc1 : Enc {
  mfast::fast_encoder e;
  Enc1(const mfast::templates_description *d) : e(mfast::malloc_allocator::instance()) { e.include({d}); }
  std::size_t encode(const mfast::message_cref &m, char *b, std::size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) override { e.encode(m, b, reset); }
  void overlong(bool v) override { e.allow_overlong_pmap(v); }
};
struct Dec1 : Dec {
  mfast::fast_decoder e;
  Dec1(const mfast::templates_description *d) { e.include({d}); }
  mfast::message_cref decode(const char *&f, const char *l, bool reset) override { return e.decode(f, l, reset); }
};
struct Enc2 : Enc {
  mfast::fast_encoder_v2 e;
  template <class D> Enc2(const D *d) : e(d) {}
  std::size_t encode(const mfast::message_cref &m, char *b, std::size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) override { e.encode(m, b, reset); }
  void overlong(bool v) override { e.allow_overlong_pmap(v); }
};
struct Dec2 : Dec {
  mfast::fast_decoder_v2<0> e;
  template <class D> Dec2(const D *d) : e(d) {}
  mfast::message_cref decode(const char *&f, const char *l, bool reset) override { return e.decode(f, l, reset); }
};
// a description made of chosen messages of a generated set
template <class... M> struct some_desc : mfast::templates_description {
  typedef std::tuple<M...> types;
  const mfast::template_instruction *ins[sizeof...(M)];
  static const mfast::template_instruction *(&arr())[sizeof...(M)] {
    static const mfast::template_instruction *a[sizeof...(M)] = {M::instruction()...};
    return a;
  }
  some_desc() : mfast::templates_description("", "", "", arr()) {}
};
struct Codec {
  const mfast::template_instruction *ins;
  const mfast::templates_description *desc;
  Enc *(*enc2)(const void *);
  Dec *(*dec2)(const void *);
  Enc *enc(int ver) const { return ver == 1 ? new Enc1(desc) : enc2(desc); }
  Dec *dec(int ver) const { return ver == 1 ? new Dec1(desc) : dec2(desc); }
};
template <class D> Codec codec_of() {
  D *d = new D;
  return Codec{*d->begin(), d, [](const void *p) -> Enc * { return new Enc2(static_cast<const D *>(static_cast<const mfast::templates_description *>(p))); },
               [](const void *p) -> Dec * { return new Dec2(static_cast<const D *>(static_cast<const mfast::templates_description *>(p))); }};
}

// ---- output buffers and failures ----------------------------------------------------------------
// m0 (may be null) is encoded first; m1 then goes into a buffer of every size, and into a vector with earlier content.
// After a failure, a message with reset must be encoded as if the failing one had never been there.
inline uint8_t diff(const char *a, const char *b, std::size_t n) { uint8_t d = 0; for (std::size_t q = 0; q < n; q++) d |= (uint8_t)(a[q] ^ b[q]); return d; }
template <class MkEnc>
inline void encoder_buffers(MkEnc mk, bool overlong, const mfast::message_type *m0, const mfast::message_type &m1, bool reset1, const mfast::message_type &m2) {
  const std::size_t CAP = 192;
  auto start = [&]() { Enc *e = mk(); if (!overlong) e->overlong(false); if (m0) { char b[CAP]; try { e->encode(m0->cref(), b, CAP, true); } catch (mfast::fast_error &) { symx_cover("end"); symx_end(); } } return e; };
  char ref[CAP];
  std::size_t n = 0;
  bool refused = false;
  Enc *a = start();
  try { n = symx_concretize(a->encode(m1.cref(), ref, CAP, reset1)); } catch (mfast::fast_error &) { refused = true; }
  CHECK(refused || (n >= 1 && n <= CAP), "buf: length in range");
  bool vec = flip("vector"), failed = false;
  Enc *e = start();
  if (vec) {
    std::size_t k = choose(0, 2, "before");
    std::vector<char> v(k, (char)0x5a);
    try { e->encode(m1.cref(), v, reset1); } catch (mfast::fast_error &) { failed = true; }
    CHECK(failed == refused, "buf: accepted or refused as with a large buffer");
    CHECK(v.size() == k + n, "buf: the message is appended to the vector, nothing else");
    for (std::size_t q = 0; q < k; q++) CHECK(v[q] == (char)0x5a, "buf: earlier content of the vector");
    if (!failed) CHECK(diff(v.data() + k, ref, n) == 0, "buf: same bytes in a vector");
  } else {
    std::size_t sz = choose(1, (unsigned)(refused ? 24 : n + 1), "size");
    char *buf = new char[sz];
    std::size_t r = 0;
    bool over = false;
    try { r = e->encode(m1.cref(), buf, sz, reset1); }
    catch (mfast::buffer_overflow_error &) { failed = over = true; }
    catch (mfast::fast_error &) { failed = true; }
    if (!refused) {
      if (sz < n) CHECK(over, "buf: too small a buffer is reported");
      else if (overlong) CHECK(!failed, "buf: a buffer that is large enough is accepted");
      if (!failed) { CHECK(r == n, "buf: same length"); CHECK(diff(buf, ref, n) == 0, "buf: same bytes"); }
    } else CHECK(failed, "buf: refused as with a large buffer");
    delete[] buf;
  }
  symx_cover(failed ? "failed" : "fits");
  // carry on: after a failure with a reset, as an encoder that has not seen m1
  Enc *b = failed ? start() : a;
  char x[CAP], y[CAP];
  std::size_t nx = 0, ny = 0;
  bool fx = false, fy = false;
  try { nx = e->encode(m2.cref(), x, CAP, failed); } catch (mfast::fast_error &) { fx = true; }
  try { ny = b->encode(m2.cref(), y, CAP, failed); } catch (mfast::fast_error &) { fy = true; }
  CHECK(fx == fy, "buf: the next message is accepted alike");
  if (!fx && !fy) {
    nx = symx_concretize(nx); ny = symx_concretize(ny);
    CHECK(nx == ny, "buf: length of the next message");
    if (nx == ny) CHECK(diff(x, y, nx) == 0, "buf: the next message");
  }
  symx_cover("end");
}
