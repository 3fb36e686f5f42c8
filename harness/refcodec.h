// Reference FAST 1.1 decoder (sections 6.3 and 10 of the specification) and reference encoder.
#pragma once
#include "spec.h"

enum Status { S_OK, S_ERR, S_UNSPEC, S_RANGE }; // S_UNSPEC: the specification leaves the outcome open (reportable errors); S_RANGE: ERR D2

struct DictEntry { int st = 0; FV v; }; // 0 undefined, 1 empty, 2 assigned
struct FDict { DictEntry f, m; };       // main (or exponent) entry, mantissa entry

struct RD { // reader
  const uint8_t *p, *end;
  Status st = S_OK;
  bool ok() const { return st == S_OK; }
  void fail(Status s) { if (st == S_OK) st = s; }
  // stop-bit coded integer; returns 65-bit-safe value in (hi,lo)
  bool u(uint64_t &v, unsigned bits, bool nullable, bool &null) {
    null = false; v = 0;
    unsigned n = 0; bool over = false, wide = false;
    for (;;) {
      if (p >= end) { fail(S_ERR); return false; }
      uint8_t c = *p++;
      if (n == 0 && c == 0) over = true;
      if (v >> 57) wide = true;
      v = (v << 7) | (c & 0x7f);
      n++;
      if (c & 0x80) break;
    }
    if (over) { fail(S_UNSPEC); return false; }
    if (nullable) {
      if (wide) { // only 2^64 exactly is representable beyond 64 bits
        fail(v == 0 && bits == 64 ? S_UNSPEC : S_RANGE);
        return false;
      }
      if (v == 0) { null = true; return true; }
      v -= 1;
    } else if (wide) { fail(S_RANGE); return false; }
    if (bits == 32 && (v >> 32)) { fail(S_RANGE); return false; }
    return true;
  }
  bool i(int64_t &r, unsigned bits, bool nullable, bool &null) {
    null = false;
    unsigned n = 0; bool over = false, wide = false;
    uint64_t v = 0; uint8_t first = 0, c;
    for (;;) {
      if (p >= end) { fail(S_ERR); return false; }
      c = *p++;
      if (n == 0) { first = c; if (c & 0x40) v = ~0ull; }
      if (n == 1 && ((first == 0 && !(c & 0x40)) || (first == 0x7f && (c & 0x40)))) over = true;
      int64_t top = (int64_t)v >> 56; // the bits that must agree with the sign after the shift
      if (top != 0 && top != -1) wide = true;
      v = (v << 7) | (c & 0x7f);
      n++;
      if (c & 0x80) break;
    }
    if (over) { fail(S_UNSPEC); return false; }
    if (wide) { fail(nullable && bits == 64 ? S_UNSPEC : S_RANGE); return false; }
    r = (int64_t)v;
    if (nullable) { if (r == 0) { null = true; return true; } if (r > 0) r -= 1; }
    if (bits == 32 && r != (int64_t)(int32_t)r) { fail(S_RANGE); return false; }
    return true;
  }
  bool str(Ty t, FV &o, bool nullable) { // o.present=false on NULL
    o = FV();
    if (t == T_ASC) {
      unsigned n = 0; uint8_t buf[MAXS + 4];
      for (;;) {
        if (p >= end) { fail(S_ERR); return false; }
        uint8_t c = *p++;
        if (n >= sizeof buf) { fail(S_UNSPEC); return false; }
        buf[n++] = c & 0x7f;
        if (c & 0x80) break;
      }
      o.present = true;
      unsigned k = 0;
      if (buf[0] == 0) { // zero preamble
        for (unsigned j = 1; j < n; j++) if (buf[j]) { fail(S_UNSPEC); return false; } // overlong (R9)
        if (nullable) {
          if (n == 1) { o.present = false; return true; }
          if (n > 3) { fail(S_UNSPEC); return false; }
          o.len = n - 2;
        } else { if (n > 2) { fail(S_UNSPEC); return false; } o.len = n - 1; }
        return true;
      }
      if (n > MAXS) { fail(S_UNSPEC); return false; }
      for (; k < n; k++) o.s[k] = buf[k];
      o.len = n;
      return true;
    }
    uint64_t n; bool null;
    if (!u(n, 32, nullable, null)) return false;
    if (null) return true;
    if (n > (uint64_t)(end - p)) { fail(S_ERR); return false; }
    n = symx_concretize(n);
    if (n > MAXS) { fail(S_UNSPEC); return false; }
    o.present = true; o.len = (uint32_t)n;
    for (unsigned k = 0; k < n; k++) o.s[k] = *p++;
    return true;
  }
  bool val(Ty t, FV &o, bool nullable) {
    o = FV(); bool null = false;
    switch (t) {
    case T_U32: case T_U64: { uint64_t v; if (!u(v, t == T_U32 ? 32 : 64, nullable, null)) return false; o.present = !null; o.i = null ? 0 : v; return true; }
    case T_I32: case T_I64: { int64_t v; if (!i(v, t == T_I32 ? 32 : 64, nullable, null)) return false; o.present = !null; o.i = null ? 0 : (uint64_t)v; return true; }
    case T_DEC: {
      int64_t e, m; bool n2;
      if (!i(e, 32, nullable, null)) return false;
      if (null) return true;
      if (e < -63 || e > 63) { fail(S_UNSPEC); return false; } // R1
      if (!i(m, 64, false, n2)) return false;
      o.present = true; o.e = (int32_t)e; o.i = (uint64_t)m; return true;
    }
    default: return str(t, o, nullable);
    }
  }
};

struct PM { // presence map bits
  const uint8_t *p = nullptr; unsigned n = 0, pos = 0;
  void read(RD &r) {
    p = r.p; n = 0;
    for (;;) {
      if (r.p >= r.end) { r.fail(S_ERR); return; }
      n++;
      if (*r.p++ & 0x80) break;
    }
  }
  bool next() { unsigned k = pos++; if (k / 7 >= n) return false; return (p[k / 7] >> (6 - k % 7)) & 1; }
};

// decodes one scalar field according to its operator
inline bool ref_scalar(RD &r, PM &pm, Ty t, Op op, bool opt, const FV &init, DictEntry &d, FV &o) {
  o = FV();
  switch (op) {
  case O_NONE: return r.val(t, o, opt);
  case O_CONST: if (opt && !pm.next()) return true; o = init; return true;
  case O_DEF: if (pm.next()) return r.val(t, o, opt); o = init; return true;
  case O_COPY: case O_INC:
    if (pm.next()) { if (!r.val(t, o, opt)) return false; }
    else if (d.st == 0) { if (!init.present && !opt) { r.fail(S_ERR); return false; } o = init; }
    else if (d.st == 1) { if (!opt) { r.fail(S_ERR); return false; } return true; }
    else {
      o = d.v;
      if (op == O_INC) {
        o.i += 1;
        if (t == T_U32) o.i &= 0xffffffffu;
        if (t == T_I32) o.i = (uint64_t)(int64_t)(int32_t)(uint32_t)o.i;
      }
    }
    d.st = o.present ? 2 : 1; d.v = o;
    return true;
  case O_DELTA: {
    if (is_int(t)) {
      int64_t dv; bool null;
      if (!r.i(dv, 64, opt, null)) return false;
      if (null) return true;
      if (d.st == 1) { r.fail(S_ERR); return false; }
      FV b = d.st == 2 ? d.v : (init.present ? init : iv_int(0));
      o.present = true; o.i = b.i + (uint64_t)dv;
      // R4: result outside the field's range is an error, reporting it is optional
      bool wrap;
      if (t == T_U32) { wrap = (int64_t)dv > (1ll << 33) || (int64_t)dv < -(1ll << 33) || (o.i >> 32) != 0; }
      else if (t == T_I32) { wrap = (int64_t)dv > (1ll << 33) || (int64_t)dv < -(1ll << 33) || (int64_t)o.i != (int64_t)(int32_t)o.i; }
      else if (t == T_U64) wrap = dv >= 0 ? o.i < b.i : o.i > b.i;
      else wrap = dv >= 0 ? (int64_t)o.i < (int64_t)b.i : (int64_t)o.i > (int64_t)b.i;
      if (wrap) { r.fail(S_UNSPEC); return false; }
    } else if (t == T_DEC) {
      int64_t de, dm; bool null, n2;
      if (!r.i(de, 64, opt, null)) return false;
      if (null) return true;
      if (!r.i(dm, 64, false, n2)) return false;
      if (d.st == 1) { r.fail(S_ERR); return false; }
      FV b = d.st == 2 ? d.v : (init.present ? init : iv_dec(0, 0));
      int64_t e = (int64_t)b.e + de; int64_t m = (int64_t)(b.i + (uint64_t)dm);
      if (de < -200 || de > 200 || e < -63 || e > 63) { r.fail(S_UNSPEC); return false; }
      if (dm >= 0 ? m < (int64_t)b.i : m > (int64_t)b.i) { r.fail(S_UNSPEC); return false; }
      o.present = true; o.e = (int32_t)e; o.i = (uint64_t)m;
    } else {
      int64_t sub; bool null; FV ds;
      if (!r.i(sub, 32, opt, null)) return false;
      if (null) return true;
      if (!r.str(t, ds, false)) return false;
      if (d.st == 1) { r.fail(S_ERR); return false; }
      FV b = d.st == 2 ? d.v : (init.present ? init : iv_str("", 0));
      uint64_t k = sub < 0 ? (uint64_t)~sub : (uint64_t)sub;
      if (k > b.len) { r.fail(S_ERR); return false; }
      k = symx_concretize(k);
      uint32_t keep = b.len - (uint32_t)k;
      if (keep + ds.len > MAXS) { r.fail(S_UNSPEC); return false; }
      o.present = true; o.len = keep + ds.len;
      if (sub >= 0) { for (uint32_t j = 0; j < keep; j++) o.s[j] = b.s[j]; for (uint32_t j = 0; j < ds.len; j++) o.s[keep + j] = ds.s[j]; }
      else { for (uint32_t j = 0; j < ds.len; j++) o.s[j] = ds.s[j]; for (uint32_t j = 0; j < keep; j++) o.s[ds.len + j] = b.s[k + j]; }
    }
    d.st = 2; d.v = o;
    return true;
  }
  case O_TAIL:
    if (pm.next()) {
      FV ts;
      if (!r.str(t, ts, opt)) return false;
      if (ts.present) {
        FV b = d.st == 2 ? d.v : (init.present ? init : iv_str("", 0));
        uint32_t keep = b.len > ts.len ? b.len - ts.len : 0;
        if (keep + ts.len > MAXS) { r.fail(S_UNSPEC); return false; }
        o.present = true; o.len = keep + ts.len;
        for (uint32_t j = 0; j < keep; j++) o.s[j] = b.s[j];
        for (uint32_t j = 0; j < ts.len; j++) o.s[keep + j] = ts.s[j];
      }
    } else if (d.st == 0) { if (!init.present && !opt) { r.fail(S_ERR); return false; } o = init; }
    else if (d.st == 1) { if (!opt) { r.fail(S_ERR); return false; } return true; }
    else o = d.v;
    d.st = o.present ? 2 : 1; d.v = o;
    return true;
  }
  return false;
}

inline bool ref_field(RD &r, PM &pm, const FSpec &f, FDict &d, FV &o) {
  if (f.ty != T_SDEC) return ref_scalar(r, pm, f.ty, f.op, f.opt, f.init, d.f, o);
  FV e, m;
  o = FV();
  if (!ref_scalar(r, pm, T_I32, f.op, f.opt, f.init, d.f, e)) return false;
  if (!e.present) return true;
  if ((int64_t)e.i < -63 || (int64_t)e.i > 63) { r.fail(S_UNSPEC); return false; }
  if (!ref_scalar(r, pm, T_I64, f.mop, false, f.minit, d.m, m)) return false;
  o.present = true; o.e = (int32_t)e.i; o.i = m.i;
  return true;
}

// does the field occupy a presence map bit / how many
inline unsigned ref_pmap_bits(const FSpec &f) {
  auto b = [](Op op, bool opt) -> unsigned { switch (op) { case O_NONE: case O_DELTA: return 0; case O_CONST: return opt; default: return 1; } };
  return b(f.op, f.opt) + (f.ty == T_SDEC ? b(f.mop, false) : 0);
}
