// SETS: t_js
// MODELS: models_io
// SRC:
#include "spec_t_js.h"
#include "tree.h"
#include <mfast/json/json.h>
#include <streambuf>
#include <istream>
#include <ostream>
static const TSet the_set = {spec_t_js::tpls, spec_t_js::ntpl, spec_t_js::nkeys};
typedef t_js::templates_description Desc;

struct OutBuf : std::streambuf {
  char b[768];
  OutBuf() { setp(b, b + sizeof b); }
  std::size_t size() const { return (std::size_t)(pptr() - pbase()); }
};
struct InBuf : std::streambuf {
  InBuf(char *b, std::size_t n) { setg(b, b, b + n); }
  std::size_t used() const { return (std::size_t)(gptr() - eback()); }
};

// ---- reference: a strict reader of JSON (ECMA-404) driven by the template ----------------------------
inline void norm(FV &v) { // decimals are compared by value
  if (v.i == 0) { v.e = 0; return; }
  while ((int64_t)v.i % 10 == 0) { v.i = (uint64_t)((int64_t)v.i / 10); v.e++; }
}
struct JS {
  const char *p, *e;
  bool bad = false;
  JS(const char *b, std::size_t n) : p(b), e(b + n) {}
  virtual ~JS() {}
  int peek() { return p < e ? (int)(unsigned char)*p : -1; }
  bool ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; return true; }
  bool lit(char c) { ws(); if (peek() != (unsigned char)c) { bad = true; return false; } p++; return true; }
  bool next_is(char c) { ws(); return peek() == (unsigned char)c; }
  static int hexd(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  bool hex4(unsigned &v) { v = 0; for (int k = 0; k < 4; k++) { int h = hexd(peek()); if (h < 0) { bad = true; return false; } v = v * 16 + (unsigned)h; p++; } return true; }
  template <class F> bool string(F put) {
    if (!lit('"')) return false;
    for (;;) {
      int c = peek();
      if (c < 0x20) { bad = true; return false; }
      p++;
      if (c == '"') return true;
      if (c != '\\') { put((uint8_t)c); continue; }
      c = peek(); if (c < 0) { bad = true; return false; }
      p++;
      switch (c) {
      case '"': case '\\': case '/': put((uint8_t)c); break;
      case 'b': put(8); break;
      case 'f': put(12); break;
      case 'n': put(10); break;
      case 'r': put(13); break;
      case 't': put(9); break;
      case 'u': {
        unsigned v;
        if (!hex4(v)) return false;
        if (v >= 0xd800 && v < 0xe000) {
          unsigned w = 0;
          if (v >= 0xdc00 || e - p < 6 || p[0] != '\\' || p[1] != 'u') { bad = true; return false; }
          p += 2;
          if (!hex4(w)) return false;
          if (w < 0xdc00 || w >= 0xe000) { bad = true; return false; }
          v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
          put((uint8_t)(0xf0 | v >> 18)); put((uint8_t)(0x80 | (v >> 12 & 63))); put((uint8_t)(0x80 | (v >> 6 & 63))); put((uint8_t)(0x80 | (v & 63)));
        } else if (v < 0x80) put((uint8_t)v);
        else if (v < 0x800) { put((uint8_t)(0xc0 | v >> 6)); put((uint8_t)(0x80 | (v & 63))); }
        else { put((uint8_t)(0xe0 | v >> 12)); put((uint8_t)(0x80 | (v >> 6 & 63))); put((uint8_t)(0x80 | (v & 63))); }
        break;
      }
      default: bad = true; return false;
      }
    }
  }
  bool number(FV &v, bool integer) {
    ws();
    bool neg = false, any = false;
    uint64_t m = 0; int ex = 0;
    if (peek() == '-') { neg = true; p++; }
    auto digit = [&]() { int c = peek(); return c >= '0' && c <= '9'; };
    if (!digit()) { bad = true; return false; }
    if (p + 1 < e && p[1] >= '0' && p[1] <= '9' && *p == '0') { bad = true; return false; }
    int zeros = 0; // digits that do not fit may only be zeros
    while (digit()) { unsigned d = (unsigned)(*p - '0'); if (m > ~0ull / 10 || (m == ~0ull / 10 && d > ~0ull % 10) || zeros) { if (d) { bad = true; return false; } zeros++; } else m = m * 10 + d; p++; }
    ex += zeros;
    if (!integer && peek() == '.') {
      p++;
      if (!digit()) { bad = true; return false; }
      while (digit()) { m = m * 10 + (unsigned)(*p - '0'); ex--; p++; }
    }
    if (!integer && (peek() == 'e' || peek() == 'E')) {
      p++;
      bool en = false; int x = 0;
      if (peek() == '-' || peek() == '+') { en = peek() == '-'; p++; }
      if (!digit()) { bad = true; return false; }
      while (digit()) { x = x * 10 + (*p - '0'); p++; }
      ex += en ? -x : x;
    }
    (void)any;
    v = FV(); v.present = true; v.i = neg ? 0 - m : m; v.e = ex;
    if (integer && zeros) { bad = true; return false; }
    return true;
  }
  virtual bool member(const mfast::field_instruction *fi, const TNode &t, Flat &o) {
    switch (t.k) {
    case K_FIELD: {
      FV v; v.present = true;
      if (is_int(t.f.ty)) { if (!number(v, true)) return false; }
      else if (t.f.ty == T_DEC || t.f.ty == T_SDEC) { if (!number(v, false)) return false; norm(v); }
      else if (t.f.ty == T_BV) {
        int hi = -1;
        if (!string([&](uint8_t c) { if (c == '-' && hi < 0) return; int h = hexd(c); if (h < 0) { bad = true; return; } if (hi < 0) hi = h; else { if (v.len < 20) v.s[v.len < MAXS ? v.len : MAXS - 1] = (uint8_t)(hi * 16 + h); v.len++; hi = -1; } })) return false;
        if (hi >= 0 || bad) { bad = true; return false; }
      } else if (!string([&](uint8_t c) { if (v.len < MAXS) v.s[v.len] = c; v.len++; })) return false;
      o.put(v);
      return true;
    }
    case K_VEC: {
      if (!lit('[')) return false;
      int at = o.n, n = 0;
      o.num(0);
      if (next_is(']')) { p++; return true; }
      for (;;) {
        FV v; if (!number(v, true)) return false;
        o.put(v); n++;
        if (next_is(',')) { p++; continue; }
        if (!lit(']')) return false;
        o.v[at].i = (uint64_t)n;
        return true;
      }
    }
    case K_GROUP: if (t.opt) o.num(1); return object(static_cast<const mfast::group_field_instruction *>(fi), t.ch, t.nch, o);
    case K_SEQ: {
      if (!lit('[')) return false;
      int at = o.n, n = 0;
      o.num(0);
      if (next_is(']')) { p++; return true; }
      for (;;) {
        auto *gi = static_cast<const mfast::group_field_instruction *>(fi);
        if (t.nch == 1 && gi->subinstruction(0)->name()[0] == 0) { if (!member(gi->subinstruction(0), t.ch[0], o)) return false; }
        else if (!object(gi, t.ch, t.nch, o)) return false;
        n++;
        if (next_is(',')) { p++; continue; }
        if (!lit(']')) return false;
        o.v[at].i = (uint64_t)n;
        return true;
      }
    }
    default: bad = true; return false;
    }
  }
  static void absent(const TNode &t, Flat &o) { if (t.k == K_GROUP && t.opt) o.num(0); else o.put(FV()); }
  // members in the order of the fields
  virtual bool object(const mfast::group_field_instruction *gi, const TNode *ch, int n, Flat &o) {
    if (!lit('{')) return false;
    int i = 0;
    if (next_is('}')) p++;
    else for (;;) {
      char nm[16]; unsigned l = 0;
      if (!string([&](uint8_t c) { if (l < 15) nm[l++] = (char)c; })) return false;
      nm[l] = 0;
      if (!lit(':')) return false;
      while (i < n && strcmp(gi->subinstruction((std::size_t)i)->name(), nm) != 0) { absent(ch[i], o); i++; }
      if (i >= n) { bad = true; return false; }
      if (!member(gi->subinstruction((std::size_t)i), ch[i], o)) return false;
      i++;
      if (next_is(',')) { p++; continue; }
      if (!lit('}')) return false;
      break;
    }
    for (; i < n; i++) absent(ch[i], o);
    return true;
  }
};

// ---- values ------------------------------------------------------------------------------------
struct JReal : Real {
  bool wide; // one field with all kinds of values; otherwise digits, short strings
  unsigned len;
  JReal(const TSet &s, const mfast::templates_description *d) : Real(s, d), wide(symx_param("wide", 0)), len((unsigned)symx_param("len", 1)) {}
  uint64_t corner(Ty t) {
    uint64_t hi = t == T_U32 ? 0xffffffffu : t == T_U64 ? ~0ull : t == T_I32 ? 0x7fffffffu : 0x7fffffffffffffffull;
    bool sg = is_signed_ty(t) || t == T_DEC;
    unsigned k = choose(0, 22, "k");
    if (k == 22) return hi;
    if (k == 21) return hi - 1;
    uint64_t p = 1;
    for (unsigned i = 0; i < (k == 20 ? 1 : k); i++) { if (p > hi / 10) symx_assume(0); p *= 10; }
    bool neg = sg && choose(0, 1, "neg");
    if (neg && k == 20) { if (t == T_I32) return (uint64_t)(int64_t)INT32_MIN; return (uint64_t)INT64_MIN; }
    uint64_t v = p - choose(0, 1, "less");
    return neg ? 0 - v : v;
  }
  FV draw(const FSpec &f) override {
    const char *n = name('f');
    if (f.op == O_CONST && (!f.opt || flip("const"))) return f.init;
    FV v;
    if (f.opt) { if (f.op == O_CONST) return FV(); v.present = flip(n); if (!v.present) return v; } else v.present = true;
    char vn[8]; strcpy(vn, n); vn[3] = 'v'; vn[4] = 0;
    switch (f.ty) {
    case T_U32: case T_U64: case T_I32: case T_I64:
      if (wide && flip("corner")) v.i = corner(f.ty);
      else if (wide) v.i = is_signed_ty(f.ty) ? (uint64_t)(int64_t)sym<int8_t>(vn) : sym<uint8_t>(vn);
      else { v.i = sym<uint8_t>(vn); symx_assume(v.i < 10); }
      break;
    case T_DEC: case T_SDEC: {
      if (wide && flip("corner")) { v.i = corner(T_DEC); v.e = (int)choose(0, 6, "e"); static const int es[] = {-63, -19, -18, -1, 0, 3, 63}; v.e = es[v.e]; }
      else if (wide) { v.i = (uint64_t)((int64_t)choose(0, 255, vn) - 128); v.e = (int)choose(0, 8, "e") - 5; }
      else { static const int ms[] = {0, 7, -12}; v.i = (uint64_t)(int64_t)ms[choose(0, 2, vn)]; v.e = -(int)choose(0, 1, "e"); }
      break;
    }
    default:
      v.len = choose(0, len, "len"); // characters that need no escape, in larger structures
      symx_make_symbolic(v.s, v.len ? v.len : 1, vn);
      if (!v.len) v.s[0] = 0;
      for (unsigned k = 0; k < v.len; k++) symx_assume(f.ty == T_ASC ? v.s[k] < 0x80 : f.ty == T_UNI ? v.s[k] < 0xf8 : true);
      if (!wide) for (unsigned k = 0; k < v.len; k++) symx_assume(v.s[k] >= 'a' && v.s[k] <= 'z');
    }
    return v;
  }
};
static void norm_flat(Flat &o, const TNode *ch, int n, int &at);
static void norm_node(Flat &o, const TNode &t, int &at) {
  if (at >= o.n || at >= o.cap) return;
  FV &v = o.v[at];
  switch (t.k) {
  case K_FIELD: if (t.f.ty == T_DEC && v.present) norm(v); at++; break;
  case K_VEC: at++; if (v.present) at += (int)v.i; break;
  case K_GROUP: if (t.opt) { at++; if (!v.i) break; } norm_flat(o, t.ch, t.nch, at); break;
  case K_SEQ: at++; if (v.present) for (unsigned k = 0; k < v.i; k++) norm_flat(o, t.ch, t.nch, at); break;
  default: at++;
  }
}
static void norm_flat(Flat &o, const TNode *ch, int n, int &at) { for (int i = 0; i < n; i++) norm_node(o, ch[i], at); }

ENTRY(json_rt) {
  const Desc *d = t_js::description();
  int t = (int)symx_param("t", 1);
  JReal rr(the_set, d);
  rr.maxseq = (int)symx_param("seq", 2);
  const TTpl &tp = the_set.tpl[t - 1];
  auto *M = mfast::malloc_allocator::instance();
  mfast::message_type a(M, rr.ins((unsigned)t)), b(M, rr.ins((unsigned)t));
  Flat want;
  rr.fill_all(a.mref(), tp.ch, tp.nch, want);
  int at = 0; norm_flat(want, tp.ch, tp.nch, at);
  OutBuf ob;
  std::ostream os(&ob);
  CHECK(mfast::json::encode(os, a.cref()), "json: encode reports success");
  std::size_t n = symx_concretize(ob.size());
  for (std::size_t k = 0; k < n; k++) symx_log((uint8_t)ob.b[k]);
  JS js(ob.b, n);
  Flat ref;
  bool ok = js.object(rr.ins((unsigned)t), tp.ch, tp.nch, ref);
  CHECK(ok && js.p == js.e, "json: the text is a JSON object of the message's fields");
  CHECK(flat_same(ref, want), "json: the text has the message's values");
  // reading it back, into a message that has other content
  if (unsigned u = choose(0, 2, "used")) { Real r2(the_set, d); r2.det = 1; r2.dno = u; r2.maxseq = 2; Flat x; r2.fill_all(b.mref(), tp.ch, tp.nch, x); }
  InBuf ib(ob.b, n);
  std::istream is(&ib);
  bool threw = false;
  try { mfast::json::decode(is, b.mref()); } catch (std::exception &) { threw = true; }
  CHECK(!threw, "json: the text is accepted");
  Flat got;
  rr.read_all(b.cref(), tp.ch, tp.nch, got);
  at = 0; norm_flat(got, tp.ch, tp.nch, at);
  CHECK(flat_same(want, got), "json: the message read back");
  symx_cover("end");
}

// ---- any text --------------------------------------------------------------------------------------
// Reads JSON (ECMA-404) in full: members in any order, members the message doesn't have, null, whitespace.
// `reject`: valid JSON which cannot be the value of the field; `unspec`: JSON to which no meaning is assigned here
// (null for mandatory fields, members missing or twice, numbers outside of what a decimal can be, ...)
struct JT : JS {
  bool eof = false, reject = false, unspec = false;
  using JS::JS;
  bool fail() { if (p >= e) eof = true; bad = true; return false; }
  bool word(const char *w) { for (; *w; w++) { if (peek() != *w) return fail(); p++; } return true; }
  bool skip(int depth = 0) {
    ws();
    if (depth > 6) return fail();
    int c = peek();
    if (c == '"') { if (string([](uint8_t) {})) return true; return fail(); }
    if (c == 'n') return word("null");
    if (c == 't') return word("true");
    if (c == 'f') return word("false");
    if (c == '{' || c == '[') {
      char close = c == '{' ? '}' : ']';
      p++;
      if (next_is(close)) { p++; return true; }
      for (;;) {
        if (c == '{') { ws(); if (peek() != '"' || !string([](uint8_t) {})) return fail(); ws(); if (peek() != ':') return fail(); p++; }
        if (!skip(depth + 1)) return false;
        if (next_is(',')) { p++; continue; }
        if (next_is(close)) { p++; return true; }
        return fail();
      }
    }
    auto digits = [&]() { if (peek() < '0' || peek() > '9') return fail(); while (peek() >= '0' && peek() <= '9') p++; return true; };
    if (c == '-') p++;
    if (peek() == '0') p++; else if (!digits()) return false;
    if (peek() == '.') { p++; if (!digits()) return false; }
    if (peek() == 'e' || peek() == 'E') { p++; if (peek() == '+' || peek() == '-') p++; if (!digits()) return false; }
    return true;
  }
  bool null(const TNode &t, Flat &o) { if (!t.opt) unspec = true; p += 4; absent(t, o); return true; }
  // p is at a valid JSON value
  bool member(const mfast::field_instruction *fi, const TNode &t, Flat &o) override {
    ws();
    const char *b = p;
    if (!skip()) return false;
    const char *end = p;
    p = b;
    int c = peek();
    if (c == 'n') { null(t, o); p = end; return true; }
    bool str = t.k == K_FIELD && (t.f.ty == T_ASC || t.f.ty == T_UNI || t.f.ty == T_BV);
    bool right = t.k == K_VEC || t.k == K_SEQ ? c == '[' : t.k == K_GROUP ? c == '{' : str ? c == '"' : c == '-' || (c >= '0' && c <= '9');
    if (!right) { reject = true; absent(t, o); p = end; return true; }
    if (t.k == K_FIELD && t.f.ty == T_BV) {
      string([&](uint8_t ch) { if (ch == '-' || ch == ' ' || ch == 0) unspec = true; });
      p = b; bad = false;
      if (!unspec && !JS::member(fi, t, o)) { bad = false; reject = true; o.put(FV()); }
      p = end;
      return true;
    }
    int at = o.n;
    if (t.k == K_VEC && !vec_ok(end, t.f.ty)) { p = end; absent(t, o); return true; }
    p = b;
    if (t.k == K_FIELD && !str && !int_ok(end, t.f.ty)) { p = end; absent(t, o); return true; }
    p = b;
    if (!JS::member(fi, t, o)) return false;
    if (p != end) { unspec = true; p = end; } // 1.0 for an integer
    (void)at;
    return true;
  }
  // an integer (or decimal) the field can have
  bool int_ok(const char *end, Ty ty) {
    const char *q = p;
    bool neg = *q == '-'; if (neg) q++;
    uint64_t m = 0; bool over = false;
    for (; q < end && *q >= '0' && *q <= '9'; q++) { unsigned d = (unsigned)(*q - '0'); if (m > ~0ull / 10 || (m == ~0ull / 10 && d > ~0ull % 10)) over = true; else m = m * 10 + d; }
    if (!is_int(ty)) {
      uint64_t lim = (1ull << 63) - 1 + neg;
      int ex = 0;
      if (q < end && *q == '.') for (q++; q < end && *q >= '0' && *q <= '9'; q++) { unsigned d = (unsigned)(*q - '0'); if (m > ~0ull / 10 || (m == ~0ull / 10 && d > ~0ull % 10)) over = true; else m = m * 10 + d; ex--; }
      if (over || m > lim) { unspec = true; return false; }
      if (q < end) { // exponents of more than 4 digits
        q++; if (*q == '+' || *q == '-') q++;
        if (end - q > 4) { unspec = true; return false; }
      }
      return true;
    }
    if (q != end) { unspec = true; return false; }
    bool sg = is_signed_ty(ty);
    uint64_t hi = ty == T_U32 ? 0xffffffffull : ty == T_U64 ? ~0ull : ty == T_I32 ? 0x7fffffffull + neg : 0x7fffffffffffffffull + neg;
    if (neg && !sg) { if (m == 0 && !over) unspec = true; else reject = true; return false; }
    if (over || m > hi) { reject = true; return false; }
    return true;
  }
  bool vec_ok(const char *end, Ty ty) {
    const char *sp = p;
    p++;
    for (;;) {
      if (next_is(']')) break;
      ws();
      const char *b = p; skip(); const char *q = p;
      if (*b != '-' && !(*b >= '0' && *b <= '9')) { reject = true; p = sp; return false; }
      p = b;
      if (!int_ok(q, ty)) { p = sp; return false; }
      p = q;
      if (next_is(',')) p++;
    }
    (void)end;
    p = sp;
    return true;
  }
  bool object(const mfast::group_field_instruction *gi, const TNode *ch, int n, Flat &o) override {
    ws();
    if (peek() == 'n') { unspec = true; return word("null"); }
    if (peek() != '{') return fail();
    p++;
    const char *at[12];
    for (int i = 0; i < n; i++) at[i] = nullptr;
    if (next_is('}')) p++;
    else for (;;) {
      char nm[16]; unsigned l = 0;
      ws();
      if (peek() != '"' || !string([&](uint8_t c) { if (l < 16) nm[l] = (char)c; l++; })) return fail();
      ws();
      if (peek() != ':') return fail();
      p++;
      ws();
      const char *v = p;
      if (!skip()) return false;
      for (int i = 0; i < n; i++) {
        const char *f = gi->subinstruction((std::size_t)i)->name();
        if (strlen(f) == l && memcmp(f, nm, l) == 0) { if (at[i]) unspec = true; at[i] = v; }
        else if (l < 16 && strlen(f) < l && memcmp(f, nm, strlen(f)) == 0 && nm[strlen(f)] == 0) unspec = true; // "a\u0000..."
      }
      if (next_is(',')) { p++; continue; }
      if (next_is('}')) { p++; break; }
      return fail();
    }
    const char *end = p;
    for (int i = 0; i < n; i++) {
      if (!at[i]) { if (!ch[i].opt) unspec = true; absent(ch[i], o); continue; }
      p = at[i];
      if (!member(gi->subinstruction((std::size_t)i), ch[i], o)) return false;
    }
    p = end;
    return true;
  }
};
struct Cx { int t; const char *pre, *post; };
static const Cx cxs[] = {
  /* 0 */ {1, "{\"a\":", "}"}, {1, "{", ":1}"}, {1, "", "{\"a\":1}"}, {1, "{\"a\":1", ""}, {1, "{\"q\":", ",\"a\":1}"},
  /* 5 */ {1, "{\"a\":429496729", "}"}, {1, "{\"a\":", ",\"q\":1.5e3}"}, {4, "{\"a\":922337203685477580", "}"}, {4, "{\"a\":-922337203685477580", "}"}, {2, "{\"a\":-214748364", "}"},
  /* 10 */ {5, "{\"a\":", "}"}, {5, "{\"a\":-0.", "}"}, {5, "{\"a\":1e", "}"}, {5, "{\"a\":92233720368547758", "}"}, {5, "{\"a\":-9223372036854775.8", "}"},
  /* 15 */ {6, "{\"a\":\"", "\"}"}, {6, "{\"a\":\"\\u", "\"}"}, {7, "{\"a\":\"", "\"}"}, {7, "{\"a\":\"\\u", "\"}"}, {7, "{\"a\":\"\\ud83d\\u", "\"}"},
  /* 20 */ {7, "{\"a\":\"\\u", "\\ude00\"}"}, {8, "{\"a\":\"", "\"}"}, {9, "{\"v\":[", "],\"w\":[]}"}, {9, "{\"v\":", ",\"w\":[2]}"}, {9, "{\"w\":[3],\"v\":[1", "2]}"},
  /* 25 */ {11, "{\"g\":", ",\"i\":{}}"}, {11, "{\"i\":{\"c\":1},\"g\":{", "}}"}, {11, "{\"i\":{", "\"c\":1},\"g\":{\"h\":{\"b\":2}}}"}, {12, "{\"s\":[", "],\"z\":5}"}, {12, "{\"s\":[{\"q\":[]}", "{\"q\":[{\"b\":7}]}]}"},
  /* 30 */ {12, "{\"z\":1,\"s\":[{\"q\":[{\"b\":", "}]}]}"}, {16, "{\"s\":[", "],\"z\":1}"}, {16, "{\"s\":[\"x\"],\"q\":[", "],\"z\":1}"}, {1, "{\"q\":[{", "}],\"a\":2}"}, {3, "{\"a\":1844674407370955161", "}"},
  /* 35 */ {6, "{\"q\":\"", "\",\"a\":\"b\"}"}, {7, "{\"a\":\"\\ud83d", "\"}"}, {9, "{\"w\":[", "]}"}, {10, "{\"v\":[4],\"w\":[", "],\"z\":0}"},
};
ENTRY(json_text) {
  const Desc *d = t_js::description();
  int cx = (int)symx_param("cx", 0);
  unsigned n = (unsigned)symx_param("n", 2);
  const Cx &c = cxs[cx];
  const TTpl &tp = the_set.tpl[c.t - 1];
  JReal rr(the_set, d);
  auto *M = mfast::malloc_allocator::instance();
  mfast::message_type a(M, rr.ins((unsigned)c.t));
  std::size_t l0 = strlen(c.pre), l1 = strlen(c.post), len = l0 + n + l1;
  char *tx = (char *)malloc(n ? len : len + 1);
  memcpy(tx, c.pre, l0);
  symx_make_symbolic(tx + l0, n ? n : 1, "text");
  memcpy(tx + l0 + n, c.post, l1);
  JT js(tx, len);
  Flat want;
  bool ok = js.object(rr.ins((unsigned)c.t), tp.ch, tp.nch, want);
  InBuf ib(tx, len);
  std::istream is(&ib);
  bool threw = false;
  try { mfast::json::decode(is, a.mref()); } catch (std::exception &) { threw = true; }
  Flat got;
  rr.read_all(a.cref(), tp.ch, tp.nch, got);
  if (!ok) { if (js.eof) CHECK(threw, "json: text that ends early is rejected"); }
  else if (!js.unspec) {
    if (js.reject) CHECK(threw, "json: a value the field cannot have is rejected");
    else {
      CHECK(!threw, "json: valid text is accepted");
      int at = 0; norm_flat(want, tp.ch, tp.nch, at);
      at = 0; norm_flat(got, tp.ch, tp.nch, at);
      CHECK(flat_same(want, got), "json: the values of the text");
      CHECK(ib.used() == (std::size_t)(js.p - tx), "json: what follows the text is left for the next message");
      symx_cover("accepted");
    }
  }
  free(tx);
  symx_cover("end");
}

// ---- a byte vector that holds JSON text (tags), and fields left out (ignored tags) ------------------
static void put_json(const mfast::field_mref &f, unsigned n, const char *nm, uint8_t *keep, unsigned &len) {
  // an object: {"k":<n symbolic bytes>}
  static const char pre[] = "{\"k\":";
  len = 5 + n + 1;
  memcpy(keep, pre, 5);
  symx_make_symbolic(keep + 5, n, nm);
  keep[5 + n] = '}';
  JT js((const char *)keep, len);
  symx_assume(js.skip() && js.p == js.e);
  mfast::byte_vector_mref(f).assign(keep, keep + len);
}
ENTRY(json_tag) {
  const Desc *d = t_js::description();
  JReal rr(the_set, d);
  unsigned mask = (unsigned)symx_param("mask", 1), ignore = (unsigned)symx_param("ignore", 0), n = (unsigned)symx_param("n", 2);
  auto *M = mfast::malloc_allocator::instance();
  mfast::message_type a(M, rr.ins(17)), b(M, rr.ins(17));
  auto m = a.mref();
  uint8_t ka[24], kb[24]; unsigned la, lb = 0;
  put_json(m[0], n, "ka", ka, la);
  bool hb = choose(0, 1, "b"), ht = choose(0, 1, "t");
  if (hb) put_json(m[1], n, "kb", kb, lb);
  if (ht) mfast::ascii_string_mref(m[2]).as("x");
  mfast::uint32_mref(m[3]).as(5);
  OutBuf ob;
  std::ostream os(&ob);
  CHECK(ignore ? mfast::json::encode(os, a.cref(), mask, ignore) : mfast::json::encode(os, a.cref(), mask), "json: encode reports success");
  // the text, by its definition
  char w[256]; unsigned l = 0;
  auto put = [&](const char *s) { while (*s) w[l++] = *s++; };
  auto bytes = [&](unsigned tag, const uint8_t *k, unsigned kl) {
    if (tag & mask) { memcpy(w + l, k, kl); l += kl; return; }
    w[l++] = '"';
    for (unsigned i = 0; i < kl; i++) for (int sh = 4; sh >= 0; sh -= 4) { unsigned h = k[i] >> sh & 15; w[l++] = (char)(h < 10 ? '0' + h : 'a' + h - 10); }
    w[l++] = '"';
  };
  put("{");
  bool sep = false;
  if (!(ignore & 1)) { put("\"a\":"); bytes(1, ka, la); sep = true; }
  if (hb && !(ignore & 5)) { put(sep ? ",\"b\":" : "\"b\":"); bytes(5, kb, lb); sep = true; }
  if (ht && !(ignore & 2)) { put(sep ? ",\"t\":\"x\"" : "\"t\":\"x\""); sep = true; }
  put(sep ? ",\"z\":5}" : "\"z\":5}");
  CHECK(symx_concretize(ob.size()) == l, "json: the text of tagged fields");
  CHECK(memcmp(ob.b, w, l) == 0, "json: the text of tagged fields");
  if (choose(0, 1, "used")) {
    auto q = b.mref();
    mfast::byte_vector_mref(q[0]).assign(w, w + 3); mfast::byte_vector_mref(q[1]).assign(w, w + 4); mfast::ascii_string_mref(q[2]).as("y");
  }
  InBuf ib(ob.b, l);
  std::istream is(&ib);
  bool threw = false;
  try { mfast::json::decode(is, b.mref(), mask); } catch (std::exception &) { threw = true; }
  CHECK(!threw, "json: the text is accepted");
  if (!(ignore & 1)) { mfast::byte_vector_cref f(b.cref()[0]); CHECK(f.size() == la && memcmp(f.data(), ka, la) == 0, "json: JSON kept as text is read back"); }
  mfast::byte_vector_cref g(b.cref()[1]);
  bool eb = hb && !(ignore & 5);
  CHECK(g.present() == eb && (!eb || (g.size() == lb && memcmp(g.data(), kb, lb) == 0)), "json: JSON kept as text is read back");
  CHECK(b.cref()[2].present() == (ht && !(ignore & 2)) && mfast::uint32_cref(b.cref()[3]).value() == 5, "json: the fields around it");
  symx_cover("end");
}
// a sequence alone
ENTRY(json_seq) {
  const Desc *d = t_js::description();
  int t = (int)symx_param("t", 12);
  JReal rr(the_set, d);
  rr.maxseq = (int)symx_param("seq", 2);
  const TTpl &tp = the_set.tpl[t - 1];
  auto *M = mfast::malloc_allocator::instance();
  mfast::message_type a(M, rr.ins((unsigned)t)), b(M, rr.ins((unsigned)t));
  Flat want;
  rr.fill_all(a.mref(), tp.ch, 1, want);
  symx_assume(want.v[0].present);
  OutBuf ob;
  std::ostream os(&ob);
  CHECK(mfast::json::encode(os, mfast::sequence_cref(a.cref()[0])), "json: encode reports success");
  std::size_t n = symx_concretize(ob.size());
  JS js(ob.b, n);
  Flat ref;
  bool ok = js.member(rr.ins((unsigned)t)->subinstruction(0), tp.ch[0], ref);
  CHECK(ok && js.p == js.e, "json: the text is a JSON array of the elements");
  CHECK(flat_same(ref, want), "json: the text has the elements' values");
  if (unsigned u = choose(0, 2, "used")) { Real r2(the_set, d); r2.det = 1; r2.dno = u; r2.maxseq = 2; Flat x; r2.fill_all(b.mref(), tp.ch, tp.nch, x); }
  std::size_t cut = choose(0, 1, "early") ? choose(0, (unsigned)n - 1, "cut") : n;
  char *tx = (char *)malloc(cut ? cut : 1);
  memcpy(tx, ob.b, cut);
  InBuf ib(tx, cut);
  std::istream is(&ib);
  bool threw = false;
  try { mfast::json::decode(is, mfast::sequence_mref(b.mref()[0])); } catch (std::exception &) { threw = true; }
  CHECK(threw == (cut < n), "json: an array is accepted exactly if it is complete");
  Flat got;
  rr.read_all(b.cref(), tp.ch, 1, got);
  if (cut == n) CHECK(flat_same(want, got), "json: the sequence read back");
  free(tx);
  symx_cover("end");
}
