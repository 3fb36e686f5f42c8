// Bitcode-side models of the out-of-line parts of iostreams (compiled with -fno-access-control).  The templates of
// libstdc++'s stream classes are instantiated from the real headers; here are the locale machinery (classic locale
// only), number formatting and parsing as [facet.num.put]/[facet.num.get] specify them for that locale, and the
// functions that live in libstdc++.so.  (The native replay build uses the real library.)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
#include <iostream>
#include <iomanip>
#include <locale>
#include <cstring>

namespace std {
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
locale::facet::~facet() {}
const locale &locale::classic() { static locale l; return l; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }

// decimal digits of v, written so that small values need no division
static inline int dec_digits(char *b, int n, unsigned long long v) {
  while (v >= 1000) { b[--n] = (char)('0' + v % 10); v /= 10; }
  unsigned w = (unsigned)v;
  if (w >= 100) {
    unsigned h = 1 + (w >= 200) + (w >= 300) + (w >= 400) + (w >= 500) + (w >= 600) + (w >= 700) + (w >= 800) + (w >= 900);
    w -= h * 100;
    unsigned t = (w >= 10) + (w >= 20) + (w >= 30) + (w >= 40) + (w >= 50) + (w >= 60) + (w >= 70) + (w >= 80) + (w >= 90);
    b[--n] = (char)('0' + (w - t * 10)); b[--n] = (char)('0' + t); b[--n] = (char)('0' + h);
  } else if (w >= 10) {
    unsigned t = 1 + (w >= 20) + (w >= 30) + (w >= 40) + (w >= 50) + (w >= 60) + (w >= 70) + (w >= 80) + (w >= 90);
    b[--n] = (char)('0' + (w - t * 10)); b[--n] = (char)('0' + t);
  } else b[--n] = (char)('0' + w);
  return n;
}
struct SymNumPut : num_put<char> {
  SymNumPut() : num_put<char>(1) {}
  static iter_type field(iter_type o, ios_base &io, char fill, const char *p, int n, int sign) {
    streamsize w = io.width(); io.width(0);
    int pad = w > n ? (int)(w - n) : 0;
    ios_base::fmtflags adj = io.flags() & ios_base::adjustfield;
    int at = adj == ios_base::left ? n : adj == ios_base::internal ? sign : 0;
    for (int i = 0; i <= n; i++) {
      if (i == at) for (int k = 0; k < pad; k++) *o++ = fill;
      if (i < n) *o++ = p[i];
    }
    return o;
  }
  static iter_type num(iter_type o, ios_base &io, char fill, unsigned long long v, bool neg) {
    char b[32]; int n = 32;
    ios_base::fmtflags base = io.flags() & ios_base::basefield;
    if (base == ios_base::hex) do { unsigned d = (unsigned)(v & 15); b[--n] = (char)(d < 10 ? '0' + d : (io.flags() & ios_base::uppercase ? 'A' : 'a') + d - 10); v >>= 4; } while (v);
    else if (base == ios_base::oct) do b[--n] = (char)('0' + (v & 7)); while (v >>= 3);
    else n = dec_digits(b, n, v);
    if (neg) b[--n] = '-';
    return field(o, io, fill, b + n, 32 - n, neg);
  }
  static iter_type snum(iter_type o, ios_base &io, char fill, long long v, unsigned long long u) {
    ios_base::fmtflags base = io.flags() & ios_base::basefield;
    if (base == ios_base::hex || base == ios_base::oct) return num(o, io, fill, u, false);
    return num(o, io, fill, v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v, v < 0);
  }
  iter_type do_put(iter_type o, ios_base &io, char f, bool v) const override { return num(o, io, f, v, false); }
  iter_type do_put(iter_type o, ios_base &io, char f, long v) const override { return snum(o, io, f, v, (unsigned long)v); }
  iter_type do_put(iter_type o, ios_base &io, char f, unsigned long v) const override { return num(o, io, f, v, false); }
  iter_type do_put(iter_type o, ios_base &io, char f, long long v) const override { return snum(o, io, f, v, (unsigned long long)v); }
  iter_type do_put(iter_type o, ios_base &io, char f, unsigned long long v) const override { return num(o, io, f, v, false); }
};
// stage 2 of [facet.num.get.virtuals] accumulates the longest prefix of characters of a number, stage 3 converts it
struct SymNumGet : num_get<char> {
  SymNumGet() : num_get<char>(1) {}
  template <class T> static iter_type num(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, T &v, bool sign, unsigned long long max, bool wide) {
    bool neg = false, any = false, over = false;
    unsigned long long a = 0;
    (void)io;
    if (b != e) { char c = *b; if (c == '-' || c == '+') { neg = c == '-'; ++b; } }
    while (b != e) {
      char c = *b;
      if (c < '0' || c > '9') break;
      unsigned d = (unsigned)(c - '0');
      if (a > ~0ull / 10 || (a == ~0ull / 10 && d > ~0ull % 10)) over = true; else a = a * 10 + d;
      any = true; ++b;
    }
    unsigned long long lim = sign && neg ? max + 1 : max;
    if (!any) { v = 0; err = ios_base::failbit; }
    else if (over || a > lim) { v = (T)(sign && neg ? 0ull - lim : max); err = ios_base::failbit; }
    else v = (T)(neg ? 0ull - a : a);
    if (b == e) err |= ios_base::eofbit;
    return b;
  }
  iter_type do_get(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, long &v) const override { return num(b, e, io, err, v, true, ~0ull >> 1, true); }
  iter_type do_get(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, unsigned short &v) const override { return num(b, e, io, err, v, false, 0xffff, false); }
  iter_type do_get(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, unsigned int &v) const override { return num(b, e, io, err, v, false, ~0u, false); }
  iter_type do_get(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, unsigned long &v) const override { return num(b, e, io, err, v, false, ~0ull, true); }
  iter_type do_get(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, long long &v) const override { return num(b, e, io, err, v, true, ~0ull >> 1, true); }
  iter_type do_get(iter_type b, iter_type e, ios_base &io, ios_base::iostate &err, unsigned long long &v) const override { return num(b, e, io, err, v, false, ~0ull, true); }
  // the value is not modelled: nothing here may depend on it
  iter_type do_get(iter_type b, iter_type e, ios_base &, ios_base::iostate &err, double &v) const override {
    bool digits = false, dot = false, ex = false, exd = false;
    if (b != e && (*b == '-' || *b == '+')) ++b;
    while (b != e) {
      char c = *b;
      if (c >= '0' && c <= '9') { if (ex) exd = true; else digits = true; }
      else if (c == '.' && !dot && !ex) dot = true;
      else if ((c == 'e' || c == 'E') && !ex && digits) {
        ex = true; ++b;
        if (b != e && (*b == '-' || *b == '+')) ++b;
        continue;
      } else break;
      ++b;
    }
    v = 0;
    if (!digits || (ex && !exd)) err = ios_base::failbit;
    if (b == e) err |= ios_base::eofbit;
    return b;
  }
};
struct CTable {
  ctype_base::mask m[256] = {};
  constexpr CTable() {
    for (int i = 0; i < 128; i++) {
      unsigned x = 0;
      if (i == ' ' || (i >= 9 && i <= 13)) x |= ctype_base::space;
      if (i >= '0' && i <= '9') x |= ctype_base::digit | ctype_base::xdigit;
      if ((i >= 'a' && i <= 'z') || (i >= 'A' && i <= 'Z')) x |= ctype_base::alpha;
      m[i] = (ctype_base::mask)x;
    }
  }
};
static constexpr CTable the_table;
static ctype<char> *the_ctype() {
  static unsigned char mem[sizeof(ctype<char>)] __attribute__((aligned(16)));
  ctype<char> *c = reinterpret_cast<ctype<char> *>(mem);
  if (!c->_M_table) {
    for (int i = 0; i < 256; i++) { c->_M_widen[i] = (char)i; c->_M_narrow[i] = (char)i; }
    c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
    c->_M_table = the_table.m;
  }
  return c;
}
template <> const ctype<char> &use_facet<ctype<char>>(const locale &) { return *the_ctype(); }
template <> const ctype<char> *__try_use_facet<ctype<char>>(const locale &) noexcept { return the_ctype(); }
template <> void basic_ios<char>::_M_cache_locale(const locale &) {
  static SymNumPut *p = new SymNumPut; static SymNumGet *g = new SymNumGet;
  _M_ctype = the_ctype(); _M_num_put = p; _M_num_get = g;
}
void __istream_extract(istream &in, char *s, streamsize num) {
  ios_base::iostate err = ios_base::goodbit;
  streamsize got = 0;
  istream::sentry cerb(in, false);
  if (cerb) {
    streamsize w = in.width();
    if (w > 0 && w < num) num = w;
    const ctype<char> *ct = the_ctype();
    streambuf *sb = in.rdbuf();
    int c = sb->sgetc();
    while (got < num - 1 && c != EOF && !ct->is(ctype_base::space, (char)c)) { *s++ = (char)c; got++; c = sb->snextc(); }
    if (got < num - 1 && c == EOF) err |= ios_base::eofbit;
    *s = 0;
    in.width(0);
  }
  if (!got) err |= ios_base::failbit;
  if (err) in.setstate(err);
}
template class basic_ios<char>;
template class basic_streambuf<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template istream &ws(istream &);
template istream &operator>>(istream &, char &);
template ostream &endl(ostream &);
template ostream &flush(ostream &);
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, const char *);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
} // namespace std
// snprintf for the formats %d %u %x %ld %lld with an optional 0 and width; the executor passes the first two variable arguments
extern "C" int symx_snprintf(char *buf, size_t cap, const char *fmt, uint64_t a0, uint64_t a1) {
  size_t n = 0;
  auto out = [&](char c) { if (n + 1 < cap) buf[n] = c; n++; };
  int k = 0;
  for (; *fmt; fmt++) {
    if (*fmt != '%') { out(*fmt); continue; }
    fmt++;
    char fill = ' '; int w = 0, l = 0;
    if (*fmt == '0') { fill = '0'; fmt++; }
    while (*fmt >= '0' && *fmt <= '9') w = w * 10 + (*fmt++ - '0');
    while (*fmt == 'l') { l++; fmt++; }
    uint64_t v = k++ ? a1 : a0;
    bool neg = false;
    if (*fmt == 'd') { int64_t s = l ? (int64_t)v : (int64_t)(int32_t)v; neg = s < 0; v = neg ? 0ull - (uint64_t)s : (uint64_t)s; }
    else { if (!l) v = (uint32_t)v; if (*fmt != 'u' && *fmt != 'x') __builtin_trap(); }
    char b[32]; int q = 32;
    if (*fmt == 'x') do { unsigned d = (unsigned)(v & 15); b[--q] = (char)(d < 10 ? '0' + d : 'a' + d - 10); } while (v >>= 4);
    else q = std::dec_digits(b, q, v);
    int len = 32 - q + neg;
    if (neg && fill == '0') out('-');
    for (int i = len; i < w; i++) out(fill);
    if (neg && fill != '0') out('-');
    while (q < 32) out(b[q++]);
  }
  if (cap) buf[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
extern "C" int isdigit(int c) { return c >= '0' && c <= '9'; }
