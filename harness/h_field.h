// Single-field templates: every type x operator x presence x initial value, over message histories.
// Included once per template set:  #define SETNAME m_u32
#include "msg.h"
#include "refcodec.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

typedef Codec (*mk_t)();
static Codec pick(const mk_t *mk) { return mk[symx_param("t", 0)](); }

// exactly one message of the stream, by the reference decoder
static Status ref_message(RD &r, const Spec &s, unsigned id, FDict &d, FV &f, FV &z) {
  PM pm; pm.read(r);
  if (!r.ok()) return r.st;
  if (pm.next()) { uint64_t t; bool null; if (!r.u(t, 32, false, null)) return r.st; if (t != id) { r.fail(S_ERR); return r.st; } }
  if (!ref_field(r, pm, s.f, d, f)) return r.st;
  r.val(T_U32, z, false);
  return r.st;
}

// encode a history of messages; check with the reference decoder (mode&1) and the real decoder (mode&2)
static void field_encode(const Spec *specs, const mk_t *mk) {
  int t = (int)symx_param("t", 0), ver = (int)symx_param("ver", 1), H = (int)symx_param("hist", 2), mode = (int)symx_param("mode", 3);
  unsigned ml = (unsigned)symx_param("len", 2);
  const Spec &s = specs[t];
  Codec c = pick(mk);
  Enc *e = c.enc(ver); Dec *d = c.dec((int)symx_param("dver", ver));
  mfast::malloc_allocator *al = mfast::malloc_allocator::instance();
  if (symx_param("overlong", 1) == 0) e->overlong(false);
  FDict fd;
  bool refok = true;
  int rst = (int)symx_param("reset", -1);
  for (int k = 0; k < H; k++) {
    char nm[4] = {(char)('a' + k), 0};
    FV v = sym_value(s.f, nm, ml, (int)symx_param("dom", 0));
    uint8_t z = sym<uint8_t>("z");
    symx_assume(z < 128);
    bool reset = k == 0 || k == rst;
    if (reset) fd = FDict();
    mfast::message_type m(al, c.ins);
    mfast::message_mref mr = m.mref();
    if (!(s.f.op == O_CONST && !s.f.opt && s.f.ty != T_SDEC)) set_field(mr[0], s.f.ty, v);
    mfast::uint32_mref(mr[1]).as(z);
    char buf[64];
    std::size_t n = e->encode(m.cref(), buf, sizeof buf, reset);
    n = symx_concretize(n);
    CHECK(n >= 2 && n <= sizeof buf, "enc: length in range");
    for (std::size_t q = 0; q < n; q++) symx_log((uint8_t)buf[q]);
    // the stream handed to the decoders holds exactly the encoded bytes
    char *wire = new char[n];
    for (std::size_t q = 0; q < n; q++) wire[q] = buf[q];
    // listed findings: what the encoders knowingly get wrong
    const char *kf = "";
    bool known = false;
    if (s.f.op == O_DEF && s.f.opt && s.f.init.present && !v.present && s.f.ty != T_SDEC) { kf = "KF-default-absent"; known = true; }
    if (s.f.op == O_TAIL && v.present) {
      uint32_t bl = fd.f.st == 2 ? fd.f.v.len : s.f.init.len;
      if (bl > v.len) { kf = "KF-tail-shorter"; known = true; }
    }
#define CK(c, tag) symx_assert_kf((c), tag, kf, known)
    if (refok) {
      RD r{(const uint8_t *)wire, (const uint8_t *)wire + n};
      FV f, zz;
      Status st = ref_message(r, s, (unsigned)t + 1, fd, f, zz);
      // only results outside the 64-bit range cannot be expressed as the specification demands
      if (st == S_UNSPEC && (s.f.ty == T_U64 || s.f.ty == T_I64 || s.f.ty == T_DEC || s.f.ty == T_SDEC)) refok = false;
      else if (mode & 1) {
        CK(st == S_OK, "enc: stream decodable by the reference decoder");
        CK(fv_eq(s.f.ty, f, v), "enc: reference decoder reads the value written");
        CK(zz.present && zz.i == z, "enc: following field intact");
        CK(r.p == r.end, "enc: no trailing bytes");
      } else if (st != S_OK || !fv_eq(s.f.ty, f, v)) refok = false;
    }
    // round trip
    if (mode & 2) {
      const char *p = wire;
      mfast::message_cref o = d->decode(p, wire + n, reset);
      FV f = get_field(o[0], s.f.ty);
      log_fv(s.f.ty, f);
      CK(p == wire + n, "rt: decoder consumes exactly the message");
      CK(o.id() == (unsigned)t + 1, "rt: template id");
      CK(fv_eq(s.f.ty, f, v), "rt: field value survives the round trip");
      CK(mfast::uint32_cref(o[1]).value() == z, "rt: following field survives");
    }
    delete[] wire;
  }
  symx_cover("end");
}

// decode arbitrary bytes; mode 1: v1 against reference, 2: v2 against reference, 3: v1 against v2
static void field_decode(const Spec *specs, const mk_t *mk) {
  int t = (int)symx_param("t", 0), mode = (int)symx_param("mode", 1), N = (int)symx_param("n", 5), H = (int)symx_param("hist", 2);
  const Spec &s = specs[t];
  Codec c = pick(mk);
  Dec *d1 = (mode & 1) ? c.dec(1) : nullptr, *d2 = (mode & 2) ? c.dec(2) : nullptr;
  uint8_t *b = new uint8_t[N];
  symx_make_symbolic(b, N, "bytes");
  // the first message carries the template id
  symx_assume((b[0] & 0x40) != 0 && b[1] == (uint8_t)(0x80 | (t + 1)) && (b[0] & 0x80));
  const char *first = (const char *)b, *last = (const char *)b + N;
  const char *p1 = first, *p2 = first;
  RD r{b, b + N};
  FDict fd;
  for (int k = 0; k < H; k++) {
    FV f0, f1, f2, z0; uint64_t z1 = 0, z2 = 0;
    bool e1 = false, e2 = false;
    if (mode != 3) { if (r.p >= r.end) break; }
    else if (p1 >= last) break;
    Status st = mode != 3 ? ref_message(r, s, (unsigned)t + 1, fd, f0, z0) : S_OK;
    if (st == S_UNSPEC) { symx_cover("unspecified"); break; }
    if (mode & 1) {
      try { mfast::message_cref o = d1->decode(p1, last, k == 0); f1 = get_field(o[0], s.f.ty); z1 = mfast::uint32_cref(o[1]).value(); }
      catch (boost::exception &) { e1 = true; }
    }
    if (mode & 2) {
      try { mfast::message_cref o = d2->decode(p2, last, k == 0); f2 = get_field(o[0], s.f.ty); z2 = mfast::uint32_cref(o[1]).value(); }
      catch (boost::exception &) { e2 = true; }
    }
    symx_log(e1); symx_log(e2);
    if (mode == 3) {
      CHECK(e1 == e2, "v1v2: both decoders accept or both reject");
      if (e1) { symx_cover("rejected"); break; }
      CHECK(fv_eq(s.f.ty, f1, f2), "v1v2: same field value");
      CHECK(z1 == z2, "v1v2: same following field");
      CHECK(p1 == p2, "v1v2: same bytes consumed");
      symx_cover("accepted");
    } else {
      bool e = (mode & 1) ? e1 : e2;
      const FV &f = (mode & 1) ? f1 : f2;
      if (st == S_RANGE) { symx_assert_kf(e, "dec: integers out of range are rejected", "KF-range", 1); symx_cover("range"); break; }
      if (st == S_ERR) { CHECK(e, "dec: malformed input is rejected"); symx_cover("rejected"); break; }
      CHECK(!e, "dec: well-formed input is accepted");
      log_fv(s.f.ty, f);
      CHECK(fv_eq(s.f.ty, f, f0), "dec: field value as the specification says");
      CHECK(((mode & 1) ? z1 : z2) == z0.i, "dec: following field");
      CHECK(((mode & 1) ? p1 : p2) == (const char *)r.p, "dec: bytes consumed");
      symx_cover("accepted");
    }
  }
  symx_cover("end");
}
// a fixed value the template can express
static FV plain(const FSpec &f) {
  FV one;
  one.present = true; one.i = 1; one.len = 1; one.s[0] = 'x';
  if (f.ty == T_SDEC) { if (f.op == O_CONST) one.e = (int32_t)f.init.i; if (f.mop == O_CONST) one.i = f.minit.i; }
  return one;
}
// output buffers of every size, vectors, going on after failures
static void field_buffers(const Spec *specs, const mk_t *mk) {
  int t = (int)symx_param("t", 0), ver = (int)symx_param("ver", 1);
  const Spec &s = specs[t];
  Codec c = pick(mk);
  auto msg = [&](const char *nm) {
    auto *m = new mfast::message_type(mfast::malloc_allocator::instance(), c.ins);
    FV v = sym_value(s.f, nm, (unsigned)symx_param("len", 2), (int)symx_param("dom", 0));
    if (!(s.f.op == O_CONST && !s.f.opt && s.f.ty != T_SDEC)) set_field(m->mref()[0], s.f.ty, v);
    mfast::uint32_mref(m->mref()[1]).as(5);
    return m;
  };
  mfast::message_type *m1 = msg("a"), *m0 = symx_param("hist", 1) > 1 ? msg("b") : nullptr, *m2 = new mfast::message_type(mfast::malloc_allocator::instance(), c.ins);
  FV one = plain(s.f);
  if (!(s.f.op == O_CONST && s.f.ty != T_SDEC)) set_field(m2->mref()[0], s.f.ty, one);
  mfast::uint32_mref(m2->mref()[1]).as(6);
  encoder_buffers([&]() { return c.enc(ver); }, symx_param("overlong", 1), m0, *m1, !m0, *m2);
}
// messages of templates the codec does not know leave it alone
static void field_unknown(const Spec *specs, const mk_t *mk, int n) {
  int t = (int)symx_param("t", 0), ver = (int)symx_param("ver", 1);
  const Spec &s = specs[t];
  Codec c = mk[t](), c2 = mk[(t + 1) % n]();
  Enc *e = c.enc(ver), *f = c.enc(ver);
  mfast::message_type m(mfast::malloc_allocator::instance(), c.ins), o(mfast::malloc_allocator::instance(), c2.ins);
  FV one = plain(s.f);
  if (!(s.f.op == O_CONST && s.f.ty != T_SDEC)) set_field(m.mref()[0], s.f.ty, one);
  bool before = flip("before");
  char b[64], b2[64];
  if (before) { e->encode(m.cref(), b, 64, true); f->encode(m.cref(), b2, 64, true); }
  bool d9 = false;
  try { e->encode(o.cref(), b, 64, !before); } catch (mfast::fast_dynamic_error &) { d9 = true; }
  CHECK(d9, "unknown: error D9 from the encoder");
  std::size_t n1 = e->encode(m.cref(), b, 64, !before), n2 = f->encode(m.cref(), b2, 64, !before);
  CHECK(n1 == n2 && diff(b, b2, n2) == 0, "unknown: the encoder goes on as if nothing had happened");
  symx_cover("end");
}
// strings of every length around the growth of vectors
static void field_long(const Spec *specs, const mk_t *mk) {
  int t = (int)symx_param("t", 0), ver = (int)symx_param("ver", 1);
  const Spec &s = specs[t];
  Codec c = pick(mk);
  unsigned n = (unsigned)symx_param("base", 1000) + choose(0, (unsigned)symx_param("spread", 10), "n"), k = (unsigned)symx_param("before", 0);
  std::string v(n, 'a');
  for (unsigned i = 0; i < n; i++) v[i] = (char)('a' + i % 26);
  for (unsigned i = 0; i < 4; i++) { uint8_t x = sym<uint8_t>("c"); symx_assume(x >= 1 && x < 128); v[i < 2 ? i : n - i + 1] = (char)x; }
  mfast::message_type m(mfast::malloc_allocator::instance(), c.ins);
  if (s.f.ty == T_BV) mfast::byte_vector_mref(m.mref()[0]).assign((const unsigned char *)v.data(), (const unsigned char *)v.data() + n);
  else if (s.f.ty == T_UNI) mfast::unicode_string_mref(m.mref()[0]).as(boost::string_ref(v.data(), n));
  else mfast::ascii_string_mref(m.mref()[0]).as(boost::string_ref(v.data(), n));
  mfast::uint32_mref(m.mref()[1]).as(7);
  std::vector<char> buf(k, (char)0x33);
  c.enc(ver)->encode(m.cref(), buf, true);
  char *big = new char[8192];
  std::size_t nb = c.enc(ver)->encode(m.cref(), big, 8192, true);
  CHECK(buf.size() == k + nb, "long: appended to the vector");
  if (k) CHECK(buf[0] == (char)0x33 && buf[k - 1] == (char)0x33, "long: earlier content");
  CHECK(diff(buf.data() + k, big, nb) == 0, "long: same bytes as in a fixed buffer");
  const char *p = buf.data() + k;
  mfast::message_cref o = c.dec(ver)->decode(p, buf.data() + buf.size(), true);
  CHECK(p == buf.data() + buf.size(), "long: bytes consumed");
  const char *q; std::size_t on;
  if (s.f.ty == T_BV) { mfast::byte_vector_cref f(o[0]); q = (const char *)f.data(); on = f.size(); }
  else if (s.f.ty == T_UNI) { mfast::unicode_string_cref f(o[0]); q = f.data(); on = f.size(); }
  else { mfast::ascii_string_cref f(o[0]); q = f.data(); on = f.size(); }
  CHECK(on == n, "long: length");
  CHECK(on == n && diff(q, v.data(), n) == 0, "long: content");
  CHECK(mfast::uint32_cref(o[1]).value() == 7, "long: following field");
  symx_cover("end");
}
// long values, and values that share long parts with the previous one; mode 1: round trip, 2: truncated streams
static void field_wide(const Spec *specs, const mk_t *mk) {
  int t = (int)symx_param("t", 0), ver = (int)symx_param("ver", 1), mode = (int)symx_param("mode", 1);
  const Spec &s = specs[t];
  Codec c = pick(mk);
  unsigned n = (unsigned)symx_param("base", 60) + choose(0, (unsigned)symx_param("spread", 8), "n");
  auto ch = [&](char o, const char *nm) { uint8_t x = sym<uint8_t>(nm); if (s.f.ty == T_ASC) symx_assume(x >= 1 && x < 128); symx_assume(x != (uint8_t)o); return (char)x; };
  std::string v[3];
  v[0].assign(n, 'a');
  for (unsigned i = 0; i < n; i++) v[0][i] = (char)('a' + i % 23);
  v[0][0] = ch(0, "a0"); v[0][n / 2] = ch(0, "a1"); v[0][n - 1] = ch(0, "a2");
  std::string &b = v[1];
  b = v[0];
  switch (choose(0, 9, "form")) {
  case 0: break;                                  // the same
  case 1: b[0] = ch(b[0], "b"); break;
  case 2: b[n / 2] = ch(b[n / 2], "b"); break;
  case 3: b[n - 1] = ch(b[n - 1], "b"); break;
  case 4: b += ch(0, "b"); b += ch(0, "c"); break;
  case 5: b = ch(0, "b") + b; break;
  case 6: b.erase(0, 1); break;
  case 7: b.erase(n - 1); break;
  case 8: b = std::string(1, ch(0, "b")); break;  // much shorter
  case 9: for (unsigned i = 0; i < n; i++) b[i] = (char)('A' + i % 25); b += 'x'; break;
  }
  v[2] = v[0];
  Enc *e = c.enc(ver), *e2 = c.enc(3 - ver);
  Dec *d = c.dec((int)symx_param("dver", ver));
  bool lost = false; // from the first value on which KF-tail-shorter affects
  std::size_t bl = s.f.init.present ? s.f.init.len : 0;
  if (s.f.op == O_CONST) { symx_cover("end"); return; }
  for (int k = 0; k < 3; k++) {
    mfast::message_type m(mfast::malloc_allocator::instance(), c.ins);
    const std::string &x = v[k];
    if (s.f.ty == T_BV) mfast::byte_vector_mref(m.mref()[0]).assign((const unsigned char *)x.data(), (const unsigned char *)x.data() + x.size());
    else if (s.f.ty == T_UNI) mfast::unicode_string_mref(m.mref()[0]).as(boost::string_ref(x.data(), x.size()));
    else mfast::ascii_string_mref(m.mref()[0]).as(boost::string_ref(x.data(), x.size()));
    mfast::uint32_mref(m.mref()[1]).as((unsigned)k + 7);
    if (s.f.op == O_TAIL && x.size() < bl) lost = true;
    bl = x.size();
    std::size_t cap = 2 * n + 64;
    char *big = new char[cap], *big2 = new char[cap];
    std::size_t w = symx_concretize(e->encode(m.cref(), big, cap, k == 0)), w2 = e2->encode(m.cref(), big2, cap, k == 0);
    CHECK(w == w2 && diff(big, big2, w) == 0, "wide: both encoders produce the same bytes");
    if (lost) break;
    const char *p;
    if (mode == 2 && k) {
      unsigned cut = choose(1, 4, "cut");
      if (cut == 4 && w > 60) cut = 50;
      if (cut < w) {
        char *sh = new char[w - cut];
        memcpy(sh, big, w - cut);
        bool err = false;
        p = sh;
        try { d->decode(p, sh + (w - cut), false); } catch (boost::exception &) { err = true; }
        CHECK(err, "wide: truncated message is rejected");
      }
      break;
    }
    char *wire = new char[w];
    memcpy(wire, big, w);
    p = wire;
    mfast::message_cref o = d->decode(p, wire + w, k == 0);
    CHECK(p == wire + w, "wide: bytes consumed");
    const char *q; std::size_t on;
    if (s.f.ty == T_BV) { mfast::byte_vector_cref f(o[0]); q = (const char *)f.data(); on = f.size(); CHECK(f.present(), "wide: present"); }
    else if (s.f.ty == T_UNI) { mfast::unicode_string_cref f(o[0]); q = f.data(); on = f.size(); CHECK(f.present(), "wide: present"); }
    else { mfast::ascii_string_cref f(o[0]); q = f.data(); on = f.size(); CHECK(f.present(), "wide: present"); }
    CHECK(on == x.size(), "wide: length");
    CHECK(on == x.size() && diff(q, x.data(), on) == 0, "wide: content");
    CHECK(mfast::uint32_cref(o[1]).value() == (unsigned)k + 7, "wide: following field");
    for (int j = 0; j < 3; j++) symx_log((uint8_t)q[j * (on - 1) / 2]);
    delete[] wire; delete[] big; delete[] big2;
  }
  symx_cover("end");
}
#define MK(n) &codec_of<some_desc<SETNAME::n>>,
#define FIELD_SET(set) \
  static const mk_t CAT(mk_, set)[] = {CAT(CAT(SPEC_, set), _MESSAGES)(MK)}; \
  ENTRY(CAT(enc_, set)) { field_encode(CAT(spec_, set)::specs, CAT(mk_, set)); } \
  ENTRY(CAT(buf_, set)) { field_buffers(CAT(spec_, set)::specs, CAT(mk_, set)); } \
  ENTRY(CAT(unk_, set)) { field_unknown(CAT(spec_, set)::specs, CAT(mk_, set), (int)(sizeof(CAT(mk_, set)) / sizeof(mk_t))); } \
  ENTRY(CAT(long_, set)) { field_long(CAT(spec_, set)::specs, CAT(mk_, set)); } \
  ENTRY(CAT(wide_, set)) { field_wide(CAT(spec_, set)::specs, CAT(mk_, set)); } \
  ENTRY(CAT(dec_, set)) { field_decode(CAT(spec_, set)::specs, CAT(mk_, set)); }
FIELD_SET(SETNAME)
