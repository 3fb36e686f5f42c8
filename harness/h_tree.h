// Structured templates over histories of messages; define SETNAME before including.
#include "tree.h"
#include <mfast/field_comparator.h>
#include <mfast/arena_allocator.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
static const TSet the_set = {CAT(spec_, SETNAME)::tpls, CAT(spec_, SETNAME)::ntpl, CAT(spec_, SETNAME)::nkeys};
typedef SETNAME::templates_description Desc;
#ifdef V1ONLY
static Enc *mk_enc(int, const Desc *d) { return new Enc1(d); }
static Dec *mk_dec(int, const Desc *d) { return new Dec1(d); }
#else
static Enc *mk_enc(int ver, const Desc *d) { return ver == 1 ? (Enc *)new Enc1(d) : (Enc *)new Enc2(d); }
static Dec *mk_dec(int ver, const Desc *d) { return ver == 1 ? (Dec *)new Dec1(d) : (Dec *)new Dec2(d); }
#endif

// Does the message run into error D6, i.e. a delta, or a mandatory copy or increment field (which the encoders refuse to
// send, as tests/field_operator_test pins), whose dictionary entry is empty?  st: states of the dictionary entries.
struct D6 {
  const Flat &w;
  int *st, at = 0;
  bool hit = false;
  void scalar(Op op, bool opt, bool present, int key) {
    if (key < 0) return;
    if (op == O_COPY || op == O_INC || op == O_TAIL) { if (!opt && st[key] == 1) hit = true; st[key] = present ? 2 : 1; }
    if (op == O_DELTA && present) { if (st[key] == 1) hit = true; st[key] = 2; }
  }
  void nodes(const TNode *ch, int n) { for (int i = 0; i < n; i++) node(ch[i]); }
  void node(const TNode &t) {
    if (at >= w.n) return;
    const FV &v = w.v[at];
    switch (t.k) {
    case K_FIELD:
      at++;
      scalar(t.f.op, t.f.opt, v.present, t.key);
      if (t.f.ty == T_SDEC && v.present) scalar(t.f.mop, false, true, t.mkey);
      break;
    case K_VEC: at++; if (v.present) at += (int)v.i; break;
    case K_GROUP: if (t.opt) { at++; if (!v.i) break; } nodes(t.ch, t.nch); break;
    case K_SEQ:
      at++;
      scalar(t.f.op, t.f.opt, v.present, t.key);
      if (v.present) for (unsigned k = 0; k < v.i; k++) nodes(t.ch, t.nch);
      break;
    case K_TREF: break; // not in templates where this matters
    }
  }
};
static bool delta_without_base(const RefDec &r, const TTpl &t, const Flat &want, bool reset) {
  int st[64];
  for (int i = 0; i < the_set.nkeys && i < 64; i++) st[i] = reset ? 0 : r.d[i].st;
  D6 d{want, st};
  d.at = 1; // want starts with the template identifier
  d.nodes(t.ch, t.nch);
  return d.hit;
}
// parameters t, u, w: templates of the first, second, third message (0: none; -1: any)
static void tree_encode() {
  const Desc *d = SETNAME::description();
  int ver = (int)symx_param("ver", 1), mode = (int)symx_param("mode", 3);
  Enc *e = mk_enc(ver, d), *e2 = (mode & 4) ? mk_enc(3 - ver, d) : nullptr;
  Dec *dec = (mode & 2) ? mk_dec((int)symx_param("dver", ver), d) : nullptr;
  if (symx_param("overlong", 1) == 0) { e->overlong(false); if (e2) e2->overlong(false); }
  RefDec ref(the_set);
  static const char *pn[3] = {"t", "u", "w"};
  int rst = (int)symx_param("reset", -1);
  Real rr(the_set, d);
  rr.maxseq = (int)symx_param("seq", 2); rr.dom = (int)symx_param("dom", 3); rr.slen = (unsigned)symx_param("len", 1); rr.dymax = (int)symx_param("depth", 1);
  for (int k = 0; k < 3; k++) {
    int id = (int)symx_param(pn[k], 0);
    if (id == 0) break;
    if (k) rr.maxseq = (int)symx_param("seq2", 1);
    bool reset = k == 0 || k == rst;
    const TTpl &t = the_set.tpl[id - 1];
    mfast::message_type m(mfast::malloc_allocator::instance(), rr.ins((unsigned)id));
    Flat want; want.num((unsigned)id);
    if (int sp = (int)symx_param("sparse", 0)) {
      rr.sparse = 1; rr.fno = 0;
      if (k) { rr.piv = (int)choose(0, (unsigned)sp, "piv"); rr.sparse = 2 + flip("pivmode"); }
    }
    rr.fill_all(m.mref(), t.ch, t.nch, want);
    char buf[256];
    std::size_t n;
    try { n = e->encode(m.cref(), buf, sizeof buf, reset); }
    catch (mfast::fast_error &) {
      // error D6
      CHECK(delta_without_base(ref, t, want, reset || t.reset), "tenc: encoder accepts the message");
      symx_cover("no base for delta");
      symx_cover("end");
      return;
    }
    n = symx_concretize(n);
    CHECK(n >= 1 && n <= sizeof buf, "tenc: length in range");
    for (std::size_t q = 0; q < n; q++) symx_log((uint8_t)buf[q]);
    uint8_t *wire = new uint8_t[n];
    for (std::size_t q = 0; q < n; q++) wire[q] = (uint8_t)buf[q];
    if (mode & 4) {
      char buf2[256];
      std::size_t n2 = e2->encode(m.cref(), buf2, sizeof buf2, reset);
      CHECK(n2 == n, "tenc: both encoders produce messages of the same length");
      uint8_t df = 0;
      for (std::size_t q = 0; q < n; q++) df |= (uint8_t)(buf[q] ^ buf2[q]);
      CHECK(df == 0, "tenc: both encoders produce the same bytes");
    }
    if (mode & 1) {
      RD r{wire, wire + n};
      Flat got;
      bool ok = ref.segment(r, reset, got, nullptr);
      CHECK(ok, "tenc: stream decodable by the reference decoder");
      CHECK(flat_same(want, got), "tenc: reference decoder reads the message written");
      CHECK(r.p == r.end, "tenc: no trailing bytes");
    }
    if (mode & 2) {
      const char *p = (const char *)wire;
      mfast::message_cref o = dec->decode(p, (const char *)wire + n, reset);
      CHECK(p == (const char *)wire + n, "trt: decoder consumes exactly the message");
      Flat got;
      rr.depth = 0;
      rr.read_msg(o, got);
      rr.depth = 0;
      CHECK(flat_same(want, got), "trt: message survives the round trip");
    }
    delete[] wire;
  }
  symx_cover("end");
}

// arbitrary bytes; mode 1: v1, 2: v2 against the reference decoder, 3: v1 against v2
static void tree_decode() {
  const Desc *d = SETNAME::description();
  int mode = (int)symx_param("mode", 1), N = (int)symx_param("n", 5), H = (int)symx_param("hist", 2), t = (int)symx_param("t", 1);
  Dec *d1 = (mode & 1) ? mk_dec(1, d) : nullptr, *d2 = (mode & 2) ? mk_dec(2, d) : nullptr;
  uint8_t *b = new uint8_t[N];
  symx_make_symbolic(b, N, "bytes");
  // presence maps of a given length with at most two bits set: the message's, or (at=1..) one at a given offset
  if (int pmn = (int)symx_param("pmn", 0)) {
    int at = (int)symx_param("at", 0);
    unsigned i = choose(0, (unsigned)(7 * pmn), "bit"), how = choose(0, 2, "how"), j = how == 0 ? i : how == 1 ? i + 1 : (unsigned)(7 * pmn - 1);
    uint8_t pm[64];
    for (int k = 0; k < pmn; k++) pm[k] = k == pmn - 1 ? 0x80 : 0;
    if (at == 0) pm[0] |= 0x40;
    if (i < (unsigned)(7 * pmn)) { pm[i / 7] |= (uint8_t)(0x40 >> i % 7); if (j < (unsigned)(7 * pmn)) pm[j / 7] |= (uint8_t)(0x40 >> j % 7); }
    for (int k = 0; k < pmn; k++) b[at + k] = pm[k]; // overwrites symbolic bytes: nothing of them is read
    if (at == 0) { b[pmn] = (uint8_t)(0x80 | t); }
    else { b[0] = 0xc0; b[1] = (uint8_t)(0x80 | t); b[2] = (uint8_t)(symx_param("b2", 0x80)); }
  } else
  if (t) symx_assume((b[0] & 0xc0) == 0xc0 && b[1] == (uint8_t)(0x80 | t));
  int only = (int)symx_param("u", 0); // restrict later messages to no template change or this one
  const char *first = (const char *)b, *last = (const char *)b + N, *p1 = first, *p2 = first;
  RD r{b, b + N};
  RefDec ref(the_set);
  Real rr(the_set, d);
  for (int k = 0; k < H; k++) {
    bool e1 = false, e2 = false;
    Flat f0, f1, f2;
    Status st = S_OK;
    if (mode != 3) {
      if (r.p >= r.end) break;
      if (k && only == 0) { symx_assume((r.p[0] & 0x40) == 0); }
      ref.depth = 0;
      ref.segment(r, k == 0, f0, nullptr);
      st = r.st;
      if (st == S_UNSPEC) { symx_cover("unspecified"); break; }
    } else if (p1 >= last) break;
    else if (k && only == 0) symx_assume((*p1 & 0x40) == 0);
    if (mode & 1) {
      try { mfast::message_cref o = d1->decode(p1, last, k == 0); rr.depth = 0; rr.read_msg(o, f1); }
      catch (boost::exception &) { e1 = true; }
    }
    if (mode & 2) {
      try { mfast::message_cref o = d2->decode(p2, last, k == 0); rr.depth = 0; rr.read_msg(o, f2); }
      catch (boost::exception &) { e2 = true; }
    }
    symx_log(e1); symx_log(e2);
    if (mode == 3) {
      CHECK(e1 == e2, "v1v2: both decoders accept or both reject");
      if (e1) { symx_cover("rejected"); break; }
      CHECK(p1 == p2, "v1v2: same bytes consumed");
      CHECK(flat_same(f1, f2), "v1v2: same message");
    } else {
      bool e = (mode & 1) ? e1 : e2;
      const Flat &f = (mode & 1) ? f1 : f2;
      if (st == S_RANGE) { symx_assert_kf(e, "tdec: integers out of range are rejected", "KF-range", 1); break; }
      if (st == S_ERR) { CHECK(e, "tdec: malformed input is rejected"); symx_cover("rejected"); break; }
      CHECK(!e, "tdec: well-formed input is accepted");
      log_flat(f);
      CHECK(flat_same(f, f0), "tdec: message as the specification says");
      CHECK(((mode & 1) ? p1 : p2) == (const char *)r.p, "tdec: bytes consumed");
    }
    symx_cover("accepted");
  }
  symx_cover("end");
}
// output buffers of every size, vectors, and going on after failures; templates t (before), u (the one that may fail), w (after)
static void tree_buffers() {
  const Desc *d = SETNAME::description();
  int ver = (int)symx_param("ver", 1), t = (int)symx_param("t", 0), u = (int)symx_param("u", 1), w = (int)symx_param("w", 1);
  Real rr(the_set, d);
  rr.maxseq = (int)symx_param("seq", 1); rr.dom = (int)symx_param("dom", 3); rr.slen = (unsigned)symx_param("len", 1); rr.dymax = (int)symx_param("depth", 1);
  auto mk = [&](int id) {
    auto *m = new mfast::message_type(mfast::malloc_allocator::instance(), rr.ins((unsigned)id));
    Flat want; want.num((unsigned)id);
    rr.fill_all(m->mref(), the_set.tpl[id - 1].ch, the_set.tpl[id - 1].nch, want);
    return m;
  };
  // values of the first and last message hardly matter: one path each
  if (symx_param("light", 0)) rr.sparse = 1;
  mfast::message_type *m1 = mk(u);
  rr.sparse = 1; // integers all 1
  mfast::message_type *m0 = t ? mk(t) : nullptr, *m2 = mk(w);
  encoder_buffers([&]() { return mk_enc(ver, d); }, symx_param("overlong", 1), m0, *m1, !t || symx_param("reset", 0), *m2);
}
// whatever came before, valid or not, a message decoded with a reset is decoded as by a new decoder
static void tree_recover() {
  const Desc *d = SETNAME::description();
  int ver = (int)symx_param("ver", 1), t = (int)symx_param("t", 1), u = (int)symx_param("u", 1), N = (int)symx_param("n", 5);
  std::unique_ptr<Dec> dec(mk_dec(ver, d));
  std::unique_ptr<Enc> e(mk_enc(ver, d));
  uint8_t *b = new uint8_t[N];
  symx_make_symbolic(b, N, "bytes");
  if (t) symx_assume((b[0] & 0xc0) == 0xc0 && b[1] == (uint8_t)(0x80 | t));
  bool failed = false;
  const char *p = (const char *)b;
  for (int k = 0; k < 2 && !failed && p < (const char *)b + N; k++) {
    const char *q = p;
    try { dec->decode(p, (const char *)b + N, k == 0); }
    catch (boost::exception &) { failed = true; CHECK(p == q, "rec: a failure does not move the read position"); }
  }
  symx_cover(failed ? "failed" : "accepted");
  Real rr(the_set, d);
  rr.maxseq = 1; rr.dom = 3; rr.slen = 1; rr.dymax = 1; rr.sparse = 1;
  for (int k = 0; k < 2; k++) {
    mfast::message_type m(mfast::malloc_allocator::instance(), rr.ins((unsigned)u));
    Flat want, got; want.num((unsigned)u);
    rr.fill_all(m.mref(), the_set.tpl[u - 1].ch, the_set.tpl[u - 1].nch, want);
    char buf[128];
    std::size_t n;
    try { n = symx_concretize(e->encode(m.cref(), buf, sizeof buf, k == 0)); } catch (mfast::fast_error &) { break; }
    const char *q = buf;
    rr.depth = 0;
    mfast::message_cref o = dec->decode(q, buf + n, k == 0);
    CHECK(q == buf + n, "rec: bytes consumed by the message after the reset");
    rr.read_msg(o, got);
    rr.depth = 0;
    CHECK(flat_same(want, got), "rec: the message after the reset");
  }
  symx_cover("end");
}
// everything allocated is given back, once, whatever was decoded or encoded
static void mem_decode(int ver, const Desc *d, const uint8_t *b, int N) {
  std::unique_ptr<Dec> dec(mk_dec(ver, d));
  const char *p = (const char *)b;
  try { for (int k = 0; k < 2 && p < (const char *)b + N; k++) dec->decode(p, (const char *)b + N, k == 0); }
  catch (boost::exception &) {}
}
static void mem_encode(int ver, const Desc *d, Real &rr, int t, int u, bool small) {
  std::unique_ptr<Enc> e(mk_enc(ver, d));
  std::unique_ptr<Dec> dec(mk_dec(ver, d));
  int ids[2] = {t, u};
  for (int k = 0; k < 2 && ids[k]; k++) {
    mfast::message_type m(mfast::malloc_allocator::instance(), rr.ins((unsigned)ids[k]));
    Flat want, got;
    rr.fill_all(m.mref(), the_set.tpl[ids[k] - 1].ch, the_set.tpl[ids[k] - 1].nch, want);
    std::vector<char> v;
    try { if (small) { char s[4]; e->encode(m.cref(), s, sizeof s, k == 0); } else e->encode(m.cref(), v, k == 0); } catch (boost::exception &) { return; }
    if (small) continue;
    const char *p = v.data();
    mfast::message_cref o = dec->decode(p, v.data() + v.size(), k == 0);
    mfast::message_type copy(o, mfast::malloc_allocator::instance());
    rr.depth = 0; rr.read_msg(copy.cref(), got); rr.depth = 0;
  }
}
static void tree_memory() {
  const Desc *d = SETNAME::description();
  int ver = (int)symx_param("ver", 1), t = (int)symx_param("t", 1), u = (int)symx_param("u", 0), N = (int)symx_param("n", 0);
  Real rr(the_set, d);
  rr.maxseq = 2; rr.dom = 3; rr.slen = 1; rr.dymax = 1;
  std::unique_ptr<uint8_t[]> b(new uint8_t[N + 2]);
  int64_t live = 0;
  for (int k = 0; k < 2; k++) { // the first round, with fixed input, creates whatever is created once
    live = symx_heap_live();
    if (N) {
      if (k == 0) { b[0] = 0xc0; b[1] = (uint8_t)(0x80 | t); mem_decode(ver, d, b.get(), 2); }
      else {
        symx_make_symbolic(b.get(), N, "bytes");
        if (t) symx_assume((b[0] & 0xc0) == 0xc0 && b[1] == (uint8_t)(0x80 | t));
        mem_decode(ver, d, b.get(), N);
      }
    } else if (k == 0) { b[0] = 0xc0; b[1] = 0x81; mem_decode(ver, d, b.get(), 2); mfast::message_type m(mfast::malloc_allocator::instance(), rr.ins(1)); mk_enc(ver, d); live = 0; }
    else mem_encode(ver, d, rr, t, u, symx_param("small", 0));
    if (k == 0 && !N) continue;
    if (k) CHECK(symx_heap_live() == live, "mem: everything allocated is freed");
  }
  symx_cover("end");
}
// ---- messages as values: equality, copies, assignment
static void read_is(Real &rr, const mfast::message_cref &m, const Flat &want, const char *tag) {
  Flat got(want.cap);
  rr.depth = 0; rr.read_msg(m, got); rr.depth = 0;
  CHECK(flat_same(want, got), tag);
}
static void tree_equal() {
  const Desc *d = SETNAME::description();
  int t = (int)symx_param("t", 1), u = (int)symx_param("u", t);
  Real rr(the_set, d);
  rr.maxseq = (int)symx_param("seq", 1); rr.dom = (int)symx_param("dom", 3); rr.slen = (unsigned)symx_param("len", 1); rr.dymax = (int)symx_param("depth", 1);
  mfast::message_type a(mfast::malloc_allocator::instance(), rr.ins((unsigned)t)), b(mfast::malloc_allocator::instance(), rr.ins((unsigned)u));
  Flat wa, wb;
  rr.fill_all(a.mref(), the_set.tpl[t - 1].ch, the_set.tpl[t - 1].nch, wa);
  rr.fill_all(b.mref(), the_set.tpl[u - 1].ch, the_set.tpl[u - 1].nch, wb);
  bool same = flat_same(wa, wb);
  bool e = a.cref() == b.cref(), f = b.cref() == a.cref();
  symx_log(e);
  CHECK(e == same, "val: messages compare equal if and only if their contents are the same");
  CHECK(f == same, "val: comparison the other way round");
  symx_cover(e ? "equal" : "different");
  symx_cover("end");
}
// M: the class generated for the template, or message_type
template <class M> struct Make { static M *make(Real &, unsigned, mfast::allocator *al) { return new M(al); } };
template <> struct Make<mfast::message_type> { static mfast::message_type *make(Real &rr, unsigned t, mfast::allocator *al) { return new mfast::message_type(al, rr.ins(t)); } };
template <class M> static mfast::message_mref mr(M &m) { return m.mref(); }
template <class M> static mfast::message_cref cr(const M &m) { return m.cref(); }
template <class M> static void one_copy(Real &rr, int how, int t, int u, mfast::allocator *al) {
  typedef std::unique_ptr<M> P;
  const TTpl &tp = the_set.tpl[t - 1], &up = the_set.tpl[u - 1];
  Flat w; w.num((unsigned)t);
  P a(Make<M>::make(rr, (unsigned)t, al)), c;
  rr.fill_all(mr(*a), tp.ch, tp.nch, w);
  rr.sparse = 1; rr.maxseq = 1; // what was there before and comes after
  if (how >= 3) { Flat wo; c.reset(Make<M>::make(rr, (unsigned)u, al)); rr.fill_all(mr(*c), up.ch, up.nch, wo); rr.fno = 0; }
  if (how == 0) c.reset(new M(a->cref(), al));
  else if (how == 5) mr(*c).as(cr(*a));
  else if (how == 7) { mr(*a).as(cr(*a)); c.reset(new M(a->cref(), al)); }
  else if constexpr (!std::is_copy_constructible<M>::value) symx_assume(0);
  else switch (how) {
  case 1: c.reset(new M(*a)); break;
  case 2: { M tmp(*a); c.reset(new M(std::move(tmp))); break; }
  case 3: *c = *a; break;
  case 4: { M tmp(*a); *c = std::move(tmp); break; }
  case 6: { M &self = *a; *a = self; *c = *a; break; }
  case 8: { std::vector<M> v; v.reserve(1); v.push_back(*c); v.push_back(*a); v.push_back(*c); *c = v[1]; read_is(rr, cr(v[1]), w, "val: messages in containers"); v.erase(v.begin()); read_is(rr, cr(v[0]), w, "val: messages in containers, after erasing"); break; }
  case 9: { M x(*a); std::swap(*c, x); break; }
  }
  read_is(rr, cr(*a), w, "val: copying leaves the original as it was");
  read_is(rr, cr(*c), w, "val: a copy has the contents of the original");
  CHECK(cr(*a) == cr(*c), "val: a copy equals the original");
  bool first = flip("first");
  Flat n1; n1.num((unsigned)t);
  rr.fill_all(mr(first ? *a : *c), tp.ch, tp.nch, n1);
  read_is(rr, cr(first ? *c : *a), w, "val: changing one leaves the other as it was");
  read_is(rr, cr(first ? *a : *c), n1, "val: a message and its copy can be changed");
  if (first) a.reset(); else c.reset();
  read_is(rr, cr(first ? *c : *a), w, "val: destroying one leaves the other as it was");
}
static void tree_copy() {
  const Desc *d = SETNAME::description();
  int t = (int)symx_param("t", 1), u = (int)symx_param("u", t), how = (int)symx_param("how", 0);
  auto *M = mfast::malloc_allocator::instance();
  std::unique_ptr<mfast::arena_allocator> arena;
  Real rr(the_set, d);
  rr.maxseq = (int)symx_param("seq", 1); rr.dom = (int)symx_param("dom", 3); rr.slen = (unsigned)symx_param("len", 1); rr.dymax = (int)symx_param("depth", 1);
  for (int i = 1; i <= the_set.n; i++) mfast::message_type m(M, rr.ins((unsigned)i)); // creates whatever is created once
  int64_t live = symx_heap_live();
  if (symx_param("arena", 0)) arena.reset(new mfast::arena_allocator);
  mfast::allocator *al = arena ? (mfast::allocator *)arena.get() : M;
  if (symx_param("gen", 0)) {
    switch (t) {
#define ONE(i, T) case i: one_copy<T>(rr, how, t, t, al); break;
    CAT(TYPES_, SETNAME)(ONE)
    }
  } else if (how == 10) { // without a template
    mfast::message_type e, f(e), g(M, rr.ins((unsigned)t));
    g = e; f = g; e = std::move(f);
    CHECK(g.instruction() == nullptr && e.instruction() == nullptr, "val: copies of empty messages");
  } else one_copy<mfast::message_type>(rr, how, t, u, al);
  arena.reset();
  CHECK(symx_heap_live() == live, "val: everything allocated is freed");
  symx_cover("end");
}
#ifdef SEQOPS
// sequences: arrays of elements.  Two messages of template t, whose first field is a sequence.
struct SeqModel {
  bool present; unsigned n = 0; Flat *e[6];
  SeqModel() : present(true) { for (auto &x : e) x = new Flat(8); }
  ~SeqModel() { for (auto &x : e) delete x; }
};
static void flat_copy(Flat &d, const Flat &s) { d.n = 0; for (int i = 0; i < s.n && i < s.cap; i++) d.put(s.v[i]); }
static void tree_seq_ops() {
  const Desc *d = SETNAME::description();
  int t = (int)symx_param("t", 1), steps = (int)symx_param("steps", 3), first = (int)symx_param("op", -1);
  auto *M = mfast::malloc_allocator::instance();
  Real rr(the_set, d);
  rr.maxseq = 1; rr.dom = 3; rr.slen = 1; rr.dymax = 1; rr.det = true;
  const TTpl &tp = the_set.tpl[t - 1];
  const TNode &nd = tp.ch[0];
  for (int i = 1; i <= the_set.n; i++) mfast::message_type m(M, rr.ins((unsigned)i));
  int64_t live = symx_heap_live();
  {
    SeqModel mod[2];
    mfast::message_type m[2] = {mfast::message_type(M, rr.ins((unsigned)t)), mfast::message_type(M, rr.ins((unsigned)t))};
    mfast::sequence_mref q[2] = {mfast::sequence_mref(m[0].mref()[0]), mfast::sequence_mref(m[1].mref()[0])};
    unsigned serial = 1;
    auto fill = [&](mfast::sequence_element_mref e, Flat &o) {
      o.n = 0; rr.fno = 0;
      for (int i = 0; i < nd.nch; i++) rr.fill(e[i], nd.ch[i], o);
      if (nd.ch[0].k == K_FIELD && nd.ch[0].f.ty == T_U32) { ++serial; mfast::uint32_mref(e[0]).as(serial); o.v[0].present = true; o.v[0].i = serial; }
    };
    auto grown = [&](int a, unsigned from) { // what is in new elements is not specified, but they are there
      for (unsigned k = from; k < mod[a].n; k++) { mod[a].e[k]->n = 0; for (int i = 0; i < nd.nch; i++) rr.read(q[a][k][i], nd.ch[i], *mod[a].e[k]); }
    };
    for (int a = 0; a < 2; a++) {
      CHECK(q[a].present() == !nd.opt && q[a].size() == 0, "sq: a new sequence");
      mod[a].present = !nd.opt;
      unsigned n = a ? 2 * choose(0, 1, "n0") : choose(0, 3, "n0");
      if (n == 3) continue;
      q[a].resize(n); mod[a].n = n; mod[a].present = true;
      for (unsigned k = 0; k < n; k++) fill(q[a][k], *mod[a].e[k]);
    }
    steps = (int)choose(1, (unsigned)steps, "steps");
    for (int s = 0; s < steps; s++) {
      unsigned op = s == 0 && first >= 0 ? (unsigned)first : choose(0, 10, "op");
      SeqModel &x = mod[0], &y = mod[1];
      switch (op) {
      case 0: { unsigned n = choose(0, 2, "n"), old = x.n; n += n == 2; q[0].resize(n); x.n = n; x.present = true; if (n > old) grown(0, old); break; }
      case 1: q[0].reserve(1 + 3 * choose(0, 1, "n")); break;
      case 2: {
        unsigned by = 2 * choose(0, 1, "n"), old = x.n;
        if (x.n + by > 5) symx_assume(0);
        auto it = q[0].grow_by(by);
        x.n += by; x.present = true;
        CHECK(it == q[0].begin() + old && it + by == q[0].end(), "sq: grow_by returns the first new element");
        grown(0, old);
        for (unsigned k = old; k < x.n; k++, ++it) fill(*it, *x.e[k]);
        break;
      }
      case 3: { if (!x.n) symx_assume(0); unsigned k = choose(0, x.n - 1, "k"); fill(q[0][k], *x.e[k]); break; }
      case 4: {
        if (!x.n) symx_assume(0);
        unsigned k = choose(0, x.n - 1, "k");
        int src = flip("src");
        if (!mod[src].n) symx_assume(0);
        unsigned j = choose(0, mod[src].n - 1, "j");
        mfast::sequence_element_cref c = q[src][j];
        q[0][k].as(c);
        if (src || j != k) flat_copy(*x.e[k], *mod[src].e[j]);
        break;
      }
      case 5: q[0].omit(); if (nd.opt) { x.present = false; x.n = 0; } break;
      case 6: q[0].swap(q[1]); std::swap(x.present, y.present); std::swap(x.n, y.n); std::swap(x.e, y.e); break;
      case 7: case 8: {
        int dst = op == 8, src = flip("src");
        mfast::sequence_cref c = mfast::sequence_cref(m[src].cref()[0]);
        q[dst].as(c);
        if (src != dst) { mod[dst].n = mod[src].n; mod[dst].present = mod[src].present; for (unsigned k = 0; k < mod[src].n; k++) flat_copy(*mod[dst].e[k], *mod[src].e[k]); }
        break;
      }
      case 9: {
        unsigned i = choose(0, y.n, "i"), j = choose(0, y.n, "j");
        if (i > j) symx_assume(0);
        mfast::sequence_cref c = mfast::sequence_cref(m[1].cref()[0]);
        q[0].assign(c.begin() + i, c.begin() + j);
        x.n = j - i; x.present = true;
        for (unsigned k = i; k < j; k++) flat_copy(*x.e[k - i], *y.e[k]);
        break;
      }
      case 10: {
        int keep = flip("keep");
        mfast::sequence_cref c = mfast::sequence_cref(m[0].cref()[0]);
        mfast::sequence_type st(c, M);
        if (keep) { q[1].as(st.cref()); y.n = x.n; y.present = x.present; for (unsigned k = 0; k < x.n; k++) flat_copy(*y.e[k], *x.e[k]); }
        break;
      }
      }
      if (s == steps - 1) for (int a = 0; a < 2; a++) {
        mfast::sequence_cref c = mfast::sequence_cref(m[a].cref()[0]);
        CHECK(c.present() == mod[a].present, "sq: present");
        if (!mod[a].present) continue;
        unsigned n = (unsigned)symx_concretize(c.size());
        CHECK(n == mod[a].n, "sq: number of elements");
        CHECK(c.end() - c.begin() == (std::ptrdiff_t)n && c.crend() - c.crbegin() == (std::ptrdiff_t)n, "sq: iterators");
        auto it = c.begin();
        auto rit = c.rbegin();
        for (unsigned k = 0; k < n; k++, ++it, ++rit) {
          Flat got(8), g2(8), g3(8);
          mfast::sequence_element_cref e = c[k], f = *it, g = *rit;
          for (int i = 0; i < nd.nch; i++) { rr.read(e[i], nd.ch[i], got); rr.read(f[i], nd.ch[i], g2); rr.read(g[i], nd.ch[i], g3); }
          CHECK(flat_same(got, *mod[a].e[k]), "sq: elements");
          CHECK(flat_same(g2, *mod[a].e[k]), "sq: elements, by iterator");
          CHECK(flat_same(g3, *mod[a].e[n - 1 - k]), "sq: elements, backwards");
        }
        CHECK(it == c.end() && rit == c.rend(), "sq: iterators reach the end");
      }
    }
  }
  CHECK(symx_heap_live() == live, "sq: everything allocated is freed");
  symx_cover("end");
}
ENTRY(CAT(tsq_, SETNAME)) { tree_seq_ops(); }
#endif
ENTRY(CAT(teq_, SETNAME)) { tree_equal(); }
ENTRY(CAT(tcpy_, SETNAME)) { tree_copy(); }
ENTRY(CAT(trec_, SETNAME)) { tree_recover(); }
ENTRY(CAT(tmem_, SETNAME)) { tree_memory(); }
ENTRY(CAT(tbuf_, SETNAME)) { tree_buffers(); }
ENTRY(CAT(tenc_, SETNAME)) { tree_encode(); }
ENTRY(CAT(tdec_, SETNAME)) { tree_decode(); }
