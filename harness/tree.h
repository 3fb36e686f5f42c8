// Structured templates as data (tables generated by templates/tree.py), the reference message decoder over them,
// and the bridge to real mFAST messages: everything is compared as one flat list of field values.
#pragma once
#include "msg.h"
#include "refcodec.h"

enum Kind : uint8_t { K_FIELD, K_GROUP, K_SEQ, K_TREF, K_VEC };
struct TNode {
  Kind k; bool opt; FSpec f; int key = -1, mkey = -1; const TNode *ch = nullptr; int nch = 0; uint32_t targets = 0;
};
struct TTpl { const char *name; unsigned id; bool reset, top; const TNode *ch; int nch; };
struct TSet { const TTpl *tpl; int n, nkeys; };

struct Flat { // list of field values
  FV *v; int n = 0, cap;
  explicit Flat(int c = (int)symx_param("cap", 48)) : v(new FV[c]), cap(c) {}
  Flat(const Flat &) = delete;
  ~Flat() { delete[] v; }
  void put(const FV &x) { if (n < cap) v[n] = x; n++; }
  void num(uint64_t x) { FV f; f.present = true; f.i = x; put(f); }
};
inline bool fv_same(const FV &a, const FV &b) {
  if (a.present != b.present) return false;
  if (!a.present) return true;
  bool r = (a.i == b.i) & (a.e == b.e);
  if (a.len != b.len) return false;
  uint8_t d = 0;
  for (uint32_t k = 0; k < a.len && k < MAXS; k++) d |= (uint8_t)(a.s[k] ^ b.s[k]);
  return r & (d == 0);
}
inline void log_flat(const Flat &f) {
  for (int i = 0; i < f.n && i < f.cap; i++) {
    symx_log(f.v[i].present);
    if (f.v[i].present) { symx_log(f.v[i].i); symx_log(f.v[i].len); for (unsigned k = 0; k < f.v[i].len && k < MAXS; k++) symx_log(f.v[i].s[k]); }
  }
}

// ---- reference ---------------------------------------------------------------------------------
inline unsigned bits_of(const TNode *ch, int n) {
  unsigned b = 0;
  for (int i = 0; i < n; i++)
    switch (ch[i].k) {
    case K_FIELD: case K_SEQ: b += ref_pmap_bits(ch[i].f); break;
    case K_GROUP: b += ch[i].opt; break;
    default: break;
    }
  return b;
}
struct RefDec {
  const TSet &S;
  DictEntry *d;
  unsigned cur = 0;   // current template, 0 unknown
  int depth = 0, maxseq = 3;
  explicit RefDec(const TSet &s) : S(s), d(new DictEntry[s.nkeys]) { if (s.n == 1) cur = s.tpl[0].id; }
  void reset() { for (int i = 0; i < S.nkeys; i++) d[i] = DictEntry(); }
  bool nodes(RD &r, PM &pm, const TNode *ch, int n, Flat &o) {
    for (int i = 0; i < n; i++) if (!node(r, pm, ch[i], o)) return false;
    return true;
  }
  bool node(RD &r, PM &pm, const TNode &t, Flat &o) {
    FV v;
    switch (t.k) {
    case K_FIELD: {
      if (t.f.ty != T_SDEC) {
        if (!ref_scalar(r, pm, t.f.ty, t.f.op, t.f.opt, t.f.init, d[t.key], v)) return false;
      } else {
        FV e, m;
        if (!ref_scalar(r, pm, T_I32, t.f.op, t.f.opt, t.f.init, d[t.key], e)) return false;
        if (e.present) {
          if ((int64_t)e.i < -63 || (int64_t)e.i > 63) { r.fail(S_UNSPEC); return false; }
          if (!ref_scalar(r, pm, T_I64, t.f.mop, false, t.f.minit, d[t.mkey], m)) return false;
          v.present = true; v.e = (int32_t)e.i; v.i = m.i;
        }
      }
      o.put(v);
      return true;
    }
    case K_VEC: {
      if (!r.val(T_U32, v, t.opt)) return false;
      if (v.present && v.i > (uint64_t)(r.end - r.p)) { r.fail(S_ERR); return false; }
      v.i = symx_concretize(v.i);
      o.put(v);
      if (!v.present) return true;
      unsigned n = (unsigned)v.i;
      for (unsigned k = 0; k < n; k++) { FV e; if (!r.val(t.f.ty, e, false)) return false; o.put(e); }
      return true;
    }
    case K_GROUP: {
      if (t.opt) { bool p = pm.next(); o.num(p); if (!p) return true; }
      if (bits_of(t.ch, t.nch)) { PM g; g.read(r); if (!r.ok()) return false; return nodes(r, g, t.ch, t.nch, o); }
      return nodes(r, pm, t.ch, t.nch, o);
    }
    case K_SEQ: {
      static DictEntry none;
      if (!ref_scalar(r, pm, T_U32, t.f.op, t.f.opt, t.f.init, t.key >= 0 ? d[t.key] : none, v)) return false;
      if (v.present && v.i <= (uint64_t)maxseq) v.i = symx_concretize(v.i);
      o.put(v);
      if (!v.present) return true;
      if (v.i > (uint64_t)maxseq) { // every element of the generated templates occupies at least a byte, unless it is made of inferrable fields only
        if (v.i > (uint64_t)(r.end - r.p)) r.fail(S_ERR); else r.fail(S_UNSPEC);
        return false;
      }
      unsigned n = (unsigned)v.i;
      for (unsigned k = 0; k < n; k++) {
        if (bits_of(t.ch, t.nch)) { PM g; g.read(r); if (!r.ok()) return false; if (!nodes(r, g, t.ch, t.nch, o)) return false; }
        else if (!nodes(r, pm, t.ch, t.nch, o)) return false;
      }
      return true;
    }
    case K_TREF: {
      if (++depth > 3) { r.fail(S_UNSPEC); return false; }
      unsigned saved = cur;
      bool ok = segment(r, false, o, nullptr);
      cur = saved;
      depth--;
      return ok;
    }
    }
    return false;
  }
  const TTpl *find(uint64_t id) { for (int i = 0; i < S.n; i++) if (S.tpl[i].id == id) return &S.tpl[i]; return nullptr; }
  bool segment(RD &r, bool force, Flat &o, const TTpl **out) {
    PM pm; pm.read(r);
    if (!r.ok()) return false;
    if (pm.next()) {
      uint64_t id; bool null;
      if (!r.u(id, 32, false, null)) return false;
      const TTpl *k = find(id); // branches: the template is concrete from here on
      if (!k) { r.fail(S_ERR); return false; } // D9
      cur = k->id;
    }
    const TTpl *t = find(cur);
    if (!t) { r.fail(S_ERR); return false; }
    if (out) *out = t;
    if (force || t->reset) reset();
    o.num(t->id);
    return nodes(r, pm, t->ch, t->nch, o);
  }
};

// ---- real messages -----------------------------------------------------------------------------
typedef const mfast::template_instruction *(*ins_of_t)(unsigned id);
struct Real {
  const TSet &S;
  const mfast::templates_description *desc;
  int maxseq = 2, dom = 3, strdom = 2, depth = 0, dymax = 2;
  unsigned slen = 1;
  char nm[8] = {0};
  int ctr = 0;
  bool det = false; // presence and lengths alternate instead of being symbolic
  int dno = 0;
  bool flp(const char *n) { return det ? (dno++ * 5 % 7 & 1) != 0 : flip(n); }
  unsigned chs(unsigned lo, unsigned hi, const char *n) { return det ? lo + dno++ * 5 % 7 % (hi - lo + 1) : choose(lo, hi, n); }
  int sparse = 0, piv = 0, fno = 0; // 1: integers are 1; 2: except number piv; 3: except numbers piv and up
  Real(const TSet &s, const mfast::templates_description *d) : S(s), desc(d) {}
  const mfast::template_instruction *ins(unsigned id) const { return *(desc->begin() + (id - 1)); }
  const char *name(char c) { nm[0] = c; nm[1] = (char)('0' + ctr / 10 % 10); nm[2] = (char)('0' + ctr % 10); nm[3] = 0; ctr++; return nm; }
  virtual ~Real() {}
  virtual FV draw(const FSpec &f) {
    const char *n = name('f');
    if (dom != 3) return sym_value(f, n, slen, dom);
    if (is_int(f.ty)) {
      FV v;
      if (sparse) {
        int k = fno++;
        if (f.op == O_CONST) { FV c = f.init; return c; }
        if (!(sparse == 2 && k == piv)) { v.present = true; v.i = sparse == 3 && k >= piv ? 2 : 1; return v; }
      }
      if (f.opt) { nm[3] = 'p'; nm[4] = 0; v.present = flp(nm); if (!v.present) return v; } else v.present = true;
      if (f.op == O_CONST) return f.init;
      nm[3] = 'v'; nm[4] = 0;
      uint8_t x = sym<uint8_t>(nm);
      symx_assume(x >= 1 && x < 63);
      v.i = x;
      return v;
    }
    if (f.ty == T_DEC || f.ty == T_SDEC) {
      FV v;
      if (f.opt) { nm[3] = 'p'; nm[4] = 0; v.present = flp(nm); if (!v.present) return v; } else v.present = true;
      if (f.op == O_CONST && f.ty == T_DEC) return f.init;
      nm[3] = 'v'; nm[4] = 0;
      uint8_t x[2]; symx_make_symbolic(x, 2, nm);
      symx_assume((x[0] >= 1) & (x[0] < 63) & (x[1] >= 1) & (x[1] <= 3));
      v.i = x[0]; v.e = x[1];
      return v;
    }
    if (det && f.opt) { if (!flp(n)) return FV(); FSpec g = f; g.opt = false; FV v; v.present = true; v.len = slen; for (unsigned k = 0; k < slen; k++) { v.s[k] = sym<uint8_t>(n); symx_assume((v.s[k] >= 1) & (v.s[k] < 127)); } return v; }
    return sym_value(f, n, slen, 2);
  }
  // fills a real field with symbolic content and records what was written
  template <class Agg> void fill_all(const Agg &m, const TNode *ch, int n, Flat &o) { for (int i = 0; i < n; i++) fill(m[i], ch[i], o); }
  void fill(const mfast::field_mref &f, const TNode &t, Flat &o) {
    switch (t.k) {
    case K_FIELD: {
      FV v = draw(t.f);
      if (!(t.f.op == O_CONST && !t.opt && t.f.ty != T_SDEC)) set_field(f, t.f.ty, v);
      o.put(v);
      break;
    }
    case K_VEC: {
      FV v;
      v.present = !t.opt || flp(name('p'));
      if (!v.present) { o.put(v); f.omit(); break; }
      v.i = chs(0, (unsigned)maxseq, name('n'));
      o.put(v);
      vec(f, t, (unsigned)v.i, o);
      break;
    }
    case K_GROUP: {
      if (t.opt) { bool p = flp(name('p')); o.num(p); if (!p) { f.omit(); break; } }
      mfast::group_mref g(f);
      fill_all(g, t.ch, t.nch, o);
      break;
    }
    case K_SEQ: {
      FV v;
      v.present = !t.opt || flp(name('p'));
      if (!v.present) { o.put(v); f.omit(); break; }
      v.i = t.f.op == O_CONST ? t.f.init.i : chs(0, (unsigned)maxseq, name('n'));
      o.put(v);
      mfast::sequence_mref s(f);
      s.resize((std::size_t)v.i);
      for (unsigned k = 0; k < v.i; k++) { mfast::sequence_element_mref e = s[k]; for (int i = 0; i < t.nch; i++) fill(e[i], t.ch[i], o); }
      break;
    }
    case K_TREF: {
      unsigned ids[32], n = 0;
      for (unsigned i = 1; i < 32; i++) if (t.targets >> i & 1) ids[n++] = i;
      unsigned id = ids[n == 1 ? 0 : chs(0, n - 1, name('t'))];
      if (++depth > dymax) symx_assume(0);
      const TTpl &tp = S.tpl[id - 1];
      o.num(id);
      mfast::message_mref m = mfast::nested_message_mref(f).rebind(ins(id));
      fill_all(m, tp.ch, tp.nch, o);
      depth--;
      break;
    }
    }
  }
  template <class I> void vec1(const mfast::field_mref &f, unsigned n, const TNode &t, Flat &o) {
    mfast::int_vector_mref<I> m(f);
    m.resize(n);
    FSpec fs = t.f; fs.opt = false;
    for (unsigned k = 0; k < n; k++) { FV v = draw(fs); m[k] = (I)v.i; o.put(v); }
  }
  void vec(const mfast::field_mref &f, const TNode &t, unsigned n, Flat &o) {
    switch (t.f.ty) {
    case T_U32: vec1<uint32_t>(f, n, t, o); break;
    case T_I32: vec1<int32_t>(f, n, t, o); break;
    case T_U64: vec1<uint64_t>(f, n, t, o); break;
    default: vec1<int64_t>(f, n, t, o); break;
    }
  }
  // reads a real message back
  template <class Agg> void read_all(const Agg &m, const TNode *ch, int n, Flat &o) { for (int i = 0; i < n; i++) read(m[i], ch[i], o); }
  template <class I> void rvec(const mfast::field_cref &f, Flat &o) {
    mfast::int_vector_cref<I> m(f);
    for (std::size_t k = 0; k < m.size(); k++) o.num(std::is_signed<I>::value ? (uint64_t)(int64_t)m[k] : (uint64_t)m[k]);
  }
  void read(const mfast::field_cref &f, const TNode &t, Flat &o) {
    switch (t.k) {
    case K_FIELD: o.put(get_field(f, t.f.ty)); break;
    case K_VEC: {
      if (f.absent()) { o.put(FV()); break; }
      std::size_t n = 0;
      switch (t.f.ty) { // sizes first
      case T_U32: n = mfast::int_vector_cref<uint32_t>(f).size(); o.num(symx_concretize(n)); rvec<uint32_t>(f, o); break;
      case T_I32: n = mfast::int_vector_cref<int32_t>(f).size(); o.num(symx_concretize(n)); rvec<int32_t>(f, o); break;
      case T_U64: n = mfast::int_vector_cref<uint64_t>(f).size(); o.num(symx_concretize(n)); rvec<uint64_t>(f, o); break;
      default: n = mfast::int_vector_cref<int64_t>(f).size(); o.num(symx_concretize(n)); rvec<int64_t>(f, o); break;
      }
      break;
    }
    case K_GROUP: {
      if (t.opt) { bool p = f.present(); o.num(p); if (!p) break; }
      mfast::group_cref g(f);
      read_all(g, t.ch, t.nch, o);
      break;
    }
    case K_SEQ: {
      if (f.absent()) { o.put(FV()); break; }
      mfast::sequence_cref s(f);
      unsigned n = (unsigned)symx_concretize(s.size());
      o.num(n);
      for (unsigned k = 0; k < n && k < 8; k++) { mfast::sequence_element_cref e = s[k]; for (int i = 0; i < t.nch; i++) read(e[i], t.ch[i], o); }
      break;
    }
    case K_TREF: {
      mfast::nested_message_cref m(f);
      const mfast::template_instruction *ti = m.target_instruction();
      if (!ti) { o.num(0); break; }
      unsigned id = ti->id();
      o.num(id);
      if (id == 0 || id > (unsigned)S.n || ++depth > 4) break;
      read_all(m.target(), S.tpl[id - 1].ch, S.tpl[id - 1].nch, o);
      depth--;
      break;
    }
    }
  }
  void read_msg(const mfast::message_cref &m, Flat &o) {
    o.num(m.id());
    if (m.id() == 0 || m.id() > (unsigned)S.n) return;
    read_all(m, S.tpl[m.id() - 1].ch, S.tpl[m.id() - 1].nch, o);
  }
};
inline bool flat_same(const Flat &a, const Flat &b) {
  if (a.n != b.n || a.n > a.cap) return false;
  bool r = true;
  for (int i = 0; i < a.n; i++) r &= fv_same(a.v[i], b.v[i]);
  return r;
}
