#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <cstdlib>
#include <cstdio>
#include <deque>

namespace {
struct Arena {
  char *p = nullptr, *e = nullptr;
  void *get(size_t n) {
    n = (n + 15) & ~15ull;
    if (p + n > e) { size_t k = 1 << 22; p = (char *)malloc(k); e = p + k; }
    void *r = p; p += n; return r;
  }
} arena;

struct Hash {
  size_t operator()(E x) const {
    uint64_t h = x->k * 0x9E3779B97F4A7C15ull + x->w;
    auto mix = [&](uint64_t z) { h ^= z + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(x->v); mix(x->a ? x->a->id + 1 : 0); mix(x->b ? x->b->id + 1 : 0); mix(x->c ? x->c->id + 1 : 0);
    return h;
  }
};
struct Eq {
  bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c;
  }
};
std::unordered_set<E, Hash, Eq> table;
uint32_t nextId = 0;
struct SSHash { size_t operator()(const SymSet *s) const { uint64_t h = 7; for (auto x : *s) h = (h ^ x) * 0x100000001b3ull + 13; return h; } };
struct SSEq { bool operator()(const SymSet *a, const SymSet *b) const { return *a == *b; } };
std::unordered_set<const SymSet *, SSHash, SSEq> ssTable;
const SymSet emptySS;

const SymSet *internSS(SymSet &&s) {
  if (s.empty()) return &emptySS;
  auto it = ssTable.find(&s);
  if (it != ssTable.end()) return *it;
  auto *n = new SymSet(std::move(s));
  ssTable.insert(n);
  return n;
}
const SymSet *unionSS(const SymSet *a, const SymSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  SymSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a;
  if (r.size() == b->size()) return b;
  return internSS(std::move(r));
}

inline uint64_t umin(E x) { return x->ko; }
inline uint64_t umax(E x) { return ~x->kz & maskw(x->w); }
inline int64_t smin(E x) {
  uint64_t s = 1ull << (x->w - 1);
  if (x->kz & s) return (int64_t)x->ko;
  return sextw(x->ko | s, x->w);
}
inline int64_t smax(E x) {
  uint64_t s = 1ull << (x->w - 1), m = ~x->kz & maskw(x->w);
  if (x->ko & s) return sextw(m, x->w);
  return (int64_t)(m & ~s);
}

void knownBits(Expr &x) {
  uint64_t M = maskw(x.w), kz = 0, ko = 0;
  E a = x.a, b = x.b, c = x.c;
  switch (x.k) {
  case K_Const: kz = ~x.v & M; ko = x.v; break;
  case K_And: kz = a->kz | b->kz; ko = a->ko & b->ko; break;
  case K_Or: kz = a->kz & b->kz; ko = a->ko | b->ko; break;
  case K_Xor: kz = (a->kz & b->kz) | (a->ko & b->ko); ko = (a->kz & b->ko) | (a->ko & b->kz); break;
  case K_Ite: kz = b->kz & c->kz; ko = b->ko & c->ko; break;
  case K_ZExt: kz = a->kz | (M & ~maskw(a->w)); ko = a->ko; break;
  case K_SExt: {
    uint64_t s = 1ull << (a->w - 1), hi = M & ~maskw(a->w);
    kz = a->kz | ((a->kz & s) ? hi : 0); ko = a->ko | ((a->ko & s) ? hi : 0); break;
  }
  case K_Concat: kz = (a->kz << b->w) | b->kz; ko = (a->ko << b->w) | b->ko; break;
  case K_Extract: kz = a->kz >> x.v; ko = a->ko >> x.v; break;
  case K_Add: {
    // trailing zeros and range
    unsigned i = 0;
    while (i < x.w && (((a->kz & b->kz) >> i) & 1)) i++;
    kz = i >= 64 ? ~0ull : ((1ull << i) - 1);
    uint64_t ma = umax(a), mb = umax(b), s = ma + mb;
    if (s >= ma && s <= M) { uint64_t t = s; for (int k = 1; k < 64; k <<= 1) t |= t >> k; kz |= M & ~t; }
    break;
  }
  case K_Mul: {
    unsigned __int128 p = (unsigned __int128)umax(a) * umax(b);
    if (p <= M) { uint64_t t = (uint64_t)p; for (int k = 1; k < 64; k <<= 1) t |= t >> k; kz |= M & ~t; }
    break;
  }
  case K_UDiv: {
    if (umin(b) > 0) { uint64_t t = umax(a) / umin(b); for (int k = 1; k < 64; k <<= 1) t |= t >> k; kz |= M & ~t; }
    break;
  }
  case K_URem: {
    if (umin(b) > 0) { uint64_t t = std::min(umax(a), umax(b) - 1); for (int k = 1; k < 64; k <<= 1) t |= t >> k; kz |= M & ~t; }
    break;
  }
  case K_LShr: { uint64_t t = umax(a); for (int k = 1; k < 64; k <<= 1) t |= t >> k; kz |= M & ~t; break; }
  default: break;
  }
  x.kz = kz & M; x.ko = ko & M;
}

E intern(Kind k, unsigned w, E a, E b, E c, uint64_t v) {
  Expr t; t.k = k; t.w = w; t.a = a; t.b = b; t.c = c; t.v = v;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  knownBits(t);
  if (k != K_Const && ((t.kz | t.ko) == maskw(w))) return mkConst(t.ko, w);
  t.id = nextId++;
  const SymSet *s = &emptySS;
  if (k == K_Sym) s = internSS(SymSet{(uint32_t)v});
  if (a) s = a->syms;
  if (b) s = unionSS(s, b->syms);
  if (c) s = unionSS(s, c->syms);
  t.syms = s; t.bloom = 0;
  for (auto q : *s) t.bloom |= 1ull << (q & 63);
  t.epoch = 0; t.ev = 0; t.z3 = nullptr;
  auto *n = new (arena.get(sizeof(Expr))) Expr(t);
  table.insert(n);
  return n;
}
std::vector<std::string> symNames;
std::map<std::pair<std::string, uint32_t>, uint32_t> symMap;
uint32_t modelId = 0;
} // namespace

uint32_t symFor(const std::string &name, uint32_t idx) {
  auto key = std::make_pair(name, idx);
  auto it = symMap.find(key);
  if (it != symMap.end()) return it->second;
  uint32_t id = symNames.size();
  symNames.push_back(name + "[" + std::to_string(idx) + "]");
  symMap[key] = id;
  return id;
}
const std::string &symName(uint32_t id) { return symNames[id]; }
uint32_t symCount() { return symNames.size(); }
size_t exprCount() { return nextId; }

E mkConst(uint64_t v, unsigned w) { return intern(K_Const, w, 0, 0, 0, v & maskw(w)); }
E mkSym(uint32_t id) { return intern(K_Sym, 8, 0, 0, 0, id); }

uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t M = maskw(w);
  switch (k) {
  case K_Add: return (a + b) & M;
  case K_Sub: return (a - b) & M;
  case K_Mul: return (a * b) & M;
  case K_UDiv: return b ? a / b : M;
  case K_URem: return b ? a % b : a;
  case K_SDiv: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (y == 0) return x < 0 ? 1 : M;
    if (y == -1) return (0 - a) & M;
    return (uint64_t)(x / y) & M;
  }
  case K_SRem: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (y == 0) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & M;
  }
  case K_And: return a & b;
  case K_Or: return a | b;
  case K_Xor: return a ^ b;
  case K_Shl: return b >= w ? 0 : (a << b) & M;
  case K_LShr: return b >= w ? 0 : a >> b;
  case K_AShr: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & M;
  case K_Eq: return a == b;
  case K_Ult: return a < b;
  case K_Ule: return a <= b;
  case K_Slt: return sextw(a, w) < sextw(b, w);
  case K_Sle: return sextw(a, w) <= sextw(b, w);
  case K_UMulO: return ((unsigned __int128)a * b) > M;
  case K_SMulO: {
    __int128 p = (__int128)sextw(a, w) * sextw(b, w);
    return p != (__int128)sextw((uint64_t)p & M, w);
  }
  default: abort();
  }
}

E mkNot(E a) {
  if (a->k == K_Const) return mkConst(!a->v, 1);
  if (a->k == K_Xor && a->b->k == K_Const) return a->a;
  if (a->k == K_Ult) return mkBin(K_Ule, a->b, a->a);
  if (a->k == K_Ule) return mkBin(K_Ult, a->b, a->a);
  if (a->k == K_Slt) return mkBin(K_Sle, a->b, a->a);
  if (a->k == K_Sle) return mkBin(K_Slt, a->b, a->a);
  return intern(K_Xor, 1, a, mkConst(1, 1), 0, 0);
}

static unsigned topBit(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }

E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  bool cmp = k >= K_Eq && k <= K_Sle;
  bool bool1 = cmp || k == K_UMulO || k == K_SMulO;
  unsigned rw = bool1 ? 1 : w;
  if (a->k == K_Const && b->k == K_Const) return mkConst(foldBin(k, a->v, b->v, w), rw);
  uint64_t M = maskw(w);
  // commutative: constant to the right, otherwise order by id
  if (k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq || k == K_UMulO || k == K_SMulO) {
    if (a->k == K_Const || (b->k != K_Const && a->id > b->id)) std::swap(a, b);
  }
  bool bc = b->k == K_Const;
  uint64_t bv = b->v;
  switch (k) {
  case K_Sub:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(K_Add, a, mkConst(0 - bv, w));
    if (a->k == K_Add && a->b == b) return a->a;
    if (a->k == K_Add && a->a == b) return a->b;
    if (a->k == K_Add && a->b->k == K_Const && b->k == K_Add && b->b->k == K_Const && a->a == b->a)
      return mkConst(a->b->v - b->b->v, w);
    if (b->k == K_Add && b->a == a && b->b->k == K_Const) return mkConst(0 - b->b->v, w);
    break;
  case K_Add:
    if (bc && bv == 0) return a;
    if (bc && a->k == K_Add && a->b->k == K_Const) return mkBin(K_Add, a->a, mkConst(a->b->v + bv, w));
    if (w == 1) return mkBin(K_Xor, a, b);
    if (b->k == K_Sub && b->b == a) return b->a;
    if (a->k == K_Sub && a->b == b) return a->a;
    if ((umax(a) & umax(b)) == 0) return mkBin(K_Or, a, b);
    break;
  case K_Mul:
    if (bc && bv == 0) return b;
    if (bc && bv == 1) return a;
    if (bc && (bv & (bv - 1)) == 0) return mkBin(K_Shl, a, mkConst(__builtin_ctzll(bv), w));
    if (w == 1) return mkBin(K_And, a, b);
    break;
  case K_UDiv:
    if (bc && bv == 1) return a;
    if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_LShr, a, mkConst(__builtin_ctzll(bv), w));
    if (umax(a) < umin(b)) return mkConst(0, w);
    break;
  case K_URem:
    if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_And, a, mkConst(bv - 1, w));
    if (umax(a) < umin(b)) return a;
    break;
  case K_SDiv:
    if (bc && bv == 1) return a;
    if (w > 1 && smin(a) >= 0 && smin(b) >= 0) return mkBin(K_UDiv, a, b);
    break;
  case K_SRem:
    if (w > 1 && smin(a) >= 0 && smin(b) >= 0) return mkBin(K_URem, a, b);
    break;
  case K_And: {
    if (a == b) return a;
    if (bc) {
      if (bv == 0) return b;
      if ((umax(a) & ~bv) == 0) return a;
      uint64_t eff = bv & umax(a);
      if (eff == 0) return mkConst(0, w);
      // contiguous run of ones relative to possible bits
      unsigned lo = __builtin_ctzll(eff), hi = topBit(eff);
      uint64_t run = maskw(hi) & ~maskw(lo);
      if ((run & bv) == (run & umax(a) & bv) && ((run & ~bv) & umax(a)) == 0) {
        E m = mkExtract(a, lo, hi - lo);
        if (lo) m = mkConcat(m, mkConst(0, lo));
        return mkZExt(m, w);
      }
      if (a->k == K_And && a->b->k == K_Const) return mkBin(K_And, a->a, mkConst(a->b->v & bv, w));
    } else {
      if ((umax(a) & umax(b)) == 0) return mkConst(0, w);
    }
    if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
    break;
  }
  case K_Or: {
    if (a == b) return a;
    if (bc && bv == 0) return a;
    if (bc && bv == M) return b;
    if ((umax(a) & ~b->ko) == 0) return b;
    if ((umax(b) & ~a->ko) == 0) return a;
    if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
    if (w > 1) {
      // disjoint halves => concat
      unsigned t = topBit(umax(b));
      if (t < w && (umax(a) & maskw(t)) == 0) return mkConcat(mkExtract(a, t, w - t), mkExtract(b, 0, t));
      t = topBit(umax(a));
      if (t < w && (umax(b) & maskw(t)) == 0) return mkConcat(mkExtract(b, t, w - t), mkExtract(a, 0, t));
      if (bc && a->k == K_Concat) return mkConcat(mkBin(K_Or, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(K_Or, a->b, mkConst(bv, a->b->w)));
      if (bc && a->k == K_ZExt) {
        unsigned aw = a->a->w;
        return mkConcat(mkConst(bv >> aw, w - aw), mkBin(K_Or, a->a, mkConst(bv, aw)));
      }
      if (bc) {
        // constant high / low part: split so that the constant bits become explicit
        unsigned lz = __builtin_ctzll(bv), hb = topBit(bv);
        uint64_t run = maskw(hb) & ~maskw(lz);
        if (run == bv) {
          E r = mkConst(maskw(hb - lz), hb - lz);
          if (lz) r = mkConcat(r, mkExtract(a, 0, lz));
          if (hb < w) r = mkConcat(mkExtract(a, hb, w - hb), r);
          return r;
        }
      }
    }
    break;
  }
  case K_Xor:
    if (a == b) return mkConst(0, w);
    if (bc && bv == 0) return a;
    if (w == 1 && bc) return mkNot(a);
    if (bc && a->k == K_Xor && a->b->k == K_Const) return mkBin(K_Xor, a->a, mkConst(a->b->v ^ bv, w));
    if (!bc && (umax(a) & umax(b)) == 0) return mkBin(K_Or, a, b);
    break;
  case K_Shl:
    if (bc) {
      if (bv == 0) return a;
      if (bv >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv));
    }
    break;
  case K_LShr:
    if (bc) {
      if (bv == 0) return a;
      if (bv >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, bv, w - bv), w);
    }
    break;
  case K_AShr:
    if (bc) {
      if (bv == 0) return a;
      if (bv >= w) bv = w - 1;
      return mkSExt(mkExtract(a, bv, w - bv), w);
    }
    break;
  case K_Eq: {
    if (a == b) return mkConst(1, 1);
    if ((a->kz & b->ko) | (a->ko & b->kz)) return mkConst(0, 1);
    if (w == 1 && bc) return bv ? a : mkNot(a);
    if (bc) {
      if (a->k == K_ZExt) return mkBin(K_Eq, a->a, mkConst(bv, a->a->w));
      if (a->k == K_SExt) {
        E s = mkConst(bv, a->a->w);
        if ((uint64_t)sextw(s->v, s->w) == (uint64_t)sextw(bv, w)) return mkBin(K_Eq, a->a, s);
        return mkConst(0, 1);
      }
      if (a->k == K_Concat)
        return mkBin(K_And, mkBin(K_Eq, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(K_Eq, a->b, mkConst(bv, a->b->w)));
      if (a->k == K_Add && a->b->k == K_Const) return mkBin(K_Eq, a->a, mkConst(bv - a->b->v, w));
      if (a->k == K_Xor && a->b->k == K_Const) return mkBin(K_Eq, a->a, mkConst(bv ^ a->b->v, w));
      if (a->k == K_Sub && bv == 0) return mkBin(K_Eq, a->a, a->b);
      if (a->k == K_Ite && (a->b->k == K_Const || a->c->k == K_Const))
        return mkIte(a->a, mkBin(K_Eq, a->b, b), mkBin(K_Eq, a->c, b));
    } else {
      if (a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w)
        return mkBin(K_And, mkBin(K_Eq, a->a, b->a), mkBin(K_Eq, a->b, b->b));
      if (a->k == K_ZExt && b->k == K_ZExt) {
        unsigned q = std::max(a->a->w, b->a->w);
        return mkBin(K_Eq, mkZExt(a->a, q), mkZExt(b->a, q));
      }
      if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkBin(K_Eq, a->a, b->a);
      if (a->k == K_Add && b->k == K_Add && a->b == b->b) return mkBin(K_Eq, a->a, b->a);
    }
    break;
  }
  case K_Ult:
    if (a == b) return mkConst(0, 1);
    if (umax(a) < umin(b)) return mkConst(1, 1);
    if (umin(a) >= umax(b)) return mkConst(0, 1);
    if (bc && bv == 1) return mkBin(K_Eq, a, mkConst(0, w));
    if (a->k == K_Const && a->v == 0) return mkNot(mkBin(K_Eq, b, mkConst(0, w)));
    if (bc && a->k == K_ZExt && bv <= maskw(a->a->w)) return mkBin(K_Ult, a->a, mkConst(bv, a->a->w));
    if (a->k == K_Const && b->k == K_ZExt && a->v <= maskw(b->a->w)) return mkBin(K_Ult, mkConst(a->v, b->a->w), b->a);
    if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(K_Ult, a->a, b->a);
    break;
  case K_Ule:
    if (a == b) return mkConst(1, 1);
    if (umax(a) <= umin(b)) return mkConst(1, 1);
    if (umin(a) > umax(b)) return mkConst(0, 1);
    if (bc && bv != M) return mkBin(K_Ult, a, mkConst(bv + 1, w));
    if (a->k == K_Const && a->v != 0) return mkBin(K_Ult, mkConst(a->v - 1, w), b);
    if (a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkBin(K_Ule, a->a, b->a);
    break;
  case K_Slt:
    if (a == b) return mkConst(0, 1);
    if (smax(a) < smin(b)) return mkConst(1, 1);
    if (smin(a) >= smax(b)) return mkConst(0, 1);
    if (bc && bv == 0) return mkExtract(a, w - 1, 1);
    if (a->k == K_Const && a->v == M) return mkNot(mkExtract(b, w - 1, 1));
    if (w > 1 && smin(a) >= 0 && smin(b) >= 0) return mkBin(K_Ult, a, b);
    break;
  case K_Sle:
    if (a == b) return mkConst(1, 1);
    if (smax(a) <= smin(b)) return mkConst(1, 1);
    if (smin(a) > smax(b)) return mkConst(0, 1);
    if (w > 1 && smin(a) >= 0 && smin(b) >= 0) return mkBin(K_Ule, a, b);
    if (bc && bv != (M >> 1)) return mkBin(K_Slt, a, mkConst(bv + 1, w));
    if (a->k == K_Const && a->v != (1ull << (w - 1))) return mkBin(K_Slt, mkConst(a->v - 1, w), b);
    break;
  case K_UMulO:
    if (((unsigned __int128)umax(a) * umax(b)) <= M) return mkConst(0, 1);
    break;
  case K_SMulO:
    if (w > 1 && smin(a) >= 0 && smin(b) >= 0 && ((unsigned __int128)smax(a) * smax(b)) <= (M >> 1)) return mkConst(0, 1);
    break;
  default: break;
  }
  // push binary operator with a constant through an ite with constant arms
  if (bc && a->k == K_Ite && a->b->k == K_Const && a->c->k == K_Const)
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  if (a->k == K_Const && b->k == K_Ite && b->b->k == K_Const && b->c->k == K_Const)
    return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
  return intern(k, rw, a, b, 0, 0);
}

E mkIte(E c, E a, E b) {
  if (c->k == K_Const) return c->v ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->k == K_Const) return a->v ? mkBin(K_Or, c, b) : mkBin(K_And, mkNot(c), b);
    if (b->k == K_Const) return b->v ? mkBin(K_Or, mkNot(c), a) : mkBin(K_And, c, a);
  }
  if (c->k == K_Xor && c->w == 1 && c->b->k == K_Const) return mkIte(c->a, b, a);
  if (a->w > 1 && a->k == K_Const && b->k == K_Const && a->v == 1 && b->v == 0) return mkZExt(c, a->w);
  if (a->k == K_Ite && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_Ite && b->a == c) return mkIte(c, a, b->c);
  if (a->k == K_ZExt && b->k == K_Const && b->v <= maskw(a->a->w)) return mkZExt(mkIte(c, a->a, mkConst(b->v, a->a->w)), a->w);
  if (b->k == K_ZExt && a->k == K_Const && a->v <= maskw(b->a->w)) return mkZExt(mkIte(c, mkConst(a->v, b->a->w), b->a), a->w);
  return intern(K_Ite, a->w, c, a, b, 0);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) abort();
  if (hi->k == K_Const && lo->k == K_Const) return mkConst((hi->v << lo->w) | lo->v, w);
  if (hi->k == K_Const && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(lo->a, lo->v, w);
  // x[w-1..k] ++ x-low directly (lo is whole low part given as ZExt/Extract of a)
  if (hi->k == K_Extract && lo->k == K_Concat && lo->a->k == K_Extract && lo->a->a == hi->a && hi->v == lo->a->v + lo->a->w)
    return mkConcat(mkExtract(hi->a, lo->a->v, hi->w + lo->a->w), lo->b);
  // right-nested normal form
  if (hi->k == K_Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == K_ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K_Const && lo->k == K_Concat && lo->a->k == K_Const) return mkConcat(mkConst((hi->v << lo->a->w) | lo->a->v, hi->w + lo->a->w), lo->b);
  return intern(K_Concat, w, hi, lo, 0, 0);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) abort();
  switch (a->k) {
  case K_Const: return mkConst(a->v >> lo, w);
  case K_Extract: return mkExtract(a->a, a->v + lo, w);
  case K_Concat: {
    unsigned bw = a->b->w;
    if (lo >= bw) return mkExtract(a->a, lo - bw, w);
    if (lo + w <= bw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - bw), mkExtract(a->b, lo, bw - lo));
  }
  case K_ZExt: {
    unsigned aw = a->a->w;
    if (lo >= aw) return mkConst(0, w);
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, aw - lo), w);
  }
  case K_SExt: {
    unsigned aw = a->a->w;
    if (lo + w <= aw) return mkExtract(a->a, lo, w);
    if (lo >= aw) return mkSExt(mkExtract(a->a, aw - 1, 1), w);
    return mkSExt(mkExtract(a->a, lo, aw - lo), w);
  }
  case K_And: case K_Or: case K_Xor:
    return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_Add: case K_Sub: case K_Mul:
    if (lo == 0 && w >= 32) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_Ite:
    return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  default: break;
  }
  uint64_t m = maskw(w), kz = (a->kz >> lo) & m, ko = (a->ko >> lo) & m;
  if ((kz | ko) == m) return mkConst(ko, w);
  return intern(K_Extract, w, a, 0, 0, lo);
}

E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->k == K_Const) return mkConst(a->v, w);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  // strip known-zero high bits so that equal values share one shape
  unsigned t = topBit(umax(a));
  if (t == 0) return mkConst(0, w);
  if (t < a->w && (a->k == K_Concat)) return mkZExt(mkExtract(a, 0, t), w);
  return intern(K_ZExt, w, a, 0, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->k == K_Const) return mkConst((uint64_t)sextw(a->v, a->w), w);
  if (a->k == K_SExt) return mkSExt(a->a, w);
  if (a->kz >> (a->w - 1)) return mkZExt(a, w);
  return intern(K_SExt, w, a, 0, 0, 0);
}

ModelP newModel(Assign &&v) {
  auto m = std::make_shared<Model>();
  m->id = ++modelId; m->v = std::move(v);
  return m;
}

uint64_t evalExpr(E e, const Model &m) {
  if (e->k == K_Const) return e->v;
  if (e->k == K_Sym) return e->v < m.v.size() ? m.v[e->v] : 0;
  if (e->epoch == m.id) return e->ev;
  uint64_t r;
  switch (e->k) {
  case K_Ite: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
  case K_Concat: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
  case K_Extract: r = (evalExpr(e->a, m) >> e->v) & maskw(e->w); break;
  case K_ZExt: r = evalExpr(e->a, m); break;
  case K_SExt: r = (uint64_t)sextw(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
  default: r = foldBin(e->k, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w); break;
  }
  e->epoch = m.id; e->ev = r;
  return r;
}

static const char *kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","umulo","smulo"};
std::string exprStr(E e, int d) {
  if (e->k == K_Const) { char b[40]; snprintf(b, 40, "0x%llx:%u", (unsigned long long)e->v, e->w); return b; }
  if (e->k == K_Sym) return symName(e->v);
  if (d == 0) return "..";
  std::string s = std::string("(") + kn[e->k] + ":" + std::to_string(e->w);
  if (e->k == K_Extract) s += "@" + std::to_string(e->v);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
