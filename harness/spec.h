// Field values, field specifications and the reference FAST 1.1 codec used as oracle.
// Written from the FAST 1.1 specification; shares no code with /repo.
#pragma once
#include "symx.h"
#include <cstring>

enum Ty : uint8_t { T_U32, T_I32, T_U64, T_I64, T_DEC, T_ASC, T_UNI, T_BV, T_SDEC };
enum Op : uint8_t { O_NONE, O_CONST, O_DEF, O_COPY, O_INC, O_DELTA, O_TAIL };
enum { MAXS = 12 };

struct FV { // a field value
  bool present = false;
  uint64_t i = 0;           // integers (two's complement), decimal mantissa
  int32_t e = 0;            // decimal exponent
  uint32_t len = 0;
  uint8_t s[MAXS] = {0};
};
inline FV iv_none() { return FV(); }
inline FV iv_int(int64_t v) { FV f; f.present = true; f.i = (uint64_t)v; return f; }
inline FV iv_dec(int64_t m, int e) { FV f; f.present = true; f.i = (uint64_t)m; f.e = e; return f; }
inline FV iv_str(const char *p, unsigned n) { FV f; f.present = true; f.len = n; for (unsigned k = 0; k < n; k++) f.s[k] = (uint8_t)p[k]; return f; }

struct FSpec { Ty ty; Op op; bool opt; FV init; Op mop = O_NONE; FV minit; };
struct Spec { const char *name; int nf; FSpec f; };

inline bool is_str(Ty t) { return t == T_ASC || t == T_UNI || t == T_BV; }
inline bool is_int(Ty t) { return t <= T_I64; }
inline bool is_signed_ty(Ty t) { return t == T_I32 || t == T_I64; }

inline bool fv_eq(Ty t, const FV &a, const FV &b) {
  if (a.present != b.present) return false;
  if (!a.present) return true;
  if (is_str(t)) {
    if (a.len != b.len) return false;
    uint8_t d = 0;
    for (uint32_t k = 0; k < a.len && k < MAXS; k++) d |= (uint8_t)(a.s[k] ^ b.s[k]);
    return d == 0;
  }
  if (t == T_DEC || t == T_SDEC) return (a.i == b.i) & (a.e == b.e);
  return a.i == b.i;
}
