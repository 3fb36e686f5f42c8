// Hash-consed bit-vector expressions (width 1..64) with construction-time simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <memory>
#include <string>

enum Kind : uint8_t {
  K_Const, K_Sym, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle, K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
  K_UMulO, K_SMulO
};

typedef std::vector<uint32_t> SymSet; // sorted

struct Expr {
  Kind k;
  uint8_t w;
  uint32_t id;
  const Expr *a, *b, *c;
  uint64_t v;        // constant value / symbol id / extract low bit
  uint64_t kz, ko;   // known-zero / known-one bits
  const SymSet *syms;
  uint64_t bloom;
  mutable uint32_t epoch;
  mutable uint64_t ev;
  mutable void *z3;
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  return (int64_t)(v << (64 - w)) >> (64 - w);
}

E mkConst(uint64_t v, unsigned w);
E mkSym(uint32_t id); // 8-bit
E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a); // 1-bit
uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w);

// evaluation under a byte assignment
typedef std::vector<uint8_t> Assign;
struct Model { uint32_t id; Assign v; };
typedef std::shared_ptr<const Model> ModelP;
ModelP newModel(Assign &&a);
uint64_t evalExpr(E e, const Model &m);
std::string exprStr(E e, int depth = 6);
size_t exprCount();

// symbol registry
uint32_t symFor(const std::string &name, uint32_t idx);
const std::string &symName(uint32_t id);
uint32_t symCount();
