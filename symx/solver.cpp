#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>

SolverStats solverStats;
static Z3_context ctx;
static Z3_solver inc;
static unsigned timeoutMs = 60000;
static Z3_sort bvs[65];
static Z3_ast one1, zero1;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static Z3_solver mkS(bool incremental) {
  Z3_solver s;
  if (incremental) s = Z3_mk_simple_solver(ctx);
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), incremental ? 1500 : timeoutMs);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
  return s;
}
void solverInit(unsigned t, const char *) {
  timeoutMs = t;
  Z3_config c = Z3_mk_config();
  ctx = Z3_mk_context_rc(c);
  Z3_set_error_handler(ctx, onErr);
  Z3_del_config(c);
  for (int i = 1; i <= 64; i++) { bvs[i] = Z3_mk_bv_sort(ctx, i); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[i])); }
  one1 = Z3_mk_unsigned_int64(ctx, 1, bvs[1]); Z3_inc_ref(ctx, one1);
  zero1 = Z3_mk_unsigned_int64(ctx, 0, bvs[1]); Z3_inc_ref(ctx, zero1);
  inc = mkS(true);
}

static Z3_ast bool2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, one1, zero1); }
static Z3_ast tr(E e);
static std::unordered_map<E, Z3_ast> boolMap;
// width-1 expressions as z3 booleans
static Z3_ast trB(E e) {
  auto it = boolMap.find(e);
  if (it != boolMap.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
  case K_Const: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K_Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, trB(e->a), trB(e->b)) : Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
  case K_Ult: r = Z3_mk_bvult(ctx, tr(e->a), tr(e->b)); break;
  case K_Ule: r = Z3_mk_bvule(ctx, tr(e->a), tr(e->b)); break;
  case K_Slt: r = Z3_mk_bvslt(ctx, tr(e->a), tr(e->b)); break;
  case K_Sle: r = Z3_mk_bvsle(ctx, tr(e->a), tr(e->b)); break;
  case K_And: { Z3_ast x[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
  case K_Or: { Z3_ast x[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
  case K_Xor: if (e->b->k == K_Const && e->b->v) r = Z3_mk_not(ctx, trB(e->a)); else r = Z3_mk_xor(ctx, trB(e->a), trB(e->b)); break;
  case K_Ite: r = Z3_mk_ite(ctx, trB(e->a), trB(e->b), trB(e->c)); break;
  case K_UMulO: { Z3_ast o = Z3_mk_bvmul_no_overflow(ctx, tr(e->a), tr(e->b), false); Z3_inc_ref(ctx, o); r = Z3_mk_not(ctx, o); break; }
  case K_SMulO: {
    Z3_ast x[2] = {Z3_mk_bvmul_no_overflow(ctx, tr(e->a), tr(e->b), true), nullptr};
    Z3_inc_ref(ctx, x[0]);
    x[1] = Z3_mk_bvmul_no_underflow(ctx, tr(e->a), tr(e->b)); Z3_inc_ref(ctx, x[1]);
    Z3_ast y = Z3_mk_and(ctx, 2, x); Z3_inc_ref(ctx, y);
    r = Z3_mk_not(ctx, y); break;
  }
  default: r = Z3_mk_eq(ctx, tr(e), one1); break;
  }
  Z3_inc_ref(ctx, r);
  boolMap[e] = r;
  return r;
}
static Z3_ast tr(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r;
  if (e->w == 1 && e->k != K_Extract && e->k != K_Sym && e->k != K_Const &&
      !(e->k == K_Add || e->k == K_Sub || e->k == K_Mul || (e->k >= K_UDiv && e->k <= K_SRem) || (e->k >= K_Shl && e->k <= K_AShr)))
    r = bool2bv(trB(e));
  else switch (e->k) {
  case K_Const: r = Z3_mk_unsigned_int64(ctx, e->v, bvs[e->w]); break;
  case K_Sym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->v), bvs[8]); break;
  case K_Add: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
  case K_Sub: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
  case K_Mul: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
  case K_UDiv: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
  case K_SDiv: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
  case K_URem: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
  case K_SRem: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
  case K_And: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
  case K_Or: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
  case K_Xor: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
  case K_Shl: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
  case K_LShr: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
  case K_AShr: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
  case K_Ite: r = Z3_mk_ite(ctx, trB(e->a), tr(e->b), tr(e->c)); break;
  case K_Concat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
  case K_Extract: r = Z3_mk_extract(ctx, e->v + e->w - 1, e->v, tr(e->a)); break;
  case K_ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
  case K_SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
  default: abort();
  }
  Z3_inc_ref(ctx, r);
  e->z3 = r;
  return r;
}

struct VHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
struct CRes { bool sat; std::vector<std::pair<uint32_t, uint8_t>> vals; };
static std::unordered_map<std::vector<uint32_t>, CRes, VHash> cache;
static std::vector<ModelP> recent;
static size_t recentPos = 0;

static bool inter(const SymSet &a, const SymSet &b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) { if (a[i] < b[j]) i++; else if (a[i] > b[j]) j++; else return true; }
  return false;
}

SatResult solverCheck(const std::vector<E> &pc, E q, const ModelP &base, ModelP *out) {
  if (q->k == K_Const) {
    if (!q->v) return R_UNSAT;
    if (base) { if (out) *out = base; return R_SAT; }
  }
  solverStats.queries++;
  // independence slice
  std::vector<E> slice;
  std::vector<char> used(pc.size(), 0);
  SymSet syms = *q->syms;
  uint64_t bloom = q->bloom;
  bool ch = true;
  if (!base) { // need everything
    for (size_t i = 0; i < pc.size(); i++) { slice.push_back(pc[i]); used[i] = 1; }
    ch = false;
    for (auto p : pc) { SymSet r; std::set_union(syms.begin(), syms.end(), p->syms->begin(), p->syms->end(), std::back_inserter(r)); syms.swap(r); }
  }
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i] || !(pc[i]->bloom & bloom)) continue;
      if (!inter(*pc[i]->syms, syms)) continue;
      used[i] = 1; slice.push_back(pc[i]);
      SymSet r; std::set_union(syms.begin(), syms.end(), pc[i]->syms->begin(), pc[i]->syms->end(), std::back_inserter(r));
      if (r.size() != syms.size()) { syms.swap(r); ch = true; }
      bloom |= pc[i]->bloom;
    }
  }
  std::vector<uint32_t> key; key.reserve(slice.size() + 1);
  for (auto e : slice) key.push_back(e->id);
  key.push_back(q->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto mkModel = [&](const std::vector<std::pair<uint32_t, uint8_t>> &vals) {
    Assign v = base ? base->v : Assign();
    for (auto &p : vals) { if (v.size() <= p.first) v.resize(p.first + 1, 0); v[p.first] = p.second; }
    return newModel(std::move(v));
  };
  auto it = cache.find(key);
  if (it != cache.end()) {
    solverStats.cacheHits++;
    if (!it->second.sat) return R_UNSAT;
    if (out) *out = mkModel(it->second.vals);
    return R_SAT;
  }
  // try recent models
  for (auto &m : recent) {
    bool ok = evalExpr(q, *m);
    for (size_t i = slice.size(); ok && i-- > 0;) ok = evalExpr(slice[i], *m);
    if (ok) {
      solverStats.modelHits++;
      CRes r; r.sat = true;
      for (auto s : syms) r.vals.push_back({s, s < m->v.size() ? m->v[s] : (uint8_t)0});
      if (out) *out = mkModel(r.vals);
      cache.emplace(std::move(key), std::move(r));
      return R_SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  solverStats.z3calls++;
  Z3_lbool res = Z3_L_UNDEF;
  Z3_model mdl = nullptr;
  static unsigned cnt = 0;
  if (++cnt % 2000 == 0) { Z3_solver_reset(ctx, inc); }
  Z3_solver_push(ctx, inc);
  for (auto e : slice) Z3_solver_assert(ctx, inc, trB(e));
  Z3_solver_assert(ctx, inc, trB(q));
  res = Z3_solver_check(ctx, inc);
  if (res == Z3_L_TRUE) { mdl = Z3_solver_get_model(ctx, inc); Z3_model_inc_ref(ctx, mdl); }
  Z3_solver_pop(ctx, inc, 1);
  if (res == Z3_L_UNDEF) {
    Z3_solver s = mkS(false);
    for (auto e : slice) Z3_solver_assert(ctx, s, trB(e));
    Z3_solver_assert(ctx, s, trB(q));
    res = Z3_solver_check(ctx, s);
    if (res == Z3_L_TRUE) { mdl = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mdl); }
    else if (res == Z3_L_UNDEF && getenv("SYMX_DUMP")) {
      FILE *f = fopen(getenv("SYMX_DUMP"), "w"); fputs(Z3_solver_to_string(ctx, s), f); fputs("(check-sat)\n", f); fclose(f);
    }
    Z3_solver_dec_ref(ctx, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  solverStats.time += dt;
  if (dt > solverStats.maxTime) {
    solverStats.maxTime = dt;
    if (dt > 0.15 && getenv("SYMX_SLOW")) { fprintf(stderr, "slow query %.2fs res %d: %s\n", dt, (int)res, exprStr(q, 14).c_str()); for (auto e : slice) fprintf(stderr, "   pc %s\n", exprStr(e, 9).c_str()); }
  }
  if (res == Z3_L_UNDEF) { solverStats.unknown++; return R_UNKNOWN; }
  if (res == Z3_L_FALSE) { solverStats.unsat++; CRes r; r.sat = false; cache.emplace(std::move(key), std::move(r)); return R_UNSAT; }
  solverStats.sat++;
  CRes r; r.sat = true;
  for (auto s : syms) {
    Z3_ast v = nullptr; uint64_t u = 0;
    if (Z3_model_eval(ctx, mdl, tr(mkSym(s)), true, &v)) Z3_get_numeral_uint64(ctx, v, &u);
    r.vals.push_back({s, (uint8_t)u});
  }
  Z3_model_dec_ref(ctx, mdl);
  ModelP m = mkModel(r.vals);
  // double-check the model against our own evaluator: a disagreement is an encoding bug
  if (!evalExpr(q, *m)) { fprintf(stderr, "INTERNAL: z3 model does not satisfy query %s\n", exprStr(q, 12).c_str()); abort(); }
  for (auto e : slice) if (!evalExpr(e, *m)) { fprintf(stderr, "INTERNAL: z3 model does not satisfy pc %s\n", exprStr(e, 12).c_str()); abort(); }
  if (recent.size() < 16) recent.push_back(m); else { recent[recentPos++ % 16] = m; }
  if (out) *out = m;
  cache.emplace(std::move(key), std::move(r));
  return R_SAT;
}
