// Symbolic executor: interprets the translated LLVM IR with byte-precise symbolic memory,
// forking on every branch the solver finds two-sided.
#include "state.h"
#include "exec.h"
#include <chrono>
#include <cmath>
#include <algorithm>
#include <unistd.h>

Obj deadObj(0, OK_Global, false);
static std::vector<State *> worklist;
ExecStats ES;
ExecCfg CFG;
static std::map<std::string, Violation> violations;   // by key
static std::map<std::string, Violation> knowns;       // by finding id + key
std::vector<Sample> samples;
static uint64_t sampleSeen = 0;
static uint32_t rng = 12345;
std::set<std::string> coverTags;
std::map<std::string, uint64_t> assertCount;
static std::map<std::string, int64_t> params;
static std::chrono::steady_clock::time_point tStart;
static std::vector<uint64_t> typeIds;
static FuncInfo *throwBadAlloc = nullptr;
static bool inInit = false;

const std::map<std::string, Violation> &getViolations() { return violations; }
const std::map<std::string, Violation> &getKnowns() { return knowns; }

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }
void incomplete(const std::string &why) {
  ES.incompleteN++;
  if (ES.incomplete.size() < 20) ES.incomplete.insert(why);
}

static inline Frame &top(State &S) { return S.frames.back(); }
static inline const Inst &curInst(State &S, const Frame &f) { return f.f->blocks[f.bb].insts[f.ip]; }
static inline Val ev(State &S, const Opnd &o) { return o.slot >= 0 ? S.regs[top(S).base + o.slot] : Val(o.c); }
static inline Val argv(State &S, const Inst &I, unsigned i, unsigned leaf = 0) { return ev(S, I.ops[I.call->args[i].firstOp + leaf]); }
static inline void setRes(State &S, const Inst &I, const Val &v, unsigned leaf = 0) { if (I.dst >= 0) S.regs[top(S).base + I.dst + leaf] = v; }

std::string stackTrace(State &S, int maxn = 14) {
  std::string s;
  int n = 0;
  for (size_t i = S.frames.size(); i-- > 0 && n < maxn; n++) {
    auto &f = S.frames[i];
    std::string fn = f.f->demangled.substr(0, f.f->demangled.find('('));
    if (fn.size() > 160) fn = fn.substr(0, 160) + "...";
    s += "  #" + std::to_string(n) + " " + fn + " @ " + locStr(curInst(S, f).loc) + "\n";
  }
  return s;
}
static std::string topLoc(State &S) {
  // innermost frame located in the code under test (else innermost frame with a location)
  std::string first;
  for (size_t i = S.frames.size(); i-- > 0;) {
    std::string l = locStr(curInst(S, S.frames[i]).loc);
    if (l == "?") continue;
    if (first.empty()) first = l;
    if (l.find("src/mfast") == 0 || l.find("src/") == 0) return l;
  }
  return first;
}

static uint64_t evalV(State &S, const Val &v) { return v.e ? evalExpr(v.e, *S.model) : v.c; }

static std::vector<std::pair<std::string, std::string>> dumpInputs(State &S, const Model &m) {
  std::vector<std::pair<std::string, std::string>> r;
  static const char *hx = "0123456789abcdef";
  for (auto &in : S.inputs) {
    std::string h;
    for (uint32_t i = 0; i < in.n; i++) {
      uint32_t id = symFor(in.name, i);
      uint8_t b = id < m.v.size() ? m.v[id] : 0;
      h += hx[b >> 4]; h += hx[b & 15];
    }
    r.push_back({in.name, h});
  }
  return r;
}

static void report(State &S, const std::string &kind, const std::string &msg, const ModelP &m, const std::string &known = "") {
  ES.violationPaths++;
  std::string loc = topLoc(S);
  std::string key = kind + "|" + (kind == "assert" ? msg : loc + "|" + msg);
  auto &mp = known.empty() ? violations : knowns;
  if (!known.empty()) key = known + "|" + key;
  auto it = mp.find(key);
  if (it != mp.end()) { it->second.count++; return; }
  Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.trace = stackTrace(S); v.inputs = dumpInputs(S, *m); v.count = 1; v.known = known;
  for (auto &l : S.log) v.logs.push_back(l.e ? evalExpr(l.e, *m) : l.c);
  mp[key] = v;
  if (CFG.verbose) fprintf(stderr, "[%s] %s: %s at %s\n%s", known.empty() ? "VIOL" : known.c_str(), kind.c_str(), msg.c_str(), loc.c_str(), v.trace.c_str());
}

static void endPath(State &S, const char *why, bool ok) {
  S.done = true;
  ES.paths++;
  ES.pathEnds[why]++;
  ES.maxDepth = std::max<uint64_t>(ES.maxDepth, S.depth);
  if (ok && !inInit && CFG.nsamples > 0) {
    sampleSeen++;
    size_t pos = samples.size();
    if ((int)samples.size() >= CFG.nsamples) {
      rng = rng * 1664525u + 1013904223u;
      pos = (rng >> 8) % sampleSeen;
      if (pos >= (size_t)CFG.nsamples) return;
    } else samples.emplace_back();
    Sample s; s.inputs = dumpInputs(S, *S.model);
    for (auto &l : S.log) s.logs.push_back(l.e ? evalExpr(l.e, *S.model) : l.c);
    samples[pos] = s;
  }
}

static void violation(State &S, const std::string &kind, const std::string &msg) {
  if (inInit) { fprintf(stderr, "violation during static initialisation: %s %s\n%s", kind.c_str(), msg.c_str(), stackTrace(S).c_str()); exit(3); }
  report(S, kind, msg, S.model);
  endPath(S, "violation", false);
}
static void engineError(State &S, const std::string &msg) {
  if (inInit) { fprintf(stderr, "engine error during static initialisation: %s\n%s", msg.c_str(), stackTrace(S, 30).c_str()); exit(3); }
  incomplete("engine: " + msg + " at " + topLoc(S) + "\n" + stackTrace(S));
  endPath(S, "engine-error", false);
}

static void addPC(State &S, E c) {
  if (c->k == K_Const) return;
  if (c->k == K_And && c->w == 1) { addPC(S, c->a); addPC(S, c->b); return; }
  for (auto p : S.pc) if (p == c) return;
  S.pc.push_back(c);
}

static std::map<std::string, int> forkProf;
static State *fork(State &S) {
  static bool prof = getenv("SYMX_PROF") != nullptr;
  State *o = new State(S);
  ES.forks++;
  if (prof) { std::string l = topLoc(S); auto &f = S.frames.back(); forkProf[l + " < " + locStr(curInst(S, f).loc)]++; }
  o->depth = ++S.depth;
  worklist.push_back(o);
  return o;
}

// Decide a 1-bit condition for this state; *other receives a forked state for the opposite outcome.
static bool decide(State &S, E c, State **other) {
  *other = nullptr;
  bool v = evalExpr(c, *S.model);
  E neg = v ? mkNot(c) : c;
  ModelP m;
  SatResult r = solverCheck(S.pc, neg, S.model, &m);
  if (r == R_SAT) {
    State *o = fork(S);
    o->model = m; addPC(*o, neg);
    addPC(S, v ? c : mkNot(c));
    *other = o;
  } else if (r == R_UNKNOWN) { incomplete("solver timeout on branch at " + topLoc(S)); addPC(S, v ? c : mkNot(c)); }
  return v;
}

// Make a value concrete: the current state takes the model's value, other values are explored by
// a forked state that re-executes the current instruction.
static uint64_t concretize(State &S, const Val &v, unsigned w) {
  if (!v.e) return v.c;
  uint64_t x = evalExpr(v.e, *S.model);
  E eq = mkBin(K_Eq, v.e, mkConst(x, w));
  if (eq->k == K_Const) return x;
  ModelP m;
  SatResult r = solverCheck(S.pc, mkNot(eq), S.model, &m);
  if (r == R_SAT) { State *o = fork(S); o->model = m; addPC(*o, mkNot(eq)); ES.concretizations++; }
  else if (r == R_UNKNOWN) incomplete("solver timeout on concretization at " + topLoc(S));
  addPC(S, eq);
  return x;
}

// ---------------------------------------------------------------- memory
static std::string ptrDesc(State &S, uint64_t a, uint64_t n) {
  char b[200];
  uint64_t id = a >> REGION_SHIFT;
  Obj *o = S.mem.get(id);
  if (a < 4096) snprintf(b, 200, "null pointer dereference");
  else if (o == &deadObj) snprintf(b, 200, "access to freed or out-of-scope memory");
  else if (!o) snprintf(b, 200, "wild pointer access");
  else {
    static const char *kn[] = {"global", "stack", "malloc", "new", "new[]", "exception"};
    int64_t off = (int64_t)(a - objBase(id));
    const char *what = off < 0 ? "before the start of" : "past the end of";
    snprintf(b, 200, "access %s a %s object", what, kn[o->kind]);
  }
  return b;
}

// Resolve an access of n bytes.  Returns object id and concrete offset; false: state ended.
// symbolicOk: if non-null and the object is suited, *symbolicOk=true and offset left symbolic.
static bool resolve(State &S, const Val &addr, uint64_t n, bool write, uint64_t &id, uint64_t &off, bool *symbolicOk) {
  uint64_t a = evalV(S, addr);
  id = a >> REGION_SHIFT;
  Obj *o = S.mem.get(id);
  off = a - objBase(id);
  if (!o || o == &deadObj || off > o->size || n > o->size - off) {
    if (n == 0 && !addr.e) return false; // caller handles
    violation(S, write ? "memory-write" : "memory-read", ptrDesc(S, a, n));
    return false;
  }
  if (write && o->ro) { violation(S, "memory-write", "write to read-only memory"); return false; }
  if (addr.e) {
    E base = mkConst(objBase(id), 64);
    E rel = mkBin(K_Sub, addr.e, base);
    E inb = mkBin(K_Ule, rel, mkConst(o->size - n, 64));
    if (!(inb->k == K_Const)) {
      ModelP m;
      SatResult r = solverCheck(S.pc, mkNot(inb), S.model, &m);
      if (r == R_SAT) { State *f = fork(S); f->model = m; addPC(*f, mkNot(inb)); addPC(S, inb); }
      else if (r == R_UNKNOWN) { incomplete("solver timeout on bounds check at " + topLoc(S)); addPC(S, inb); }
    }
    if (symbolicOk && (o->ro || o->size <= 64) && o->size <= 4096) { *symbolicOk = true; return true; }
    a = concretize(S, addr, 64);
    off = a - objBase(id);
  }
  return true;
}

static E byteExpr(const Obj *o, uint64_t i) {
  if (o->nonconc && o->st[i] == B_SYM) return o->sym[i];
  return mkConst(o->data[i], 8);
}
static Val loadBytes(State &S, uint64_t id, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = S.mem.get(id);
  bool conc = true;
  if (o->nonconc) {
    for (unsigned i = 0; i < n; i++) {
      uint8_t s = o->st[off + i];
      if (s == B_UNINIT) {
        o = S.mem.getW(id);
        for (unsigned k = 0; k < n; k++) if (o->st && o->st[off + k] == B_UNINIT) {
          uint32_t sid = symFor("uninit", S.uninitCount++);
          o->setSym(off + k, mkSym(sid));
          ES.uninitReads++;
        }
        conc = false; break;
      }
      if (s == B_SYM) conc = false;
    }
  }
  if (conc) { uint64_t v = 0; memcpy(&v, o->data + off, n); return Val(v & maskw(w)); }
  E r = byteExpr(o, off);
  for (unsigned i = 1; i < n; i++) r = mkConcat(byteExpr(o, off + i), r);
  if (r->w > w) r = mkExtract(r, 0, w);
  return Val(r);
}
static void storeBytes(State &S, uint64_t id, uint64_t off, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = S.mem.getW(id);
  if (!v.e) {
    if (!o->nonconc) { memcpy(o->data + off, &v.c, n); return; }
    for (unsigned i = 0; i < n; i++) o->setConc(off + i, v.c >> (8 * i));
    return;
  }
  E e = v.e;
  if (e->w < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) o->setSym(off + i, mkExtract(e, 8 * i, 8));
}

static Val symLoad(State &S, uint64_t id, const Val &addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  uint64_t sz = S.mem.get(id)->size;
  E rel = mkBin(K_Sub, addr.e, mkConst(objBase(id), 64));
  // runs of equal values become range tests; the most frequent constant is the default
  struct Run { uint64_t lo, hi; Val v; };
  std::vector<Run> runs;
  std::map<uint64_t, unsigned> freq;
  for (uint64_t off = 0; off + n <= sz; off++) {
    if ((rel->kz & off) || (rel->ko & ~off)) continue;
    E c = mkBin(K_Eq, rel, mkConst(off, 64));
    if (c->k == K_Const && !c->v) continue;
    Val v = loadBytes(S, id, off, w);
    if (!runs.empty() && !v.e && !runs.back().v.e && runs.back().v.c == v.c) runs.back().hi = off;
    else runs.push_back({off, off, v});
    if (!v.e) freq[v.c]++;
  }
  bool hasDef = false; uint64_t def = 0; unsigned best = 0;
  for (auto &f : freq) if (f.second > best) { best = f.second; def = f.first; hasDef = true; }
  E r = hasDef ? mkConst(def, w) : nullptr;
  for (auto &q : runs) {
    if (hasDef && !q.v.e && q.v.c == def) continue;
    E x = toE(q.v, w);
    E c = q.lo == q.hi ? mkBin(K_Eq, rel, mkConst(q.lo, 64)) : mkBin(K_Ule, mkBin(K_Sub, rel, mkConst(q.lo, 64)), mkConst(q.hi - q.lo, 64));
    r = r ? mkIte(c, x, r) : x;
  }
  return Val(r);
}

static bool doLoad(State &S, const Inst &I) {
  Val a = ev(S, I.ops[0]);
  auto &lv = *I.leaves;
  if (lv.size() == 1) {
    uint64_t id, off; bool symOk = false;
    unsigned w = lv[0].w;
    if (!resolve(S, a, (w + 7) / 8, false, id, off, &symOk)) return false;
    setRes(S, I, symOk ? symLoad(S, id, a, w) : loadBytes(S, id, off, w));
    return true;
  }
  std::vector<Val> out;
  uint64_t ca = concretize(S, a, 64);
  for (auto &l : lv) {
    uint64_t id, off;
    if (!resolve(S, Val(ca + l.off), (l.w + 7) / 8, false, id, off, nullptr)) return false;
    out.push_back(loadBytes(S, id, off, l.w));
  }
  for (unsigned i = 0; i < out.size(); i++) setRes(S, I, out[i], i);
  return true;
}
static bool doStore(State &S, const Inst &I) {
  Val a = ev(S, I.ops[0]);
  auto &lv = *I.leaves;
  if (lv.size() != 1) a = Val(concretize(S, a, 64));
  for (unsigned i = 0; i < lv.size(); i++) {
    uint64_t id, off;
    Val x = a; if (lv.size() != 1) x = Val(a.c + lv[i].off);
    if (!resolve(S, x, (lv[i].w + 7) / 8, true, id, off, nullptr)) return false;
    storeBytes(S, id, off, ev(S, I.ops[1 + i]), lv[i].w);
  }
  return true;
}

uint64_t allocObj(State &S, uint64_t size, ObjKind k, bool uninit) {
  Obj *o = new Obj(size, k, uninit);
  if (!S.frames.empty()) o->loc = curInst(S, top(S)).loc;
  uint64_t id = S.mem.add(o);
  ES.allocs++;
  return objBase(id);
}

static bool readCStr(State &S, uint64_t a, std::string &out) {
  for (;;) {
    uint64_t id = a >> REGION_SHIFT, off = a - objBase(id);
    Obj *o = S.mem.get(id);
    if (!o || o == &deadObj || off >= o->size) return false;
    if (o->nonconc && o->st[off] != B_CONC) { out += '?'; a++; continue; }
    if (!o->data[off]) return true;
    out += (char)o->data[off]; a++;
    if (out.size() > 500) return true;
  }
}
static uint64_t rd64(State &S, uint64_t a, bool &ok) {
  uint64_t id = a >> REGION_SHIFT, off = a - objBase(id);
  Obj *o = S.mem.get(id);
  if (!o || o == &deadObj || off + 8 > o->size) { ok = false; return 0; }
  uint64_t v; memcpy(&v, o->data + off, 8); return v;
}

// ---------------------------------------------------------------- control flow
static void jumpTo(State &S, int bb) {
  Frame &f = top(S);
  Block &b = f.f->blocks[bb];
  if (!b.phis.empty()) {
    for (auto &p : b.phis) if (p.first == f.bb) {
      if (p.second.size() == 1) { S.regs[f.base + p.second[0].dst] = ev(S, p.second[0].src); break; }
      static thread_local std::vector<Val> tmp; tmp.clear();
      for (auto &c : p.second) tmp.push_back(ev(S, c.src));
      size_t i = 0;
      for (auto &c : p.second) S.regs[f.base + c.dst] = tmp[i++];
      break;
    }
  }
  f.bb = bb; f.ip = 0;
}
static void advance(State &S, const Inst &I) {
  if (I.op == O_Call && I.call->invoke) jumpTo(S, I.call->normalBB);
  else top(S).ip++;
}
static void popFrame(State &S) {
  Frame &f = top(S);
  while (S.allocas.size() > f.allocaStart) { S.mem.kill(S.allocas.back()); S.allocas.pop_back(); }
  S.regs.resize(f.base);
  S.frames.pop_back();
}
static bool pushFrame(State &S, FuncInfo *f, const std::vector<Val> &args, bool discard) {
  ensureTranslated(f);
  if (f->isDecl || f->blocks.empty()) { engineError(S, "call to undefined function " + f->name); return false; }
  if (S.frames.size() > 2000) { violation(S, "stack-overflow", "call depth exceeds 2000"); return false; }
  f->executed++;
  Frame fr; fr.f = f; fr.bb = 0; fr.ip = 0; fr.base = S.regs.size(); fr.allocaStart = S.allocas.size(); fr.discardRet = discard; fr.hook = 0;
  S.regs.resize(fr.base + f->nslots);
  size_t k = 0;
  for (auto &a : f->args) for (uint32_t i = 0; i < a.second; i++) if (k < args.size()) S.regs[fr.base + a.first + i] = args[k++];
  S.frames.push_back(fr);
  return true;
}
static void doReturn(State &S, const Inst &I) {
  static thread_local std::vector<Val> rv; rv.clear();
  for (auto &o : I.ops) rv.push_back(ev(S, o));
  bool disc = top(S).discardRet;
  popFrame(S);
  if (S.frames.empty()) { endPath(S, "return", true); return; }
  const Inst &C = curInst(S, top(S));
  if (!disc) for (size_t i = 0; i < rv.size(); i++) setRes(S, C, rv[i], i);
  advance(S, C);
}

// ---------------------------------------------------------------- exceptions
static uint64_t typeIdOf(uint64_t ti) {
  for (size_t i = 0; i < typeIds.size(); i++) if (typeIds[i] == ti) return i + 1;
  typeIds.push_back(ti);
  return typeIds.size();
}
static int tiKind(State &S, uint64_t ti) { // 0 class, 1 si, 2 vmi, -1 other
  bool ok = true; uint64_t vt = rd64(S, ti, ok);
  if (!ok) return -1;
  std::string n = globalNameAt(vt);
  if (n == "_ZTVN10__cxxabiv117__class_type_infoE") return 0;
  if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") return 1;
  if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") return 2;
  return -1;
}
// all base subobjects of (ti at address obj) whose type is want; appends addresses
static void findBases(State &S, uint64_t ti, uint64_t obj, uint64_t want, std::vector<uint64_t> &out) {
  if (ti == want) { out.push_back(obj); return; }
  bool ok = true;
  switch (tiKind(S, ti)) {
  case 1: findBases(S, rd64(S, ti + 16, ok), obj, want, out); break;
  case 2: {
    uint64_t nb = rd64(S, ti + 16, ok) >> 32;
    for (uint64_t i = 0; i < nb; i++) {
      uint64_t b = rd64(S, ti + 24 + 16 * i, ok); int64_t of = (int64_t)rd64(S, ti + 32 + 16 * i, ok);
      bool virt = of & 1; int64_t d = of >> 8;
      uint64_t sub = obj + d;
      if (virt) { uint64_t vptr = rd64(S, obj, ok); sub = obj + rd64(S, vptr + d, ok); }
      if (!ok) return;
      findBases(S, b, sub, want, out);
    }
    break;
  }
  default: break;
  }
}
static bool typeMatches(State &S, uint64_t catchTi, uint64_t throwTi, uint64_t obj, uint64_t &adj) {
  adj = obj;
  if (catchTi == 0 || catchTi == throwTi) return true;
  std::vector<uint64_t> r;
  findBases(S, throwTi, obj, catchTi, r);
  if (r.empty()) return false;
  adj = r[0];
  return true;
}
static void unwind(State &S, int idx) {
  ExcRec &x = S.exc[idx];
  // phase 1
  bool found = false;
  for (size_t i = S.frames.size(); i-- > 0 && !found;) {
    const Inst &I = curInst(S, S.frames[i]);
    if (I.op == O_Call && I.call->invoke) {
      const Inst &L = S.frames[i].f->blocks[I.call->unwindBB].insts[0];
      if (L.op != O_LandingPad) { engineError(S, "landingpad expected"); return; }
      uint64_t adj;
      for (auto c : L.lp->catches) if (typeMatches(S, c, x.ti, x.obj, adj)) found = true;
      if (L.lp->hasFilter) found = true;
    }
  }
  if (!found) { violation(S, "uncaught-exception", "uncaught exception of type " + demangleName(globalNameAt(x.ti).substr(0, 4) == "_ZTI" ? "_ZTS" + globalNameAt(x.ti).substr(4) : globalNameAt(x.ti))); return; }
  while (!S.frames.empty()) {
    const Inst &I = curInst(S, top(S));
    if (I.op == O_Call && I.call->invoke) {
      const Inst &L = top(S).f->blocks[I.call->unwindBB].insts[0];
      uint64_t adj; bool enter = false; uint64_t sel = 0;
      for (auto c : L.lp->catches) if (typeMatches(S, c, x.ti, x.obj, adj)) { enter = true; sel = typeIdOf(c); x.adjusted = adj; break; }
      if (!enter && L.lp->cleanup) enter = true;
      if (!enter && L.lp->hasFilter) { violation(S, "terminate", "exception specification violated"); return; }
      if (enter) {
        S.pendingExc = idx; S.pendingSel = sel;
        jumpTo(S, I.call->unwindBB);
        return;
      }
    }
    popFrame(S);
  }
}

static int excByObj(State &S, uint64_t obj) { for (size_t i = S.exc.size(); i-- > 0;) if (S.exc[i].obj == obj) return i; return -1; }

// ---------------------------------------------------------------- natives
#define NATIVE(n) static NRes n(State &S, const Inst &I)
static NRes throwFn(State &S, const char *fn) {
  FuncInfo *f = funcByName(fn);
  if (!f) { engineError(S, std::string("missing model ") + fn); return N_END; }
  return pushFrame(S, f, {}, true) ? N_FRAME : N_END;
}

// returns false if the request exceeds the limit on this path
static bool allocSize(State &S, const Val &n, uint64_t &out, bool &retry) {
  retry = false;
  if (!n.e) { out = n.c; return n.c <= S.allocLimit; }
  E big = mkBin(K_Ult, mkConst(S.allocLimit, 64), n.e);
  if (big->k == K_Const) { if (big->v) return false; }
  else {
    State *o; bool v = decide(S, big, &o); // o re-executes
    if (v) return false;
  }
  out = concretize(S, n, 64);
  return true;
}
static NRes doAlloc(State &S, const Inst &I, const Val &n, ObjKind k, bool nothrow, bool zero = false) {
  uint64_t sz; bool r;
  if (!allocSize(S, n, sz, r)) {
    ES.allocFails++;
    if (k == OK_Malloc || nothrow) { setRes(S, I, Val((uint64_t)0)); return N_DONE; }
    return throwFn(S, "symx_throw_bad_alloc");
  }
  uint64_t a = allocObj(S, sz, k, !zero);
  S.liveHeap++;
  setRes(S, I, Val(a));
  return N_DONE;
}
NATIVE(n_malloc) { return doAlloc(S, I, argv(S, I, 0), OK_Malloc, true); }
NATIVE(n_new) { return doAlloc(S, I, argv(S, I, 0), OK_New, false); }
NATIVE(n_newarr) { return doAlloc(S, I, argv(S, I, 0), OK_NewArr, false); }
NATIVE(n_new_nt) { return doAlloc(S, I, argv(S, I, 0), OK_New, true); }
NATIVE(n_calloc) {
  uint64_t a = concretize(S, argv(S, I, 0), 64), b = concretize(S, argv(S, I, 1), 64);
  return doAlloc(S, I, Val(a * b), OK_Malloc, true, true);
}
static NRes doFree(State &S, const Inst &I, ObjKind k) {
  uint64_t p = concretize(S, argv(S, I, 0), 64);
  if (!p) return N_DONE;
  uint64_t id = p >> REGION_SHIFT;
  Obj *o = S.mem.get(id);
  if (!o || o == &deadObj || p != objBase(id)) { violation(S, "bad-free", o == &deadObj ? "double free" : "free of a pointer that was not allocated"); return N_END; }
  if (o->kind != k) { violation(S, "bad-free", "deallocation function does not match allocation"); return N_END; }
  S.mem.kill(id); S.liveHeap--;
  return N_DONE;
}
NATIVE(n_free) { return doFree(S, I, OK_Malloc); }
NATIVE(n_delete) { return doFree(S, I, OK_New); }
NATIVE(n_deletearr) { return doFree(S, I, OK_NewArr); }
static void copyBytes(State &S, uint64_t did, uint64_t doff, uint64_t sid, uint64_t soff, uint64_t n) {
  if (!n) return;
  Obj *d = S.mem.getW(did);
  Obj *s = S.mem.get(sid);
  if (!s->nonconc && !d->nonconc) { memmove(d->data + doff, s->data + soff, n); return; }
  struct B { uint8_t st, v; E e; };
  std::vector<B> t(n);
  for (uint64_t i = 0; i < n; i++) { t[i].st = s->nonconc ? s->st[soff + i] : 0; t[i].v = s->data[soff + i]; t[i].e = t[i].st == B_SYM ? s->sym[soff + i] : nullptr; }
  for (uint64_t i = 0; i < n; i++) {
    if (t[i].st == B_SYM) d->setSym(doff + i, t[i].e);
    else if (t[i].st == B_UNINIT) d->setSt(doff + i, B_UNINIT);
    else d->setConc(doff + i, t[i].v);
  }
}
NATIVE(n_realloc) {
  uint64_t p = concretize(S, argv(S, I, 0), 64);
  if (!p) return doAlloc(S, I, argv(S, I, 1), OK_Malloc, true);
  uint64_t id = p >> REGION_SHIFT;
  Obj *o = S.mem.get(id);
  if (!o || o == &deadObj || p != objBase(id) || o->kind != OK_Malloc) { violation(S, "bad-free", "realloc of a pointer that was not malloc'ed"); return N_END; }
  uint64_t sz; bool r;
  if (!allocSize(S, argv(S, I, 1), sz, r)) { ES.allocFails++; setRes(S, I, Val((uint64_t)0)); return N_DONE; }
  uint64_t a = allocObj(S, sz, OK_Malloc, true);
  copyBytes(S, a >> REGION_SHIFT, 0, id, 0, std::min(sz, S.mem.get(id)->size));
  S.mem.kill(id);
  setRes(S, I, Val(a));
  return N_DONE;
}
// bounds-check a [p,p+n) range with possibly symbolic p/n, then make both concrete
static bool range(State &S, const Val &p, const Val &nv, bool write, uint64_t &addr, uint64_t &n) {
  if (nv.e) {
    // is there a length that leaves the object?
    uint64_t a = concretize(S, p, 64);
    uint64_t id = a >> REGION_SHIFT; Obj *o = S.mem.get(id);
    uint64_t room = (o && o != &deadObj && a - objBase(id) <= o->size) ? o->size - (a - objBase(id)) : 0;
    E bad = mkBin(K_Ult, mkConst(room, 64), nv.e);
    if (bad->k != K_Const || bad->v) {
      bool v; State *oth = nullptr;
      if (bad->k == K_Const) v = true; else v = decide(S, bad, &oth);
      if (v) { violation(S, write ? "memory-write" : "memory-read", ptrDesc(S, a + room, 1)); return false; }
    }
    n = concretize(S, nv, 64);
    addr = a;
  } else { n = nv.c; addr = concretize(S, p, 64); }
  if (n == 0) return true;
  uint64_t id, off;
  return resolve(S, Val(addr), n, write, id, off, nullptr);
}
NATIVE(n_memcpy) {
  uint64_t d, s, n, n2;
  if (!range(S, argv(S, I, 0), argv(S, I, 2), true, d, n)) return N_END;
  if (!range(S, argv(S, I, 1), Val(n), false, s, n2)) return N_END;
  if (n && I.call->callee && I.call->callee->name.find("memcpy") != std::string::npos) {
    if (d != s && d < s + n && s < d + n) { violation(S, "memcpy-overlap", "memcpy on overlapping ranges"); return N_END; }
  }
  if (n) copyBytes(S, d >> REGION_SHIFT, d - objBase(d >> REGION_SHIFT), s >> REGION_SHIFT, s - objBase(s >> REGION_SHIFT), n);
  setRes(S, I, Val(d));
  return N_DONE;
}
NATIVE(n_memset) {
  uint64_t d, n;
  Val v = argv(S, I, 1);
  if (!range(S, argv(S, I, 0), argv(S, I, 2), true, d, n)) return N_END;
  if (n) {
    uint64_t id = d >> REGION_SHIFT, off = d - objBase(id);
    Obj *o = S.mem.getW(id);
    if (!v.e && !o->nonconc) memset(o->data + off, (uint8_t)v.c, n);
    else for (uint64_t i = 0; i < n; i++) { if (v.e) o->setSym(off + i, mkExtract(v.e, 0, 8)); else o->setConc(off + i, v.c); }
  }
  setRes(S, I, Val(d));
  return N_DONE;
}
NATIVE(n_memcmp) {
  uint64_t a, b, n, n2;
  if (!range(S, argv(S, I, 0), argv(S, I, 2), false, a, n)) return N_END;
  if (!range(S, argv(S, I, 1), Val(n), false, b, n2)) return N_END;
  E r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    uint64_t ia = (a + i) >> REGION_SHIFT, ib = (b + i) >> REGION_SHIFT;
    E x = toE(loadBytes(S, ia, a + i - objBase(ia), 8), 8), y = toE(loadBytes(S, ib, b + i - objBase(ib), 8), 8);
    E eq = mkBin(K_Eq, x, y);
    if (eq->k == K_Const && eq->v) continue;
    r = mkIte(eq, r, mkIte(mkBin(K_Ult, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
  }
  setRes(S, I, Val(r));
  return N_DONE;
}
NATIVE(n_nop) { return N_DONE; }
NATIVE(n_zero) { setRes(S, I, Val((uint64_t)0)); return N_DONE; }
NATIVE(n_one) { setRes(S, I, Val((uint64_t)1)); return N_DONE; }
NATIVE(n_id) { setRes(S, I, argv(S, I, 0)); return N_DONE; }
NATIVE(n_assertfail) {
  std::string a, f, fn;
  readCStr(S, argv(S, I, 0).c, a);
  violation(S, "assertion", "assert(" + a + ") failed");
  return N_END;
}
NATIVE(n_glibcxx_assertfail) {
  std::string a; readCStr(S, argv(S, I, 3).c, a);
  violation(S, "assertion", "libstdc++ assertion (" + a + ") failed");
  return N_END;
}
NATIVE(n_abort) { violation(S, "abort", "abort() called"); return N_END; }
NATIVE(n_terminate) { violation(S, "terminate", "std::terminate called (exception left a noexcept function)"); return N_END; }
NATIVE(n_purevirt) { violation(S, "pure-virtual", "pure virtual function called"); return N_END; }
NATIVE(n_trap) { violation(S, "trap", "llvm.trap reached (undefined behaviour)"); return N_END; }
NATIVE(n_guard_acquire) {
  bool ok = true; uint64_t g = concretize(S, argv(S, I, 0), 64);
  uint64_t id = g >> REGION_SHIFT; Obj *o = S.mem.get(id); (void)ok;
  setRes(S, I, Val((uint64_t)(o->data[g - objBase(id)] ? 0 : 1)));
  return N_DONE;
}
NATIVE(n_guard_release) {
  uint64_t g = concretize(S, argv(S, I, 0), 64);
  uint64_t id = g >> REGION_SHIFT; Obj *o = S.mem.getW(id);
  o->data[g - objBase(id)] = 1;
  return N_DONE;
}
NATIVE(n_alloc_exc) {
  uint64_t sz = concretize(S, argv(S, I, 0), 64);
  setRes(S, I, Val(allocObj(S, sz, OK_Exc, false)));
  return N_DONE;
}
NATIVE(n_throw) {
  ExcRec r; r.obj = argv(S, I, 0).c; r.ti = argv(S, I, 1).c; r.dtor = argv(S, I, 2).c; r.adjusted = r.obj;
  S.exc.push_back(r);
  ES.throws++;
  unwind(S, S.exc.size() - 1);
  return S.done ? N_END : N_THROWN;
}
NATIVE(n_begin_catch) {
  int i = excByObj(S, argv(S, I, 0).c);
  if (i < 0) { engineError(S, "begin_catch: unknown exception"); return N_END; }
  S.exc[i].handlers++; S.exc[i].rethrown = false;
  if (S.caught.empty() || S.caught.back() != i) S.caught.push_back(i);
  setRes(S, I, Val(S.exc[i].adjusted));
  return N_DONE;
}
NATIVE(n_end_catch) {
  if (S.caught.empty()) return N_DONE;
  int i = S.caught.back();
  ExcRec &x = S.exc[i];
  if (--x.handlers <= 0) {
    S.caught.pop_back();
    if (!x.rethrown && x.dtor && !x.dead) {
      x.dead = true;
      FuncInfo *f = funcByAddr(x.dtor);
      uint64_t obj = x.obj;
      if (f && !f->isDecl) return pushFrame(S, f, {Val(obj)}, true) ? N_FRAME : N_END;
    }
  }
  return N_DONE;
}
NATIVE(n_rethrow) {
  if (S.caught.empty()) { violation(S, "terminate", "rethrow without exception"); return N_END; }
  int i = S.caught.back();
  S.exc[i].rethrown = true;
  unwind(S, i);
  return S.done ? N_END : N_THROWN;
}
NATIVE(n_get_exc_ptr) {
  int i = excByObj(S, argv(S, I, 0).c);
  setRes(S, I, Val(i >= 0 ? S.exc[i].adjusted : argv(S, I, 0).c));
  return N_DONE;
}
NATIVE(n_unwind_resume) {
  int i = excByObj(S, argv(S, I, 0).c);
  popFrame(S);
  unwind(S, i);
  return S.done ? N_END : N_THROWN;
}
NATIVE(n_typeid_for) { setRes(S, I, Val(typeIdOf(argv(S, I, 0).c))); return N_DONE; }
NATIVE(n_dynamic_cast) {
  uint64_t p = concretize(S, argv(S, I, 0), 64), dst = argv(S, I, 2).c, src = argv(S, I, 1).c;
  if (!p) { setRes(S, I, Val((uint64_t)0)); return N_DONE; }
  bool ok = true;
  uint64_t vptr = rd64(S, p, ok), ti = rd64(S, vptr - 8, ok), ott = rd64(S, vptr - 16, ok);
  if (!ok) { violation(S, "memory-read", "dynamic_cast on an invalid object"); return N_END; }
  uint64_t whole = p + ott;
  std::vector<uint64_t> r;
  findBases(S, ti, whole, dst, r);
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  uint64_t res = 0;
  // downcast: dst subobject containing p
  for (auto d : r) { std::vector<uint64_t> q; findBases(S, dst, d, src, q); for (auto z : q) if (z == p) res = d; }
  if (!res && r.size() == 1) res = r[0];
  setRes(S, I, Val(res));
  return N_DONE;
}
// ---- harness API
NATIVE(s_make_symbolic) {
  uint64_t p, n;
  if (!range(S, argv(S, I, 0), argv(S, I, 1), true, p, n)) return N_END;
  std::string nm; readCStr(S, argv(S, I, 2).c, nm);
  int k = S.nameCount[nm]++;
  if (k) nm += "#" + std::to_string(k);
  uint64_t id = p >> REGION_SHIFT, off = p - objBase(id);
  if (n) {
    Obj *o = S.mem.getW(id);
    uint32_t first = 0;
    for (uint64_t i = 0; i < n; i++) { uint32_t s = symFor(nm, i); if (!i) first = s; o->setSym(off + i, mkSym(s)); }
    S.inputs.push_back({nm, first, (uint32_t)n});
  }
  return N_DONE;
}
static E truth(const Val &v, unsigned w) { // arbitrary-width "is true" (low byte for bool)
  if (!v.e) return mkConst(v.c != 0, 1);
  return mkNot(mkBin(K_Eq, v.e, mkConst(0, v.e->w)));
}
NATIVE(s_assume) {
  E c = truth(argv(S, I, 0), 0);
  if (c->k == K_Const) { if (!c->v) { endPath(S, "assume", false); return N_END; } return N_DONE; }
  if (!evalExpr(c, *S.model)) {
    ModelP m;
    SatResult r = solverCheck(S.pc, c, S.model, &m);
    if (r == R_UNKNOWN) incomplete("solver timeout on assume");
    if (r != R_SAT) { endPath(S, "assume", false); return N_END; }
    S.model = m;
  }
  addPC(S, c);
  return N_DONE;
}
static NRes doAssert(State &S, const Inst &I, E c, const std::string &tag, const std::string &kf, E kc) {
  assertCount[tag]++;
  ES.asserts++;
  if (c->k == K_Const && c->v) return N_DONE;
  ModelP m;
  bool alive = true;
  E neg = mkNot(c);
  E realNeg = kf.empty() ? neg : mkBin(K_And, neg, mkNot(kc));
  SatResult r;
  if (realNeg->k == K_Const && !realNeg->v) r = R_UNSAT;
  else if (evalExpr(realNeg, *S.model)) { m = S.model; r = R_SAT; }
  else r = solverCheck(S.pc, realNeg, S.model, &m);
  if (r == R_SAT) report(S, "assert", tag, m);
  else if (r == R_UNKNOWN) incomplete("solver timeout on assertion " + tag);
  if (!kf.empty()) {
    E kn = mkBin(K_And, neg, kc);
    SatResult r2;
    if (kn->k == K_Const && !kn->v) r2 = R_UNSAT;
    else if (evalExpr(kn, *S.model)) { m = S.model; r2 = R_SAT; }
    else r2 = solverCheck(S.pc, kn, S.model, &m);
    if (r2 == R_SAT) { report(S, "assert", tag, m, kf); r = R_SAT; }
    else if (r2 == R_UNKNOWN) incomplete("solver timeout on assertion " + tag);
  }
  if (r == R_SAT) {
    // continue on the part of the path where the assertion holds
    if (c->k == K_Const) alive = false;
    else if (evalExpr(c, *S.model)) addPC(S, c);
    else {
      SatResult r3 = solverCheck(S.pc, c, S.model, &m);
      if (r3 == R_SAT) { S.model = m; addPC(S, c); } else alive = false;
    }
    if (!alive) { endPath(S, "violation", false); return N_END; }
  }
  return N_DONE;
}
NATIVE(s_assert) {
  std::string t; readCStr(S, argv(S, I, 1).c, t);
  return doAssert(S, I, truth(argv(S, I, 0), 0), t, "", nullptr);
}
NATIVE(s_assert_kf) {
  std::string t, k; readCStr(S, argv(S, I, 1).c, t); readCStr(S, argv(S, I, 2).c, k);
  return doAssert(S, I, truth(argv(S, I, 0), 0), t, k, truth(argv(S, I, 3), 0));
}
NATIVE(s_cover) { std::string t; readCStr(S, argv(S, I, 0).c, t); coverTags.insert(t); return N_DONE; }
NATIVE(s_log) { S.log.push_back(argv(S, I, 0)); return N_DONE; }
NATIVE(s_param) {
  std::string t; readCStr(S, argv(S, I, 0).c, t);
  auto it = params.find(t);
  if (it != params.end()) setRes(S, I, Val((uint64_t)it->second)); else setRes(S, I, argv(S, I, 1));
  return N_DONE;
}
NATIVE(s_concretize) { Val v = argv(S, I, 0); uint64_t x = concretize(S, v, v.e ? v.e->w : 64); setRes(S, I, Val(x)); return N_DONE; }
NATIVE(s_end) { endPath(S, "end", true); return N_END; }
NATIVE(s_alloc_limit) { S.allocLimit = argv(S, I, 0).c; return N_DONE; }
NATIVE(s_heap_live) { setRes(S, I, Val((uint64_t)S.liveHeap)); return N_DONE; }
NATIVE(s_print) { std::string t; readCStr(S, argv(S, I, 0).c, t); if (CFG.verbose) fprintf(stderr, "print: %s %llu\n", t.c_str(), (unsigned long long)evalV(S, argv(S, I, 1))); return N_DONE; }
NATIVE(s_is_symbolic) { setRes(S, I, Val((uint64_t)(argv(S, I, 0).e != nullptr))); return N_DONE; }
NATIVE(s_readonly) {
  uint64_t p = concretize(S, argv(S, I, 0), 64); Obj *o = S.mem.getW(p >> REGION_SHIFT); o->ro = argv(S, I, 1).c; return N_DONE;
}
NATIVE(s_obj_size) { // remaining valid bytes from p, or 0 if p is not inside a live object
  uint64_t p = concretize(S, argv(S, I, 0), 64), id = p >> REGION_SHIFT; Obj *o = S.mem.get(id);
  uint64_t r = 0; if (o && o != &deadObj && p - objBase(id) <= o->size) r = o->size - (p - objBase(id));
  setRes(S, I, Val(r)); return N_DONE;
}
// ---- intrinsics
static NRes ovf(State &S, const Inst &I, Kind k, bool sg) {
  unsigned w = I.w2; Val a = argv(S, I, 0), b = argv(S, I, 1);
  E x = toE(a, w), y = toE(b, w), r = mkBin(k, x, y), o;
  if (k == K_Mul) o = mkBin(sg ? K_SMulO : K_UMulO, x, y);
  else if (!sg) o = k == K_Add ? mkBin(K_Ult, r, x) : mkBin(K_Ult, x, y);
  else {
    E t = k == K_Add ? mkBin(K_And, mkBin(K_Xor, x, r), mkBin(K_Xor, y, r)) : mkBin(K_And, mkBin(K_Xor, x, y), mkBin(K_Xor, x, r));
    o = mkExtract(t, w - 1, 1);
  }
  setRes(S, I, Val(r), 0); setRes(S, I, Val(o), 1);
  return N_DONE;
}
NATIVE(i_uaddo) { return ovf(S, I, K_Add, false); }
NATIVE(i_usubo) { return ovf(S, I, K_Sub, false); }
NATIVE(i_umulo) { return ovf(S, I, K_Mul, false); }
NATIVE(i_saddo) { return ovf(S, I, K_Add, true); }
NATIVE(i_ssubo) { return ovf(S, I, K_Sub, true); }
NATIVE(i_smulo) { return ovf(S, I, K_Mul, true); }
static NRes mm(State &S, const Inst &I, Kind k, bool mx) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), y = toE(argv(S, I, 1), w);
  E c = mkBin(k, x, y);
  setRes(S, I, Val(mx ? mkIte(c, y, x) : mkIte(c, x, y)));
  return N_DONE;
}
NATIVE(i_umax) { return mm(S, I, K_Ult, true); }
NATIVE(i_umin) { return mm(S, I, K_Ult, false); }
NATIVE(i_smax) { return mm(S, I, K_Slt, true); }
NATIVE(i_smin) { return mm(S, I, K_Slt, false); }
NATIVE(i_usubsat) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), y = toE(argv(S, I, 1), w);
  setRes(S, I, Val(mkIte(mkBin(K_Ult, x, y), mkConst(0, w), mkBin(K_Sub, x, y)))); return N_DONE;
}
NATIVE(i_uaddsat) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), y = toE(argv(S, I, 1), w), r = mkBin(K_Add, x, y);
  setRes(S, I, Val(mkIte(mkBin(K_Ult, r, x), mkConst(~0ull, w), r))); return N_DONE;
}
NATIVE(i_abs) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w);
  setRes(S, I, Val(mkIte(mkExtract(x, w - 1, 1), mkBin(K_Sub, mkConst(0, w), x), x))); return N_DONE;
}
NATIVE(i_bswap) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), r = nullptr;
  for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
  setRes(S, I, Val(r)); return N_DONE;
}
NATIVE(i_ctlz) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), r = mkConst(w, w);
  for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r);
  setRes(S, I, Val(r)); return N_DONE;
}
NATIVE(i_cttz) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), r = mkConst(w, w);
  for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
  setRes(S, I, Val(r)); return N_DONE;
}
NATIVE(i_ctpop) {
  unsigned w = I.w; E x = toE(argv(S, I, 0), w), r = mkConst(0, w);
  for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(x, i, 1), w));
  setRes(S, I, Val(r)); return N_DONE;
}
static NRes fsh(State &S, const Inst &I, bool left) {
  unsigned w = I.w; E a = toE(argv(S, I, 0), w), b = toE(argv(S, I, 1), w);
  uint64_t s = concretize(S, argv(S, I, 2), w) % w;
  if (!s) { setRes(S, I, Val(left ? a : b)); return N_DONE; }
  unsigned l = left ? s : w - s;
  setRes(S, I, Val(mkConcat(mkExtract(a, 0, w - l), mkExtract(b, w - l, l))));
  return N_DONE;
}
NATIVE(i_fshl) { return fsh(S, I, true); }
NATIVE(i_fshr) { return fsh(S, I, false); }
NATIVE(i_objectsize) { setRes(S, I, Val(maskw(I.w))); return N_DONE; }
NATIVE(i_isconst) { setRes(S, I, Val((uint64_t)0)); return N_DONE; }
NATIVE(i_assume) { return N_DONE; }
NATIVE(i_fabs) { uint64_t v = concretize(S, argv(S, I, 0), 64); setRes(S, I, Val(I.w == 64 ? v & ~(1ull << 63) : v & 0x7fffffff)); return N_DONE; }
NATIVE(i_exit) { engineError(S, "exit() called"); return N_END; }

// calls symx_snprintf (harness/models_io.cpp) with the fixed and the first two variable arguments
NATIVE(n_snprintf) {
  FuncInfo *f = funcByName("symx_snprintf");
  if (!f) { engineError(S, "snprintf is not modelled"); return N_END; }
  std::vector<Val> args;
  unsigned i = 0;
  for (auto &a : I.call->args) for (uint32_t k = 0; k < a.nleaf && i < 5; k++, i++) {
    Val v = ev(S, I.ops[a.firstOp + k]);
    if (i >= 3 && v.e && v.e->w < 64) v = Val(mkZExt(v.e, 64));
    args.push_back(v);
  }
  while (args.size() < 5) args.push_back(Val((uint64_t)0));
  return pushFrame(S, f, args, false) ? N_FRAME : N_END;
}
static std::unordered_map<std::string, NativeFn> nat = {
  {"snprintf", n_snprintf},
  {"malloc", n_malloc}, {"calloc", n_calloc}, {"realloc", n_realloc}, {"free", n_free},
  {"_Znwm", n_new}, {"_Znam", n_newarr}, {"_ZnwmRKSt9nothrow_t", n_new_nt}, {"_ZdlPv", n_delete}, {"_ZdlPvm", n_delete}, {"_ZdaPv", n_deletearr}, {"_ZdaPvm", n_deletearr},
  {"_ZdlPvRKSt9nothrow_t", n_delete},
  {"memcpy", n_memcpy}, {"memmove", n_memcpy}, {"memset", n_memset}, {"memcmp", n_memcmp}, {"bcmp", n_memcmp},
  {"__assert_fail", n_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", n_assertfail}, {"abort", n_abort}, {"_ZSt9terminatev", n_terminate}, {"__clang_call_terminate", n_terminate},
  {"__cxa_pure_virtual", n_purevirt}, {"__cxa_deleted_virtual", n_purevirt},
  {"__cxa_guard_acquire", n_guard_acquire}, {"__cxa_guard_release", n_guard_release}, {"__cxa_guard_abort", n_nop},
  {"__cxa_atexit", n_zero}, {"__cxa_thread_atexit", n_zero}, {"atexit", n_zero}, {"exit", i_exit}, {"_exit", i_exit},
  {"__cxa_allocate_exception", n_alloc_exc}, {"__cxa_free_exception", n_nop}, {"__cxa_throw", n_throw}, {"__cxa_begin_catch", n_begin_catch},
  {"__cxa_end_catch", n_end_catch}, {"__cxa_rethrow", n_rethrow}, {"__cxa_get_exception_ptr", n_get_exc_ptr}, {"_Unwind_Resume", n_unwind_resume},
  {"__dynamic_cast", n_dynamic_cast},
  {"symx_make_symbolic", s_make_symbolic}, {"symx_assume", s_assume}, {"symx_assert_", s_assert}, {"symx_assert_kf", s_assert_kf}, {"symx_cover", s_cover},
  {"symx_log", s_log}, {"symx_param", s_param}, {"symx_concretize", s_concretize}, {"symx_end", s_end}, {"symx_alloc_limit", s_alloc_limit},
  {"symx_heap_live", s_heap_live}, {"symx_print", s_print}, {"symx_is_symbolic", s_is_symbolic}, {"symx_readonly", s_readonly}, {"symx_obj_size", s_obj_size},
};
static const std::pair<const char *, NativeFn> intr[] = {
  {"llvm.memcpy.", n_memcpy}, {"llvm.memmove.", n_memcpy}, {"llvm.memset.", n_memset}, {"llvm.lifetime.", n_nop}, {"llvm.dbg.", n_nop},
  {"llvm.experimental.noalias", n_nop}, {"llvm.assume", i_assume}, {"llvm.expect.", n_id}, {"llvm.launder", n_id}, {"llvm.strip", n_id}, {"llvm.threadlocal", n_id},
  {"llvm.uadd.with", i_uaddo}, {"llvm.usub.with", i_usubo}, {"llvm.umul.with", i_umulo}, {"llvm.sadd.with", i_saddo}, {"llvm.ssub.with", i_ssubo}, {"llvm.smul.with", i_smulo},
  {"llvm.umax.", i_umax}, {"llvm.umin.", i_umin}, {"llvm.smax.", i_smax}, {"llvm.smin.", i_smin}, {"llvm.usub.sat", i_usubsat}, {"llvm.uadd.sat", i_uaddsat}, {"llvm.abs.", i_abs},
  {"llvm.bswap.", i_bswap}, {"llvm.ctlz.", i_ctlz}, {"llvm.cttz.", i_cttz}, {"llvm.ctpop.", i_ctpop}, {"llvm.fshl.", i_fshl}, {"llvm.fshr.", i_fshr},
  {"llvm.objectsize.", i_objectsize}, {"llvm.is.constant", i_isconst}, {"llvm.eh.typeid.for", n_typeid_for}, {"llvm.trap", n_trap}, {"llvm.debugtrap", n_trap}, {"llvm.ubsantrap", n_trap},
  {"llvm.stacksave", n_zero}, {"llvm.stackrestore", n_nop}, {"llvm.prefetch", n_nop}, {"llvm.fabs.", i_fabs}, {"llvm.invariant", n_nop}, {"llvm.var.annotation", n_nop}, {"llvm.donothing", n_nop},
};
static void bindNatives() {
  for (auto f : allFuncs()) {
    auto it = nat.find(f->name);
    if (it != nat.end()) { f->native = it->second; continue; }
    if (f->name.compare(0, 5, "llvm.") == 0)
      for (auto &p : intr) if (f->name.compare(0, strlen(p.first), p.first) == 0) { f->native = p.second; break; }
  }
}

// ---------------------------------------------------------------- interpreter
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static float asF(uint64_t v) { uint32_t u = v; float d; memcpy(&d, &u, 4); return d; }
static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  // llvm predicates: EQ=32 NE UGT UGE ULT ULE SGT SGE SLT SLE
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w);
    switch (pred) { case 32: return Val((uint64_t)(x == y)); case 33: return Val((uint64_t)(x != y)); case 34: return Val((uint64_t)(x > y)); case 35: return Val((uint64_t)(x >= y)); case 36: return Val((uint64_t)(x < y)); case 37: return Val((uint64_t)(x <= y)); case 38: return Val((uint64_t)(sx > sy)); case 39: return Val((uint64_t)(sx >= sy)); case 40: return Val((uint64_t)(sx < sy)); default: return Val((uint64_t)(sx <= sy)); }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (pred) {
  case 32: return Val(mkBin(K_Eq, x, y)); case 33: return Val(mkNot(mkBin(K_Eq, x, y)));
  case 34: return Val(mkBin(K_Ult, y, x)); case 35: return Val(mkBin(K_Ule, y, x)); case 36: return Val(mkBin(K_Ult, x, y)); case 37: return Val(mkBin(K_Ule, x, y));
  case 38: return Val(mkBin(K_Slt, y, x)); case 39: return Val(mkBin(K_Sle, y, x)); case 40: return Val(mkBin(K_Slt, x, y)); default: return Val(mkBin(K_Sle, x, y));
  }
}

static void doCall(State &S, const Inst &I) {
  CallInfo &C = *I.call;
  FuncInfo *f = C.callee;
  if (!f) {
    uint64_t a = concretize(S, ev(S, I.ops[0]), 64);
    f = funcByAddr(a);
    if (!f) { violation(S, "bad-call", a < 4096 ? "call through null function pointer" : "call through invalid function pointer"); return; }
  }
  if (f->native) {
    NRes r = f->native(S, I);
    if (r == N_DONE) advance(S, I);
    return;
  }
  static thread_local std::vector<Val> args; args.clear();
  for (auto &a : C.args) {
    if (a.byval) {
      uint64_t p = concretize(S, ev(S, I.ops[a.firstOp]), 64), id, off;
      if (!resolve(S, Val(p), a.byval, false, id, off, nullptr)) return;
      uint64_t n = allocObj(S, a.byval, OK_Stack, true);
      copyBytes(S, n >> REGION_SHIFT, 0, id, off, a.byval);
      args.push_back(Val(n)); // (freed never; harmless)
      continue;
    }
    for (uint32_t k = 0; k < a.nleaf; k++) args.push_back(ev(S, I.ops[a.firstOp + k]));
  }
  std::vector<Val> copy(args);
  pushFrame(S, f, copy, false);
}

static void step(State &S) {
  Frame &F = top(S);
  const Inst &I = F.f->blocks[F.bb].insts[F.ip];
  ES.insts++; S.steps++;
  switch (I.op) {
  case O_Nop: F.ip++; return;
  case O_Bin: {
    Val a = ev(S, I.ops[0]), b = ev(S, I.ops[1]);
    Kind k = (Kind)I.sub;
    if (k >= K_UDiv && k <= K_SRem) {
      if (!b.e) { if (!b.c) { violation(S, "div-by-zero", "division by zero"); return; } }
      else {
        E z = mkBin(K_Eq, b.e, mkConst(0, I.w));
        if (z->k != K_Const) {
          State *o; bool v = decide(S, z, &o);
          if (v) { violation(S, "div-by-zero", "division by zero"); return; }
        }
      }
      if ((k == K_SDiv || k == K_SRem) && !a.e && !b.e && sextw(b.c, I.w) == -1 && a.c == (1ull << (I.w - 1))) { violation(S, "div-overflow", "INT_MIN / -1"); return; }
      if ((k == K_SDiv || k == K_SRem) && (a.e || b.e)) {
        E z = mkBin(K_And, mkBin(K_Eq, toE(b, I.w), mkConst(~0ull, I.w)), mkBin(K_Eq, toE(a, I.w), mkConst(1ull << (I.w - 1), I.w)));
        if (z->k != K_Const || z->v) {
          State *o = nullptr; bool v = z->k == K_Const ? true : decide(S, z, &o);
          if (v) { violation(S, "div-overflow", "INT_MIN / -1"); return; }
        }
      }
    }
    if (!a.e && !b.e) setRes(S, I, Val(foldBin(k, a.c, b.c, I.w)));
    else setRes(S, I, Val(mkBin(k, toE(a, I.w), toE(b, I.w))));
    F.ip++; return;
  }
  case O_ICmp: setRes(S, I, icmp(I.sub, ev(S, I.ops[0]), ev(S, I.ops[1]), I.w)); F.ip++; return;
  case O_Select: {
    Val c = ev(S, I.ops[0]);
    unsigned n = I.leaves->size();
    for (unsigned i = 0; i < n; i++) {
      Val a = ev(S, I.ops[1 + i]), b = ev(S, I.ops[1 + n + i]);
      if (!c.e) setRes(S, I, c.c ? a : b, i);
      else setRes(S, I, Val(mkIte(c.e, toE(a, (*I.leaves)[i].w), toE(b, (*I.leaves)[i].w))), i);
    }
    F.ip++; return;
  }
  case O_Trunc: { Val a = ev(S, I.ops[0]); if (a.e) setRes(S, I, Val(mkExtract(a.e, 0, I.w))); else setRes(S, I, Val(a.c & maskw(I.w))); F.ip++; return; }
  case O_ZExt: { Val a = ev(S, I.ops[0]); if (a.e) setRes(S, I, Val(mkZExt(a.e, I.w))); else setRes(S, I, a); F.ip++; return; }
  case O_SExt: { Val a = ev(S, I.ops[0]); if (a.e) setRes(S, I, Val(mkSExt(a.e, I.w))); else setRes(S, I, Val((uint64_t)sextw(a.c, I.w2) & maskw(I.w))); F.ip++; return; }
  case O_Copy: {
    if (I.ops.size() == 1) setRes(S, I, ev(S, I.ops[0]));
    else { std::vector<Val> t; for (auto &o : I.ops) t.push_back(ev(S, o)); for (unsigned i = 0; i < t.size(); i++) setRes(S, I, t[i], i); }
    F.ip++; return;
  }
  case O_Load: if (doLoad(S, I)) top(S).ip++; return;
  case O_Store: if (doStore(S, I)) top(S).ip++; return;
  case O_GEP: {
    Val b = ev(S, I.ops[0]);
    uint64_t c = I.imm; E e = b.e;
    if (!b.e) c += b.c;
    unsigned k = 1;
    for (auto &ix : I.gep->idx) {
      Val v = ev(S, I.ops[k++]);
      if (!v.e) c += (uint64_t)sextw(v.c, ix.first) * (uint64_t)ix.second;
      else {
        E x = mkSExt(v.e, 64);
        x = mkBin(K_Mul, x, mkConst((uint64_t)ix.second, 64));
        e = e ? mkBin(K_Add, e, x) : x;
      }
    }
    if (e) setRes(S, I, Val(mkBin(K_Add, e, mkConst(c, 64)))); else setRes(S, I, Val(c));
    F.ip++; return;
  }
  case O_Alloca: {
    uint64_t n = concretize(S, ev(S, I.ops[0]), I.w2);
    uint64_t a = allocObj(S, n * I.imm, OK_Stack, true);
    S.allocas.push_back(a >> REGION_SHIFT);
    setRes(S, I, Val(a)); top(S).ip++; return;
  }
  case O_Br: jumpTo(S, I.t0); return;
  case O_CondBr: {
    Val c = ev(S, I.ops[0]);
    bool v;
    if (!c.e) v = c.c & 1;
    else {
      ES.symBranches++;
      State *o; v = decide(S, c.e, &o);
      if (o) jumpTo(*o, v ? I.t1 : I.t0);
    }
    jumpTo(S, v ? I.t0 : I.t1);
    return;
  }
  case O_Switch: {
    Val c = ev(S, I.ops[0]);
    if (!c.e) { auto it = I.sw->cases.find(c.c); jumpTo(S, it == I.sw->cases.end() ? I.sw->def : it->second); return; }
    ES.symBranches++;
    // group by target
    std::map<int, E> g; E any = mkConst(0, 1);
    for (auto &p : I.sw->cases) {
      E q = mkBin(K_Eq, c.e, mkConst(p.first, I.w));
      any = mkBin(K_Or, any, q);
      auto it = g.find(p.second);
      if (it == g.end()) g[p.second] = q; else it->second = mkBin(K_Or, it->second, q);
    }
    E d = mkNot(any);
    auto it = g.find(I.sw->def);
    if (it == g.end()) g[I.sw->def] = d; else it->second = mkBin(K_Or, it->second, d);
    int target = -1; E tc = nullptr;
    for (auto &p : g) if (evalExpr(p.second, *S.model)) { target = p.first; tc = p.second; break; }
    for (auto &p : g) {
      if (p.first == target || (p.second->k == K_Const && !p.second->v)) continue;
      ModelP m;
      SatResult r = solverCheck(S.pc, p.second, S.model, &m);
      if (r == R_SAT) { State *o = fork(S); o->model = m; addPC(*o, p.second); jumpTo(*o, p.first); }
      else if (r == R_UNKNOWN) incomplete("solver timeout on switch at " + topLoc(S));
    }
    addPC(S, tc);
    jumpTo(S, target);
    return;
  }
  case O_Ret: doReturn(S, I); return;
  case O_Call: doCall(S, I); return;
  case O_Unreachable: violation(S, "unreachable", "unreachable code executed (undefined behaviour)"); return;
  case O_LandingPad:
    setRes(S, I, Val(S.exc[S.pendingExc].obj), 0); setRes(S, I, Val(S.pendingSel), 1);
    F.ip++; return;
  case O_Resume: {
    int i = excByObj(S, ev(S, I.ops[0]).c);
    if (i < 0) { engineError(S, "resume: unknown exception"); return; }
    popFrame(S);
    if (S.frames.empty()) { violation(S, "uncaught-exception", "uncaught exception"); return; }
    unwind(S, i);
    return;
  }
  case O_AtomicRMW: {
    Val a = ev(S, I.ops[0]), v = ev(S, I.ops[1]); uint64_t id, off;
    if (!resolve(S, a, I.w / 8, true, id, off, nullptr)) return;
    Val old = loadBytes(S, id, off, I.w);
    Val n = I.sub == 254 ? v : Val(mkBin((Kind)I.sub, toE(old, I.w), toE(v, I.w)));
    storeBytes(S, id, off, n, I.w); setRes(S, I, old); top(S).ip++; return;
  }
  case O_CmpXchg: {
    Val a = ev(S, I.ops[0]), c = ev(S, I.ops[1]), n = ev(S, I.ops[2]); uint64_t id, off;
    if (!resolve(S, a, I.w / 8, true, id, off, nullptr)) return;
    Val old = loadBytes(S, id, off, I.w);
    E eq = mkBin(K_Eq, toE(old, I.w), toE(c, I.w));
    storeBytes(S, id, off, Val(mkIte(eq, toE(n, I.w), toE(old, I.w))), I.w);
    setRes(S, I, old, 0); setRes(S, I, Val(eq), 1); top(S).ip++; return;
  }
  case O_FBin: {
    uint64_t a = concretize(S, ev(S, I.ops[0]), I.w), b = concretize(S, ev(S, I.ops[1]), I.w);
    auto op = [&](auto x, auto y) { switch (I.sub) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x / y; default: return (decltype(x))fmod(x, y); } };
    setRes(S, I, Val(I.w == 64 ? fromD(op(asD(a), asD(b))) : fromF(op(asF(a), asF(b))))); top(S).ip++; return;
  }
  case O_FNeg: { uint64_t a = concretize(S, ev(S, I.ops[0]), I.w); setRes(S, I, Val(a ^ (1ull << (I.w - 1)))); top(S).ip++; return; }
  case O_FCmp: {
    uint64_t a = concretize(S, ev(S, I.ops[0]), I.w), b = concretize(S, ev(S, I.ops[1]), I.w);
    double x = I.w == 64 ? asD(a) : asF(a), y = I.w == 64 ? asD(b) : asF(b);
    bool un = std::isnan(x) || std::isnan(y);
    bool r = ((I.sub & 8) && un) || ((I.sub & 1) && x == y && !un) || ((I.sub & 2) && x > y) || ((I.sub & 4) && x < y);
    setRes(S, I, Val((uint64_t)r)); top(S).ip++; return;
  }
  case O_FCast: {
    uint64_t a = concretize(S, ev(S, I.ops[0]), I.w2), r = 0;
    double d = I.w2 == 32 ? asF(a) : asD(a);
    switch (I.sub) {
    case 0: { int64_t x = sextw(a, I.w2); r = I.w == 64 ? fromD((double)x) : fromF((float)x); break; }
    case 1: r = I.w == 64 ? fromD((double)a) : fromF((float)a); break;
    case 2: r = (uint64_t)(int64_t)d & maskw(I.w); break;
    case 3: r = (uint64_t)d & maskw(I.w); break;
    case 4: r = fromD(asF(a)); break;
    case 5: r = fromF((float)asD(a)); break;
    }
    setRes(S, I, Val(r)); top(S).ip++; return;
  }
  case O_Unsupported: engineError(S, *I.msg); return;
  default: engineError(S, "bad opcode"); return;
  }
}

static bool runState(State *S) {
  uint64_t k = 0;
  while (!S->done) {
    step(*S);
    if ((++k & 1023) == 0 && !inInit) {
      if (elapsed() > CFG.maxTime) { incomplete("time limit " + std::to_string(CFG.maxTime) + "s reached"); return false; }
      if (S->steps > CFG.maxSteps) { violation(*S, "non-termination", "path exceeds " + std::to_string(CFG.maxSteps) + " instructions"); }
    }
  }
  return true;
}

static State *baseState = nullptr;
bool execInit() {
  bindNatives();
  throwBadAlloc = funcByName("symx_throw_bad_alloc");
  State *S = new State;
  S->model = newModel({});
  for (auto &g : allGlobals()) {
    Obj *o = new Obj(g.size, OK_Global, false);
    memcpy(o->data, g.init.data(), g.size);
    o->ro = false; // set after initialisation
    uint64_t id = S->mem.add(o);
    if (objBase(id) != g.addr) { fprintf(stderr, "global id mismatch\n"); return false; }
  }
  inInit = true;
  for (auto f : globalCtors()) {
    S->done = false;
    if (!pushFrame(*S, f, {}, false)) return false;
    runState(S);
  }
  for (auto &g : allGlobals()) if (g.constant) S->mem.getW(g.addr >> REGION_SHIFT)->ro = true;
  inInit = false;
  S->done = false; S->liveHeap = 0;
  ES = ExecStats();
  for (auto f : allFuncs()) f->executed = 0;
  baseState = S;
  return true;
}

void execTask(const std::string &entry, const std::map<std::string, int64_t> &p) {
  params = p;
  tStart = std::chrono::steady_clock::now();
  FuncInfo *f = funcByName(entry);
  if (!f) { incomplete("no such entry " + entry); return; }
  if (CFG.seed) rng = CFG.seed * 2654435761u + 1;
  State *S = new State(*baseState);
  S->steps = 0;
  if (!pushFrame(*S, f, {}, false)) return;
  worklist.push_back(S);
  while (!worklist.empty()) {
    State *s = worklist.back(); worklist.pop_back();
    if (!runState(s)) { delete s; break; }
    delete s;
    if ((int)violations.size() >= CFG.maxViol) { incomplete("stopped after the violation limit"); break; }
  }
  { std::vector<std::pair<int,std::string>> v; for (auto &p : forkProf) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (auto &p : v) fprintf(stderr, "FORK %d %s\n", p.first, p.second.c_str()); }
  ES.wall = elapsed();
}
