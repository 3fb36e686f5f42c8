#pragma once
#include "expr.h"
#include "prog.h"
#include "solver.h"
#include <cstring>
#include <set>

struct Val { E e = nullptr; uint64_t c = 0; Val() {} Val(uint64_t x) : c(x) {} Val(E x) { if (x->k == K_Const) { c = x->v; } else e = x; } };
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum ObjKind : uint8_t { OK_Global, OK_Stack, OK_Malloc, OK_New, OK_NewArr, OK_Exc };
enum { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };

struct Obj {
  uint32_t rc = 1;
  ObjKind kind; bool ro = false;
  uint32_t nonconc = 0; // number of non-concrete bytes
  uint64_t size;
  uint8_t *data = nullptr, *st = nullptr;
  E *sym = nullptr;
  uint32_t loc = 0;
  Obj(uint64_t n, ObjKind k, bool uninit) : kind(k), size(n) {
    data = (uint8_t *)calloc(n ? n : 1, 1);
    if (uninit && n) { st = (uint8_t *)malloc(n); memset(st, B_UNINIT, n); nonconc = n; }
  }
  Obj(const Obj &o) : rc(1), kind(o.kind), ro(o.ro), nonconc(o.nonconc), size(o.size), loc(o.loc) {
    data = (uint8_t *)malloc(size ? size : 1); memcpy(data, o.data, size);
    if (o.st && nonconc) { st = (uint8_t *)malloc(size); memcpy(st, o.st, size); 
      if (o.sym) { sym = (E *)malloc(size * sizeof(E)); memcpy(sym, o.sym, size * sizeof(E)); } }
  }
  ~Obj() { free(data); free(st); free(sym); }
  void setSt(uint64_t i, uint8_t s) {
    if (!st) { if (s == B_CONC) return; st = (uint8_t *)calloc(size, 1); }
    if ((st[i] != 0) != (s != 0)) { if (s) nonconc++; else nonconc--; }
    st[i] = s;
  }
  void setConc(uint64_t i, uint8_t v) { data[i] = v; if (nonconc) setSt(i, B_CONC); }
  void setSym(uint64_t i, E e) {
    if (e->k == K_Const) { setConc(i, e->v); return; }
    setSt(i, B_SYM);
    if (!sym) sym = (E *)calloc(size, sizeof(E));
    sym[i] = e;
  }
};
extern Obj deadObj;

struct Chunk { uint32_t rc = 1; Obj *o[128]; };
struct ObjTable {
  std::vector<Chunk *> ch;
  uint64_t next = 16;
  ObjTable() {}
  ObjTable(const ObjTable &t) : ch(t.ch), next(t.next) { for (auto c : ch) if (c) c->rc++; }
  ObjTable &operator=(const ObjTable &) = delete;
  ~ObjTable() { for (auto c : ch) drop(c); }
  static void dropObj(Obj *o) { if (o && o != &deadObj && --o->rc == 0) delete o; }
  static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) dropObj(o); delete c; } }
  Obj *get(uint64_t id) const { uint64_t k = id >> 7; return k < ch.size() && ch[k] ? ch[k]->o[id & 127] : nullptr; }
  Obj **slot(uint64_t id) {
    uint64_t k = id >> 7;
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    Chunk *&c = ch[k];
    if (!c) { c = new Chunk; memset(c->o, 0, sizeof c->o); }
    else if (c->rc > 1) {
      Chunk *n = new Chunk; memcpy(n->o, c->o, sizeof n->o);
      for (auto o : n->o) if (o && o != &deadObj) o->rc++;
      c->rc--; c = n;
    }
    return &c->o[id & 127];
  }
  Obj *getW(uint64_t id) {
    Obj **s = slot(id);
    if ((*s)->rc > 1) { Obj *n = new Obj(**s); (*s)->rc--; *s = n; }
    return *s;
  }
  uint64_t add(Obj *o) { uint64_t id = next++; *slot(id) = o; return id; }
  void kill(uint64_t id) { Obj **s = slot(id); dropObj(*s); *s = &deadObj; }
};

struct Frame {
  FuncInfo *f; int bb, ip; uint32_t base; uint32_t allocaStart; bool discardRet; uint8_t hook;
};
struct ExcRec { uint64_t obj, ti, dtor; int handlers = 0; bool rethrown = false, dead = false; uint64_t adjusted = 0; };
struct SymInput { std::string name; uint32_t firstSym, n; };
struct State {
  std::vector<Val> regs;
  std::vector<Frame> frames;
  std::vector<uint64_t> allocas;
  ObjTable mem;
  std::vector<E> pc;
  ModelP model;
  std::vector<ExcRec> exc;
  std::vector<int> caught;
  int pendingExc = -1; uint64_t pendingSel = 0;
  std::vector<SymInput> inputs;
  std::map<std::string, int> nameCount;
  std::vector<Val> log;
  std::vector<std::string> covers;
  uint32_t uninitCount = 0;
  uint64_t allocLimit = 1 << 20;
  int64_t liveHeap = 0;
  uint64_t steps = 0, startSteps = 0;
  uint32_t depth = 0;
  bool done = false;
  int skipForkQuery = 0;
};
