// Compact program form translated from LLVM IR.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

struct Opnd { int32_t slot = -1; uint64_t c = 0; };

enum Opc : uint8_t {
  O_Bin, O_ICmp, O_Select, O_Trunc, O_ZExt, O_SExt, O_Copy, O_Load, O_Store, O_GEP, O_Alloca,
  O_Br, O_CondBr, O_Switch, O_Ret, O_Call, O_Unreachable, O_LandingPad, O_Resume, O_Freeze,
  O_ExtractV, O_InsertV, O_FBin, O_FCmp, O_FCast, O_FNeg, O_AtomicRMW, O_CmpXchg, O_Unsupported, O_Nop
};

struct Leaf { uint32_t off; uint8_t w; bool fp; };

struct FuncInfo;
struct ArgInfo { uint32_t firstOp, nleaf; uint64_t byval; };
struct CallInfo {
  FuncInfo *callee = nullptr; // null: indirect through ops[0]
  std::vector<ArgInfo> args;
  uint32_t nres = 0;
  bool invoke = false;
  int normalBB = -1, unwindBB = -1;
  bool vararg = false;
};
struct SwitchInfo { std::map<uint64_t, int> cases; int def; };
struct GepInfo { std::vector<std::pair<uint8_t, int64_t>> idx; };
struct LPInfo { bool cleanup; std::vector<uint64_t> catches; bool hasFilter = false; };

struct Inst {
  Opc op = O_Nop;
  uint8_t sub = 0;   // Kind / predicate
  uint8_t w = 0;     // result (or operand, for compares) width
  uint8_t w2 = 0;    // source width
  int32_t dst = -1;
  std::vector<Opnd> ops;
  uint64_t imm = 0;
  uint32_t loc = 0;
  int t0 = -1, t1 = -1;
  CallInfo *call = nullptr;
  SwitchInfo *sw = nullptr;
  GepInfo *gep = nullptr;
  LPInfo *lp = nullptr;
  std::vector<Leaf> *leaves = nullptr;
  std::string *msg = nullptr;
};
struct PhiCopy { int32_t dst; Opnd src; };
struct Block {
  std::vector<Inst> insts;
  std::vector<std::pair<int, std::vector<PhiCopy>>> phis; // per predecessor
};
struct State;
enum NRes { N_DONE, N_RETRY, N_END, N_FRAME, N_THROWN };
typedef NRes (*NativeFn)(State &, const Inst &);

struct FuncInfo {
  std::string name, demangled;
  void *llvmF = nullptr;
  uint64_t addr = 0;
  bool isDecl = true, translated = false;
  NativeFn native = nullptr;
  std::vector<Block> blocks;
  uint32_t nslots = 0;
  std::vector<std::pair<int32_t, uint32_t>> args; // slot, nleaf
  uint32_t nret = 0;
  std::vector<uint8_t> retw;
  uint64_t executed = 0;
  std::string file;
};

struct GlobalInfo { std::string name; uint64_t addr; uint64_t size; bool constant, external; std::vector<uint8_t> init; };

// translate.cpp
bool loadProgram(const std::string &file);
FuncInfo *funcByName(const std::string &n);
FuncInfo *funcByAddr(uint64_t a);
void ensureTranslated(FuncInfo *f);
std::string locStr(uint32_t loc);
std::vector<FuncInfo *> &allFuncs();
std::vector<GlobalInfo> &allGlobals();
std::vector<FuncInfo *> globalCtors();
std::string globalNameAt(uint64_t addr);
uint64_t globalAddr(const std::string &n);
std::string demangleName(const std::string &s);

const unsigned REGION_SHIFT = 34;
const uint64_t REGION_HALF = 1ull << 33;
inline uint64_t objBase(uint64_t id) { return (id << REGION_SHIFT) + REGION_HALF; }
const uint64_t FUNC_BASE = 0x7f00000000000000ull;
