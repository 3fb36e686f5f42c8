#include "prog.h"
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstring>
using namespace llvm;

static LLVMContext CTX;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::vector<FuncInfo *> funcs;
static std::unordered_map<const Value *, FuncInfo *> funcOf;
static std::unordered_map<std::string, FuncInfo *> funcNames;
static std::vector<GlobalInfo> globals;
static std::unordered_map<const Value *, uint64_t> addrOf;
static std::unordered_map<std::string, uint64_t> gNames;
static std::vector<std::string> locs;
static std::unordered_map<std::string, uint32_t> locIdx;

std::vector<FuncInfo *> &allFuncs() { return funcs; }
std::vector<GlobalInfo> &allGlobals() { return globals; }
FuncInfo *funcByName(const std::string &n) { auto i = funcNames.find(n); return i == funcNames.end() ? nullptr : i->second; }
FuncInfo *funcByAddr(uint64_t a) {
  if (a < FUNC_BASE || (a & 15)) return nullptr;
  uint64_t i = (a - FUNC_BASE) >> 4;
  return i < funcs.size() ? funcs[i] : nullptr;
}
std::string locStr(uint32_t l) { return l < locs.size() ? locs[l] : "?"; }
std::string globalNameAt(uint64_t addr) {
  uint64_t id = addr >> REGION_SHIFT;
  if (id < 16 || id - 16 >= globals.size()) return "";
  return globals[id - 16].name;
}
uint64_t globalAddr(const std::string &n) { auto i = gNames.find(n); return i == gNames.end() ? 0 : i->second; }
std::string demangleName(const std::string &s) { return llvm::demangle(s); }

static void leavesOf(Type *t, uint64_t off, std::vector<Leaf> &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), off + i * sz, out);
  } else if (t->isVoidTy()) {
  } else if (t->isPointerTy()) out.push_back({(uint32_t)off, 64, false});
  else if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) out.push_back({(uint32_t)off, (uint8_t)t->getIntegerBitWidth(), false});
  else if (t->isFloatTy()) out.push_back({(uint32_t)off, 32, true});
  else if (t->isDoubleTy()) out.push_back({(uint32_t)off, 64, true});
  else out.push_back({(uint32_t)off, 0, false}); // unsupported leaf (executing it is an error)
}
static std::vector<Leaf> leavesOf(Type *t) { std::vector<Leaf> v; leavesOf(t, 0, v); return v; }
static bool supported(Type *t) { for (auto &l : leavesOf(t)) if (!l.w) return false; return true; }

static uint64_t constInt(const Constant *c);
static void flatConst(const Constant *c, std::vector<uint64_t> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
  } else out.push_back(constInt(c));
}
static uint64_t constInt(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getZExtValue();
  if (auto *cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); return b.getBitWidth() > 64 ? 0 : b.getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (isa<ConstantTokenNone>(c)) return 0;
  if (auto *f = dyn_cast<Function>(c)) { auto i = funcOf.find(f); return i->second->addr; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constInt(a->getAliasee());
  if (auto *a = dyn_cast<GlobalIFunc>(c)) { (void)a; return 0; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) return addrOf.at(g);
  if (auto *e = dyn_cast<DSOLocalEquivalent>(c)) return constInt(e->getGlobalValue());
  if (auto *e = dyn_cast<NoCFIValue>(c)) return constInt(e->getGlobalValue());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) report_fatal_error("gep constexpr");
      return constInt(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc:
      return constInt(ce->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::Mul: return (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::Xor: return (constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::ICmp: {
      uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; }
      break;
    }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  errs() << "unsupported constant: " << s << "\n";
  return 0;
}

static void initBytes(const Constant *c, uint8_t *p) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    auto r = ds->getRawDataValues();
    memcpy(p, r.data(), r.size());
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(c->getAggregateElement(i), p + sl->getElementOffset(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) initBytes(c->getAggregateElement(i), p + i * sz);
    return;
  }
  uint64_t sz = DL->getTypeStoreSize(t);
  if (sz > 8) { // wide integer / long double constants
    if (auto *ci = dyn_cast<ConstantInt>(c)) { for (uint64_t i = 0; i < sz; i++) p[i] = ci->getValue().lshr(8 * i).trunc(8).getZExtValue(); }
    return;
  }
  uint64_t v = constInt(c);
  memcpy(p, &v, sz);
}

bool loadProgram(const std::string &file) {
  SMDiagnostic err;
  M = parseIRFile(file, err, CTX);
  if (!M) { err.print("symx", errs()); return false; }
  DL = &M->getDataLayout();
  locs.push_back("?");
  for (auto &F : *M) {
    auto *fi = new FuncInfo;
    fi->name = F.getName().str();
    fi->llvmF = &F; fi->isDecl = F.isDeclaration();
    fi->addr = FUNC_BASE + funcs.size() * 16;
    funcs.push_back(fi); funcOf[&F] = fi; funcNames[fi->name] = fi;
  }
  uint64_t id = 16;
  for (auto &G : M->globals()) {
    GlobalInfo gi; gi.name = G.getName().str();
    gi.external = G.isDeclaration(); gi.constant = G.isConstant();
    gi.size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0;
    if (gi.external && gi.size < 64) gi.size = 64;
    gi.addr = objBase(id++);
    addrOf[&G] = gi.addr; gNames[gi.name] = gi.addr;
    globals.push_back(std::move(gi));
  }
  for (auto &A : M->aliases()) {
    if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) { funcNames[A.getName().str()] = funcOf[F]; funcOf[&A] = funcOf[F]; }
  }
  size_t i = 0;
  for (auto &G : M->globals()) {
    auto &gi = globals[i++];
    gi.init.assign(gi.size, 0);
    if (G.hasInitializer()) initBytes(G.getInitializer(), gi.init.data());
  }
  return true;
}

std::vector<FuncInfo *> globalCtors() {
  std::vector<std::pair<uint64_t, FuncInfo *>> v;
  if (auto *g = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *a = dyn_cast<ConstantArray>(g->getInitializer()))
      for (unsigned i = 0; i < a->getNumOperands(); i++) {
        auto *s = cast<ConstantStruct>(a->getOperand(i));
        if (auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({constInt(s->getOperand(0)), funcOf[f]});
      }
  }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  std::vector<FuncInfo *> r;
  for (auto &p : v) r.push_back(p.second);
  return r;
}

static uint32_t locOf(const Instruction &I) {
  const DebugLoc &d = I.getDebugLoc();
  if (!d) return 0;
  std::string s;
  auto *scope = cast<DIScope>(d.getScope());
  std::string f = scope->getFilename().str();
  size_t p = f.find("/repo/"); if (p != std::string::npos) f = f.substr(p + 6);
  s = f + ":" + std::to_string(d.getLine());
  auto it = locIdx.find(s);
  if (it != locIdx.end()) return it->second;
  uint32_t id = locs.size(); locs.push_back(s); locIdx[s] = id;
  return id;
}

void ensureTranslated(FuncInfo *fi) {
  if (fi->translated) return;
  fi->translated = true;
  Function &F = *(Function *)fi->llvmF;
  fi->demangled = llvm::demangle(fi->name);
  if (auto *sp = F.getSubprogram()) fi->file = sp->getFilename().str();
  if (F.isDeclaration()) return;
  std::unordered_map<const Value *, int32_t> slot;
  int32_t ns = 0;
  for (auto &A : F.args()) {
    unsigned n = leavesOf(A.getType()).size();
    slot[&A] = ns; fi->args.push_back({ns, n}); ns += n;
  }
  std::unordered_map<const BasicBlock *, int> bbi;
  int nb = 0;
  for (auto &B : F) {
    bbi[&B] = nb++;
    for (auto &I : B) {
      if (I.getType()->isVoidTy()) continue;
      slot[&I] = ns; ns += leavesOf(I.getType()).size();
    }
  }
  auto rl = leavesOf(F.getReturnType());
  fi->nret = rl.size();
  fi->nslots = ns;
  fi->blocks.resize(nb);
  auto addOp = [&](std::vector<Opnd> &v, const Value *x) -> unsigned {
    if (auto *c = dyn_cast<Constant>(x)) {
      std::vector<uint64_t> f; 
      if (x->getType()->isVectorTy()) { v.push_back(Opnd()); return 1; }
      flatConst(c, f);
      for (auto u : f) { Opnd o; o.c = u; v.push_back(o); }
      return f.size();
    }
    if (isa<MetadataAsValue>(x) || isa<InlineAsm>(x)) { v.push_back(Opnd()); return 1; }
    if (isa<BasicBlock>(x)) { v.push_back(Opnd()); return 1; }
    int32_t s = slot.at(x);
    unsigned n = leavesOf(x->getType()).size();
    for (unsigned i = 0; i < n; i++) { Opnd o; o.slot = s + i; v.push_back(o); }
    return n;
  };
  auto width = [&](Type *t) -> uint8_t {
    auto l = leavesOf(t);
    return l.size() == 1 ? l[0].w : 0;
  };
  for (auto &B : F) {
    Block &blk = fi->blocks[bbi[&B]];
    for (auto &I : B) {
      if (auto *ph = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
          int pb = bbi[ph->getIncomingBlock(i)];
          std::vector<PhiCopy> *v = nullptr;
          for (auto &q : blk.phis) if (q.first == pb) v = &q.second;
          if (!v) { blk.phis.push_back({pb, {}}); v = &blk.phis.back().second; }
          std::vector<Opnd> ops; addOp(ops, ph->getIncomingValue(i));
          // the same predecessor may be listed several times (switch): skip duplicates
          bool dup = false;
          for (auto &c : *v) if (c.dst == slot[ph]) dup = true;
          if (dup) continue;
          for (unsigned k = 0; k < ops.size(); k++) v->push_back({slot[ph] + (int)k, ops[k]});
        }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst in; in.loc = locOf(I);
      if (!I.getType()->isVoidTy()) in.dst = slot[&I];
      auto unsup = [&](const std::string &m) {
        in.op = O_Unsupported; std::string s; raw_string_ostream os(s); I.print(os);
        in.msg = new std::string(m + ": " + s); in.ops.clear();
      };
      bool ok = true;
      if (!supported(I.getType())) ok = false;
      for (auto &o : I.operands()) if (!isa<BasicBlock>(o) && !o->getType()->isMetadataTy() && !o->getType()->isLabelTy() && !o->getType()->isFunctionTy() && !o->getType()->isTokenTy() && !supported(o->getType())) ok = false;
      if (I.getType()->isTokenTy()) ok = true;
      if (!ok) { unsup("unsupported type"); blk.insts.push_back(in); continue; }
      switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
      case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        static const std::map<unsigned, Kind> km = {{Instruction::Add, K_Add}, {Instruction::Sub, K_Sub}, {Instruction::Mul, K_Mul}, {Instruction::UDiv, K_UDiv}, {Instruction::SDiv, K_SDiv}, {Instruction::URem, K_URem}, {Instruction::SRem, K_SRem}, {Instruction::And, K_And}, {Instruction::Or, K_Or}, {Instruction::Xor, K_Xor}, {Instruction::Shl, K_Shl}, {Instruction::LShr, K_LShr}, {Instruction::AShr, K_AShr}};
        in.op = O_Bin; in.sub = km.at(I.getOpcode()); in.w = width(I.getType());
        addOp(in.ops, I.getOperand(0)); addOp(in.ops, I.getOperand(1));
        break;
      }
      case Instruction::ICmp: {
        auto *c = cast<ICmpInst>(&I);
        in.op = O_ICmp; in.sub = c->getPredicate(); in.w = width(c->getOperand(0)->getType());
        addOp(in.ops, I.getOperand(0)); addOp(in.ops, I.getOperand(1));
        break;
      }
      case Instruction::Select:
        in.op = O_Select; in.leaves = new std::vector<Leaf>(leavesOf(I.getType()));
        addOp(in.ops, I.getOperand(0)); addOp(in.ops, I.getOperand(1)); addOp(in.ops, I.getOperand(2));
        break;
      case Instruction::Trunc: in.op = O_Trunc; in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType()); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::ZExt: in.op = O_ZExt; in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType()); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::SExt: in.op = O_SExt; in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType()); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType());
        in.op = in.w < in.w2 ? O_Trunc : in.w > in.w2 ? O_ZExt : O_Copy; addOp(in.ops, I.getOperand(0)); break;
      }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
        in.op = O_Copy; addOp(in.ops, I.getOperand(0)); break;
      case Instruction::Load: in.op = O_Load; in.leaves = new std::vector<Leaf>(leavesOf(I.getType())); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::Store: in.op = O_Store; in.leaves = new std::vector<Leaf>(leavesOf(I.getOperand(0)->getType())); addOp(in.ops, I.getOperand(1)); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::GetElementPtr: {
        in.op = O_GEP; in.gep = new GepInfo; in.imm = 0;
        auto *g = cast<GetElementPtrInst>(&I);
        addOp(in.ops, g->getPointerOperand());
        for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
          Value *ix = gt.getOperand();
          if (StructType *st = gt.getStructTypeOrNull()) {
            in.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          } else {
            int64_t sc = DL->getTypeAllocSize(gt.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) in.imm += ci->getSExtValue() * sc;
            else { addOp(in.ops, ix); in.gep->idx.push_back({width(ix->getType()), sc}); }
          }
        }
        break;
      }
      case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(&I);
        in.op = O_Alloca; in.imm = DL->getTypeAllocSize(a->getAllocatedType());
        addOp(in.ops, a->getArraySize()); in.w2 = width(a->getArraySize()->getType());
        break;
      }
      case Instruction::Br: {
        auto *b = cast<BranchInst>(&I);
        if (b->isConditional()) { in.op = O_CondBr; addOp(in.ops, b->getCondition()); in.t0 = bbi[b->getSuccessor(0)]; in.t1 = bbi[b->getSuccessor(1)]; }
        else { in.op = O_Br; in.t0 = bbi[b->getSuccessor(0)]; }
        break;
      }
      case Instruction::Switch: {
        auto *s = cast<SwitchInst>(&I);
        in.op = O_Switch; in.w = width(s->getCondition()->getType()); addOp(in.ops, s->getCondition());
        in.sw = new SwitchInfo; in.sw->def = bbi[s->getDefaultDest()];
        for (auto &c : s->cases()) in.sw->cases[c.getCaseValue()->getZExtValue()] = bbi[c.getCaseSuccessor()];
        break;
      }
      case Instruction::Ret: in.op = O_Ret; if (I.getNumOperands()) addOp(in.ops, I.getOperand(0)); break;
      case Instruction::Unreachable: in.op = O_Unreachable; break;
      case Instruction::Resume: in.op = O_Resume; addOp(in.ops, I.getOperand(0)); break;
      case Instruction::LandingPad: {
        auto *l = cast<LandingPadInst>(&I);
        in.op = O_LandingPad; in.lp = new LPInfo; in.lp->cleanup = l->isCleanup();
        for (unsigned i = 0; i < l->getNumClauses(); i++) {
          if (l->isCatch(i)) in.lp->catches.push_back(constInt(l->getClause(i)));
          else in.lp->hasFilter = true;
        }
        break;
      }
      case Instruction::ExtractValue: {
        auto *ev = cast<ExtractValueInst>(&I);
        in.op = O_Copy;
        // flattened leaf index
        Type *t = ev->getAggregateOperand()->getType(); unsigned li = 0;
        for (unsigned ix : ev->indices()) {
          for (unsigned k = 0; k < ix; k++) li += leavesOf(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()).size();
          t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        }
        std::vector<Opnd> ops; addOp(ops, ev->getAggregateOperand());
        unsigned n = leavesOf(I.getType()).size();
        for (unsigned k = 0; k < n; k++) in.ops.push_back(ops[li + k]);
        break;
      }
      case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(&I);
        in.op = O_Copy;
        Type *t = iv->getType(); unsigned li = 0;
        for (unsigned ix : iv->indices()) {
          for (unsigned k = 0; k < ix; k++) li += leavesOf(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()).size();
          t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType();
        }
        addOp(in.ops, iv->getAggregateOperand());
        std::vector<Opnd> ops; addOp(ops, iv->getInsertedValueOperand());
        for (unsigned k = 0; k < ops.size(); k++) in.ops[li + k] = ops[k];
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(&I);
        if (cb->isInlineAsm()) {
          auto *ia = cast<InlineAsm>(cb->getCalledOperand());
          if (ia->getAsmString().empty()) { in.op = O_Nop; if (in.dst >= 0) unsup("inline asm"); break; }
          unsup("inline asm"); break;
        }
        in.op = O_Call; in.call = new CallInfo;
        auto *ci = in.call;
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) { ci->callee = funcOf[cf]; in.ops.push_back(Opnd()); }
        else addOp(in.ops, cb->getCalledOperand());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          ArgInfo a; a.firstOp = in.ops.size(); a.byval = 0;
          if (cb->isByValArgument(i)) a.byval = DL->getTypeAllocSize(cb->getParamByValType(i));
          a.nleaf = addOp(in.ops, cb->getArgOperand(i));
          ci->args.push_back(a);
        }
        ci->nres = I.getType()->isVoidTy() ? 0 : leavesOf(I.getType()).size();
        in.leaves = new std::vector<Leaf>(leavesOf(I.getType()));
        ci->vararg = cb->getFunctionType()->isVarArg();
        // argument widths are needed by some intrinsics
        in.w = ci->nres == 1 ? (*in.leaves)[0].w : 0;
        in.w2 = cb->arg_size() ? width(cb->getArgOperand(0)->getType()) : 0;
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; ci->normalBB = bbi[iv->getNormalDest()]; ci->unwindBB = bbi[iv->getUnwindDest()]; }
        break;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        in.op = O_FBin; in.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : 4;
        in.w = width(I.getType()); addOp(in.ops, I.getOperand(0)); addOp(in.ops, I.getOperand(1)); break;
      }
      case Instruction::FCmp: in.op = O_FCmp; in.sub = cast<FCmpInst>(&I)->getPredicate(); in.w = width(I.getOperand(0)->getType()); addOp(in.ops, I.getOperand(0)); addOp(in.ops, I.getOperand(1)); break;
      case Instruction::FNeg: in.op = O_FNeg; in.w = width(I.getType()); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
        in.op = O_FCast; in.sub = I.getOpcode() == Instruction::SIToFP ? 0 : I.getOpcode() == Instruction::UIToFP ? 1 : I.getOpcode() == Instruction::FPToSI ? 2 : I.getOpcode() == Instruction::FPToUI ? 3 : I.getOpcode() == Instruction::FPExt ? 4 : 5;
        in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType()); addOp(in.ops, I.getOperand(0)); break;
      case Instruction::AtomicRMW: {
        auto *a = cast<AtomicRMWInst>(&I);
        in.op = O_AtomicRMW; in.w = width(I.getType()); in.sub = 255;
        switch (a->getOperation()) { case AtomicRMWInst::Add: in.sub = K_Add; break; case AtomicRMWInst::Sub: in.sub = K_Sub; break; case AtomicRMWInst::Or: in.sub = K_Or; break; case AtomicRMWInst::And: in.sub = K_And; break; case AtomicRMWInst::Xor: in.sub = K_Xor; break; case AtomicRMWInst::Xchg: in.sub = 254; break; default: unsup("atomicrmw"); break; }
        addOp(in.ops, a->getPointerOperand()); addOp(in.ops, a->getValOperand());
        break;
      }
      case Instruction::AtomicCmpXchg: {
        auto *a = cast<AtomicCmpXchgInst>(&I);
        in.op = O_CmpXchg; in.w = width(a->getCompareOperand()->getType());
        addOp(in.ops, a->getPointerOperand()); addOp(in.ops, a->getCompareOperand()); addOp(in.ops, a->getNewValOperand());
        break;
      }
      case Instruction::Fence: in.op = O_Nop; break;
      default: unsup("instruction"); break;
      }
      blk.insts.push_back(std::move(in));
    }
  }
}
