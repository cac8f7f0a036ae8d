// SymFP: LLVM pass that turns a module into a concolic (dynamic symbolic) executor
// for its floating-point computation.  Every double SSA value gets an i32 shadow id
// (0 = concrete).  All operations on doubles are mirrored by calls into the runtime
// (symrt.cpp), which builds a hash-consed expression DAG and a path condition.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace {

static const char *LIBM1[] = {"sin","cos","tan","asin","acos","atan","sqrt","floor","ceil","exp","log","fabs","round",
                              "trunc","cbrt","sinh","cosh","tanh","rint","nearbyint","sinl", nullptr};
static const char *LIBM2[] = {"atan2","fmod","pow","hypot","fmin","fmax","copysign","remainder","fdim", nullptr};

struct Pass1 {
  Module &M; LLVMContext &C;
  Type *D, *I32, *I64, *V; PointerType *P;
  FunctionCallee fBin, fUn, fCall1, fCall2, fCmp, fSel, fLoad, fStore, fCopy, fSet, fArgSet, fArgGet, fRetSet, fRetGet,
      fToInt, fOpaque;
  unsigned site = 0; std::string modname; unsigned mh;
  Pass1(Module &M) : M(M), C(M.getContext()) {
    D = Type::getDoubleTy(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); V = Type::getVoidTy(C);
    P = PointerType::getUnqual(C);
    fBin = M.getOrInsertFunction("symrt_bin", I32, I32, I32, D, I32, D, D);   // op, ida, a, idb, b, result
    fUn = M.getOrInsertFunction("symrt_un", I32, I32, I32, D, D);
    fCall1 = M.getOrInsertFunction("symrt_call1", I32, P, I32, D, D);
    fCall2 = M.getOrInsertFunction("symrt_call2", I32, P, I32, D, I32, D, D);
    fCmp = M.getOrInsertFunction("symrt_cmp", V, I32, I32, D, I32, D, Type::getInt1Ty(C), I32);
    fLoad = M.getOrInsertFunction("symrt_load", I32, P, D);
    fStore = M.getOrInsertFunction("symrt_store", V, P, I32, D);
    fCopy = M.getOrInsertFunction("symrt_copy", V, P, P, I64);
    fSet = M.getOrInsertFunction("symrt_set", V, P, I64);
    fArgSet = M.getOrInsertFunction("symrt_argset", V, I32, I32, D);
    fArgGet = M.getOrInsertFunction("symrt_argget", I32, I32, D);
    fRetSet = M.getOrInsertFunction("symrt_retset", V, I32, I32, D);
    fRetGet = M.getOrInsertFunction("symrt_retget", I32, I32, D);
    fToInt = M.getOrInsertFunction("symrt_toint", V, I32, D, I64, I32);
    fOpaque = M.getOrInsertFunction("symrt_opaque", I32, I32, D, D);
    modname = M.getSourceFileName();
    mh = 0; for (char c : modname.substr(modname.rfind('/') + 1)) mh = mh * 31 + c;
    mh &= 0xffff;
  }
  // shadowed "slots": double -> 1 slot; aggregates made of doubles only -> n slots
  int slots(Type *T) {
    if (T == D) return 1;
    if (auto *S = dyn_cast<StructType>(T)) {
      int n = 0; for (Type *e : S->elements()) { if (e != D) return 0; n++; } return n;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) if (A->getElementType() == D && A->getNumElements() <= 8) return A->getNumElements();
    if (auto *A = dyn_cast<FixedVectorType>(T)) if (A->getElementType() == D) return A->getNumElements();
    return 0;
  }
  typedef std::vector<Value *> Sh;
  std::map<Value *, Sh> sh;
  Value *zero() { return ConstantInt::get(I32, 0); }
  Sh get(Value *v) {
    auto it = sh.find(v); if (it != sh.end()) return it->second;
    return Sh(slots(v->getType()), zero());
  }
  Value *elem(IRBuilder<> &B, Value *v, int i) {
    if (v->getType() == D) return v;
    if (v->getType()->isVectorTy()) return B.CreateExtractElement(v, (uint64_t)i);
    return B.CreateExtractValue(v, {(unsigned)i});
  }
  Constant *str(const std::string &s, std::map<std::string, Constant *> &cache, IRBuilder<> &B) {
    auto it = cache.find(s); if (it != cache.end()) return it->second;
    Constant *g = B.CreateGlobalStringPtr(s, "symname", 0, &M); cache[s] = g; return g;
  }
  std::map<std::string, Constant *> names;

  static bool inlist(const char **l, StringRef n) { for (; *l; ++l) if (n == *l) return true; return false; }
  std::string libmName(CallBase *CB) {
    Function *F = CB->getCalledFunction(); if (!F) return "";
    StringRef n = F->getName();
    if (F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
        case Intrinsic::fabs: return "fabs"; case Intrinsic::floor: return "floor"; case Intrinsic::ceil: return "ceil";
        case Intrinsic::sqrt: return "sqrt"; case Intrinsic::sin: return "sin"; case Intrinsic::cos: return "cos";
        case Intrinsic::pow: return "pow"; case Intrinsic::minnum: return "fmin"; case Intrinsic::maxnum: return "fmax";
        case Intrinsic::trunc: return "trunc"; case Intrinsic::round: return "round"; case Intrinsic::copysign: return "copysign";
        case Intrinsic::rint: return "rint"; case Intrinsic::nearbyint: return "rint";
        default: return "";
      }
    }
    if (!F->isDeclaration()) return "";
    if (inlist(LIBM1, n) || inlist(LIBM2, n)) return n.str();
    return "";
  }

  bool skip(Function &F) {
    if (F.isDeclaration()) return true;
    if (F.getName().starts_with("symrt_") || F.getName().starts_with("sym_")) return true;
    return false;
  }

  bool run() {
    std::vector<Function *> fs;
    for (Function &F : M) if (!skip(F)) fs.push_back(&F);
    for (Function *F : fs) runF(*F);
    return true;
  }

  void runF(Function &F) {
    sh.clear();
    std::vector<Instruction *> work;
    // split critical edges out of invokes returning doubles
    std::vector<InvokeInst *> inv;
    for (Instruction &I : instructions(F)) if (auto *II = dyn_cast<InvokeInst>(&I)) if (slots(II->getType())) inv.push_back(II);
    for (auto *II : inv) { BasicBlock *N = II->getNormalDest(); SplitEdge(II->getParent(), N); }
    for (Instruction &I : instructions(F)) work.push_back(&I);
    // args
    Instruction *entry = &*F.getEntryBlock().getFirstInsertionPt();
    while (isa<AllocaInst>(entry)) entry = entry->getNextNode();
    {
      IRBuilder<> B(entry); unsigned k = 0;
      for (Argument &A : F.args()) {
        int n = slots(A.getType());
        if (!n) continue;
        Sh s; for (int i = 0; i < n; i++) { s.push_back(B.CreateCall(fArgGet, {ConstantInt::get(I32, k++), elem(B, &A, i)})); }
        sh[&A] = s;
      }
    }
    // phis first (placeholders)
    std::vector<std::pair<PHINode *, Sh>> phis;
    for (Instruction *I : work) if (auto *PN = dyn_cast<PHINode>(I)) {
      int n = slots(PN->getType()); if (!n) continue;
      Sh s; for (int i = 0; i < n; i++) s.push_back(PHINode::Create(I32, PN->getNumIncomingValues(), "", PN));
      sh[PN] = s; phis.push_back({PN, s});
    }
    // RPO order guarantees defs before uses except phis
    ReversePostOrderTraversal<Function *> RPO(&F);
    std::vector<Instruction *> ord; std::set<Instruction *> orig(work.begin(), work.end());
    for (BasicBlock *BB : RPO) for (Instruction &I : *BB) if (orig.count(&I)) ord.push_back(&I);
    for (Instruction *I : ord) visit(I, F);
    for (auto &p : phis) {
      PHINode *PN = p.first;
      for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) {
        Sh s = get(PN->getIncomingValue(k));
        for (size_t i = 0; i < p.second.size(); i++) cast<PHINode>(p.second[i])->addIncoming(s[i], PN->getIncomingBlock(k));
      }
    }
  }
  unsigned nextSite() { return (mh << 16) | (++site & 0xffff); }

  void visit(Instruction *I, Function &F) {
    Type *T = I->getType();
    if (auto *BO = dyn_cast<BinaryOperator>(I)) {
      if (slots(T) == 0) return;
      unsigned op;
      switch (BO->getOpcode()) {
        case Instruction::FAdd: op = 0; break; case Instruction::FSub: op = 1; break;
        case Instruction::FMul: op = 2; break; case Instruction::FDiv: op = 3; break;
        case Instruction::FRem: op = 4; break; default: return;
      }
      IRBuilder<> B(I->getNextNode());
      Sh a = get(I->getOperand(0)), b = get(I->getOperand(1)), r;
      for (int i = 0; i < slots(T); i++)
        r.push_back(B.CreateCall(fBin, {ConstantInt::get(I32, op), a[i], elem(B, I->getOperand(0), i), b[i],
                                        elem(B, I->getOperand(1), i), elem(B, I, i)}));
      sh[I] = r; return;
    }
    if (auto *UO = dyn_cast<UnaryOperator>(I)) {
      if (UO->getOpcode() != Instruction::FNeg || !slots(T)) return;
      IRBuilder<> B(I->getNextNode()); Sh a = get(I->getOperand(0)), r;
      for (int i = 0; i < slots(T); i++)
        r.push_back(B.CreateCall(fUn, {zero(), a[i], elem(B, I->getOperand(0), i), elem(B, I, i)}));
      sh[I] = r; return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(I)) {
      if (FC->getOperand(0)->getType() != D) return;
      IRBuilder<> B(I->getNextNode());
      B.CreateCall(fCmp, {ConstantInt::get(I32, FC->getPredicate()), get(FC->getOperand(0))[0], FC->getOperand(0),
                          get(FC->getOperand(1))[0], FC->getOperand(1), I, ConstantInt::get(I32, nextSite())});
      return;
    }
    if (auto *SI = dyn_cast<SelectInst>(I)) {
      int n = slots(T); if (!n || SI->getCondition()->getType()->isVectorTy()) return;
      IRBuilder<> B(I->getNextNode()); Sh a = get(SI->getTrueValue()), b = get(SI->getFalseValue()), r;
      for (int i = 0; i < n; i++) r.push_back(B.CreateSelect(SI->getCondition(), a[i], b[i]));
      sh[I] = r; return;
    }
    if (auto *L = dyn_cast<LoadInst>(I)) {
      int n = slots(T); if (!n) return;
      IRBuilder<> B(I->getNextNode()); Sh r;
      for (int i = 0; i < n; i++) {
        Value *p = L->getPointerOperand(); if (i) p = B.CreateConstGEP1_32(D, p, i);
        r.push_back(B.CreateCall(fLoad, {p, elem(B, I, i)}));
      }
      sh[I] = r; return;
    }
    if (auto *S = dyn_cast<StoreInst>(I)) {
      Value *v = S->getValueOperand(); int n = slots(v->getType()); if (!n) return;
      IRBuilder<> B(I->getNextNode()); Sh a = get(v);
      for (int i = 0; i < n; i++) {
        Value *p = S->getPointerOperand(); if (i) p = B.CreateConstGEP1_32(D, p, i);
        B.CreateCall(fStore, {p, a[i], elem(B, v, i)});
      }
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(I)) {
      if (T != D || !slots(EV->getAggregateOperand()->getType()) || EV->getNumIndices() != 1) return;
      sh[I] = {get(EV->getAggregateOperand())[EV->getIndices()[0]]}; return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(I)) {
      if (!slots(T) || IV->getNumIndices() != 1) return;
      Sh a = get(IV->getAggregateOperand()); a[IV->getIndices()[0]] = get(IV->getInsertedValueOperand())[0]; sh[I] = a; return;
    }
    if (auto *EE = dyn_cast<ExtractElementInst>(I)) {
      if (T != D || !isa<ConstantInt>(EE->getIndexOperand())) return;
      sh[I] = {get(EE->getVectorOperand())[cast<ConstantInt>(EE->getIndexOperand())->getZExtValue()]}; return;
    }
    if (auto *IE = dyn_cast<InsertElementInst>(I)) {
      if (!slots(T) || !isa<ConstantInt>(IE->getOperand(2))) return;
      Sh a = get(IE->getOperand(0)); a[cast<ConstantInt>(IE->getOperand(2))->getZExtValue()] = get(IE->getOperand(1))[0]; sh[I] = a; return;
    }
    if (auto *FZ = dyn_cast<FreezeInst>(I)) { if (slots(T)) sh[I] = get(FZ->getOperand(0)); return; }
    if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
      if (I->getOperand(0)->getType() != D) return;
      IRBuilder<> B(I->getNextNode());
      Value *z = isa<FPToSIInst>(I) ? B.CreateSExtOrTrunc(I, I64) : B.CreateZExtOrTrunc(I, I64);
      B.CreateCall(fToInt, {get(I->getOperand(0))[0], I->getOperand(0), z, ConstantInt::get(I32, nextSite())});
      return;
    }
    if (isa<FPTruncInst>(I) || isa<FPExtInst>(I) || isa<BitCastInst>(I)) {
      // value leaves the double domain (or comes back): becomes concrete on this path
      return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
      Value *v = R->getReturnValue(); if (!v) return; int n = slots(v->getType()); if (!n) return;
      IRBuilder<> B(I); Sh a = get(v);
      for (int i = 0; i < n; i++) B.CreateCall(fRetSet, {ConstantInt::get(I32, i), a[i], elem(B, v, i)});
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(I)) {
      if (CB->isInlineAsm()) return;
      if (auto *MI = dyn_cast<MemTransferInst>(I)) {
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(fCopy, {MI->getDest(), MI->getSource(), B.CreateZExtOrTrunc(MI->getLength(), I64)});
        return;
      }
      if (auto *MS = dyn_cast<MemSetInst>(I)) {
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(fSet, {MS->getDest(), B.CreateZExtOrTrunc(MS->getLength(), I64)});
        return;
      }
      Function *cal = CB->getCalledFunction();
      if (cal && (cal->getName() == "memcpy" || cal->getName() == "memmove") && CB->arg_size() == 3) {
        Instruction *nx = I->getNextNode(); if (!nx) return; IRBuilder<> B(nx);
        B.CreateCall(fCopy, {CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)}); return;
      }
      std::string nm = libmName(CB);
      int n = slots(T);
      if (!nm.empty() && T == D) {
        Instruction *at = nullptr;
        if (auto *II = dyn_cast<InvokeInst>(I)) at = &*II->getNormalDest()->getFirstInsertionPt(); else at = I->getNextNode();
        IRBuilder<> B(at);
        if (CB->arg_size() == 1)
          sh[I] = {B.CreateCall(fCall1, {str(nm, names, B), get(CB->getArgOperand(0))[0], CB->getArgOperand(0), I})};
        else
          sh[I] = {B.CreateCall(fCall2, {str(nm, names, B), get(CB->getArgOperand(0))[0], CB->getArgOperand(0),
                                         get(CB->getArgOperand(1))[0], CB->getArgOperand(1), I})};
        return;
      }
      if (cal && cal->isIntrinsic()) {
        if (cal->getIntrinsicID() == Intrinsic::fmuladd || cal->getIntrinsicID() == Intrinsic::fma) {
          if (T != D) return; IRBuilder<> B(I->getNextNode());
          Value *m = B.CreateFMul(CB->getArgOperand(0), CB->getArgOperand(1));
          Value *ms = B.CreateCall(fBin, {ConstantInt::get(I32, 2), get(CB->getArgOperand(0))[0], CB->getArgOperand(0),
                                          get(CB->getArgOperand(1))[0], CB->getArgOperand(1), m});
          sh[I] = {B.CreateCall(fBin, {zero(), ms, m, get(CB->getArgOperand(2))[0], CB->getArgOperand(2), I})};
        }
        return;
      }
      if (cal && cal->getName() == "_ZN8steering7fresnelEdRdS0_" && isa<CallInst>(I)) {
        IRBuilder<> B0(I); B0.CreateCall(M.getOrInsertFunction("symrt_argset", V, I32, I32, D), {zero(), get(CB->getArgOperand(0))[0], CB->getArgOperand(0)});
        B0.CreateCall(M.getOrInsertFunction("symrt_fresnel_pre", V), {});
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(M.getOrInsertFunction("symrt_fresnel_post", V, I32, D, P, P),
                     {get(CB->getArgOperand(0))[0], CB->getArgOperand(0), CB->getArgOperand(1), CB->getArgOperand(2)});
        return;
      }
      // ordinary call
      bool symrtCall = cal && (cal->getName().starts_with("symrt_") );
      if (symrtCall) return;
      {
        IRBuilder<> B(I); unsigned k = 0;
        for (unsigned a = 0; a < CB->arg_size(); a++) {
          Value *v = CB->getArgOperand(a); int m = slots(v->getType()); if (!m) continue;
          Sh s = get(v);
          for (int i = 0; i < m; i++) B.CreateCall(fArgSet, {ConstantInt::get(I32, k++), s[i], elem(B, v, i)});
        }
      }
      if (n) {
        Instruction *at;
        if (auto *II = dyn_cast<InvokeInst>(I)) at = &*II->getNormalDest()->getFirstInsertionPt(); else at = I->getNextNode();
        IRBuilder<> B(at); Sh r;
        for (int i = 0; i < n; i++) r.push_back(B.CreateCall(fRetGet, {ConstantInt::get(I32, i), elem(B, I, i)}));
        sh[I] = r;
      }
      return;
    }
  }
};

struct SymFP : PassInfoMixin<SymFP> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) { Pass1 p(M); p.run(); return PreservedAnalyses::none(); }
  static bool isRequired() { return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymFP", "1", [](PassBuilder &PB) {
    PB.registerPipelineParsingCallback([](StringRef N, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
      if (N == "symfp") { MPM.addPass(SymFP()); return true; } return false; });
  }};
}
