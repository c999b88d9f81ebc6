// Module preparation for the abstract interpreter: uninitialised-value markers, small
// memcpy to load/store, inlining of everything that has no contract, mem2reg.
#include "absint.h"
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/UnifyFunctionExitNodes.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/ConstantFolding.h>
using namespace llvm;

std::string baseName(StringRef n) {
  size_t p = n.rfind('.');
  while (p != StringRef::npos && p + 1 < n.size() && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos) {
    n = n.substr(0, p); p = n.rfind('.');
  }
  return n.str();
}
static bool scalarAlloca(AllocaInst *A) {
  return A->isStaticAlloca() && !A->isArrayAllocation() && (A->getAllocatedType()->isIntegerTy() || A->getAllocatedType()->isPointerTy());
}
static void smallCopies(Function &F) {
  std::vector<MemCpyInst *> todo;
  for (auto &I : instructions(F)) if (auto *M = dyn_cast<MemCpyInst>(&I)) if (auto *L = dyn_cast<ConstantInt>(M->getLength())) {
    uint64_t n = L->getZExtValue();
    if (n == 1 || n == 2 || n == 4 || n == 8) {
      auto ok = [&](Value *p) {
        auto *A = dyn_cast<AllocaInst>(p->stripPointerCasts());
        return A && scalarAlloca(A) && A->getAllocatedType()->isIntegerTy(n * 8);
      };
      if (ok(M->getDest()) || ok(M->getSource())) todo.push_back(M);
    }
  }
  for (auto *M : todo) {
    IRBuilder<> B(M);
    Type *T = B.getIntNTy(cast<ConstantInt>(M->getLength())->getZExtValue() * 8);
    auto *L = B.CreateAlignedLoad(T, M->getSource(), Align(1));
    B.CreateAlignedStore(L, M->getDest(), Align(1));
    M->eraseFromParent();
  }
}
static void markUninit(Function &F) {
  Module &M = *F.getParent();
  std::vector<AllocaInst *> as;
  for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (scalarAlloca(A)) as.push_back(A);
  for (auto *A : as) {
    Type *T = A->getAllocatedType();
    std::string nm = "__uninit." + (T->isPointerTy() ? std::string("ptr") : "i" + std::to_string(T->getIntegerBitWidth()));
    FunctionCallee C = M.getOrInsertFunction(nm, T);
    std::vector<Instruction *> at;
    for (auto *U : A->users()) if (auto *II = dyn_cast<IntrinsicInst>(U)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) at.push_back(II);
    if (at.empty()) at.push_back(A);
    for (auto *I : at) {
      IRBuilder<> B(I->getNextNode());
      B.SetCurrentDebugLocation(DebugLoc());
      auto *ci = B.CreateCall(C);
      ci->setDebugLoc(I->getDebugLoc());
      B.CreateStore(ci, A);
    }
  }
}
static void promote(Function &F) {
  for (int round = 0; round < 8; round++) { // the address of one variable may be held in another
    std::vector<AllocaInst *> as;
    for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (scalarAlloca(A) && isAllocaPromotable(A)) as.push_back(A);
    if (as.empty()) return;
    DominatorTree DT(F);
    PromoteMemToReg(as, DT);
  }
}
// <byteswap.h> spells the swap out for some compilers
static void byteSwaps(Module &M) {
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::string b = baseName(F.getName());
    if (b != "__bswap_16" && b != "__bswap_32" && b != "__bswap_64") continue;
    Type *T = F.getReturnType();
    if (F.arg_size() != 1 || !T->isIntegerTy() || F.getArg(0)->getType() != T) continue;
    std::vector<CallInst *> cs;
    for (auto *U : F.users()) if (auto *C = dyn_cast<CallInst>(U)) if (C->getCalledFunction() == &F) cs.push_back(C);
    for (auto *C : cs) {
      IRBuilder<> B(C);
      auto *R = B.CreateUnaryIntrinsic(Intrinsic::bswap, C->getArgOperand(0));
      C->replaceAllUsesWith(R); C->eraseFromParent();
    }
  }
}
// results of status-returning helpers that will be inlined stay visible
static void markStatus(Module &M, const std::function<bool(Function &)> &isContract) {
  for (auto &F : M) {
    if (F.isDeclaration() || !F.getReturnType()->isIntegerTy() || isContract(F)) continue;
    auto *SP = F.getSubprogram(); if (!SP || !SP->getType()) continue;
    auto ts = SP->getType()->getTypeArray(); if (!ts.size()) continue;
    auto *T = dyn_cast_or_null<DIDerivedType>(ts[0]); if (!T || T->getName() != "wdns_res") continue;
    FunctionCallee K = M.getOrInsertFunction("__status." + baseName(F.getName()) + "." , Type::getVoidTy(M.getContext()), F.getReturnType());
    for (auto *U : std::vector<User *>(F.user_begin(), F.user_end())) if (auto *C = dyn_cast<CallInst>(U)) if (C->getCalledFunction() == &F) {
      IRBuilder<> B(C->getNextNode()); B.SetCurrentDebugLocation(C->getDebugLoc()); B.CreateCall(K, {C});
    }
  }
}
void prepModule(Module &M, const std::function<bool(Function &)> &isContract) {
  byteSwaps(M);
  markStatus(M, isContract);
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    removeUnreachableBlocks(F);
    smallCopies(F);
    markUninit(F);
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
  }
  // bottom-up inlining: repeatedly inline calls to functions that themselves have no inlinable calls left
  std::map<Function *, int> state;
  std::function<void(Function &)> vis = [&](Function &F) {
    if (state[&F]) return;
    state[&F] = 1;
    bool again = true; int rounds = 0;
    while (again && rounds++ < 10) {
      again = false;
      std::vector<CallInst *> cs;
      for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallInst>(&I)) {
        auto *G = C->getCalledFunction();
        if (!G || G->isDeclaration() || isContract(*G) || G == &F || G->isVarArg()) continue;
        if (state[G] == 1) continue; // recursion: left as a call
        vis(*G);
        cs.push_back(C);
      }
      for (auto *C : cs) { InlineFunctionInfo IFI; if (InlineFunction(*C, IFI, false, nullptr, true).isSuccess()) again = true; }
    }
    state[&F] = 2;
  };
  for (auto &F : M) if (!F.isDeclaration()) vis(F);
  for (auto &F : M) if (!F.isDeclaration()) {
    removeUnreachableBlocks(F);
    promote(F);
    // drop debug intrinsics
    std::vector<Instruction *> dead;
    for (auto &I : instructions(F)) if (isa<DbgInfoIntrinsic>(&I)) dead.push_back(&I);
    for (auto *I : dead) I->eraseFromParent();
    // trivial dead code
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto &BB : F) for (auto it = BB.begin(); it != BB.end();) {
        Instruction &I = *it++;
        bool d = isInstructionTriviallyDead(&I);
        if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledFunction() && C->getCalledFunction()->getName().starts_with("__uninit") && C->use_empty()) d = true;
        if (auto *P = dyn_cast<PHINode>(&I)) if (P->use_empty()) d = true;
        if (d) { I.eraseFromParent(); ch = true; }
      }
    }
  }
}
