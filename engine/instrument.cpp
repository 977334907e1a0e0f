// Prepares a harness module for native replay: scheduling hooks around atomic operations, a record of stores to
// persistent memory, flushes and fences, and the same stand-ins for library calls that the symbolic executor uses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Verifier.h"
#include <map>
using namespace llvm;
int main(int argc, char **argv) {
    LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[1], err, C); if (!M) { err.print("instrument", errs()); return 3; }
    std::string san = argc > 3 ? argv[3] : ""; const DataLayout &DL = M->getDataLayout();
    Type *v = Type::getVoidTy(C), *p = PointerType::get(C, 0), *i64 = Type::getInt64Ty(C), *i32 = Type::getInt32Ty(C);
    auto fn = [&](const char *n, std::vector<Type *> a) { return M->getOrInsertFunction(n, FunctionType::get(v, a, false)); };
    auto pre = fn("vfr_pre", {}), post = fn("vfr_post", {}), pms = fn("vfr_pmstore", {p, i64}), cx = fn("vfr_pmcas", {p, i64, i64}), fl = fn("vfr_flush", {p}), fe = fn("vfr_fence", {});
    std::map<std::string, std::string> ren; auto add = [&](const char *to, std::initializer_list<const char *> l) { for (auto x : l) ren[x] = to; };
    add("vfr_malloc", {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}); add("vfr_calloc", {"calloc"}); add("vfr_realloc", {"realloc"}); add("vfr_aligned", {"aligned_alloc", "memalign"}); add("vfr_posix_memalign", {"posix_memalign"});
    add("vfr_free", {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"});
    add("vfr_exc_alloc", {"__cxa_allocate_exception"}); add("vfr_mlock", {"pthread_mutex_lock"}); add("vfr_mtrylock", {"pthread_mutex_trylock"}); add("vfr_munlock", {"pthread_mutex_unlock"}); add("vfr_exit", {"exit", "_exit"}); add("vfr_abort", {"abort"}); add("vfr_assertfail", {"__assert_fail"});
    for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) {
        auto it = ren.find(F.getName().str()); if (it != ren.end()) { F.replaceAllUsesWith(M->getOrInsertFunction(it->second, F.getFunctionType()).getCallee()); continue; }
        if (F.getName().starts_with("vfr_") || F.getName().starts_with("sym_")) continue;
        if (auto *G = M->getFunction(("vf_" + F.getName()).str())) if (!G->isDeclaration()) F.replaceAllUsesWith(G);
    }
    for (auto &F : *M) if (!F.isDeclaration() && F.hasLinkOnceLinkage()) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); } // the runtime must not share templates with the code it measures
    std::vector<Instruction *> L;
    for (auto &F : *M) { if (F.isDeclaration()) continue; if (san == "address") F.addFnAttr(Attribute::SanitizeAddress); if (san == "thread" && !F.getName().contains("ghost")) F.addFnAttr(Attribute::SanitizeThread); for (auto &B : F) for (auto &I : B) L.push_back(&I); }
    auto local = [&](Value *x) { x = getUnderlyingObject(x); return isa<AllocaInst>(x) || isa<GlobalVariable>(x); };
    for (auto *I : L) {
        IRBuilder<> b(I); auto c64 = [&](uint64_t n) { return ConstantInt::get(i64, n); }; auto after = [&]() { IRBuilder<> a(I->getNextNode()); a.SetCurrentDebugLocation(I->getDebugLoc()); a.CreateCall(post, {}); };
        if (auto *X = dyn_cast<LoadInst>(I)) { if (X->isAtomic()) { b.CreateCall(pre, {}); after(); } }
        else if (auto *X = dyn_cast<StoreInst>(I)) { if (X->isAtomic()) { b.CreateCall(pre, {}); after(); } if (!local(X->getPointerOperand())) b.CreateCall(pms, {X->getPointerOperand(), c64(DL.getTypeStoreSize(X->getValueOperand()->getType()))}); }
        else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) { b.CreateCall(pre, {}); Value *e = X->getCompareOperand(); e = e->getType()->isPointerTy() ? b.CreatePtrToInt(e, i64) : b.CreateZExt(e, i64); b.CreateCall(cx, {X->getPointerOperand(), e, c64(DL.getTypeStoreSize(X->getCompareOperand()->getType()))}); after(); }
        else if (auto *X = dyn_cast<AtomicRMWInst>(I)) { b.CreateCall(pre, {}); b.CreateCall(pms, {X->getPointerOperand(), c64(DL.getTypeStoreSize(X->getValOperand()->getType()))}); after(); }
        else if (auto *X = dyn_cast<FenceInst>(I)) { if (X->getOrdering() == AtomicOrdering::SequentiallyConsistent) b.CreateCall(fe, {}); }
        else if (auto *X = dyn_cast<AnyMemIntrinsic>(I)) { if (!local(X->getRawDest())) b.CreateCall(pms, {X->getRawDest(), b.CreateZExtOrTrunc(X->getLength(), i64)}); }
        else if (auto *X = dyn_cast<CallBase>(I)) { Function *F = X->getCalledFunction(); if (!F) continue; StringRef n = F->getName();
            if (n == "memcpy" || n == "memmove" || n == "memset") b.CreateCall(pms, {X->getArgOperand(0), X->getArgOperand(2)});
            switch (F->getIntrinsicID()) {
            case Intrinsic::x86_sse2_clflush: case Intrinsic::x86_clflushopt: case Intrinsic::x86_clwb: b.CreateCall(fl, {X->getArgOperand(0)}); I->eraseFromParent(); break;
            case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_mfence: b.CreateCall(fe, {}); break;
            default: break; } }
    }
    if (verifyModule(*M, &errs())) return 3;
    std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*M, o); return 0;
}
