#pragma once
#include "program.h"
using namespace llvm;

struct Program {
    LLVMContext C; std::unique_ptr<Module> M; const DataLayout *DL = nullptr; ExprPool &P;
    std::vector<Func *> funcs; std::unordered_map<const Function *, Func *> fmap; std::unordered_map<std::string, Func *> fname;
    struct Glob { const GlobalVariable *G; u64 addr; u64 size; bool cst, ghost, tls, ext; };
    std::vector<Glob> globs; std::unordered_map<const GlobalVariable *, u64> gaddr; std::map<u64, size_t> globByAddr;
    std::unordered_map<const DISubprogram *, int> spIdx; struct SP { std::string name, file; int line; }; std::vector<SP> sps;
    std::string unsupported;
    Program(ExprPool &p) : P(p) {}

    static u64 mkaddr(unsigned arena, unsigned idx) { return ((u64)arena << 16 | idx) << 24; }
    static bool isScalar(Type *T) { return !T->isAggregateType() && !T->isVectorTy(); }
    static int nslots(Type *T) {
        if (T->isVoidTy()) return 0;
        if (auto *S = dyn_cast<StructType>(T)) { int n = 0; for (auto *E : S->elements()) n += nslots(E); return n; }
        if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * nslots(A->getElementType());
        if (auto *VT = dyn_cast<FixedVectorType>(T)) return VT->getNumElements() * nslots(VT->getElementType());
        return 1;
    }
    unsigned widthOf(Type *T) {
        if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; if (T->isX86_FP80Ty()) return 80;
        if (T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) return 1;
        if (auto *VT = dyn_cast<FixedVectorType>(T)) return widthOf(VT->getElementType());
        return 64;
    }
    void pieces(Type *T, unsigned off, std::vector<Piece> &out) {
        if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) pieces(S->getElementType(i), off + L->getElementOffset(i), out); return; }
        if (auto *A = dyn_cast<ArrayType>(T)) { unsigned es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) pieces(A->getElementType(), off + i * es, out); return; }
        if (auto *VT = dyn_cast<FixedVectorType>(T)) { unsigned es = DL->getTypeStoreSize(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) pieces(VT->getElementType(), off + i * es, out); return; }
        out.push_back({off, widthOf(T)});
    }
    V cv(const APInt &a) { if (a.getBitWidth() <= 64) return {a.getZExtValue(), nullptr}; u128 v = a.getRawData()[0] | (u128)(a.getNumWords() > 1 ? a.getRawData()[1] : 0) << 64; return {0, P.cst(v, a.getBitWidth())}; }
    V zero(unsigned w) { if (w <= 64) return {0, nullptr}; return {0, P.cst(0, w)}; }
    void constVals(const Constant *c, std::vector<V> &out) {
        Type *T = c->getType();
        if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(cv(ci->getValue())); return; }
        if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(cv(cf->getValueAPF().bitcastToAPInt())); return; }
        if (isa<ConstantPointerNull>(c)) { out.push_back({0, nullptr}); return; }
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Piece> p; pieces(T, 0, p); for (auto &x : p) out.push_back(zero(x.w)); return; }
        if (auto *ca = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ca->getNumElements(); i++) constVals(ca->getElementAsConstant(i), out); return; }
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out); return; }
        if (auto *F = dyn_cast<Function>(c)) { out.push_back({func(F)->addr, nullptr}); return; }
        if (auto *G = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(G); out.push_back({it == gaddr.end() ? 0 : it->second, nullptr}); return; }
        if (auto *A = dyn_cast<GlobalAlias>(c)) { constVals(A->getAliasee(), out); return; }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
            unsigned w = widthOf(T); u64 m = w >= 64 ? ~0ULL : (1ULL << w) - 1;
            auto o = [&](unsigned i) { std::vector<V> t; constVals(cast<Constant>(ce->getOperand(i)), t); return t[0].c; };
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { out.push_back({o(0) + off.getZExtValue(), nullptr}); return; } break; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: out.push_back({o(0) & m, nullptr}); return;
            case Instruction::Add: out.push_back({(o(0) + o(1)) & m, nullptr}); return;
            case Instruction::Sub: out.push_back({(o(0) - o(1)) & m, nullptr}); return;
            case Instruction::ICmp: { u64 a = o(0), b = o(1); auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) { out.push_back({a == b, nullptr}); return; } if (p == CmpInst::ICMP_NE) { out.push_back({a != b, nullptr}); return; } break; }
            default: break;
            }
        }
        std::string s; raw_string_ostream os(s); c->print(os); unsupported = "constant " + os.str();
        int n = nslots(T); for (int i = 0; i < n; i++) out.push_back({0, nullptr});
    }
    Func *func(const Function *F) {
        auto it = fmap.find(F); if (it != fmap.end()) return it->second;
        Func *f = new Func; f->F = F; f->name = F->getName().str(); f->id = funcs.size(); f->addr = mkaddr(2, f->id + 1); f->decl = F->isDeclaration();
        funcs.push_back(f); fmap[F] = f; fname[f->name] = f; return f;
    }
    int spOf(const Instruction &I, int &line) {
        line = 0; auto &dl = I.getDebugLoc(); if (!dl) return -1; line = dl.getLine();
        auto *sc = dl->getScope(); auto *sp = sc ? sc->getSubprogram() : nullptr; if (!sp) return -1;
        auto it = spIdx.find(sp); if (it != spIdx.end()) return it->second;
        std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = dir + "/" + fn;
        int i = sps.size(); sps.push_back({sp->getName().str(), fn, (int)sp->getLine()}); spIdx[sp] = i; return i;
    }

    // ---- function decoding
    void decode(Func *f) {
        if (f->decoded) return; f->decoded = true; if (f->decl) return;
        const Function &F = *f->F; std::unordered_map<const Value *, int> reg; int nr = 0;
        for (auto &A : F.args()) { int n = nslots(A.getType()); reg[&A] = nr; f->args.push_back({nr, n}); nr += n; }
        for (auto &BB : F) for (auto &I : BB) if (!I.getType()->isVoidTy()) { reg[&I] = nr; nr += nslots(I.getType()); }
        f->nregs = nr;
        std::unordered_map<const BasicBlock *, int> bidx; int bi = 0; for (auto &BB : F) bidx[&BB] = bi++;
        auto opn = [&](const Value *v) { Opnd o; if (auto *c = dyn_cast<Constant>(v)) constVals(c, o.cv); else { auto it = reg.find(v); if (it != reg.end()) o.reg = it->second; else o.cv.push_back({0, nullptr}); } return o; };
        auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.target = bidx[to]; for (auto &phi : to->phis()) { e.copies.push_back({reg[&phi], opn(phi.getIncomingValueForBlock(from))}); e.copyN.push_back(nslots(phi.getType())); } return e; };
        for (auto &BB : F) {
            f->blockStart.push_back(f->code.size());
            for (auto &I : BB) {
                if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
                Inst n; n.I = &I; n.sp = spOf(I, n.line); n.block = bidx[&BB];
                if (!I.getType()->isVoidTy()) { n.dst = reg[&I]; n.dstN = nslots(I.getType()); n.n = n.dstN; n.w = widthOf(I.getType()); }
                auto all = [&]() { for (unsigned i = 0; i < I.getNumOperands(); i++) n.ops.push_back(opn(I.getOperand(i))); };
                switch (I.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                    static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM},
                        {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
                    n.op = I_BIN; n.sub = km.at(I.getOpcode()); all(); break; }
                case Instruction::ICmp: n.op = I_ICMP; n.sub = cast<ICmpInst>(I).getPredicate(); n.w2 = widthOf(I.getOperand(0)->getType()); n.w = 1; all(); break;
                case Instruction::Select: n.op = I_SELECT; all(); n.sub = I.getOperand(0)->getType()->isVectorTy(); { std::vector<Piece> p; pieces(I.getType(), 0, p); n.pieces = p; } break;
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
                case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
                    n.op = I_CAST; n.sub = I.getOpcode(); n.w2 = widthOf(I.getOperand(0)->getType()); all();
                    if (I.getOpcode() == Instruction::BitCast && nslots(I.getType()) != nslots(I.getOperand(0)->getType())) { n.imm = nslots(I.getOperand(0)->getType()); } else n.imm = 0;
                    break;
                case Instruction::Freeze: n.op = I_FREEZE; all(); break;
                case Instruction::Load: { n.op = I_LOAD; auto &L = cast<LoadInst>(I); n.ops.push_back(opn(L.getPointerOperand())); pieces(I.getType(), 0, n.pieces); n.size = DL->getTypeStoreSize(I.getType()); n.atomic = L.isAtomic(); n.vis = n.atomic; break; }
                case Instruction::Store: { n.op = I_STORE; auto &S = cast<StoreInst>(I); n.ops.push_back(opn(S.getValueOperand())); n.ops.push_back(opn(S.getPointerOperand())); pieces(S.getValueOperand()->getType(), 0, n.pieces); n.size = DL->getTypeStoreSize(S.getValueOperand()->getType()); n.atomic = S.isAtomic(); n.vis = n.atomic; break; }
                case Instruction::GetElementPtr: {
                    n.op = I_GEP; auto &G = cast<GetElementPtrInst>(I); n.ops.push_back(opn(G.getPointerOperand())); if (I.getType()->isVectorTy()) n.op = I_BADOP;
                    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                        if (auto *ST = it.getStructTypeOrNull()) { n.imm += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); }
                        else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) n.imm += ci->getSExtValue() * sz; else n.gep.push_back({opn(it.getOperand()), sz, widthOf(it.getOperand()->getType())}); }
                    }
                    break; }
                case Instruction::Alloca: { n.op = I_ALLOCA; auto &A = cast<AllocaInst>(I); n.ops.push_back(opn(A.getArraySize())); n.imm = DL->getTypeAllocSize(A.getAllocatedType()); break; }
                case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isConditional()) { n.op = I_CBR; n.ops.push_back(opn(B.getCondition())); n.e1 = edge(&BB, B.getSuccessor(0)); n.e2 = edge(&BB, B.getSuccessor(1)); } else { n.op = I_BR; n.e1 = edge(&BB, B.getSuccessor(0)); } break; }
                case Instruction::Switch: { auto &S = cast<SwitchInst>(I); n.op = I_SWITCH; n.ops.push_back(opn(S.getCondition())); n.w2 = widthOf(S.getCondition()->getType()); n.e1 = edge(&BB, S.getDefaultDest()); for (auto &c : S.cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&BB, c.getCaseSuccessor())}); break; }
                case Instruction::Ret: n.op = I_RET; if (I.getNumOperands()) { n.ops.push_back(opn(I.getOperand(0))); n.n = nslots(I.getOperand(0)->getType()); } else n.n = 0; break;
                case Instruction::Unreachable: n.op = I_UNREACHABLE; break;
                case Instruction::Fence: n.op = I_FENCE; n.sub = (unsigned)cast<FenceInst>(I).getOrdering() == (unsigned)AtomicOrdering::SequentiallyConsistent && cast<FenceInst>(I).getSyncScopeID() == SyncScope::System; break;
                case Instruction::AtomicCmpXchg: { n.op = I_CMPXCHG; n.vis = n.atomic = true; auto &X = cast<AtomicCmpXchgInst>(I); n.ops = {opn(X.getPointerOperand()), opn(X.getCompareOperand()), opn(X.getNewValOperand())}; n.w2 = widthOf(X.getCompareOperand()->getType()); n.size = (n.w2 + 7) / 8; break; }
                case Instruction::AtomicRMW: { n.op = I_RMW; n.vis = n.atomic = true; auto &X = cast<AtomicRMWInst>(I); n.sub = X.getOperation(); n.ops = {opn(X.getPointerOperand()), opn(X.getValOperand())}; n.size = (n.w + 7) / 8; break; }
                case Instruction::ExtractValue: { auto &X = cast<ExtractValueInst>(I); n.op = I_EXTRACTV; n.ops.push_back(opn(X.getAggregateOperand())); n.imm = slotOff(X.getAggregateOperand()->getType(), X.getIndices()); break; }
                case Instruction::InsertValue: { auto &X = cast<InsertValueInst>(I); n.op = I_INSERTV; n.ops = {opn(X.getAggregateOperand()), opn(X.getInsertedValueOperand())}; n.imm = slotOff(X.getAggregateOperand()->getType(), X.getIndices()); n.size = nslots(X.getInsertedValueOperand()->getType()); break; }
                case Instruction::ExtractElement: n.op = I_EXTRACTE; all(); n.size = nslots(I.getOperand(0)->getType()); break;
                case Instruction::InsertElement: n.op = I_INSERTE; all(); break;
                case Instruction::ShuffleVector: { n.op = I_SHUFFLE; all(); for (int m : cast<ShuffleVectorInst>(I).getShuffleMask()) n.idx.push_back(m); n.size = nslots(I.getOperand(0)->getType()); break; }
                case Instruction::LandingPad: { n.op = I_LANDINGPAD; auto &L = cast<LandingPadInst>(I); n.cleanup = L.isCleanup(); for (unsigned i = 0; i < L.getNumClauses(); i++) n.clauses.push_back({L.isCatch(i), L.isCatch(i) ? opn(L.getClause(i)) : Opnd()}); break; }
                case Instruction::Resume: n.op = I_RESUME; all(); break;
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: n.op = I_FBIN; n.sub = I.getOpcode(); all(); break;
                case Instruction::FCmp: n.op = I_FCMP; n.sub = cast<FCmpInst>(I).getPredicate(); n.w2 = widthOf(I.getOperand(0)->getType()); all(); break;
                case Instruction::FNeg: n.op = I_FNEG; all(); break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto &CB = cast<CallBase>(I); n.op = I_CALL;
                    if (CB.isInlineAsm()) { n.op = I_NOP; if (n.dst >= 0) n.op = I_BADOP; if (auto *inv = dyn_cast<InvokeInst>(&I)) { n.op = I_BR; n.e1 = edge(&BB, inv->getNormalDest()); } break; }
                    for (auto &A : CB.args()) { if (A->getType()->isMetadataTy()) n.ops.push_back(Opnd{-1, {V{0, nullptr}}}); else n.ops.push_back(opn(A)); n.idx.push_back(nslots(A->getType())); }
                    const Value *cal = CB.getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cal)) cal = al->getAliasee()->stripPointerCasts();
                    if (auto *CF = dyn_cast<Function>(cal)) {
                        if (CF->isIntrinsic()) { n.op = I_INTRIN; n.intrin = CF->getIntrinsicID(); if (CB.arg_size()) n.w2 = widthOf(CB.getArgOperand(0)->getType()); }
                        n.callee = func(CF);
                    } else n.ops.push_back(opn(cal)); // indirect: callee last
                    if (auto *inv = dyn_cast<InvokeInst>(&I)) { n.invoke = true; n.e1 = edge(&BB, inv->getNormalDest()); n.e2 = edge(&BB, inv->getUnwindDest()); }
                    break; }
                default: n.op = I_BADOP;
                }
                f->code.push_back(std::move(n));
            }
        }
        f->covered.assign(f->blockStart.size(), 0);
        liveness(f);
    }
    static int slotOff(Type *T, ArrayRef<unsigned> idx) {
        int o = 0;
        for (unsigned i : idx) {
            if (auto *S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) o += nslots(S->getElementType(k)); T = S->getElementType(i); }
            else { auto *E = cast<ArrayType>(T)->getElementType(); o += i * nslots(E); T = E; }
        }
        return o;
    }
    void liveness(Func *f) {
        int W = (f->nregs + 63) / 64, nb = f->blockStart.size(); if (!W) return;
        typedef std::vector<u64> BS; std::vector<BS> in(nb, BS(W));
        auto setr = [&](BS &b, int r, int n) { for (int i = 0; i < n; i++) b[(r + i) >> 6] |= 1ULL << ((r + i) & 63); };
        auto clr = [&](BS &b, int r, int n) { for (int i = 0; i < n; i++) b[(r + i) >> 6] &= ~(1ULL << ((r + i) & 63)); };
        // Number of slots of each operand register is recovered from a table of register starts.
        std::vector<int> cnt(f->nregs, 1); for (auto &a : f->args) if (a.second) cnt[a.first] = a.second;
        for (auto &BB : *f->F) (void)BB;
        for (auto &I : f->code) { if (I.dst >= 0 && I.dstN) cnt[I.dst] = I.dstN; auto ed = [&](Edge &e) { for (size_t i = 0; i < e.copies.size(); i++) cnt[e.copies[i].first] = e.copyN[i]; }; ed(I.e1); ed(I.e2); for (auto &c : I.cases) ed(c.second); }
        auto use = [&](BS &b, const Opnd &o) { if (o.reg >= 0) setr(b, o.reg, cnt[o.reg]); };
        auto edgeIn = [&](BS &b, const Edge &e) { if (e.target < 0) return; BS t = in[e.target]; for (size_t i = 0; i < e.copies.size(); i++) clr(t, e.copies[i].first, e.copyN[i]); for (auto &c : e.copies) use(t, c.second); for (int i = 0; i < W; i++) b[i] |= t[i]; };
        auto back = [&](int bi, bool rec) {
            int s = f->blockStart[bi], e = bi + 1 < nb ? f->blockStart[bi + 1] : (int)f->code.size(); BS b(W);
            for (int i = e - 1; i >= s; i--) {
                Inst &I = f->code[i]; edgeIn(b, I.e1); edgeIn(b, I.e2); for (auto &c : I.cases) edgeIn(b, c.second);
                if (I.dst >= 0) clr(b, I.dst, I.dstN);
                for (auto &o : I.ops) use(b, o); for (auto &g : I.gep) use(b, g.idx);
                if (rec && (I.vis || I.op == I_CALL || I.op == I_INTRIN || I.op == I_STORE || I.op == I_LOAD)) { I.live.clear(); for (int r = 0; r < f->nregs; r++) if (b[r >> 6] >> (r & 63) & 1) I.live.push_back(r); }
            }
            return b;
        };
        bool ch = true; while (ch) { ch = false; for (int i = nb - 1; i >= 0; i--) { BS b = back(i, false); if (b != in[i]) { in[i] = b; ch = true; } } }
        for (int i = 0; i < nb; i++) back(i, true);
    }
};
