// Included inside struct Engine.
static __int128 sxx(u64 v, unsigned w) { if (w < 64 && (v >> (w - 1) & 1)) v |= ~mk(w); return (int64_t)v; }
V binop(Kind k, V a, V b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 m = mk(w), x = a.c & m, y = b.c & m;
        switch (k) {
        case K_ADD: return K((x + y) & m); case K_SUB: return K((x - y) & m); case K_MUL: return K((x * y) & m);
        case K_AND: return K(x & y); case K_OR: return K(x | y); case K_XOR: return K(x ^ y);
        case K_SHL: return K(y >= w ? 0 : (x << y) & m); case K_LSHR: return K(y >= w ? 0 : x >> y);
        default: { u128 r; ExprPool::foldBin(k, w, x, y, r); return K((u64)r); }
        }
    }
    return fe(P.bin(k, E(a, w), E(b, w)));
}
V icmp(unsigned pred, V a, V b, unsigned w) {
    switch (pred) {
    case CmpInst::ICMP_EQ: if (!a.e && !b.e) return K(a.c == b.c); return fe(P.bin(K_EQ, E(a, w), E(b, w)));
    case CmpInst::ICMP_NE: if (!a.e && !b.e) return K(a.c != b.c); return fe(P.not_(P.bin(K_EQ, E(a, w), E(b, w))));
    case CmpInst::ICMP_ULT: return binop(K_ULT, a, b, w); case CmpInst::ICMP_ULE: return binop(K_ULE, a, b, w);
    case CmpInst::ICMP_UGT: return binop(K_ULT, b, a, w); case CmpInst::ICMP_UGE: return binop(K_ULE, b, a, w);
    case CmpInst::ICMP_SLT: return binop(K_SLT, a, b, w); case CmpInst::ICMP_SLE: return binop(K_SLE, a, b, w);
    case CmpInst::ICMP_SGT: return binop(K_SLT, b, a, w); default: return binop(K_SLE, b, a, w);
    }
}
V notb(V a) { if (!a.e) return K(!(a.c & 1)); return fe(P.not_(a.e)); }
V itev(V c, V a, V b, unsigned w) { if (!c.e) return c.c & 1 ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return fe(P.ite(c.e, E(a, w), E(b, w))); }
V trunc_(V v, unsigned w) { if (!v.e) return K(v.c & mk(w)); return fe(P.extract(v.e, 0, w)); }
V zext_(V v, unsigned from, unsigned to) { if (!v.e && to <= 64) return v; return fe(P.zext(E(v, from), to)); }
V sext_(V v, unsigned from, unsigned to) { if (!v.e && to <= 64) return K((u64)sxx(v.c, from) & mk(to)); return fe(P.sext(E(v, from), to)); }
static double asD(u64 c, unsigned w) { if (w == 32) { uint32_t i = c; float f; memcpy(&f, &i, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 ofD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t i; memcpy(&i, &f, 4); return i; } u64 c; memcpy(&c, &d, 8); return c; }

V val(Frame *f, const Opnd &o, int i = 0) { if (o.reg >= 0) return f->regs[o.reg + i]; return (size_t)i < o.cv.size() ? o.cv[i] : K(0); }
void setv(Frame *f, const Inst &I, V v) { f->regs[I.dst] = v; }
void jump(State &s, Frame *f, const Edge &e) {
    if (!e.copies.empty()) {
        tmp.clear(); for (size_t i = 0; i < e.copies.size(); i++) for (int k = 0; k < e.copyN[i]; k++) tmp.push_back(val(f, e.copies[i].second, k));
        size_t p = 0; for (size_t i = 0; i < e.copies.size(); i++) for (int k = 0; k < e.copyN[i]; k++) f->regs[e.copies[i].first + k] = tmp[p++];
    }
    f->pc = f->f->blockStart[e.target]; f->f->covered[e.target] = 1;
}
Frame *pushFrame(State &s, Func *fn) {
    PR.decode(fn); Thread &t = s.th[s.cur]; Frame *f = new Frame; f->f = fn; f->regs.assign(fn->nregs, K(0)); f->stackMark = t.stackTop; t.st.push_back(f); fn->covered[0] = 1;
    if (t.st.size() > 400) stop(s, "call depth limit"); return f;
}
void popFrame(State &s) {
    Thread &t = s.th[s.cur]; Frame *f = t.st.back();
    Arena *&A = s.ar[stackArena(s)];
    if (t.stackTop != f->stackMark && A) {
        if (A->rc > 1) { Arena *n = A->clone(); A->rc--; A = n; }
        for (unsigned i = f->stackMark; i < t.stackTop; i++) { Obj *&o = A->v[i + 1]; if (o) { if (o->hv) s.memHash -= o->h; decObj(o); o = nullptr; } }
    }
    t.stackTop = f->stackMark; t.st.pop_back(); decFrame(f);
}
// After a frame was popped by return: continue the caller behind its call.
void retTo(State &s, std::vector<V> &rv) {
    Thread &t = s.th[s.cur];
    if (t.st.empty()) return;
    Frame *f = top(s); Inst &I = f->f->code[f->pc];
    if (I.op == I_CALL && I.dst >= 0) for (int i = 0; i < I.dstN; i++) f->regs[I.dst + i] = (size_t)i < rv.size() ? rv[i] : K(0);
    finish(s, f, I);
}
void finish(State &s, Frame *f, Inst &I) { if (I.invoke) jump(s, f, I.e1); else f->pc++; }

// ---------- scheduling
bool runnable(State &s, int i) {
    Thread &t = s.th[i];
    switch (t.status) {
    case T_RUN: return true; case T_DONE: return false;
    case T_JOIN: for (size_t k = 0; k < s.th.size(); k++) if ((int)k != i && s.th[k].status != T_DONE && s.th[k].group == t.group) return false; return true;
    case T_MUTEX: { Obj *o = slot(s, t.waitAddr); if (!o) return true; V c = o->cells[(t.waitAddr & 0xffffff) >> 3]; if (c.e == UNINIT) return true; c = ext(c, (t.waitAddr & 7) * 8, 32); return !c.e && c.c == 0; }
    }
    return false;
}
void switchTo(State &s, int u) {
    Thread &t = s.th[s.cur]; t.hashValid = false; s.sched.push_back({s.cur, (uint32_t)t.nvis}); s.cur = u; s.th[u].hashValid = false; s.solo.clear(); s.soloOps = 0; nSched++;
    if (s.th[u].status != T_DONE) s.th[u].status = T_RUN;
}
// Free choice of the next thread.  Returns ST_END when s itself is not to be continued.
Status freeSwitch(State &s, bool includeSelf) {
    std::vector<int> c; for (size_t i = 0; i < s.th.size(); i++) if (((int)i != s.cur || includeSelf) && runnable(s, i)) c.push_back(i);
    if (c.empty()) { for (auto &t : s.th) if (t.status != T_DONE) return viol(s, "deadlock", "deadlock: no thread can continue"); return ST_END; }
    for (size_t k = c.size() - 1; k > 0; k--) { State *n = new State(s); if (c[k] != n->cur) { switchTo(*n, c[k]); n->noSched = true; } else n->noSched = true; nForks++; push(n); }
    if (c[0] != s.cur) { switchTo(s, c[0]); s.noSched = true; return ST_SWITCH; }
    s.noSched = true; return ST_CONT;
}
Status schedPoint(State &s) {
    if (s.noSched) return ST_CONT;
    if (s.th.size() < 2 && !progress) return ST_CONT;
    if (!s.schedOn) return ST_CONT;
    u64 h = stateHash(s); bool spin = false;
    for (u64 x : s.solo) if (x == h) { spin = true; break; }
    s.solo.push_back(h); if (++s.soloOps > maxSolo) spin = true;
    int others = 0; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && runnable(s, i)) others++;
    if (spin) {
        nSpin++;
        if (!others || progress) return viol(s, "nontermination", "operation does not terminate when its thread runs alone");
        Status r = freeSwitch(s, false); return r;
    }
    if (dedup && SH.seen(h, s.preempt)) { nPruned++; return ST_END; }
    if (others && s.preempt < maxPreempt)
        for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && runnable(s, i)) { State *n = new State(s); n->preempt++; switchTo(*n, i); n->noSched = true; nForks++; push(n); }
    return ST_CONT;
}
// Flushed lines become durable at a fence: others may run before it.
Status fence(State &s) {
    Thread &t = s.th[s.cur]; if (s.crashOn && s.crashArmed && !t.pend.empty() && s.th.size() > 1) { Status r = schedPoint(s); if (r != ST_CONT) return r; }
    pmFence(s); countVis(s); return ST_CONT;
}
void spawnThread(State &s, Func *fn, V arg, int group) {
    Thread t; t.group = group; t.vc = s.th[s.cur].vc; s.th.push_back(t); int save = s.cur; s.cur = s.th.size() - 1; Frame *f = pushFrame(s, fn); if (!fn->args.empty()) f->regs[fn->args[0].first] = arg;
    s.th[s.cur].vc.resize(s.cur + 1); s.th[s.cur].vc[s.cur] = 1; s.cur = save; if (race) vcTick(s);
    for (unsigned a = 8; a < 64; a++) if (s.ar[a]) for (size_t i = 0; i < s.ar[a]->v.size(); i++) { Obj *o = s.ar[a]->v[i]; if (o && o->live && !o->shared) wobj(s, o->addr)->shared = true; }
}

// ---------- crashes
void doCrash(State &s) {
    nCrash++; s.crashed = true; s.crashesLeft--; s.crashAt = s.crashEvents; s.crashAts.push_back(s.crashEvents); s.sched.push_back({s.cur + 1000, (uint32_t)s.th[s.cur].nvis});
    for (unsigned a = 0; a < 64; a++) {
        Arena *&A = s.ar[a]; if (!A) continue; if (A->rc > 1) { Arena *n = A->clone(); A->rc--; A = n; }
        for (size_t i = 0; i < A->v.size(); i++) {
            Obj *o = A->v[i]; if (!o || o->ghost) continue;
            if (o->pmem) {
                o = wobj(s, o->addr); o->mapped = 0; if (!o->pm) continue;
                for (auto &l : o->pm->lines) { auto &old = l.second.older; if (old.empty()) continue; const Expr *pick = nullptr;
                    for (int c = 0; c < 8; c++) { size_t ci = l.first * 8 + c; if (ci >= o->cells.size()) break; bool same = true; V cur = o->cells[ci]; for (auto &v : old) if (v[c].e != cur.e || v[c].c != cur.c) same = false; if (same) continue;
                        if (!pick) { char b[64]; snprintf(b, sizeof b, "crashline_%llx_%u", (unsigned long long)(o->addr >> 24), l.first); std::string nm = b; int &k = s.symCount[nm]; if (k++) nm += "#" + std::to_string(k); pick = P.sym(nm, 8); s.crashPicks.push_back({o->addr + l.first * 64 + s.crashAts.size(), pick}); }
                        V r = cur; for (int k = (int)old.size() - 1; k >= 0; k--) r = itev(fe(P.bin(K_EQ, pick, P.cst(k, 8))), old[k][c], r, 64);
                        o->cells[ci] = r; } }
                if (--o->pm->rc == 0) delete o->pm; o->pm = nullptr;
            } else if (a == AR_GLOB || a == AR_TLS || a == AR_EXT) {
                if (a == AR_GLOB) initGlob(s, i);
                else if (a == AR_TLS) { if (o->hv) s.memHash -= o->h; decObj(o); A->v[i] = nullptr; }
            } else if (a >= 8) { if (o->hv) s.memHash -= o->h; decObj(o); A->v[i] = nullptr; }
        }
    }
    for (auto &t : s.th) { for (auto f : t.st) decFrame(f); t.st.clear(); t.status = T_DONE; t.pend.clear(); t.queue.clear(); t.stackTop = 0; t.hashValid = false; }
    // memHash is rebuilt from scratch to keep the bookkeeping simple
    s.memHash = 0; s.dirty.clear(); for (unsigned a = 0; a < 64; a++) if (s.ar[a]) for (auto o : s.ar[a]->v) if (o) { if (o->hv) s.memHash += o->h; else s.dirty.push_back(o->addr); }
    Thread t; t.group = 1000 + s.th.size(); s.th.push_back(t); s.cur = s.th.size() - 1; s.solo.clear(); s.soloOps = 0; s.syncVC.clear(); s.races.clear();
    Func *fn = funcAt(s.crashFn); for (auto &c : ctors) s.th[s.cur].queue.push_back({c, K(0)}); s.th[s.cur].queue.push_back({fn, K(0)});
    nextQueued(s); s.preempt = maxPreempt; s.noSched = false; s.crashArmed = true;
    if (s.crashesLeft <= 0) s.crashOn = false;
}
void crashEvent(State &s) {
    if (!s.crashOn || !s.crashArmed) return; s.crashEvents++;
    if (s.noCrashNow || s.crashesLeft <= 0) return;
    State *n = new State(s); doCrash(*n);
    if (dedup && SH.seen(stateHash(*n), 0)) { nPruned++; delete n; return; }
    push(n);
}
bool nextQueued(State &s) { Thread &t = s.th[s.cur]; if (t.queue.empty()) return false; auto q = t.queue.front(); t.queue.erase(t.queue.begin()); Frame *f = pushFrame(s, q.first); if (!q.first->args.empty()) f->regs[q.first->args[0].first] = q.second; return true; }
Func *funcAt(u64 a) { unsigned i = (a >> 24) & 0xffff; if ((a >> 40) != AR_FUNC || i == 0 || i > PR.funcs.size()) return nullptr; return PR.funcs[i - 1]; }

// ---------- globals
std::vector<Func *> ctors; std::vector<std::vector<V>> globInit; std::vector<const GlobalVariable *> globVar; std::unordered_map<const GlobalVariable *, int> tlsIdx; std::vector<const GlobalVariable *> tlsVars;
void fillInit(const GlobalVariable *G, Obj *o) {
    u64 sz = PR.DL->getTypeAllocSize(G->getValueType()); o->size = sz ? sz : 1; o->cells.assign((o->size + 7) / 8, K(0));
    if (!G->hasInitializer()) { return; }
    const Constant *c = G->getInitializer(); if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    std::vector<V> v; PR.constVals(c, v); std::vector<Piece> p; PR.pieces(c->getType(), 0, p); State dummy;
    for (size_t i = 0; i < v.size() && i < p.size(); i++) writeMem(dummy, o, p[i].off, v[i], p[i].w);
}
void initGlob(State &s, unsigned idx) {
    const GlobalVariable *G = globVar[idx]; Obj *o = new Obj; o->kind = 'g'; o->shared = true; o->name = G->getName().str(); o->ghost = G->getSection() == "ghost"; fillInit(G, o); addObj(s, AR_GLOB, o, idx);
}
void setupGlobals(State &s) {
    unsigned nc = 1, ng = 1, ne = 1; globVar.push_back(nullptr); constArena.v.push_back(nullptr); std::vector<const GlobalVariable *> cg;
    for (auto &G : PR.M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        if (G.isThreadLocal()) { tlsIdx[&G] = tlsVars.size(); tlsVars.push_back(&G); PR.gaddr[&G] = 0; continue; }
        if (!G.hasInitializer()) { PR.gaddr[&G] = Program::mkaddr(AR_EXT, ne++); cg.push_back(&G); extG.push_back(&G); continue; }
        if (G.isConstant()) { PR.gaddr[&G] = Program::mkaddr(AR_CONST, nc++); constG.push_back(&G); }
        else { PR.gaddr[&G] = Program::mkaddr(AR_GLOB, ng++); globVar.push_back(&G); }
    }
    for (auto *G : constG) { Obj *o = new Obj; o->kind = 'c'; o->cst = true; o->shared = true; o->name = G->getName().str(); fillInit(G, o); o->addr = PR.gaddr[G]; o->hv = true; constArena.v.push_back(o); }
    for (unsigned i = 1; i < globVar.size(); i++) initGlob(s, i);
    for (unsigned i = 0; i < extG.size(); i++) { Obj *o = new Obj; o->kind = 'x'; o->shared = true; o->size = 1024; o->cells.assign(128, K(0)); o->name = extG[i]->getName().str(); addObj(s, AR_EXT, o, i + 1); tiName[o->addr] = o->name; }
    for (auto *G : constG) tiName[PR.gaddr[G]] = G->getName().str();
    for (unsigned i = 1; i < globVar.size(); i++) tiName[PR.gaddr[globVar[i]]] = globVar[i]->getName().str();
    if (auto *CT = PR.M->getGlobalVariable("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(CT->getInitializer())) {
        std::vector<std::pair<u64, Func *>> l; for (auto &op : A->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(cs->getOperand(1))) l.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), PR.func(F)}); }
        std::stable_sort(l.begin(), l.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &x : l) ctors.push_back(x.second);
    }
}
std::vector<const GlobalVariable *> constG, extG; std::unordered_map<u64, std::string> tiName;

// ---------- exceptions
bool tiMatches(State &s, u64 ti, u64 target) {
    if (!target) return true; if (ti == target) return true;
    static const std::map<std::string, std::string> base = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    std::string a = tiName[ti], b = tiName[target]; if (a == b && !a.empty()) return true;
    auto it = base.find(a); if (it != base.end()) { for (auto &x : tiName) if (x.second == it->second) return tiMatches(s, x.first, target); std::string n = it->second; while (true) { if (n == b) return true; auto j = base.find(n); if (j == base.end()) return false; n = j->second; } }
    Obj *o = slot(s, ti); if (!o || o->cells.size() < 3) return false;
    V bs = o->cells[2]; // __si_class_type_info: vptr, name, base
    if (!bs.e && tiName.count(bs.c) && tiName[bs.c].rfind("_ZTI", 0) == 0) return tiMatches(s, bs.c, target);
    return false;
}
Status doThrow(State &s) { // unwinds thread cur with t.excPtr/excTI; the top frame is the one whose current instruction throws
    Thread &t = s.th[s.cur];
    // phase 1: is there a handler?
    bool handled = false; for (int i = (int)t.st.size() - 1; i >= 0 && !handled; i--) { Frame *f = t.st[i]; Inst &I = f->f->code[f->pc]; if (I.invoke) { Inst &L = f->f->code[f->f->blockStart[I.e2.target]]; for (auto &c : L.clauses) if (c.first && tiMatches(s, t.excTI, val(f, c.second).c)) handled = true; } }
    if (!handled) return viol(s, "exception", "uncaught exception " + tiName[t.excTI]);
    while (!t.st.empty()) {
        Frame *f = top(s); Inst &I = f->f->code[f->pc];
        if (I.invoke) {
            Inst &L = f->f->code[f->f->blockStart[I.e2.target]]; u64 sel = 0; bool hit = L.cleanup;
            for (auto &c : L.clauses) if (c.first) { u64 ti = val(f, c.second).c; if (tiMatches(s, t.excTI, ti)) { sel = (ti >> 24) & 0x7fffffff; if (!ti) sel = 0x7ffffffe; hit = true; break; } }
            if (hit) { jump(s, f, I.e2); Inst &LP = f->f->code[f->pc]; f->regs[LP.dst] = K(t.excPtr); f->regs[LP.dst + 1] = K(sel); f->pc++; return ST_CONT; }
        }
        popFrame(s);
    }
    return viol(s, "exception", "uncaught exception");
}

// ---------- the main loop over one state
Status run(State &s) {
    while (true) {
        if (!stopReason.empty()) return ST_END;
        Thread &t = s.th[s.cur];
        if (t.st.empty()) {
            if (nextQueued(s)) continue;
            t.status = T_DONE; t.hashValid = false;
            Status r = freeSwitch(s, false); if (r == ST_SWITCH) { s.noSched = false; if (dedup && SH.seen(hcomb(stateHash(s), 0xdead), s.preempt)) { nPruned++; return ST_END; } continue; }
            return r;
        }
        Frame *f = top(s); Inst &I = f->f->code[f->pc];
        nInstr++; if (++s.steps > maxSteps) { stop(s, "instruction limit on one path"); return ST_END; }
        if ((nInstr & 0xfffff) == 0 && elapsed() > maxTime) { stop(s, "time limit"); return ST_END; }
        if (trace && I.I) { std::string str; raw_string_ostream os(str); I.I->print(os); fprintf(stderr, "T%d %s:%d%s\n", s.cur, f->f->name.c_str(), I.line, os.str().c_str()); }
        if (I.vis) {
            V p = val(f, I.op == I_STORE ? I.ops[1] : I.ops[0]); bool sh = true;
            if (!p.e) { Obj *o = slot(s, p.c); sh = !o || (o->shared && !o->cst); }
            if (sh && (s.th.size() > 1 || progress)) { Status r = schedPoint(s); if (r == ST_SWITCH) continue; if (r != ST_CONT) return r; }
        }
        Status r = exec(s, f, I);
        if (r == ST_CONT) { s.noSched = s.noCrashNow = false; continue; }
        if (r == ST_SWITCH) continue;
        return r;
    }
}
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
void countVis(State &s) { s.th[s.cur].nvis++; nVis++; }
Status bad(State &s, const std::string &what) { inconclusive.push_back(what + " at " + whereOf(s, s.th[s.cur].st.back())); stop(s, what); return ST_END; }

Status exec(State &s, Frame *f, Inst &I) {
    switch (I.op) {
    case I_NOP: f->pc++; return ST_CONT;
    case I_BIN: for (int i = 0; i < I.n; i++) { V b = val(f, I.ops[1], i); if ((I.sub == K_UDIV || I.sub == K_SDIV || I.sub == K_UREM || I.sub == K_SREM)) { V z = icmp(CmpInst::ICMP_EQ, b, V{0, I.w > 64 ? P.cst(0, I.w) : nullptr}, I.w); if (z.e || z.c) { if (concretize(s, z, 1)) return viol(s, "arithmetic", "division by zero"); } }
            f->regs[I.dst + i] = binop((Kind)I.sub, val(f, I.ops[0], i), b, I.w); } f->pc++; return ST_CONT;
    case I_ICMP: for (int i = 0; i < I.n; i++) f->regs[I.dst + i] = icmp(I.sub, val(f, I.ops[0], i), val(f, I.ops[1], i), I.w2); f->pc++; return ST_CONT;
    case I_SELECT: { V c = val(f, I.ops[0]); for (int i = 0; i < I.n; i++) { if (I.sub) c = val(f, I.ops[0], i); V r = itev(c, val(f, I.ops[1], i), val(f, I.ops[2], i), I.pieces[i].w); f->regs[I.dst + i] = r; } f->pc++; return ST_CONT; }
    case I_CAST: return execCast(s, f, I);
    case I_FREEZE: for (int i = 0; i < I.n; i++) f->regs[I.dst + i] = val(f, I.ops[0], i); f->pc++; return ST_CONT;
    case I_LOAD: {
        Obj *o; u64 off; V p = val(f, I.ops[0]); if (!access(s, p, I.size, false, o, off, "read")) return ST_VIOL;
        if (p.e) f = top(s);
        if (!raceCheck(s, o, o->addr + off, I.size, false, I.atomic)) return ST_VIOL;
        for (size_t i = 0; i < I.pieces.size(); i++) { V v = readMem(s, o, off + I.pieces[i].off, I.pieces[i].w); f->regs[I.dst + i] = v; }
        if (I.atomic) countVis(s); f->pc++; return ST_CONT; }
    case I_STORE: {
        V p = val(f, I.ops[1]); Obj *o; u64 off; if (!access(s, p, I.size, true, o, off, "write")) return ST_VIOL;
        if (!raceCheck(s, o, o->addr + off, I.size, true, I.atomic)) return ST_VIOL;
        if (o->pmem) crashEvent(s);
        u64 base = o->addr + off; for (size_t i = 0; i < I.pieces.size(); i++) if (!store(s, K(base + I.pieces[i].off), val(f, I.ops[0], i), I.pieces[i].w)) return ST_VIOL;
        if (I.atomic) countVis(s); f->pc++; return ST_CONT; }
    case I_GEP: { V b = val(f, I.ops[0]); if (I.imm) b = binop(K_ADD, b, K(I.imm), 64); for (auto &g : I.gep) { V x = val(f, g.idx); x = sext_(x, g.w, 64); b = binop(K_ADD, b, g.scale == 1 ? x : binop(K_MUL, x, K(g.scale), 64), 64); } setv(f, I, b); f->pc++; return ST_CONT; }
    case I_ALLOCA: { u64 n = concretize(s, val(f, I.ops[0]), 64) * I.imm; f = top(s); Thread &t = s.th[s.cur]; u64 a = newObj(s, stackArena(s), n ? n : 1, 's', false, false, t.stackTop + 1); t.stackTop++; setv(f, I, K(a)); f->pc++; return ST_CONT; }
    case I_BR: jump(s, f, I.e1); return ST_CONT;
    case I_CBR: {
        V c = val(f, I.ops[0]); if (!c.e) { jump(s, f, c.c & 1 ? I.e1 : I.e2); return ST_CONT; }
        State *o; int r = fork(s, c.e, &o); if (o) { o->depth++; jump(*o, top(*o), r ? I.e2 : I.e1); push(o); }
        jump(s, f, r ? I.e1 : I.e2); return ST_CONT; }
    case I_SWITCH: {
        V v = val(f, I.ops[0]); if (v.e) {
            for (auto &c : I.cases) { const Expr *eq = P.bin(K_EQ, v.e, P.cst(c.first, I.w2)); State *o; int r = fork(s, eq, &o);
                if (r) { if (o) { push(o); o->noSched = true; } jump(s, f, c.second); return ST_CONT; }   // other side re-executes the switch
                if (o) { jump(*o, top(*o), c.second); push(o); } }
            jump(s, f, I.e1); return ST_CONT; }
        for (auto &c : I.cases) if (c.first == v.c) { jump(s, f, c.second); return ST_CONT; }
        jump(s, f, I.e1); return ST_CONT; }
    case I_RET: { std::vector<V> rv; for (int i = 0; i < I.n; i++) rv.push_back(val(f, I.ops[0], i)); popFrame(s); retTo(s, rv); return ST_CONT; }
    case I_UNREACHABLE: return viol(s, "unreachable", "undefined behaviour: unreachable code reached");
    case I_FENCE: if (I.sub) { Status r = fence(s); if (r != ST_CONT) return r; f = top(s); } f->pc++; return ST_CONT;
    case I_CMPXCHG: {
        V p = val(f, I.ops[0]); Obj *o; u64 off; if (!access(s, p, I.size, true, o, off, "atomic update")) return ST_VIOL;
        V cur = readMem(s, o, off, I.w2); V eq = icmp(CmpInst::ICMP_EQ, cur, val(f, I.ops[1]), I.w2); bool ok = concretize(s, eq, 1) & 1;
        raceCheck(s, o, o->addr + off, I.size, true, true); if (o->pmem) crashEvent(s); f = top(s);
        f->regs[I.dst] = cur; f->regs[I.dst + 1] = K(ok);
        if (ok) store(s, K(o->addr + off), val(f, I.ops[2]), I.w2);
        countVis(s); f->pc++; return ST_CONT; }
    case I_RMW: {
        V p = val(f, I.ops[0]); Obj *o; u64 off; if (!access(s, p, I.size, true, o, off, "atomic update")) return ST_VIOL;
        raceCheck(s, o, o->addr + off, I.size, true, true); if (o->pmem) crashEvent(s);
        V cur = readMem(s, o, off, I.w), x = val(f, I.ops[1]), r;
        switch (I.sub) {
        case AtomicRMWInst::Xchg: r = x; break; case AtomicRMWInst::Add: r = binop(K_ADD, cur, x, I.w); break; case AtomicRMWInst::Sub: r = binop(K_SUB, cur, x, I.w); break;
        case AtomicRMWInst::And: r = binop(K_AND, cur, x, I.w); break; case AtomicRMWInst::Or: r = binop(K_OR, cur, x, I.w); break; case AtomicRMWInst::Xor: r = binop(K_XOR, cur, x, I.w); break;
        case AtomicRMWInst::UMax: r = itev(icmp(CmpInst::ICMP_UGT, cur, x, I.w), cur, x, I.w); break; case AtomicRMWInst::UMin: r = itev(icmp(CmpInst::ICMP_ULT, cur, x, I.w), cur, x, I.w); break;
        default: return bad(s, "unsupported atomicrmw"); }
        f->regs[I.dst] = cur; store(s, K(o->addr + off), r, I.w); countVis(s); f->pc++; return ST_CONT; }
    case I_EXTRACTV: for (int i = 0; i < I.n; i++) f->regs[I.dst + i] = val(f, I.ops[0], I.imm + i); f->pc++; return ST_CONT;
    case I_INSERTV: { for (int i = 0; i < I.n; i++) f->regs[I.dst + i] = val(f, I.ops[0], i); for (unsigned i = 0; i < I.size; i++) f->regs[I.dst + I.imm + i] = val(f, I.ops[1], i); f->pc++; return ST_CONT; }
    case I_EXTRACTE: { u64 i = concretize(s, val(f, I.ops[1]), 64); f = top(s); f->regs[I.dst] = val(f, I.ops[0], i); f->pc++; return ST_CONT; }
    case I_INSERTE: { u64 k = concretize(s, val(f, I.ops[2]), 64); f = top(s); for (int i = 0; i < I.n; i++) f->regs[I.dst + i] = val(f, I.ops[0], i); f->regs[I.dst + k] = val(f, I.ops[1]); f->pc++; return ST_CONT; }
    case I_SHUFFLE: { std::vector<V> t; for (int m : I.idx) t.push_back(m < 0 ? K(0) : m < (int)I.size ? val(f, I.ops[0], m) : val(f, I.ops[1], m - I.size)); for (size_t i = 0; i < t.size(); i++) f->regs[I.dst + i] = t[i]; f->pc++; return ST_CONT; }
    case I_LANDINGPAD: f->pc++; return ST_CONT;
    case I_RESUME: { Thread &t = s.th[s.cur]; t.excPtr = val(f, I.ops[0]).c; popFrame(s); if (t.st.empty()) return viol(s, "exception", "uncaught exception"); return doThrow(s); }
    case I_FBIN: for (int i = 0; i < I.n; i++) { V a = val(f, I.ops[0], i), b = val(f, I.ops[1], i); if (a.e || b.e) return bad(s, "symbolic floating point"); double x = asD(a.c, I.w), y = asD(b.c, I.w), r = 0;
            switch (I.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } f->regs[I.dst + i] = K(ofD(r, I.w)); } f->pc++; return ST_CONT;
    case I_FCMP: { V a = val(f, I.ops[0]), b = val(f, I.ops[1]); if (a.e || b.e) return bad(s, "symbolic floating point"); double x = asD(a.c, I.w2), y = asD(b.c, I.w2); bool un = x != x || y != y, r = false; unsigned p = I.sub;
        r = ((p & 1) && x == y && !un) || ((p & 2) && x > y && !un) || ((p & 4) && x < y && !un) || ((p & 8) && un); setv(f, I, K(r)); f->pc++; return ST_CONT; }
    case I_FNEG: { V a = val(f, I.ops[0]); if (a.e) return bad(s, "symbolic floating point"); setv(f, I, K(ofD(-asD(a.c, I.w), I.w))); f->pc++; return ST_CONT; }
    case I_INTRIN: return execIntrin(s, f, I);
    case I_CALL: return execCall(s, f, I);
    default: { std::string str; if (I.I) { raw_string_ostream os(str); I.I->print(os); } return bad(s, "unsupported instruction " + str); }
    }
}
Status execCast(State &s, Frame *f, Inst &I) {
    if (I.sub == Instruction::BitCast && I.imm) { // vector <-> scalar of another shape
        int k = I.imm; if (k > 1 && I.n == 1) { const Expr *r = nullptr; for (int i = 0; i < k; i++) { const Expr *x = E(val(f, I.ops[0], i), I.w2); r = r ? P.concat(x, r) : x; } setv(f, I, fe(r)); f->pc++; return ST_CONT; }
        std::vector<V> out; const Expr *r = nullptr; for (int i = 0; i < k; i++) { const Expr *x = E(val(f, I.ops[0], i), I.w2); r = r ? P.concat(x, r) : x; } if (r->w > 128) return bad(s, "wide bitcast");
        for (int i = 0; i < I.n; i++) out.push_back(fe(P.extract(r, i * I.w, I.w))); for (int i = 0; i < I.n; i++) f->regs[I.dst + i] = out[i]; f->pc++; return ST_CONT; }
    for (int i = 0; i < I.n; i++) {
        V v = val(f, I.ops[0], i), r;
        switch (I.sub) {
        case Instruction::Trunc: r = trunc_(v, I.w); break;
        case Instruction::ZExt: r = zext_(v, I.w2, I.w); break;
        case Instruction::SExt: r = sext_(v, I.w2, I.w); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: r = I.w < I.w2 ? trunc_(v, I.w) : zext_(v, I.w2, I.w); break;
        case Instruction::BitCast: r = v; break;
        default:
            if (v.e) return bad(s, "symbolic floating point conversion");
            switch (I.sub) {
            case Instruction::FPToUI: r = K((u64)asD(v.c, I.w2) & mk(I.w)); break; case Instruction::FPToSI: r = K((u64)(int64_t)asD(v.c, I.w2) & mk(I.w)); break;
            case Instruction::UIToFP: r = K(ofD((double)v.c, I.w)); break; case Instruction::SIToFP: r = K(ofD((double)(int64_t)sxx(v.c, I.w2), I.w)); break;
            default: r = K(ofD(asD(v.c, I.w2), I.w)); }
        }
        f->regs[I.dst + i] = r;
    }
    f->pc++; return ST_CONT;
}
bool copyMem(State &s, u64 d, u64 src, u64 n) {
    if (!n) return true; Obj *o, *q; u64 so, dof; if (!access(s, K(src), n, false, q, so, "copy source read")) return false; if (!access(s, K(d), n, true, o, dof, "copy destination write")) return false;
    if (!raceCheck(s, q, src, n, false, false) || !raceCheck(s, o, d, n, true, false)) return false;
    if (o->pmem) crashEvent(s);
    std::vector<V> b; bool al = !(so & 7) && !(dof & 7);
    o = wobj(s, o->addr); q = slot(s, src); if (o->pmem && s.crashOn) pmBefore(s, o, dof, n);
    if (al) {
        u64 w = n / 8; for (u64 i = 0; i < w; i++) b.push_back(q->cells[so / 8 + i]); std::vector<V> rest; for (u64 i = w * 8; i < n; i++) rest.push_back(readMem(s, q, so + i, 8));
        if (!rest.empty()) { o = wobj(s, d); }
        for (u64 i = 0; i < w; i++) { o->cells[dof / 8 + i] = b[i]; if (o->shared && !b[i].e) publish(s, b[i].c); } for (u64 i = 0; i < rest.size(); i++) writeMem(s, o, dof + w * 8 + i, rest[i], 8);
        return true;
    }
    for (u64 i = 0; i < n; i++) b.push_back(readMem(s, q, so + i, 8));
    o = wobj(s, d); for (u64 i = 0; i < n; i++) writeMem(s, o, dof + i, b[i], 8); return true;
}
bool setMem(State &s, u64 d, V v, u64 n) {
    if (!n) return true; Obj *o; u64 off; if (!access(s, K(d), n, true, o, off, "memset")) return false; if (!raceCheck(s, o, d, n, true, false)) return false;
    if (o->pmem) crashEvent(s); o = wobj(s, d); if (o->pmem && s.crashOn) pmBefore(s, o, off, n);
    V c8 = v; if (!v.e) { u64 c = v.c & 255; c8 = K(c * 0x0101010101010101ULL); }
    for (u64 i = 0; i < n;) { if (!v.e && !((off + i) & 7) && n - i >= 8) { o->cells[(off + i) >> 3] = c8; i += 8; } else { writeMem(s, o, off + i, v.e ? v : K(v.c & 255), 8); i++; } }
    return true;
}
Status execIntrin(State &s, Frame *f, Inst &I) {
    auto A = [&](int i, int k = 0) { return val(f, I.ops[i], k); }; auto done = [&](V v) { if (I.dst >= 0) f->regs[I.dst] = v; finish(s, f, I); return ST_CONT; };
    unsigned w = I.w;
    switch (I.intrin) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::x86_sse2_pause: case Intrinsic::x86_sse2_lfence: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::var_annotation:
        return done(K(0));
    case Intrinsic::x86_sse2_clflush: case Intrinsic::x86_clflushopt: case Intrinsic::x86_clwb: { V p = A(0); u64 a = concretize(s, p, 64); f = top(s); pmFlush(s, a); flushNote(s, a); finish(s, f, I); return ST_CONT; }
    case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_mfence: { Status r = fence(s); if (r != ST_CONT) return r; f = top(s); return done(K(0)); }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, A(2), 64); u64 d = concretize(s, A(0), 64), q = concretize(s, A(1), 64); if (!copyMem(s, d, q, n)) return ST_VIOL; f = top(s); finish(s, f, I); return ST_CONT; }
    case Intrinsic::memset: { u64 n = concretize(s, A(2), 64); u64 d = concretize(s, A(0), 64); if (!setMem(s, d, A(1), n)) return ST_VIOL; f = top(s); finish(s, f, I); return ST_CONT; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return done(A(0));
    case Intrinsic::is_constant: return done(K(0));
    case Intrinsic::objectsize: return done(K(~0ULL & mk(w)));
    case Intrinsic::stacksave: return done(K(0));
    case Intrinsic::trap: case Intrinsic::debugtrap: return viol(s, "abort", "trap instruction");
    case Intrinsic::eh_typeid_for: { u64 ti = A(0).c; return done(K(ti ? (ti >> 24) & 0x7fffffff : 0x7ffffffe)); }
    case Intrinsic::threadlocal_address: {
        auto *G = cast<GlobalVariable>(cast<CallBase>(I.I)->getArgOperand(0)->stripPointerCasts()); int idx = 1 + tlsIdx[G] * 64 + s.cur; Arena *A2 = s.ar[AR_TLS];
        if (!A2 || (int)A2->v.size() <= idx || !A2->v[idx]) { Obj *o = new Obj; o->kind = 't'; o->shared = false; o->name = G->getName().str(); fillInit(G, o); addObj(s, AR_TLS, o, idx); }
        return done(K(Program::mkaddr(AR_TLS, idx))); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ow = I.w2; if (ow > 64) return bad(s, "wide overflow intrinsic"); bool sg = I.intrin == Intrinsic::sadd_with_overflow || I.intrin == Intrinsic::ssub_with_overflow || I.intrin == Intrinsic::smul_with_overflow; Kind k = (I.intrin == Intrinsic::uadd_with_overflow || I.intrin == Intrinsic::sadd_with_overflow) ? K_ADD : (I.intrin == Intrinsic::usub_with_overflow || I.intrin == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
        unsigned W = std::min(128u, ow * 2); V a = A(0), b = A(1); const Expr *x = sg ? P.sext(E(a, ow), W) : P.zext(E(a, ow), W), *y = sg ? P.sext(E(b, ow), W) : P.zext(E(b, ow), W); const Expr *r = P.bin(k, x, y); const Expr *lo = P.extract(r, 0, ow); const Expr *back = sg ? P.sext(lo, W) : P.zext(lo, W);
        f->regs[I.dst] = fe(lo); f->regs[I.dst + 1] = fe(P.not_(P.bin(K_EQ, r, back))); f->pc++; return ST_CONT; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: for (int i = 0; i < I.n; i++) { V a = A(0, i), b = A(1, i); unsigned p = I.intrin == Intrinsic::umin ? CmpInst::ICMP_ULT : I.intrin == Intrinsic::umax ? CmpInst::ICMP_UGT : I.intrin == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; f->regs[I.dst + i] = itev(icmp(p, a, b, w), a, b, w); } f->pc++; return ST_CONT;
    case Intrinsic::abs: { V a = A(0); return done(itev(icmp(CmpInst::ICMP_SLT, a, K(0), w), binop(K_SUB, K(0), a, w), a, w)); }
    case Intrinsic::uadd_sat: { V a = A(0), r = binop(K_ADD, a, A(1), w); return done(itev(icmp(CmpInst::ICMP_ULT, r, a, w), K(mk(w)), r, w)); }
    case Intrinsic::usub_sat: { V a = A(0), b = A(1); return done(itev(icmp(CmpInst::ICMP_ULT, a, b, w), K(0), binop(K_SUB, a, b, w), w)); }
    case Intrinsic::bswap: { V a = A(0); const Expr *x = E(a, w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { const Expr *b = P.extract(x, i, 8); r = r ? P.concat(r, b) : b; } return done(fe(r)); }
    case Intrinsic::fshl: case Intrinsic::fshr: { for (int i = 0; i < I.n; i++) { V a = A(0, i), b = A(1, i), c = A(2, i); if (w > 64) return bad(s, "wide funnel shift"); V sh = binop(K_UREM, c, K(w), w); V inv = binop(K_SUB, K(w), sh, w);
            V r = I.intrin == Intrinsic::fshl ? binop(K_OR, binop(K_SHL, a, sh, w), binop(K_LSHR, b, inv, w), w) : binop(K_OR, binop(K_LSHR, b, sh, w), binop(K_SHL, a, inv, w), w);
            V z = icmp(CmpInst::ICMP_EQ, sh, K(0), w); f->regs[I.dst + i] = itev(z, I.intrin == Intrinsic::fshl ? a : b, r, w); } f->pc++; return ST_CONT; }
    case Intrinsic::ctpop: { V a = A(0); V r = K(0); for (unsigned i = 0; i < w; i++) r = binop(K_ADD, r, zext_(ext(a, i, 1), 1, w), w); return done(r); }
    case Intrinsic::ctlz: { V a = A(0); V r = K(w); for (unsigned i = 0; i < w; i++) r = itev(ext(a, i, 1), K(w - 1 - i), r, w); return done(r); }
    case Intrinsic::cttz: { V a = A(0); V r = K(w); for (int i = w - 1; i >= 0; i--) r = itev(ext(a, i, 1), K(i), r, w); return done(r); }
    case Intrinsic::vector_reduce_add: { V r = K(0); for (int i = 0; i < I.idx[0]; i++) r = binop(K_ADD, r, A(0, i), w); return done(r); }
    case Intrinsic::vector_reduce_or: { V r = K(0); for (int i = 0; i < I.idx[0]; i++) r = binop(K_OR, r, A(0, i), w); return done(r); }
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::trunc: case Intrinsic::round: { V a = A(0); if (a.e) return bad(s, "symbolic floating point"); double x = asD(a.c, w); x = I.intrin == Intrinsic::fabs ? fabs(x) : I.intrin == Intrinsic::floor ? floor(x) : I.intrin == Intrinsic::ceil ? ceil(x) : I.intrin == Intrinsic::sqrt ? sqrt(x) : I.intrin == Intrinsic::exp2 ? exp2(x) : I.intrin == Intrinsic::log2 ? log2(x) : I.intrin == Intrinsic::trunc ? trunc(x) : round(x); return done(K(ofD(x, w))); }
    case Intrinsic::ldexp: { V a = A(0), b = A(1); if (a.e || b.e) return bad(s, "symbolic floating point"); return done(K(ofD(ldexp(asD(a.c, w), (int)b.c), w))); }
    case Intrinsic::pow: { V a = A(0), b = A(1); if (a.e || b.e) return bad(s, "symbolic floating point"); return done(K(ofD(pow(asD(a.c, w), asD(b.c, w)), w))); }
    case Intrinsic::fmuladd: case Intrinsic::fma: { V a = A(0), b = A(1), c = A(2); if (a.e || b.e || c.e) return bad(s, "symbolic floating point"); return done(K(ofD(asD(a.c, w) * asD(b.c, w) + asD(c.c, w), w))); }
    default: return bad(s, "unsupported intrinsic " + I.callee->name);
    }
}
// The harness may ask which cache lines were flushed (property about range persists).
void flushNote(State &s, u64 a) { Func *fn = noteFn; if (!fn) return; }
Func *noteFn = nullptr;

void setupBuiltins() {
    auto add = [&](BI b, std::initializer_list<const char *> l) { for (auto x : l) bnames[x] = b; };
    add(B_MALLOC, {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}); add(B_CALLOC, {"calloc"}); add(B_REALLOC, {"realloc"}); add(B_ALIGNED, {"aligned_alloc", "memalign"}); add(B_POSIX_MEMALIGN, {"posix_memalign"});
    add(B_FREE, {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"});
    add(B_MEMCPY, {"memcpy", "memmove"}); add(B_MEMSET, {"memset"});
    add(B_SYM, {"sym_u64", "sym_u32", "sym_u8"}); add(B_SYMRANGE, {"sym_range"}); add(B_ASSUME, {"sym_assume"}); add(B_ASSERT, {"sym_assert"}); add(B_COVER, {"sym_cover"}); add(B_FAIL, {"sym_fail"}); add(B_PICK, {"sym_pick"}); add(B_CONC, {"sym_concretize"}); add(B_CONFIG, {"sym_config"});
    add(B_SPAWN, {"sym_spawn"}); add(B_JOIN, {"sym_join"}); add(B_YIELD, {"sym_yield"}); add(B_TID, {"sym_tid"}); add(B_PMALLOC, {"sym_pmem_alloc"}); add(B_PMMAP, {"sym_pmem_map"}); add(B_CRASHON, {"sym_crash_on"}); add(B_CRASHPT, {"sym_crash_point"}); add(B_CRASHARM, {"sym_crash_arm"}); add(B_SCHED, {"sym_sched"}); add(B_SYMBYTES, {"sym_bytes"}); add(B_DUMP, {"sym_dump"}); add(B_PMDIRTY, {"sym_pmem_dirty"}); add(B_ISSHARED, {"sym_is_object"});
    add(B_ABORT, {"abort", "__cxa_pure_virtual", "__stack_chk_fail"}); add(B_ASSERTFAIL, {"__assert_fail"}); add(B_EXIT, {"exit", "_exit"}); add(B_TERMINATE, {"_ZSt9terminatev"});
    add(B_GUARD_ACQ, {"__cxa_guard_acquire"}); add(B_GUARD_REL, {"__cxa_guard_release", "__cxa_guard_abort"}); add(B_EXC_ALLOC, {"__cxa_allocate_exception"}); add(B_EXC_FREE, {"__cxa_free_exception"}); add(B_THROW, {"__cxa_throw"}); add(B_BEGIN_CATCH, {"__cxa_begin_catch"}); add(B_END_CATCH, {"__cxa_end_catch"}); add(B_RETHROW, {"__cxa_rethrow"});
    add(B_MLOCK, {"pthread_mutex_lock"}); add(B_MTRYLOCK, {"pthread_mutex_trylock"}); add(B_MUNLOCK, {"pthread_mutex_unlock"});
    add(B_NOP0, {"__cxa_atexit", "atexit", "fprintf", "printf", "puts", "putchar", "fputs", "fputc", "fwrite", "perror", "fflush", "sched_yield", "usleep", "nanosleep", "pthread_mutex_init", "pthread_mutex_destroy", "__cxa_thread_atexit", "clock_gettime", "madvise", "fputs_unlocked"});
    add(B_NOP1ST, {"sym_identity"});
    add(B_LDEXP, {"ldexp"}); add(B_EXP2, {"exp2"}); add(B_POW, {"pow"}); add(B_LOG2, {"log2"}); add(B_CEIL, {"ceil"}); add(B_FLOOR, {"floor"}); add(B_SQRT, {"sqrt"});
}
int builtinOf(Func *fn) {
    auto it = bnames.find(fn->name); if (it != bnames.end()) return it->second;
    const std::string &n = fn->name;
    // Output streams and exception object bookkeeping of the C++ library have no effect on the properties.
    if (n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZStls", 0) == 0 || n.rfind("_ZNKSt9basic_iosIcSt11char_traitsIcEE", 0) == 0 || n.rfind("_ZSt4endl", 0) == 0 || n.rfind("_ZSt16__ostream_insert", 0) == 0 || n.rfind("_ZNSt9basic_iosIcSt11char_traitsIcEE", 0) == 0 || n.rfind("_ZNSt8ios_base4Init", 0) == 0 || n.rfind("_ZNKSt5ctypeIcE", 0) == 0 || n.rfind("_ZSt5flush", 0) == 0) return B_NOP1ST;
    for (const char *x : {"_ZNSt9exception", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt9bad_alloc", "_ZNSt12system_error", "_ZNSt11range_error", "_ZNSt12domain_error", "_ZNSt14overflow_error"}) if (n.rfind(x, 0) == 0) return B_NOP0;
    return B_NONE;
}
std::string cstr(State &s, u64 a) { std::string r; Obj *o = slot(s, a); u64 off = a & 0xffffff; while (o && off < o->size && r.size() < 4000) { V v = readMem(s, o, off, 8); if (v.e || !v.c) break; r += (char)v.c; off++; } return r; }

Status execCall(State &s, Frame *f, Inst &I) {
    Func *fn = I.callee;
    if (!fn) { u64 a = concretize(s, val(f, I.ops.back()), 64); f = top(s); fn = funcAt(a); if (!fn) return viol(s, "memory", "call through an invalid function pointer"); }
    if (fn->builtin == -1) {
        fn->builtin = builtinOf(fn);
        if (fn->builtin < 0) { if (fn->decl) { auto it = PR.fname.find("vf_" + fn->name); Function *VF = PR.M->getFunction("vf_" + fn->name); if (VF && !VF->isDeclaration()) { Func *g = PR.func(VF); redirect[fn] = g; } } fn->builtin = -2; }
        else if (!fn->decl && fn->builtin == B_NOP0) fn->builtin = -2; // a body that we have is executed
    }
    if (fn->builtin == -2) {
        if (fn->decl) { auto it = redirect.find(fn); if (it == redirect.end()) return bad(s, "call of unmodelled external function " + fn->name); fn = it->second; }
        Frame *caller = f; Frame *n = pushFrame(s, fn); 
        for (size_t i = 0; i < fn->args.size() && i < I.idx.size(); i++) for (int k = 0; k < fn->args[i].second; k++) n->regs[fn->args[i].first + k] = val(caller, I.ops[i], k);
        return ST_CONT;
    }
    auto A = [&](int i) { return val(f, I.ops[i]); };
    auto done = [&](V v) { f = top(s); if (I.dst >= 0) f->regs[I.dst] = v; finish(s, f, I); return ST_CONT; };
    switch (fn->builtin) {
    case B_NOP0: return done(K(0));
    case B_NOP1ST: return done(I.ops.empty() ? K(0) : A(0));
    case B_MALLOC: { u64 n = concretize(s, A(0), 64); if (n > 0xf00000) return bad(s, "allocation too large for the model"); return done(K(newObj(s, heapArena(s), n, 'h', false, false))); }
    case B_ALIGNED: { u64 n = concretize(s, A(1), 64); if (n > 0xf00000) return bad(s, "allocation too large for the model"); return done(K(newObj(s, heapArena(s), n, 'h', false, false))); }
    case B_POSIX_MEMALIGN: { u64 n = concretize(s, A(2), 64); u64 a = newObj(s, heapArena(s), n, 'h', false, false); if (!store(s, A(0), K(a), 64)) return ST_VIOL; return done(K(0)); }
    case B_CALLOC: { u64 n = concretize(s, A(0), 64) * concretize(s, A(1), 64); if (n > 0xf00000) return bad(s, "allocation too large for the model"); return done(K(newObj(s, heapArena(s), n, 'h', false, true))); }
    case B_REALLOC: { u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64); u64 a = newObj(s, heapArena(s), n, 'h', false, false); if (p) { Obj *o = slot(s, p); if (!copyMem(s, a, p, std::min<u64>(o ? o->size : 0, n))) return ST_VIOL; freeObj(s, p); } return done(K(a)); }
    case B_FREE: { u64 p = concretize(s, A(0), 64); if (p) { Obj *o = slot(s, p); if (!o || (p & 0xffffff) || o->kind != 'h') return viol(s, "memory", "free of a pointer that was not allocated"); if (!o->live) return viol(s, "memory", "double free"); if (!raceCheck(s, o, p, o->size, true, false)) return ST_VIOL; freeObj(s, p); } return done(K(0)); }
    case B_MEMCPY: { u64 n = concretize(s, A(2), 64), d = concretize(s, A(0), 64), q = concretize(s, A(1), 64); if (!copyMem(s, d, q, n)) return ST_VIOL; return done(K(d)); }
    case B_MEMSET: { u64 n = concretize(s, A(2), 64), d = concretize(s, A(0), 64); if (!setMem(s, d, trunc_(A(1), 8), n)) return ST_VIOL; return done(K(d)); }
    case B_SYM: case B_SYMRANGE: case B_PICK: {
        std::string nm = cstr(s, A(0).c); int &c = s.symCount[nm]; std::string full = c++ ? nm + "#" + std::to_string(c) : nm;
        unsigned w = fn->builtin == B_SYM ? (fn->name == "sym_u64" ? 64 : fn->name == "sym_u32" ? 32 : 8) : 64; const Expr *e = P.sym(full, w); s.inputs.push_back({full, e});
        if (fn->builtin == B_SYMRANGE) { u64 lo = A(1).c, hi = A(2).c; if (lo) if (!assume(s, P.bin(K_ULE, P.cst(lo, 64), e))) return ST_END; if (hi != ~0ULL) if (!assume(s, P.bin(K_ULE, e, P.cst(hi, 64)))) return ST_END; }
        if (fn->builtin == B_PICK) { u64 n = A(1).c; if (!assume(s, P.bin(K_ULT, e, P.cst(n, 64)))) return ST_END;
            for (u64 i = 1; i < n; i++) { const Expr *eq = P.bin(K_EQ, e, P.cst(i, 64)); State *n2 = new State(s); if (!assume(*n2, eq)) { delete n2; continue; } Frame *g = top(*n2); if (I.dst >= 0) g->regs[I.dst] = K(i); finish(*n2, g, I); nForks++; push(n2); }
            if (!assume(s, P.bin(K_EQ, e, P.cst(0, 64)))) return ST_END; return done(K(0)); }
        return done(w == 64 || I.w == w ? V{0, e} : fe(P.zext(e, I.w))); }
    case B_SYMBYTES: { std::string nm = cstr(s, A(1).c); u64 p = A(0).c, n = A(2).c; for (u64 i = 0; i < n; i++) { std::string b = nm + "[" + std::to_string(i) + "]"; const Expr *e = P.sym(b, 8); s.inputs.push_back({b, e}); if (!store(s, K(p + i), V{0, e}, 8)) return ST_VIOL; } return done(K(0)); }
    case B_ASSUME: { V c = trunc_(A(0), 1); if (!c.e) { if (!(c.c & 1)) { nInfeasible++; return ST_END; } return done(K(0)); } if (!assume(s, c.e)) { nInfeasible++; return ST_END; } return done(K(0)); }
    case B_ASSERT: {
        V c = trunc_(A(0), 1); nAsserts++; std::string msg = cstr(s, A(1).c);
        if (!c.e) { if (!(c.c & 1)) return viol(s, "assert", msg); return done(K(0)); }
        nAssertQ++; std::shared_ptr<Model> m; int r = possible(s, P.not_(c.e), &m); if (r > 0) violation(s, "assert", msg, m);
        if (r != 0) { if (!assume(s, c.e)) return ST_END; } return done(K(0)); }
    case B_COVER: { std::string nm = cstr(s, A(0).c); coversHit.insert(nm); return done(K(0)); }
    case B_FAIL: return viol(s, "assert", cstr(s, A(0).c));
    case B_CONC: { u64 v = concretize(s, A(0), 64); return done(K(v)); }
    case B_CONFIG: { std::string nm = cstr(s, A(0).c); auto it = config.find(nm); return done(K(it == config.end() ? A(1).c : it->second)); }
    case B_SPAWN: { countVis(s); Func *g = funcAt(A(0).c); if (!g) return bad(s, "spawn of unknown function"); spawnThread(s, g, A(1), s.th[s.cur].group); return done(K(s.th.size() - 1)); }
    case B_JOIN: { s.th[s.cur].status = T_JOIN; if (!runnable(s, s.cur)) { return freeSwitch(s, false); } s.th[s.cur].status = T_RUN; countVis(s); if (race) for (auto &t : s.th) vcJoin(s.th[s.cur].vc, t.vc); return done(K(0)); }
    case B_YIELD: {
        if (!s.noSched && s.schedOn && s.th.size() > 1) { if (dedup && SH.seen(hcomb(stateHash(s), 0xabc), s.preempt)) { nPruned++; return ST_END; }
            Status r = freeSwitch(s, true); if (r != ST_CONT) return r; }
        s.solo.clear(); s.soloOps = 0; countVis(s); return done(K(0)); }
    case B_TID: return done(K(s.cur));
    case B_PMALLOC: { u64 n = concretize(s, A(0), 64); u64 a = newObj(s, heapArena(s), n, 'p', true, true); Obj *o = wobj(s, a); o->pmem = true; o->mapped = 0; o->name = cstr(s, A(1).c); return done(K(a)); }
    case B_PMMAP: { u64 a = A(0).c; Obj *o = slot(s, a); if (!o || !o->pmem) return bad(s, "sym_pmem_map"); o = wobj(s, a); o->mapped += (int)(int64_t)A(1).c; return done(K(o->mapped)); }
    case B_PMDIRTY: { // may the memory range still be lost?
        u64 a = A(0).c, n = A(1).c; Obj *o = slot(s, a); bool d = false; if (o && o->pm) for (u64 l = (a & 0xffffff) >> 6; l <= ((a & 0xffffff) + n - 1) >> 6; l++) { auto it = o->pm->lines.find(l); if (it != o->pm->lines.end() && !it->second.older.empty()) d = true; } return done(K(d)); }
    case B_CRASHON: { s.crashOn = true; s.crashFn = A(0).c; s.crashesLeft = crashMax; return done(K(0)); }
    case B_CRASHARM: { s.crashArmed = A(0).c; return done(K(0)); }
    case B_CRASHPT: { crashEvent(s); return done(K(0)); }
    case B_SCHED: { s.schedOn = A(0).c; return done(K(0)); }
    case B_ISSHARED: { Obj *o = slot(s, A(0).c); return done(K(o && o->live && o->mapped > 0)); }
    case B_DUMP: { fprintf(stderr, "dump %s = ", cstr(s, A(0).c).c_str()); V v = A(1); if (v.e) fprintf(stderr, "<symbolic id %u kind %d>\n", v.e->id, v.e->k); else fprintf(stderr, "%llx\n", (unsigned long long)v.c); return done(K(0)); }
    case B_ABORT: return viol(s, "abort", "abort called (" + fn->name + ")");
    case B_ASSERTFAIL: return viol(s, "assertion", "assertion of the code failed: " + cstr(s, A(0).c));
    case B_TERMINATE: return viol(s, "abort", "std::terminate called");
    case B_EXIT: { s.th[s.cur].queue.clear(); return exitPath(s, A(0)); }
    case B_GUARD_ACQ: { Obj *o; u64 off; if (!access(s, A(0), 1, true, o, off, "guard")) return ST_VIOL; V v = readMem(s, o, off, 8); return done(K(v.e || !v.c)); }
    case B_GUARD_REL: if (fn->name == "__cxa_guard_release") store(s, A(0), K(1), 8); return done(K(0));
    case B_EXC_ALLOC: { u64 n = concretize(s, A(0), 64); return done(K(newObj(s, heapArena(s), n, 'h', false, false))); }
    case B_EXC_FREE: return done(K(0));
    case B_THROW: { Thread &t = s.th[s.cur]; t.excPtr = A(0).c; t.excTI = A(1).c; return doThrow(s); }
    case B_BEGIN_CATCH: { s.th[s.cur].caught.push_back({A(0).c, s.th[s.cur].excTI}); return done(A(0)); }
    case B_END_CATCH: { auto &c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); return done(K(0)); }
    case B_RETHROW: { Thread &t = s.th[s.cur]; if (t.caught.empty()) return viol(s, "abort", "rethrow without exception"); t.excPtr = t.caught.back().first; t.excTI = t.caught.back().second; return doThrow(s); }
    case B_MLOCK: case B_MTRYLOCK: {
        u64 a = A(0).c; if (s.th.size() > 1) { Status r = schedPoint(s); if (r != ST_CONT) return r; f = top(s); }
        Obj *o; u64 off; if (!access(s, K(a), 40, true, o, off, "mutex")) return ST_VIOL; V v = readMem(s, o, off, 32); if (v.e) return bad(s, "symbolic mutex");
        if (v.c) { if (fn->builtin == B_MTRYLOCK) { countVis(s); return done(K(16)); } if (v.c == (u64)s.cur + 1) return viol(s, "deadlock", "mutex locked twice by one thread"); s.th[s.cur].status = T_MUTEX; s.th[s.cur].waitAddr = a; return freeSwitch(s, false); }
        store(s, K(a), K(s.cur + 1), 32); if (race) { vcJoin(s.th[s.cur].vc, s.syncVC[a]); } countVis(s); return done(K(0)); }
    case B_MUNLOCK: { u64 a = A(0).c; Obj *o; u64 off; if (!access(s, K(a), 40, true, o, off, "mutex")) return ST_VIOL; V v = readMem(s, o, off, 32); if (v.e || v.c != (u64)s.cur + 1) return viol(s, "misuse", "mutex unlocked by a thread that does not hold it"); store(s, K(a), K(0), 32); if (race) { s.syncVC[a] = s.th[s.cur].vc; vcTick(s); } countVis(s); return done(K(0)); }
    case B_LDEXP: case B_POW: case B_EXP2: case B_LOG2: case B_CEIL: case B_FLOOR: case B_SQRT: {
        V a = A(0), b = I.ops.size() > 1 ? A(1) : K(0); if (a.e || b.e) return bad(s, "symbolic floating point"); double x = asD(a.c, 64), r = 0;
        switch (fn->builtin) { case B_LDEXP: r = ldexp(x, (int)b.c); break; case B_POW: r = pow(x, asD(b.c, 64)); break; case B_EXP2: r = exp2(x); break; case B_LOG2: r = log2(x); break; case B_CEIL: r = ceil(x); break; case B_FLOOR: r = floor(x); break; default: r = sqrt(x); } return done(K(ofD(r, 64))); }
    default: return bad(s, "builtin " + fn->name);
    }
}
std::unordered_map<Func *, Func *> redirect;
Status exitPath(State &s, V code) { // exit ends the whole run; harnesses may observe the code through vf_on_exit
    Function *F = PR.M->getFunction("vf_on_exit");
    if (F && !F->isDeclaration() && !s.infeasibleNote.size()) { s.infeasibleNote = "exit"; for (auto &t : s.th) { if (&t != &s.th[s.cur]) t.status = T_DONE; } while (!s.th[s.cur].st.empty()) popFrame(s); s.th[s.cur].queue.push_back({PR.func(F), code}); nextQueued(s); return ST_CONT; }
    return ST_END;
}

// ---------- driver
static std::string js(const std::string &x) { std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
// One JSON object per violation.
std::string vjson(Violation &v) {
    std::ostringstream o; o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"stack\":["; for (size_t i = 0; i < v.stack.size(); i++) o << (i ? "," : "") << js(v.stack[i]); o << "],\"inputs\":["; for (size_t i = 0; i < v.inputs.size(); i++) o << (i ? "," : "") << "[" << js(v.inputs[i].first) << "," << v.inputs[i].second << "]"; o << "],\"schedule\":["; for (size_t i = 0; i < v.sched.size(); i++) o << (i ? "," : "") << "[" << v.sched[i].first << "," << v.sched[i].second << "]"; o << "],\"crash_events\":["; for (size_t i = 0; i < v.crashAt.size(); i++) o << (i ? "," : "") << v.crashAt[i]; o << "],\"picks\":["; for (size_t i = 0; i < v.picks.size(); i++) o << (i ? "," : "") << "[" << v.picks[i].first << "," << v.picks[i].second << "]"; o << "]}"; return o.str();
}
// Every worker process leaves its part of the result as lines "<kind>\t<name>\t<value>"; the first process merges them.
std::map<std::string, double> sums, maxs; std::map<char, std::set<std::string>> lists; std::string repo = "/repo/";
void ownPart() {
    sums["paths"] += nPaths; sums["infeasible"] += nInfeasible; sums["instructions"] += nInstr; sums["visible_ops"] += nVis; sums["forks"] += nForks; sums["pruned"] += nPruned; sums["switches"] += nSched; sums["spins"] += nSpin; sums["crash_states"] += nCrash; sums["asserts"] += nAsserts; sums["assert_queries"] += nAssertQ;
    sums["queries"] += S.queries; sums["sat"] += S.sat; sums["unsat"] += S.unsat; sums["unknown"] += S.unknown; sums["cache_hits"] += S.cacheHits; sums["solver_s"] += S.secs; maxs["solver_max_s"] = std::max(maxs["solver_max_s"], S.maxSecs); sums["exprs"] += P.nid; sums["processes"] += 1;
    for (auto &c : coversHit) lists['C'].insert(c); for (auto &c : inconclusive) lists['I'].insert(c); for (auto &c : sampleInputs) lists['X'].insert(c); for (auto &v : viols) lists['V'].insert(vjson(v)); if (!stopReason.empty()) lists['T'].insert(stopReason);
    for (auto *f : PR.funcs) if (f->decoded) for (size_t i = 0; i < f->code.size(); i++) if (f->covered.size() && f->covered[f->code[i].block] && f->code[i].sp >= 0) { auto &sp = PR.sps[f->code[i].sp]; if (sp.file.rfind(repo, 0) == 0) lists['F'].insert(sp.file.substr(repo.size()) + ":" + std::to_string(sp.line) + " " + sp.name); }
}
void writePart(const std::string &fn) {
    std::ofstream f(fn); f.precision(17); for (auto &x : sums) f << "S\t" << x.first << "\t" << x.second << "\n"; for (auto &x : maxs) f << "M\t" << x.first << "\t" << x.second << "\n"; for (auto &l : lists) for (auto &x : l.second) f << l.first << "\t" << x << "\n"; f << "E\n";
}
bool readPart(const std::string &fn) {
    std::ifstream f(fn); std::string l; bool ok = false;
    while (std::getline(f, l)) { if (l == "E") { ok = true; break; } if (l.size() < 2) continue; char k = l[0]; std::string r = l.substr(2);
        if (k == 'S' || k == 'M') { auto t = r.find('\t'); double d = strtod(r.c_str() + t + 1, nullptr); std::string n = r.substr(0, t); if (k == 'S') sums[n] += d; else maxs[n] = std::max(maxs[n], d); } else lists[k].insert(r); }
    return ok;
}
std::string result() { return lists['V'].size() ? "violation" : lists['I'].size() ? "inconclusive" : lists['T'].size() ? "incomplete" : "verified"; }
void report(const std::string &out) {
    std::ostringstream o; o.precision(12); std::string st = lists['T'].empty() ? "" : *lists['T'].begin();
    o << "{\"result\":" << js(result()) << ",\"stop\":" << js(st) << ",\"wall\":" << elapsed() << ",\"preempt\":" << maxPreempt << ",\"states\":" << SH.h->entries.load();
    for (auto &x : sums) o << "," << js(x.first) << ":" << x.second; for (auto &x : maxs) o << "," << js(x.first) << ":" << x.second;
    auto arr = [&](const char *n, char k, size_t lim, bool raw) { o << ",\"" << n << "\":["; size_t i = 0; for (auto &x : lists[k]) { if (i >= lim) break; o << (i++ ? "," : "") << (raw ? x : js(x)); } o << "]"; };
    arr("covers", 'C', ~0ull, false); arr("inconclusive", 'I', ~0ull, false); arr("samples", 'X', 40, true); arr("functions", 'F', ~0ull, false); arr("violations", 'V', ~0ull, true); o << "}";
    std::ofstream f(out); f << o.str() << "\n";
}
void sample(State &s) { // some completed paths, for the replay on the native build
    if (nPaths & (nPaths - 1) || sampleInputs.size() >= 8) return; Violation v; Evaluator ev(*s.model); v.kind = "sample"; for (auto &i : s.inputs) v.inputs.push_back({i.first, (u64)ev.ev(i.second)});
    v.sched = s.sched; v.sched.push_back({s.cur, (uint32_t)s.th[s.cur].nvis}); v.crashed = s.crashed; v.crashAt = s.crashAts; for (auto &p : s.crashPicks) v.picks.push_back({p.first, (u64)ev.ev(p.second)});
    std::string e = "vis"; for (auto &t : s.th) e += " " + std::to_string(t.nvis); v.msg = e + " events " + std::to_string(s.crashEvents); sampleInputs.push_back(vjson(v));
}
int procs = 1; double lastFork = 0; bool isRoot = true; std::string partDir; unsigned tabBits = 26;
void maybeSplit() { // hand half of the pending work to a new process while processors are idle
    if (procs < 2 || work.size() < 2 || SH.h->active.load(std::memory_order_relaxed) >= procs || elapsed() - lastFork < 0.05) return;
    int a = SH.h->active.load(); while (a < procs && !SH.h->active.compare_exchange_strong(a, a + 1)) {} if (a >= procs) return;
    lastFork = elapsed(); fflush(stderr); std::vector<State *> keep, give; for (size_t i = 0; i < work.size(); i++) (i % 2 ? keep : give).push_back(work[i]);
    pid_t p = ::fork(); if (p < 0) { SH.h->active--; return; }
    if (p == 0) { isRoot = false; work = give; nPaths = nInfeasible = nInstr = nVis = nForks = nPruned = nSched = nSpin = nCrash = nAsserts = nAssertQ = 0; S.queries = S.sat = S.unsat = S.unknown = S.cacheHits = 0; S.secs = S.maxSecs = 0; sampleInputs.clear(); viols.clear(); coversHit.clear(); inconclusive.clear(); lastFork = elapsed(); }
    else { work = keep; for (auto *s : give) delete s; }
}
int main(int argc, char **argv) {
    std::string file, out = "/dev/stdout";
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto eq = a.find('='); std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
        if (k == "--out") out = v; else if (k == "--preempt") maxPreempt = std::stoi(v); else if (k == "--solo") maxSolo = std::stoull(v); else if (k == "--steps") maxSteps = std::stoull(v); else if (k == "--progress") progress = v != "0"; else if (k == "--viols") maxViol = std::stoi(v); else if (k == "--time") maxTime = std::stod(v);
        else if (k == "--race") race = v != "0"; else if (k == "--strong") P.strong = v != "0"; else if (k == "--dedup") dedup = v != "0"; else if (k == "--trace") trace = true; else if (k == "--repo") repo = v; else if (k == "--crashes") crashMax = std::stoi(v); else if (k == "--qtimeout") { S.timeoutMs = std::stoi(v); S.reset(); }
        else if (k == "--procs") procs = std::stoi(v); else if (k == "--tabbits") tabBits = std::stoi(v);
        else if (k.rfind("-D", 0) == 0) config[k.substr(2)] = std::stoull(v, nullptr, 0); else if (k.rfind("--", 0) == 0) { fprintf(stderr, "engine: unknown option %s\n", argv[i]); return 3; } else file = a; }
    SMDiagnostic err; PR.M = parseIRFile(file, err, PR.C); if (!PR.M) { err.print("engine", errs()); return 3; }
    PR.DL = &PR.M->getDataLayout(); setupBuiltins(); SH.init(tabBits); S.SH = &SH;
    State *s0 = new State; s0->th.emplace_back(); setupGlobals(*s0);
    Function *mf = PR.M->getFunction("harness"); if (!mf) { fprintf(stderr, "engine: no function harness\n"); return 3; }
    s0->crashesLeft = crashMax; for (auto &c : ctors) s0->th[0].queue.push_back({c, K(0)}); s0->th[0].queue.push_back({PR.func(mf), K(0)});
    if (procs > 1) { prctl(PR_SET_CHILD_SUBREAPER, 1); char b[] = "/tmp/engineXXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); return 3; } partDir = b; }
    work.push_back(s0); double lastMsg = 0;
    while (!work.empty() && stopReason.empty()) {
        State *s = work.back(); work.pop_back(); Status r = run(*s);
        if (r == ST_END && stopReason.empty()) { nPaths++; if (s->th[s->cur].st.empty()) sample(*s); }
        delete s;
        if (r == ST_VIOL || viols.size()) { if ((int)viols.size() >= maxViol) SH.h->stop = 1; }
        if (SH.h->stop.load(std::memory_order_relaxed)) break;
        if (isRoot && elapsed() - lastMsg > 20) { lastMsg = elapsed(); fprintf(stderr, "engine: %.0fs paths=%llu work=%zu states=%llu instr=%llu queries=%llu solver=%.1fs procs=%d\n", lastMsg, (unsigned long long)nPaths, work.size(), (unsigned long long)SH.h->entries.load(), (unsigned long long)nInstr, (unsigned long long)S.queries, S.secs, SH.h->active.load()); }
        if (elapsed() > maxTime) stop(*s0, "time limit");
        maybeSplit();
    }
    if (!stopReason.empty()) SH.h->stop = 1;
    if (!isRoot) { ownPart(); writePart(partDir + "/" + std::to_string(getpid())); SH.h->active--; _exit(0); }
    ownPart(); SH.h->active--;
    if (procs > 1) {
        int st; pid_t p; bool lost = false; while ((p = waitpid(-1, &st, 0)) > 0 || errno == EINTR) { if (p <= 0) continue; std::string fn = partDir + "/" + std::to_string(p); if (!readPart(fn)) lost = true; remove(fn.c_str()); }
        if (lost) lists['T'].insert("a worker process was lost (memory?)"); rmdir(partDir.c_str());
    }
    report(out); std::string r = result(); _exit(r == "violation" ? 1 : r == "inconclusive" ? 4 : r == "incomplete" ? 5 : 0);
}
