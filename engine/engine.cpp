// Symbolic executor for LLVM IR: bounded exploration of inputs, schedules and crash points with Z3 deciding every branch and assertion.
#include "state.h"
#include "shared.h"
#include <cmath>
#include <deque>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>

enum Status { ST_CONT, ST_END, ST_VIOL, ST_SWITCH };
enum { AR_CONST = 1, AR_FUNC = 2, AR_GLOB = 3, AR_TLS = 4, AR_EXT = 5 };

enum BI { B_NONE = -1, B_NOP0, B_NOP1ST, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_ALIGNED, B_POSIX_MEMALIGN, B_MEMCPY, B_MEMSET, B_SYM, B_SYMRANGE, B_ASSUME, B_ASSERT, B_COVER, B_FAIL, B_PICK, B_CONC, B_CONFIG,
    B_SPAWN, B_JOIN, B_YIELD, B_TID, B_PMALLOC, B_PMMAP, B_CRASHON, B_CRASHPT, B_CRASHARM, B_SCHED, B_ABORT, B_ASSERTFAIL, B_EXIT, B_TERMINATE, B_GUARD_ACQ, B_GUARD_REL, B_EXC_ALLOC, B_EXC_FREE, B_THROW, B_BEGIN_CATCH, B_END_CATCH, B_RETHROW,
    B_MLOCK, B_MTRYLOCK, B_MUNLOCK, B_STRERROR, B_LDEXP, B_EXP2, B_POW, B_LOG2, B_CEIL, B_FLOOR, B_SQRT, B_SYMBYTES, B_DUMP, B_MERGE, B_PMDIRTY, B_ISSHARED, B_MEMEQ };

struct Violation { std::string msg, kind, where; std::vector<std::string> stack; std::vector<std::pair<std::string, u64>> inputs; std::vector<std::pair<int, uint32_t>> sched; std::vector<u64> crashAt; bool crashed = false; std::vector<std::pair<u64, u64>> picks; };

struct Engine {
    ExprPool P; Solver S{P}; Program PR{P};
    std::map<std::string, u64> config; std::map<std::string, std::string> opt;
    int maxPreempt = 2; u64 maxSolo = 2000, maxSteps = 20000000; bool progress = false; int maxViol = 1; double maxTime = 1e9; u64 maxStates = ~0ULL; bool race = false; bool dedup = true; int crashMax = 1;
    std::string stopReason;
    // statistics
    u64 nPaths = 0, nInstr = 0, nVis = 0, nForks = 0, nPruned = 0, nInfeasible = 0, nSpin = 0, nCrash = 0, nAsserts = 0, nAssertQ = 0, nSched = 0;
    std::set<std::string> coversHit, coversDecl; std::vector<Violation> viols; std::set<std::string> violKeys; std::vector<std::string> inconclusive; std::set<std::string> notes;
    Shared SH;
    std::vector<State *> work; std::vector<u64> constIdx; Arena constArena; std::vector<V> tmp;
    std::map<std::string, int> bnames; std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::vector<std::string> sampleInputs;
    bool trace = false;

    const Expr *E(V v, unsigned w) { if (v.e == UNINIT) return P.cst(0, w); return v.e ? v.e : P.cst(v.c, w); }
    static V K(u64 c) { return {c, nullptr}; }
    V fe(const Expr *e) { if (e->k == K_CONST && e->w <= 64) return {(u64)e->v, nullptr}; return {0, e}; }
    static u64 mk(unsigned w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }

    // ---------- objects
    Obj *slot(State &s, u64 addr) {
        unsigned a = addr >> 40, i = (addr >> 24) & 0xffff; if (a >= 64) return nullptr;
        if (a == AR_CONST) return i < constArena.v.size() ? constArena.v[i] : nullptr;
        Arena *A = s.ar[a]; if (!A || i >= A->v.size()) return nullptr; return A->v[i];
    }
    Obj *wobj(State &s, u64 addr) { // writable copy; hash bookkeeping
        unsigned a = addr >> 40, i = (addr >> 24) & 0xffff; Arena *&A = s.ar[a];
        if (A->rc > 1) { Arena *n = A->clone(); A->rc--; A = n; }
        Obj *&o = A->v[i]; if (o->rc > 1) { Obj *n = o->clone(); o->rc--; o = n; }
        if (o->hv) { s.memHash -= o->h; o->hv = false; s.dirty.push_back(o->addr); }
        return o;
    }
    u64 addObj(State &s, unsigned arena, Obj *o, int at = -1) {
        Arena *&A = s.ar[arena]; if (!A) A = new Arena; if (A->rc > 1) { Arena *n = A->clone(); A->rc--; A = n; }
        unsigned i = at >= 0 ? at : A->v.size(); if (i == 0 && at < 0) { A->v.push_back(nullptr); i = 1; }
        if (i >= 0xffff) { stop(s, "object limit"); i = 1; }
        if (A->v.size() <= i) A->v.resize(i + 1, nullptr);
        if (A->v[i]) killObjSlot(s, A->v[i]);
        o->addr = Program::mkaddr(arena, i); A->v[i] = o; o->hv = false; s.dirty.push_back(o->addr); return o->addr;
    }
    void killObjSlot(State &s, Obj *o) { if (o->hv) s.memHash -= o->h; decObj(o); }
    u64 newObj(State &s, unsigned arena, u64 size, char kind, bool shared, bool zero, int at = -1) {
        Obj *o = new Obj; o->size = size; o->kind = kind; o->shared = shared; o->cells.assign((size + 7) / 8, zero ? K(0) : V{0, UNINIT}); return addObj(s, arena, o, at);
    }
    unsigned heapArena(State &s) { return 8 + 2 * s.cur; }
    unsigned stackArena(State &s) { return 9 + 2 * s.cur; }
    void freeObj(State &s, u64 addr) { // keep a dead marker
        Obj *o = wobj(s, addr); o->live = false; o->cells.clear(); o->cells.shrink_to_fit();
    }
    V readCell(State &s, Obj *&o, unsigned ci) { // materialises uninitialised cells
        V &v = o->cells[ci]; if (v.e != UNINIT) return v;
        Obj *w = wobj(s, o->addr); o = w; char b[64]; snprintf(b, sizeof b, "uninit_%llx_%u", (unsigned long long)(o->addr >> 24), ci);
        std::string nm = b; int &c = s.symCount[nm]; if (c++) nm += "#" + std::to_string(c);
        V nv{0, P.sym(nm, 64)}; o->cells[ci] = nv; if ((o->addr >> 40) >= 8 && nm.find('#') == std::string::npos) s.inputs.push_back({nm, nv.e}); return nv;
    }
    V ext(V c, unsigned lo, unsigned w) { if (!c.e) return K((c.c >> lo) & mk(w)); return fe(P.extract(c.e, lo, w)); }
    V readMem(State &s, Obj *&o, u64 off, unsigned w) { // w bits, byte multiple (or 1)
        unsigned nb = (w + 7) / 8; unsigned ci = off >> 3, sh = off & 7;
        if (nb <= 8 && sh + nb <= 8) { V c = o->cells[ci]; if (c.e == UNINIT) { if (nb == 8 || true) c = readCell(s, o, ci); } return ext(c, sh * 8, w); }
        const Expr *r = nullptr; unsigned left = w; u64 p = off;
        while (left) { unsigned c = p >> 3, b = p & 7, n = std::min((8 - b) * 8, left); V x = ext(readCell(s, o, c), b * 8, n); const Expr *xe = E(x, n); r = r ? P.concat(xe, r) : xe; left -= n; p += n / 8; if (n % 8) break; }
        return fe(r);
    }
    void writeMem(State &s, Obj *o, u64 off, V v, unsigned w) { // o is writable
        unsigned nb = (w + 7) / 8; if (w < nb * 8) { if (v.e) v = fe(P.zext(v.e, nb * 8)); w = nb * 8; }
        unsigned ci = off >> 3, sh = off & 7;
        if (nb == 8 && !sh) { o->cells[ci] = v; return; }
        if (sh + nb <= 8) {
            V &c = o->cells[ci];
            if (c.e == UNINIT) { u64 rest = std::min<u64>(8, o->size - ci * 8ull); if (nb == rest && !sh) { o->cells[ci] = v.e ? fe(P.zext(v.e, 64)) : v; return; } Obj *oo = o; readCell(s, oo, ci); }
            V &d = o->cells[ci];
            if (!d.e && !v.e) { u64 m = mk(w) << (sh * 8); d.c = (d.c & ~m) | ((v.c << (sh * 8)) & m); return; }
            const Expr *old = E(d, 64); const Expr *x = E(v, w); unsigned lo = sh * 8, hi = lo + w;
            if (lo) x = P.concat(x, P.extract(old, 0, lo)); if (hi < 64) x = P.concat(P.extract(old, hi, 64 - hi), x);
            d = fe(x); return;
        }
        const Expr *x = E(v, w); unsigned done = 0; u64 p = off;
        while (done < w) { unsigned b = p & 7, n = std::min((8 - b) * 8, w - done); writeMem(s, o, p, fe(P.extract(x, done, n)), n); done += n; p += n / 8; }
    }
    u64 objHash(Obj *o) {
        u64 h = hcomb(o->addr, o->live * 2 + o->shared + o->mapped * 4); if (o->live) for (auto &c : o->cells) h = hcomb(h, c.e == UNINIT ? 0x5555 : c.e ? c.e->h : c.c * 3 + 1);
        if (o->pm) for (auto &l : o->pm->lines) if (!l.second.older.empty()) { h = hcomb(h, l.first); for (auto &v : l.second.older) for (auto &c : v) h = hcomb(h, c.e == UNINIT ? 0x5555 : c.e ? c.e->h : c.c * 3 + 1); }
        return h;
    }
    u64 memHash(State &s) {
        for (u64 a : s.dirty) { Obj *o = slot(s, a); if (!o || o->hv) continue; o->h = objHash(o); o->hv = true; s.memHash += o->h; }
        s.dirty.clear(); return s.memHash;
    }
    u64 threadHash(Thread &t) {
        u64 h = hcomb(t.status, t.waitAddr); h = hcomb(h, t.excPtr);
        for (size_t i = 0; i < t.st.size(); i++) { Frame *f = t.st[i]; h = hcomb(h, f->f->id * 100000ull + f->pc); if ((size_t)f->pc < f->f->code.size()) for (auto r : f->f->code[f->pc].live) { V v = f->regs[r]; h = hcomb(h, v.e ? v.e->h : v.c * 3 + 1); } }
        for (auto &p : t.pend) { h = hcomb(h, p.obj + p.line); }
        return h;
    }
    u64 stateHash(State &s, bool withPend = true) {
        u64 h = memHash(s); h = hcomb(h, s.pcHash); h = hcomb(h, s.cur * 2 + s.crashed);
        for (size_t i = 0; i < s.th.size(); i++) { Thread &t = s.th[i]; if (!t.hashValid || (int)i == s.cur) { t.hash = threadHash(t); t.hashValid = true; } h = hcomb(h, t.hash);
            if (s.crashOn) for (auto &p : t.pend) { Obj *o = slot(s, p.obj); if (!o || !o->pm) continue; auto it = o->pm->lines.find(p.line); u64 b = it == o->pm->lines.end() ? 0 : it->second.base; h = hcomb(h, p.idx > b ? p.idx - b : 0); } }
        if (s.crashOn) h = hcomb(h, 77 + s.crashesLeft);
        if (race) { for (auto &r : s.races) { h = hcomb(h, r.first); for (auto x : r.second.w) h = hcomb(h, x); for (auto x : r.second.r) h = hcomb(h, x); } for (auto &t : s.th) for (auto x : t.vc) h = hcomb(h, x); }
        return h;
    }

    // ---------- constraints
    void stop(State &s, const std::string &why) { if (stopReason.empty()) stopReason = why; }
    bool evalModel(State &s, const Expr *e) { Evaluator ev(*s.model); return ev.ev(e) != 0; }
    void addPC(State &s, const Expr *c) {
        if (c->k == K_CONST) return;
        if (c->k == K_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
        for (auto *x : s.pc) if (x == c) return;
        s.pc.push_back(c); s.pcHash += mix64(c->h);
    }
    // Is cond possible?  If so mo (optional) receives a model of pc and cond.
    int possible(State &s, const Expr *c, std::shared_ptr<Model> *mo = nullptr) {
        if (c->k == K_CONST) return c->v != 0;
        if (evalModel(s, c)) { if (mo) *mo = s.model; return 1; }
        auto m = std::make_shared<Model>(*s.model); int r = S.check(s.pc, c, m.get());
        if (r < 0) { inconclusive.push_back("solver gave up on a query"); return -1; }
        if (r && mo) *mo = m; return r;
    }
    bool assume(State &s, const Expr *c) {
        std::shared_ptr<Model> m; int r = possible(s, c, &m); if (r <= 0) { return false; }
        if (m) s.model = m; addPC(s, c); return true;
    }
    // Forks on c.  Returns 1/0 when s itself takes the true/false side; *o gets the other side if feasible.
    int fork(State &s, const Expr *c, State **o) {
        *o = nullptr; if (c->k == K_CONST) return c->v != 0;
        const Expr *nc = P.not_(c);
        for (auto *x : s.pc) { if (x == c) return 1; if (x == nc) return 0; }
        bool mv = evalModel(s, c); const Expr *same = mv ? c : nc, *oth = mv ? nc : c;
        auto m = std::make_shared<Model>(*s.model); int r = S.check(s.pc, oth, m.get());
        if (r < 0) inconclusive.push_back("solver gave up on a query");
        if (r > 0) { State *n = new State(s); n->model = m; addPC(*n, oth); *o = n; nForks++; addPC(s, same); }
        return mv;
    }
    // Makes v concrete: s continues with the value returned, other values are explored by re-executing the current instruction.
    u64 concretize(State &s, V v, unsigned w) {
        if (!v.e) return v.c; if (v.e == UNINIT) return 0;
        Evaluator ev(*s.model); u64 c = (u64)ev.ev(v.e);
        const Expr *eq = P.bin(K_EQ, v.e, P.cst(c, v.e->w));
        if (eq->k == K_CONST) return c;
        State *o; int r = fork(s, eq, &o); (void)r; if (o) { o->noSched = true; o->noCrashNow = true; push(o); } return c;
    }
    void push(State *o) { work.push_back(o); }

    // ---------- violations
    std::string whereOf(State &s, Frame *f) {
        if ((size_t)f->pc >= f->f->code.size()) return f->f->name; Inst &i = f->f->code[f->pc]; std::string r = f->f->name;
        if (i.sp >= 0) { auto &sp = PR.sps[i.sp]; auto sl = sp.file.rfind('/'); r = sp.name + " (" + sp.file.substr(sl == std::string::npos ? 0 : sl + 1) + ":" + std::to_string(i.line) + ")"; }
        return r;
    }
    void violation(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m = nullptr) {
        Violation v; v.kind = kind; v.msg = msg; if (!m) m = s.model; Thread &t = s.th[s.cur];
        for (int i = (int)t.st.size() - 1; i >= 0; i--) v.stack.push_back(whereOf(s, t.st[i]));
        v.where = v.stack.empty() ? "" : v.stack[0];
        std::string key = kind + "|" + msg + "|" + v.where; if (violKeys.count(key)) return; violKeys.insert(key);
        Evaluator ev(*m); for (auto &i : s.inputs) v.inputs.push_back({i.first, (u64)ev.ev(i.second)});
        v.sched = s.sched; v.sched.push_back({s.cur, (uint32_t)t.nvis}); v.crashed = s.crashed; v.crashAt = s.crashAts;
        for (auto &p : s.crashPicks) v.picks.push_back({p.first, (u64)ev.ev(p.second)});
        viols.push_back(v); fprintf(stderr, "engine: %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
        for (auto &x : v.stack) fprintf(stderr, "    in %s\n", x.c_str());
        for (auto &x : v.inputs) fprintf(stderr, "    %s = %llu (0x%llx)\n", x.first.c_str(), (unsigned long long)x.second, (unsigned long long)x.second);
    }
    Status viol(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg); return ST_VIOL; }

    // ---------- memory access with checks.  Returns null after reporting.
    bool access(State &s, V ptr, u64 size, bool write, Obj *&o, u64 &off, const char *what) {
        u64 a = concretize(s, ptr, 64); o = slot(s, a); off = a & 0xffffff;
        if (!o) { violation(s, "memory", std::string(what) + (a < 4096 ? " through a null pointer" : " outside of any object")); return false; }
        if (!o->live) { violation(s, "memory", std::string(what) + " of freed memory"); return false; }
        if (o->mapped <= 0) { violation(s, "memory", std::string(what) + " of unmapped memory"); return false; }
        if (off + size > o->size) { violation(s, "memory", std::string(what) + " out of bounds"); return false; }
        if (write && (o->cst)) { violation(s, "memory", std::string(what) + " to constant memory"); return false; }
        return true;
    }
    void publish(State &s, u64 a) { // the object a points into becomes reachable by other threads
        Obj *o = slot(s, a); if (!o || o->shared || !o->live || o->cst) return; if ((a >> 40) < 8) return;
        o = wobj(s, a); o->shared = true; for (size_t i = 0; i < o->cells.size(); i++) { V v = o->cells[i]; if (!v.e && v.c > 0xffffffffffULL) publish(s, v.c); }
    }
    void pmBefore(State &s, Obj *o, u64 off, u64 size) { // o writable: remember the old content of the lines
        if (!o->pm) o->pm = new PmShadow; else if (o->pm->rc > 1) { o->pm->rc--; auto *n = new PmShadow(*o->pm); n->rc = 1; o->pm = n; }
        for (unsigned l = off >> 6; l <= (off + size - 1) >> 6; l++) { Line ln; for (int i = 0; i < 8; i++) { size_t c = l * 8 + i; ln[i] = c < o->cells.size() ? o->cells[c] : K(0); } o->pm->lines[l].older.push_back(ln); }
    }
    void pmFlush(State &s, u64 addr) {
        Obj *o = slot(s, addr); if (!o || !o->pmem || !s.crashOn) return; unsigned l = (addr & 0xffffff) >> 6; if (!o->pm) return; auto it = o->pm->lines.find(l); if (it == o->pm->lines.end()) return;
        Thread &t = s.th[s.cur]; u64 idx = it->second.base + it->second.older.size(); for (auto &p : t.pend) if (p.obj == o->addr && p.line == l) { p.idx = idx; return; }
        t.pend.push_back({o->addr, l, idx});
    }
    void pmFence(State &s) {
        Thread &t = s.th[s.cur]; if (t.pend.empty()) return;
        for (auto &p : t.pend) { Obj *o = slot(s, p.obj); if (!o || !o->pm) continue; auto it = o->pm->lines.find(p.line); if (it == o->pm->lines.end() || p.idx <= it->second.base) continue;
            o = wobj(s, p.obj); if (o->pm->rc > 1) { o->pm->rc--; auto *n = new PmShadow(*o->pm); n->rc = 1; o->pm = n; }
            auto &lv = o->pm->lines[p.line]; u64 k = p.idx - lv.base; lv.older.erase(lv.older.begin(), lv.older.begin() + std::min<u64>(k, lv.older.size())); lv.base = p.idx; }
        t.pend.clear();
    }
    // race detection by vector clocks
    void vcJoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
    void vcTick(State &s) { Thread &t = s.th[s.cur]; if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1); t.vc[s.cur]++; }
    bool vcLeq(const VC &a, const VC &b) { for (size_t i = 0; i < a.size(); i++) if (a[i] && (i >= b.size() || a[i] > b[i])) return false; return true; }
    bool raceCheck(State &s, Obj *o, u64 addr, u64 size, bool write, bool atomic) {
        if (!race || s.th.size() < 2 || !o->shared || o->cst || o->ghost) return true;
        Thread &t = s.th[s.cur]; if ((int)t.vc.size() <= s.cur) { t.vc.resize(s.cur + 1); t.vc[s.cur] = 1; }
        if (atomic) { VC &v = s.syncVC[addr]; vcJoin(t.vc, v); v = t.vc; vcTick(s); return true; }
        for (u64 a = addr & ~7ULL; a < addr + size; a += 8) { Race &r = s.races[a];
            if (!vcLeq(r.w, t.vc) || (write && !vcLeq(r.r, t.vc))) { violation(s, "race", "data race"); return false; }
            VC &x = write ? r.w : r.r; if ((int)x.size() <= s.cur) x.resize(s.cur + 1); x[s.cur] = t.vc[s.cur]; }
        return true;
    }
    bool store(State &s, V ptr, V v, unsigned w, const char *what = "write") {
        Obj *o; u64 off; u64 n = (w + 7) / 8; if (!access(s, ptr, n, true, o, off, what)) return false;
        o = wobj(s, o->addr); if (o->pmem && s.crashOn) pmBefore(s, o, off, n);
        writeMem(s, o, off, v, w);
        if (o->shared && !v.e && v.c > 0xffffffffffULL && w == 64) publish(s, v.c);
        return true;
    }
    Frame *top(State &s) { Frame *&f = s.th[s.cur].st.back(); if (f->rc > 1) { Frame *n = f->clone(); f->rc--; f = n; } return f; }

#include "interp.h"
};
int main(int argc, char **argv) { Engine *e = new Engine; return e->main(argc, argv); }
