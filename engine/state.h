#pragma once
#include "decode.h"
#include "solver.h"
#include <array>

typedef std::array<V, 8> Line;
struct LineVers { u64 base = 0; std::vector<Line> older; };   // versions that a crash may still expose
struct PmShadow { int rc = 1; std::map<unsigned, LineVers> lines; };
struct Acc { uint8_t kind; };
struct Obj {
    int rc = 1; u64 addr = 0; u64 size = 0; bool live = true, shared = false, pmem = false, cst = false, ghost = false; int mapped = 1; char kind = 'h';
    u64 h = 0; bool hv = false; std::vector<V> cells; PmShadow *pm = nullptr; std::string name;
    Obj *clone() const { Obj *o = new Obj(*this); o->rc = 1; if (pm) pm->rc++; return o; }
    ~Obj() { if (pm && --pm->rc == 0) delete pm; }
};
static inline void decObj(Obj *o) { if (o && --o->rc == 0) delete o; }
struct Arena { int rc = 1; std::vector<Obj *> v; ~Arena() { for (auto o : v) decObj(o); }
    Arena *clone() const { Arena *a = new Arena; a->v = v; for (auto o : v) if (o) o->rc++; return a; } };
struct Frame { int rc = 1; Func *f = nullptr; int pc = 0; std::vector<V> regs; unsigned stackMark = 0;
    Frame *clone() const { Frame *x = new Frame(*this); x->rc = 1; return x; } };
static inline void decFrame(Frame *f) { if (--f->rc == 0) delete f; }
enum TStatus : uint8_t { T_RUN, T_JOIN, T_MUTEX, T_DONE };
struct Pend { u64 obj; unsigned line; u64 idx; };
typedef std::vector<uint32_t> VC;
struct Thread {
    std::vector<Frame *> st; TStatus status = T_RUN; u64 waitAddr = 0; unsigned stackTop = 0; u64 excPtr = 0, excTI = 0; u64 nvis = 0;
    std::vector<Pend> pend; u64 hash = 0; bool hashValid = false; int group = 0; VC vc; std::vector<std::pair<u64,u64>> caught; std::vector<std::pair<Func*, V>> queue;
};
struct Race { VC w, r; };
struct State {
    std::vector<Arena *> ar = std::vector<Arena *>(64, nullptr); std::vector<Thread> th; int cur = 0;
    std::vector<const Expr *> pc; u64 pcHash = 0; std::shared_ptr<Model> model = std::make_shared<Model>();
    std::vector<std::pair<std::string, const Expr *>> inputs; std::map<std::string, int> symCount;
    std::vector<std::pair<int, uint32_t>> sched; int preempt = 0; bool noSched = false; bool schedOn = true;
    std::vector<u64> solo; u64 soloOps = 0;
    u64 memHash = 0; std::vector<u64> dirty;
    bool crashArmed = true, crashOn = false, crashed = false; u64 crashFn = 0; u64 crashEvents = 0, crashAt = 0; std::vector<u64> crashAts; std::vector<std::pair<u64, const Expr *>> crashPicks; bool noCrashNow = false; int crashesLeft = 1;
    u64 steps = 0; std::map<u64, VC> syncVC; std::map<u64, Race> races; u64 uninitCnt = 0; u64 id = 0; int depth = 0; std::string infeasibleNote;
    u64 covers = 0;
    State() {}
    State(const State &o) : ar(o.ar), th(o.th), cur(o.cur), pc(o.pc), pcHash(o.pcHash), model(o.model), inputs(o.inputs), symCount(o.symCount), sched(o.sched), preempt(o.preempt), noSched(o.noSched), schedOn(o.schedOn), solo(o.solo), soloOps(o.soloOps),
        memHash(o.memHash), dirty(o.dirty), crashArmed(o.crashArmed), crashOn(o.crashOn), crashed(o.crashed), crashFn(o.crashFn), crashEvents(o.crashEvents), crashAt(o.crashAt), crashAts(o.crashAts), crashPicks(o.crashPicks), noCrashNow(o.noCrashNow), crashesLeft(o.crashesLeft), steps(o.steps), syncVC(o.syncVC), races(o.races), uninitCnt(o.uninitCnt), depth(o.depth), covers(o.covers) {
        for (auto a : ar) if (a) a->rc++;
        for (auto &t : th) for (auto f : t.st) f->rc++;
        if (!th.empty() && !th[cur].st.empty()) { Frame *&f = th[cur].st.back(); Frame *n = f->clone(); f->rc--; f = n; }
    }
    State &operator=(const State &) = delete;
    ~State() { for (auto &t : th) for (auto f : t.st) decFrame(f); for (auto a : ar) if (a && --a->rc == 0) delete a; }
};
