// Persistent compare-and-swap and read: any interleaving of any calls on one word is explained by an atomic word (C13).
#include "map.h"
enum { CASOP, READOP, READCAS };
struct POp { u64 kind, exp, val, ret, obs, before; bool second; };
static std::atomic<u64> *word; static POp ops[8]; static u64 nops, perThread, doneMask; static u64 fin, init0;
static void perform(u64 i) {
    POp &o = ops[i]; o.before = doneMask;
    if (o.kind == CASOP) { u64 e = o.exp; o.ret = pcas<u64>(word, e, o.val); o.obs = e; } else o.obs = pcas_read<u64>(word);
    doneMask |= 1ull << i;
}
static void worker(void *p) { u64 t = (u64)p; for (u64 i = 0; i < perThread; i++) perform(t * perThread + i); }
static int lin(u64 rem, u64 cur, u64 ok) {
    if (!rem) return ok & (u64)(cur == fin); u64 any = 0;
    for (u64 i = 0; i < nops; i++) { if (!((rem >> i) & 1) || (ops[i].before & rem)) continue; POp &o = ops[i]; u64 good, next;
        if (o.kind == CASOP) { u64 hit = (u64)(cur == o.exp); good = ok & (u64)(o.ret == hit) & (u64)(o.obs == cur); next = hit ? o.val : cur; } else { good = ok & (u64)(o.obs == cur); next = cur; }
        any |= lin(rem & ~(1ull << i), next, good); }
    return any;
}
extern "C" void harness() {
    u64 threads = sym_config("threads", 2); perThread = sym_config("ops", 2); nops = threads * perThread; bool ghostWrites = sym_config("distinct", 0);
    word = (std::atomic<u64> *)vf_create("/word", 64); sym_pmem_map(word, 1); u64 raw = sym_u64("word"); *word = raw; init0 = raw & ~DirtyFlag;
    for (u64 i = 0; i < nops; i++) { POp &o = ops[i]; o.kind = sym_pick("kind", 2); if (perThread == 1 && i && ops[i - 1].kind > o.kind) return; o.exp = sym_u64("exp") & ~DirtyFlag; o.val = sym_u64("val") & ~DirtyFlag; o.ret = 0; }
    for (u64 t = 0; t < threads; t++) sym_spawn(worker, (void *)t);
    sym_join(); fin = word->load() & ~DirtyFlag;
    for (u64 i = 0; i < nops; i++) { sym_assert((ops[i].obs & DirtyFlag) == 0, "the not-persisted mark is never visible"); if (ops[i].kind == CASOP) sym_assert((ops[i].obs == ops[i].exp) == (ops[i].ret != 0), "a failing compare-and-swap reports a differing value, a succeeding one the expected value"); }
    sym_assert(lin((1ull << nops) - 1, init0, 1), "an atomic word explains the results and the final value");
    sym_assert(pcas_read<u64>(word) == fin, "a read afterwards returns the word without the mark"); sym_assert((word->load() & DirtyFlag) == 0, "a read persists the word and clears the mark");
    sym_cover("end");
}
