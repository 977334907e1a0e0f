// Persistent compare-and-swap and read under crashes: what any completed call has observed survives (C07).
#include "map.h"
enum { CASOP, READOP };
struct POp { u64 kind, exp, val, ret, obs, before; };
static std::atomic<u64> *word; GHOST static POp ops[8]; GHOST static u64 nops, cnt[4], doneMask, startedMask, init0, fin, firstOf[4];
static void perform(u64 i) {
    POp &o = ops[i]; o.before = doneMask; startedMask |= 1ull << i;
    if (o.kind == CASOP) { u64 e = o.exp; o.ret = pcas<u64>(word, e, o.val); o.obs = e; } else o.obs = pcas_read<u64>(word);
    doneMask |= 1ull << i;
}
static void worker(void *p) { u64 t = (u64)p; for (u64 i = 0; i < cnt[t]; i++) { perform(firstOf[t] + i); sym_crash_point(); } }
static u64 explain(u64 must, u64 may, u64 cur, u64 old, u64 ok) {
    u64 any = 0; if (!must) any = ok & ((u64)(fin == cur) | (u64)(fin == old));
    for (u64 i = 0; i < nops; i++) { u64 bit = 1ull << i; if (!((must | may) & bit) || (ops[i].before & must)) continue; POp &o = ops[i]; u64 good = ok, next = cur;
        if (o.kind == CASOP) { u64 hit = (u64)(cur == o.exp); if (must & bit) good &= (u64)(o.ret == hit) & (u64)(o.obs == cur); next = hit ? o.val : cur; } else if (must & bit) good &= (u64)(o.obs == cur);
        any |= explain(must & ~bit, may & ~bit, next, cur, good); }
    return any;
}
static void recover() {
    int64_t f = vf_find("/word"); word = (std::atomic<u64> *)vf_data(f); sym_pmem_map(word, 1); fin = pcas_read<u64>(word);
    sym_assert((fin & DirtyFlag) == 0, "the not-persisted mark is not visible after a crash");
    sym_assert(explain(doneMask, startedMask & ~doneMask, init0, init0, 1), sym_config("aba", 0) ? "what a call observed survives a crash although the value was replaced and written back meanwhile" : "what a call observed survives a crash");
    u64 v = sym_u64("after") & ~DirtyFlag, e = fin; sym_assert(pcas<u64>(word, e, v), "compare-and-swap after recovery"); sym_assert(pcas_read<u64>(word) == v, "read after recovery"); sym_cover("recovered");
}
extern "C" void harness() {
    u64 threads = sym_config("threads", 2), aba = sym_config("aba", 0), n = 0; for (u64 t = 0; t < threads; t++) { firstOf[t] = n; cnt[t] = sym_config(t == 0 ? "ops0" : t == 1 ? "ops1" : "ops2", 1); n += cnt[t]; } nops = n;
    word = (std::atomic<u64> *)vf_create("/word", 64); sym_pmem_map(word, 1); u64 raw = sym_u64("word"); *word = raw; init0 = raw & ~DirtyFlag;
    for (u64 i = 0; i < nops; i++) { POp &o = ops[i]; o.kind = sym_pick("kind", 2); o.exp = sym_u64("exp") & ~DirtyFlag; o.val = sym_u64("val") & ~DirtyFlag; o.ret = 0;
        if (!aba && o.kind == CASOP) { sym_assume(o.val != init0); for (u64 j = 0; j < i; j++) if (ops[j].kind == CASOP) sym_assume(o.val != ops[j].val); } }
    if (aba) { bool w[4] = {0, 1, 1, 0}; for (u64 i = 0; i < nops; i++) if (ops[i].kind != (w[i] ? CASOP : READOP)) return; } // the one history that is looked at: T0 reads; T1 replaces, writes back, reads
    sym_crash_on(recover); for (u64 t = 0; t < threads; t++) sym_spawn(worker, (void *)t);
    sym_join(); sym_crash_point(); sym_cover("end");
}
