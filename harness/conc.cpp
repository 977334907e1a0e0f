// Concurrent operations without growth: any interleaving has a sequential explanation (C04); counters (C06).
#include "lin.h"
static u64 perThread = 1;
static void worker(void *p) { u64 t = (u64)p; for (u64 i = 0; i < perThread; i++) perform(t * perThread + i); }
extern "C" void harness() {
    u64 threads = sym_config("threads", 2), mask = sym_config("mask", (1 << NOPS) - 1), states = sym_config("states", 3), wantSize = sym_config("size", 0); perThread = sym_config("ops", 1); nkeys = sym_config("keys", 2); smallVals = 1;
    nops = threads * perThread; m = newMap(sym_config("len", 8));
    for (u64 k = 0; k < nkeys; k++) {
        keys[k] = symKey("key", 7 - (k == 2)); for (u64 j = 0; j < k; j++) sym_assume(keys[j] != keys[k]); init[k] = ABSENT;
        u64 st = sym_pick("state", states); if (st == 1) { init[k] = symVal("init"); m->put(keys[k], init[k]); } else if (st == 2) { m->put(keys[k], symVal("gone")); m->remove(keys[k]); }
    }
    for (u64 i = 0; i < nops; i++) {
        Op &o = ops[i]; o.kind = sym_pick("op", NOPS); if (!((mask >> o.kind) & 1)) return;
        if (perThread == 1 && i && ops[i - 1].kind > o.kind) return; // threads are interchangeable
        opKey[i] = sym_pick("on", i < nkeys ? i + 1 : nkeys); o.key = keys[opKey[i]]; o.a = symVal("a"); o.b = symVal("b");
    }
    for (u64 t = 0; t < threads; t++) sym_spawn(worker, (void *)t);
    sym_join();
    u64 present = 0; for (u64 k = 0; k < nkeys; k++) { fin[k] = m->get(keys[k]); present += (u64)(fin[k] != ABSENT); }
    if (wantSize) sym_assert(m->size() == present, "size equals the number of bound keys after concurrent operations");
    else {
        sym_assert(linearizable(), "a sequential order explains the results and the final contents");
        for (u64 k = 0; k < nkeys; k++) { bool r = m->remove(keys[k]); sym_assert(r == (fin[k] != ABSENT), "remove afterwards reports the binding"); sym_assert(m->get(keys[k]) == ABSENT, "a removed key is gone (it was not bound twice)"); }
    }
    sym_cover("end");
}
