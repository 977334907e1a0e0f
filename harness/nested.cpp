// One operation stalls anywhere while another thread drives the table through two further growths (C05, C11).
#include "lin.h"
static u64 extra = 9, bops = 1;
static u64 home = 5;
static u64 otherKey(u64 i) { return (i + 2) << 9 | (home + (i & 3) * 16) << 3; } // one cluster in tables of 8 and 16, spread in larger ones
static u64 ov[40];
static u64 aput = 0;
static void workerA(void *p) { if (aput) m->put((u64)60 << 9 | home << 3, 80); perform(0); } // 1: its first operation starts the first growth itself
static void workerB(void *p) {
    perform(1); sym_sched(false); for (u64 i = 0; i < extra; i++) m->put(otherKey(7 + i), ov[7 + i]); sym_sched(true); // forcing the growth is not interrupted
    if (bops > 1) perform(2);
}
extern "C" void harness() {
    u64 mask = sym_config("mask", (1 << NOPS) - 1), bmask = sym_config("bmask", (1 << NOPS) - 1); extra = sym_config("extra", 9); bops = sym_config("bops", 1); home = sym_config("home", 5); aput = sym_config("aput", 0); smallVals = 1; nops = 1 + bops; m = newMap(8);
    nkeys = 1; keys[0] = 1 << 9 | home << 3; u64 at = sym_pick("at", sym_config("ats", 2)) * 7; // is the observed key the first or the last one of the cluster?
    u64 st = sym_pick("state", 2); init[0] = ABSENT; for (u64 i = 0; i < 7 + extra; i++) ov[i] = symVal("ov");
    for (u64 i = 0; i < 8; i++) { if (i == at) { init[0] = symVal("init"); m->put(keys[0], init[0]); if (st == 1) { m->remove(keys[0]); init[0] = ABSENT; } } else { u64 o = i < at ? i : i - 1; m->put(otherKey(o), ov[o]); } }
    sym_assert(vf_nfiles() == 1, "the table has not grown yet");
    for (u64 i = 0; i < nops; i++) { Op &o = ops[i]; o.kind = sym_pick("op", NOPS); if (!(((i ? bmask : mask) >> o.kind) & 1)) return; opKey[i] = 0; o.key = keys[0]; o.a = symVal("a"); o.b = symVal("b"); }
    // 1: the first growth is over when the threads start
    if (sym_config("grown", 0)) m->put((u64)40 << 9 | home << 3, symVal("first"));
    sym_spawn(workerA, 0); sym_spawn(workerB, 0); sym_join();
    fin[0] = m->get(keys[0]); sym_assert(linearizable(), "a sequential order explains the results and the final contents");
    for (u64 i = 0; i < 7 + extra; i++) sym_assert(m->get(otherKey(i)) == ov[i], "a binding no operation touched is unchanged by growth");
    if (vf_nfiles() > 2) sym_cover("grown twice"); if (vf_nfiles() > 3) sym_cover("grown three times"); sym_cover("end");
}
