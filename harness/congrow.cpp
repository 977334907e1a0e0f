// Concurrent operations that overlap with growth of the table (C05, C06).
#include "lin.h"
static u64 perThread = 1;
static void worker(void *p) { u64 t = (u64)p; for (u64 i = 0; i < perThread; i++) perform(t * perThread + i); }
extern "C" void harness() {
    u64 threads = sym_config("threads", 2), mask = sym_config("mask", (1 << NOPS) - 1), first = sym_config("first", (1 << NOPS) - 1), fill = sym_config("fill", 8), live = sym_config("live", 1), keymask = sym_config("keymask", 7), firstkeys = sym_config("firstkeys", 7), spread = sym_config("spread", 1); perThread = sym_config("ops", 1); smallVals = 1;
    nops = threads * perThread; m = newMap(sym_config("len", 8));
    // keys[0]: bound before, keys[1]: removed before, keys[2]: never bound; further slots are claimed by other keys, some bound
    nkeys = 3; for (u64 k = 0; k < nkeys; k++) { keys[k] = (sym_u64("key") << 9) | (k * 2 * spread) << 3; init[k] = ABSENT; for (u64 j = 0; j < k; j++) sym_assume(keys[j] != keys[k]); sym_assume(!Map::isKeyReserved(keys[k])); }
    init[0] = symVal("init"); m->put(keys[0], init[0]); m->put(keys[1], symVal("gone")); m->remove(keys[1]);
    u64 other[16], ov[16]; for (u64 i = 0; i + 2 < fill; i++) { other[i] = ((i + 1) << 9 | (i * 3 + 1)) << 3; for (u64 k = 0; k < nkeys; k++) sym_assume(keys[k] != other[i]); ov[i] = symVal("other"); m->put(other[i], ov[i]); if (i + 1 >= live) { m->remove(other[i]); ov[i] = ABSENT; } }
    sym_assert(vf_nfiles() == 1, "the table has not grown yet");
    for (u64 i = 0; i < nops; i++) {
        Op &o = ops[i]; o.kind = sym_pick("op", NOPS); if (!(((i ? mask : first) >> o.kind) & 1)) return;
        opKey[i] = sym_pick("on", nkeys); if (!(((i ? keymask : firstkeys) >> opKey[i]) & 1)) return; o.key = keys[opKey[i]]; o.a = symVal("a"); o.b = symVal("b");
    }
    for (u64 t = 0; t < threads; t++) sym_spawn(worker, (void *)t);
    sym_join();
    for (u64 k = 0; k < nkeys; k++) fin[k] = m->get(keys[k]);
    sym_assert(linearizable(), "a sequential order explains the results and the final contents");
    for (u64 i = 0; i + 2 < fill; i++) sym_assert(m->get(other[i]) == ov[i], "a binding no operation touched is unchanged by growth");
    for (u64 k = 0; k < nkeys; k++) { bool r = m->remove(keys[k]); sym_assert(r == (fin[k] != ABSENT), "remove afterwards reports the binding"); sym_assert(m->get(keys[k]) == ABSENT, "a removed key is gone (it was not bound twice)"); }
    if (vf_nfiles() > 1) sym_cover("grown"); if (vf_nfiles() > 2) sym_cover("two tables allocated"); sym_cover("end");
}
