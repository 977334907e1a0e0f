// Concurrent calls through a container adapter: a sequential order explains results and contents (C06, C16).
#include "adapter.h"
struct Call { u64 kind, key, res, before; }; static Call cs[8]; GHOST u64 done = 0; static u64 nc, perThread, el[4], nk, fin[4], init[4]; static Container *c;
static __attribute__((noinline)) u64 ghostBefore() { return done; }
static __attribute__((noinline)) void ghostDone(u64 i) { done |= 1ull << i; } // not part of the program that races are looked for in
static void worker(void *p) { for (u64 i = (u64)p * perThread; i < ((u64)p + 1) * perThread; i++) { cs[i].before = ghostBefore(); cs[i].res = call(c, cs[i].kind, el[cs[i].key]); ghostDone(i); } }
static u64 good(u64 kind, u64 was, u64 res, u64 *cur) {
    switch (kind) {
    case INSERT: return res == (u64)(was == ABSENT);
    case ERASE: case CONTAINS: return res == (u64)(was != ABSENT);
    case GET: return (u64)(was == ABSENT) | (u64)(res == was);
#ifdef STL
    case INCREMENT: return res == (was == ABSENT ? 0 : was) + 1;
    default: { u64 n = 0; for (u64 k = 0; k < nk; k++) n += (u64)(cur[k] != ABSENT); return res == n; }
#else
    case INCREMENT: return was == ABSENT ? (u64)Map::isValueReserved(res) : (u64)(res == was << 3);
    default: return 1;
#endif
    }
}
static u64 next(u64 kind, u64 was, u64 e) {
    switch (kind) {
#ifdef STL
    case INSERT: return was == ABSENT ? e : was;
#else
    case INSERT: return e;
#endif
    case ERASE: return ABSENT; case INCREMENT: return was == ABSENT ? 1 : was + 1; default: return was; }
}
static u64 lin(u64 rem, u64 *cur, u64 ok) {
    if (!rem) { for (u64 k = 0; k < nk; k++) ok &= (u64)(cur[k] == fin[k]); return ok; }
    u64 any = 0;
    for (u64 i = 0; i < nc; i++) { if (!((rem >> i) & 1) || (cs[i].before & rem)) continue; u64 k = cs[i].key, s = cur[k], g = ok & good(cs[i].kind, s, cs[i].res, cur); cur[k] = next(cs[i].kind, s, el[k]); any |= lin(rem & ~(1ull << i), cur, g); cur[k] = s; }
    return any;
}
extern "C" void harness() {
    u64 threads = sym_config("threads", 2), mask = sym_config("mask", 31); perThread = sym_config("ops", 1); nc = threads * perThread; nk = sym_config("keys", 1); TestOptions o; o.capacity = 3; c = new Cont(o, false);
    for (u64 k = 0; k < nk; k++) { el[k] = symEl("el"); for (u64 j = 0; j < k; j++) { sym_assume(el[j] != el[k]); }
        u64 st = sym_pick("state", 3); if (st) c->insert(el[k]); init[k] = st ? el[k] : ABSENT; if (st == 2) { c->increment(el[k]); init[k]++; } }
    for (u64 i = 0; i < nc; i++) { cs[i].kind = sym_pick("op", NKINDS); if (!((mask >> cs[i].kind) & 1)) return; if (perThread == 1 && i && cs[i - 1].kind > cs[i].kind) return; cs[i].key = sym_pick("on", nk); }
    for (u64 t = 0; t < threads; t++) sym_spawn(worker, (void *)t);
    sym_join(); u64 n = 0;
    for (u64 k = 0; k < nk; k++) { fin[k] = c->contains(el[k]) ? c->get(el[k]) : ABSENT; n += (u64)(fin[k] != ABSENT); }
    u64 cur[4]; for (u64 k = 0; k < nk; k++) cur[k] = init[k];
    sym_assert(lin((1ull << nc) - 1, cur, 1), "a sequential order explains the results and the final contents"); sym_assert(c->count() == n, "count afterwards is the number of keys"); sym_cover("end");
}
