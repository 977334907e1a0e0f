// Histories through a container adapter against a reference (C15).
#include "adapter.h"
static u64 K[16], V[16]; static int n = 0; // log of effective writes; ABSENT = erased
static u64 cur(u64 k) { u64 r = ABSENT; for (int i = 0; i < n; i++) r = K[i] == k ? V[i] : r; return r; }
static void set(u64 k, u64 v) { K[n] = k; V[n] = v; n++; }
static u64 bound() { u64 c = 0; for (int i = 0; i < n; i++) { u64 last = 1; for (int j = i + 1; j < n; j++) last &= (u64)(K[j] != K[i]); c += last & (u64)(V[i] != ABSENT); } return c; }
extern "C" void harness() {
    u64 ops = sym_config("ops", 3), homes = sym_config("homes", 1), kinds = sym_config("mask", 63); TestOptions o; o.capacity = sym_config("capacity", 3); Container *c = new Cont(o, false); u64 used[8];
    for (u64 i = 0; i < sym_config("fill", 0); i++) { u64 e = (i + 1) * sym_config("step", 3); sym_assert(c->insert(e), "insert of a new key reports it as new"); set(e, e); }
    for (u64 i = 0; i < ops; i++) {
        u64 kind = sym_pick("op", NKINDS), e = used[i] = kind == COUNT ? 0 : symEl("el"); if (!((kinds >> kind) & 1)) return; u64 was = cur(e); u64 r = call(c, kind, e);
        switch (kind) {
        case INSERT: sym_assert(r == (u64)(was == ABSENT), "insert reports whether the key was new");
            if (was == ABSENT) set(e, e); else { u64 v = c->get(e); sym_assert((v == was) | (v == e), "a key inserted again keeps its value or gets the inserted one"); set(e, v); } break;
        case ERASE: sym_assert(r == (u64)(was != ABSENT), "erase reports whether the key was present"); if (was != ABSENT) set(e, ABSENT); break;
        case CONTAINS: sym_assert(r == (u64)(was != ABSENT), "contains finds exactly what was inserted"); break;
        case GET: if (was != ABSENT) sym_assert(r == was, "get finds what was inserted"); break;
        case INCREMENT: set(e, was == ABSENT ? 1 : was + 1); break;
        case COUNT: sym_assert(r == bound(), "count is the number of keys"); break;
        }
    }
    u64 p = symEl("probe"), w = cur(p); sym_assert(c->contains(p) == (w != ABSENT), "contains of any key after the history"); if (w != ABSENT) sym_assert(c->get(p) == w, "get of any key after the history");
    sym_assert(c->count() == bound(), "count after the history"); sym_assert(c->isConsistent(), "the container calls itself consistent"); sym_cover("end");
}
