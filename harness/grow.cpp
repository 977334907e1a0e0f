// One thread: a table is filled to the brim, then any operations on any keys force and follow growth (C03, C02).
#include "map.h"
#include "ops.h"
static u64 low(u64 pat, u64 i) { return pat == 0 ? 5 : pat == 1 ? i & 63 : pat == 2 ? (i & 1) * 8 + 7 : (i * 11) & 63; }
static u64 conc = 0; // 1: the keys of the filling are fixed
static u64 fillKey(const char *n, u64 pat, u64 i) { if (conc && n[0] != 'n' && n[0] != 'q') return (i + 1) << 9 | low(pat, i) << 3; u64 k = symKey(n); sym_assume(((k >> 3) & 63) == low(pat, i)); return ((k >> 9) << 9) | (low(pat, i) << 3); }
extern "C" void harness() {
    u64 pat = sym_config("pat", 0), fill = sym_config("fill", 8), nops = sym_config("ops", 1), extra = sym_config("extra", 0), dels = sym_config("dels", 2), mask = sym_config("mask", 255), wantSize = sym_config("size", 0), wantRes = sym_config("res", 1); smallVals = sym_config("small", 1); conc = sym_config("conc", 0);
    m = newMap(sym_config("len", 8)); u64 k[40];
    for (u64 i = 0; i < fill; i++) {
        k[i] = fillKey("fill", pat, i); for (u64 j = 0; j < i; j++) if (low(pat, i) == low(pat, j)) sym_assume(k[i] != k[j]);
        u64 v = symVal("fv"); m->put(k[i], v); ref.set(k[i], v);
    }
    for (u64 i = 0; i < dels; i++) { u64 what = sym_pick("del", 3); u64 x = k[i * 3 % fill]; // untouched, removed, or removed and bound again
        if (what >= 1) { m->remove(x); ref.set(x, ABSENT); } if (what == 2) { u64 v = symVal("fv2"); m->put(x, v); ref.set(x, v); } }
    for (u64 i = 0; i < extra; i++) { k[fill + i] = fillKey("extra", pat, fill + i); for (u64 j = 0; j < fill + i; j++) sym_assume(k[fill + i] != k[j]); u64 v = symVal("ev"); u64 r = m->put(k[fill + i], v); if (wantRes) sym_assert(r == ABSENT, "put of a new key while growing reports no previous value"); ref.set(k[fill + i], v); }
    for (u64 i = 0; i < nops; i++) {
        u64 which = sym_pick("which", 3); u64 key = which == 0 ? fillKey("new", pat, fill + extra + i) : which == 1 ? k[0] : k[fill + extra - 1];
        u64 op = sym_pick("op", NOPS); if (!((mask >> op) & 1)) return; doOp(op, key, wantRes);
        if (wantSize) { sym_assert(m->size() == ref.size(), "size equals the number of bound keys after growth"); sym_assert(m->isEmpty() == (ref.size() == 0), "isEmpty agrees with size after growth"); }
    }
    if (wantRes) { u64 c = 0; for (u64 i = 0; i < fill + extra; i++) sym_assert(m->get(k[i]) == ref.get(k[i]), "every binding is found after growth with its value");
        u64 q = fillKey("q", pat, sym_pick("qh", 2) * (fill + extra)); sym_assert(m->get(q) == ref.get(q), "lookup of any other key after growth"); }
    if (vf_nfiles() > 1) sym_cover("grown"); if (vf_nfiles() > 2) sym_cover("grown twice"); sym_cover("end");
}
