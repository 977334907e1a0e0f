// One thread, any sequence of N operations on any keys and values, compared with a finite map (C01, C02).
#include "map.h"
#include "ops.h"
extern "C" void harness() {
    u64 n = sym_config("ops", 3), homes = sym_config("homes", 2), mask = sym_config("mask", (1 << NOPS) - 1), wantSize = sym_config("size", 0), res = sym_config("res", 1); smallVals = sym_config("small", 0);
    m = newMap(sym_config("len", 8)); u64 key[8];
    for (u64 i = 0; i < n; i++) {
        u64 home = sym_pick("home", homes); home = (home + 7) & 7; u64 k = symKey("k", home); key[i] = k;
        u64 op = sym_pick("op", NOPS); if (!((mask >> op) & 1)) return;
        doOp(op, k, res);
        if (wantSize) { sym_assert(m->size() == ref.size(), "size equals the number of bound keys"); sym_assert(m->isEmpty() == (ref.size() == 0), "isEmpty agrees with size"); }
    }
    u64 q = symKey("q", sym_pick("qhome", homes) + 7 & 7); if (res) sym_assert(m->get(q) == ref.get(q), "lookup of any key after the sequence");
    sym_cover("end");
}
