// Word marking: all 64-bit words (C12).
#include "map.h"
extern "C" void harness() {
    u64 p = sym_u64("p"), f = sym_pick("f", 3), g = sym_pick("g", 3); f = 1ull << f; g = 1ull << g; // the three bits keys and values reserve for marks
    u64 s = (u64)setMark(p, f), c = (u64)clearMark(p, f);
    sym_assert(s == (p | f), "setting a mark changes only that mark"); sym_assert(c == (p & ~f), "clearing a mark changes only that mark");
    sym_assert(((u64)isMarked(p, f) != 0) == ((p & f) != 0), "testing a mark sees exactly that mark");
    sym_assert((u64)clearMark(s, f) == c && (u64)setMark(c, f) == s, "set and clear undo each other");
    sym_assert((u64)isMarked(s, f) != 0 && (u64)isMarked(c, f) == 0, "a set mark is seen, a cleared one is not");
    if (f != g) { sym_assert(((u64)isMarked(s, g) != 0) == ((p & g) != 0), "setting a mark leaves the others alone"); sym_assert(((u64)isMarked(c, g) != 0) == ((p & g) != 0), "clearing a mark leaves the others alone");
        sym_assert((u64)setMark((u64)setMark(p, f), g) == (u64)setMark((u64)setMark(p, g), f) && (u64)clearMark((u64)setMark(p, g), f) == (u64)setMark((u64)clearMark(p, f), g), "marks do not interfere"); }
    sym_assert(DirtyFlag != MigrationFlag && (DirtyFlag & MigrationFlag) == 0 && DirtyFlag && MigrationFlag && DirtyFlag < 8 && MigrationFlag < 8, "the marks are distinct bits below the key and value bits");
    sym_assert((AddressMask & (DirtyFlag | MigrationFlag)) == 0 && (AddressMask | DirtyFlag | MigrationFlag) == ~0ull, "the address mask is exactly the words without marks");
    // reserved words: exactly the five largest unmarked words for values (the migrated tombstone carries a mark), the two largest for keys
    u64 w = sym_u64("w"); bool rk = w == R_INIT || w == R_TOMB, rv = w == R_INIT || w == R_TOMB || w == (R_TOMB | MigrationFlag) || w == (R_INIT | MigrationFlag) || w == R_ANY || w == R_NOOLD;
    sym_assert(Map::isKeyReserved(w) == rk, "exactly the reserved keys are reported as reserved"); sym_assert(Map::isValueReserved(w) == rv, "exactly the reserved values are reported as reserved");
    u64 i = sym_pick("i", 4), j = sym_pick("j", 4), m1 = sym_pick("m1", 8), m2 = sym_pick("m2", 8); u64 r[] = {R_INIT, R_TOMB, R_ANY, R_NOOLD};
    if (i != j) sym_assert((r[i] | m1) != (r[j] | m2), "reserved words stay distinct under any mark");
    sym_cover("end");
}
