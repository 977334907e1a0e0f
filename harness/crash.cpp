// Operations interrupted by a crash at any point, recovery from the table files, and what the recovered map holds
// (C07, C08, C09, C10).  Everything the oracle needs survives the crash in ghost memory.
#define LINMEM GHOST
#include "lin.h"
GHOST static u64 alt[8], other[16], otherVal[16], otherAlt[16], fillers = 0, crashes = 0, wantTidy = 0, script = 1, seen[8], seenVal[8], base = 0, hi = 0, perThread = 1, wantSize = 1;
static u64 otherKey(u64 i) { return ((i + 1) << 9 | (i * 3 + 1)) << 3; }
// Is there an order of the completed operations and some of the interrupted ones (pend) that explains the results and,
// for every key, the recovered binding: the last one, or the one before if no operation has read past it.
static u64 explain(u64 must, u64 may, u64 *cur, u64 *old, u64 ok) {
    u64 any = 0;
    if (!must) { u64 g = ok; for (u64 k = 0; k < nkeys; k++) g &= (u64)((u64)(fin[k] == cur[k]) | (u64)(fin[k] == old[k])); any |= g; }
    for (u64 i = 0; i < nops; i++) {
        u64 bit = 1ull << i; if (!((must | may) & bit) || (ops[i].before & must)) continue;
        u64 k = opKey[i], c = cur[k], o = old[k], good = ok; if (must & bit) good &= (u64)(specRes(ops[i].kind, c, ops[i].a, ops[i].b) == ops[i].res);
        cur[k] = specNext(ops[i].kind, c, ops[i].a, ops[i].b); old[k] = c; any |= explain(must & ~bit, may & ~bit, cur, old, good); cur[k] = c; old[k] = o;
    }
    return any;
}
static bool isTable(const char *n) { u64 l = 0; while (n[l]) l++; return l > 4 && n[l - 4] == '.' && n[l - 3] == 'd' && n[l - 2] == 'a' && n[l - 1] == 't'; }
GHOST static u64 again = 0;
static u64 tables() { u64 c = 0; for (u64 i = 0; i < vf_nfiles(); i++) if (vf_used(i) && isTable(vf_name(i))) c++; return c; }
static void recover() {
    crashes++; smallVals = 1; if (tables() > 1) sym_cover("crash with two tables");
    u64 doneNow = doneMask, pending = startedMask & ~doneMask; if (pending) sym_cover("crash inside an operation");
    Map *r = recoverMap(8); u64 present = 0; sym_crash_point();
    for (u64 k = 0; k < nkeys; k++) { fin[k] = r->get(keys[k]); present += (u64)(fin[k] != ABSENT); if (seen[k]) sym_assert(fin[k] == seenVal[k], "what was read after a recovery survives the next crash"); seen[k] = 1; seenVal[k] = fin[k]; }
    u64 c[8], o[8]; for (u64 k = 0; k < nkeys; k++) { c[k] = init[k]; o[k] = alt[k]; }
    sym_assert(explain(doneNow, pending, c, o, 1), "the recovered bindings are those of the last operations, or of those before where nobody has seen the last");
    for (u64 i = 0; i < fillers; i++) { u64 v = r->get(other[i]); sym_assert((u64)(v == otherVal[i]) | (u64)(v == otherAlt[i]), "a binding no operation touched survives the crash"); present += (u64)(v != ABSENT); }
    u64 q = symKey("probe", 64); sym_assume(((q >> 3) & 63) == hi); for (u64 k = 0; k < nkeys; k++) sym_assume(q != keys[k]); for (u64 i = 0; i < fillers; i++) sym_assume(q != other[i]);
    sym_assert(r->get(q) == ABSENT, "a key that was never inserted is absent after recovery");
    if (wantSize) { sym_assert(r->size() == present, "size after recovery equals the number of bound keys"); sym_assert(r->isEmpty() == (present == 0), "isEmpty after recovery agrees"); }
    if (wantTidy) { sym_assert(tables() == 1, "after recovery only the table in use has a file"); sym_assert(vf_clobbers == 0, "no table file was overwritten"); }
    sym_crash_point(); // a crash once the recovered map has been read
    if (script && crashes >= sym_config("crashes", 1)) { // the recovered map works
        for (u64 k = 0; k < nkeys; k++) { u64 x = keys[k], v = symVal("nv"), w = symVal("nw");
            sym_assert(r->putIfAbsent(x, v) == fin[k], "putIfAbsent after recovery"); u64 now = fin[k] == ABSENT ? v : fin[k];
            sym_assert(r->replace(x, now, w), "replace after recovery"); sym_assert(r->update(x, R_ANY, Map::Table::increment) == w, "increment after recovery");
            sym_assert(r->get(x) == incOf(w), "get after recovery"); sym_assert(r->remove(x), "remove after recovery"); sym_assert(!r->containsKey(x), "a key removed after recovery is gone"); }
        u64 v = symVal("pv"); sym_assert(r->put(q, v) == ABSENT, "put of a new key after recovery"); sym_assert(r->get(q) == v, "get of the new key after recovery");
        for (u64 i = 0; i < script * 8 - 8; i++) { u64 x = ((i + 40) << 9 | 5) << 3; sym_assume(x != q); for (u64 k = 0; k < nkeys; k++) sym_assume(x != keys[k]); sym_assert(r->put(x, 8 * i) == ABSENT, "put of a further key after recovery"); } // forces another growth
        if (script > 1) { for (u64 i = 0; i < fillers; i++) { u64 x = r->get(other[i]); sym_assert((u64)(x == otherVal[i]) | (u64)(x == otherAlt[i]), "a binding survives recovery and the next growth"); } for (u64 i = 0; i < script * 8 - 8; i++) sym_assert(r->get(((i + 40) << 9 | 5) << 3) == 8 * i, "later inserts are found"); sym_assert(vf_clobbers == 0, "a growth after recovery does not overwrite a table file"); if (tables() > 1) sym_cover("grown after recovery"); }
        for (u64 k = 0; k < nkeys; k++) sym_assert(r->get(keys[k]) == ABSENT, "a removed key stays removed");
    }
    if (again && crashes == 1) { // operate on the recovered map, crash again
        m = r; fillers = 0; doneMask = startedMask = 0; nops = 1; perThread = 1; for (u64 k = 0; k < nkeys; k++) { init[k] = alt[k] = fin[k]; seen[k] = 0; }
        Op &p = ops[0]; p.kind = sym_pick("again", NOPS); if (!((again >> p.kind) & 1)) return; opKey[0] = sym_pick("againon", nkeys); p.key = keys[opKey[0]]; p.a = symVal("a"); p.b = symVal("b"); perform(0); sym_crash_point(); sym_cover("second crash after operations");
    }
    sym_cover("recovered");
}
static u64 wrote[16], wroteTo[16], nwrote = 0;
static bool written(u64 k, u64 x) { for (u64 i = 0; i < nwrote; i++) if (wroteTo[i] == k) { if (x == ABSENT && wrote[i] == ABSENT) return true; if (x != ABSENT && wrote[i] != ABSENT) sym_assume(wrote[i] != x); } return false; }
static void worker(void *p) { u64 t = (u64)p; for (u64 i = 0; i < perThread; i++) { perform(t * perThread + i); sym_crash_point(); } } // what an operation has seen counts from its return on
extern "C" void harness() {
    u64 threads = sym_config("threads", 1), mask = sym_config("mask", (1 << NOPS) - 1), first = sym_config("first", (1 << NOPS) - 1), states = sym_config("states", 7), fill = sym_config("fill", 0), live = sym_config("live", 1), keymask = sym_config("keymask", 15), firstkeys = sym_config("firstkeys", 15), dirty = sym_config("dirty", 0);
    nkeys = sym_config("keys", 2); perThread = sym_config("ops", 1); wantTidy = sym_config("tidy", 0); again = sym_config("again", 0); vf_reverse = sym_config("reverse", 0); base = sym_config("base", 0); for (u64 i = 0; i < base; i++) { newMap(8); for (u64 j = 0; j < vf_nfiles(); j++) if (vf_used(j)) vf_unlink(vf_name(j)); } if (base) vf_unlinks = 0; script = sym_config("script", 1); smallVals = 1; nops = threads * perThread; hi = fill ? 0 : 7;
    m = newMap(sym_config("len", 8)); if (dirty) { sym_crash_arm(false); sym_crash_on(recover); }
    for (u64 k = 0; k < nkeys; k++) {
        if (fill) keys[k] = (sym_u64("key") << 9) | (k * 2) << 3; else keys[k] = symKey("key", 7);
        sym_assume(!Map::isKeyReserved(keys[k])); for (u64 j = 0; j < k; j++) sym_assume(keys[j] != keys[k]); init[k] = alt[k] = ABSENT;
        u64 st = fill ? k < 2 ? 1 + k : 0 : sym_pick("state", 3); if (!((states >> st) & 1)) return; // with a full table: keys[0] bound, keys[1] removed, the others never bound
        if (st) { init[k] = symVal("init"); m->put(keys[k], init[k]); } if (st == 2) { alt[k] = init[k]; init[k] = ABSENT; m->remove(keys[k]); } if (!dirty) alt[k] = init[k];
        if (st) { wrote[nwrote] = init[k]; wroteTo[nwrote++] = k; }
    }
    fillers = fill > 2 ? fill - 2 : 0;
    for (u64 i = 0; i < fillers; i++) { other[i] = otherKey(i); for (u64 k = 0; k < nkeys; k++) sym_assume(keys[k] != other[i]); otherAlt[i] = ABSENT; otherVal[i] = symVal("other"); m->put(other[i], otherVal[i]); if (i + 1 >= live) { m->remove(other[i]); otherAlt[i] = otherVal[i]; otherVal[i] = ABSENT; } if (!dirty) otherAlt[i] = otherVal[i]; }
    for (u64 i = 0; i < nops; i++) {
        Op &o = ops[i]; u64 t = i / perThread; bool f = !t && (threads > 1 || !i); o.kind = sym_pick("op", NOPS); if (!(((f ? first : mask) >> o.kind) & 1)) return;
        opKey[i] = sym_pick("on", nkeys); if (!(((f ? firstkeys : keymask) >> opKey[i]) & 1)) return; o.key = keys[opKey[i]]; o.a = symVal("a"); o.b = symVal("b");
    }
    if (sym_config("distinct", 0)) for (u64 i = 0; i < nops; i++) { // no value is ever written twice to a key: leaves out histories of the kind of the known finding of C07
        u64 x = ops[i].kind == REMOVE || ops[i].kind == REMOVEV ? ABSENT : ops[i].kind == REPLACE ? ops[i].b : ops[i].a; if (ops[i].kind == GET || ops[i].kind == CONTAINS) continue;
        if (written(opKey[i], x)) return; wrote[nwrote] = x; wroteTo[nwrote++] = opKey[i]; }
    if (dirty) sym_crash_arm(true); else sym_crash_on(recover);
    if (threads == 1) worker(0); else { for (u64 t = 0; t < threads; t++) sym_spawn(worker, (void *)t); sym_join(); }
    sym_crash_point();
    if (wantTidy) { sym_assert(vf_clobbers == 0, "no table file was overwritten"); sym_assert(tables() <= 2, "a table that is not used has no file"); }
    sym_cover("end");
}
