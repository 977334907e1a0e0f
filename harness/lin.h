// Concurrent operations of the map, and the search for a sequential order that explains them.
#pragma once
#include "map.h"
enum { PUT, PUTABSENT, GET, CONTAINS, REMOVE, REMOVEV, REPLACE, INC, ADD, NOPS };
#define MAXO 8
#ifndef LINMEM
#define LINMEM
#endif
struct Op { u64 kind, key, a, b, res; u64 before; bool done; }; // before: set of operations that had returned when this one was called
static Map *m; LINMEM static Op ops[MAXO]; LINMEM static u64 nops = 0, doneMask = 0, startedMask = 0;
static u64 runOp(Map *m, u64 kind, u64 k, u64 a, u64 b) {
    switch (kind) {
    case PUT: return m->put(k, a);
    case PUTABSENT: return m->putIfAbsent(k, a);
    case GET: return m->get(k);
    case CONTAINS: return m->containsKey(k);
    case REMOVE: return m->remove(k);
    case REMOVEV: return m->remove(k, a);
    case REPLACE: return m->replace(k, a, b);
    case INC: return m->update(k, R_ANY, Map::Table::increment);
    default: return m->update(k, a, addFn);
    }
}
static void perform(u64 i) { Op &o = ops[i]; o.before = doneMask; startedMask |= 1ull << i; o.res = runOp(m, o.kind, o.key, o.a, o.b); doneMask |= 1ull << i; o.done = true; }
// Sequential specification, branch-free in the symbolic data: result and next state of the bound value of one key.
static u64 specRes(u64 kind, u64 cur, u64 a, u64 b) {
    switch (kind) { case CONTAINS: case REMOVE: return (u64)(cur != ABSENT); case REMOVEV: case REPLACE: return (u64)(cur == a); default: return cur; }
}
static u64 specNext(u64 kind, u64 cur, u64 a, u64 b) {
    u64 c0 = (u64)(cur == ABSENT);
    switch (kind) {
    case PUT: return a;
    case PUTABSENT: return cur == ABSENT ? a : cur;
    case REMOVE: return ABSENT;
    case REMOVEV: return cur == a ? ABSENT : cur;
    case REPLACE: return cur == a ? b : cur;
    case INC: return incOf(cur);
    case ADD: return (cur == ABSENT ? 0 : cur) + a;
    default: return cur;
    }
}
// Key slots of the specification: operations name keys by index into keys[]; the harness keeps distinct indices distinct.
LINMEM static u64 keys[8], nkeys = 0, opKey[MAXO], init[8], fin[8];
static int lin(u64 remaining, u64 *cur, u64 ok) { // is there an order of the remaining operations that explains results and final contents?
    if (!remaining) { for (u64 k = 0; k < nkeys; k++) ok &= (u64)(cur[k] == fin[k]); return ok; }
    u64 any = 0;
    for (u64 i = 0; i < nops; i++) {
        if (!((remaining >> i) & 1) || (ops[i].before & remaining)) continue;
        u64 k = opKey[i], save = cur[k]; u64 good = ok & (u64)(specRes(ops[i].kind, save, ops[i].a, ops[i].b) == ops[i].res);
        cur[k] = specNext(ops[i].kind, save, ops[i].a, ops[i].b); any |= lin(remaining & ~(1ull << i), cur, good); cur[k] = save;
    }
    return any;
}
static bool linearizable() { u64 cur[8]; for (u64 k = 0; k < nkeys; k++) cur[k] = init[k]; return lin((1ull << nops) - 1, cur, 1); }
