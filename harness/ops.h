// One operation of the map, executed and compared with the reference map.
#pragma once
#include "map.h"
enum { PUT, PUTABSENT, GET, CONTAINS, REMOVE, REMOVEV, REPLACE, INC, ADD, NOPS };
static Map *m; static Ref ref; static u64 wantRes = 1;
#define RES(c, msg) do { if (wantRes) sym_assert(c, msg); } while (0)
static void doOp(u64 op, u64 k, u64 res = 1) {
    wantRes = res;
    u64 cur = ref.get(k);
    switch (op) {
    case PUT: { u64 v = symVal("v"); u64 r = m->put(k, v); RES(r == cur, "put returns the previous value"); ref.set(k, v); break; }
    case PUTABSENT: { u64 v = symVal("v"); u64 r = m->putIfAbsent(k, v); RES(r == cur, "putIfAbsent returns the previous value"); ref.set(k, cur == ABSENT ? v : cur); break; }
    case GET: { u64 r = m->get(k); RES(r == cur, "get returns the bound value"); break; }
    case CONTAINS: { bool r = m->containsKey(k); RES(r == (cur != ABSENT), "containsKey tells whether the key is bound"); break; }
    case REMOVE: { bool r = m->remove(k); RES(r == (cur != ABSENT), "remove tells whether the key was bound"); ref.set(k, ABSENT); break; }
    case REMOVEV: { u64 v = symVal("old"); bool r = m->remove(k, v); RES(r == (cur == v), "remove with value tells whether that binding was there"); ref.set(k, cur == v ? ABSENT : cur); break; }
    case REPLACE: { u64 o = symVal("old"), v = symVal("v"); bool r = m->replace(k, o, v); RES(r == (cur == o), "replace tells whether the old value was bound"); ref.set(k, cur == o ? v : cur); break; }
    case INC: { sym_assume(incOf(cur) < R_NOOLD); u64 r = m->update(k, R_ANY, Map::Table::increment); RES(r == cur, "update(increment) returns the previous value"); ref.set(k, incOf(cur)); break; }
    case ADD: { u64 v = symVal("v"); u64 nv = (cur == ABSENT ? 0 : cur) + v; sym_assume(nv < R_NOOLD && nv >= v); u64 r = m->update(k, v, addFn); RES(r == cur, "update(function) returns the previous value"); ref.set(k, nv); break; }
    }
}
