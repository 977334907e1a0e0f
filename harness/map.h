// Shared pieces of the harnesses for the lock-free map: a collision-controlling hash, usable symbolic keys and values,
// and a branch-free reference map.
#pragma once
#include "sym.h"
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include "cliffMap/hashMap.hpp"
typedef uint64_t u64;
// The hash only decides home slots: with k >> 3 the harness chooses collisions through the key itself.
struct HomeHash { size_t operator()(size_t k) const { return k >> 3; } };
// Home slot taken from the high bits, so that table growth never separates colliding keys.
struct HighHash { size_t operator()(size_t k) const { return k >> 3; } };
#ifdef STDHASH
typedef ConcurrentHashMap<size_t, size_t> Map;
#else
typedef ConcurrentHashMap<size_t, size_t, HomeHash> Map;
#endif
#define DIR "/mnt/pmem/pm1/tables/"
static const u64 TOP = ~0ull << 3;                           // the largest word with clear mark bits
// The documented reserved words (containers/cliffMap/hashMap.hpp): the five largest unmarked words.
static const u64 R_INIT = TOP, R_TOMB = TOP - 8, R_ANY = TOP - 16, R_NOOLD = TOP - 24;
static const u64 ABSENT = R_INIT;                            // what operations return for "no binding"
static Map *newMap(u64 len) { return new Map(DIR, len, false); }
static Map *recoverMap(u64 len) { return new Map(DIR, len, true); }
// A usable key whose home slot (in tables of up to 16 slots: low 4 bits of k >> 3) is the given one; 64 = any.
static u64 symKey(const char *n, u64 home = 64, u64 bits = 3) {
    u64 k = sym_u64(n) << 3; sym_assume(!Map::isKeyReserved(k)); sym_assume(k < R_TOMB);
    if (home < 64) sym_assume(((k >> 3) & ((1ull << bits) - 1)) == home); return k;
}
static u64 smallVals = 0; // 1: values below 2^35 (keeps sums of several values apart from the reserved words)
static u64 symVal(const char *n) { if (smallVals) return (u64)sym_u32(n) << 3; u64 v = sym_u64(n) << 3; sym_assume(v < R_NOOLD); sym_assume(!Map::isValueReserved(v)); return v; }
// Reference map: the log of effective writes; a lookup takes the last one for the key.
struct Ref {
    u64 k[40], v[40]; int n = 0;
    u64 get(u64 key) const { u64 r = ABSENT; for (int i = 0; i < n; i++) r = (k[i] == key) ? v[i] : r; return r; }
    void set(u64 key, u64 val) { k[n] = key; v[n] = val; n++; }
    // number of bindings: last writes (per key) that are not removals
    u64 size() const { u64 c = 0; for (int i = 0; i < n; i++) { u64 last = 1; for (int j = i + 1; j < n; j++) last &= (u64)(k[j] != k[i]); c += last & (u64)(v[i] != ABSENT); } return c; }
};
// The increment every user of the map supplies (values are kept shifted by the mark bits).
static u64 incOf(u64 old) { return (((old == ABSENT ? 0 : old) >> 3) + 1) << 3; }
// A caller-supplied update function that uses both the current value and the argument: new = (old or 0) + arg.
static size_t addFn(Map::Table *table, size_t idx, size_t oldValue, size_t newValue) {
    size_t expected = oldValue; size_t base = (oldValue == R_INIT || oldValue == R_TOMB) ? 0 : oldValue;
    pcas<size_t>(&table->pairs[idx].value, expected, base + newValue); return expected;
}
