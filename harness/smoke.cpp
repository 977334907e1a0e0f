#include "sym.h"
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include "containers/cliffMap/hashMap.hpp"
typedef ConcurrentHashMap<size_t,size_t> Map;
extern "C" void harness() {
    Map &m = *new Map("/mnt/pmem/pm1/tables/", 8, false);
    size_t k = sym_u64("k") << 3, v = sym_u64("v") << 3, k2 = sym_u64("k2") << 3;
    sym_assume(!Map::isKeyReserved(k) && !Map::isValueReserved(v));
    sym_assume(!Map::isKeyReserved(k2));
    size_t r = m.put(k, v);
    sym_assert(r == Map::VINITIAL, "fresh put");
    sym_assert(m.get(k) == v, "get after put");
    sym_assert(m.get(k2) == (k2 == k ? v : Map::VINITIAL), "get other");
    sym_assert(m.size() == 1, "size");
    bool b = m.remove(k2);
    sym_assert(b == (k2 == k), "remove result");
    sym_cover("end");
}
