// The container adapters behind the common interface (containers/container.hpp).
#pragma once
#include "map.h"
#ifdef STL
#include "rbtree.h"
#include "stlMap.hpp"
typedef stl::container_type Cont;
#else
#include "ucfMap.hpp"
typedef ucf::container_type Cont;
#endif
TestOptions::TestOptions() { numthreads = 2; numops = 1; numruns = 1; capacity = 3; filename = "/mnt/pmem/pm1/persist"; recover = false; wipeFile = false; }
enum { INSERT, ERASE, CONTAINS, GET, INCREMENT, COUNT, NKINDS };
static u64 call(Container *c, u64 kind, u64 el) {
    switch (kind) { case INSERT: return c->insert(el); case ERASE: return c->erase(el); case CONTAINS: return c->contains(el); case GET: return c->get(el); case INCREMENT: return c->increment(el); default: return c->count(); }
}
static u64 symEl(const char *n) { u64 e = sym_u64(n); sym_assume(e < (1ull << 60)); return e; } // fits the lock-free map, also after some increments
