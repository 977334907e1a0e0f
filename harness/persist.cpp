// Range persist: every alignment and length within the buffer (C14).
#include "map.h"
static void rec() {}
extern "C" void harness() {
    u64 lines = sym_config("lines", 6); char *b = (char *)vf_create("/range", lines * 64); sym_pmem_map(b, 1); u64 off = sym_pick("offset", 128), len = sym_range("len", 0, lines * 64 - off), how = sym_pick("how", 2);
    sym_crash_on(rec); for (u64 i = 0; i < lines * 8; i++) ((u64 *)b)[i] = i + 1;
    if (how == 0) PERSIST(b + off, len); else { PERSIST_FLUSH_ONLY(b + off, len); PERSIST_BARRIER_ONLY(); }
    for (u64 l = 0; l < lines; l++) { bool clean = !sym_pmem_dirty(b + l * 64, 64); bool in = (u64)(l * 64 < off + len) & (u64)(l * 64 + 64 > off) & (u64)(len > 0);
        if (clean) sym_assert(in | (u64)(len == 0 && l == off / 64), "no line outside of the range is touched"); else sym_assert(!in, "every line of the range is durable when the call returns"); }
    sym_cover("end");
}
