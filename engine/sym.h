// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint8_t sym_u8(const char *name);
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi); // inclusive, stays symbolic
uint64_t sym_pick(const char *name, uint64_t n);                // one of 0..n-1, explored separately
void sym_bytes(void *p, const char *name, uint64_t n);
uint64_t sym_concretize(uint64_t v);
uint64_t sym_config(const char *name, uint64_t dflt);           // bound chosen on the command line
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_fail(const char *msg);
void sym_cover(const char *name);                               // reachability witness
uint64_t sym_spawn(void (*fn)(void *), void *arg);
void sym_join();
void sym_yield();
uint64_t sym_tid();
void sym_sched(bool on);
void *sym_pmem_alloc(uint64_t size, const char *name);          // survives crashes, line by line
uint64_t sym_pmem_map(void *p, int64_t delta);
bool sym_pmem_dirty(const void *p, uint64_t n);                 // could a crash still lose a store to the range?
void sym_crash_on(void (*recover)());
void sym_crash_point();
void sym_crash_arm(bool on);                                    // crashes happen only while armed (the default); stores are tracked anyway
bool sym_is_object(const void *p);
void sym_dump(const char *name, uint64_t v);
void harness();
// In-memory file system (env.cpp)
uint64_t vf_nfiles(); const char *vf_name(uint64_t i); void *vf_data(uint64_t i); uint64_t vf_size(uint64_t i); void *vf_create(const char *name, uint64_t size); int64_t vf_find(const char *name); bool vf_used(uint64_t i);
int vf_unlink(const char *); extern uint64_t vf_reverse; // list directories backwards
extern uint64_t vf_unlinks, vf_clobbers;
#ifdef __cplusplus
}
#endif
#define GHOST __attribute__((section("ghost")))
