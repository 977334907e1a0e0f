// State shared by the worker processes of one exploration: the visited set and the work-splitting counters.
#pragma once
#include <atomic>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <cstdio>
#include <cstdlib>
struct Shared {
    struct Hdr { std::atomic<int> active, stop, viols; std::atomic<unsigned long long> entries, full; } *h = nullptr;
    std::atomic<unsigned long long> *tab = nullptr; unsigned long long mask = 0;
    void init(unsigned bits) {
        void *p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } h = new (p) Hdr(); h->active = 1;
        mask = (1ull << bits) - 1; p = mmap(nullptr, 8ull << bits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } tab = (std::atomic<unsigned long long> *)p;
        p = mmap(nullptr, 8ull << UB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } un = (std::atomic<unsigned long long> *)p;
    }
    // Queries already found unsatisfiable, by structural hash.
    std::atomic<unsigned long long> *un = nullptr; static const unsigned UB = 22;
    bool unsatKnown(unsigned long long k) { for (int i = 0; i < 16; i++) { unsigned long long v = un[(k + i) & ((1u << UB) - 1)].load(std::memory_order_relaxed); if (v == k) return true; if (!v) return false; } return false; }
    void addUnsat(unsigned long long k) { for (int i = 0; i < 16; i++) { unsigned long long v = 0; if (un[(k + i) & ((1u << UB) - 1)].compare_exchange_strong(v, k) || v == k) return; } }
    // True if the state was explored already with at most this many preemptions used; records it otherwise.
    bool seen(unsigned long long hash, unsigned pre) {
        unsigned long long tag = hash & ~0xffull; if (!tag) tag = 0x100; unsigned long long i = (hash * 0x9e3779b97f4a7c15ull) >> 20;
        for (int k = 0; k < 64; k++) {
            auto &e = tab[(i + k) & mask]; unsigned long long v = e.load(std::memory_order_relaxed);
            while (true) {
                if (v == 0) { if (e.compare_exchange_strong(v, tag | (pre + 1))) { h->entries.fetch_add(1, std::memory_order_relaxed); return false; } continue; }
                if ((v & ~0xffull) != tag) break;
                if ((v & 0xff) <= pre + 1) return true;
                if (e.compare_exchange_strong(v, tag | (pre + 1))) return false;
            }
        }
        h->full.fetch_add(1, std::memory_order_relaxed); return false; // no room: explore again, which is only slower
    }
};
