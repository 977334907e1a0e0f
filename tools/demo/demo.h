// Support for the demonstrations: every atomic operation of the code under test is a point where another
// operation can run to completion (a stalled thread), and table files go to a scratch directory.
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <immintrin.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
static std::string scratch;
static std::string redirect(const char *p) { static const std::string pre = "/mnt/pmem/pm1/tables/"; std::string s = p; return s.rfind(pre, 0) == 0 ? scratch + "/" + s.substr(pre.size()) : s; }
extern "C" int open(const char *p, int fl, ...) { mode_t m = 0600; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return syscall(SYS_openat, AT_FDCWD, redirect(p).c_str(), fl, m); }
extern "C" int open64(const char *p, int fl, ...) { mode_t m = 0600; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return syscall(SYS_openat, AT_FDCWD, redirect(p).c_str(), fl, m); }
extern "C" int rename(const char *a, const char *b) { return syscall(SYS_renameat2, AT_FDCWD, redirect(a).c_str(), AT_FDCWD, redirect(b).c_str(), 0); }
extern "C" int unlink(const char *p) { return syscall(SYS_unlinkat, AT_FDCWD, redirect(p).c_str(), 0); }
extern "C" int remove(const char *p) { return syscall(SYS_unlinkat, AT_FDCWD, redirect(p).c_str(), 0) && errno == EISDIR ? rmdir(p) : 0; }
#ifdef HOOKED
static bool hkOn = false; static long hkCount = 0, hkAt = -1; static std::function<void()> hkRun;
static void hkPoint() { if (!hkOn) return; if (++hkCount == hkAt) { hkOn = false; hkRun(); hkOn = true; } }
template <class T> using real_atomic = std::atomic<T>;
namespace std {
template <class T> struct hk_atomic {
    real_atomic<T> v;
    hk_atomic() = default; constexpr hk_atomic(T x) : v(x) {} hk_atomic(const hk_atomic &) = delete;
    T load(memory_order = memory_order_seq_cst) const { hkPoint(); return v.load(); }
    void store(T x, memory_order = memory_order_seq_cst) { hkPoint(); v.store(x); }
    T exchange(T x, memory_order = memory_order_seq_cst) { hkPoint(); return v.exchange(x); }
    bool compare_exchange_strong(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { hkPoint(); return v.compare_exchange_strong(e, d); }
    bool compare_exchange_weak(T &e, T d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) { hkPoint(); return v.compare_exchange_strong(e, d); }
    T fetch_add(T x, memory_order = memory_order_seq_cst) { hkPoint(); return v.fetch_add(x); }
    T fetch_sub(T x, memory_order = memory_order_seq_cst) { hkPoint(); return v.fetch_sub(x); }
    T fetch_and(T x, memory_order = memory_order_seq_cst) { hkPoint(); return v.fetch_and(x); }
    T fetch_or(T x, memory_order = memory_order_seq_cst) { hkPoint(); return v.fetch_or(x); }
    T operator++(int) { return fetch_add(1); } T operator++() { return fetch_add(1) + 1; }
    operator T() const { return load(); } T operator=(T x) { store(x); return x; }
};
}
#define atomic hk_atomic
#endif
// Runs f in a child process; false if it failed, crashed or hung.
static bool child(const std::function<bool()> &f, int secs = 10) {
    fflush(stdout); fflush(stderr); pid_t p = fork();
    if (!p) { alarm(secs); scratch += "/" + std::to_string(getpid()); mkdir(scratch.c_str(), 0700); bool r = f(); fflush(stdout); _exit(r ? 0 : 9); }
    int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) printf("signal %d\n", WTERMSIG(st)); return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void begin() { char b[] = "/tmp/demoXXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); exit(2); } scratch = b; }
static int finish(bool ok) { std::filesystem::remove_all(scratch); printf(ok ? "holds\n" : "BROKEN\n"); return ok ? 0 : 1; }
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\n", #c, __LINE__); return false; } } while (0)
#ifdef CRASHES
// A crash: what was not flushed and fenced may be lost, cache line by cache line.  The mapped files of a process are rewritten
// with what survived, and the process ends.
struct CrRegion { char *p; size_t n; std::vector<char> durable; };
static std::vector<CrRegion> crRegions; static std::vector<char *> crFlushed;
static long *const seen = (long *)syscall(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);  // what survives for the checking process
extern "C" void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    void *p = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if (p != MAP_FAILED && fd >= 0 && (fl & MAP_SHARED)) crRegions.push_back({(char *)p, n, std::vector<char>((char *)p, (char *)p + n)});
    return p;
}
extern "C" int munmap(void *p, size_t n) { for (auto &r : crRegions) if (r.p == p) { r = crRegions.back(); crRegions.pop_back(); break; } return syscall(SYS_munmap, p, n); }
#ifndef HOOKED
static void hkPoint() {}
#endif
static void crFlush(const void *p) { hkPoint(); crFlushed.push_back((char *)((uintptr_t)p & ~63ul)); }
static void crFence() { hkPoint(); for (char *l : crFlushed) for (auto &r : crRegions) if (l >= r.p && l < r.p + r.n) memcpy(&r.durable[l - r.p], l, std::min<size_t>(64, r.p + r.n - l)); crFlushed.clear(); }
static void crCrash(int mode) {  // 0: all pending lines lost, 1: none, 2/3: even/odd ones
    for (auto &r : crRegions) for (size_t i = 0; i < r.n; i += 64) if (mode == 0 || (mode == 2 && i / 64 % 2 == 0) || (mode == 3 && i / 64 % 2)) memcpy(r.p + i, &r.durable[i], std::min<size_t>(64, r.n - i));
    _exit(0);
}
#define _mm_clflush(p) crFlush(p)
#define _mm_sfence() crFence()
// Runs f with a crash at its at-th atomic operation (a crash at its end if there are fewer), then check in a new process.
static bool crashRun(long at, int mode, const std::function<void()> &f, const std::function<bool()> &check, const std::function<void()> &between = nullptr, long at2 = 0, int mode2 = 0) {
    static int n = 0; std::string old = scratch; scratch += "/run" + std::to_string(n++); mkdir(scratch.c_str(), 0700); memset(seen, 0, 4096); bool r = true;
    auto part = [&](const std::function<void()> &g, long a, int m) {
        pid_t p = fork(); if (!p) { alarm(10); hkCount = 0; hkAt = a; hkRun = [m] { crCrash(m); }; g(); hkOn = false; crCrash(m); }
        int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("failed before the crash %d at %ld, %x\n", m, a, st); r = false; } };
    part(f, at, mode); if (r && between) part(between, at2, mode2);
    if (r) { pid_t p = fork(); if (!p) { alarm(10); bool ok = check(); fflush(stdout); _exit(ok ? 0 : 9); }
        int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("crash %d at %ld: %s %d\n", mode, at, WIFSIGNALED(st) ? "signal" : "check failed", WTERMSIG(st)); r = false; } }
    std::filesystem::remove_all(scratch); scratch = old; return r;
}
#endif
