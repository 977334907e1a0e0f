// Runtime of the native replay: follows the schedule, the inputs and the crash point of one explored path.
#include <algorithm>
#include <array>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <cerrno>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
typedef uint64_t u64;
extern "C" void harness(); extern "C" __attribute__((weak)) void vf_on_exit(int); extern "C" void *__cxa_allocate_exception(size_t) noexcept;
extern "C" __attribute__((weak)) char __start_ghost[]; extern "C" __attribute__((weak)) char __stop_ghost[];
extern "C" __attribute__((weak)) void __asan_poison_memory_region(void const volatile *, size_t);
static int outFd = 2;
static void say(const char *k, const char *a = "", const char *b = "") { std::string s = std::string(k) + " " + a + (*b ? ": " : "") + b + "\n"; (void)!write(outFd, s.data(), s.size()); }
[[noreturn]] static void fail(const char *kind, const char *msg) { say("VIOLATION", kind, msg); _exit(42); }
[[noreturn]] static void diverged(const char *msg) { say("DIVERGED", msg); _exit(43); }
struct Seg { int tid; u64 n; bool crash; };
static std::vector<Seg> segs; static std::atomic<int> cur{0}; static std::map<std::string, u64> inputs, config; static std::map<u64, std::map<unsigned, u64>> uninit;
static std::vector<u64> crashAt; static std::vector<std::pair<u64, u64>> picks; static std::string traceFile, stateFile, self; static std::vector<u64> expectVis; static u64 expectEvents = ~0ull;
static std::map<std::string, int> symCount; static u64 events = 0; static bool crashOn = false; static void (*recoverFn)() = nullptr; static size_t crashNo = 0, maxCrash = 1;
struct Pm { u64 eaddr, size; char *p; int64_t mapped; std::map<unsigned, std::pair<u64, std::vector<std::string>>> lines; };
static std::map<u64, Pm> pms; static const u64 PMBASE = 0x200000000000ull; // native address = PMBASE + engine address
static Pm *pmOf(const void *q) { u64 a = (u64)q; if (a < PMBASE || a >= PMBASE + (1ull << 46)) return nullptr; auto it = pms.find((a - PMBASE) & ~0xffffffull); return it == pms.end() ? nullptr : &it->second; }
struct Th { int tid = 0; u64 nvis = 0, heap = 0; bool done = false; void (*fn)(void *) = nullptr; void *arg = nullptr; pthread_t pt; std::vector<std::array<u64, 3>> pend; };
static Th ths[64]; static int nth = 1; static thread_local Th *me = &ths[0];
static bool last() { return cur.load() + 1 >= (int)segs.size(); }
static void futexWait(int v) { syscall(SYS_futex, (int *)&cur, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futexWake() { syscall(SYS_futex, (int *)&cur, FUTEX_WAKE, 1000, nullptr, nullptr, 0); }
static void waitBaton() { while (true) { int c = cur.load(); if (segs[c].tid == me->tid) return; futexWait(c); } }
static void advance() { cur.fetch_add(1); futexWake(); }
extern "C" void vfr_pre() {
    if (segs.empty()) return;
    while (!last() && segs[cur.load()].tid == me->tid && segs[cur.load()].n == me->nvis && !segs[cur.load()].crash) { advance(); waitBaton(); }
    if (!last() && me->nvis > segs[cur.load()].n) diverged("a thread ran past its scheduled switch");
    if (last() && me->nvis > segs.back().n + 3000000) fail("nontermination", "the operation does not end");
}
extern "C" void vfr_post() { me->nvis++; }
// ---- persistent memory
static void doCrash();
static bool armed = true;
static void event() { if (!crashOn || !armed) return; events++; if (crashNo < crashAt.size() && events == crashAt[crashNo]) doCrash(); }
static std::string lineOf(Pm *o, unsigned l) { std::string s(64, 0); for (unsigned i = 0; i < 64 && l * 64 + i < o->size; i++) s[i] = o->p[l * 64 + i]; return s; }
static void before(Pm *o, const void *q, u64 n) { u64 off = (char *)q - o->p; for (u64 l = off >> 6; l <= (off + n - 1) >> 6; l++) o->lines[l].second.push_back(lineOf(o, l)); }
extern "C" void vfr_pmstore(void *q, u64 n) { if (!crashOn || !n) return; Pm *o = pmOf(q); if (!o) return; event(); if (o->mapped > 0) before(o, q, n); }
extern "C" void vfr_pmcas(void *q, u64 e, u64 n) { if (!crashOn) return; Pm *o = pmOf(q); if (!o) return; event(); u64 v = 0; memcpy(&v, q, n); if (v == e) before(o, q, n); }
extern "C" void vfr_flush(void *q) { if (!crashOn) return; Pm *o = pmOf(q); if (!o) return; unsigned l = ((char *)q - o->p) >> 6; auto it = o->lines.find(l); if (it == o->lines.end()) return; u64 idx = it->second.first + it->second.second.size();
    for (auto &p : me->pend) if (p[0] == o->eaddr && p[1] == l) { p[2] = idx; return; } me->pend.push_back({o->eaddr, l, idx}); }
extern "C" void vfr_fence() { vfr_pre(); for (auto &p : me->pend) { Pm *o = &pms[p[0]]; auto it = o->lines.find(p[1]); if (it == o->lines.end() || p[2] <= it->second.first) continue; auto &v = it->second.second; u64 k = p[2] - it->second.first; v.erase(v.begin(), v.begin() + std::min<u64>(k, v.size())); it->second.first = p[2]; } me->pend.clear(); vfr_post(); }
static void protect(Pm *o) { mprotect(o->p, (o->size + 4095) & ~4095ull, o->mapped > 0 ? PROT_READ | PROT_WRITE : PROT_NONE); }
static Pm *mkpm(u64 ea, u64 size, int64_t mapped) {
    Pm &o = pms[ea]; o.eaddr = ea; o.size = size; o.mapped = 1; o.p = (char *)mmap((void *)(PMBASE + ea), (size + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (o.p == MAP_FAILED) diverged("cannot map persistent memory"); if (__asan_poison_memory_region && (size & 4095)) __asan_poison_memory_region(o.p + size, 4096 - (size & 4095)); return &o;
}
extern "C" void *sym_pmem_alloc(u64 size, const char *) { u64 ea = (u64)(8 + 2 * me->tid) << 40 | ++me->heap << 24; Pm *o = mkpm(ea, size, 0); o->mapped = 0; protect(o); return o->p; }
extern "C" u64 sym_pmem_map(void *p, int64_t d) { Pm *o = pmOf(p); if (!o) diverged("sym_pmem_map"); o->mapped += d; protect(o); return o->mapped; }
extern "C" bool sym_is_object(const void *p) { Pm *o = pmOf(p); return o && o->mapped > 0; }
extern "C" bool sym_pmem_dirty(const void *q, u64 n) { Pm *o = pmOf(q); if (!o) return false; u64 off = (char *)q - o->p; for (u64 l = off >> 6; l <= (off + n - 1) >> 6; l++) { auto it = o->lines.find(l); if (it != o->lines.end() && !it->second.second.empty()) return true; } return false; }
extern "C" void sym_crash_on(void (*f)()) { crashOn = true; recoverFn = f; }
extern "C" void sym_crash_point() { event(); }
extern "C" void sym_crash_arm(bool on) { armed = on; }
static void doCrash() {
    for (auto &x : pms) { Pm &o = x.second; o.mapped = 1; protect(&o); for (auto &l : o.lines) { u64 key = o.eaddr + l.first * 64 + crashNo + 1; for (size_t i = 0; i < picks.size(); i++) if (picks[i].first == key) { u64 k = picks[i].second; picks.erase(picks.begin() + i); if (k < l.second.second.size()) for (unsigned b = 0; b < 64 && l.first * 64 + b < o.size; b++) o.p[l.first * 64 + b] = l.second.second[k][b]; break; } } o.lines.clear(); }
    std::string f = traceFile + ".state"; FILE *o = fopen(f.c_str(), "wb"); auto w = [&](u64 v) { fwrite(&v, 8, 1, o); };
    w(crashNo + 1); w(nth); w(events); w(cur.load() + 1); w((u64)recoverFn); for (int i = 0; i < nth; i++) w(ths[i].nvis); w(symCount.size()); for (auto &x : symCount) { w(x.first.size()); fwrite(x.first.data(), x.first.size(), 1, o); w(x.second); }
    w(picks.size()); for (auto &x : picks) { w(x.first); w(x.second); } w(pms.size()); for (auto &x : pms) { w(x.first); w(x.second.size); fwrite(x.second.p, x.second.size, 1, o); }
    u64 g = __start_ghost ? __stop_ghost - __start_ghost : 0; w(g); if (g) fwrite(__start_ghost, g, 1, o); fclose(o); say("CRASH");
    std::string fd = std::to_string(outFd); execl("/proc/self/exe", self.c_str(), traceFile.c_str(), fd.c_str(), f.c_str(), (char *)nullptr); diverged("exec failed");
}
static void restore(const std::string &f) {
    FILE *i = fopen(f.c_str(), "rb"); auto r = [&]() { u64 v = 0; if (fread(&v, 8, 1, i) != 1) diverged("state file"); return v; };
    crashNo = r(); nth = r(); events = r(); cur = r(); recoverFn = (void (*)())r(); for (int k = 0; k < nth; k++) { ths[k].nvis = r(); ths[k].done = true; ths[k].tid = k; } u64 n = r(); while (n--) { std::string s(r(), 0); (void)!fread(&s[0], s.size(), 1, i); symCount[s] = r(); }
    picks.clear(); n = r(); while (n--) { u64 a = r(), b = r(); picks.push_back({a, b}); } n = r(); while (n--) { u64 ea = r(), sz = r(); Pm *o = mkpm(ea, sz, 0); (void)!fread(o->p, sz, 1, i); o->mapped = 0; protect(o); }
    u64 g = r(); if (g) (void)!fread(__start_ghost, g, 1, i); fclose(i); unlink(f.c_str());
    ths[nth].tid = nth; me = &ths[nth]; nth++; crashOn = crashNo < maxCrash;
}
// ---- inputs
static u64 in(const char *name) { int &c = symCount[name]; std::string f = c++ ? std::string(name) + "#" + std::to_string(c) : name; auto it = inputs.find(f); return it == inputs.end() ? 0 : it->second; }
extern "C" u64 sym_u64(const char *n) { return in(n); }
extern "C" uint32_t sym_u32(const char *n) { return in(n); }
extern "C" uint8_t sym_u8(const char *n) { return in(n); }
extern "C" u64 sym_range(const char *n, u64 lo, u64 hi) { u64 v = in(n); if (v < lo || v > hi) diverged("input out of range"); return v; }
extern "C" u64 sym_pick(const char *n, u64 k) { u64 v = in(n); if (v >= k) diverged("choice out of range"); return v; }
extern "C" void sym_bytes(void *p, const char *n, u64 k) { for (u64 i = 0; i < k; i++) { std::string f = std::string(n) + "[" + std::to_string(i) + "]"; auto it = inputs.find(f); ((uint8_t *)p)[i] = it == inputs.end() ? 0 : it->second; } }
extern "C" u64 sym_concretize(u64 v) { return v; }
extern "C" u64 sym_identity(u64 v) { return v; }
extern "C" u64 sym_config(const char *n, u64 d) { auto it = config.find(n); return it == config.end() ? d : it->second; }
extern "C" void sym_assume(bool c) { if (!c) diverged("an assumption of the harness fails"); }
extern "C" void sym_assert(bool c, const char *m) { if (!c) fail("assert", m); }
extern "C" void sym_fail(const char *m) { fail("assert", m); }
extern "C" void sym_cover(const char *n) { say("COVER", n); }
extern "C" void sym_dump(const char *n, u64 v) { char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)v); say("DUMP", n, b); }
extern "C" void sym_sched(bool) {}
extern "C" u64 sym_tid() { return me->tid; }
// ---- threads
static void ended() { me->done = true; if (segs.empty()) return; if (last()) { return; } if (segs[cur.load()].tid != me->tid || segs[cur.load()].n != me->nvis) diverged("a thread ended at another point than expected"); advance(); }
static void *tramp(void *a) { me = (Th *)a; if (!segs.empty()) waitBaton(); me->fn(me->arg); ended(); return nullptr; }
extern "C" u64 sym_spawn(void (*f)(void *), void *a) { Th *t = &ths[nth]; t->tid = nth; t->fn = f; t->arg = a; me->nvis++; nth++; if (pthread_create(&t->pt, nullptr, tramp, t)) diverged("pthread_create"); return t->tid; }
extern "C" void sym_join() {
    vfr_pre(); if (!segs.empty()) for (int i = 0; i < nth; i++) if (&ths[i] != me && !ths[i].done) { if (last()) fail("deadlock", "a thread never ends"); diverged("join before the threads ended"); }
    for (int i = 0; i < nth; i++) if (&ths[i] != me && ths[i].pt) { pthread_join(ths[i].pt, nullptr); ths[i].pt = 0; } me->nvis++;
}
extern "C" void sym_yield() { vfr_pre(); me->nvis++; }
extern "C" int vfr_mlock(pthread_mutex_t *m) { vfr_pre(); if (segs.empty()) return pthread_mutex_lock(m); if (pthread_mutex_trylock(m)) { if (last()) fail("deadlock", "a mutex is never released"); diverged("mutex taken"); } me->nvis++; return 0; }
extern "C" int vfr_mtrylock(pthread_mutex_t *m) { vfr_pre(); int r = pthread_mutex_trylock(m); me->nvis++; return r; }
extern "C" int vfr_munlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); me->nvis++; return r; }
// ---- memory and exits
static void *alloc(u64 n, bool zero, u64 al = 64) { if (al < 64) al = 64; void *p = nullptr; u64 ea = (u64)(8 + 2 * me->tid) << 16 | ++me->heap; if (posix_memalign(&p, al, n)) return nullptr; memset(p, zero ? 0 : 0xa5, n); if (!zero) { auto it = uninit.find(ea); if (it != uninit.end()) for (auto &c : it->second) for (int b = 0; b < 8; b++) if (c.first * 8ull + b < n) ((uint8_t *)p)[c.first * 8 + b] = c.second >> (8 * b); } return p; }
extern "C" void *vfr_malloc(u64 n) { return alloc(n, false); }
extern "C" void *vfr_calloc(u64 a, u64 b) { return alloc(a * b, true); }
extern "C" void *vfr_realloc(void *p, u64 n) { ++me->heap; return realloc(p, n); }
extern "C" void *vfr_aligned(u64 al, u64 n) { return alloc(n, false, al); }
extern "C" int vfr_posix_memalign(void **p, u64 al, u64 n) { *p = alloc(n, false, al); return 0; }
extern "C" void vfr_free(void *p) { free(p); }
extern "C" void *vfr_exc_alloc(size_t n) { ++me->heap; return __cxa_allocate_exception(n); }
extern "C" void vfr_abort() { fail("abort", "abort called"); }
extern "C" void vfr_assertfail(const char *e, const char *, unsigned, const char *) { fail("assertion", e); }
static void endRun() {
    std::string v; for (int i = 0; i < nth; i++) v += " " + std::to_string(ths[i].nvis); say("END", ("vis" + v + " events " + std::to_string(events)).c_str()); _exit(0);
}
extern "C" void vfr_exit(int c) { static bool once = false; if (vf_on_exit && !once) { once = true; vf_on_exit(c); } endRun(); }
static void onSig(int s) { if (s == SIGALRM) fail("nontermination", "time limit"); char b[16]; snprintf(b, sizeof b, "%d", s); fail("memory", (std::string("signal ") + b).c_str()); }
static void load(const char *f) {
    FILE *i = fopen(f, "r"); if (!i) diverged("trace file"); char k[32], n[4096]; unsigned long long a, b, c;
    while (fscanf(i, "%31s", k) == 1) { std::string s = k;
        if (s == "input" && fscanf(i, " %llx %4095[^\n]", &a, n) == 2) { inputs[n] = a; if (sscanf(n, "uninit_%llx_%llu", &b, &c) == 2) uninit[b][c] = a; } else if (s == "config" && fscanf(i, " %4095s %llx", n, &a) == 2) config[n] = a; else if (s == "sched" && fscanf(i, " %llu %llu", &a, &b) == 2) segs.push_back({(int)(a % 1000), b, a >= 1000});
        else if (s == "maxcrash" && fscanf(i, " %llu", &a) == 1) maxCrash = a; else if (s == "crash" && fscanf(i, " %llu", &a) == 1) crashAt.push_back(a); else if (s == "pick" && fscanf(i, " %llx %llx", &a, &b) == 2) picks.push_back({a, b}); }
    fclose(i);
}
int main(int argc, char **argv) {
    self = argv[0]; traceFile = argv[1]; outFd = atoi(argv[2]); load(argv[1]); if (argc > 3) restore(argv[3]);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(s, onSig); alarm(60); std::set_terminate([] { fail("exception", "std::terminate called"); });
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    if (argc > 3) recoverFn(); else harness();
    ended(); endRun();
}
