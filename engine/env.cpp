// Environment stand-ins: an in-memory file system with a volatile mapping layer, and small C library pieces.
// Assumptions: file creation, resizing, renaming and removal are atomic and durable at once; a mapped file is
// persistent memory that becomes durable line by line (see the crash model of the engine).
#include "sym.h"
#include <sys/stat.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
extern "C" {
#define MAXF 24
struct VFile { char used; char name[96]; uint64_t size; void *data; };
GHOST VFile vf_files[MAXF] = {};
GHOST uint64_t vf_count = 0;
GHOST uint64_t vf_unlinks = 0;
GHOST uint64_t vf_reverse = 0;
GHOST uint64_t vf_clobbers = 0;   // complete files whose content was replaced
struct VFd { char used; int file; uint64_t pos; };
VFd vf_fds[32];
static int slen(const char *s) { int n = 0; while (s[n]) n++; return n; }
static bool seq(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static bool temporary(const char *n) { int i = slen(n); return !(i > 4 && n[i - 4] == '.' && n[i - 3] == 'd' && n[i - 2] == 'a' && n[i - 1] == 't'); } // not named like a table
int64_t vf_find(const char *name) { for (uint64_t i = 0; i < vf_count; i++) if (vf_files[i].used && seq(vf_files[i].name, name)) return i; return -1; }
uint64_t vf_nfiles() { return vf_count; }
bool vf_used(uint64_t i) { return vf_files[i].used; }
const char *vf_name(uint64_t i) { return vf_files[i].name; }
void *vf_data(uint64_t i) { return vf_files[i].data; }
uint64_t vf_size(uint64_t i) { return vf_files[i].size; }
static int vf_new(const char *name) {
    if (vf_count >= MAXF || slen(name) >= 95) { sym_fail("model limit: too many files"); return -1; }
    VFile &f = vf_files[vf_count]; f.used = 1; int i = 0; for (; name[i]; i++) f.name[i] = name[i]; f.name[i] = 0; f.size = 0; f.data = nullptr; return vf_count++;
}
void *vf_create(const char *name, uint64_t size) { int i = vf_new(name); vf_files[i].size = size; vf_files[i].data = sym_pmem_alloc(size, name); return vf_files[i].data; }
int vf_open(const char *name, int flags, ...) {
    int64_t f = vf_find(name);
    if (f < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } sym_crash_point(); f = vf_new(name); }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) { if (vf_files[f].size && !temporary(vf_files[f].name)) vf_clobbers++; vf_files[f].size = 0; vf_files[f].data = nullptr; }
    for (int i = 3; i < 32; i++) if (!vf_fds[i].used) { vf_fds[i].used = 1; vf_fds[i].file = f; vf_fds[i].pos = 0; return i; }
    sym_fail("model limit: file descriptors (leaked?)"); return -1;
}
int vf_open64(const char *name, int flags, ...) { return vf_open(name, flags); }
int vf_close(int fd) { if (fd < 0 || fd >= 32 || !vf_fds[fd].used) { errno = EBADF; return -1; } vf_fds[fd].used = 0; return 0; }
int vf_fstat(int fd, struct stat *st) { if (fd < 0 || fd >= 32 || !vf_fds[fd].used) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_size = vf_files[vf_fds[fd].file].size; st->st_mode = S_IFREG | 0600; return 0; }
int vf_stat(const char *n, struct stat *st) { int64_t f = vf_find(n); if (f < 0) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_size = vf_files[f].size; st->st_mode = S_IFREG | 0600; return 0; }
int vf_access(const char *n, int) { if (vf_find(n) < 0) { errno = ENOENT; return -1; } return 0; }
int vf_ftruncate(int fd, off_t len) {
    if (fd < 0 || fd >= 32 || !vf_fds[fd].used) { errno = EBADF; return -1; } VFile &f = vf_files[vf_fds[fd].file];
    if ((uint64_t)len == f.size) return 0; sym_crash_point();
    void *d = len ? sym_pmem_alloc(len, f.name) : nullptr; 
    if (f.data && len) { uint64_t n = f.size < (uint64_t)len ? f.size : len; memcpy(d, f.data, n); }
    f.data = d; f.size = len; return 0;
}
int vf_ftruncate64(int fd, off_t len) { return vf_ftruncate(fd, len); }
int vf_posix_fallocate(int fd, off_t off, off_t len) { if ((uint64_t)(off + len) > vf_files[vf_fds[fd].file].size) vf_ftruncate(fd, off + len); return 0; }
void *vf_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
    if (flags & MAP_ANONYMOUS) { return calloc(1, len); }
    if (fd < 0 || fd >= 32 || !vf_fds[fd].used || off != 0 || len == 0) { errno = EINVAL; return MAP_FAILED; }
    VFile &f = vf_files[vf_fds[fd].file]; if (!f.data) { errno = EINVAL; return MAP_FAILED; }
    if (!(flags & MAP_SHARED) && (flags & MAP_PRIVATE)) { void *p = malloc(f.size); sym_pmem_map(f.data, 1); memcpy(p, f.data, f.size); sym_pmem_map(f.data, -1); return p; } // a private copy: never durable
    sym_pmem_map(f.data, 1); return f.data;
}
void *vf_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off) { return vf_mmap(a, len, prot, flags, fd, off); }
int vf_munmap(void *p, size_t len) {
    for (uint64_t i = 0; i < vf_count; i++) if (vf_files[i].data == p && p) { if (!len || !sym_is_object(p)) { errno = EINVAL; return -1; } if (((len + 4095) & ~4095ull) < vf_files[i].size) return 0; sym_pmem_map(p, -1); return 0; }
    errno = EINVAL; return -1;
}
int vf_msync(void *, size_t, int) { return 0; }
int vf_fsync(int) { return 0; }
int vf_unlink(const char *n) { int64_t f = vf_find(n); if (f < 0) { errno = ENOENT; return -1; } sym_crash_point(); vf_files[f].used = 0; vf_unlinks++; return 0; }
int vf_remove(const char *n) { return vf_unlink(n); }
int vf_rename(const char *a, const char *b) { int64_t f = vf_find(a); if (f < 0) { errno = ENOENT; return -1; } sym_crash_point(); int64_t g = vf_find(b); if (g >= 0 && g != f) { vf_files[g].used = 0; if (!temporary(b)) vf_clobbers++; } int i = 0; for (; b[i]; i++) vf_files[f].name[i] = b[i]; vf_files[f].name[i] = 0; return 0; }
int vf_mkdir(const char *, mode_t) { return 0; }
#ifdef SYMBOLIC
int vf_errno_cell; int *vf___errno_location() { return &vf_errno_cell; }
char *vf_strerror(int) { return (char *)"error"; }
size_t vf_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int vf_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int vf_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *vf_strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *vf_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vf_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *vf_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *vf_strdup(const char *s) { size_t n = vf_strlen(s); char *d = (char *)malloc(n + 1); for (size_t i = 0; i <= n; i++) d[i] = s[i]; return d; }
int vf_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int vf_bcmp(const void *a, const void *b, size_t n) { return vf_memcmp(a, b, n); }
void *vf_memchr(const void *a, int c, size_t n) { const unsigned char *x = (const unsigned char *)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return nullptr; }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static long long conv(const char *s, char **end, int base, bool &range, bool uns) {
    const char *p = s; while (sp(*p)) p++; bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; const char *d = p; bool ov = false; unsigned long long lim = uns ? ~0ull : neg ? 1ull << 63 : (1ull << 63) - 1;
    for (;; p++) { int x = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99; if (x >= base) break; if (v > (lim - x) / base) ov = true; else v = v * base + x; }
    if (end) *end = (char *)(p == d ? s : p); range = ov; if (ov) { *vf___errno_location() = ERANGE; return lim; } return neg ? -v : v;
}
long long vf_strtoll(const char *s, char **e, int b) { bool r; return conv(s, e, b, r, false); }
long vf_strtol(const char *s, char **e, int b) { return vf_strtoll(s, e, b); }
unsigned long vf_strtoul(const char *s, char **e, int b) { bool r; return conv(s, e, b, r, true); }
unsigned long long vf_strtoull(const char *s, char **e, int b) { return vf_strtoul(s, e, b); }
long vf___isoc23_strtol(const char *s, char **e, int b) { return vf_strtoll(s, e, b); }
long long vf___isoc23_strtoll(const char *s, char **e, int b) { return vf_strtoll(s, e, b); }
unsigned long vf___isoc23_strtoul(const char *s, char **e, int b) { return vf_strtoul(s, e, b); }
unsigned long long vf___isoc23_strtoull(const char *s, char **e, int b) { return vf_strtoul(s, e, b); }
int vf_atoi(const char *s) { return (int)vf_strtoll(s, nullptr, 10); }
long vf_atol(const char *s) { return vf_strtoll(s, nullptr, 10); }
#endif
}
#ifdef SYMBOLIC
#include <stdexcept>
#include <new>
namespace std {
void __throw_out_of_range(const char *m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char *m, ...) { throw out_of_range(m); }
void __throw_length_error(const char *m) { throw length_error(m); }
void __throw_logic_error(const char *m) { throw logic_error(m); }
void __throw_invalid_argument(const char *m) { throw invalid_argument(m); }
void __throw_runtime_error(const char *m) { throw runtime_error(m); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_cast() { throw runtime_error("bad cast"); }
void __throw_system_error(int) { throw runtime_error("system error"); }
void __throw_bad_function_call() { throw runtime_error("bad function call"); }
}
#endif
