// Hashing: streaming against one-shot hashing (STREAM), one-shot hashing against the published algorithm (SPEC), 128-bit values (ORDER).
#include "sym.h"
#include <array>
#include <cstring>
#include <string>
#include <vector>
#include "hash.hpp"
static void same(xxh::hash128_t a, xxh::hash128_t b, const char *m) { sym_assert(a.low64 == b.low64 && a.high64 == b.high64, m); }
static void same(uint32_t a, uint32_t b, const char *m) { sym_assert(a == b, m); }
static void same(uint64_t a, uint64_t b, const char *m) { sym_assert(a == b, m); }
static uint8_t data[2048 + 136];
#ifdef STREAM
#if STREAM == 32
typedef xxh::hash_state_t<32> State; typedef uint32_t Seed; static auto whole(const void *p, size_t n, Seed s) { return xxh::xxhash<32>(p, n, s); }
#elif STREAM == 64
typedef xxh::hash_state_t<64> State; typedef uint64_t Seed; static auto whole(const void *p, size_t n, Seed s) { return xxh::xxhash<64>(p, n, s); }
#elif STREAM == 364
typedef xxh::hash3_state_t<64> State; typedef uint64_t Seed; static auto whole(const void *p, size_t n, Seed s) { return xxh::xxhash3<64>(p, n, s); }
#else
typedef xxh::hash3_state_t<128> State; typedef uint64_t Seed; static auto whole(const void *p, size_t n, Seed s) { return xxh::xxhash3<128>(p, n, s); }
#endif
static State st, st2;
static const uint64_t lens[] = {0, 1, 63, 64, 65, 240, 241, 255, 256, 257, 300, 512, 1000, 1024, 1060};
void harness() {
    uint64_t pieces = sym_config("pieces", 2), max = sym_config("max", 40), set = sym_config("set", 0), zero = sym_config("zeroseed", 0), pos = 0;
    Seed seed = zero ? 0 : (Seed)sym_u64("seed"); if (!zero) sym_assume(seed != 0);
    if (sym_pick("reused", 2)) { st.update(data, 5); st.reset(seed); } else new (&st) State(seed);
    for (uint64_t i = 0; i < pieces; i++) {
        uint64_t n = set ? lens[sym_pick("length", set)] : sym_pick("length", max + 1); if (pos + n > sizeof data) { sym_cover("long"); return; }
        sym_bytes(data + pos, "byte", n);
        if (sym_config("copy", 0) && i + 1 == pieces) { static State fresh; State *d = &st2; if (sym_pick("constructed", 2)) d = new (&fresh) State(st); else st2 = st; st.update(data, 3); d->update(data + pos, n); pos += n; same(d->digest(), whole(data, pos, seed), "a copy of a streaming hasher gives another digest than one-shot hashing"); sym_cover("end"); return; }
        st.update(data + pos, n); pos += n;
        same(st.digest(), whole(data, pos, seed), "the digest of a stream differs from the hash of the whole input");
    }
    same(st.digest(), whole(data, pos, seed), "asking for the digest changed it"); sym_cover("end");
}
#endif
#ifdef SPEC
// The xxHash specification (doc/xxhash_spec.md), written over bytes.
template <class W> struct X {
    static constexpr bool L = sizeof(W) == 8; static constexpr W P(int i) { return L ? (W[]){(W)0x9E3779B185EBCA87ull, (W)0xC2B2AE3D27D4EB4Full, (W)0x165667B19E3779F9ull, (W)0x85EBCA77C2B2AE63ull, (W)0x27D4EB2F165667C5ull}[i - 1] : (W[]){(W)0x9E3779B1u, (W)0x85EBCA77u, (W)0xC2B2AE3Du, (W)0x27D4EB2Fu, (W)0x165667B1u}[i - 1]; }
    static W rot(W x, int r) { return (x << r) | (x >> (sizeof(W) * 8 - r)); }
    template <class T> static T rd(const uint8_t *p) { T v = 0; for (unsigned i = 0; i < sizeof(T); i++) v |= (T)p[i] << (8 * i); return v; }
    static W round(W acc, W lane) { acc = acc + lane * P(2); return rot(acc, L ? 31 : 13) * P(1); }
    static W hash(const uint8_t *p, uint64_t len, W seed) {
        uint64_t stripe = 4 * sizeof(W), left = len; W acc;
        if (len < stripe) acc = seed + P(5);
        else {
            W a[4] = {(W)(seed + P(1) + P(2)), (W)(seed + P(2)), seed, (W)(seed - P(1))};
            for (; left >= stripe; left -= stripe) for (int i = 0; i < 4; i++, p += sizeof(W)) a[i] = round(a[i], rd<W>(p));
            acc = rot(a[0], 1) + rot(a[1], 7) + rot(a[2], 12) + rot(a[3], 18);
            if (L) for (int i = 0; i < 4; i++) acc = (acc ^ round(0, a[i])) * P(1) + P(4);
        }
        acc += (W)len;
        if (L) {
            for (; left >= 8; left -= 8, p += 8) acc = rot(acc ^ round(0, rd<uint64_t>(p)), 27) * P(1) + P(4);
            if (left >= 4) { acc = rot(acc ^ (W)rd<uint32_t>(p) * P(1), 23) * P(2) + P(3); left -= 4; p += 4; }
            for (; left; left--, p++) acc = rot(acc ^ (W)*p * P(5), 11) * P(1);
            acc ^= acc >> 33; acc *= P(2); acc ^= acc >> 29; acc *= P(3); acc ^= acc >> 32;
        } else {
            for (; left >= 4; left -= 4, p += 4) acc = rot(acc + (W)rd<uint32_t>(p) * P(3), 17) * P(4);
            for (; left; left--, p++) acc = rot(acc + (W)*p * P(5), 11) * P(1);
            acc ^= acc >> 15; acc *= P(2); acc ^= acc >> 13; acc *= P(3); acc ^= acc >> 16;
        }
        return acc;
    }
};
template <int B, class W> static void one() {
    static uint8_t copy[1024]; const char *m = "the hash of an input differs from the published algorithm";
    uint64_t n = sym_pick("length", sym_config("max", 40) + 1), off = sym_config("align", 0) ? sym_pick("alignment", 8) : 0; W seed = sizeof(W) == 8 ? (W)sym_u64("seed") : (W)sym_u32("seed");
    uint8_t *p = data + 64 - (uintptr_t)data % 64 + off; sym_bytes(p, "byte", n); memcpy(copy, p, n); W want = X<W>::hash(copy, n, seed);
    same((W)xxh::xxhash<B>(p, n, seed), want, m);
    switch (sym_config("forms", 0) ? sym_pick("form", 6) : 9) {
    case 0: same((W)xxh::xxhash<B>(std::string((char *)p, n), seed), want, m); break;
    case 1: same((W)xxh::xxhash<B>(std::vector<uint8_t>(p, p + n), seed), want, m); break;
    case 2: { std::vector<uint64_t> v(n / 8); memcpy(v.data(), p, n / 8 * 8); same((W)xxh::xxhash<B>(v, seed), X<W>::hash(copy, n / 8 * 8, seed), m); break; }
    case 3: { std::array<uint32_t, 5> a; if (n < 20) break; memcpy(a.data(), p, 20); same((W)xxh::xxhash<B>(a, seed), X<W>::hash(copy, 20, seed), m); break; }
    case 4: { if (n < 8) break; std::vector<uint32_t> v(n / 4); memcpy(v.data(), p, n / 4 * 4); same((W)xxh::xxhash<B>(v.begin(), v.end(), seed), X<W>::hash(copy, n / 4 * 4, seed), m); break; }
    case 5: { if (n < 2) break; same((W)xxh::xxhash<B>({p[0], p[1]}, seed), X<W>::hash(copy, 2, seed), m); break; }
    default: break; }
    xxh::canonical_t<B> c(want); for (unsigned i = 0; i < sizeof(W); i++) sym_assert(c.digest[i] == (uint8_t)(want >> (8 * (sizeof(W) - 1 - i))), "the canonical form is not big-endian");
    same((W)c.get_hash(), want, "the canonical form does not convert back");
}
void harness() {
    if (SPEC == 32) one<32, uint32_t>(); else one<64, uint64_t>();
    uint64_t key = sym_u64("key"); sym_assert(xxhash<uint64_t>()(key) == X<uint64_t>::hash((const uint8_t *)&key, 8, 0), "the hash function for keys differs from the published algorithm"); sym_assert(NaiveHash<uint64_t>()(key) == key, "the naive hash is not the key");
    sym_cover("end");
}
#endif
#ifdef SPEC3
// XXH3 as of xxHash 0.7, written over bytes for one lane at a time.
typedef unsigned __int128 u128; typedef uint64_t u64;
namespace x3 {
static const uint8_t secret[193] =
    "\xb8\xfe\x6c\x39\x23\xa4\x4b\xbe\x7c\x01\x81\x2c\xf7\x21\xad\x1c\xde\xd4\x6d\xe9\x83\x90\x97\xdb\x72\x40\xa4\xa4\xb7\xb3\x67\x1f\xcb\x79\xe6\x4e\xcc\xc0\xe5\x78\x82\x5a\xd0\x7d\xcc\xff\x72\x21\xb8\x08\x46\x74\xf7\x43\x24\x8e\xe0\x35\x90\xe6\x81\x3a\x26\x4c\x3c\x28\x52\xbb\x91\xc3\x00\xcb\x88\xd0\x65\x8b\x1b\x53\x2e\xa3\x71\x64\x48\x97\xa2\x0d\xf9\x4e\x38\x19\xef\x46\xa9\xde\xac\xd8\xa8\xfa\x76\x3f\xe3\x9c\x34\x3f\xf9\xdc\xbb\xc7\xc7\x0b\x4f\x1d\x8a\x51\xe0\x4b\xcd\xb4\x59\x31\xc8\x9f\x7e\xc9\xd9\x78\x73\x64\xea\xc5\xac\x83\x34\xd3\xeb\xc3\xc5\x81\xa0\xff\xfa\x13\x63\xeb\x17\x0d\xdd\x51\xb7\xf0\xda\x49\xd3\x16\x55\x26\x29\xd4\x68\x9e\x2b\x16\xbe\x58\x7d\x47\xa1\xfc\x8f\xf8\xb8\xd1\x7a\xd0\x31\xce\x45\xcb\x3a\x8f\x95\x16\x04\x28\xaf\xd7\xfb\xca\xbb\x4b\x40\x7e";
static const u64 P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull, P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull, M = 0x9FB21C651E98DF25ull;
static const u64 Q1 = 0x9E3779B1u, Q2 = 0x85EBCA77u, Q3 = 0xC2B2AE3Du;
static u64 rd(const uint8_t *p, int n = 8) { u64 v = 0; for (int i = 0; i < n; i++) v |= (u64)p[i] << (8 * i); return v; }
static u64 swp(u64 x, int n = 8) { u64 v = 0; for (int i = 0; i < n; i++) v |= (x >> (8 * i) & 255) << (8 * (n - 1 - i)); return v; }
static u64 rot(u64 x, int r) { return x << r | x >> (64 - r); }
static u64 ava(u64 h) { h ^= h >> 37; h *= 0x165667919E3779F9ull; return h ^ h >> 32; }
static u64 fold(u64 a, u64 b) { u128 p = (u128)a * b; return (u64)p ^ (u64)(p >> 64); }
static u64 mix16(const uint8_t *p, const uint8_t *s, u64 seed) { return fold(rd(p) ^ (rd(s) + seed), rd(p + 8) ^ (rd(s + 8) - seed)); }
struct H { u64 lo, hi; };
static void mix32(H &a, const uint8_t *p, const uint8_t *q, const uint8_t *s, u64 seed) { a.lo = (a.lo + mix16(p, s, seed)) ^ (rd(q) + rd(q + 8)); a.hi = (a.hi + mix16(q, s + 16, seed)) ^ (rd(p) + rd(p + 8)); }
static H fin(H a, u64 n, u64 seed) { return {ava(a.lo + a.hi), 0 - ava(a.lo * P1 + a.hi * P4 + (n - seed) * P2)}; }
static H shortHash(const uint8_t *p, u64 n, u64 seed, bool wide, const uint8_t *s) {  // up to 240 bytes
    if (n == 0) return wide ? H{ava((P1 + seed) ^ rd(s + 64) ^ rd(s + 72)), ava((P2 - seed) ^ rd(s + 80) ^ rd(s + 88))} : H{ava((P1 + seed) ^ rd(s + 56) ^ rd(s + 64)), 0};
    if (n < 4) {
        uint32_t c = (uint32_t)p[0] << 16 | (uint32_t)p[n / 2] << 24 | p[n - 1] | (uint32_t)n << 8, d = (uint32_t)swp(c, 4); d = d << 13 | d >> 19;
        return {ava((c ^ ((rd(s, 4) ^ rd(s + 4, 4)) + seed)) * P1), wide ? ava((d ^ ((rd(s + 8, 4) ^ rd(s + 12, 4)) - seed)) * P5) : 0};
    }
    if (n <= 8) {
        u64 t = seed ^ swp((uint32_t)seed, 4) << 32, a = rd(p, 4), b = rd(p + n - 4, 4);
        if (!wide) { u64 x = (b + (a << 32)) ^ ((rd(s + 8) ^ rd(s + 16)) - t); x ^= rot(x, 49) ^ rot(x, 24); x *= M; x ^= (x >> 35) + n; x *= M; return {x ^ x >> 28, 0}; }
        u128 m = (u128)((a + (b << 32)) ^ ((rd(s + 16) ^ rd(s + 24)) + t)) * (P1 + (n << 2)); u64 lo = (u64)m, hi = (u64)(m >> 64);
        hi += lo << 1; lo ^= hi >> 3; lo ^= lo >> 35; lo *= M; lo ^= lo >> 28; return {lo, ava(hi)};
    }
    if (n <= 16) {
        u64 a = rd(p), b = rd(p + n - 8);
        if (!wide) { a ^= (rd(s + 24) ^ rd(s + 32)) + seed; b ^= (rd(s + 40) ^ rd(s + 48)) - seed; return {ava(n + swp(a) + b + fold(a, b)), 0}; }
        u128 m = (u128)(a ^ b ^ ((rd(s + 32) ^ rd(s + 40)) - seed)) * P1; u64 lo = (u64)m, hi = (u64)(m >> 64);
        lo += (n - 1) << 54; b ^= (rd(s + 48) ^ rd(s + 56)) + seed; hi += b + (u64)(uint32_t)b * (Q2 - 1); lo ^= swp(hi);
        m = (u128)lo * P2; return {ava((u64)m), ava((u64)(m >> 64) + hi * P2)};
    }
    H a = {n * P1, 0};
    if (n <= 128) {
        for (int i = ((int)n - 1) / 32; i >= 0; i--) { const uint8_t *q = p + n - 16 - 16 * i; if (wide) mix32(a, p + 16 * i, q, s + 32 * i, seed); else { a.lo += mix16(p + 16 * i, s + 32 * i, seed); a.lo += mix16(q, s + 32 * i + 16, seed); } }
        return wide ? fin(a, n, seed) : H{ava(a.lo), 0};
    }
    if (!wide) {
        for (u64 i = 0; i < n / 16; i++) { if (i == 8) a.lo = ava(a.lo); a.lo += mix16(p + 16 * i, i < 8 ? s + 16 * i : s + 16 * (i - 8) + 3, seed); }
        if (n / 16 == 8) a.lo = ava(a.lo);
        return {ava(a.lo + mix16(p + n - 16, s + 136 - 17, seed)), 0};
    }
    for (u64 i = 0; i < n / 32; i++) { if (i == 4) a = {ava(a.lo), ava(a.hi)}; mix32(a, p + 32 * i, p + 32 * i + 16, i < 4 ? s + 32 * i : s + 32 * (i - 4) + 3, seed); }
    if (n / 32 == 4) a = {ava(a.lo), ava(a.hi)};
    mix32(a, p + n - 16, p + n - 32, s + 136 - 17 - 16, 0 - seed); return fin(a, n, seed);
}
static void stripe(u64 *acc, const uint8_t *p, const uint8_t *s, bool wide) { for (int i = 0; i < 8; i++) { u64 v = rd(p + 8 * i), k = v ^ rd(s + 8 * i); acc[wide ? i ^ 1 : i] += v; acc[i] += (k & 0xffffffff) * (k >> 32); } }
static u64 merge(const u64 *acc, const uint8_t *s, u64 start) { for (int i = 0; i < 4; i++) start += fold(acc[2 * i] ^ rd(s + 16 * i), acc[2 * i + 1] ^ rd(s + 16 * i + 8)); return ava(start); }
static H longHash(const uint8_t *p, u64 n, bool wide, const uint8_t *s, u64 ss) {
    u64 acc[8] = {Q3, P1, P2, P3, P4, Q2, P5, Q1}, per = (ss - 64) / 8;
    for (u64 i = 0; i < n / 64; i++) { stripe(acc, p + 64 * i, s + i % per * 8, wide); if (i % per == per - 1) for (int j = 0; j < 8; j++) acc[j] = (acc[j] ^ acc[j] >> 47 ^ rd(s + ss - 64 + 8 * j)) * Q1; }
    if (n % 64) stripe(acc, p + n - 64, s + ss - 64 - 7, wide);
    return {merge(acc, s + 11, n * P1), wide ? merge(acc, s + ss - 64 - 11, ~(n * P2)) : 0};
}
static H hash(const uint8_t *p, u64 n, u64 seed, bool wide) {
    if (n <= 240) return shortHash(p, n, seed, wide, secret);
    static uint8_t own[192]; for (int i = 0; i < 24; i++) { u64 v = rd(secret + 8 * i) + (i % 2 ? 0 - seed : seed); for (int j = 0; j < 8; j++) own[8 * i + j] = v >> (8 * j); }
    return longHash(p, n, wide, own, 192);
}
}
#ifdef SYMBOLIC
void harness() {
    static uint8_t copy[2048], sec[200]; uint8_t *p = data + 64 - (uintptr_t)data % 64 + (sym_config("align", 0) ? sym_pick("alignment", 8) : 0); const char *m = "the XXH3 hash of an input differs from the algorithm";
    uint64_t n = sym_config("from", 0) + sym_pick("length", sym_config("lengths", 300)) * sym_config("step", 1); sym_bytes(p, "byte", n); memcpy(copy, p, n);
    if (sym_config("own", 0)) {  // a secret given by the caller
        u64 ss = 136 + 8 * sym_pick("secret length", 8); sym_bytes(sec, "secret", ss);
        x3::H a = n <= 240 ? x3::shortHash(copy, n, 0, false, sec) : x3::longHash(copy, n, false, sec, ss), b = n <= 240 ? x3::shortHash(copy, n, 0, true, sec) : x3::longHash(copy, n, true, sec, ss);
        same(xxh::xxhash3<64>(p, n, sec, ss), a.lo, m); same(xxh::xxhash3<128>(p, n, sec, ss), xxh::hash128_t(b.lo, b.hi), m);
    } else {
        u64 seed = 0; if (sym_pick("seeded", 2)) { seed = sym_u64("seed"); sym_assume(seed != 0); } x3::H a = x3::hash(copy, n, seed, false), b = x3::hash(copy, n, seed, true);
        same(xxh::xxhash3<64>(p, n, seed), a.lo, m); same(xxh::xxhash3<128>(p, n, seed), xxh::hash128_t(b.lo, b.hi), m);
    }
    sym_cover("end");
}
#endif
#endif
#ifdef XXH3ALIGN
// xxhash3: the same value for every alignment and way of passing the input, and the canonical form of 128-bit values.
void harness() {
    static uint8_t copy[2048] __attribute__((aligned(64))); static const uint64_t lens[] = {0, 1, 3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 96, 97, 128, 129, 160, 240, 241, 256, 300, 1024, 1030};
    uint64_t n = lens[sym_pick("length", sizeof lens / 8)], off = sym_pick("alignment", 8), seed = sym_pick("seeded", 2) ? sym_u64("seed") : 0; uint8_t *p = data + 64 - (uintptr_t)data % 64 + off;
    sym_bytes(copy, "byte", n); memcpy(p, copy, n); const char *m = "the hash of an input depends on where or how it is passed";
    same(xxh::xxhash3<64>(p, n, seed), xxh::xxhash3<64>(copy, n, seed), m); same(xxh::xxhash3<128>(p, n, seed), xxh::xxhash3<128>(copy, n, seed), m);
    if (!off) { std::vector<uint8_t> v(p, p + n); std::string s((char *)p, n); same(xxh::xxhash3<64>(v, seed), xxh::xxhash3<64>(copy, n, seed), m); same(xxh::xxhash3<128>(s, seed), xxh::xxhash3<128>(copy, n, seed), m); }
    xxh::hash128_t h(sym_u64("low"), sym_u64("high")); xxh::canonical_t<128> c(h); for (int i = 0; i < 8; i++) sym_assert(c.digest[i] == (uint8_t)(h.high64 >> (56 - 8 * i)) && c.digest[8 + i] == (uint8_t)(h.low64 >> (56 - 8 * i)), "the canonical form is not big-endian");
    same(c.get_hash(), h, "the canonical form does not convert back"); sym_cover("end");
}
#endif
#ifdef ORDER
void harness() {
    uint64_t al = sym_u64("alow"), ah = sym_u64("ahigh"), bl = sym_u64("blow"), bh = sym_u64("bhigh"); xxh::hash128_t a(al, ah), b(bl, bh);
    unsigned __int128 x = (unsigned __int128)ah << 64 | al, y = (unsigned __int128)bh << 64 | bl; const char *m = "comparing 128-bit hashes disagrees with comparing them as numbers";
    sym_assert((a == b) == (x == y), m); sym_assert((a != b) == (x != y), m); sym_assert((a > b) == (x > y), m); sym_assert((a >= b) == (x >= y), m); sym_assert((a < b) == (x < y), m); sym_assert((a <= b) == (x <= y), m); sym_cover("end");
}
#endif
