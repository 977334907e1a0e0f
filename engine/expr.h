// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum Kind : uint8_t { K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
    K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_NOT };

struct Expr {
    Kind k; uint8_t w; uint8_t lo; // lo: extract offset
    uint32_t id;
    const Expr *a, *b, *c;
    u128 v;            // const value / sym id
    u64 h;             // structural hash (stable between runs)
    u64 kz, ko;        // known zero / one bits (low 64)
    const std::vector<uint32_t> *syms; // sorted symbol ids
    bool mul;          // contains a multiplication
    mutable Z3_ast zbv[2], zbool[2]; // [1]: multiplication left uninterpreted
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mix64(u64 x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
static inline u64 hcomb(u64 a, u64 b) { return mix64(a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15); }

struct SymInfo { std::string name; unsigned w; };

struct ExprPool {
    struct KeyHash { size_t operator()(const Expr *e) const { return e->h; } };
    struct KeyEq { bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->lo == y->lo && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
    std::unordered_set<const Expr *, KeyHash, KeyEq> tab;
    std::vector<SymInfo> symtab;
    std::vector<Expr *> chunks; size_t used = 0; uint32_t nid = 0;
    std::unordered_map<std::string, const std::vector<uint32_t>*> symsets;
    const std::vector<uint32_t> *emptySyms = new std::vector<uint32_t>();

    Expr *alloc() { if (chunks.empty() || used == 4096) { chunks.push_back((Expr*)calloc(4096, sizeof(Expr))); used = 0; } return &chunks.back()[used++]; }
    const std::vector<uint32_t> *unite(const std::vector<uint32_t> *x, const std::vector<uint32_t> *y) {
        if (x == y || y->empty()) return x; if (x->empty()) return y;
        std::vector<uint32_t> r; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
        return internSyms(r);
    }
    const std::vector<uint32_t> *internSyms(const std::vector<uint32_t> &r) {
        std::string key((const char*)r.data(), r.size()*4);
        auto it = symsets.find(key); if (it != symsets.end()) return it->second;
        auto *p = new std::vector<uint32_t>(r); symsets[key] = p; return p;
    }
    const Expr *mk(Kind k, unsigned w, const Expr *a, const Expr *b = nullptr, const Expr *c = nullptr, u128 v = 0, unsigned lo = 0) {
        Expr t; memset((void*)&t, 0, sizeof t); t.k = k; t.w = w; t.lo = lo; t.a = a; t.b = b; t.c = c; t.v = v;
        u64 h = hcomb(k * 1000 + w, lo); h = hcomb(h, (u64)v); h = hcomb(h, (u64)(v >> 64));
        if (k == K_SYM) { h = hcomb(h, std::hash<std::string>()(symtab[(u64)v].name)); }
        if (a) h = hcomb(h, a->h); if (b) h = hcomb(h, b->h); if (c) h = hcomb(h, c->h);
        t.h = h;
        auto it = tab.find(&t); if (it != tab.end()) return *it;
        Expr *e = alloc(); *e = t; e->id = nid++;
        const std::vector<uint32_t> *s = emptySyms;
        if (k == K_SYM) s = internSyms({(uint32_t)v});
        if (a) s = unite(s, a->syms); if (b) s = unite(s, b->syms); if (c) s = unite(s, c->syms);
        e->syms = s;
        e->mul = k == K_MUL || (a && a->mul) || (b && b->mul) || (c && c->mul);
        known(e);
        tab.insert(e); return e;
    }
    static u64 m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
    void known(Expr *e) {
        u64 m = m64(e->w); e->kz = e->ko = 0;
        switch (e->k) {
        case K_CONST: e->ko = (u64)e->v & m; e->kz = ~(u64)e->v & m; break;
        case K_AND: e->kz = e->a->kz | e->b->kz; e->ko = e->a->ko & e->b->ko; break;
        case K_OR: e->ko = e->a->ko | e->b->ko; e->kz = e->a->kz & e->b->kz; break;
        case K_XOR: e->kz = (e->a->kz & e->b->kz) | (e->a->ko & e->b->ko); e->ko = (e->a->kz & e->b->ko) | (e->a->ko & e->b->kz); break;
        case K_NOT: e->kz = e->a->ko; e->ko = e->a->kz; break;
        case K_SHL: if (e->b->k == K_CONST && (u64)e->b->v < 64 && e->w <= 64) { unsigned s = (u64)e->b->v; e->kz = ((e->a->kz << s) | ((1ULL << s) - 1)) & m; e->ko = (e->a->ko << s) & m; } break;
        case K_LSHR: if (e->b->k == K_CONST && (u64)e->b->v < 64 && e->w <= 64) { unsigned s = (u64)e->b->v; e->kz = (e->a->kz >> s); if (s) e->kz |= m & ~(m >> s); e->ko = e->a->ko >> s; } break;
        case K_ZEXT: e->kz = e->a->kz; if (e->a->w < 64) e->kz |= m & ~m64(e->a->w); e->ko = e->a->ko; break;
        case K_SEXT: { u64 am = m64(e->a->w); u64 sb = e->a->w <= 64 ? 1ULL << (e->a->w - 1) : 0; e->kz = e->a->kz; e->ko = e->a->ko; if (sb) { if (e->a->kz & sb) e->kz |= m & ~am; if (e->a->ko & sb) e->ko |= m & ~am; } break; }
        case K_EXTRACT: if (e->lo < 64) { e->kz = (e->a->kz >> e->lo); e->ko = (e->a->ko >> e->lo); if (e->a->w > 64 && e->lo + e->w > 64) { u64 vm = m64(64 - e->lo); e->kz &= vm; e->ko &= vm; } e->kz &= m; e->ko &= m; } break;
        case K_CONCAT: { e->kz = e->b->kz; e->ko = e->b->ko; if (e->b->w < 64) { e->kz |= (e->a->kz << e->b->w) & m; e->ko |= (e->a->ko << e->b->w) & m; } break; }
        case K_ITE: e->kz = e->b->kz & e->c->kz; e->ko = e->b->ko & e->c->ko; break;
        case K_ADD: case K_SUB: { // low known-zero bits
            u64 lz = e->a->kz & e->b->kz; u64 t = ~lz; u64 low = t ? ((t & -t) - 1) : ~0ULL; e->kz = low & m; break; }
        case K_MUL: { u64 za = ~e->a->kz, zb = ~e->b->kz; int ta = za ? __builtin_ctzll(za) : 64, tb = zb ? __builtin_ctzll(zb) : 64; int t = ta + tb; e->kz = (t >= 64 ? ~0ULL : (1ULL << t) - 1) & m; break; }
        default: break;
        }
    }
    bool strong = false; // shifts and masks as pieces of their operand: for hashes, where the two sides of a query are the same computation written differently
    const Expr *cst(u128 v, unsigned w) { return mk(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
    std::unordered_map<std::string, const Expr *> symByName;
    const Expr *sym(const std::string &name, unsigned w) { auto &r = symByName[name + "/" + std::to_string(w)]; if (r) return r; symtab.push_back({name, w}); return r = mk(K_SYM, w, nullptr, nullptr, nullptr, symtab.size() - 1); }

    static __int128 sx(u128 v, unsigned w) { if (w < 128 && (v >> (w - 1)) & 1) v |= ~maskw(w); return (__int128)v; }
    static bool foldBin(Kind k, unsigned w, u128 a, u128 b, u128 &r) {
        u128 m = maskw(w);
        switch (k) {
        case K_ADD: r = (a + b) & m; return true; case K_SUB: r = (a - b) & m; return true; case K_MUL: r = (a * b) & m; return true;
        case K_UDIV: if (!b) { r = m; return true; } r = a / b; return true;
        case K_UREM: if (!b) { r = a; return true; } r = a % b; return true;
        case K_SDIV: if (!b) { r = sx(a, w) < 0 ? 1 : m; return true; } r = (u128)(sx(a, w) / sx(b, w)) & m; return true;
        case K_SREM: if (!b) { r = a; return true; } r = (u128)(sx(a, w) % sx(b, w)) & m; return true;
        case K_AND: r = a & b; return true; case K_OR: r = a | b; return true; case K_XOR: r = a ^ b; return true;
        case K_SHL: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
        case K_LSHR: r = b >= w ? 0 : a >> (unsigned)b; return true;
        case K_ASHR: { __int128 s = sx(a, w); r = (u128)(b >= w ? (s < 0 ? -1 : 0) : s >> (unsigned)b) & m; return true; }
        case K_EQ: r = a == b; return true; case K_ULT: r = a < b; return true; case K_ULE: r = a <= b; return true;
        case K_SLT: r = sx(a, w) < sx(b, w); return true; case K_SLE: r = sx(a, w) <= sx(b, w); return true;
        default: return false;
        }
    }
    const Expr *tru() { static const Expr *t = cst(1, 1); return t; }
    const Expr *fls() { static const Expr *t = cst(0, 1); return t; }
    const Expr *fromKnown(const Expr *e) {
        if (e->k != K_CONST && e->w <= 64 && (e->kz | e->ko) == m64(e->w)) return cst(e->ko, e->w);
        return e;
    }
    // Sums that contain products have a normal form: a sorted chain of the disjoint pieces of all addends, and one constant.
    void addends(const Expr *e, unsigned sh, unsigned w, std::vector<const Expr *> &out, u128 &c) {
        if (e->k == K_CONST) { c += e->v << sh; return; }
        if (e->k == K_ADD && sh == 0 && e->w == w) { addends(e->a, 0, w, out, c); addends(e->b, 0, w, out, c); return; }
        if (e->k == K_ZEXT) { addends(e->a, sh, w, out, c); return; }
        if (e->k == K_CONCAT && e->mul) { addends(e->b, sh, w, out, c); addends(e->a, sh + e->b->w, w, out, c); return; }
        out.push_back(zext(sh ? concat(e, cst(0, sh)) : e, w));
    }
    const Expr *sum(const Expr *a, const Expr *b) {
        unsigned w = a->w; std::vector<const Expr *> L; u128 c = 0; addends(a, 0, w, L, c); addends(b, 0, w, L, c); c &= maskw(w);
        std::sort(L.begin(), L.end(), [](const Expr *x, const Expr *y) { return x->id < y->id; });
        u64 seen = 0; bool disjoint = c == 0; for (auto *x : L) { u64 m = ~x->kz & m64(w); if (seen & m) disjoint = false; seen |= m; }
        if (L.empty()) return cst(c, w);
        const Expr *r = L[0]; for (size_t i = 1; i < L.size(); i++) r = disjoint ? bin(K_OR, r, L[i]) : mk(K_ADD, w, r, L[i]);
        return c ? fromKnown(mk(K_ADD, w, r, cst(c, w))) : fromKnown(r);
    }
    const Expr *bin(Kind k, const Expr *a, const Expr *b) {
        unsigned w = a->w; u128 r;
        bool cmp = k >= K_EQ && k <= K_SLE; unsigned rw = cmp ? 1 : w;
        if (a->k == K_CONST && b->k == K_CONST && foldBin(k, w, a->v, b->v, r)) return cst(r, rw);
        bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
        if (comm && (a->k == K_CONST || (b->k != K_CONST && a->id > b->id))) std::swap(a, b);
        bool bc = b->k == K_CONST; u128 bv = bc ? b->v : 0; u128 m = maskw(w);
        switch (k) {
        case K_ADD: if (bc && bv == 0) return a;
            if (a->k == K_SUB && a->a->k == K_CONST) return bin(K_SUB, bin(K_ADD, b, a->a), a->b);
            if (b->k == K_SUB && b->a->k == K_CONST) return bin(K_SUB, bin(K_ADD, a, b->a), b->b);
            if ((a->mul || b->mul) && w <= 64) return sum(a, b);
            if (bc && a->k == K_ADD && a->b->k == K_CONST) return bin(K_ADD, a->a, cst(a->b->v + bv, w));
            if (w <= 64 && ((~a->kz & ~b->kz) & m64(w)) == 0) return bin(K_OR, a, b);
            break;
        case K_SUB: if (a == b) return cst(0, w); if (bc) return bin(K_ADD, a, cst((u128)0 - bv, w)); if (b->k == K_SUB && b->a->k == K_CONST) return bin(K_ADD, bin(K_SUB, a, b->a), b->b); break;
        case K_MUL: if (bc && bv == 0) return b; if (bc && bv == 1) return a;
            if (bc && w <= 64 && (bv & (bv - 1)) == 0) return bin(K_SHL, a, cst(__builtin_ctzll((u64)bv), w));
            if (bc && w <= 64 && a->k == K_MUL && a->b->k == K_CONST) return bin(K_MUL, a->a, cst(a->b->v * bv, w));
            if (bc && w <= 64 && a->mul && a->k == K_ADD && a->b->k == K_CONST) return bin(K_ADD, bin(K_MUL, a->a, b), cst(a->b->v * bv, w));
            if (bc && w == 64 && a->mul && (bv >> 32) == 0 && (bv >> 16) && (~a->kz >> 32)) return bin(K_ADD, bin(K_MUL, zext(extract(a, 0, 32), 64), b), concat(bin(K_MUL, extract(a, 32, 32), cst(bv, 32)), cst(0, 32)));
            if (bc && w <= 64 && !(bv & 1)) { unsigned t = __builtin_ctzll((u64)bv); return concat(bin(K_MUL, extract(a, 0, w - t), cst(bv >> t, w - t)), cst(0, t)); }
            break;
        case K_UDIV: if (bc && bv == 1) return a; if (bc && w <= 64 && bv && (bv & (bv - 1)) == 0) return bin(K_LSHR, a, cst(__builtin_ctzll((u64)bv), w)); break;
        case K_UREM: if (bc && w <= 64 && bv && (bv & (bv - 1)) == 0) return bin(K_AND, a, cst(bv - 1, w)); break;
        case K_AND: if (a == b) return a;
            if (bc) { if (bv == 0) return b; if (bv == m) return a;
                if (strong && w <= 64 && (bv & (bv + 1)) == 0) { unsigned n = __builtin_ctzll(~(u64)bv); return zext(extract(a, 0, n), w); }
                if (a->k == K_AND && a->b->k == K_CONST) return bin(K_AND, a->a, cst(a->b->v & bv, w));
                if (w <= 64) { u64 live = m64(w) & ~a->kz; if ((live & ~(u64)bv) == 0) return a; if ((live & (u64)bv) == 0) return cst(0, w);
                    if (((u64)bv & ~(a->kz | a->ko)) == 0) return cst(a->ko & (u64)bv, w); }
                if (a->k == K_OR && a->b->k == K_CONST) { if ((a->b->v & bv) == 0) return bin(K_AND, a->a, b); return bin(K_OR, bin(K_AND, a->a, b), cst(a->b->v & bv, w)); }
                if (a->k == K_OR) return bin(K_OR, bin(K_AND, a->a, b), bin(K_AND, a->b, b));
                if (a->k == K_ITE && (a->b->k == K_CONST || a->c->k == K_CONST)) return ite(a->a, bin(K_AND, a->b, b), bin(K_AND, a->c, b));
            }
            break;
        case K_OR: if (a == b) return a;
            if (bc) { if (bv == 0) return a; if (bv == m) return b;
                if (a->k == K_OR && a->b->k == K_CONST) return bin(K_OR, a->a, cst(a->b->v | bv, w));
                if (w <= 64 && ((u64)bv & ~a->ko) == 0) return a;
                if (a->k == K_ITE && (a->b->k == K_CONST || a->c->k == K_CONST)) return ite(a->a, bin(K_OR, a->b, b), bin(K_OR, a->c, b)); }
            else for (int i = 0; i < 2; i++) { const Expr *x = i ? b : a, *y = i ? a : b; // pieces put together by shifts
                if (x->k == K_SHL && x->b->k == K_CONST && x->b->v && x->b->v < w && w <= 64 && ((~y->kz & m64(w)) >> (unsigned)x->b->v) == 0) { unsigned n = (unsigned)x->b->v; return concat(extract(x->a, 0, w - n), extract(y, 0, n)); }
                if (x->k == K_CONCAT && x->b->k == K_CONST && x->b->v == 0 && w <= 64 && ((~y->kz & m64(w)) >> x->b->w) == 0) return concat(x->a, extract(y, 0, x->b->w)); }
            break;
        case K_XOR: if (a == b) return cst(0, w); if (bc && bv == 0) return a; if (bc && bv == m) return not_(a);
            if (bc && a->k == K_XOR && a->b->k == K_CONST) return bin(K_XOR, a->a, cst(a->b->v ^ bv, w)); break;
        case K_SHL: case K_LSHR: case K_ASHR:
            if (bc && bv == 0) return a; if (a->k == K_CONST && a->v == 0) return a;
            if (bc && (a->mul || strong) && bv < w && k == K_SHL) return concat(extract(a, 0, w - (unsigned)bv), cst(0, (unsigned)bv));
            if (bc && (a->mul || strong) && bv < w && k == K_LSHR) return zext(extract(a, (unsigned)bv, w - (unsigned)bv), w);
            if (bc && bv >= w && k != K_ASHR) return cst(0, w);
            if (bc && a->k == k && a->b->k == K_CONST && k != K_ASHR) { u128 s = a->b->v + bv; if (s >= w) return cst(0, w); return bin(k, a->a, cst(s, w)); }
            if (bc && k == K_LSHR && a->k == K_SHL && a->b->k == K_CONST && a->b->v == bv) return bin(K_AND, a->a, cst(m >> (unsigned)bv, w));
            if (bc && k == K_SHL && a->k == K_LSHR && a->b->k == K_CONST && a->b->v == bv) return bin(K_AND, a->a, cst((m >> (unsigned)bv) << (unsigned)bv, w));
            if (bc && k == K_ASHR && w <= 64 && (a->kz >> (w - 1)) & 1) return bin(K_LSHR, a, b);
            break;
        case K_EQ:
            if (a == b) return tru();
            if (w <= 64 && ((a->kz & b->ko) | (a->ko & b->kz))) return fls();
            if (w == 1) { if (bc) return bv ? a : not_(a); }
            if (bc) {
                if (a->k == K_ADD && a->b->k == K_CONST) return bin(K_EQ, a->a, cst(bv - a->b->v, w));
                if (a->k == K_XOR && a->b->k == K_CONST) return bin(K_EQ, a->a, cst(bv ^ a->b->v, w));
                if (a->k == K_NOT) return bin(K_EQ, a->a, cst(~bv, w));
                if (a->k == K_ITE && (a->b->k == K_CONST || a->c->k == K_CONST)) return ite(a->a, bin(K_EQ, a->b, b), bin(K_EQ, a->c, b));
                if (a->k == K_ZEXT) { if (bv & ~maskw(a->a->w)) return fls(); return bin(K_EQ, a->a, cst(bv, a->a->w)); }
                if (a->k == K_SHL && a->b->k == K_CONST) { unsigned s = (unsigned)a->b->v; return bin(K_EQ, extract(a->a, 0, w - s), cst(bv >> s, w - s)); }
                if (a->k == K_CONCAT) return bin(K_AND, bin(K_EQ, a->b, cst(bv, a->b->w)), bin(K_EQ, a->a, cst(bv >> a->b->w, a->a->w)));
                if (a->k == K_OR && a->b->k == K_CONST && w <= 64) { // (x|c)==bv
                    if ((a->b->v & ~bv) != 0) return fls(); }
            } else {
                if (a->k == K_ADD && b->k == K_ADD && a->b->k == K_CONST && b->b->k == K_CONST && a->b == b->b) return bin(K_EQ, a->a, b->a);
                if (a->k == K_SHL && b->k == K_SHL && a->b == b->b && a->b->k == K_CONST) { unsigned s = (unsigned)a->b->v; return bin(K_EQ, extract(a->a, 0, w - s), extract(b->a, 0, w - s)); }
                if (a->k == K_OR && b->k == K_OR && a->b == b->b && a->b->k == K_CONST && w <= 64 && (a->b->v & ~(u128)(a->a->kz & b->a->kz)) == 0) return bin(K_EQ, a->a, b->a);
            }
            break;
        case K_ULT: case K_ULE: case K_SLT: case K_SLE:
            if (a == b) return (k == K_ULE || k == K_SLE) ? tru() : fls();
            if (w <= 64) {
                u64 amin = a->ko, amax = m64(w) & ~a->kz, bmin = b->ko, bmax = m64(w) & ~b->kz;
                if (k == K_SLT || k == K_SLE) { u64 sb = 1ULL << (w - 1); // only if sign bits known
                    if (((a->kz | a->ko) & sb) && ((b->kz | b->ko) & sb)) { bool an = a->ko & sb, bn = b->ko & sb; if (an != bn) return an ? tru() : fls(); return bin(k == K_SLT ? K_ULT : K_ULE, a, b); } }
                else if (k == K_ULT) { if (amax < bmin) return tru(); if (amin >= bmax) return fls(); }
                else { if (amax <= bmin) return tru(); if (amin > bmax) return fls(); }
            }
            if (k == K_ULT && bc && bv == 1) return bin(K_EQ, a, cst(0, w));
            break;
        default: break;
        }
        return fromKnown(mk(k, rw, a, b));
    }
    const Expr *not_(const Expr *a) {
        if (a->k == K_CONST) return cst(~a->v, a->w);
        if (a->k == K_NOT) return a->a;
        if (a->w == 1) {
            if (a->k == K_ULT) return bin(K_ULE, a->b, a->a); if (a->k == K_ULE) return bin(K_ULT, a->b, a->a);
            if (a->k == K_SLT) return bin(K_SLE, a->b, a->a); if (a->k == K_SLE) return bin(K_SLT, a->b, a->a);
        }
        return mk(K_NOT, a->w, a);
    }
    const Expr *ite(const Expr *c, const Expr *t, const Expr *f) {
        if (c->k == K_CONST) return c->v ? t : f;
        if (t == f) return t;
        if (c->k == K_NOT) return ite(c->a, f, t);
        if (t->w == 1) {
            if (t->k == K_CONST && f->k == K_CONST) return t->v ? c : not_(c);
            if (t->k == K_CONST) return t->v ? bin(K_OR, c, f) : bin(K_AND, not_(c), f);
            if (f->k == K_CONST) return f->v ? bin(K_OR, not_(c), t) : bin(K_AND, c, t);
        }
        if (t->k == K_ITE && t->a == c) t = t->b;
        if (f->k == K_ITE && f->a == c) f = f->c;
        return fromKnown(mk(K_ITE, t->w, c, t, f));
    }
    const Expr *zext(const Expr *a, unsigned w) { if (w == a->w) return a; if (a->k == K_CONST) return cst(a->v, w); if (a->k == K_ZEXT) return zext(a->a, w); return mk(K_ZEXT, w, a); }
    const Expr *sext(const Expr *a, unsigned w) { if (w == a->w) return a; if (a->k == K_CONST) return cst((u128)sx(a->v, a->w), w);
        if (a->w <= 64 && (a->kz >> (a->w - 1)) & 1) return zext(a, w); return mk(K_SEXT, w, a); }
    const Expr *extract(const Expr *a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        if (a->k == K_CONST) return cst(a->v >> lo, w);
        if (a->k == K_EXTRACT) return extract(a->a, a->lo + lo, w);
        if (a->k == K_CONCAT) { if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return extract(a->b, lo, w);
            return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo)); }
        if (a->k == K_ZEXT) { if (lo >= a->a->w) return cst(0, w); if (lo + w <= a->a->w) return extract(a->a, lo, w); return zext(extract(a->a, lo, a->a->w - lo), w); }
        if (a->k == K_SEXT && lo + w <= a->a->w) return extract(a->a, lo, w);
        if (a->k == K_AND || a->k == K_OR || a->k == K_XOR) return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
        if (a->k == K_NOT) return not_(extract(a->a, lo, w));
        if (a->k == K_SHL && a->b->k == K_CONST) { unsigned s = (unsigned)a->b->v; if (lo >= s) return extract(a->a, lo - s, w); if (lo + w <= s) return cst(0, w); }
        if (a->k == K_LSHR && a->b->k == K_CONST) { unsigned s = (unsigned)a->b->v; if (lo + s >= a->w) return cst(0, w); if (lo + s + w <= a->w) return extract(a->a, lo + s, w); }
        if (a->k == K_MUL && a->b->k == K_CONST && lo == 0) { const Expr *x = a->a; return bin(K_MUL, x->mul && x->k == K_ADD ? mk(K_EXTRACT, w, x, nullptr, nullptr, 0, 0) : extract(x, 0, w), cst(a->b->v, w)); } // one level: widths would multiply
        if ((a->k == K_ADD || a->k == K_SUB || a->k == K_MUL) && lo == 0 && !a->mul) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
        if (a->k == K_ITE && (a->b->k == K_CONST || a->c->k == K_CONST)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
        return fromKnown(mk(K_EXTRACT, w, a, nullptr, nullptr, 0, lo));
    }
    const Expr *concat(const Expr *hi, const Expr *lo) {
        unsigned w = hi->w + lo->w;
        if (hi->k == K_CONST && lo->k == K_CONST) return cst((hi->v << lo->w) | lo->v, w);
        if (hi->k == K_CONST && hi->v == 0) return zext(lo, w);
        if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, w);
        if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && hi->lo == lo->a->lo + lo->a->w) return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
        if (lo->k != K_CONCAT && hi->k == K_EXTRACT && hi->a == lo && hi->lo == lo->w) {}
        if (hi->k == K_EXTRACT && hi->lo == lo->w && lo->k != K_CONST) { if (extract(hi->a, 0, lo->w) == lo) return extract(hi->a, 0, w); }
        if (hi->k == K_ZEXT) return zext(concat(hi->a, lo), w);
        if (lo->k == K_CONCAT) return concat(concat(hi, lo->a), lo->b) ;
        return mk(K_CONCAT, w, hi, lo);
    }
};

struct Model { std::unordered_map<uint32_t, u128> m; u128 get(uint32_t s) const { auto i = m.find(s); return i == m.end() ? 0 : i->second; } };

struct Evaluator {
    const Model &md; std::unordered_map<const Expr*, u128> memo;
    Evaluator(const Model &m) : md(m) {}
    u128 ev(const Expr *e) {
        if (e->k == K_CONST) return e->v;
        if (e->k == K_SYM) return md.get((uint32_t)e->v) & maskw(e->w);
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        u128 r = 0;
        switch (e->k) {
        case K_ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
        case K_NOT: r = ~ev(e->a) & maskw(e->w); break;
        case K_ZEXT: r = ev(e->a); break;
        case K_SEXT: r = (u128)ExprPool::sx(ev(e->a), e->a->w) & maskw(e->w); break;
        case K_EXTRACT: r = (ev(e->a) >> e->lo) & maskw(e->w); break;
        case K_CONCAT: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        default: { u128 x = ev(e->a), y = ev(e->b); ExprPool::foldBin(e->k, e->a->w, x, y, r); }
        }
        memo[e] = r; return r;
    }
};
