// Z3 wrapper: satisfiability of conjunctions of width-1 expressions, with slicing and caching.
#pragma once
#include "expr.h"
#include <chrono>
#include <memory>
#include <cstring>
#include <fstream>
#include <unistd.h>
#include <map>
#include "shared.h"

struct Solver {
    ExprPool &P; Shared *SH = nullptr;
    Z3_context ctx; Z3_solver sol = nullptr; Z3_sort boolSort;
    std::vector<Z3_sort> bvs = std::vector<Z3_sort>(129, nullptr);
    unsigned timeoutMs = 120000; bool uf = false; std::map<unsigned, Z3_func_decl> ufs;
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double secs = 0, maxSecs = 0;
    struct Res { int r; std::vector<std::pair<uint32_t, u128>> m; };
    std::unordered_map<std::string, Res> cache;
    Solver(ExprPool &p) : P(p) {
        Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); ctx = Z3_mk_context(c); Z3_del_config(c);
        Z3_set_error_handler(ctx, nullptr); boolSort = Z3_mk_bool_sort(ctx); reset();
    }
    void reset() {
        if (sol) Z3_solver_dec_ref(ctx, sol);
        sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, uf ? "QF_UFBV" : "QF_BV")); Z3_solver_inc_ref(ctx, sol);
        Z3_params pr = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, pr);
        Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "timeout"), uf ? std::min(timeoutMs, 2000u) : timeoutMs);
        Z3_solver_set_params(ctx, sol, pr); Z3_params_dec_ref(ctx, pr);
    }
    Z3_sort bv(unsigned w) { if (!bvs[w]) bvs[w] = Z3_mk_bv_sort(ctx, w); return bvs[w]; }
    Z3_ast cstAst(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, bv(w));
        return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bv(w - 64)), Z3_mk_unsigned_int64(ctx, (u64)v, bv(64)));
    }
    // Width-1 expressions have a boolean form and a bit-vector form.
    Z3_ast B(const Expr *e) {
        if (e->zbool[uf]) return e->zbool[uf];
        Z3_ast r;
        switch (e->k) {
        case K_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case K_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, B(e->a), B(e->b)); else r = Z3_mk_eq(ctx, A(e->a), A(e->b)); break;
        case K_ULT: r = Z3_mk_bvult(ctx, A(e->a), A(e->b)); break;
        case K_ULE: r = Z3_mk_bvule(ctx, A(e->a), A(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, A(e->a), A(e->b)); break;
        case K_SLE: r = Z3_mk_bvsle(ctx, A(e->a), A(e->b)); break;
        case K_NOT: r = Z3_mk_not(ctx, B(e->a)); break;
        case K_AND: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case K_OR: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case K_XOR: r = Z3_mk_xor(ctx, B(e->a), B(e->b)); break;
        case K_ITE: r = Z3_mk_ite(ctx, B(e->a), B(e->b), B(e->c)); break;
        default: r = Z3_mk_eq(ctx, A(e), cstAst(1, 1));
        }
        Z3_inc_ref(ctx, r); return e->zbool[uf] = r;
    }
    Z3_ast A(const Expr *e) {
        if (e->zbv[uf]) return e->zbv[uf];
        Z3_ast r;
        if (e->w == 1 && ((e->k >= K_EQ && e->k <= K_SLE) || ((e->k == K_AND || e->k == K_OR || e->k == K_XOR || e->k == K_NOT || e->k == K_ITE))))
            r = Z3_mk_ite(ctx, B(e), cstAst(1, 1), cstAst(0, 1));
        else switch (e->k) {
        case K_CONST: r = cstAst(e->v, e->w); break;
        case K_SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%u", (unsigned)(u64)e->v); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(e->w)); break; }
        case K_ADD: r = Z3_mk_bvadd(ctx, A(e->a), A(e->b)); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, A(e->a), A(e->b)); break;
        case K_MUL: { Z3_ast x[2] = {A(e->a), A(e->b)}; if (!uf) { r = Z3_mk_bvmul(ctx, x[0], x[1]); break; } auto &f = ufs[e->w]; if (!f) { Z3_sort d[2] = {bv(e->w), bv(e->w)}; f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("mul" + std::to_string(e->w)).c_str()), 2, d, bv(e->w)); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f)); } r = Z3_mk_app(ctx, f, 2, x); break; }
        case K_UDIV: r = Z3_mk_bvudiv(ctx, A(e->a), A(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, A(e->a), A(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, A(e->a), A(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, A(e->a), A(e->b)); break;
        case K_AND: r = Z3_mk_bvand(ctx, A(e->a), A(e->b)); break;
        case K_OR: r = Z3_mk_bvor(ctx, A(e->a), A(e->b)); break;
        case K_XOR: r = Z3_mk_bvxor(ctx, A(e->a), A(e->b)); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, A(e->a), A(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, A(e->a), A(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, A(e->a), A(e->b)); break;
        case K_ITE: r = Z3_mk_ite(ctx, B(e->a), A(e->b), A(e->c)); break;
        case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, A(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, A(e->a)); break;
        case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, A(e->a)); break;
        case K_CONCAT: r = Z3_mk_concat(ctx, A(e->a), A(e->b)); break;
        case K_NOT: r = Z3_mk_bvnot(ctx, A(e->a)); break;
        default: fprintf(stderr, "solver: kind %d\n", e->k); abort();
        }
        Z3_inc_ref(ctx, r); return e->zbv[uf] = r;
    }
    // Constraints of pc connected to cond by shared symbols.
    static void slice(const std::vector<const Expr *> &pc, const Expr *cond, std::vector<const Expr *> &out) {
        std::vector<uint32_t> S(*cond->syms); out.clear();
        std::vector<char> used(pc.size(), 0); bool ch = true;
        auto inter = [&](const std::vector<uint32_t> &x) { size_t i = 0, j = 0; while (i < x.size() && j < S.size()) { if (x[i] == S[j]) return true; if (x[i] < S[j]) i++; else j++; } return false; };
        while (ch) { ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!used[i] && inter(*pc[i]->syms)) {
                used[i] = 1; out.push_back(pc[i]); size_t n0 = S.size();
                std::vector<uint32_t> r; std::set_union(S.begin(), S.end(), pc[i]->syms->begin(), pc[i]->syms->end(), std::back_inserter(r)); S.swap(r);
                if (S.size() != n0) ch = true; } }
        out.push_back(cond);
    }
    // 1 sat, 0 unsat, -1 unknown.  On sat, m is overwritten for the symbols involved.
    int check(const std::vector<const Expr *> &pc, const Expr *cond, Model *m) {
        if (cond->k == K_CONST && !cond->v) return 0;
        std::vector<const Expr *> q; slice(pc, cond, q);
        std::sort(q.begin(), q.end(), [](const Expr *x, const Expr *y) { return x->id < y->id; });
        q.erase(std::unique(q.begin(), q.end()), q.end());
        std::string key; key.reserve(q.size() * 4); for (auto *e : q) key.append((const char *)&e->id, 4);
        auto it = cache.find(key);
        if (it == cache.end()) {
            Res res; u64 h = 0x1234567; for (auto *e : q) h += mix64(e->h) * 0x2545f4914f6cdd1dull; h = mix64(h);
            if (SH && SH->unsatKnown(h)) { res.r = 0; cacheHits++; } else { solve(q, res); if (res.r == 0 && SH) SH->addUnsat(h); }
            it = cache.emplace(key, std::move(res)).first;
        } else cacheHits++;
        if (it->second.r == 1 && m) for (auto &p : it->second.m) m->m[p.first] = p.second;
        return it->second.r;
    }
    bool guess(const std::vector<const Expr *> &q, Res &res) {
        std::unordered_set<uint32_t> syms; for (auto *e : q) for (auto s : *e->syms) syms.insert(s);
        std::vector<uint32_t> L(syms.begin(), syms.end()); std::sort(L.begin(), L.end());
        for (int t = 0; t < 16; t++) {
            Model mm; for (auto s : L) { unsigned w = P.symtab[s].w; u64 a = mix64(s * 977 + t * 7919 + 1), b = mix64(a + 1); if (t % 4 == 1) a &= 0xff; if (t % 4 == 2) a &= ~7ull; mm.m[s] = (((u128)b << 64) | a) & maskw(w); }
            Evaluator ev(mm); bool ok = true; for (auto *e : q) if (!ev.ev(e)) { ok = false; break; }
            if (ok) { res.r = 1; for (auto s : L) res.m.push_back({s, mm.get(s)}); return true; }
        }
        return false;
    }
    // The newer Z3, for which there is no library, simplifies these queries much better.
    bool newerZ3(const char *smt) {
        char f[] = "/tmp/queryXXXXXX"; int fd = mkstemp(f); if (fd < 0) return false;
        { FILE *o = fdopen(fd, "w"); fprintf(o, "%s(check-sat)\n", smt); fclose(o); }
        FILE *p = popen((std::string("z3-new -T:30 ") + f + " 2>/dev/null").c_str(), "r"); char b[64] = ""; bool r = p && fgets(b, sizeof b, p) && !strncmp(b, "unsat", 5);
        if (p) pclose(p); unlink(f); return r;
    }
    void solve(const std::vector<const Expr *> &q, Res &res) {
        auto t0 = std::chrono::steady_clock::now();
        bool mul = false; for (auto *e : q) mul |= e->mul;
        if (mul) { // products of large words: a counterexample is usually easy to guess, equality usually follows by congruence
            if (guess(q, res)) { queries++; sat++; return; }
            uf = true; reset(); for (auto *e : q) Z3_solver_assert(ctx, sol, B(e));
            if (getenv("MULQ")) { static int n = 0; std::ofstream f(std::string(getenv("MULQ")) + std::to_string(n++) + ".smt2"); f << Z3_solver_to_string(ctx, sol) << "(check-sat)\n"; }
            std::string text = Z3_solver_to_string(ctx, sol); bool big = text.size() > 20000; // the library's preprocessing can outlast its timeout on the big ones
            Z3_lbool r = big ? Z3_L_UNDEF : Z3_solver_check(ctx, sol);
            if (r == Z3_L_UNDEF && newerZ3(text.c_str())) r = Z3_L_FALSE;
            if (r == Z3_L_UNDEF && big) r = Z3_solver_check(ctx, sol);
            uf = false;
            if (r == Z3_L_FALSE) { double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += dt; maxSecs = std::max(maxSecs, dt); queries++; res.r = 0; unsat++; return; }
        }
        reset(); for (auto *e : q) Z3_solver_assert(ctx, sol, B(e)); // a solver of its own per query: unrelated clauses slow it down
        Z3_lbool r = Z3_solver_check(ctx, sol);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (dt > 2 && getenv("SLOWQ")) { static int n = 0; std::ofstream f(std::string(getenv("SLOWQ")) + std::to_string(n++) + ".smt2"); f << "; " << dt << "\n" << Z3_solver_to_string(ctx, sol) << "(check-sat)\n"; }
        secs += dt; if (dt > maxSecs) maxSecs = dt; queries++;
        if (r == Z3_L_FALSE) { res.r = 0; unsat++; return; }
        if (r == Z3_L_UNDEF) { res.r = -1; unknown++; reset(); return; }
        res.r = 1; sat++;
        Z3_model md = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, md);
        std::unordered_set<uint32_t> syms; for (auto *e : q) for (auto s : *e->syms) syms.insert(s);
        for (auto s : syms) {
            unsigned w = P.symtab[s].w; Z3_ast a = A(P.mk(K_SYM, w, nullptr, nullptr, nullptr, s)), out; u128 v = 0;
            if (Z3_model_eval(ctx, md, a, true, &out)) { const char *str = Z3_get_numeral_string(ctx, out); for (; *str; str++) v = v * 10 + (*str - '0'); }
            res.m.push_back({s, v});
        }
        Z3_model_dec_ref(ctx, md);
        // The model is checked by our own evaluator: a defect in the encoding must not go unnoticed.
        Model mm; for (auto &p : res.m) mm.m[p.first] = p.second; Evaluator ev(mm);
        for (auto *e : q) if (!ev.ev(e)) { fprintf(stderr, "engine: solver model does not satisfy the query\n"); abort(); }
    }
};
