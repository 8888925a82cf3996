#include "solver.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <unistd.h>
#include <z3.h>

SolverStats g_sstats;
unsigned g_solverTimeoutMs = 30000;
bool (*g_expired)() = nullptr;  // past the time limit of the run: answer "unknown" at once
bool g_forceBv = false;
std::string g_dumpDir; int g_dumpMax = 0;
static int g_dumped = 0;
static Z3_context C = nullptr;
static Z3_solver S[2] = {nullptr, nullptr};
static std::vector<LitC> stackLits[2];
static uint32_t epoch = 0;  // z cache validity
static Z3_sort IntS, BvS;
static unsigned W = 80;
static Z3_symbol mksym(const std::string& s) { return Z3_mk_string_symbol(C, s.c_str()); }
static std::vector<std::pair<Expr*, Z3_ast>> varAst[2];
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }

void solverReset() {
    // old context is abandoned deliberately (it may be shared with a forked parent)
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, errh);
    IntS = Z3_mk_int_sort(C);
    BvS = Z3_mk_bv_sort(C, W);
    S[0] = Z3_mk_solver_for_logic(C, mksym("QF_LIA"));
    Z3_solver_inc_ref(C, S[0]);
    S[1] = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, S[1]);
    for (int i = 0; i < 2; i++) {
        Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, mksym("random_seed"), 1);
        if (i) Z3_params_set_uint(C, p, mksym("timeout"), g_solverTimeoutMs); else Z3_params_set_uint(C, p, mksym("rlimit"), 150u * g_solverTimeoutMs);  // a timeout costs a thread per query
        Z3_solver_set_params(C, S[i], p);
        Z3_params_dec_ref(C, p);
        stackLits[i].clear();
        varAst[i].clear();
    }
    epoch++;
}
static Z3_ast bvc(i128 v) {
    // constant of width W
    bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    std::string s; if (!u) s = "0"; while (u) { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; }
    Z3_ast a = Z3_mk_numeral(C, s.c_str(), BvS);
    return neg ? Z3_mk_bvneg(C, a) : a;
}
static Z3_ast ic(i64 v) { return Z3_mk_int64(C, v, IntS); }

// side conditions (definitions of quotient variables, variable ranges) collected while translating
static std::vector<Z3_ast>* side[2];
static Z3_ast trInt(Expr* e);
static Z3_ast trBool(Expr* e, int mode);
static Z3_ast trBv(Expr* e);
static Z3_ast trFp(Expr* e);

static Z3_ast sumInt(Expr* e) {
    std::vector<Z3_ast> v;
    for (uint32_t i = 0; i < e->n; i++) {
        Z3_ast a = trInt(e->t[i].a);
        if (e->t[i].c != 1) { Z3_ast m[2] = {ic(e->t[i].c), a}; a = Z3_mk_mul(C, 2, m); }
        v.push_back(a);
    }
    if (e->kc || v.empty()) v.push_back(ic(e->kc));
    return v.size() == 1 ? v[0] : Z3_mk_add(C, v.size(), v.data());
}
static Z3_ast sumBv(Expr* e) {
    Z3_ast r = nullptr;
    for (uint32_t i = 0; i < e->n; i++) {
        Z3_ast a = trBv(e->t[i].a);
        if (e->t[i].c != 1) a = Z3_mk_bvmul(C, bvc(e->t[i].c), a);
        r = r ? Z3_mk_bvadd(C, r, a) : a;
    }
    if (e->kc || !r) r = r ? Z3_mk_bvadd(C, r, bvc(e->kc)) : bvc(e->kc);
    return r;
}
// Side conditions must be re-asserted in every scope in which the cached AST is used; we therefore collect the set of
// "defining" atoms (VAR, FDIV) below a constraint and assert their definitions together with it.
static std::unordered_map<Expr*, std::vector<Expr*>> defsCache;
static const std::vector<Expr*>& defsOf(Expr* e) {
    auto it = defsCache.find(e);
    if (it != defsCache.end()) return it->second;
    std::vector<Expr*> r; std::unordered_set<Expr*> seen;
    for (uint32_t i = 0; i < e->n; i++) for (Expr* x : defsOf(e->t[i].a)) if (seen.insert(x).second) r.push_back(x);
    if (e->k == K_VAR || e->k == K_FDIV || (e->k == K_FP && e->d == F_VAR)) if (seen.insert(e).second) r.push_back(e);
    return defsCache.emplace(e, std::move(r)).first->second;
}
static Z3_ast trInt(Expr* e) {
    if (e->zep[0] == epoch && e->z[0]) return (Z3_ast)e->z[0];
    Z3_ast r = nullptr;
    switch (e->k) {
        case K_LIN: r = sumInt(e); break;
        case K_VAR: r = Z3_mk_const(C, mksym("v" + std::to_string(e->d)), IntS); varAst[0].push_back({e, r}); break;
        case K_FDIV: r = Z3_mk_const(C, mksym("q" + std::to_string(e->id)), IntS); break;
        case K_ITE: r = Z3_mk_ite(C, trBool(e->t[0].a, 0), trInt(e->t[1].a), trInt(e->t[2].a)); break;
        case K_LE0: case K_EQ0: case K_BAND: case K_BXOR: r = Z3_mk_ite(C, trBool(e, 0), ic(1), ic(0)); e->zep[0] = 0; Z3_inc_ref(C, r); return r;
        default: fprintf(stderr, "trInt: kind %d\n", e->k); abort();
    }
    Z3_inc_ref(C, r);
    e->z[0] = r; e->zep[0] = epoch;
    return r;
}
static std::unordered_map<Expr*, Z3_ast> boolCache[2]; static uint32_t boolEp[2];
static Z3_ast trBool(Expr* e, int mode) {
    if (boolEp[mode] != epoch) { boolCache[mode].clear(); boolEp[mode] = epoch; }
    auto it = boolCache[mode].find(e);
    if (it != boolCache[mode].end()) return it->second;
    Z3_ast r = nullptr;
    switch (e->k) {
        case K_LIN: r = trBool(e->t[0].a, mode); if (e->kc & 1) r = Z3_mk_not(C, r); break;
        case K_LE0: r = mode ? Z3_mk_bvsle(C, sumBv(e), bvc(0)) : Z3_mk_le(C, sumInt(e), ic(0)); break;
        case K_EQ0: r = mode ? Z3_mk_eq(C, sumBv(e), bvc(0)) : Z3_mk_eq(C, sumInt(e), ic(0)); break;
        case K_BAND: { std::vector<Z3_ast> v; for (uint32_t i = 0; i < e->n; i++) { Z3_ast a = trBool(e->t[i].a, mode); v.push_back(e->t[i].c < 0 ? Z3_mk_not(C, a) : a); } r = Z3_mk_and(C, v.size(), v.data()); break; }
        case K_BXOR: r = Z3_mk_xor(C, trBool(e->t[0].a, mode), trBool(e->t[1].a, mode)); break;
        case K_FP:
            switch (e->d) {
                case F_LT: r = Z3_mk_fpa_lt(C, trFp(e->t[0].a), trFp(e->t[1].a)); break;
                case F_LE: r = Z3_mk_fpa_leq(C, trFp(e->t[0].a), trFp(e->t[1].a)); break;
                case F_EQ: r = Z3_mk_fpa_eq(C, trFp(e->t[0].a), trFp(e->t[1].a)); break;
                case F_UNO: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(C, trFp(e->t[0].a)), Z3_mk_fpa_is_nan(C, trFp(e->t[1].a))}; r = Z3_mk_or(C, 2, v); break; }
                default: abort();
            }
            break;
        default: fprintf(stderr, "trBool kind %d\n", e->k); abort();
    }
    Z3_inc_ref(C, r);
    boolCache[mode][e] = r;
    return r;
}
static Z3_ast trBv(Expr* e) {
    if (e->zep[1] == epoch && e->z[1]) return (Z3_ast)e->z[1];
    Z3_ast r = nullptr;
    switch (e->k) {
        case K_LIN: r = sumBv(e); break;
        case K_VAR: r = Z3_mk_const(C, mksym("b" + std::to_string(e->d)), BvS); varAst[1].push_back({e, r}); break;
        case K_FDIV: {
            Z3_ast s = sumBv(e);
            if ((e->d & (e->d - 1)) == 0) { r = Z3_mk_bvashr(C, s, bvc(__builtin_ctzll(e->d))); }
            else { // floor division by positive constant
                Z3_ast q = Z3_mk_bvsdiv(C, s, bvc(e->d)); Z3_ast rem = Z3_mk_bvsrem(C, s, bvc(e->d));
                r = Z3_mk_ite(C, Z3_mk_bvslt(C, rem, bvc(0)), Z3_mk_bvsub(C, q, bvc(1)), q);
            }
            break;
        }
        case K_ITE: r = Z3_mk_ite(C, trBool(e->t[0].a, 1), trBv(e->t[1].a), trBv(e->t[2].a)); break;
        case K_AND: r = Z3_mk_bvand(C, trBv(e->t[0].a), trBv(e->t[1].a)); break;
        case K_XOR: r = Z3_mk_bvxor(C, trBv(e->t[0].a), trBv(e->t[1].a)); break;
        case K_MUL: r = Z3_mk_bvmul(C, trBv(e->t[0].a), trBv(e->t[1].a)); break;
        case K_LE0: case K_EQ0: case K_BAND: case K_BXOR: r = Z3_mk_ite(C, trBool(e, 1), bvc(1), bvc(0)); break;
        case K_FP:
            if (e->flags & FL_FPBOOL) { r = Z3_mk_ite(C, trBool(e, 1), bvc(1), bvc(0)); break; }
            if (e->d == F_TOINT) { r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), trFp(e->t[0].a), W); break; }
            // fallthrough
        default: fprintf(stderr, "trBv: kind %d\n", e->k); abort();
    }
    Z3_inc_ref(C, r);
    e->z[1] = r; e->zep[1] = epoch;
    return r;
}
static Z3_ast trFp(Expr* e) {
    if (e->zep[1] == epoch && e->z[1]) return (Z3_ast)e->z[1];
    Z3_sort D = Z3_mk_fpa_sort_double(C);
    Z3_ast rne = Z3_mk_fpa_rne(C), r = nullptr;
    switch (e->d) {
        case F_CONST: { double d; u64 u = (u64)e->kc; memcpy(&d, &u, 8); r = Z3_mk_fpa_numeral_double(C, d, D); break; }
        case F_VAR: r = Z3_mk_const(C, mksym("f" + std::to_string(e->kc)), D); varAst[1].push_back({e, r}); break;
        case F_FROMINT:
            r = Z3_mk_fpa_to_fp_signed(C, rne, trBv(e->t[0].a), D);
            if (e->kc) r = Z3_mk_fpa_mul(C, rne, r, Z3_mk_fpa_numeral_double(C, std::ldexp(1.0, -(int)e->kc), D));
            break;
        case F_ADD: r = Z3_mk_fpa_add(C, rne, trFp(e->t[0].a), trFp(e->t[1].a)); break;
        case F_SUB: r = Z3_mk_fpa_sub(C, rne, trFp(e->t[0].a), trFp(e->t[1].a)); break;
        case F_MUL: r = Z3_mk_fpa_mul(C, rne, trFp(e->t[0].a), trFp(e->t[1].a)); break;
        case F_DIV: r = Z3_mk_fpa_div(C, rne, trFp(e->t[0].a), trFp(e->t[1].a)); break;
        case F_NEG: r = Z3_mk_fpa_neg(C, trFp(e->t[0].a)); break;
        case F_ABS: r = Z3_mk_fpa_abs(C, trFp(e->t[0].a)); break;
        case F_RINT: r = Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rna(C), trFp(e->t[0].a)); break;
        case F_ITE: r = Z3_mk_ite(C, trBool(e->t[0].a, 1), trFp(e->t[1].a), trFp(e->t[2].a)); break;
        default: fprintf(stderr, "trFp op %d\n", (int)e->d); abort();
    }
    Z3_inc_ref(C, r);
    e->z[1] = r; e->zep[1] = epoch;
    return r;
}
static void defConstraints(Expr* e, int mode, std::vector<Z3_ast>& out) {
    if (e->k == K_VAR) {
        if (mode == 0) { Z3_ast v = trInt(e); out.push_back(Z3_mk_ge(C, v, ic((i64)e->lo))); out.push_back(Z3_mk_le(C, v, ic((i64)e->hi))); }
        else { Z3_ast v = trBv(e); out.push_back(Z3_mk_bvsge(C, v, bvc(e->lo))); out.push_back(Z3_mk_bvsle(C, v, bvc(e->hi))); }
    } else if (e->k == K_FDIV && mode == 0) {
        Z3_ast q = trInt(e), s = sumInt(e);
        Z3_ast m[2] = {ic(e->d), q}; Z3_ast dq = Z3_mk_mul(C, 2, m);
        Z3_ast sb[2] = {s, dq}; Z3_ast rem = Z3_mk_sub(C, 2, sb);
        out.push_back(Z3_mk_ge(C, rem, ic(0))); out.push_back(Z3_mk_lt(C, rem, ic(e->d)));
    } else if (e->k == K_FP && e->d == F_VAR) {
        Z3_ast v = trFp(e); VarInfo& vi = g_vars[e->kc]; double lo, hi; memcpy(&lo, &vi.lo, 8); memcpy(&hi, &vi.hi, 8);
        Z3_sort D = Z3_mk_fpa_sort_double(C);
        out.push_back(Z3_mk_fpa_geq(C, v, Z3_mk_fpa_numeral_double(C, lo, D)));
        out.push_back(Z3_mk_fpa_leq(C, v, Z3_mk_fpa_numeral_double(C, hi, D)));
    }
}
static std::unordered_set<Expr*> asserted[2];  // defs asserted in the current stack (by scope)
static std::vector<std::vector<Expr*>> scopeDefs[2];
static uint32_t assertedEp[2];
static void ensureFresh(int mode) {
    if (assertedEp[mode] != epoch) { asserted[mode].clear(); scopeDefs[mode].clear(); assertedEp[mode] = epoch; }
}
static void assertLit(int mode, Expr* atom, bool neg) {
    std::vector<Z3_ast> d;
    for (Expr* x : defsOf(atom)) if (asserted[mode].insert(x).second) { scopeDefs[mode].back().push_back(x); defConstraints(x, mode, d); }
    for (auto a : d) Z3_solver_assert(C, S[mode], a);
    Z3_ast b = trBool(atom, mode);
    Z3_solver_assert(C, S[mode], neg ? Z3_mk_not(C, b) : b);
}
static void push(int mode) { Z3_solver_push(C, S[mode]); scopeDefs[mode].emplace_back(); }
static void pop(int mode, unsigned n) {
    Z3_solver_pop(C, S[mode], n);
    while (n--) { for (Expr* x : scopeDefs[mode].back()) asserted[mode].erase(x); scopeDefs[mode].pop_back(); }
}
static const unsigned GROUP = 1;
static void sync(int mode, const std::vector<LitC>& path) {
    auto& st = stackLits[mode];
    size_t i = 0;
    while (i < st.size() && i < path.size() && st[i].atom == path[i].atom && st[i].neg == path[i].neg) i++;
    if (i < st.size()) { pop(mode, st.size() - i); st.resize(i); }
    for (; i < path.size(); i++) { push(mode); assertLit(mode, path[i].atom, path[i].neg); st.push_back(path[i]); }
}
static void getModel(int mode, Model& m) {
    Z3_model zm = Z3_solver_get_model(C, S[mode]);
    Z3_model_inc_ref(C, zm);
    if (m.size() < g_vars.size()) { size_t o = m.size(); m.resize(g_vars.size()); for (size_t i = o; i < m.size(); i++) m[i] = g_vars[i].lo; }
    for (auto& pr : varAst[mode]) {
        Z3_ast v = nullptr;
        bool fp = pr.first->k == K_FP;
        size_t idx = fp ? (size_t)pr.first->kc : (size_t)pr.first->d;
        if (!Z3_model_eval(C, zm, pr.second, false, &v) || !v) continue;
        if (fp) {
            if (!Z3_is_numeral_ast(C, v)) continue;
            Z3_ast bits = nullptr;
            if (Z3_model_eval(C, zm, Z3_mk_fpa_to_ieee_bv(C, v), true, &bits)) { uint64_t u; if (Z3_get_numeral_uint64(C, bits, &u)) m[idx] = (i64)u; }
            continue;
        }
        if (!Z3_is_numeral_ast(C, v)) continue;
        int64_t x;
        if (mode == 0) { if (Z3_get_numeral_int64(C, v, &x)) m[idx] = x; }
        else {
            // W-bit two's complement
            std::string s = Z3_get_numeral_string(C, v);
            unsigned __int128 u = 0; for (char ch : s) u = u * 10 + (ch - '0');
            if (W < 128 && (u >> (W - 1)) & 1) { unsigned __int128 M = ((unsigned __int128)1) << W; m[idx] = (i64)(-(i128)(M - u)); }
            else m[idx] = (i64)u;
        }
        if (m[idx] < (i64)pr.first->lo || m[idx] > (i64)pr.first->hi) m[idx] = (i64)pr.first->lo;
    }
    Z3_model_dec_ref(C, zm);
    g_evalEpoch++;
}
static bool needBv(const std::vector<LitC>& v) { if (g_forceBv) return true; for (auto& l : v) if (l.atom->flags & (FL_NONLIN | FL_FP)) return true; return false; }
static SatRes run(int mode, Model& m, const std::vector<LitC>& path, const std::function<bool(const Model&)>& ok) {
    if (!g_dumpDir.empty() && g_dumped < g_dumpMax && (g_sstats.queries % 37) == 5) {
        std::ofstream f(g_dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_dumped++) + ".smt2");
        f << Z3_solver_to_string(C, S[mode]) << "\n(check-sat)\n";
    }
    if (g_expired && g_expired()) { g_sstats.unknown++; return SR_UNKNOWN; }
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r = Z3_solver_check(C, S[mode]);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.time += dt; g_sstats.maxTime = std::max(g_sstats.maxTime, dt);
    static const char* slow = getenv("SYMX_SLOW");
    if (slow && dt > atof(slow)) { std::ofstream f("/tmp/w/slow_" + std::to_string(getpid()) + "_" + std::to_string(g_sstats.queries) + ".smt2"); f << Z3_solver_to_string(C, S[mode]) << "\n(check-sat)\n"; }
    g_sstats.queries++; if (mode) g_sstats.bvQueries++;
    if (r == Z3_L_TRUE) {
        g_sstats.sat++;
        getModel(mode, m);
        if (!ok(m)) { fprintf(stderr, "symx: solver model does not satisfy the query (mode %d)\n", mode); return SR_UNKNOWN; }
        return SR_SAT;
    }
    if (r == Z3_L_FALSE) { g_sstats.unsat++; return SR_UNSAT; }
    g_sstats.unknown++;
    return SR_UNKNOWN;
}
static bool holds(const std::vector<LitC>& v, const Model& m) { for (auto& l : v) if (((evalE(l.atom, m) & 1) != 0) == l.neg) return false; return true; }
SatRes solverCheck(const std::vector<LitC>& path, const std::vector<LitC>& extra, Model& m) {
    int mode = needBv(path) || needBv(extra);
    ensureFresh(mode);
    sync(mode, path);
    push(mode);
    for (auto& l : extra) assertLit(mode, l.atom, l.neg);
    SatRes r = run(mode, m, path, [&](const Model& mm) { return holds(path, mm) && holds(extra, mm); });
    pop(mode, 1);
    if (r == SR_UNKNOWN && mode == 0) {
        ensureFresh(1); sync(1, path); push(1);
        for (auto& l : extra) assertLit(1, l.atom, l.neg);
        r = run(1, m, path, [&](const Model& mm) { return holds(path, mm) && holds(extra, mm); });
        pop(1, 1);
    }
    return r;
}
static SatRes anyFalse(int mode, const std::vector<LitC>& path, const std::vector<LitC>& lits, Model& m);
SatRes solverCheckAnyFalse(const std::vector<LitC>& path, const std::vector<LitC>& lits, Model& m) {
    int mode = needBv(path) || needBv(lits);
    SatRes r = anyFalse(mode, path, lits, m);
    if (r == SR_UNKNOWN && mode == 0) r = anyFalse(1, path, lits, m);
    return r;
}
static SatRes anyFalse(int mode, const std::vector<LitC>& path, const std::vector<LitC>& lits, Model& m) {
    ensureFresh(mode);
    sync(mode, path);
    push(mode);
    std::vector<Z3_ast> v, d;
    for (auto& l : lits) {
        for (Expr* x : defsOf(l.atom)) if (asserted[mode].insert(x).second) { scopeDefs[mode].back().push_back(x); defConstraints(x, mode, d); }
        Z3_ast b = trBool(l.atom, mode);
        v.push_back(l.neg ? b : Z3_mk_not(C, b));
    }
    for (auto a : d) Z3_solver_assert(C, S[mode], a);
    Z3_solver_assert(C, S[mode], v.size() == 1 ? v[0] : Z3_mk_or(C, v.size(), v.data()));
    SatRes r = run(mode, m, path, [&](const Model& mm) { if (!holds(path, mm)) return false; for (auto& l : lits) if (((evalE(l.atom, mm) & 1) != 0) == l.neg) return true; return false; });
    pop(mode, 1);
    return r;
}
