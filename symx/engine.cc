// symx: symbolic execution of LLVM IR with Z3.
#include "engine.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <chrono>
#include <cmath>
#include <deque>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>

using namespace llvm;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, CFunc*> funcs;
static std::vector<CFunc*> funcByAddr;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, std::string> typeNameByAddr;
static std::unordered_map<std::string, u64> typeAddrByName;
static std::unordered_map<std::string, std::string> typeBase;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0g, deadline = 1e18;
static u64 maxSteps = 30000000;
static unsigned maxViol = 3;
static bool optVerbose = false;
static std::string optEntry;
struct Shared { volatile long next; volatile long viol; volatile long stop; volatile long active; volatile long nfile; };
static Shared* sh;

struct Results {
    u64 paths = 0, forks = 0, infeasible = 0, steps = 0, asserts = 0, assertQueries = 0, unexplored = 0, unknownDrop = 0, assumeKilled = 0;
    std::map<std::string, u64> unsupported; std::map<std::string, u64> reached;
    std::vector<Violation> viols;
    std::vector<std::string> samples;  // replay cases
    u64 ended = 0; u64 maxDepth = 0; u64 stepLimit = 0;
} R;

static std::vector<State*> work;  // DFS stack
static std::deque<State*> bfs; static bool bfsMode = true;
static void pushState(State* s) { if (bfsMode) bfs.push_back(s); else work.push_back(s); }
static State* cur;
struct Die { std::string why; bool silent; };        // path ends
struct Unsup { std::string why; };

// ---------------------------------------------------------------- model handling
static std::shared_ptr<Model> evalHolder;
static const Model& useModel(State& s) {
    if (evalHolder != s.model) { evalHolder = s.model; g_evalEpoch++; }
    return *s.model;
}
// ---------------------------------------------------------------- ranges with per-path bounds
static void rangeIn(State& s, Expr* e, i128& lo, i128& hi, int depth);
static void rangeSum(State& s, Expr* e, i128& lo, i128& hi, int depth) {
    lo = hi = e->kc;
    for (uint32_t i = 0; i < e->n; i++) {
        i128 a, b; rangeIn(s, e->t[i].a, a, b, depth - 1);
        a *= e->t[i].c; b *= e->t[i].c; if (e->t[i].c < 0) std::swap(a, b);
        lo += a; hi += b;
    }
    if (e->k == K_LIN) { lo = std::max(lo, e->lo); hi = std::min(hi, e->hi); }
    else for (uint32_t i = 0; i < e->n; i++) if (e->t[i].a->k == K_FDIV) { Lin l; l.k = e->kc; l.t.assign(e->t, e->t + e->n); i128 a, b; linRange(l, a, b); lo = std::max(lo, a); hi = std::min(hi, b); break; }
}
static i128 fd128(i128 a, i128 d) { i128 q = a / d; if ((a % d) != 0 && ((a < 0) != (d < 0))) q--; return q; }
static void rangeIn(State& s, Expr* e, i128& lo, i128& hi, int depth) {
    if (e->k == K_VAR) {
        size_t i = e->d;
        if (i < s.bounds.size()) { lo = s.bounds[i].first; hi = s.bounds[i].second; } else { lo = e->lo; hi = e->hi; }
        return;
    }
    lo = e->lo; hi = e->hi;
    if (depth <= 0) return;
    if (e->k == K_LIN) { i128 a, b; rangeSum(s, e, a, b, depth); lo = std::max(lo, a); hi = std::min(hi, b); }
    else if (e->k == K_FDIV) { i128 a, b; rangeSum(s, e, a, b, depth); lo = std::max(lo, fd128(a, e->d)); hi = std::min(hi, fd128(b, e->d)); }
    else if (isBoolAtom(e)) { auto it = s.known.find(e); if (it != s.known.end()) lo = hi = it->second; }
    else if (e->k == K_ITE) {
        i128 a, b, c, d; rangeIn(s, e->t[1].a, a, b, depth - 1); rangeIn(s, e->t[2].a, c, d, depth - 1);
        auto it = s.known.find(e->t[0].a->t[0].a);
        if (it != s.known.end()) { if (it->second) { lo = a; hi = b; } else { lo = c; hi = d; } }
        else { lo = std::min(a, c); hi = std::max(b, d); }
    }
}
// -1 unknown, 0 false, 1 true
static int quick(State& s, Expr* atom) {
    auto it = s.known.find(atom);
    if (it != s.known.end()) return it->second;
    if (atom->k == K_LE0 || atom->k == K_EQ0) {
        i128 lo, hi; rangeSum(s, atom, lo, hi, 6);
        if (atom->k == K_LE0) { if (hi <= 0) return 1; if (lo > 0) return 0; }
        else { if (lo > 0 || hi < 0) return 0; if (lo == 0 && hi == 0) return 1; }
    } else if (atom->k == K_BAND) {
        bool all = true;
        for (uint32_t i = 0; i < atom->n; i++) {
            int q = quick(s, atom->t[i].a);
            if (q < 0) all = false; else if ((q == 1) != (atom->t[i].c > 0)) return 0;
        }
        if (all) return 1;
    } else if (atom->k == K_BXOR) {
        int a = quick(s, atom->t[0].a), b = quick(s, atom->t[1].a);
        if (a >= 0 && b >= 0) return a ^ b;
    }
    return -1;
}
static void learn(State& s, Expr* atom, bool val) {
    s.known[atom] = val;
    if (atom->k == K_BAND && val) for (uint32_t i = 0; i < atom->n; i++) learn(s, atom->t[i].a, atom->t[i].c > 0);
    if ((atom->k == K_LE0 || (atom->k == K_EQ0 && val)) && atom->n == 1 && atom->t[0].a->k == K_VAR) {
        Expr* v = atom->t[0].a; i64 c = atom->t[0].c; size_t i = v->d;
        if (s.bounds.size() <= i) { size_t o = s.bounds.size(); s.bounds.resize(i + 1); for (size_t j = o; j <= i; j++) s.bounds[j] = {g_vars[j].lo, g_vars[j].hi}; }
        // c*v + k <= 0 (c>0 canonical for LE0)
        i64 k = atom->kc;
        if (atom->k == K_EQ0) { if (k % c == 0) s.bounds[i] = {-k / c, -k / c}; }
        else if (c > 0) {
            i64 b = (i64)fd128(-(i128)k, c);  // v <= b
            if (val) s.bounds[i].second = std::min(s.bounds[i].second, b);
            else s.bounds[i].first = std::max(s.bounds[i].first, b + 1);
        }
    }
}
static void addC(State& s, Expr* atom, bool val) { if (optVerbose) fprintf(stderr, "[%zu] %s%s\n", s.path.size(), val ? "" : "!", exprStr(atom).c_str()); s.path.push_back({atom, !val}); learn(s, atom, val); }

static State* forkState(State& s) {
    State* n = new State(s);
    n->stack.back() = std::make_shared<Frame>(*n->stack.back());  // `s` may hold a reference to its top frame
    R.forks++;
    return n;
}
// Decide a boolean for the current path; forks when both outcomes are feasible. The sibling re-executes the current instruction.
static bool optSelf = false;
static bool decide0(State& s, const Val& c);
static void selfFail(State& s, const std::string& m);
static bool decide(State& s, const Val& c) {
    bool r = decide0(s, c);
    if (optSelf && c.e && (bool)(evalVal(c, 1, useModel(s)) & 1) != r) selfFail(s, "decide " + valStr(c));
    return r;
}
static bool decide0(State& s, const Val& c) {
    if (!c.e) return c.c & 1;
    bool neg; Expr* atom = litAtom(c, neg);
    int q = quick(s, atom);
    if (q >= 0) return (q == 1) != neg;
    bool mv = evalE(atom, useModel(s)) & 1;
    // other side feasible?
    Model m = *s.model;
    SatRes r = solverCheck(s.path, {{atom, mv}}, m);
    evalHolder.reset();
    if (r == SR_SAT) {
        State* n = forkState(s);
        n->model = std::make_shared<Model>(std::move(m));
        addC(*n, atom, !mv);
        n->depth++;
        pushState(n);
        addC(s, atom, mv);
        s.depth++;
    } else {
        if (r == SR_UNKNOWN) { R.unknownDrop++; addC(s, atom, mv); }
        else learn(s, atom, mv);
    }
    return mv != neg;
}
static u64 concretize(State& s, const Val& v, unsigned w) {
    if (!v.e) return v.c & maskw(w);
    auto it = s.knownVal.find(v.e);
    if (it != s.knownVal.end() && it->second.second >= w) return it->second.first & maskw(w);
    u64 v0 = evalVal(v, w, useModel(s));
    Val c = vEq(v, Val(v0), w);
    bool b = decide(s, c);
    if (!b) throw Unsup{"concretize inconsistency"};
    s.knownVal[v.e] = {v0, w};
    return v0;
}
static bool fdivHook(const Lin& r, i64 d, i128 ql, i128 qh, i128& q) {
    if (!cur || qh - ql > 8) return false;
    State& s = *cur;
    Expr* e = internLin(r);
    i128 lo, hi; rangeIn(s, e, lo, hi, 4);
    if (fd128(lo, d) == fd128(hi, d)) { q = fd128(lo, d); return true; }
    i128 v = evalE(e, useModel(s)); i128 q0 = fd128(v, d);
    Lin a; a.t = r.t; a.k = r.k;                       // r >= d*q0   <=>  -r + d*q0 <= 0
    i128 k1 = (i128)d * q0 - r.k, k2 = (i128)r.k - (i128)d * q0 - d + 1;
    if (k1 > INT64_MAX || k1 < INT64_MIN || k2 > INT64_MAX || k2 < INT64_MIN) return false;
    for (auto& x : a.t) x.c = -x.c; a.k = (i64)k1;
    if (!decide(s, bLe0(a))) throw Unsup{"fdiv split"};
    Lin b; b.t = r.t; b.k = (i64)k2;
    if (!decide(s, bLe0(b))) throw Unsup{"fdiv split"};
    q = q0; return true;
}
// replaces truth values already decided on this path (keeps bitwise operations on flags out of the formulas)
static Val settle(State& s, const Val& v, unsigned w) {
    if (!v.e || w == 1 || v.e->k != K_LIN) return v;
    Lin l; l.k = v.e->kc; bool ch = false;
    for (uint32_t i = 0; i < v.e->n; i++) {
        Expr* a = v.e->t[i].a; int q = isBoolAtom(a) ? quick(s, a) : -1;
        if (q < 0) l.addTerm(v.e->t[i].c, a); else { ch = true; if (q) l.k = (i64)((u64)l.k + (u64)v.e->t[i].c); }
    }
    return ch ? finish(l, w) : v;
}
static Val pick(State& s, const Val& c, const Val& a, const Val& b, unsigned w) {
    // selection of symbolic integers: case-split rather than building an if-then-else term (keeps path conditions linear)
    if (!c.e || (!a.e && !b.e) || w == 1) return vIte(c, a, b, w);
    return decide(s, c) ? a : b;
}
// ---------------------------------------------------------------- memory
static bool findReg(u64 a, int& r, u64& off) {
    for (int i = NREG - 1; i >= 0; i--) if (a >= REGBASE[i] && a < REGBASE[i] + 0x80000000ull) { r = i; off = a - REGBASE[i]; return true; }
    return false;
}
static Page* pageR(State& s, int r, u64 off) { u64 p = off / PG; auto& v = s.reg[r].pages; return p < v.size() ? v[p].p : nullptr; }
static Page* pageW(State& s, int r, u64 off) {
    u64 p = off / PG; auto& v = s.reg[r].pages;
    if (p >= v.size()) v.resize(p + 1);
    PageRef& pr = v[p];
    if (!pr.p) pr = PageRef(new Page());
    else if (pr.p->ref > 1) {
        Page* n = new Page(); Page* o = pr.p;
        memcpy(n->data, o->data, PG); memcpy(n->ok, o->ok, sizeof o->ok);
        if (o->sym && o->nsym) { n->sym = new SymByte[PG]; memcpy(n->sym, o->sym, sizeof(SymByte) * PG); n->nsym = o->nsym; }
        pr = PageRef(n);
    }
    return pr.p;
}
static void setOk(State& s, u64 a, u64 n, bool ok) {
    int r; u64 off; if (!findReg(a, r, off)) throw Unsup{"setOk"};
    for (u64 i = 0; i < n;) {
        Page* p = pageW(s, r, off + i); u64 po = (off + i) % PG;
        u64 m = std::min<u64>(n - i, PG - po);
        for (u64 j = 0; j < m; j++) { u64 b = po + j; if (ok) { p->ok[b >> 3] |= 1 << (b & 7); p->data[b] = 0xbe; if (p->sym && p->sym[b].e) { p->sym[b].e = nullptr; p->nsym--; } } else p->ok[b >> 3] &= ~(1 << (b & 7)); }
        i += m;
    }
}
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static void memErr(const char* what, u64 a, u64 n) { throw Die{std::string("memory error: ") + what + " of " + std::to_string(n) + " bytes at " + hexs(a), false}; }
static inline bool okBits(Page* p, u64 po, u64 n) { for (u64 j = 0; j < n; j++) { u64 b = po + j; if (!(p->ok[b >> 3] & (1 << (b & 7)))) return false; } return true; }
static void checkAcc(State& s, u64 a, u64 n, const char* what) {
    int r; u64 off; if (!findReg(a, r, off)) memErr(what, a, n);
    for (u64 i = 0; i < n;) {
        Page* p = pageR(s, r, off + i); u64 po = (off + i) % PG; u64 m = std::min<u64>(n - i, PG - po);
        if (!p || !okBits(p, po, m)) memErr(what, a, n);
        i += m;
    }
}
static void rawRead(State& s, u64 a, uint8_t* out, u64 n) {
    int r; u64 off; findReg(a, r, off);
    for (u64 i = 0; i < n; i++) { Page* p = pageR(s, r, off + i); out[i] = p ? p->data[(off + i) % PG] : 0xbe; }
}
static void rawWrite(State& s, u64 a, const uint8_t* in, u64 n) {
    int r; u64 off; if (!findReg(a, r, off)) throw Unsup{"rawWrite"};
    for (u64 i = 0; i < n; i++) {
        Page* p = pageW(s, r, off + i); u64 b = (off + i) % PG; p->data[b] = in[i];
        if (p->sym && p->sym[b].e) { p->sym[b].e = nullptr; p->nsym--; }
    }
}
static SymByte getSym(State& s, u64 a) { int r; u64 off; findReg(a, r, off); Page* p = pageR(s, r, off); if (p && p->sym) return p->sym[off % PG]; return SymByte{nullptr, 0, 0}; }
static uint8_t getByte(State& s, u64 a) { int r; u64 off; findReg(a, r, off); Page* p = pageR(s, r, off); return p ? p->data[off % PG] : 0xbe; }
static void putSym(State& s, u64 a, SymByte b) {
    int r; u64 off; findReg(a, r, off); Page* p = pageW(s, r, off);
    if (!p->sym) { p->sym = new SymByte[PG]; memset((void*)p->sym, 0, sizeof(SymByte) * PG); }
    u64 o = off % PG; if (!p->sym[o].e) p->nsym++; p->sym[o] = b;
}
static Val load(State& s, u64 a, unsigned w, bool fp, bool chk = true) {
    unsigned n = (w + 7) / 8;
    int r; u64 off; if (!findReg(a, r, off)) memErr("read", a, n);
    u64 po = off % PG; Page* p = pageR(s, r, off);
    if (po + n <= PG) {
        if (!p || (chk && !okBits(p, po, n))) memErr("read", a, n);
        bool sy = false;
        if (p->sym && p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[po + i].e) { sy = true; break; }
        if (!sy) { u64 v = 0; memcpy(&v, p->data + po, n); return Val(v & maskw(w)); }
    } else { if (chk) checkAcc(s, a, n, "read"); }
    // slow path
    SymByte b0 = getSym(s, a); bool any = false, same = b0.e && b0.idx == 0;
    for (unsigned i = 0; i < n; i++) { SymByte b = getSym(s, a + i); if (b.e) any = true; if (b.e != b0.e || b.idx != i || b.w != b0.w) same = false; }
    if (!any) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)getByte(s, a + i) << (8 * i); return Val(v & maskw(w)); }
    if (same && (b0.w + 7u) / 8 == n) {
        bool isfp = b0.e->k == K_FP && (b0.e->flags & FL_FPVAL);
        if (isfp != fp) { Lin l; if (isfp) throw Unsup{"load of double as integer"}; if (fp) throw Unsup{"load of integer as double"}; }
        if (b0.w == w) return Val::sym(b0.e);
        if (b0.w < w) return vZext(Val::sym(b0.e), b0.w, w);
        return vTrunc(Val::sym(b0.e), b0.w, w);
    }
    if (fp) throw Unsup{"partial load of symbolic double"};
    // assemble: group runs of the same source expression
    Val acc(0);
    for (unsigned i = 0; i < n;) {
        SymByte b = getSym(s, a + i);
        if (!b.e) { acc = vAdd(acc, Val((u64)getByte(s, a + i) << (8 * i)), std::max(w, 8 * n)); i++; continue; }
        if (b.e->k == K_FP) throw Unsup{"partial load of symbolic double"};
        unsigned j = i + 1;
        while (j < n) { SymByte c = getSym(s, a + j); if (c.e != b.e || c.w != b.w || c.idx != b.idx + (j - i)) break; j++; }
        unsigned bits = 8 * (j - i);
        Val v = Val::sym(b.e);
        unsigned fw = b.w < 8 ? 8 : b.w; if (b.w < 8) v = vZext(v, b.w, 8);
        if (b.idx) v = vLshrC(v, 8 * b.idx, fw);
        if (bits < fw) v = vTrunc(v, fw, bits);
        unsigned W = 8 * n;
        if (bits < W) v = vZext(v, bits, W);
        if (i) v = vMulC(v, 1ll << (8 * i), W);
        acc = vAdd(acc, v, W);
        i = j;
    }
    if (w < 8 * n) acc = vTrunc(acc, 8 * n, w);
    return acc;
}
static void store(State& s, u64 a, const Val& v, unsigned w, bool chk = true) {
    unsigned n = (w + 7) / 8;
    int r; u64 off; if (!findReg(a, r, off)) memErr("write", a, n);
    if (chk) checkAcc(s, a, n, "write");
    if (!v.e) {
        u64 c = v.c & maskw(w); u64 po = off % PG;
        if (po + n <= PG) {
            Page* p = pageW(s, r, off); memcpy(p->data + po, &c, n);
            if (p->sym && p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[po + i].e) { p->sym[po + i].e = nullptr; p->nsym--; }
        } else { uint8_t b[8]; memcpy(b, &c, 8); rawWrite(s, a, b, n); }
        return;
    }
    for (unsigned i = 0; i < n; i++) putSym(s, a + i, SymByte{v.e, (uint8_t)i, (uint8_t)w});
}
static void memMove(State& s, u64 d, u64 src, u64 n) {
    if (!n) return;
    checkAcc(s, src, n, "read"); checkAcc(s, d, n, "write");
    std::vector<uint8_t> buf(n); std::vector<SymByte> sb(n); bool any = false;
    for (u64 i = 0; i < n;) {
        int r; u64 off; findReg(src + i, r, off); Page* p = pageR(s, r, off); u64 po = off % PG, m = std::min<u64>(n - i, PG - po);
        memcpy(&buf[i], p->data + po, m);
        if (p->sym && p->nsym) { for (u64 j = 0; j < m; j++) { sb[i + j] = p->sym[po + j]; if (sb[i + j].e) any = true; } } else memset((void*)&sb[i], 0, m * sizeof(SymByte));
        i += m;
    }
    rawWrite(s, d, buf.data(), n);
    if (any) for (u64 i = 0; i < n; i++) if (sb[i].e) putSym(s, d + i, sb[i]);
}
static const u64 MAGIC = 0x5ca1ab1e00000000ull;
static u64 heapAlloc(State& s, u64 n, int kind, u64 align = 16) {
    if (n > (1ull << 28)) throw Die{"allocation of " + std::to_string(n) + " bytes", false};
    Region& g = s.reg[R_HEAP];
    u64 top = (g.top + 32 + align - 1) / align * align;
    u64 a = REGBASE[R_HEAP] + top;
    g.top = top + n + 16;
    if (g.top > (1ull << 30)) throw Die{"heap exhausted", false};
    u64 hdr[2] = {n, MAGIC | kind};
    rawWrite(s, a - 16, (uint8_t*)hdr, 16);
    if (n) setOk(s, a, n, true);
    s.choices++; s.liveBytes += n;  // live allocations
    return a;
}
static void heapFree(State& s, u64 a, int kind) {
    if (!a) return;
    int r; u64 off; if (!findReg(a, r, off) || r != R_HEAP || (a & 15)) throw Die{"memory error: free of invalid pointer " + hexs(a), false};
    u64 hdr[2]; rawRead(s, a - 16, (uint8_t*)hdr, 16);
    if ((hdr[1] & ~0xffull) != MAGIC) throw Die{"memory error: free of invalid pointer " + hexs(a), false};
    int k = hdr[1] & 0xff;
    if (k == 0xff) throw Die{"memory error: double free of " + hexs(a), false};
    if (k != kind) throw Die{"memory error: mismatched allocation/deallocation at " + hexs(a), false};
    hdr[1] = MAGIC | 0xff; rawWrite(s, a - 16, (uint8_t*)hdr, 16);
    if (hdr[0]) setOk(s, a, hdr[0], false);
    s.choices--; s.liveBytes -= hdr[0];
}
static u64 stackAlloc(State& s, u64 n, u64 align) {
    Region& g = s.reg[R_STACK];
    u64 top = (g.top + 16 + align - 1) / align * align;
    g.top = top + n + 16;
    if (g.top > (64u << 20)) throw Die{"stack overflow", false};
    setOk(s, REGBASE[R_STACK] + top, n ? n : 1, true);
    return REGBASE[R_STACK] + top;
}
// ---------------------------------------------------------------- constants
static void flatten(Type* T, std::vector<std::pair<u64, unsigned>>& out, u64 off = 0) {
    if (auto* st = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), out, off + L->getElementOffset(i)); }
    else if (auto* at = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), out, off + i * es); }
    else if (auto* vt = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) flatten(vt->getElementType(), out, off + i * es); }
    else if (T->isIntegerTy()) out.push_back({off, T->getIntegerBitWidth()});
    else if (T->isPointerTy()) out.push_back({off, 64});
    else if (T->isDoubleTy()) out.push_back({off, 64u | 0x100});
    else if (T->isFloatTy()) out.push_back({off, 32u | 0x200});
    else if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) {}
    else out.push_back({off, 0x1000});  // unsupported (x86_fp80, ...)
}
static unsigned cnt(Type* T) { std::vector<std::pair<u64, unsigned>> o; flatten(T, o); return o.size(); }
static u64 funcAddr(const Function* F);
static void constVals(const Constant* c, std::vector<Val>& out);
static Val constVal(const Constant* c) { std::vector<Val> o; constVals(c, o); if (o.size() != 1) throw Unsup{"constant arity"}; return o[0]; }
static void constVals(const Constant* c, std::vector<Val>& out) {
    Type* T = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) { out.push_back(Val(ci->getValue().getLoBits(64).getLimitedValue())); return; }
        out.push_back(Val(ci->getZExtValue())); return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(Val(cf->getValueAPF().bitcastToAPInt().getLoBits(64).getLimitedValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(Val(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = cnt(T); for (unsigned i = 0; i < n; i++) out.push_back(Val(0)); return; }
    if (auto* f = dyn_cast<Function>(c)) { out.push_back(Val(funcAddr(f))); return; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
    if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw Unsup{"global " + g->getName().str()}; out.push_back(Val(it->second)); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(cast<Constant>(ca->getOperand(i)), out); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0); const Value* base = cast<GEPOperator>(ce)->getPointerOperand();
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsup{"const gep"};
                Val b = constVal(cast<Constant>(base)); out.push_back(Val(b.c + (u64)off.getSExtValue())); return;
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                constVals(ce->getOperand(0), out); return;
            case Instruction::Trunc: out.push_back(Val(constVal(ce->getOperand(0)).c & maskw(T->getIntegerBitWidth()))); return;
            case Instruction::Sub: { out.push_back(Val((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & maskw(T->getIntegerBitWidth()))); return; }
            case Instruction::Add: { out.push_back(Val((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & maskw(T->getIntegerBitWidth()))); return; }
            case Instruction::ICmp: { out.push_back(vEq(constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), 64)); if (ce->getPredicate() == CmpInst::ICMP_NE) out.back() = bNot(out.back()); return; }
            default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os); throw Unsup{"constant " + os.str()};
}
static CFunc* getFunc(const Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    CFunc* f = new CFunc(); f->F = const_cast<Function*>(F); f->demangled = demangle(F->getName().str());
    funcs[F] = f; return f;
}
static u64 funcAddr(const Function* F) {
    auto it = gaddr.find(F);
    if (it != gaddr.end()) return it->second;
    u64 a = FUNCBASE + 16 * funcByAddr.size();
    funcByAddr.push_back(getFunc(F));
    gaddr[F] = a; return a;
}
// ---------------------------------------------------------------- builtins
enum Builtin {
    B_NONE = -1, B_NOP = 0, B_RET0, B_RETARG0, B_RET1, B_NEW, B_NEWARR, B_MALLOC, B_CALLOC, B_DEL, B_DELARR, B_FREE, B_NEWAL, B_DELAL, B_MEMCMP, B_STRLEN, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCHR,
    B_EXALLOC, B_EXFREE, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_THROWSTD, B_ABORT, B_ASSERTFAIL, B_TERMINATE, B_GUARDACQ, B_GUARDREL, B_EXIT,
    B_SXINT, B_SXCHOOSE, B_SXASSUME, B_SXASSERT, B_SXOUT, B_SXREACH, B_SXISSYM, B_SXCONC, B_SXLIVE, B_SXDBL, B_SXSYMBOLIC, B_SXITE, B_SXFAIL, B_SXBYTES,
    B_EMPTYSTR, B_MATH1, B_MATH2, B_ROUND, B_DYNCAST, B_LROUND, B_FMOD
};
static const std::map<std::string, int>& btab() {
    static std::map<std::string, int> t = {
        {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"free", B_FREE},
        {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
        {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZdlPvSt11align_val_t", B_DELAL}, {"_ZdlPvmSt11align_val_t", B_DELAL},
        {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memchr", B_MEMCHR},
        {"__cxa_allocate_exception", B_EXALLOC}, {"__cxa_free_exception", B_EXFREE}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW},
        {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE}, {"__cxa_pure_virtual", B_ABORT}, {"exit", B_EXIT},
        {"__cxa_atexit", B_RET0}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP},
        {"sx_int", B_SXINT}, {"sx_choose", B_SXCHOOSE}, {"sx_assume", B_SXASSUME}, {"sx_assert", B_SXASSERT}, {"sx_out", B_SXOUT}, {"sx_reach", B_SXREACH}, {"sx_is_symbolic", B_SXISSYM}, {"sx_concretize", B_SXCONC}, {"sx_live_allocs", B_SXLIVE}, {"sx_live_bytes", B_SXBYTES}, {"sx_double", B_SXDBL}, {"sx_symbolic_run", B_SXSYMBOLIC}, {"sx_ite", B_SXITE}, {"sx_fail", B_SXFAIL},
        {"log", B_MATH1}, {"log1p", B_MATH1}, {"exp", B_MATH1}, {"sqrt", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"expm1", B_MATH1}, {"tanh", B_MATH1}, {"pow", B_MATH2}, {"fmod", B_MATH2}, {"round", B_ROUND}, {"lround", B_LROUND}, {"llround", B_LROUND},
        {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"__cxa_init_primary_exception", B_NOP}, {"puts", B_RET0}, {"printf", B_RET0}, {"fprintf", B_RET0}, {"fflush", B_RET0}, {"putchar", B_RET0}, {"fwrite", B_RET0}, {"fputc", B_RET0},
    };
    return t;
}
static std::string throwStdType(const std::string& n) {
    if (n.find("__throw_length_error") != std::string::npos) return "St12length_error";
    if (n.find("__throw_out_of_range") != std::string::npos) return "St12out_of_range";
    if (n.find("__throw_bad_alloc") != std::string::npos) return "St9bad_alloc";
    if (n.find("__throw_bad_array_new_length") != std::string::npos) return "St20bad_array_new_length";
    if (n.find("__throw_logic_error") != std::string::npos) return "St11logic_error";
    if (n.find("__throw_invalid_argument") != std::string::npos) return "St16invalid_argument";
    if (n.find("__throw_bad_function_call") != std::string::npos) return "St17bad_function_call";
    if (n.find("__throw_bad_optional_access") != std::string::npos) return "St19bad_optional_access";
    if (n.find("__throw_runtime_error") != std::string::npos) return "St13runtime_error";
    if (n.find("__throw_") != std::string::npos) return "St9exception";
    return "";
}
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static int builtinFor(const Function* F) {
    std::string n = F->getName().str();
    auto it = btab().find(n);
    if (it != btab().end()) return it->second;
    if (n.find("__throw_") != std::string::npos && F->isDeclaration()) return B_THROWSTD;
    std::string d = demangle(n);
    // stream I/O and locale machinery is modelled as side-effect free
    static const char* strm[] = {"std::basic_ostream<", "std::ostream", "std::basic_ios<", "std::ios_base", "std::__cxx11::basic_stringstream<", "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_istringstream<", "std::__cxx11::basic_stringbuf<", "std::basic_streambuf<", "std::basic_istream<", "std::locale", "std::basic_iostream<"};
    std::string dd = d; 
    for (auto* p : strm) {
        bool hit = starts(d, p) || starts(d, (std::string("virtual thunk to ") + p).c_str());
        if (!hit && F->getName().starts_with("_ZSt") && d.find("operator<<") != std::string::npos && d.find(std::string(p) + "char") != std::string::npos && starts(d, p)) hit = true;
        if (!hit) continue;
        if (d.find("::str(") != std::string::npos && F->arg_size() >= 2 && F->getReturnType()->isVoidTy()) return B_EMPTYSTR;
        if (F->getReturnType()->isVoidTy()) return B_NOP;
        if (F->getReturnType()->isPointerTy() && F->arg_size() >= 1) return B_RETARG0;
        return B_RET0;
    }
    if (F->isDeclaration()) {
        // standard exception constructors/destructors/what
        static const char* exs[] = {"std::invalid_argument::", "std::out_of_range::", "std::runtime_error::", "std::logic_error::", "std::exception::", "std::length_error::", "std::bad_alloc::", "std::bad_array_new_length::", "std::domain_error::", "std::range_error::", "std::overflow_error::", "std::bad_function_call::"};
        for (auto* p : exs) if (starts(d, p)) return F->getReturnType()->isVoidTy() ? B_NOP : B_RET0;
    }
    return B_NONE;
}
static u64 typeAddr(const std::string& name) {
    auto it = typeAddrByName.find(name);
    if (it != typeAddrByName.end()) return it->second;
    u64 a = 0x50000000ull + 16 * typeAddrByName.size();
    typeAddrByName[name] = a; typeNameByAddr[a] = name; return a;
}
static void setupTypes() {
    typeBase = {{"St12out_of_range", "St11logic_error"}, {"St16invalid_argument", "St11logic_error"}, {"St12length_error", "St11logic_error"}, {"St12domain_error", "St11logic_error"}, {"St11logic_error", "St9exception"}, {"St13runtime_error", "St9exception"}, {"St11range_error", "St13runtime_error"}, {"St14overflow_error", "St13runtime_error"}, {"St9bad_alloc", "St9exception"}, {"St20bad_array_new_length", "St9bad_alloc"}, {"St17bad_function_call", "St9exception"}, {"St19bad_optional_access", "St9exception"}};
    for (auto& g : M->globals()) {
        std::string n = g.getName().str();
        if (!starts(n, "_ZTI")) continue;
        std::string t = n.substr(4);
        u64 a = gaddr[&g];
        typeAddrByName[t] = a; typeNameByAddr[a] = t;
        if (g.hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g.getInitializer())) if (cs->getNumOperands() == 3) {
            if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) if (starts(b->getName().str(), "_ZTI")) typeBase[t] = b->getName().str().substr(4);
        }
    }
}
static bool excMatches(u64 thrown, u64 handler) {
    if (!handler) return true;
    if (thrown == handler) return true;
    auto it = typeNameByAddr.find(thrown); auto ih = typeNameByAddr.find(handler);
    if (it == typeNameByAddr.end() || ih == typeNameByAddr.end()) return false;
    std::string t = it->second;
    while (true) { if (t == ih->second) return true; auto b = typeBase.find(t); if (b == typeBase.end()) return false; t = b->second; }
}
// ---------------------------------------------------------------- function compilation
static std::string repoPrefix;
static void compileFunc(CFunc* cf) {
    if (cf->compiled) return;
    cf->compiled = true;
    Function* F = cf->F;
    if (auto* sp = F->getSubprogram()) { std::string fn = (sp->getDirectory() + "/" + sp->getFilename()).str(); std::string f2 = sp->getFilename().str(); if (fn.find(repoPrefix) != std::string::npos || f2.find(repoPrefix) != std::string::npos) cf->repo = true; }
    std::unordered_map<const Value*, int> reg; int nr = 0;
    for (auto& A : F->args()) { reg[&A] = nr; int n = cnt(A.getType()); cf->argRegs.push_back(nr); cf->argN.push_back(n); nr += n; }
    std::unordered_map<const BasicBlock*, uint32_t> bbi; uint32_t nb = 0;
    for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) { int n = cnt(I.getType()); if (n) { reg[&I] = nr; nr += n; } } }
    cf->nregs = nr; cf->blocks.resize(nb);
    auto addOp = [&](CInst& ci, const Value* V) {
        if (auto* c = dyn_cast<Constant>(V)) { std::vector<Val> o; constVals(c, o); for (auto& v : o) ci.ops.push_back({true, -1, v}); }
        else if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V)) {}
        else { int n = cnt(V->getType()); int r = reg.at(V); for (int i = 0; i < n; i++) ci.ops.push_back({false, r + i, Val()}); }
    };
    for (auto& B : *F) {
        CBlock& cb = cf->blocks[bbi[&B]]; cb.bb = &B; bool seenNonPhi = false;
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            CInst ci; ci.I = &I; ci.op = I.getOpcode();
            ci.ndst = cnt(I.getType()); ci.dst = ci.ndst ? reg[&I] : -1;
            Type* T = I.getType();
            if (T->isIntegerTy()) ci.w = T->getIntegerBitWidth(); else if (T->isPointerTy()) ci.w = 64; else if (T->isDoubleTy()) ci.w = 64;
            if (!isa<PHINode>(I) && !seenNonPhi) { seenNonPhi = true; cb.firstNonPhi = cb.insts.size(); }
            if (auto* phi = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) { ci.aux.push_back(bbi[phi->getIncomingBlock(i)]); addOp(ci, phi->getIncomingValue(i)); }
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) addOp(ci, br->getCondition());
                for (unsigned i = 0; i < br->getNumSuccessors(); i++) ci.aux.push_back(bbi[br->getSuccessor(i)]);
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                addOp(ci, sw->getCondition()); ci.w = sw->getCondition()->getType()->getIntegerBitWidth();
                ci.aux.push_back(bbi[sw->getDefaultDest()]);
                for (auto& c : sw->cases()) { ci.aux.push_back(c.getCaseValue()->getZExtValue()); ci.aux.push_back(bbi[c.getCaseSuccessor()]); }
            } else if (auto* cb2 = dyn_cast<CallBase>(&I)) {
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { ci.iid = ii->getIntrinsicID(); if (ii->arg_size() && ii->getArgOperand(0)->getType()->isIntegerTy()) ci.w = ii->getArgOperand(0)->getType()->getIntegerBitWidth(); }
                for (auto& a : cb2->args()) addOp(ci, a.get());
                if (auto* inv = dyn_cast<InvokeInst>(&I)) { ci.aux.push_back(bbi[inv->getNormalDest()]); ci.aux.push_back(bbi[inv->getUnwindDest()]); }
                Value* cv = cb2->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject*>(ga->getAliaseeObject());
                if (auto* cfn = dyn_cast<Function>(cv)) { ci.callee = getFunc(cfn); if (!ci.iid) ci.builtin = builtinFor(cfn); }
                else { addOp(ci, cv); }  // last operand: function pointer
            } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                addOp(ci, gep->getPointerOperand());
                u64 off = 0; 
                for (auto gti = gep_type_begin(gep); gti != gep_type_end(gep); ++gti) {
                    Value* idx = gti.getOperand();
                    if (StructType* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else {
                        u64 es = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto* c = dyn_cast<ConstantInt>(idx)) off += (u64)(c->getSExtValue() * (i64)es);
                        else { addOp(ci, idx); ci.gepScale.push_back(es); ci.gepScale.push_back(idx->getType()->getIntegerBitWidth()); }
                    }
                }
                ci.aux.push_back(off);
            } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                addOp(ci, al->getArraySize()); ci.aux.push_back(DL->getTypeAllocSize(al->getAllocatedType())); ci.aux.push_back(al->getAlign().value());
            } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                addOp(ci, ev->getAggregateOperand());
                unsigned skip = 0; Type* cur = ev->getAggregateOperand()->getType();
                for (unsigned ix : ev->indices()) { for (unsigned j = 0; j < ix; j++) skip += cnt(cur->isStructTy() ? cur->getStructElementType(j) : cur->getArrayElementType()); cur = cur->isStructTy() ? cur->getStructElementType(ix) : cur->getArrayElementType(); }
                ci.aux.push_back(skip);
            } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                addOp(ci, iv->getAggregateOperand()); ci.aux.push_back(ci.ops.size()); addOp(ci, iv->getInsertedValueOperand());
                unsigned skip = 0; Type* cur = iv->getAggregateOperand()->getType();
                for (unsigned ix : iv->indices()) { for (unsigned j = 0; j < ix; j++) skip += cnt(cur->isStructTy() ? cur->getStructElementType(j) : cur->getArrayElementType()); cur = cur->isStructTy() ? cur->getStructElementType(ix) : cur->getArrayElementType(); }
                ci.aux.push_back(skip);
            } else if (auto* ld = dyn_cast<LoadInst>(&I)) { addOp(ci, ld->getPointerOperand()); flatten(T, ci.layout); }
            else if (auto* stI = dyn_cast<StoreInst>(&I)) { addOp(ci, stI->getPointerOperand()); addOp(ci, stI->getValueOperand()); flatten(stI->getValueOperand()->getType(), ci.layout); }
            else if (auto* ic = dyn_cast<ICmpInst>(&I)) { addOp(ci, ic->getOperand(0)); addOp(ci, ic->getOperand(1)); Type* ot = ic->getOperand(0)->getType(); if (ot->isVectorTy()) ci.w = 0; else ci.w = ot->isPointerTy() ? 64 : ot->getIntegerBitWidth(); ci.aux.push_back(ic->getPredicate()); }
            else if (auto* fc = dyn_cast<FCmpInst>(&I)) { addOp(ci, fc->getOperand(0)); addOp(ci, fc->getOperand(1)); ci.aux.push_back(fc->getPredicate()); if (!fc->getOperand(0)->getType()->isDoubleTy()) ci.aux[0] |= 0x100; }
            else if (auto* ca = dyn_cast<CastInst>(&I)) { addOp(ci, ca->getOperand(0)); Type* st = ca->getSrcTy(); ci.aux.push_back(st->isPointerTy() ? 64 : st->isIntegerTy() ? st->getIntegerBitWidth() : st->isDoubleTy() ? 0x164 : st->isFloatTy() ? 0x132 : 0); if (T->isFloatTy()) ci.aux.push_back(32); }
            else if (isa<LandingPadInst>(I)) {}
            else if (auto* cx = dyn_cast<AtomicRMWInst>(&I)) { addOp(ci, cx->getPointerOperand()); addOp(ci, cx->getValOperand()); ci.aux.push_back(cx->getOperation()); }
            else { for (auto& o : I.operands()) addOp(ci, o.get()); if (auto* sel = dyn_cast<SelectInst>(&I)) { (void)sel; } }
            cb.insts.push_back(std::move(ci));
        }
    }
}
// ---------------------------------------------------------------- execution
static Frame& top(State& s);
static std::string whereIs(State& s) {
    for (int i = (int)s.stack.size() - 1; i >= 0; i--) {
        Frame& f = *s.stack[i];
        if (!f.f) continue;
        auto& insts = f.f->blocks[f.bb].insts;
        uint32_t pc = f.pc; if (i != (int)s.stack.size() - 1 && pc > 0) pc--;
        if (pc < insts.size()) if (auto& dl = insts[pc].I->getDebugLoc()) {
            std::string fn = dl->getFilename().str();
            if (fn.find(repoPrefix) != std::string::npos || i == 0 || fn.find("/verif/") != std::string::npos)
                return fn + ":" + std::to_string(dl.getLine()) + " in " + f.f->demangled.substr(0, 120);
        }
    }
    return "?";
}
static std::vector<std::string> backtrace(State& s) {
    std::vector<std::string> r;
    for (int i = (int)s.stack.size() - 1; i >= 0 && r.size() < 24; i--) {
        Frame& f = *s.stack[i]; auto& insts = f.f->blocks[f.bb].insts; uint32_t pc = f.pc; if (i != (int)s.stack.size() - 1 && pc > 0) pc--;
        std::string l; if (pc < insts.size()) if (auto& dl = insts[pc].I->getDebugLoc()) l = dl->getFilename().str() + ":" + std::to_string(dl.getLine());
        r.push_back(f.f->demangled.substr(0, 100) + " @ " + l);
    }
    return r;
}
static void recordViolation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
    Violation v; v.kind = kind; v.msg = msg; v.where = whereIs(s); v.model = m; v.trail = backtrace(s);
    for (int i : s.inputs) v.inputs.push_back({g_vars[i].name, (u64)((size_t)i < m.size() ? m[i] : g_vars[i].lo)});
    R.viols.push_back(std::move(v));
    __sync_fetch_and_add(&sh->viol, 1);
}
static bool flushAsserts(State& s) {
    if (s.pendingAsserts.empty()) return true;
    R.assertQueries++;
    Model m = *s.model;
    SatRes r = solverCheckAnyFalse(s.path, s.pendingAsserts, m);
    evalHolder.reset();
    bool ok = true;
    if (r == SR_SAT) {
        const char* msg = "assertion";
        g_evalEpoch++;
        for (size_t i = 0; i < s.pendingAsserts.size(); i++) if (((evalE(s.pendingAsserts[i].atom, m) & 1) != 0) == s.pendingAsserts[i].neg) { msg = s.pendingMsgs[i]; break; }
        recordViolation(s, "assert", msg, m); ok = false;
    } else if (r == SR_UNKNOWN) { R.unknownDrop++; }
    s.pendingAsserts.clear(); s.pendingMsgs.clear();
    return ok;
}
static std::string cstr(State& s, u64 a) { std::string r; for (int i = 0; i < 400; i++) { char c = (char)getByte(s, a + i); if (!c) break; r += c; } return r; }
static const char* keepStr(const std::string& s) { static std::set<std::string> pool; return pool.insert(s).first->c_str(); }

static Frame& top(State& s) { if (s.stack.back().use_count() > 1) s.stack.back() = std::make_shared<Frame>(*s.stack.back()); return *s.stack.back(); }
static void popStack(State& s, u64 newTop) {
    Region& g = s.reg[R_STACK];
    if (g.top > newTop) { setOk(s, REGBASE[R_STACK] + newTop, g.top - newTop, false); g.top = newTop; }
}
static void enterBlock(State& s, Frame& f, uint32_t nb) {
    f.prevbb = f.bb; f.bb = nb; f.pc = 0;
    CBlock& b = f.f->blocks[nb]; b.covered = true;
    if (b.firstNonPhi) {
        static std::vector<Val> tmp; tmp.clear();
        for (uint32_t i = 0; i < b.firstNonPhi; i++) {
            CInst& ci = b.insts[i]; bool found = false;
            for (size_t k = 0; k < ci.aux.size(); k++) if (ci.aux[k] == f.prevbb) { for (int j = 0; j < ci.ndst; j++) { Operand& o = ci.ops[k * ci.ndst + j]; tmp.push_back(o.isC ? o.v : f.regs[o.reg]); } found = true; break; }
            if (!found) throw Unsup{"phi"};
        }
        size_t p = 0;
        for (uint32_t i = 0; i < b.firstNonPhi; i++) { CInst& ci = b.insts[i]; for (int j = 0; j < ci.ndst; j++) f.regs[ci.dst + j] = tmp[p++]; }
        f.pc = b.firstNonPhi;
    }
}
static void callFunc(State& s, CFunc* cf, const std::vector<Val>& args, int retReg, bool invoke, uint32_t nbb, uint32_t ubb) {
    if (cf->F->isDeclaration()) throw Unsup{"call to undefined " + cf->demangled};
    compileFunc(cf); cf->calls++;
    auto f = std::make_shared<Frame>();
    f->f = cf; f->regs.resize(cf->nregs); f->stackTop = s.reg[R_STACK].top; f->retReg = retReg; f->isInvoke = invoke; f->retBB = nbb; f->unwindBB = ubb;
    size_t n = 0; for (int k : cf->argN) n += k;
    if (args.size() < n) throw Unsup{"call arity " + cf->demangled};
    for (size_t i = 0; i < n; i++) f->regs[i] = args[i];
    if (s.stack.size() > 3000) throw Die{"call depth exceeded (runaway recursion)", false};
    s.stack.push_back(f);
    f->bb = 0; f->pc = 0; cf->blocks[0].covered = true;
}
static void unwind(State& s) {  // exception s.excObj/excType propagates out of the top frame's current call
    while (true) {
        if (s.stack.size() == 1) throw Die{"uncaught exception " + typeNameByAddr[s.excType], false};
        FrameP fr = s.stack.back();
        popStack(s, fr->stackTop);
        s.stack.pop_back();
        if (!fr->isInvoke) continue;
        Frame& c = top(s);
        CBlock& lb = c.f->blocks[fr->unwindBB];
        // find landingpad
        enterBlock(s, c, fr->unwindBB);
        CInst* lp = nullptr; for (auto& ci : lb.insts) if (ci.op == Instruction::LandingPad) { lp = &ci; break; }
        if (!lp) throw Unsup{"no landingpad"};
        auto* LP = cast<LandingPadInst>(lp->I);
        u64 sel = 0; bool enter = LP->isCleanup();
        for (unsigned i = 0; i < LP->getNumClauses(); i++) if (LP->isCatch(i)) {
            u64 ta = constVal(cast<Constant>(LP->getClause(i))).c;
            if (excMatches(s.excType, ta)) { sel = ta ? (ta & 0x7fffffff) : 1; enter = true; break; }
        }
        if (!enter) { continue; }
        c.regs[lp->dst] = Val(s.excObj); c.regs[lp->dst + 1] = Val(sel);
        c.pc = (uint32_t)(lp - &lb.insts[0]) + 1;
        return;
    }
}
// Unwinding out of a builtin/intrinsic call executed by the top frame itself
static void throwFrom(State& s, CInst& ci, u64 obj, u64 type) {
    s.excObj = obj; s.excType = type;
    if (ci.op == Instruction::Invoke) {
        // emulate: push a dummy frame with invoke info so that unwind() lands in our own landing pad
        auto f = std::make_shared<Frame>(); f->f = top(s).f; f->stackTop = s.reg[R_STACK].top; f->isInvoke = true; f->unwindBB = ci.aux[1];
        s.stack.push_back(f);
    }
    unwind(s);
}
static void doReturn(State& s, const std::vector<Val>& rv, bool& finished) {
    FrameP fr = s.stack.back();
    popStack(s, fr->stackTop);
    s.stack.pop_back();
    if (s.stack.empty()) { finished = true; return; }
    Frame& c = top(s);
    if (fr->retReg >= 0) for (size_t i = 0; i < rv.size(); i++) c.regs[fr->retReg + i] = rv[i];
    if (fr->isInvoke) enterBlock(s, c, fr->retBB);
}
static void selfFail(State& s, const std::string& m) { evalHolder.reset(); const Model& md = useModel(s); std::string v; for (size_t i = 0; i < md.size(); i++) v += " " + g_vars[i].name + "=" + std::to_string(md[i]); bool ok = true; for (auto& l : s.path) if (((evalE(l.atom, md) & 1) != 0) == l.neg) { ok = false; v += " VIOLATED " + exprStr(l.atom); } fprintf(stderr, "SELFCHECK %s at %s model%s path-ok=%d\n", m.c_str(), whereIs(s).c_str(), v.c_str(), ok); std::string is; raw_string_ostream os(is); top(s).f->blocks[top(s).bb].insts[top(s).pc].I->print(os); fprintf(stderr, "   %s\n", is.c_str()); }
// --selfcheck (debugging aid): re-evaluates each instruction concretely under the path's current model
static void selfCheck(State& s, CInst& ci, Frame& f, const std::vector<Val>& pre) {
    if (ci.dst < 0 || ci.ndst != 1) return;
    const Model& m = useModel(s);
    unsigned w = ci.w; u64 K = maskw(w);
    auto v = [&](size_t i, unsigned ww) { return evalVal(pre[i], ww, m); };
    u64 e; unsigned rw = w;
    switch (ci.op) {
        case Instruction::Add: e = v(0, w) + v(1, w); break;
        case Instruction::Sub: e = v(0, w) - v(1, w); break;
        case Instruction::Mul: e = v(0, w) * v(1, w); break;
        case Instruction::And: e = v(0, w) & v(1, w); break;
        case Instruction::Or: e = v(0, w) | v(1, w); break;
        case Instruction::Xor: e = v(0, w) ^ v(1, w); break;
        case Instruction::Shl: e = v(1, w) >= w ? 0 : v(0, w) << v(1, w); break;
        case Instruction::LShr: e = v(1, w) >= w ? 0 : v(0, w) >> v(1, w); break;
        case Instruction::AShr: e = (u64)(sextw(v(0, w), w) >> std::min<u64>(v(1, w), w - 1)); break;
        case Instruction::Trunc: case Instruction::ZExt: e = v(0, ci.aux[0]); break;
        case Instruction::SExt: e = (u64)sextw(v(0, ci.aux[0]), ci.aux[0]); break;
        case Instruction::ICmp: {
            u64 a = v(0, w), b = v(1, w); i64 x = sextw(a, w), y = sextw(b, w); rw = 1;
            switch (ci.aux[0]) { case CmpInst::ICMP_EQ: e = a == b; break; case CmpInst::ICMP_NE: e = a != b; break; case CmpInst::ICMP_ULT: e = a < b; break; case CmpInst::ICMP_ULE: e = a <= b; break; case CmpInst::ICMP_UGT: e = a > b; break; case CmpInst::ICMP_UGE: e = a >= b; break; case CmpInst::ICMP_SLT: e = x < y; break; case CmpInst::ICMP_SLE: e = x <= y; break; case CmpInst::ICMP_SGT: e = x > y; break; default: e = x >= y; }
            break;
        }
        case Instruction::Select: if (!ci.I->getType()->isIntegerTy() && !ci.I->getType()->isPointerTy()) return; if (!w) w = rw = 64; e = (v(0, 1) & 1) ? v(1, w) : v(2, w); break;
        case Instruction::Load: { if (ci.layout.size() != 1 || (ci.layout[0].second & ~0xffu)) return; u64 a = v(0, 64) + ci.layout[0].first; unsigned lw = ci.layout[0].second, n = (lw + 7) / 8; e = 0; rw = lw; for (unsigned i = 0; i < n; i++) { SymByte b = getSym(s, a + i); u64 by = b.e ? ((u64)(evalE(b.e, m) >> (8 * b.idx)) & 0xff) : getByte(s, a + i); if (b.e && b.w < 8) by &= maskw(b.w); e |= by << (8 * i); } break; }
        case Instruction::Call: case Instruction::Invoke: {
            switch (ci.iid) { case Intrinsic::umin: e = std::min(v(0, w), v(1, w)); break; case Intrinsic::umax: e = std::max(v(0, w), v(1, w)); break;
                case Intrinsic::smin: e = std::min(sextw(v(0, w), w), sextw(v(1, w), w)); break; case Intrinsic::smax: e = std::max(sextw(v(0, w), w), sextw(v(1, w), w)); break;
                case Intrinsic::abs: { i64 x = sextw(v(0, w), w); e = x < 0 ? -x : x; break; } default: return; }
            break; }
        default: return;
    }
    if (rw != w) K = maskw(rw);
    if (rw > 64 || !rw) return;
    u64 got = evalVal(f.regs[ci.dst], rw, m);
    if (got != (e & K)) { std::string q; for (auto& x : pre) q += " " + valStr(x) + "=" + std::to_string(evalVal(x, 64, m)); selfFail(s, "expected " + std::to_string(e & K) + " got " + std::to_string(got) + " = " + valStr(f.regs[ci.dst]) + " ops" + q); }
}
static std::vector<State*>* g_dummy;
static double bitsd(u64 u) { double d; memcpy(&d, &u, 8); return d; }

static int g_varNoise = 0;
static Val newInput(State& s, const std::string& nm, i64 lo, i64 hi) {
    int k = s.nameCount[nm]++;
    int idx; Expr* e = mkVar(k ? nm + "#" + std::to_string(k) : nm, lo, hi, &idx);
    s.inputs.push_back(idx);
    Lin l; l.addTerm(1, e); return Val::sym(internLin(l));
}
// returns true if handled and pc should advance normally; result in out
static bool execBuiltin(State& s, CInst& ci, int b, CFunc* callee, std::vector<Val>& a, Val& out, bool& jumped) {
    jumped = false;
    auto C = [&](size_t i) { return concretize(s, a.at(i), 64); };
    switch (b) {
        case B_NOP: return true;
        case B_RET0: out = Val(0); return true;
        case B_RET1: out = Val(1); return true;
        case B_RETARG0: out = a[0]; return true;
        case B_NEW: out = Val(heapAlloc(s, C(0), 1)); return true;
        case B_NEWARR: out = Val(heapAlloc(s, C(0), 2)); return true;
        case B_NEWAL: out = Val(heapAlloc(s, C(0), 4, C(1))); return true;
        case B_MALLOC: out = Val(heapAlloc(s, C(0), 3)); return true;
        case B_CALLOC: { u64 n = C(0) * C(1); u64 p = heapAlloc(s, n, 3); std::vector<uint8_t> z(n, 0); rawWrite(s, p, z.data(), n); out = Val(p); return true; }
        case B_DEL: heapFree(s, C(0), 1); return true;
        case B_DELAL: heapFree(s, C(0), 4); return true;
        case B_DELARR: heapFree(s, C(0), 2); return true;
        case B_FREE: heapFree(s, C(0), 3); return true;
        case B_MEMCPY: case B_MEMMOVE: { u64 n = C(2), d = C(0), sr = C(1); memMove(s, d, sr, n); out = a[0]; return true; }
        case B_MEMSET: { u64 n = C(2), d = C(0); if (n) { checkAcc(s, d, n, "write"); if (!a[1].e) { std::vector<uint8_t> z(n, (uint8_t)a[1].c); rawWrite(s, d, z.data(), n); } else { Val v = vTrunc(a[1], ci.iid ? 8 : 32, 8); for (u64 i = 0; i < n; i++) store(s, d + i, v, 8); } } out = a[0]; return true; }
        case B_MEMCMP: {
            u64 n = C(2), x = C(0), y = C(1); 
            for (u64 i = 0; i < n; i++) { Val p = load(s, x + i, 8, false), q = load(s, y + i, 8, false); if (!decide(s, vEq(p, q, 8))) { out = Val(decide(s, vUlt(p, q, 8)) ? 0xffffffffu : 1); return true; } }
            out = Val(0); return true;
        }
        case B_STRLEN: { u64 x = C(0), i = 0; while (true) { Val p = load(s, x + i, 8, false); if (decide(s, vEq(p, Val(0), 8))) break; i++; } out = Val(i); return true; }
        case B_MEMCHR: { u64 x = C(0), n = C(2); Val ch = vTrunc(a[1], 32, 8); for (u64 i = 0; i < n; i++) { Val p = load(s, x + i, 8, false); if (decide(s, vEq(p, ch, 8))) { out = Val(x + i); return true; } } out = Val(0); return true; }
        case B_EXALLOC: out = Val(heapAlloc(s, C(0), 9)); return true;
        case B_EXFREE: { heapFree(s, C(0), 9); return true; }
        case B_THROW: { u64 o = C(0), t = C(1); throwFrom(s, ci, o, t); jumped = true; return true; }
        case B_THROWSTD: { u64 t = typeAddr(throwStdType(callee->F->getName().str())); u64 o = heapAlloc(s, 32, 9); throwFrom(s, ci, o, t); jumped = true; return true; }
        case B_BEGINCATCH: s.caught.push_back({s.excObj, s.excType}); out = a[0]; return true;
        case B_ENDCATCH: if (!s.caught.empty()) { u64 o = s.caught.back().first; s.caught.pop_back(); bool still = false; for (auto& c : s.caught) if (c.first == o) still = true; if (!still && o != s.excObj) {} if (!still) { u64 hdr[2]; rawRead(s, o - 16, (uint8_t*)hdr, 16); if ((hdr[1] & 0xff) == 9) heapFree(s, o, 9); } } return true;
        case B_RETHROW: { if (s.caught.empty()) throw Die{"rethrow without exception", false}; u64 o = s.caught.back().first, t = s.caught.back().second; s.caught.push_back(s.caught.back()); throwFrom(s, ci, o, t); jumped = true; return true; }
        case B_ABORT: throw Die{"abort() called", false};
        case B_EXIT: throw Die{"exit() called", false};
        case B_TERMINATE: throw Die{"std::terminate() called", false};
        case B_ASSERTFAIL: throw Die{"assertion failed: " + cstr(s, C(0)) + " (" + cstr(s, C(1)) + ":" + std::to_string(C(2)) + ")", false};
        case B_GUARDACQ: { u64 g = C(0); Val v = load(s, g, 8, false); out = Val(v.c == 0); return true; }
        case B_GUARDREL: { u64 g = C(0); store(s, g, Val(1), 8); return true; }
        case B_SXINT: { std::string nm = cstr(s, C(0)); i64 lo = (i64)C(1), hi = (i64)C(2); if (lo > hi) throw Die{"", true}; out = newInput(s, nm, lo, hi); return true; }
        case B_SXCHOOSE: {
            // two-phase so that re-execution after forking sees the same variable
            std::string nm = cstr(s, C(0)); i64 lo = (i64)C(1), hi = (i64)C(2); if (lo > hi) throw Die{"", true};
            int k = s.nameCount[nm]; int idx; Expr* e = mkVar(k ? nm + "#" + std::to_string(k) : nm, lo, hi, &idx);
            Lin l; l.addTerm(1, e); Val v = Val::sym(internLin(l));
            u64 c = concretize(s, v, 64);  // may fork: sibling re-executes this call
            s.nameCount[nm]++; s.inputs.push_back(idx);
            out = Val(c); return true;
        }
        case B_SXDBL: { std::string nm = cstr(s, C(0)); int k = s.nameCount[nm]++; int idx; if (a[1].e || a[2].e) throw Unsup{"sx_double bounds"}; out = mkFpVar(k ? nm + "#" + std::to_string(k) : nm, bitsd(a[1].c), bitsd(a[2].c), &idx); s.inputs.push_back(idx); return true; }
        case B_SXASSUME: {
            Val c = vTrunc(a[0], 32, 1); { Val z = vEq(a[0], Val(0), 32); c = bNot(z); }
            if (!flushAsserts(s)) throw Die{"", true};
            if (!c.e) { if (!(c.c & 1)) { R.assumeKilled++; throw Die{"", true}; } return true; }
            bool neg; Expr* at = litAtom(c, neg); int q = quick(s, at);
            if (q >= 0) { if ((q == 1) == neg) { R.assumeKilled++; throw Die{"", true}; } return true; }
            if (((evalE(at, useModel(s)) & 1) != 0) == neg) {
                Model m = *s.model; SatRes r = solverCheck(s.path, {{at, neg}}, m); evalHolder.reset();
                if (r == SR_UNSAT) { R.assumeKilled++; throw Die{"", true}; }
                if (r == SR_UNKNOWN) { R.unknownDrop++; throw Die{"", true}; }
                s.model = std::make_shared<Model>(std::move(m));
            }
            addC(s, at, !neg); return true;
        }
        case B_SXASSERT: {
            R.asserts++;
            Val c = bNot(vEq(a[0], Val(0), 32));
            std::string msg = cstr(s, C(1));
            if (!c.e) { if (!(c.c & 1)) { recordViolation(s, "assert", msg, *s.model); throw Die{"", true}; } return true; }
            bool neg; Expr* at = litAtom(c, neg); int q = quick(s, at);
            if (q >= 0) { if ((q == 1) == neg) { recordViolation(s, "assert", msg, *s.model); throw Die{"", true}; } return true; }
            if (((evalE(at, useModel(s)) & 1) != 0) == neg) { recordViolation(s, "assert", msg, *s.model); throw Die{"", true}; }
            s.pendingAsserts.push_back({at, neg}); s.pendingMsgs.push_back(keepStr(msg));
            if (s.pendingAsserts.size() >= 400) if (!flushAsserts(s)) throw Die{"", true};
            return true;
        }
        case B_SXFAIL: { std::string msg = cstr(s, C(0)); recordViolation(s, "assert", msg, *s.model); throw Die{"", true}; }
        case B_SXOUT: { std::string nm = cstr(s, C(0)); s.outs.push_back({nm, a[1]}); return true; }
        case B_SXREACH: { std::string nm = cstr(s, C(0)); s.reached.push_back(nm); return true; }
        case B_SXISSYM: out = Val(a[0].e != nullptr); return true;
        case B_SXSYMBOLIC: out = Val(1); return true;
        case B_SXCONC: out = Val(concretize(s, a[0], 64)); return true;
        case B_SXITE: { Val c = bNot(vEq(a[0], Val(0), 32)); out = vIte(c, a[1], a[2], 64); return true; }
        case B_SXBYTES: out = Val(s.liveBytes); return true;
        case B_SXLIVE: out = Val(s.choices); return true;
        case B_EMPTYSTR: { u64 p = C(0); store(s, p, Val(p + 16), 64); store(s, p + 8, Val(0), 64); store(s, p + 16, Val(0), 8); return true; }
        case B_MATH1: case B_MATH2: {
            std::string n = callee->F->getName().str();
            if (a[0].e || (b == B_MATH2 && a[1].e)) throw Unsup{"symbolic argument to " + n};
            double x = bitsd(a[0].c), y = b == B_MATH2 ? bitsd(a[1].c) : 0, r;
            r = n == "log" ? std::log(x) : n == "log1p" ? std::log1p(x) : n == "exp" ? std::exp(x) : n == "sqrt" ? std::sqrt(x) : n == "floor" ? std::floor(x) : n == "ceil" ? std::ceil(x) : n == "log2" ? std::log2(x) : n == "log10" ? std::log10(x) : n == "expm1" ? std::expm1(x) : n == "tanh" ? std::tanh(x) : n == "pow" ? std::pow(x, y) : std::fmod(x, y);
            out = fConst(r); return true;
        }
        case B_ROUND: out = fUn(F_RINT, a[0]); return true;
        case B_LROUND: out = fToInt(fUn(F_RINT, a[0]), 64, true); return true;
        default: throw Unsup{"builtin"};
    }
}
static Val execIntrinsic(State& s, CInst& ci, std::vector<Val>& a, std::vector<Val>& multi, bool& isVoid) {
    isVoid = false; unsigned w = ci.w;
    switch (ci.iid) {
        case Intrinsic::vastart: case Intrinsic::vaend: /* only ever handed to vsnprintf, whose text is not modelled (h/symrt.cc) */ case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
            isVoid = true; return Val();
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: return a[0];
        case Intrinsic::is_constant: return Val(0);
        case Intrinsic::objectsize: return Val(~0ull);
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), sr = concretize(s, a[1], 64); memMove(s, d, sr, n); isVoid = true; return Val(); }
        case Intrinsic::memset: { bool j; Val o; execBuiltin(s, ci, B_MEMSET, nullptr, a, o, j); isVoid = true; return Val(); }
        case Intrinsic::umin: return pick(s, vUlt(a[1], a[0], w), a[1], a[0], w);
        case Intrinsic::umax: return pick(s, vUlt(a[0], a[1], w), a[1], a[0], w);
        case Intrinsic::smin: return pick(s, vSlt(a[1], a[0], w), a[1], a[0], w);
        case Intrinsic::smax: return pick(s, vSlt(a[0], a[1], w), a[1], a[0], w);
        case Intrinsic::abs: return pick(s, vSlt(a[0], Val(0), w), vSub(Val(0), a[0], w), a[0], w);
        case Intrinsic::usub_sat: return pick(s, vUlt(a[0], a[1], w), Val(0), vSub(a[0], a[1], w), w);
        case Intrinsic::uadd_sat: { if (w >= 64) throw Unsup{"uadd.sat64"}; Lin l = exactU(a[0], w); Lin m = exactU(a[1], w); Val x = vAdd(vZext(a[0], w, 64), vZext(a[1], w, 64), 64); return vIte(vUlt(Val(maskw(w)), x, 64), Val(maskw(w)), vTrunc(x, 64, w), w); }
        case Intrinsic::ctlz: {
            if (!a[0].e) { u64 v = a[0].c & maskw(w); return Val(v ? (u64)(__builtin_clzll(v) - (64 - w)) : w); }
            // case split on the leading bit: find it by binary search of decisions x < 2^i, following the model first
            u64 v0 = evalVal(a[0], w, useModel(s));
            unsigned lz = v0 ? (unsigned)(__builtin_clzll(v0) - (64 - w)) : w;
            // x < 2^(w-lz)
            if (lz > 0) { if (!decide(s, vUlt(a[0], Val(1ull << (w - lz)), w))) throw Unsup{"ctlz"}; }
            if (lz < w) { if (decide(s, vUlt(a[0], Val(1ull << (w - lz - 1)), w))) throw Unsup{"ctlz2"}; }
            return Val(lz);
        }
        case Intrinsic::cttz: { u64 v = concretize(s, a[0], w); return Val(v ? (u64)__builtin_ctzll(v) : w); }
        case Intrinsic::ctpop: { u64 v = concretize(s, a[0], w); return Val((u64)__builtin_popcountll(v)); }
        case Intrinsic::bswap: { u64 v = concretize(s, a[0], w); return Val(__builtin_bswap64(v) >> (64 - w)); }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u64 sh2 = concretize(s, a[2], w) % w; u64 x = concretize(s, a[0], w), y = concretize(s, a[1], w);
            if (ci.iid == Intrinsic::fshl) return Val(sh2 ? ((x << sh2) | (y >> (w - sh2))) & maskw(w) : x);
            return Val(sh2 ? ((x << (w - sh2)) | (y >> sh2)) & maskw(w) : y);
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
            int op = (ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow) ? 0 : (ci.iid == Intrinsic::usub_with_overflow || ci.iid == Intrinsic::ssub_with_overflow) ? 1 : 2;
            if (!a[0].e && !a[1].e) {
                i128 x = sg ? (i128)sextw(a[0].c, w) : (i128)(a[0].c & maskw(w)), y = sg ? (i128)sextw(a[1].c, w) : (i128)(a[1].c & maskw(w));
                i128 r = op == 0 ? x + y : op == 1 ? x - y : x * y;
                i128 lo = sg ? -(((i128)1) << (w - 1)) : 0, hi = sg ? (((i128)1) << (w - 1)) - 1 : (((i128)1) << w) - 1;
                multi = {Val((u64)r & maskw(w)), Val(r < lo || r > hi)}; return Val();
            }
            if (w == 64) {
                Lin x = sg ? exactS(a[0], w) : exactU(a[0], w), y = sg ? exactS(a[1], w) : exactU(a[1], w);
                i128 xl, xh, yl, yh; linRange(x, xl, xh); linRange(y, yl, yh);
                i128 l, h; if (op == 0) { l = xl + yl; h = xh + yh; } else if (op == 1) { l = xl - yh; h = xh - yl; } else { i128 c4[4] = {xl * yl, xl * yh, xh * yl, xh * yh}; l = *std::min_element(c4, c4 + 4); h = *std::max_element(c4, c4 + 4); }
                i128 lo = sg ? INT64_MIN : 0, hi = sg ? (i128)INT64_MAX : (((i128)1) << 64) - 1;
                Val r = op == 0 ? vAdd(a[0], a[1], w) : op == 1 ? vSub(a[0], a[1], w) : vMul(a[0], a[1], w);
                if (l >= lo && h <= hi) { multi = {r, Val(0)}; return Val(); }
                if (op == 1 && !sg) { multi = {r, vUlt(a[0], a[1], w)}; return Val(); }
                throw Unsup{"with.overflow64"};
            }
            Val x = sg ? vSext(a[0], w, 64) : vZext(a[0], w, 64), y = sg ? vSext(a[1], w, 64) : vZext(a[1], w, 64);
            Val r = op == 0 ? vAdd(x, y, 64) : op == 1 ? vSub(x, y, 64) : vMul(x, y, 64);
            Val ov = sg ? bOr(vSlt(r, Val((u64) - (1ll << (w - 1))), 64), vSlt(Val((1ull << (w - 1)) - 1), r, 64)) : bOr(vSlt(r, Val(0), 64), vSlt(Val(maskw(w)), r, 64));
            multi = {vTrunc(r, 64, w), ov}; return Val();
        }
        case Intrinsic::eh_typeid_for: { u64 t = a[0].c; return Val(t ? (t & 0x7fffffff) : 1); }
        case Intrinsic::trap: throw Die{"trap", false};
        case Intrinsic::ubsantrap: throw Die{"undefined behaviour (ubsan check " + std::to_string(a[0].c) + ")", false};
        case Intrinsic::stacksave: return Val(s.reg[R_STACK].top);
        case Intrinsic::stackrestore: popStack(s, a[0].c); isVoid = true; return Val();
        case Intrinsic::fabs: return fUn(F_ABS, a[0]);
        case Intrinsic::round: return fUn(F_RINT, a[0]);
        case Intrinsic::lround: case Intrinsic::llround: return fToInt(fUn(F_RINT, a[0]), 64, true);
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: {
            Lin l; if (a[0].e && fAsLin(a[0], l)) return a[0];
            if (a[0].e && fExact(a[0])) {
                Val fl, ce;
                if (fFloor(a[0], fl) && fFloor(fUn(F_NEG, a[0]), ce)) {
                    ce = fUn(F_NEG, ce);
                    if (ci.iid == Intrinsic::floor) return fl;
                    if (ci.iid == Intrinsic::ceil) return ce;
                    if (ci.iid == Intrinsic::trunc) return fIte(fCmp(F_LT, a[0], fConst(0)), ce, fl);
                }
            }
            if (a[0].e) throw Unsup{"symbolic floor/ceil/trunc"};
            double d = bitsd(a[0].c); return fConst(ci.iid == Intrinsic::floor ? std::floor(d) : ci.iid == Intrinsic::ceil ? std::ceil(d) : ci.iid == Intrinsic::trunc ? std::trunc(d) : std::nearbyint(d));
        }
        case Intrinsic::fmuladd: case Intrinsic::fma: { return fBin(F_ADD, fBin(F_MUL, a[0], a[1]), a[2]); }
        case Intrinsic::sqrt: case Intrinsic::log: case Intrinsic::exp: { if (a[0].e) throw Unsup{"symbolic sqrt/log/exp"}; double d = bitsd(a[0].c); return fConst(ci.iid == Intrinsic::sqrt ? std::sqrt(d) : ci.iid == Intrinsic::log ? std::log(d) : std::exp(d)); }
        case Intrinsic::minnum: return fIte(fCmp(F_LT, a[1], a[0]), a[1], a[0]);
        case Intrinsic::maxnum: return fIte(fCmp(F_LT, a[0], a[1]), a[1], a[0]);
        case Intrinsic::copysign: { if (a[0].e || a[1].e) { if (fExact(a[0]) && fExact(a[1])) { Val ab = fUn(F_ABS, a[0]); return fIte(fCmp(F_LT, a[1], fConst(0)), fUn(F_NEG, ab), ab); } throw Unsup{"copysign"}; } return fConst(std::copysign(bitsd(a[0].c), bitsd(a[1].c))); }
        case Intrinsic::is_fpclass: { if (a[0].e) { if (fExact(a[0])) { u64 mask = a[1].c; if ((mask & 0x3) == mask || (mask & (0x3 | 0x204)) == mask) return Val(0); } throw Unsup{"is_fpclass"}; } double d = bitsd(a[0].c); u64 m = a[1].c; bool r = false; if (std::isnan(d)) r = m & 3; else if (std::isinf(d)) r = d < 0 ? (m & 4) : (m & 0x200); else if (d == 0) r = std::signbit(d) ? (m & 0x20) : (m & 0x40); else if (std::isnormal(d)) r = d < 0 ? (m & 8) : (m & 0x100); else r = d < 0 ? (m & 0x10) : (m & 0x80); return Val(r); }
        default: throw Unsup{"intrinsic " + Intrinsic::getBaseName(ci.iid).str()};
    }
}
static u64 g_liveSteps = 0;
// executes one state until it ends; siblings go to the work list
static bool stopNow() { return sh->stop || now() > deadline; }
// returns: 0 path ended, 1 interrupted (bfs budget / stop)
static int runState(State* sp, u64 budget) {
    State& s = *sp; cur = sp;
    std::vector<Val> args;
    u64 n = 0;
    try {
        while (true) {
            if ((++n & 0xfff) == 0) { if (stopNow()) { R.steps += n; return 1; } }
            if (n > budget) { R.steps += n; return 1; }
            if (++s.steps > maxSteps) { R.stepLimit++; throw Die{"step limit exceeded (possible non-termination)", false}; }
            Frame& f = top(s);
            CInst& ci = f.f->blocks[f.bb].insts[f.pc];
            auto op = [&](size_t i) -> const Val& { const Operand& o = ci.ops[i]; return o.isC ? o.v : f.regs[o.reg]; };
            std::vector<Val> pre; if (optSelf) for (size_t i = 0; i < ci.ops.size(); i++) pre.push_back(op(i));
            switch (ci.op) {
                case Instruction::Add: f.regs[ci.dst] = vAdd(op(0), op(1), ci.w); break;
                case Instruction::Sub: f.regs[ci.dst] = vSub(op(0), op(1), ci.w); break;
                case Instruction::Mul: f.regs[ci.dst] = vMul(op(0), op(1), ci.w); break;
                case Instruction::And: f.regs[ci.dst] = vAnd(settle(s, op(0), ci.w), settle(s, op(1), ci.w), ci.w); break;
                case Instruction::Or: f.regs[ci.dst] = vOr(settle(s, op(0), ci.w), settle(s, op(1), ci.w), ci.w); break;
                case Instruction::Xor: f.regs[ci.dst] = vXor(settle(s, op(0), ci.w), settle(s, op(1), ci.w), ci.w); break;
                case Instruction::Shl: { u64 k = concretize(s, op(1), ci.w); f.regs[ci.dst] = k >= ci.w ? Val(0) : k == 63 ? vMulC(op(0), INT64_MIN, ci.w) : vMulC(op(0), 1ll << k, ci.w); break; }
                case Instruction::LShr: { u64 k = concretize(s, op(1), ci.w); f.regs[ci.dst] = vLshrC(op(0), k, ci.w); break; }
                case Instruction::AShr: { u64 k = concretize(s, op(1), ci.w); f.regs[ci.dst] = vAshrC(op(0), k, ci.w); break; }
                case Instruction::UDiv: case Instruction::URem: {
                    u64 d = concretize(s, op(1), ci.w); if (!d) throw Die{"division by zero", false};
                    Val q = vUdivC(op(0), d, ci.w);
                    f.regs[ci.dst] = ci.op == Instruction::UDiv ? q : vSub(op(0), vMulC(q, (i64)d, ci.w), ci.w); break;
                }
                case Instruction::SDiv: case Instruction::SRem: {
                    i64 d = sextw(concretize(s, op(1), ci.w), ci.w); if (!d) throw Die{"division by zero", false};
                    Val x = op(0); Val q;
                    if (!x.e) { i64 xv = sextw(x.c, ci.w); if (d == -1) q = Val((u64)(0 - (u64)xv) & maskw(ci.w)); else q = Val((u64)(xv / d) & maskw(ci.w)); }
                    else {
                        bool neg = decide(s, vSlt(x, Val(0), ci.w)); Val ax = neg ? vSub(Val(0), x, ci.w) : x;
                        q = vUdivC(ax, d < 0 ? (u64)-d : (u64)d, ci.w); if (neg != (d < 0)) q = vSub(Val(0), q, ci.w);
                    }
                    f.regs[ci.dst] = ci.op == Instruction::SDiv ? q : vSub(x, vMulC(q, d, ci.w), ci.w); break;
                }
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
                    if (ci.I->getType()->isDoubleTy()) f.regs[ci.dst] = fBin(ci.op == Instruction::FAdd ? F_ADD : ci.op == Instruction::FSub ? F_SUB : ci.op == Instruction::FMul ? F_MUL : F_DIV, op(0), op(1));
                    else if (ci.I->getType()->isFloatTy() && !op(0).e && !op(1).e) { float x, y; uint32_t u = op(0).c, v = op(1).c; memcpy(&x, &u, 4); memcpy(&y, &v, 4); float r = ci.op == Instruction::FAdd ? x + y : ci.op == Instruction::FSub ? x - y : ci.op == Instruction::FMul ? x * y : x / y; memcpy(&u, &r, 4); f.regs[ci.dst] = Val(u); }
                    else throw Unsup{"non-double fp"};
                    break;
                case Instruction::FNeg: f.regs[ci.dst] = fUn(F_NEG, op(0)); break;
                case Instruction::ICmp: {
                    const Val &a = op(0), &b = op(1); Val r; if (!ci.w) throw Unsup{"vector icmp"};
                    switch (ci.aux[0]) {
                        case CmpInst::ICMP_EQ: r = vEq(a, b, ci.w); break;
                        case CmpInst::ICMP_NE: r = bNot(vEq(a, b, ci.w)); break;
                        case CmpInst::ICMP_ULT: r = vUlt(a, b, ci.w); break;
                        case CmpInst::ICMP_ULE: r = vUle(a, b, ci.w); break;
                        case CmpInst::ICMP_UGT: r = vUlt(b, a, ci.w); break;
                        case CmpInst::ICMP_UGE: r = vUle(b, a, ci.w); break;
                        case CmpInst::ICMP_SLT: r = vSlt(a, b, ci.w); break;
                        case CmpInst::ICMP_SLE: r = vSle(a, b, ci.w); break;
                        case CmpInst::ICMP_SGT: r = vSlt(b, a, ci.w); break;
                        case CmpInst::ICMP_SGE: r = vSle(b, a, ci.w); break;
                    }
                    f.regs[ci.dst] = r; break;
                }
                case Instruction::FCmp: {
                    if (ci.aux[0] & 0x100) throw Unsup{"non-double fcmp"};
                    const Val &a = op(0), &b = op(1); Val r; Val uno = fCmp(F_UNO, a, b);
                    switch (ci.aux[0]) {
                        case CmpInst::FCMP_FALSE: r = Val(0); break; case CmpInst::FCMP_TRUE: r = Val(1); break;
                        case CmpInst::FCMP_OEQ: r = fCmp(F_EQ, a, b); break;
                        case CmpInst::FCMP_UEQ: r = bOr(uno, fCmp(F_EQ, a, b)); break;
                        case CmpInst::FCMP_ONE: r = bAnd(bNot(uno), bNot(fCmp(F_EQ, a, b))); break;
                        case CmpInst::FCMP_UNE: r = bNot(fCmp(F_EQ, a, b)); break;
                        case CmpInst::FCMP_OLT: r = fCmp(F_LT, a, b); break; case CmpInst::FCMP_OLE: r = fCmp(F_LE, a, b); break;
                        case CmpInst::FCMP_OGT: r = fCmp(F_LT, b, a); break; case CmpInst::FCMP_OGE: r = fCmp(F_LE, b, a); break;
                        case CmpInst::FCMP_ULT: r = bNot(fCmp(F_LE, b, a)); break; case CmpInst::FCMP_ULE: r = bNot(fCmp(F_LT, b, a)); break;
                        case CmpInst::FCMP_UGT: r = bNot(fCmp(F_LE, a, b)); break; case CmpInst::FCMP_UGE: r = bNot(fCmp(F_LT, a, b)); break;
                        case CmpInst::FCMP_ORD: r = bNot(uno); break; case CmpInst::FCMP_UNO: r = uno; break;
                    }
                    f.regs[ci.dst] = r; break;
                }
                case Instruction::Trunc: f.regs[ci.dst] = vTrunc(op(0), ci.aux[0], ci.w); break;
                case Instruction::ZExt: f.regs[ci.dst] = vZext(op(0), ci.aux[0], ci.w); break;
                case Instruction::SExt: f.regs[ci.dst] = vSext(op(0), ci.aux[0], ci.w); break;
                case Instruction::PtrToInt: f.regs[ci.dst] = ci.w < 64 ? vTrunc(op(0), 64, ci.w) : op(0); break;
                case Instruction::IntToPtr: f.regs[ci.dst] = ci.aux[0] < 64 ? vZext(op(0), ci.aux[0], 64) : op(0); break;
                case Instruction::BitCast: {
                    if (op(0).e && ((op(0).e->k == K_FP) != ci.I->getType()->isDoubleTy())) throw Unsup{"bitcast of symbolic fp"};
                    f.regs[ci.dst] = op(0); break;
                }
                case Instruction::SIToFP: case Instruction::UIToFP: {
                    if (ci.aux.size() > 1) { if (op(0).e) throw Unsup{"int to float"}; float x = ci.op == Instruction::SIToFP ? (float)sextw(op(0).c, ci.aux[0]) : (float)(op(0).c & maskw(ci.aux[0])); uint32_t u; memcpy(&u, &x, 4); f.regs[ci.dst] = Val(u); break; }
                    if (!op(0).e) { f.regs[ci.dst] = fConst(ci.op == Instruction::SIToFP ? (double)sextw(op(0).c, ci.aux[0]) : (double)(op(0).c & maskw(ci.aux[0]))); break; }
                    f.regs[ci.dst] = fFromInt(ci.op == Instruction::SIToFP ? exactS(op(0), ci.aux[0]) : exactU(op(0), ci.aux[0])); break;
                }
                case Instruction::FPToSI: case Instruction::FPToUI: {
                    if (ci.aux[0] == 0x132) { if (op(0).e) throw Unsup{"float"}; float x; uint32_t u = op(0).c; memcpy(&x, &u, 4); f.regs[ci.dst] = Val((u64)(i64)x & maskw(ci.w)); break; }
                    f.regs[ci.dst] = fToInt(op(0), ci.w, ci.op == Instruction::FPToSI); break;
                }
                case Instruction::FPExt: { if (op(0).e) throw Unsup{"fpext"}; float x; uint32_t u = op(0).c; memcpy(&x, &u, 4); f.regs[ci.dst] = fConst(x); break; }
                case Instruction::FPTrunc: { if (op(0).e) throw Unsup{"fptrunc"}; float x = (float)bitsd(op(0).c); uint32_t u; memcpy(&u, &x, 4); f.regs[ci.dst] = Val(u); break; }
                case Instruction::Select: {
                    const Val& c = op(0); int k = ci.ndst;
                    if (!c.e) { for (int i = 0; i < k; i++) f.regs[ci.dst + i] = op((c.c & 1 ? 1 : 1 + k) + i); break; }
                    Type* T = ci.I->getType();
                    if (T->isIntegerTy()) { bool neg; Expr* at = litAtom(c, neg); int q = quick(s, at); if (q >= 0) f.regs[ci.dst] = ((q == 1) != neg) ? op(1) : op(2); else f.regs[ci.dst] = pick(s, c, op(1), op(2), ci.w); }
                    else if (T->isDoubleTy()) f.regs[ci.dst] = fIte(c, op(1), op(2));
                    else { bool b = decide(s, c); for (int i = 0; i < k; i++) f.regs[ci.dst + i] = op((b ? 1 : 1 + k) + i); }
                    break;
                }
                case Instruction::Freeze: for (int i = 0; i < ci.ndst; i++) f.regs[ci.dst + i] = op(i); break;
                case Instruction::GetElementPtr: {
                    Val p = op(0); u64 off = ci.aux[0];
                    for (size_t i = 0; i < ci.gepScale.size() / 2; i++) {
                        const Val& ix = op(1 + i); unsigned iw = ci.gepScale[2 * i + 1]; u64 sc = ci.gepScale[2 * i];
                        if (!ix.e) off += (u64)sextw(ix.c, iw) * sc; else p = vAdd(p, vMulC(iw < 64 ? vSext(ix, iw, 64) : ix, (i64)sc, 64), 64);
                    }
                    f.regs[ci.dst] = p.e ? vAdd(p, Val(off), 64) : Val(p.c + off); break;
                }
                case Instruction::Alloca: { u64 c = concretize(s, op(0), 64); f.regs[ci.dst] = Val(stackAlloc(s, c * ci.aux[0], std::max<u64>(ci.aux[1], 1))); break; }
                case Instruction::Load: {
                    u64 a = concretize(s, op(0), 64);
                    for (size_t i = 0; i < ci.layout.size(); i++) { unsigned lw = ci.layout[i].second; if (lw & 0x1000) throw Unsup{"load type"}; Frame& g = f; g.regs[ci.dst + i] = load(s, a + ci.layout[i].first, lw & 0xff, lw & 0x100); }
                    break;
                }
                case Instruction::Store: {
                    u64 a = concretize(s, op(0), 64);
                    for (size_t i = 0; i < ci.layout.size(); i++) { unsigned lw = ci.layout[i].second; if (lw & 0x1000) throw Unsup{"store type"}; store(s, a + ci.layout[i].first, op(1 + i), lw & 0xff); }
                    break;
                }
                case Instruction::ExtractValue: for (int i = 0; i < ci.ndst; i++) f.regs[ci.dst + i] = op(ci.aux[0] + i); break;
                case Instruction::InsertValue: { u64 na = ci.aux[0], sk = ci.aux[1], ni = ci.ops.size() - na; std::vector<Val> t; for (u64 i = 0; i < na; i++) t.push_back(op(i)); for (u64 i = 0; i < ni; i++) t[sk + i] = op(na + i); for (u64 i = 0; i < na; i++) f.regs[ci.dst + i] = t[i]; break; }
                case Instruction::ExtractElement: { u64 ix = concretize(s, op(ci.ops.size() - 1), 64); f.regs[ci.dst] = op(ix); break; }
                case Instruction::InsertElement: { u64 ix = concretize(s, op(ci.ops.size() - 1), 64); std::vector<Val> t; for (int i = 0; i < ci.ndst; i++) t.push_back(op(i)); t[ix] = op(ci.ndst); for (int i = 0; i < ci.ndst; i++) f.regs[ci.dst + i] = t[i]; break; }
                case Instruction::Br: {
                    uint32_t nb;
                    if (ci.aux.size() == 1) nb = ci.aux[0]; else { bool b = decide(s, op(0)); nb = ci.aux[b ? 0 : 1]; }
                    enterBlock(s, f, nb); continue;
                }
                case Instruction::Switch: {
                    const Val v = op(0); uint32_t nb = ci.aux[0];
                    if (!v.e) { for (size_t i = 1; i + 1 < ci.aux.size(); i += 2) if (((v.c ^ ci.aux[i]) & maskw(ci.w)) == 0) { nb = ci.aux[i + 1]; break; } }
                    else for (size_t i = 1; i + 1 < ci.aux.size(); i += 2) if (decide(s, vEq(v, Val(ci.aux[i]), ci.w))) { nb = ci.aux[i + 1]; break; }
                    enterBlock(s, f, nb); continue;
                }
                case Instruction::Ret: {
                    std::vector<Val> rv; for (size_t i = 0; i < ci.ops.size(); i++) rv.push_back(op(i));
                    if (s.stack.size() == 1) { R.steps += n; if (!flushAsserts(s)) {} R.ended++; return 0; }
                    bool fin = false; doReturn(s, rv, fin); continue;
                }
                case Instruction::Unreachable: throw Die{"unreachable code reached", false};
                case Instruction::Resume: { s.excObj = op(0).c; unwind(s); continue; }
                case Instruction::Fence: break;
                case Instruction::AtomicRMW: {
                    u64 a = concretize(s, op(0), 64); Val o = load(s, a, ci.w, false); Val nv;
                    switch (ci.aux[0]) { case AtomicRMWInst::Add: nv = vAdd(o, op(1), ci.w); break; case AtomicRMWInst::Sub: nv = vSub(o, op(1), ci.w); break; case AtomicRMWInst::Xchg: nv = op(1); break; default: throw Unsup{"atomicrmw"}; }
                    store(s, a, nv, ci.w); f.regs[ci.dst] = o; break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    args.clear(); for (size_t i = 0; i < ci.ops.size(); i++) args.push_back(op(i));
                    CFunc* callee = ci.callee; int bi = ci.builtin;
                    if (ci.iid) {
                        std::vector<Val> multi; bool isVoid; Val r = execIntrinsic(s, ci, args, multi, isVoid);
                        Frame& g = top(s);
                        if (!multi.empty()) for (size_t i = 0; i < multi.size(); i++) g.regs[ci.dst + i] = multi[i]; else if (!isVoid && ci.dst >= 0) g.regs[ci.dst] = r;
                        break;
                    }
                    if (!callee) {
                        u64 fa = concretize(s, args.back(), 64); args.pop_back();
                        if (fa < FUNCBASE || (fa - FUNCBASE) % 16 || (fa - FUNCBASE) / 16 >= funcByAddr.size()) throw Die{"call through invalid function pointer " + hexs(fa), false};
                        callee = funcByAddr[(fa - FUNCBASE) / 16]; bi = builtinFor(callee->F);
                    }
                    if (bi != B_NONE) {
                        Val out; bool jumped;
                        execBuiltin(s, ci, bi, callee, args, out, jumped);
                        if (jumped) continue;
                        Frame& g = top(s);
                        if (ci.dst >= 0) g.regs[ci.dst] = out;
                        if (ci.op == Instruction::Invoke) { enterBlock(s, g, ci.aux[0]); continue; }
                        break;
                    }
                    Frame& g = top(s);
                    if (ci.op == Instruction::Call) g.pc++;
                    callFunc(s, callee, args, ci.dst, ci.op == Instruction::Invoke, ci.op == Instruction::Invoke ? ci.aux[0] : 0, ci.op == Instruction::Invoke ? ci.aux[1] : 0);
                    continue;
                }
                default: throw Unsup{std::string("instruction ") + ci.I->getOpcodeName()};
            }
            if (optSelf) selfCheck(s, ci, f, pre);
            top(s).pc++;
        }
    } catch (Die& d) {
        R.steps += n;
        if (!d.silent) { if (flushAsserts(s)) recordViolation(s, "crash", d.why, *s.model); }
        return 0;
    } catch (Unsup& u) {
        R.steps += n; R.unsupported[u.why + " @ " + whereIs(s)]++;
        return 0;
    } catch (std::string& u) {
        R.steps += n; R.unsupported["expr: " + u + " @ " + whereIs(s)]++;
        return 0;
    }
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static unsigned optSamples = 20; static u64 pathNo = 0;
static void finishPath(State& s) {
    R.paths++; R.maxDepth = std::max(R.maxDepth, s.depth);
    for (auto& r : s.reached) R.reached[r]++;
    pathNo++;
    bool take = R.samples.size() < optSamples / 2 || ((pathNo & (pathNo - 1)) == 0 && R.samples.size() < optSamples);
    if (take) {
        const Model& m = useModel(s);
        std::string o;
        for (int i : s.inputs) o += "in " + g_vars[i].name + " " + std::to_string((size_t)i < m.size() ? m[i] : g_vars[i].lo) + "\n";
        for (auto& x : s.outs) o += "out " + x.first + " " + std::to_string((i64)evalVal(x.second, 64, m)) + "\n";
        R.samples.push_back(o);
    }
}
static void drive(State* s) {
    u64 endedBefore = R.ended; size_t vb = R.viols.size(); (void)vb;
    int r = runState(s, ~0ull);
    if (r == 1) { R.unexplored++; delete s; return; }
    if (R.ended > endedBefore) finishPath(*s);
    delete s;
    if ((unsigned long)sh->viol >= maxViol) sh->stop = 1;
}
static void initGlobals(State& s) {
    for (auto& g : M->globals()) {
        u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; if (!g.hasInitializer() && sz < 512) sz = 512;
        Region& r = s.reg[R_GLOBAL]; u64 al = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
        u64 t = (r.top + 16 + al - 1) / al * al; gaddr[&g] = REGBASE[R_GLOBAL] + t; r.top = t + sz + 16;
        setOk(s, REGBASE[R_GLOBAL] + t, sz ? sz : 1, true);
        if (!g.hasInitializer()) { std::vector<uint8_t> z(sz, 0); rawWrite(s, REGBASE[R_GLOBAL] + t, z.data(), sz); }
    }
    for (auto& g : M->globals()) if (g.hasInitializer()) {
        u64 a = gaddr[&g]; u64 sz = DL->getTypeAllocSize(g.getValueType());
        { std::vector<uint8_t> z(sz, 0); rawWrite(s, a, z.data(), sz); }
        if (isa<ConstantAggregateZero>(g.getInitializer()) || isa<UndefValue>(g.getInitializer())) continue;
        std::vector<Val> v; std::vector<std::pair<u64, unsigned>> lay;
        try { constVals(g.getInitializer(), v); } catch (Unsup& u) { continue; }
        flatten(g.getValueType(), lay);
        for (size_t i = 0; i < lay.size() && i < v.size(); i++) store(s, a + lay[i].first, v[i], lay[i].second & 0xff, false);
    }
}
static void writeResults(const std::string& fn) {
    std::ofstream o(fn);
    o << "paths " << R.paths << "\nforks " << R.forks << "\nsteps " << R.steps << "\nasserts " << R.asserts << "\nassertQueries " << R.assertQueries << "\nunexplored " << R.unexplored << "\nunknown " << R.unknownDrop << "\nassumeKilled " << R.assumeKilled << "\nmaxDepth " << R.maxDepth << "\nstepLimit " << R.stepLimit << "\n";
    o << "queries " << g_sstats.queries << "\nsat " << g_sstats.sat << "\nunsat " << g_sstats.unsat << "\nsolverUnknown " << g_sstats.unknown << "\nbvQueries " << g_sstats.bvQueries << "\nsolverTime " << g_sstats.time << "\nsolverMax " << g_sstats.maxTime << "\nexprs " << g_nExprs << "\n";
    for (auto& u : R.unsupported) o << "unsup " << u.second << " " << jesc(u.first) << "\n";
    for (auto& u : R.reached) o << "reach " << u.second << " " << u.first << "\n";
    for (auto& kv : funcs) { CFunc* f = kv.second; if (!f->compiled || !f->repo) continue; u64 c = 0; for (auto& b : f->blocks) c += b.covered; o << "func " << c << " " << f->blocks.size() << " " << f->F->getName().str() << "\n"; for (size_t i = 0; i < f->blocks.size(); i++) if (f->blocks[i].covered) o << "bb " << f->F->getName().str() << " " << i << "\n"; }
    {   // source functions (inlined ones included) and lines executed
        std::set<std::string> fn, ln;
        for (auto& kv : funcs) {
            CFunc* f = kv.second; if (!f->compiled) continue;
            for (auto& b : f->blocks) if (b.covered && b.bb) for (auto& in : *b.bb) {
                for (DILocation* l = in.getDebugLoc().get(); l; l = l->getInlinedAt()) {
                    auto* sp = l->getScope()->getSubprogram(); if (!sp) continue;
                    std::string p = sp->getFilename().str(); if (p.empty() || p[0] != '/') p = (sp->getDirectory() + "/" + sp->getFilename()).str();
                    size_t k = p.find(repoPrefix); if (k == std::string::npos) continue;
                    p = p.substr(k + repoPrefix.size());
                    fn.insert(p + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str());
                    std::string q = l->getFilename().str(); k = q.find(repoPrefix); if (k != std::string::npos) ln.insert(q.substr(k + repoPrefix.size()) + ":" + std::to_string(l->getLine()));
                }
            }
        }
        for (auto& x : fn) o << "sfunc " << x << "\n";
        for (auto& x : ln) o << "sline " << x << "\n";
    }
    for (auto& v : R.viols) {
        o << "viol " << v.kind << " | " << jesc(v.msg) << " | " << jesc(v.where) << "\n";
        for (auto& in : v.inputs) o << "vin " << in.first << " " << (i64)in.second << "\n";
        for (auto& t : v.trail) o << "vtrail " << jesc(t) << "\n";
        o << "vend\n";
    }
    for (auto& sm : R.samples) o << "sample\n" << sm << "send\n";
}
static long myFile = 0; static double lastSplit = 0;
int main(int argc, char** argv) {
    std::string bc, out = "-"; int workers = 8; double tlimit = 300; unsigned frontier = 64; u64 seed = 1;
    repoPrefix = "/repo/";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--time") tlimit = atof(nx().c_str()); else if (a == "--max-steps") maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--frontier") frontier = atoi(nx().c_str()); else if (a == "--max-viol") maxViol = atoi(nx().c_str());
        else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--repo") repoPrefix = nx(); else if (a == "--samples") optSamples = atoi(nx().c_str()); else if (a == "-v") optVerbose = true;
        else if (a == "--bv") g_forceBv = true; else if (a == "--selfcheck") optSelf = true;
        else if (a == "--solver-timeout") g_solverTimeoutMs = atoi(nx().c_str()); else if (a == "--dump") { g_dumpDir = nx(); g_dumpMax = 50; }
        else bc = a;
    }
    g_fdivHook = fdivHook;
    t0g = now(); deadline = t0g + tlimit; g_expired = [] { return now() > deadline; };
    LLVMContext ctx; SMDiagnostic err;
    M = parseIRFile(bc, err, ctx);
    if (!M) { err.print("symx", errs()); return 2; }
    DL = &M->getDataLayout();
    sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof *sh);
    solverReset();
    State* s0 = new State(); s0->model = std::make_shared<Model>();
    s0->allocs = nullptr;
    try {
        for (auto& f : *M) funcAddr(&f);
        initGlobals(*s0); setupTypes();
    } catch (Unsup& u) { fprintf(stderr, "init: %s\n", u.why.c_str()); return 2; }
    // global constructors
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> cs;
        for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) {
            try { callFunc(*s0, getFunc(c.second), {}, -1, false, 0, 0); } catch (Unsup& u) { fprintf(stderr, "ctor: %s\n", u.why.c_str()); return 2; }
            u64 e0 = R.ended; size_t nv = R.viols.size(); runState(s0, ~0ull);
            if (R.ended == e0) { for (auto& u : R.unsupported) fprintf(stderr, "global ctor failed: %s\n", u.first.c_str()); if (R.viols.size() > nv) fprintf(stderr, "global ctor failed: %s\n", R.viols.back().msg.c_str()); return 2; }
            s0->stack.clear();
        }
    }
    R = Results(); sh->viol = 0;
    Function* E = M->getFunction(optEntry);
    if (!E) { fprintf(stderr, "symx: no entry %s\n", optEntry.c_str()); return 2; }
    s0->steps = 0;
    callFunc(*s0, getFunc(E), {}, -1, false, 0, 0);
    bfs.push_back(s0);
    while (!bfs.empty() && bfs.size() < frontier && !stopNow()) { State* s = bfs.front(); bfs.pop_front(); drive(s); }
    bfsMode = false;
    std::string base = out + ".w";
    if (bfs.empty() || stopNow()) { R.unexplored += bfs.size(); writeResults(base + "0"); }
    else {
        std::vector<State*> fr(bfs.begin(), bfs.end());
        // shuffled so that a run cut short by its budget has seen a spread of the tree
        { u64 z = seed * 0x9e3779b97f4a7c15ull + 1; for (size_t i = fr.size(); i > 1; i--) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; std::swap(fr[i - 1], fr[z % i]); } }
        prctl(PR_SET_CHILD_SUBREAPER, 1);
        writeResults(base + "0");
        sh->active = workers; sh->nfile = 0;
        auto body = [&]() {
            // runs this process's share; hands half of its pending states to a new process whenever a worker slot is free
            while (true) {
                while (!work.empty()) {
                    if (stopNow()) { R.unexplored += work.size(); for (auto* x : work) delete x; work.clear(); break; }
                    if (work.size() >= 2 && sh->active < workers && sh->next >= (long)fr.size() && now() - lastSplit > 0.005) {
                        lastSplit = now();
                        long a = __sync_fetch_and_add(&sh->active, 1);
                        if (a >= workers) __sync_fetch_and_sub(&sh->active, 1);
                        else {
                            pid_t p = fork();
                            if (p < 0) __sync_fetch_and_sub(&sh->active, 1);
                            else {
                                std::vector<State*> mine;
                                for (size_t i = 0; i < work.size(); i++) if ((i & 1) == (p == 0 ? 0u : 1u)) mine.push_back(work[i]); else delete work[i];
                                work.assign(mine.begin(), mine.end());
                                if (p == 0) { solverReset(); R = Results(); g_sstats = SolverStats(); pathNo = 0; myFile = __sync_add_and_fetch(&sh->nfile, 1); }
                            }
                        }
                        continue;
                    }
                    State* x = work.back(); work.pop_back(); drive(x);
                }
                if (sh->stop) break;
                long i = __sync_fetch_and_add(&sh->next, 1);
                if (i >= (long)fr.size()) break;
                if (stopNow()) { R.unexplored++; continue; }
                work.push_back(fr[i]); fr[i] = nullptr;
            }
            writeResults(base + std::to_string(myFile));
            __sync_fetch_and_sub(&sh->active, 1);
            _exit(0);
        };
        for (int k = 0; k < workers; k++) {
            pid_t p = fork();
            if (p == 0) { solverReset(); R = Results(); g_sstats = SolverStats(); myFile = __sync_add_and_fetch(&sh->nfile, 1); body(); }
        }
        int bad = 0;
        while (true) {
            int st; pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; __sync_fetch_and_sub(&sh->active, 1); }
        }
        long left = (long)fr.size() - sh->next;
        std::ofstream o(base + "0", std::ios::app); o << "workersBad " << bad << "\nfrontierLeft " << (left > 0 ? left : 0) << "\n";
    }
    { std::ofstream o(base + "0", std::ios::app); o << "wall " << (now() - t0g) << "\n"; }
    fflush(stdout); fflush(stderr);
    _exit(0);
}
