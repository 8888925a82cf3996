#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <deque>

std::vector<VarInfo> g_vars;
uint32_t g_evalEpoch = 1;
u64 g_nExprs = 0;
bool (*g_fdivHook)(const Lin& r, i64 d, i128 ql, i128 qh, i128& q) = nullptr;

// ---------------------------------------------------------------- interning
namespace {
struct Key { const Expr* e; };
u64 hashE(const Expr* e) {
    u64 h = 1469598103934665603ull ^ (u64)e->k * 0x9E3779B97F4A7C15ull;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; };
    mix(e->n); mix((u64)e->kc); mix((u64)e->d);
    for (uint32_t i = 0; i < e->n; i++) { mix((u64)e->t[i].c); mix((u64)e->t[i].a->id); }
    return h;
}
struct H { size_t operator()(const Expr* e) const { return hashE(e); } };
struct EQ {
    bool operator()(const Expr* a, const Expr* b) const {
        if (a->k != b->k || a->n != b->n || a->kc != b->kc || a->d != b->d) return false;
        for (uint32_t i = 0; i < a->n; i++) if (a->t[i].c != b->t[i].c || a->t[i].a != b->t[i].a) return false;
        return true;
    }
};
std::unordered_set<Expr*, H, EQ> table;
char* pool = nullptr; size_t poolLeft = 0;
void* palloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (n > poolLeft) { size_t sz = std::max<size_t>(n, 1 << 20); pool = (char*)malloc(sz); poolLeft = sz; }
    void* r = pool; pool += n; poolLeft -= n; return r;
}
const i128 BIG = ((i128)1) << 100;
i128 clampb(i128 v) { return v > BIG ? BIG : v < -BIG ? -BIG : v; }
Expr* intern(Kind k, const Term* t, uint32_t n, i64 kc, i64 d, i128 lo, i128 hi, uint8_t fl) {
    Expr tmp; tmp.k = k; tmp.t = (Term*)t; tmp.n = n; tmp.kc = kc; tmp.d = d;
    auto it = table.find(&tmp);
    if (it != table.end()) return *it;
    Expr* e = new (palloc(sizeof(Expr))) Expr();
    e->k = k; e->n = n; e->kc = kc; e->d = d; e->lo = lo; e->hi = hi; e->flags = fl;
    e->id = (uint32_t)++g_nExprs;
    e->t = (Term*)palloc(sizeof(Term) * (n ? n : 1));
    for (uint32_t i = 0; i < n; i++) { e->t[i] = t[i]; e->flags |= t[i].a->flags & (FL_NONLIN | FL_FP); }
    table.insert(e);
    return e;
}
i64 fdivi(i64 a, i64 d) { i64 q = a / d; if ((a % d) != 0 && ((a < 0) != (d < 0))) q--; return q; }
i128 fdiv128(i128 a, i128 d) { i128 q = a / d; if ((a % d) != 0 && ((a < 0) != (d < 0))) q--; return q; }
i64 gcdi(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
bool fits64(i128 v) { return v >= INT64_MIN && v <= INT64_MAX; }
}  // namespace

void Lin::addTerm(i64 c, Expr* a) {
    // keep sorted by id
    if (!c) return;
    size_t lo = 0, hi = t.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (t[m].a->id < a->id) lo = m + 1; else hi = m; }
    if (lo < t.size() && t[lo].a == a) { t[lo].c = (i64)((u64)t[lo].c + (u64)c); if (!t[lo].c) t.erase(t.begin() + lo); }
    else t.insert(t.begin() + lo, Term{c, a});
}
static void addLin(Lin& r, const Lin& o, i64 m) {
    for (auto& x : o.t) r.addTerm((i64)((u64)x.c * (u64)m), x.a);
    r.k = (i64)((u64)r.k + (u64)o.k * (u64)m);
}
// the same in exact arithmetic: refuses coefficients beyond 64 bits instead of wrapping
static void addLinX(Lin& r, const Lin& o, i64 m) {
    for (auto& x : o.t) {
        i64 c, old = 0, sum;
        for (auto& y : r.t) if (y.a == x.a) old = y.c;
        if (__builtin_mul_overflow(x.c, m, &c) || __builtin_add_overflow(old, c, &sum)) throw std::string("coefficient overflow");
        r.addTerm(c, x.a);
    }
    i64 k;
    if (__builtin_mul_overflow(o.k, m, &k) || __builtin_add_overflow(r.k, k, &r.k)) throw std::string("constant overflow");
}
static void linRangeK(const Lin& l, i128 k, i128& lo, i128& hi) {
    lo = hi = k;
    for (auto& x : l.t) {
        i128 a = (i128)x.c * x.a->lo, b = (i128)x.c * x.a->hi;
        if (x.c < 0) std::swap(a, b);
        lo += a; hi += b;
    }
    // m*(L - d*floor(L/d)) lies in [0, m*(d-1)]: tighten when that pattern occurs
    for (auto& f : l.t) if (f.a->k == K_FDIV && f.c % f.a->d == 0) {
        i64 m = -(f.c / f.a->d);
        Lin r = l; bool ok = true;
        for (uint32_t i = 0; i < f.a->n && ok; i++) {
            bool found = false;
            for (auto& x : l.t) if (x.a == f.a->t[i].a) { found = ((i128)x.c == (i128)m * f.a->t[i].c); break; }
            ok = found;
        }
        if (!ok) continue;
        r.addTerm(-f.c, f.a);
        for (uint32_t i = 0; i < f.a->n; i++) r.addTerm(-m * f.a->t[i].c, f.a->t[i].a);
        i128 a, b; linRangeK(r, k - (i128)m * f.a->kc, a, b);
        i128 c0 = 0, c1 = (i128)m * (f.a->d - 1); if (c1 < c0) std::swap(c0, c1);
        lo = std::max(lo, a + c0); hi = std::min(hi, b + c1);
    }
    lo = clampb(lo); hi = clampb(hi);
}
void linRange(const Lin& l, i128& lo, i128& hi) { linRangeK(l, l.k, lo, hi); }
Expr* internLin(const Lin& l) {
    i128 lo, hi; linRange(l, lo, hi);
    return intern(K_LIN, l.t.data(), l.t.size(), l.k, 0, lo, hi, 0);
}
Expr* mkVar(const std::string& name, i64 lo, i64 hi, int* idx) {
    // variables are identified by index; same name+range on different paths re-uses the variable
    static std::unordered_map<std::string, Expr*> byName;
    std::string key = name + "|" + std::to_string(lo) + "|" + std::to_string(hi);
    auto it = byName.find(key);
    if (it != byName.end()) { if (idx) *idx = (int)it->second->d; return it->second; }
    Expr* e = intern(K_VAR, nullptr, 0, 0, (i64)g_vars.size(), lo, hi, 0);
    if (idx) *idx = (int)g_vars.size();
    g_vars.push_back({name, lo, hi, false, e});
    byName[key] = e;
    return e;
}
Val finish(Lin& l, unsigned w) {
    bool ch = false;
    for (auto& x : l.t) { i64 c = normc(x.c, w); if (c != x.c) { x.c = c; ch = true; } }
    if (ch) l.t.erase(std::remove_if(l.t.begin(), l.t.end(), [](const Term& x) { return x.c == 0; }), l.t.end());
    l.k = normc(l.k, w);
    if (l.t.empty()) return Val((u64)l.k & maskw(w));
    return Val::sym(internLin(l));
}
Lin toLin(const Val& v, unsigned w) {
    Lin l;
    if (!v.e) { l.k = w == 1 ? (i64)(v.c & 1) : sextw(v.c, w); return l; }
    if (v.e->k != K_LIN) { fprintf(stderr, "symx: toLin on non-integer value\n"); abort(); }
    l.k = v.e->kc; l.t.assign(v.e->t, v.e->t + v.e->n);
    return l;
}
// floor(l / d), pulling out divisible parts
Lin linFdiv(const Lin& l, i64 d) {
    Lin q, r;
    for (auto& x : l.t) {
        if (x.c % d == 0) q.addTerm(x.c / d, x.a);
        else r.addTerm(x.c, x.a);
    }
    i64 kq = fdivi(l.k, d); i64 kr = l.k - kq * d;
    q.k = kq; r.k = kr;
    if (r.t.empty()) return q;
    // reduce coefficients of r modulo d toward zero-range if the whole thing is constant
    i128 lo, hi; linRange(r, lo, hi);
    i128 ql = fdiv128(lo, d), qh = fdiv128(hi, d);
    if (ql == qh) { q.k += (i64)ql; return q; }
    if (g_fdivHook && d >= (1ll << 31)) { i128 qq; if (g_fdivHook(r, d, ql, qh, qq)) { q.k += (i64)qq; return q; } }
    // gcd reduction: floor((g*A + k)/ (g*d')) = floor((A + floor(k/g))/d')
    i64 g = d;
    for (auto& x : r.t) g = gcdi(g, x.c);
    if (g > 1) { for (auto& x : r.t) x.c /= g; r.k = fdivi(r.k, g); d /= g; return [&] { Lin z = linFdiv(r, d); addLinX(q, z, 1); return q; }(); }
    // nested floor division: floor((floor(A/d1) + k)/d) = floor((A + k*d1)/(d1*d)) when single FDIV term coefficient 1
    if (r.t.size() == 1 && r.t[0].c == 1 && r.t[0].a->k == K_FDIV) {
        Expr* f = r.t[0].a; i128 dd = (i128)f->d * d; i128 kk = (i128)f->kc + (i128)r.k * f->d;
        if (fits64(dd) && fits64(kk)) {
            Lin in; in.t.assign(f->t, f->t + f->n); in.k = (i64)kk;
            Lin z = linFdiv(in, (i64)dd); addLinX(q, z, 1); return q;
        }
    }
    // ITE distribution for a single ITE term with constant branches
    if (r.t.size() == 1 && r.t[0].a->k == K_ITE) {
        Expr* it = r.t[0].a;
        Lin a; a.k = it->t[1].a->kc; a.t.assign(it->t[1].a->t, it->t[1].a->t + it->t[1].a->n);
        Lin b; b.k = it->t[2].a->kc; b.t.assign(it->t[2].a->t, it->t[2].a->t + it->t[2].a->n);
        i64 c = r.t[0].c;
        Lin la; la.k = r.k; addLinX(la, a, c); Lin lb; lb.k = r.k; addLinX(lb, b, c);
        Lin qa = linFdiv(la, d), qb = linFdiv(lb, d);
        Val cond = Val::sym(it->t[0].a);
        Val r2 = vIte(cond, qa.t.empty() ? Val((u64)qa.k) : Val::sym(internLin(qa)), qb.t.empty() ? Val((u64)qb.k) : Val::sym(internLin(qb)), 64);
        addLinX(q, toLin(r2, 64), 1);
        return q;
    }
    Expr* a = intern(K_FDIV, r.t.data(), r.t.size(), r.k, d, ql, qh, 0);
    q.addTerm(1, a);
    return q;
}
static Lin modw(Lin l, unsigned w) {  // l mod 2^w as exact nonneg math lin
    i128 lo, hi; linRange(l, lo, hi);
    i128 M = ((i128)1) << w;
    i128 a = fdiv128(lo, M), b = fdiv128(hi, M);
    if (a == b) {
        i128 k = (i128)l.k - a * M;
        if (fits64(k)) { l.k = (i64)k; return l; }
        if (w == 64) { // constant does not fit in i64: represent via generic path (caller must cope)
        }
    }
    if (w <= 63) {  // the same residue with coefficients in [0, 2^w): often provably in range
        Lin c; i64 m = (i64)(M - 1); c.k = l.k & m;
        for (auto& x : l.t) if (x.c & m) c.addTerm(x.c & m, x.a);
        linRange(c, lo, hi);
        if (lo >= 0 && hi < M) return c;
    }
    if (w >= 63) { // cannot represent 2^w as i64 divisor: fall back on halves
        // floor(l/2^64): use divisor 2^62 twice
        Lin q = linFdiv(linFdiv(l, 1ll << 32), 1ll << (w - 32));
        // l - 2^w * q : coefficient overflow for w>=63; split not representable -> keep modular (only legal if q is const 0)
        if (q.t.empty() && q.k == 0) return l;
        fprintf(stderr, "symx: 64-bit wrap not representable exactly: %s\n", exprStr(internLin(l)).c_str());
        throw std::string("wrap64");
    }
    Lin q = linFdiv(l, 1ll << w);
    addLinX(l, q, -(1ll << w));
    return l;
}
Lin exactU(const Val& v, unsigned w) {
    if (!v.e) { Lin l; l.k = (i64)(v.c & maskw(w)); if (w == 64 && l.k < 0) throw std::string("u64const"); return l; }
    if (w == 1) {
        Lin l;
        bool neg = v.e->kc & 1; Expr* a = v.e->t[0].a;
        if (a->k == K_EQ0 && a->n == 1 && a->t[0].a->k == K_VAR && a->t[0].a->lo == 0 && a->t[0].a->hi == 1 && (a->t[0].c == 1 || a->t[0].c == -1)) {
            i64 at = -a->kc * a->t[0].c;  // true when the 0/1 variable equals this
            if (at == 0 || at == 1) { if (at == 0) neg = !neg; a = a->t[0].a; }
        }
        if (neg) { l.k = 1; l.addTerm(-1, a); } else l.addTerm(1, a);
        return l;
    }
    return modw(toLin(v, w), w);
}
Lin exactS(const Val& v, unsigned w) {
    if (!v.e) { Lin l; l.k = sextw(v.c, w); return l; }
    if (w == 1) { Lin l = exactU(v, 1); for (auto& x : l.t) x.c = -x.c; l.k = -l.k; return l; }
    Lin l = toLin(v, w);
    i128 lo, hi; linRange(l, lo, hi);
    i128 H = ((i128)1) << (w - 1);
    if (lo >= -H && hi < H) return l;
    if (w == 64) throw std::string("wrap64s");
    l.k += (i64)H; l = modw(l, w); l.k -= (i64)H;
    return l;
}
static Val fromMath(Lin l, unsigned w) { return finish(l, w); }

Val vAdd(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val((a.c + b.c) & maskw(w));
    if (w == 1) return bXor(a, b);
    Lin l = toLin(a, w); addLin(l, toLin(b, w), 1); return finish(l, w);
}
Val vSub(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val((a.c - b.c) & maskw(w));
    if (w == 1) return bXor(a, b);
    Lin l = toLin(a, w); addLin(l, toLin(b, w), -1); return finish(l, w);
}
Val vMulC(const Val& a, i64 c, unsigned w) {
    if (!a.e) return Val((a.c * (u64)c) & maskw(w));
    Lin l; addLin(l, toLin(a, w), c); return finish(l, w);
}
Val vMul(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val((a.c * b.c) & maskw(w));
    if (w == 1) return bAnd(a, b);
    if (!a.e) return vMulC(b, sextw(a.c, w), w);
    if (!b.e) return vMulC(a, sextw(b.c, w), w);
    Lin la = exactS(a, w), lb = exactS(b, w);
    // bool * lin -> ite
    for (int s = 0; s < 2; s++) {
        Lin& p = s ? lb : la; Lin& o = s ? la : lb;
        if (p.t.size() == 1 && isBoolAtom(p.t[0].a)) {
            Lin x, y; addLin(x, o, p.k + p.t[0].c); addLin(y, o, p.k);
            return vIte(mkLit(p.t[0].a, false), fromMath(x, w), fromMath(y, w), w);
        }
    }
    Term t[2] = {{1, internLin(la)}, {1, internLin(lb)}};
    if (t[0].a->id > t[1].a->id) std::swap(t[0], t[1]);
    i128 c[4] = {t[0].a->lo * t[1].a->lo, t[0].a->lo * t[1].a->hi, t[0].a->hi * t[1].a->lo, t[0].a->hi * t[1].a->hi};
    Expr* m = intern(K_MUL, t, 2, 0, 0, clampb(*std::min_element(c, c + 4)), clampb(*std::max_element(c, c + 4)), FL_NONLIN);
    Lin l; l.addTerm(1, m); return finish(l, w);
}
static unsigned tzLin(const Lin& l) {  // number of trailing zero bits common to every term and constant
    unsigned z = 63;
    auto tz = [](i64 v) -> unsigned { return v ? __builtin_ctzll((u64)v) : 63; };
    z = std::min(z, tz(l.k));
    for (auto& x : l.t) z = std::min(z, tz(x.c));
    return z;
}
static Val bitAtom(Kind k, const Lin& a, const Lin& b, unsigned w) {
    Term t[2] = {{1, internLin(a)}, {1, internLin(b)}};
    if (t[0].a->id > t[1].a->id) std::swap(t[0], t[1]);
    i128 hi = std::max(t[0].a->hi, t[1].a->hi);
    if (k == K_AND) hi = std::min(t[0].a->hi, t[1].a->hi);
    else { i128 p = 1; while (p <= hi) p <<= 1; hi = p - 1; }
    Expr* m = intern(k, t, 2, 0, 0, 0, hi, FL_NONLIN);
    Lin l; l.addTerm(1, m); return finish(l, w);
}
static Val maskLow(const Val& a, unsigned j, unsigned w) {  // a & (2^j-1)
    if (j >= w) return a;
    if (j == 0) return Val(0);
    return vZext(vTrunc(a, w, j), j, w);
}
Val vAnd(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val(a.c & b.c & maskw(w));
    if (w == 1) return bAnd(a, b);
    if (a.e && b.e) {
        if (a.e == b.e) return a;
        Lin la, lb;
        try { la = exactU(a, w); lb = exactU(b, w); return bitAtom(K_AND, la, lb, w); } catch (std::string&) { if (w != 64) throw; }
        la = exactS(a, w); lb = exactS(b, w);  // two's complement of any width agrees
        Term t[2] = {{1, internLin(la)}, {1, internLin(lb)}};
        if (t[0].a->id > t[1].a->id) std::swap(t[0], t[1]);
        i128 H = ((i128)1) << 63;
        Expr* m = intern(K_AND, t, 2, 0, 0, -H, H - 1, FL_NONLIN);
        Lin l; l.addTerm(1, m); return finish(l, w);
    }
    const Val& x = a.e ? a : b; u64 m = (a.e ? b.c : a.c) & maskw(w);
    if (m == 0) return Val(0);
    if (m == maskw(w)) return x;
    if (w == 64 && m == (1ull << 63)) return vIte(vSlt(x, Val(0), w), Val(m), Val(0), w);
    // sum of contiguous runs
    Val r(0); u64 mm = m; int runs = 0;
    while (mm) { unsigned i = __builtin_ctzll(mm); u64 s = mm >> i; unsigned len = s == ~0ull ? 64 : __builtin_ctzll(~s); runs++; mm = (i + len >= 64) ? 0 : (mm >> (i + len)) << (i + len); }
    if (runs > 4) { Val c(m); return bitAtom(K_AND, exactU(x, w), exactU(c, w), w); }
    mm = m;
    while (mm) {
        unsigned i = __builtin_ctzll(mm); u64 s = mm >> i; unsigned len = s == ~0ull ? 64 : __builtin_ctzll(~s);
        // bits [i, i+len)
        Val part = vSub(i + len >= w ? x : maskLow(x, i + len, w), maskLow(x, i, w), w);
        r = vAdd(r, part, w);
        mm = (i + len >= 64) ? 0 : (mm >> (i + len)) << (i + len);
    }
    return r;
}
/// every bit of one is above every bit of the other
static bool disjointBits(const Val& a, const Val& b, unsigned w) {
    for (int s = 0; s < 2; s++) {
        const Val& hi = s ? b : a; const Val& lo = s ? a : b;
        unsigned z = hi.e ? tzLin(toLin(hi, w)) : (hi.c ? __builtin_ctzll(hi.c) : 63);
        if (z == 0) continue;
        if (!lo.e) { if ((lo.c & maskw(w)) < (1ull << std::min(z, 62u))) return true; }
        else {
            i128 l, h; Lin ll = toLin(lo, w); linRange(ll, l, h);
            if (l >= 0 && h < (((i128)1) << z)) return true;
        }
    }
    return false;
}
Val vOr(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val((a.c | b.c) & maskw(w));
    if (w == 1) return bOr(a, b);
    if (!a.e && (a.c & maskw(w)) == 0) return b;
    if (!b.e && (b.c & maskw(w)) == 0) return a;
    if (a.e == b.e && a.e) return a;
    // disjoint?
    if (disjointBits(a, b, w)) return vAdd(a, b, w);
    return vSub(vAdd(a, b, w), vAnd(a, b, w), w);
}
Val vXor(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val((a.c ^ b.c) & maskw(w));
    if (w == 1) return bXor(a, b);
    if (a.e == b.e && a.e) return Val(0);
    if (!a.e || !b.e) {
        const Val& x = a.e ? a : b; u64 m = (a.e ? b.c : a.c) & maskw(w);
        if (m == 0) return x;
        if (m == maskw(w)) { Val o(maskw(w)); return vSub(o, x, w); }
        if (m == (1ull << (w - 1))) { Val o(m); return vAdd(x, o, w); }
        // both bool-like etc: x ^ m = x + m - 2*(x & m)
        i128 l, h; Lin lx = toLin(x, w); linRange(lx, l, h);
        if (l >= 0 && ((m & (m + 1)) == 0) && h <= (i128)m) { Val o(m); return vSub(o, x, w); }
    }
    if (disjointBits(a, b, w)) return vAdd(a, b, w);
    if (a.e && b.e) {  // two values in {0,1}
        i128 l1, h1, l2, h2; linRange(toLin(a, w), l1, h1); linRange(toLin(b, w), l2, h2);
        if (l1 >= 0 && h1 <= 1 && l2 >= 0 && h2 <= 1) return vZext(bXor(vTrunc(a, w, 1), vTrunc(b, w, 1)), 1, w);
    }
    return bitAtom(K_XOR, exactU(a, w), exactU(b, w), w);
}
Val vLshrC(const Val& a, unsigned s, unsigned w) {
    if (s >= w) return Val(0);
    if (!a.e) return Val((a.c & maskw(w)) >> s);
    if (s == 0) return a;
    Lin l; bool neg = false;
    if (w == 64 && s >= 1) {
        i128 lo, hi; linRange(toLin(a, w), lo, hi);
        if (lo < 0 && lo >= -(((i128)1) << 63) && hi < (((i128)1) << 63)) neg = true;
    }
    if (neg) {  // sign-dependent: arithmetic shift plus the bits shifted in
        Val isneg = vSlt(a, Val(0), 64);
        return vAdd(vAshrC(a, s, w), vIte(isneg, Val(1ull << (64 - s)), Val(0), w), w);
    }
    l = exactU(a, w);
    while (s > 0) { unsigned st = std::min(s, 62u); l = linFdiv(l, 1ll << st); s -= st; }
    return finish(l, w);
}
Val vAshrC(const Val& a, unsigned s, unsigned w) {
    if (s >= w) s = w - 1;
    if (!a.e) return Val((u64)(sextw(a.c, w) >> s) & maskw(w));
    if (s == 0) return a;
    Lin l = exactS(a, w);
    while (s > 0) { unsigned st = std::min(s, 62u); l = linFdiv(l, 1ll << st); s -= st; }
    return finish(l, w);
}
Val vUdivC(const Val& a, u64 d, unsigned w) {
    if (!a.e) return Val((a.c & maskw(w)) / d);
    if (d >> 63) return vIte(vUlt(a, Val(d), w), Val(0), Val(1), w);
    Lin l = linFdiv(exactU(a, w), (i64)d); return finish(l, w);
}
bool isBoolAtom(const Expr* e) { return e->k == K_LE0 || e->k == K_EQ0 || e->k == K_BAND || e->k == K_BXOR || (e->k == K_FP && (e->flags & FL_FPBOOL)); }
Val vTrunc(const Val& a, unsigned from, unsigned to) {
    (void)from;
    if (!a.e) return Val(a.c & maskw(to));
    if (to == 1) {
        Lin l = toLin(a, from); Lin q; 
        Lin r; r.k = l.k & 1;
        for (auto& x : l.t) if (x.c & 1) r.addTerm(1, x.a);
        if (r.t.empty()) return Val((u64)r.k);
        bool allb = true; for (auto& x : r.t) if (!isBoolAtom(x.a)) allb = false;
        if (allb) { Val v((u64)r.k); for (auto& x : r.t) v = bXor(v, mkLit(x.a, false)); return v; }
        if (r.t.size() == 1 && r.t[0].a->k == K_ITE) {
            Expr* it = r.t[0].a; Lin ka; ka.k = r.k;
            Val A = vTrunc(Val::sym(it->t[1].a), 64, 1), B = vTrunc(Val::sym(it->t[2].a), 64, 1);
            auto cf = [&](Expr* e) { return e->n == 0 ? Val((u64)e->kc & 1) : vTrunc(Val::sym(e), 64, 1); };
            A = cf(it->t[1].a); B = cf(it->t[2].a);
            Val v = vIte(Val::sym(it->t[0].a), A, B, 1);
            return bXor(v, Val((u64)r.k));
        }
        if (r.t.size() == 1 && r.t[0].a->k == K_AND) {
            Expr* it = r.t[0].a;
            auto cf = [&](Expr* e) { return e->n == 0 ? Val((u64)e->kc & 1) : vTrunc(Val::sym(e), 64, 1); };
            return bXor(bAnd(cf(it->t[0].a), cf(it->t[1].a)), Val((u64)r.k));
        }
        Lin m = modw(r, 1); m.k -= 1;
        return bEq0(m);
    }
    Lin l = toLin(a, from); return finish(l, to);
}
Val vZext(const Val& a, unsigned from, unsigned to) {
    if (!a.e) return Val(a.c & maskw(from));
    Lin l = exactU(a, from); return finish(l, to);
}
Val vSext(const Val& a, unsigned from, unsigned to) {
    if (!a.e) return Val((u64)sextw(a.c, from) & maskw(to));
    Lin l = exactS(a, from); return finish(l, to);
}
// ---------------------------------------------------------------- booleans
Val mkLit(Expr* atom, bool neg) {
    Lin l; l.k = neg; l.t.push_back({1, atom});
    return Val::sym(internLin(l));
}
Val bNot(const Val& a) {
    if (!a.e) return Val((a.c & 1) ^ 1);
    bool n; Expr* x = litAtom(a, n); return mkLit(x, !n);
}
static Val asVal64(const Lin& l) { return l.t.empty() ? Val((u64)l.k) : Val::sym(internLin(l)); }
Val bLe0(Lin l) {
    if (l.t.empty()) return Val(l.k <= 0);
    i128 lo, hi; linRange(l, lo, hi);
    if (hi <= 0) return Val(1);
    if (lo > 0) return Val(0);
    if (l.k <= INT64_MIN + 2 || l.k >= INT64_MAX - 2) throw std::string("constant overflow");
    for (auto& x : l.t) if (x.c == INT64_MIN) throw std::string("coefficient overflow");
    i64 g = 0; for (auto& x : l.t) g = gcdi(g, x.c);
    if (g > 1) { for (auto& x : l.t) x.c /= g; l.k = -fdivi(-l.k, g); }  // ceil(k/g)
    if (l.t.size() == 1) {
        Expr* a = l.t[0].a; i64 c = l.t[0].c;
        if (isBoolAtom(a)) {
            bool v0 = l.k <= 0, v1 = l.k + c <= 0;
            if (v0 && v1) return Val(1); if (!v0 && !v1) return Val(0);
            return mkLit(a, v0);
        }
        if (a->k == K_XOR && (c == 1 || c == -1)) {
            // c==1: xor <= -k ; c==-1: xor >= k  == not(xor <= k-1)
            i64 m = c == 1 ? -l.k : l.k - 1; Val r;
            if (m < 0) r = Val(0);
            else if (((u64)(m + 1) & (u64)m) == 0) {
                Lin la; la.k = a->t[0].a->kc; la.t.assign(a->t[0].a->t, a->t[0].a->t + a->t[0].a->n);
                Lin lb; lb.k = a->t[1].a->kc; lb.t.assign(a->t[1].a->t, a->t[1].a->t + a->t[1].a->n);
                Lin x = linFdiv(la, m + 1); addLinX(x, linFdiv(lb, m + 1), -1);
                r = bEq0(x);
                return c == 1 ? r : bNot(r);
            }
        }
        if (a->k == K_ITE) {
            Lin x, y; x.k = y.k = l.k;
            Lin A; A.k = a->t[1].a->kc; A.t.assign(a->t[1].a->t, a->t[1].a->t + a->t[1].a->n);
            Lin B; B.k = a->t[2].a->kc; B.t.assign(a->t[2].a->t, a->t[2].a->t + a->t[2].a->n);
            addLinX(x, A, c); addLinX(y, B, c);
            Val vx = bLe0(x), vy = bLe0(y);
            if (!vx.e || !vy.e) return vIte(Val::sym(a->t[0].a), vx, vy, 1);
        }
    }
    bool neg = false;
    if (l.t[0].c < 0) { for (auto& x : l.t) x.c = -x.c; l.k = -l.k + 1; neg = true; }
    Expr* e = intern(K_LE0, l.t.data(), l.t.size(), l.k, 0, 0, 1, 0);
    return mkLit(e, neg);
}
Val bEq0(Lin l) {
    if (l.t.empty()) return Val(l.k == 0);
    i128 lo, hi; linRange(l, lo, hi);
    if (hi < 0 || lo > 0) return Val(0);
    if (l.k <= INT64_MIN + 2 || l.k >= INT64_MAX - 2) throw std::string("constant overflow");
    for (auto& x : l.t) if (x.c == INT64_MIN) throw std::string("coefficient overflow");
    i64 g = 0; for (auto& x : l.t) g = gcdi(g, x.c);
    if (g > 1) { if (l.k % g) return Val(0); for (auto& x : l.t) x.c /= g; l.k /= g; }
    if (l.t.size() == 1) {
        Expr* a = l.t[0].a; i64 c = l.t[0].c;
        if (isBoolAtom(a)) {
            bool v0 = l.k == 0, v1 = l.k + c == 0;
            if (v0 && v1) return Val(1); if (!v0 && !v1) return Val(0);
            return mkLit(a, v0);
        }
        if (a->k == K_XOR && l.k == 0) {
            Lin la; la.k = a->t[0].a->kc; la.t.assign(a->t[0].a->t, a->t[0].a->t + a->t[0].a->n);
            Lin lb; lb.k = a->t[1].a->kc; lb.t.assign(a->t[1].a->t, a->t[1].a->t + a->t[1].a->n);
            addLinX(la, lb, -1); return bEq0(la);
        }
        if (a->k == K_ITE) {
            Lin x, y; x.k = y.k = l.k;
            Lin A; A.k = a->t[1].a->kc; A.t.assign(a->t[1].a->t, a->t[1].a->t + a->t[1].a->n);
            Lin B; B.k = a->t[2].a->kc; B.t.assign(a->t[2].a->t, a->t[2].a->t + a->t[2].a->n);
            addLinX(x, A, c); addLinX(y, B, c);
            Val vx = bEq0(x), vy = bEq0(y);
            if (!vx.e || !vy.e) return vIte(Val::sym(a->t[0].a), vx, vy, 1);
        }
    }
    if (l.t[0].c < 0) { for (auto& x : l.t) x.c = -x.c; l.k = -l.k; }
    Expr* e = intern(K_EQ0, l.t.data(), l.t.size(), l.k, 0, 0, 1, 0);
    return mkLit(e, false);
}
Val bAnd(const Val& a, const Val& b) {
    if (!a.e) return (a.c & 1) ? b : Val(0);
    if (!b.e) return (b.c & 1) ? a : Val(0);
    if (a.e == b.e) return a;
    bool na, nb; Expr* x = litAtom(a, na); Expr* y = litAtom(b, nb);
    if (x == y) return Val(0);  // opposite polarity
    // flatten: term coefficient 1 = positive literal, -1 = negated
    std::vector<Term> t;
    auto push = [&](Expr* at, bool neg) {
        if (at->k == K_BAND && !neg) { for (uint32_t i = 0; i < at->n; i++) t.push_back(at->t[i]); }
        else t.push_back({neg ? -1 : 1, at});
    };
    push(x, na); push(y, nb);
    std::sort(t.begin(), t.end(), [](const Term& p, const Term& q) { return p.a->id != q.a->id ? p.a->id < q.a->id : p.c < q.c; });
    std::vector<Term> u;
    for (auto& z : t) {
        if (!u.empty() && u.back().a == z.a) { if (u.back().c != z.c) return Val(0); continue; }
        u.push_back(z);
    }
    if (u.size() == 1) return mkLit(u[0].a, u[0].c < 0);
    Expr* e = intern(K_BAND, u.data(), u.size(), 0, 0, 0, 1, 0);
    return mkLit(e, false);
}
Val bOr(const Val& a, const Val& b) { return bNot(bAnd(bNot(a), bNot(b))); }
Val bXor(const Val& a, const Val& b) {
    if (!a.e) return (a.c & 1) ? bNot(b) : b;
    if (!b.e) return (b.c & 1) ? bNot(a) : a;
    bool na, nb; Expr* x = litAtom(a, na); Expr* y = litAtom(b, nb);
    if (x == y) return Val(na != nb);
    if (x->id > y->id) std::swap(x, y);
    Term t[2] = {{1, x}, {1, y}};
    Expr* e = intern(K_BXOR, t, 2, 0, 0, 0, 1, 0);
    return mkLit(e, na != nb);
}
// comparison helpers that survive 64-bit unsigned values
static bool tryU(const Val& a, unsigned w, Lin& l) { try { l = exactU(a, w); return true; } catch (std::string&) { return false; } }
static Val cmpLe(Lin a, const Lin& b, i64 add) {  // a - b + add <= 0
    i128 k = (i128)a.k - b.k + add;
    if (!fits64(k)) {
        // constants far apart: decide by range if possible
        i128 la, ha, lb, hb; linRange(a, la, ha); linRange(b, lb, hb);
        if (ha - lb + add <= 0) return Val(1);
        if (la - hb + add > 0) return Val(0);
        throw std::string("cmp overflow");
    }
    a.k = 0; Lin bb = b; bb.k = 0; addLinX(a, bb, -1); a.k = (i64)k; return bLe0(a);
}
static Val ucmp(const Val& a, const Val& b, unsigned w, bool strict) {
    if (!a.e && !b.e) { u64 x = a.c & maskw(w), y = b.c & maskw(w); return Val(strict ? x < y : x <= y); }
    if (w == 1) return strict ? bAnd(bNot(a), b) : bOr(bNot(a), b);
    Lin la, lb; bool ua = tryU(a, w, la), ub = tryU(b, w, lb);
    if (ua && ub) return cmpLe(la, lb, strict ? 1 : 0);
    if (w == 64) {
        // one side >= 2^63 constant while the other is provably below
        if (ua && !ub && !b.e) { i128 l, h; linRange(la, l, h); if (h < (((i128)1) << 63)) return Val(1); }
        if (ub && !ua && !a.e) { i128 l, h; linRange(lb, l, h); if (h < (((i128)1) << 63)) return Val(0); }
        // both signed-exact: flip through signed comparison: a <u b  <=>  (a^2^63) <s (b^2^63)
        Lin sa = exactS(a, 64), sb = exactS(b, 64);
        Val aneg = sa.t.empty() ? Val(sa.k < 0) : bLe0([&] { Lin z = sa; z.k += 1; return z; }());
        Val bneg = sb.t.empty() ? Val(sb.k < 0) : bLe0([&] { Lin z = sb; z.k += 1; return z; }());
        Val s = cmpLe(sa, sb, strict ? 1 : 0);
        // unsigned order: same sign -> s ; a>=0,b<0 -> true ; a<0,b>=0 -> false
        return bOr(bAnd(bNot(aneg), bneg), bAnd(bNot(bXor(aneg, bneg)), s));
    }
    throw std::string("ucmp");
}
Val vUlt(const Val& a, const Val& b, unsigned w) { return ucmp(a, b, w, true); }
Val vUle(const Val& a, const Val& b, unsigned w) { return ucmp(a, b, w, false); }
Val vSlt(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val(sextw(a.c, w) < sextw(b.c, w));
    if (w == 1) return vUlt(b, a, 1);
    return cmpLe(exactS(a, w), exactS(b, w), 1);
}
Val vSle(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val(sextw(a.c, w) <= sextw(b.c, w));
    if (w == 1) return vUle(b, a, 1);
    return cmpLe(exactS(a, w), exactS(b, w), 0);
}
Val vEq(const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) return Val(((a.c ^ b.c) & maskw(w)) == 0);
    if (w == 1) return bNot(bXor(a, b));
    Val d = vSub(a, b, w);
    if (!d.e) return Val((d.c & maskw(w)) == 0);
    Lin l = toLin(d, w);
    i128 lo, hi; linRange(l, lo, hi); i128 M = ((i128)1) << w;
    i128 flo = -fdiv128(-lo, M), fhi = fdiv128(hi, M);  // multiples of M in range
    if (flo > fhi) return Val(0);
    if (flo == 0 && fhi == 0) return bEq0(l);
    if (flo == fhi && w < 63) { l.k -= (i64)(flo * M); return bEq0(l); }
    if (w == 64) {
        // try interpreting both sides exactly
        Lin sa, sb; bool ok = true;
        try { sa = exactS(a, 64); sb = exactS(b, 64); } catch (std::string&) { ok = false; }
        if (ok) { addLinX(sa, sb, -1); return bEq0(sa); }
        throw std::string("eq64");
    }
    Lin m = modw(l, w);
    return bEq0(m);
}
Val vIte(const Val& c, const Val& a, const Val& b, unsigned w) {
    if (!c.e) return (c.c & 1) ? a : b;
    if (!a.e && !b.e && ((a.c ^ b.c) & maskw(w)) == 0) return a;
    if (a.e && a.e == b.e) return a;
    if (w == 1) {
        // c?a:b
        if (!a.e) return (a.c & 1) ? bOr(c, b) : bAnd(bNot(c), b);
        if (!b.e) return (b.c & 1) ? bOr(bNot(c), a) : bAnd(c, a);
        return bOr(bAnd(c, a), bAnd(bNot(c), b));
    }
    bool neg; Expr* atom = litAtom(c, neg);
    Lin la = toLin(neg ? b : a, w), lb = toLin(neg ? a : b, w);
    if (la.t.empty() && lb.t.empty()) {  // constants: k2 + (k1-k2)*c
        i128 diff = (i128)la.k - lb.k;
        if (fits64(diff)) { Lin l; l.k = lb.k; l.addTerm((i64)diff, atom); return finish(l, w); }
    }
    Term t[3] = {{1, mkLit(atom, false).e}, {1, internLin(la)}, {1, internLin(lb)}};
    Expr* e = intern(K_ITE, t, 3, 0, 0, std::min(t[1].a->lo, t[2].a->lo), std::max(t[1].a->hi, t[2].a->hi), 0);
    Lin l; l.addTerm(1, e); return finish(l, w);
}
// ---------------------------------------------------------------- floating point
static u64 dbits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static double bitsd(u64 u) { double d; memcpy(&d, &u, 8); return d; }
Val fConst(double d) { return Val(dbits(d)); }
bool fIsC(const Val& v) { return !v.e; }
double fC(const Val& v) { return bitsd(v.c); }
static Expr* fExpr(const Val& v) {
    if (v.e) return v.e;
    return intern(K_FP, nullptr, 0, (i64)v.c, F_CONST, 0, 0, FL_FP | FL_FPVAL);
}
Val mkFpVar(const std::string& name, double lo, double hi, int* idx) {
    static std::unordered_map<std::string, Expr*> byName;
    auto it = byName.find(name);
    if (it != byName.end()) { *idx = (int)it->second->kc; return Val::sym(it->second); }
    *idx = (int)g_vars.size();
    Expr* e = intern(K_FP, nullptr, 0, (i64)g_vars.size(), F_VAR, 0, 0, FL_FP | FL_FPVAL);
    g_vars.push_back({name, (i64)dbits(lo), (i64)dbits(hi), true, e});
    byName[name] = e;
    return Val::sym(e);
}
// A dyadic value is L / 2^s with an integer linear L, |L| < 2^53, so that the double represents it exactly. s is kept in kc.
static const i128 EXACT = ((i128)1) << 53;
static Val fFromDy(Lin l, int s) {
    if (l.t.empty()) return fConst(std::ldexp((double)l.k, -s));
    while (s > 0) {
        bool even = l.k % 2 == 0; for (auto& x : l.t) if (x.c % 2) even = false;
        if (!even) break;
        l.k /= 2; for (auto& x : l.t) x.c /= 2; s--;
    }
    Term t[1] = {{1, internLin(l)}};
    return Val::sym(intern(K_FP, t, 1, s, F_FROMINT, 0, 0, FL_FPVAL | FL_FP));
}
Val fFromInt(const Lin& l) { return fFromDy(l, 0); }
static bool fAsDy(const Val& v, Lin& out, int& s) {
    if (!v.e) {
        double d = fC(v); if (!std::isfinite(d) || std::fabs(d) >= 9.0e15) return false;
        s = 0; while (d != std::floor(d)) { if (++s > 40) return false; d *= 2; }
        if (std::fabs(d) >= 9.0e15) return false;
        out = Lin(); out.k = (i64)d; return true;
    }
    if (v.e->k == K_FP && v.e->d == F_FROMINT && v.e->t[0].a->lo > -EXACT && v.e->t[0].a->hi < EXACT) {
        Expr* a = v.e->t[0].a; out = Lin(); out.k = a->kc; out.t.assign(a->t, a->t + a->n); s = (int)v.e->kc; return true;
    }
    return false;
}
static bool linInside(const Lin& l, i128 bound) { i128 lo, hi; linRange(l, lo, hi); return lo > -bound && hi < bound; }
/// scales l by 2^k; false if that could leave the exactly representable range
static bool shiftUp(Lin& l, int k) {
    if (k == 0) return true;
    if (k > 50) return false;
    Lin r; addLinX(r, l, (i64)1 << k);
    i128 lo, hi; linRange(l, lo, hi); if ((lo << k) <= -(EXACT << 8) || (hi << k) >= (EXACT << 8)) return false;
    l = r; return true;
}
static bool align(Lin& a, int& sa, Lin& b, int& sb) {
    int s = std::max(sa, sb);
    if (!shiftUp(a, s - sa) || !shiftUp(b, s - sb)) return false;
    sa = sb = s; return true;
}
bool fAsLin(const Val& v, Lin& out) { int s; return fAsDy(v, out, s) && s == 0; }
bool fExact(const Val& v) { Lin l; int s; return fAsDy(v, l, s); }
/// floor of an exact value; false if it is not one
bool fFloor(const Val& v, Val& out) {
    Lin l; int s; if (!fAsDy(v, l, s) || s > 45) return false;
    out = s == 0 ? v : fFromInt(linFdiv(l, (i64)1 << s)); return true;
}
static Val fMk(int op, std::vector<Expr*> args, uint8_t fl) {
    std::vector<Term> t; for (auto* a : args) t.push_back({1, a});
    return Val::sym(intern(K_FP, t.data(), t.size(), 0, op, 0, 1, fl | FL_FP));
}
Val fBin(int op, const Val& a, const Val& b) {
    if (!a.e && !b.e) {
        double x = fC(a), y = fC(b);
        return fConst(op == F_ADD ? x + y : op == F_SUB ? x - y : op == F_MUL ? x * y : x / y);
    }
    Lin la, lb;
    int sa, sb;
    if ((op == F_ADD || op == F_SUB) && fAsDy(a, la, sa) && fAsDy(b, lb, sb) && align(la, sa, lb, sb)) {
        Lin r = la; addLinX(r, lb, op == F_ADD ? 1 : -1);
        if (linInside(r, EXACT)) return fFromDy(r, sa);
    }
    if (op == F_MUL && fAsDy(a, la, sa) && fAsDy(b, lb, sb) && (la.t.empty() || lb.t.empty()) && sa + sb <= 60) {
        i64 k = la.t.empty() ? la.k : lb.k; const Lin& o = la.t.empty() ? lb : la;
        i128 lo, hi; linRange(o, lo, hi); double big = std::fabs((double)k) * std::max(std::fabs((double)lo), std::fabs((double)hi));
        if (big < 9.0e15) { Lin r; addLinX(r, o, k); return fFromDy(r, sa + sb); }
    }
    if (op == F_DIV && !b.e && fAsDy(a, la, sa)) {  // by a power of two
        int ex; double d = fC(b);
        if (std::isfinite(d) && d > 0 && std::frexp(d, &ex) == 0.5) {
            ex--;
            if (ex >= 0 && sa + ex <= 60) return fFromDy(la, sa + ex);
            if (ex < 0 && -ex <= 50 && shiftUp(la, -ex) && linInside(la, EXACT)) return fFromDy(la, sa);
        }
    }
    if (op == F_MUL && !a.e && fC(a) == 1.0) return b;
    if (op == F_MUL && !b.e && fC(b) == 1.0) return a;
    if (op == F_DIV && !b.e && fC(b) == 1.0) return a;
    if (op == F_DIV && !b.e && fAsLin(a, la)) {
        double d = fC(b);
        if (d == std::floor(d) && d > 0 && d < 1e15) {  // exactly divisible
            i64 di = (i64)d; bool ok = la.k % di == 0; for (auto& x : la.t) if (x.c % di) ok = false;
            if (ok) { for (auto& x : la.t) x.c /= di; la.k /= di; return fFromInt(la); }
        }
    }
    Expr *x = fExpr(a), *y = fExpr(b);
    return fMk(op, {x, y}, FL_FPVAL);
}
Val fUn(int op, const Val& a) {
    if (!a.e) {
        double x = fC(a);
        return fConst(op == F_NEG ? -x : op == F_ABS ? std::fabs(x) : std::round(x));
    }
    Lin l; int s;
    if (fAsDy(a, l, s)) {
        i128 lo, hi; linRange(l, lo, hi);
        Lin n; addLinX(n, l, -1);
        Lin z = l; z.k += 1;  // z <= 0 iff l <= -1
        if (op == F_RINT) {
            if (s == 0) return a;
            if (s > 45) return fMk(op, {fExpr(a)}, FL_FPVAL);
            auto half_up = [&](const Lin& x) { Lin t; addLinX(t, x, 1); t.k += (i64)1 << (s - 1); return linFdiv(t, (i64)1 << s); };
            if (lo >= 0) return fFromInt(half_up(l));
            Lin q = half_up(n), m; addLinX(m, q, -1);
            if (hi <= 0) return fFromInt(m);
            return fFromInt(toLin(vIte(bLe0(z), asVal64(m), asVal64(half_up(l)), 64), 64));
        }
        if (op == F_NEG) return fFromDy(n, s);  // -0.0 vs +0.0 is not distinguished
        if (op == F_ABS) {
            if (lo >= 0) return a;
            if (hi <= 0) return fFromDy(n, s);
            Val v = vIte(bLe0(z), asVal64(n), asVal64(l), 64);
            return fFromDy(toLin(v, 64), s);
        }
    }
    return fMk(op, {fExpr(a)}, FL_FPVAL);
}
Val fCmp(int op, const Val& a, const Val& b) {
    if (!a.e && !b.e) {
        double x = fC(a), y = fC(b);
        return Val(op == F_LT ? x < y : op == F_LE ? x <= y : op == F_EQ ? x == y : (std::isnan(x) || std::isnan(y)));
    }
    Lin la, lb;
    int sa, sb;
    if (op == F_UNO && (a.e ? fAsDy(a, la, sa) : !std::isnan(fC(a))) && (b.e ? fAsDy(b, lb, sb) : !std::isnan(fC(b)))) return Val(0);
    // the sign of a product of exact values (it cannot underflow: the factors are at least 2^-60 in magnitude or zero)
    for (int sd = 0; sd < 2; sd++) {
        const Val& x = sd ? b : a; const Val& y = sd ? a : b;
        if (y.e || fC(y) != 0 || !x.e || x.e->k != K_FP || x.e->d != F_MUL) continue;
        Lin l1, l2; int s1, s2;
        auto val = [](Expr* e) { return e->k == K_FP && e->d == F_CONST ? Val((u64)e->kc) : Val::sym(e); };
        if (!fAsDy(val(x.e->t[0].a), l1, s1) || !fAsDy(val(x.e->t[1].a), l2, s2)) continue;
        auto neg = [](Lin l) { l.k += 1; return bLe0(l); };
        auto pos = [](const Lin& l) { Lin m; addLinX(m, l, -1); m.k += 1; return bLe0(m); };
        Val zero = bOr(bEq0(l1), bEq0(l2)), lt = bOr(bAnd(neg(l1), pos(l2)), bAnd(pos(l1), neg(l2)));
        if (op == F_UNO) return Val(0);
        if (op == F_EQ) return zero;
        Val gt = bNot(bOr(zero, lt));
        Val strict = sd ? gt : lt;  // 0 < x : x < 0
        return op == F_LT ? strict : bOr(strict, zero);
    }
    if (fAsDy(a, la, sa) && fAsDy(b, lb, sb) && align(la, sa, lb, sb)) {
        if (op == F_LT) return cmpLe(la, lb, 1);
        if (op == F_LE) return cmpLe(la, lb, 0);
        if (op == F_EQ) { addLinX(la, lb, -1); return bEq0(la); }
    }
    // integer-valued vs arbitrary constant
    for (int s = 0; s < 2; s++) {
        const Val& x = s ? b : a; const Val& y = s ? a : b; Lin lx; int sx;
        if (x.e && fAsDy(x, lx, sx) && !y.e) {
            double d = std::ldexp(fC(y), sx);
            if (std::isnan(d)) return Val(op == F_UNO);
            if (op == F_EQ) { return Val(0); }  // non-integer constant (integer handled above) or huge
            double f = std::floor(d), c = std::ceil(d);
            if (d > 9e15) return Val((op == F_LT || op == F_LE) ? !s : 0);
            if (d < -9e15) return Val((op == F_LT || op == F_LE) ? s : 0);
            if (op == F_LT || op == F_LE) {
                if (!s) { Lin k; k.k = (i64)f; return cmpLe(lx, k, 0); }  // x < d  <=> x <= floor(d) (d non-integer)
                Lin k; k.k = (i64)c; return cmpLe(k, lx, 0);
            }
        }
    }
    Val r = fMk(op, {fExpr(a), fExpr(b)}, FL_FPBOOL);
    return mkLit(r.e, false);
}
Val fIte(const Val& c, const Val& a, const Val& b) {
    if (!c.e) return (c.c & 1) ? a : b;
    if (a.e == b.e && a.c == b.c) return a;
    Lin la, lb; int sa, sb;
    if (fAsDy(a, la, sa) && fAsDy(b, lb, sb) && align(la, sa, lb, sb) && linInside(la, EXACT) && linInside(lb, EXACT)) {
        Val v = vIte(c, asVal64(la), asVal64(lb), 64);
        return fFromDy(toLin(v, 64), sa);
    }
    return fMk(F_ITE, {c.e, fExpr(a), fExpr(b)}, FL_FPVAL);
}
Val fToInt(const Val& a, unsigned w, bool sgn) {
    if (!a.e) { double d = fC(a); return Val(sgn ? (u64)(i64)d & maskw(w) : (u64)d & maskw(w)); }
    Lin l; int s;
    if (fAsDy(a, l, s) && s <= 45) {
        if (s == 0) return finish(l, w);
        i128 l0, h0; linRange(l, l0, h0);
        Lin n; addLinX(n, l, -1);
        Lin z = l; z.k += 1;
        Lin up = linFdiv(l, (i64)1 << s), q = linFdiv(n, (i64)1 << s), down; addLinX(down, q, -1);
        if (l0 >= 0) return finish(up, w);
        Val v = vIte(bLe0(z), asVal64(down), asVal64(up), 64);
        Lin r = toLin(v, 64); return finish(r, w);
    }
    Term t[1] = {{1, a.e}};
    i128 lo = sgn ? -(((i128)1) << (w - 1)) : 0, hi = sgn ? (((i128)1) << (w - 1)) - 1 : (((i128)1) << w) - 1;
    Expr* e = intern(K_FP, t, 1, w, F_TOINT, lo, hi, FL_FP);
    Lin r; r.addTerm(1, e); return finish(r, w);
}
Val fUF(const std::string& name, const std::vector<Val>& args) {
    static std::unordered_map<std::string, int> ids;
    auto it = ids.emplace(name, (int)ids.size()).first;
    std::vector<Term> t; for (auto& a : args) t.push_back({1, fExpr(a)});
    return Val::sym(intern(K_FP, t.data(), t.size(), it->second, F_UF, 0, 1, FL_FP | FL_FPVAL));
}
// ---------------------------------------------------------------- evaluation
static double evalF(Expr* e, const Model& m) { i128 v = evalE(e, m); return bitsd((u64)v); }
i128 evalE(Expr* e, const Model& m) {
    if (e->evep == g_evalEpoch) return e->ev;
    i128 r = 0;
    switch (e->k) {
        case K_LIN: r = e->kc; for (uint32_t i = 0; i < e->n; i++) r += (i128)e->t[i].c * evalE(e->t[i].a, m); break;
        case K_VAR: r = (size_t)e->d < m.size() ? (i128)m[e->d] : e->lo; break;
        case K_FDIV: r = e->kc; for (uint32_t i = 0; i < e->n; i++) r += (i128)e->t[i].c * evalE(e->t[i].a, m); r = fdiv128(r, e->d); break;
        case K_ITE: r = (evalE(e->t[0].a, m) & 1) ? evalE(e->t[1].a, m) : evalE(e->t[2].a, m); break;
        case K_AND: r = evalE(e->t[0].a, m) & evalE(e->t[1].a, m); break;
        case K_XOR: r = evalE(e->t[0].a, m) ^ evalE(e->t[1].a, m); break;
        case K_MUL: r = evalE(e->t[0].a, m) * evalE(e->t[1].a, m); break;
        case K_LE0: case K_EQ0: {
            i128 s = e->kc; for (uint32_t i = 0; i < e->n; i++) s += (i128)e->t[i].c * evalE(e->t[i].a, m);
            r = e->k == K_LE0 ? s <= 0 : s == 0; break;
        }
        case K_BAND: r = 1; for (uint32_t i = 0; i < e->n; i++) { bool v = evalE(e->t[i].a, m) & 1; if (v != (e->t[i].c > 0)) { r = 0; break; } } break;
        case K_BXOR: r = (evalE(e->t[0].a, m) ^ evalE(e->t[1].a, m)) & 1; break;
        case K_UF: r = 0; break;
        case K_FP: {
            auto F = [&](int i) { return evalF(e->t[i].a, m); };
            auto D = [&](double d) { return (i128)dbits(d); };
            switch (e->d) {
                case F_CONST: r = (i128)(u64)e->kc; break;
                case F_VAR: r = (size_t)e->kc < m.size() ? (i128)(u64)m[e->kc] : (i128)(u64)g_vars[e->kc].lo; break;
                case F_FROMINT: r = D(std::ldexp((double)(i64)evalE(e->t[0].a, m), -(int)e->kc)); break;
                case F_ADD: r = D(F(0) + F(1)); break;
                case F_SUB: r = D(F(0) - F(1)); break;
                case F_MUL: r = D(F(0) * F(1)); break;
                case F_DIV: r = D(F(0) / F(1)); break;
                case F_NEG: r = D(-F(0)); break;
                case F_ABS: r = D(std::fabs(F(0))); break;
                case F_RINT: r = D(std::round(F(0))); break;
                case F_ITE: r = (evalE(e->t[0].a, m) & 1) ? evalE(e->t[1].a, m) : evalE(e->t[2].a, m); break;
                case F_LT: r = F(0) < F(1); break;
                case F_LE: r = F(0) <= F(1); break;
                case F_EQ: r = F(0) == F(1); break;
                case F_UNO: r = std::isnan(F(0)) || std::isnan(F(1)); break;
                case F_TOINT: { double d = F(0); r = std::isfinite(d) && std::fabs(d) < 9e18 ? (i128)(i64)d : 0; break; }
                default: r = 0;
            }
            break;
        }
    }
    e->ev = r; e->evep = g_evalEpoch;
    return r;
}
u64 evalVal(const Val& v, unsigned w, const Model& m) {
    if (!v.e) return v.c & maskw(w);
    i128 r = evalE(v.e, m);
    return (u64)r & maskw(w);
}
// ---------------------------------------------------------------- printing
static std::string i2s(i128 v) { if (fits64(v)) return std::to_string((long long)v); return v < 0 ? "-big" : "big"; }
std::string exprStr(const Expr* e, int depth) {
    if (depth == 0) return "#" + std::to_string(e->id);
    auto sum = [&] {
        std::string s;
        for (uint32_t i = 0; i < e->n; i++) {
            if (e->t[i].c < 0) s += " - "; else if (i) s += " + ";
            i64 c = e->t[i].c < 0 ? -e->t[i].c : e->t[i].c;
            if (c != 1) s += std::to_string(c) + "*";
            s += exprStr(e->t[i].a, depth - 1);
        }
        if (e->kc || !e->n) { s += e->kc < 0 ? " - " : " + "; s += i2s(e->kc < 0 ? -(i128)e->kc : (i128)e->kc); }
        return s;
    };
    switch (e->k) {
        case K_LIN: return "(" + sum() + ")";
        case K_VAR: return g_vars[e->d].name;
        case K_FDIV: return "fdiv(" + sum() + ", " + std::to_string(e->d) + ")";
        case K_LE0: return "[" + sum() + " <= 0]";
        case K_EQ0: return "[" + sum() + " == 0]";
        case K_BAND: { std::string s = "and("; for (uint32_t i = 0; i < e->n; i++) s += std::string(e->t[i].c < 0 ? "!" : "") + exprStr(e->t[i].a, depth - 1) + ","; return s + ")"; }
        default: { static const char* nm[] = {"lin", "var", "fdiv", "ite", "and", "xor", "mul", "le0", "eq0", "band", "bxor", "uf", "fp"};
            std::string s = std::string(nm[e->k]) + (e->k == K_FP ? std::to_string(e->d) : "") + "("; for (uint32_t i = 0; i < e->n; i++) s += exprStr(e->t[i].a, depth - 1) + ","; return s + ")"; }
    }
}
std::string valStr(const Val& v) { return v.e ? exprStr(v.e) : std::to_string(v.c); }
