// Symbolic integer expressions for symx.
// Every symbolic integer is a linear combination  k + sum c_i * a_i  of "atoms"; an atom is a mathematical
// integer with a static range.  A w-bit machine value is that sum modulo 2^w.  Wrap-around, shifts, masks and
// zero/sign extension are expressed through floor-division atoms, so the encoding is exact for machine words
// and stays within linear integer arithmetic for the code this tool is pointed at.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef int64_t i64;
typedef uint64_t u64;
typedef __int128 i128;

enum Kind : uint8_t {
    K_LIN,   // k + sum c_i a_i
    K_VAR,   // input variable, range [lo,hi]
    K_FDIV,  // floor(LIN(t,k) / d)
    K_ITE,   // args: bool, LIN, LIN   (integer valued)
    K_AND,   // bitwise and of two nonnegative LINs
    K_XOR,   // bitwise xor of two nonnegative LINs
    K_MUL,   // product of two LINs
    K_LE0,   // bool: k + sum c_i a_i <= 0
    K_EQ0,   // bool: k + sum c_i a_i == 0
    K_BAND,  // bool: conjunction of literals
    K_BXOR,  // bool: xor of two bool atoms
    K_UF,    // uninterpreted function value (id in d), args LIN
    // floating point (IEEE double), represented as opaque FP terms
    K_FP,    // op in d, args are FP or LIN exprs
};
enum FpOp : int {
    F_CONST, F_VAR, F_FROMINT, F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_ABS, F_RINT /*round half away*/, F_ITE,
    F_FROMBITS, F_UF,
    // bool results
    F_LT, F_LE, F_EQ, F_UNO,
    // integer results
    F_TOINT, F_BITS
};

struct Expr;
struct Term { i64 c; Expr* a; };
struct Expr {
    Kind k;
    uint8_t flags = 0;  // bit0: contains non-LIA atoms (AND/XOR/MUL); bit1: contains FP; bit2: FP expr is a bool; bit3: FP expr is an FP value
    uint32_t id = 0;
    uint32_t n = 0;
    i64 kc = 0;  // constant
    i64 d = 0;   // divisor / op / var index
    Term* t = nullptr;
    i128 lo = 0, hi = 0;
    // caches
    void* z[2] = {nullptr, nullptr};
    uint32_t zep[2] = {0, 0};
    uint32_t evep = 0;
    i128 ev = 0;
};
enum { FL_NONLIN = 1, FL_FP = 2, FL_FPBOOL = 4, FL_FPVAL = 8 };

struct Val {
    u64 c = 0;
    Expr* e = nullptr;  // if non-null: symbolic; K_LIN for integers (incl. i1), K_FP (FPVAL) for doubles
    Val() {}
    Val(u64 c) : c(c) {}
    static Val sym(Expr* e) { Val v; v.e = e; return v; }
    bool isC() const { return !e; }
};

// path-sensitive case split on wrap quotients: returns true and the quotient if decided on the current path
extern bool (*g_fdivHook)(const struct Lin& r, i64 d, i128 ql, i128 qh, i128& q);
struct VarInfo { std::string name; i64 lo, hi; bool isfp = false; Expr* e; };
extern std::vector<VarInfo> g_vars;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
inline i64 normc(i64 c, unsigned w) { if (w == 1) return c & 1; return sextw((u64)c, w); }

struct Lin {  // mutable builder
    std::vector<Term> t;
    i64 k = 0;
    void addTerm(i64 c, Expr* a);
};

Expr* mkVar(const std::string& name, i64 lo, i64 hi, int* idx_out = nullptr);
Expr* internLin(const Lin& l);  // as is (no width)
Val finish(Lin& l, unsigned w); // reduce mod 2^w -> Val
Lin toLin(const Val& v, unsigned w);  // math lin whose value mod 2^w is v
void linRange(const Lin& l, i128& lo, i128& hi);
Lin exactU(const Val& v, unsigned w);
Lin exactS(const Val& v, unsigned w);
Lin linFdiv(const Lin& l, i64 d);

Val vAdd(const Val& a, const Val& b, unsigned w);
Val vSub(const Val& a, const Val& b, unsigned w);
Val vMul(const Val& a, const Val& b, unsigned w);
Val vMulC(const Val& a, i64 c, unsigned w);
Val vAnd(const Val& a, const Val& b, unsigned w);
Val vOr(const Val& a, const Val& b, unsigned w);
Val vXor(const Val& a, const Val& b, unsigned w);
Val vLshrC(const Val& a, unsigned s, unsigned w);
Val vAshrC(const Val& a, unsigned s, unsigned w);
Val vUdivC(const Val& a, u64 d, unsigned w);
Val vTrunc(const Val& a, unsigned from, unsigned to);
Val vZext(const Val& a, unsigned from, unsigned to);
Val vSext(const Val& a, unsigned from, unsigned to);
// booleans (i1)
Val bLe0(Lin l);
Val bEq0(Lin l);
Val bNot(const Val& a);
Val bAnd(const Val& a, const Val& b);
Val bOr(const Val& a, const Val& b);
Val bXor(const Val& a, const Val& b);
Val vUlt(const Val& a, const Val& b, unsigned w);
Val vUle(const Val& a, const Val& b, unsigned w);
Val vSlt(const Val& a, const Val& b, unsigned w);
Val vSle(const Val& a, const Val& b, unsigned w);
Val vEq(const Val& a, const Val& b, unsigned w);
Val vIte(const Val& c, const Val& a, const Val& b, unsigned w);
// boolean literal access: returns atom and polarity (neg)
inline Expr* litAtom(const Val& v, bool& neg) { neg = (v.e->kc & 1); return v.e->t[0].a; }
Val mkLit(Expr* atom, bool neg);
bool isBoolAtom(const Expr* e);

// floating point
Val fConst(double d);
bool fIsC(const Val& v);
double fC(const Val& v);
Val fBin(int op, const Val& a, const Val& b);
Val fUn(int op, const Val& a);
Val fFromInt(const Lin& l);
Val fCmp(int op, const Val& a, const Val& b);  // F_LT F_LE F_EQ F_UNO -> i1
Val fIte(const Val& c, const Val& a, const Val& b);
bool fAsLin(const Val& v, Lin& out);  // exact integer valued
bool fExact(const Val& v);
bool fFloor(const Val& v, Val& out);
Val fToInt(const Val& a, unsigned w, bool sgn);
Val fUF(const std::string& name, const std::vector<Val>& args);
Val mkFpVar(const std::string& name, double lo, double hi, int* idx_out);

// evaluation under a model (vector indexed by var index; fp vars hold the bit pattern)
typedef std::vector<i64> Model;
extern uint32_t g_evalEpoch;
i128 evalE(Expr* e, const Model& m);     // uses epoch cache: bump g_evalEpoch when the model changes
u64 evalVal(const Val& v, unsigned w, const Model& m);
std::string exprStr(const Expr* e, int depth = 6);
std::string valStr(const Val& v);
extern u64 g_nExprs;
