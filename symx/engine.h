#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

// ---------------------------------------------------------------- memory
static const unsigned PG = 256;
struct SymByte { Expr* e; uint8_t idx; uint8_t w; };  // byte idx of value e (width w bits); e==nullptr -> concrete
struct Page {
    int ref = 1;
    uint8_t data[PG];
    uint8_t ok[PG / 8];      // addressable bitmap
    SymByte* sym = nullptr;  // nullptr or PG entries
    int nsym = 0;
    Page() { memset(data, 0xbe, PG); memset(ok, 0, sizeof ok); }
    ~Page() { delete[] sym; }
};
struct PageRef {
    Page* p = nullptr;
    PageRef() {}
    PageRef(Page* p) : p(p) {}
    PageRef(const PageRef& o) : p(o.p) { if (p) p->ref++; }
    PageRef(PageRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    PageRef& operator=(PageRef o) { std::swap(p, o.p); return *this; }
    ~PageRef() { if (p && --p->ref == 0) delete p; }
};
enum { R_GLOBAL = 0, R_HEAP = 1, R_STACK = 2, NREG = 3 };
static const u64 REGBASE[NREG] = {0x100000000ull, 0x200000000ull, 0x700000000ull};
static const u64 FUNCBASE = 0x900000000ull;
struct Region { std::vector<PageRef> pages; u64 top = 0; };

struct AllocInfo { u64 size; uint8_t kind; };  // kind 1=new,2=new[],3=malloc ; freed entries are erased and remembered in `freed`

struct CFunc;
struct Frame {
    CFunc* f = nullptr;
    uint32_t bb = 0, prevbb = 0, pc = 0;
    std::vector<Val> regs;
    u64 stackTop = 0;       // stack pointer at entry
    int retReg = -1;        // where the caller wants the result (register index in caller's frame)
    uint32_t retBB = 0;     // for invoke: normal destination
    uint32_t unwindBB = 0;
    bool isInvoke = false;
};
typedef std::shared_ptr<Frame> FrameP;

struct Violation { std::string kind, msg, where; Model model; std::vector<std::pair<std::string, u64>> inputs; std::vector<std::string> trail; };

struct State {
    std::vector<FrameP> stack;
    Region reg[NREG];
    std::vector<LitC> path;
    std::unordered_map<Expr*, bool> known;           // atoms decided on this path
    std::unordered_map<Expr*, std::pair<u64, unsigned>> knownVal;         // LIN expr -> concrete value on this path
    std::shared_ptr<Model> model;
    std::vector<std::pair<i64, i64>> bounds;         // per var refined bounds
    std::shared_ptr<std::map<u64, AllocInfo>> allocs;
    std::vector<int> inputs;                         // var indices in order of creation
    std::unordered_map<std::string, int> nameCount;
    std::vector<std::pair<std::string, Val>> outs;   // recorded outputs (64-bit)
    std::vector<LitC> pendingAsserts; std::vector<const char*> pendingMsgs;
    u64 excObj = 0, excType = 0;
    std::vector<std::pair<u64, u64>> caught;
    u64 steps = 0, depth = 0;
    u64 choices = 0, liveBytes = 0;
    std::vector<std::string> reached;
    uint32_t id = 0;
};

struct Operand { bool isC; int reg; Val v; };
struct CInst {
    llvm::Instruction* I;
    unsigned op;
    int dst = -1, ndst = 0;
    unsigned w = 0;      // result or operand width (bits)
    std::vector<Operand> ops;  // flattened scalar operands
    std::vector<u64> aux;
    CFunc* callee = nullptr; int builtin = -1; unsigned iid = 0;
    std::vector<std::pair<u64, unsigned>> layout;  // offset,width(bits) of each scalar for load/store of aggregates
    std::vector<u64> gepScale;
};
struct CBlock { std::vector<CInst> insts; uint32_t firstNonPhi = 0; bool covered = false; llvm::BasicBlock* bb; };
struct CFunc {
    llvm::Function* F; bool compiled = false; int nregs = 0; std::vector<CBlock> blocks; std::vector<int> argRegs; std::vector<int> argN;
    std::string demangled; bool repo = false; u64 calls = 0;
};
