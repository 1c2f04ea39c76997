// Hash-consed bit-vector / floating-point expression DAG.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 {
    E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    // floating point: operands and results are bit patterns (32, 64 or 80 bits)
    E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FSQRT, E_FRND /*aux=mode*/, E_FMA,
    E_FOEQ, E_FOLT, E_FOLE, E_FUNO,
    E_FEXT, E_FTRUNC, E_FTOSI, E_FTOUI, E_SITOF, E_UITOF,
    E_AGG,   // not interned: aggregate of values
    E_UNINIT // marker byte
};

struct Val;
struct SymSet { std::vector<u32> ids; };

struct Expr {
    Op op; u16 w; u16 nk; u32 aux; // aux: extract offset, symbol id, fp source width...
    u32 id;
    const Expr* k[3];
    u128 c;
    u64 umin, umax; // only valid for w<=64
    const SymSet* syms;
    mutable u32 evEpoch = 0; mutable u32 z3Epoch = 0; mutable void* z3ast = nullptr; mutable void* z3fp = nullptr;
    mutable u128 evVal = 0;
    std::vector<Val>* agg = nullptr;
};
typedef const Expr* Ex;

struct Val {
    Ex e = nullptr; u128 c = 0;
    Val() {}
    explicit Val(u128 v) : c(v) {}
    explicit Val(Ex x) : e(x) { if (x && x->op == E_CONST) { c = x->c; e = nullptr; } }
    bool conc() const { return !e; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

struct SymInfo { std::string name; unsigned w; };
extern std::vector<SymInfo> g_syms;

Ex mkConst(unsigned w, u128 v);
Ex mkSym(const std::string& name, unsigned w);
Ex mkBin(Op op, Ex a, Ex b);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkTrunc(Ex a, unsigned w);
Ex mkExtract(Ex a, unsigned off, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkNot(Ex a);              // 1-bit
Ex mkFP(Op op, unsigned w, Ex a, Ex b = nullptr, Ex c = nullptr, u32 aux = 0);
static inline Ex mkEq(Ex a, Ex b) { return mkBin(E_EQ, a, b); }
static inline Ex mkAnd(Ex a, Ex b) { return mkBin(E_AND, a, b); }
static inline Ex mkOr(Ex a, Ex b) { return mkBin(E_OR, a, b); }
static inline bool isConst(Ex a) { return a->op == E_CONST; }
static inline bool isTrue(Ex a) { return a->op == E_CONST && a->c; }
static inline bool isFalse(Ex a) { return a->op == E_CONST && !a->c; }

u128 foldBin(Op op, unsigned w, u128 a, u128 b);  // w = operand width
u128 foldFP(Op op, unsigned w, unsigned sw, u128 a, u128 b, u128 c, u32 aux);

typedef std::vector<u128> Model; // by symbol id; missing -> 0
u128 evalExpr(Ex e, const Model& m); // memoised within one epoch
void newEvalEpoch();
std::string exprStr(Ex e, int depth = 6);

extern u64 g_exprCount;
