#include "expr.h"
#include <cmath>
#include <algorithm>
#include <cassert>
#include <sstream>

std::vector<SymInfo> g_syms;
u64 g_exprCount = 0;

// ---------- arena & interning ----------
namespace {
struct Key { Op op; u16 w; u32 aux; Ex a, b, c; u128 v; };
struct Table {
    std::vector<Expr*> slots; size_t n = 0;
    Table() : slots(1 << 16, nullptr) {}
};
Table T;
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
inline u64 hashKey(Op op, unsigned w, u32 aux, Ex a, Ex b, Ex c, u128 v) {
    u64 h = mix(op * 1315423911ULL + w, aux);
    h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
    h = mix(h, (u64)v); h = mix(h, (u64)(v >> 64));
    return h;
}
inline u64 hashE(const Expr* e) { return hashKey(e->op, e->w, e->aux, e->k[0], e->k[1], e->k[2], e->c); }
char* arenaP = nullptr; size_t arenaLeft = 0;
Expr* alloc() {
    if (arenaLeft < sizeof(Expr) + 16) { arenaLeft = 1 << 20; arenaP = (char*)aligned_alloc(64, arenaLeft); }
    Expr* e = new (arenaP) Expr(); size_t s = (sizeof(Expr) + 15) & ~size_t(15); arenaP += s; arenaLeft -= s;
    return e;
}
struct SSHash { size_t operator()(const std::vector<u32>& v) const { u64 h = 7; for (u32 x : v) h = mix(h, x); return h; } };
std::unordered_map<std::vector<u32>, SymSet*, SSHash> symsets;
const SymSet* internSet(std::vector<u32>&& v) {
    auto it = symsets.find(v);
    if (it != symsets.end()) return it->second;
    SymSet* s = new SymSet{v}; symsets.emplace(std::move(v), s); return s;
}
const SymSet* emptySet() { static const SymSet* s = internSet({}); return s; }
std::unordered_map<u64, const SymSet*> unionCache;
const SymSet* unite(const SymSet* a, const SymSet* b) {
    if (a == b || b->ids.empty()) return a;
    if (a->ids.empty()) return b;
    u64 key = mix((u64)(uintptr_t)a, (u64)(uintptr_t)b);
    auto it = unionCache.find(key);
    (void)it;
    std::vector<u32> r; r.reserve(a->ids.size() + b->ids.size());
    std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
    if (r.size() == a->ids.size()) return a;
    if (r.size() == b->ids.size()) return b;
    return internSet(std::move(r));
}
void computeRange(Expr* e) {
    unsigned w = e->w;
    if (w > 64) { e->umin = 0; e->umax = ~0ULL; return; }
    u64 M = (u64)maskw(w);
    u64 lo = 0, hi = M;
    Ex a = e->k[0], b = e->k[1];
    switch (e->op) {
    case E_CONST: lo = hi = (u64)e->c; break;
    case E_ZEXT: if (a->w <= 64) { lo = a->umin; hi = a->umax; } break;
    case E_AND: hi = std::min(a->umax, b->umax); break;
    case E_OR: { lo = std::max(a->umin, b->umin); u64 m = a->umax | b->umax; if (m) { int k = 63 - __builtin_clzll(m); hi = k == 63 ? ~0ULL : ((2ULL << k) - 1); } else hi = 0; hi &= M; break; }
    case E_XOR: { u64 m = a->umax | b->umax; if (m) { int k = 63 - __builtin_clzll(m); hi = k == 63 ? ~0ULL : ((2ULL << k) - 1); } else hi = 0; hi &= M; break; }
    case E_ITE: lo = std::min(b->umin, e->k[2]->umin); hi = std::max(b->umax, e->k[2]->umax); break;
    case E_ADD: { u128 l = (u128)a->umin + b->umin, h = (u128)a->umax + b->umax; if (h <= M) { lo = (u64)l; hi = (u64)h; } else if (l > M && h <= (u128)M * 2 + 1) { lo = (u64)l & M; hi = (u64)h & M; } break; }
    case E_SUB: if (a->umin >= b->umax) { lo = a->umin - b->umax; hi = a->umax - b->umin; } break;
    case E_MUL: { u128 h = (u128)a->umax * b->umax; if (h <= M) { lo = a->umin * b->umin; hi = (u64)h; } break; }
    case E_UDIV: if (b->umin > 0) { lo = a->umin / b->umax; hi = a->umax / b->umin; } break;
    case E_UREM: if (b->umin > 0) { hi = std::min(a->umax, b->umax - 1); } break;
    case E_LSHR: if (b->op == E_CONST && b->c < w) { lo = a->umin >> (u64)b->c; hi = a->umax >> (u64)b->c; } else hi = a->umax; break;
    case E_SHL: if (b->op == E_CONST && b->c < w) { u128 h = (u128)a->umax << (u64)b->c; if (h <= M) { lo = a->umin << (u64)b->c; hi = (u64)h; } } break;
    case E_EXTRACT: if (e->aux == 0 && a->w <= 64 && a->umax <= M) { lo = a->umin; hi = a->umax; }
        else if (a->w <= 64 && e->aux + w == a->w) { lo = a->umin >> e->aux; hi = a->umax >> e->aux; } break;
    case E_CONCAT: { lo = (a->umin << b->w) | b->umin; hi = (a->umax << b->w) | b->umax; break; }
    case E_SEXT: if (a->w <= 64 && a->umax < (1ULL << (a->w - 1))) { lo = a->umin; hi = a->umax; } break;
    default: break;
    }
    e->umin = lo; e->umax = hi;
}
Ex intern(Op op, unsigned w, u32 aux, Ex a, Ex b, Ex c, u128 v) {
    u64 h = hashKey(op, w, aux, a, b, c, v);
    size_t m = T.slots.size() - 1, i = h & m;
    while (Expr* s = T.slots[i]) {
        if (s->op == op && s->w == w && s->aux == aux && s->k[0] == a && s->k[1] == b && s->k[2] == c && s->c == v) return s;
        i = (i + 1) & m;
    }
    Expr* e = alloc();
    e->op = op; e->w = w; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = v; e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
    e->id = ++g_exprCount;
    const SymSet* s = emptySet();
    if (op == E_SYM) s = internSet({aux});
    else { if (a) s = a->syms; if (b) s = unite(s, b->syms); if (c) s = unite(s, c->syms); }
    e->syms = s;
    computeRange(e);
    T.slots[i] = e;
    if (++T.n * 2 > T.slots.size()) {
        std::vector<Expr*> old; old.swap(T.slots); T.slots.assign(old.size() * 2, nullptr); m = T.slots.size() - 1;
        for (Expr* x : old) if (x) { size_t j = hashE(x) & m; while (T.slots[j]) j = (j + 1) & m; T.slots[j] = x; }
    }
    // a range that collapses to one value is a constant
    if (op != E_CONST && w <= 64 && e->umin == e->umax && op != E_SYM) return mkConst(w, e->umin);
    return e;
}
} // namespace

Ex mkConst(unsigned w, u128 v) { return intern(E_CONST, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
Ex mkSym(const std::string& name, unsigned w) {
    g_syms.push_back({name, w});
    return intern(E_SYM, w, (u32)g_syms.size() - 1, nullptr, nullptr, nullptr, 0);
}

u128 foldBin(Op op, unsigned w, u128 a, u128 b) {
    u128 M = maskw(w); a &= M; b &= M;
    switch (op) {
    case E_ADD: return (a + b) & M;
    case E_SUB: return (a - b) & M;
    case E_MUL: return (a * b) & M;
    case E_UDIV: return b ? a / b : M;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(0 - (u128)x) & M; return (u128)(x / y) & M; }
    case E_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: { i128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & M; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, w) < sextw(b, w);
    case E_SLE: return sextw(a, w) <= sextw(b, w);
    default: assert(0); return 0;
    }
}

// ---------- floating point on concrete bits ----------
static long double bitsToLD(u128 v, unsigned w) {
    if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
    if (w == 64) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
    long double f = 0; memcpy(&f, &v, 10); return f;
}
static u128 ldToBits(long double f) { u128 v = 0; memcpy(&v, &f, 10); return v; }
static float asF(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static u128 fromF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u128 fromD(double f) { u64 x; memcpy(&x, &f, 8); return x; }

u128 foldFP(Op op, unsigned w, unsigned sw, u128 a, u128 b, u128 c, u32 aux) {
    // sw = source (operand) width; w = result width
#define ARITH(EXPR_F, EXPR_D, EXPR_L) \
    if (sw == 32) { volatile float x = asF(a), y = asF(b), z = asF(c); (void)x; (void)y; (void)z; return fromF(EXPR_F); } \
    if (sw == 64) { volatile double x = asD(a), y = asD(b), z = asD(c); (void)x; (void)y; (void)z; return fromD(EXPR_D); } \
    { volatile long double x = bitsToLD(a, 80), y = bitsToLD(b, 80), z = bitsToLD(c, 80); (void)x; (void)y; (void)z; return ldToBits(EXPR_L); }
    switch (op) {
    case E_FADD: ARITH(x + y, x + y, x + y)
    case E_FSUB: ARITH(x - y, x - y, x - y)
    case E_FMUL: ARITH(x * y, x * y, x * y)
    case E_FDIV: ARITH(x / y, x / y, x / y)
    case E_FREM: ARITH(fmodf(x, y), fmod(x, y), fmodl(x, y))
    case E_FSQRT: ARITH(sqrtf(x), sqrt(x), sqrtl(x))
    case E_FMA: ARITH(fmaf(x, y, z), fma(x, y, z), fmal(x, y, z))
    case E_FRND:
        switch (aux) {
        case 0: ARITH(floorf(x), floor(x), floorl(x))
        case 1: ARITH(ceilf(x), ceil(x), ceill(x))
        case 2: ARITH(truncf(x), trunc(x), truncl(x))
        case 3: ARITH(roundf(x), round(x), roundl(x))
        default: ARITH(rintf(x), rint(x), rintl(x))
        }
    case E_FOEQ: return bitsToLD(a, sw) == bitsToLD(b, sw);
    case E_FOLT: return bitsToLD(a, sw) < bitsToLD(b, sw);
    case E_FOLE: return bitsToLD(a, sw) <= bitsToLD(b, sw);
    case E_FUNO: return std::isnan(bitsToLD(a, sw)) || std::isnan(bitsToLD(b, sw));
    case E_FEXT: case E_FTRUNC: {
        long double x = bitsToLD(a, sw);
        if (w == 32) return fromF((float)x);
        if (w == 64) return fromD((double)x);
        return ldToBits(x);
    }
    case E_FTOSI: {
        long double x = truncl(bitsToLD(a, sw));
        if (std::isnan(x)) return 0;
        long double lim = ldexpl(1.0L, (int)w - 1);
        if (x >= lim || x < -lim) return (u128)1 << (w - 1);
        return (u128)(i128)x & maskw(w);
    }
    case E_FTOUI: {
        long double x = truncl(bitsToLD(a, sw));
        if (std::isnan(x) || x < 0 || x >= ldexpl(1.0L, (int)w)) return maskw(w);
        return (u128)x & maskw(w);
    }
    case E_SITOF: {
        i128 x = sextw(a, sw);
        if (w == 32) return fromF((float)x);
        if (w == 64) return fromD((double)x);
        return ldToBits((long double)x);
    }
    case E_UITOF: {
        u128 x = a & maskw(sw);
        if (w == 32) return fromF((float)x);
        if (w == 64) return fromD((double)x);
        return ldToBits((long double)x);
    }
    default: assert(0); return 0;
    }
#undef ARITH
}

// ---------- smart constructors ----------
Ex mkNot(Ex a) { return mkBin(E_XOR, a, mkConst(1, 1)); }
static inline bool isNot(Ex a) { return a->op == E_XOR && a->w == 1 && isConst(a->k[1]); }

Ex mkExtract(Ex a, unsigned off, unsigned w) {
    assert(off + w <= a->w);
    if (off == 0 && w == a->w) return a;
    switch (a->op) {
    case E_CONST: return mkConst(w, a->c >> off);
    case E_EXTRACT: return mkExtract(a->k[0], a->aux + off, w);
    case E_CONCAT: {
        Ex hi = a->k[0], lo = a->k[1];
        if (off >= lo->w) return mkExtract(hi, off - lo->w, w);
        if (off + w <= lo->w) return mkExtract(lo, off, w);
        return mkConcat(mkExtract(hi, 0, off + w - lo->w), mkExtract(lo, off, lo->w - off));
    }
    case E_ZEXT: {
        Ex x = a->k[0];
        if (off >= x->w) return mkConst(w, 0);
        if (off + w <= x->w) return mkExtract(x, off, w);
        return mkZExt(mkExtract(x, off, x->w - off), w);
    }
    case E_SEXT: {
        Ex x = a->k[0];
        if (off + w <= x->w) return mkExtract(x, off, w);
        if (off < x->w) return mkSExt(mkExtract(x, off, x->w - off), w);
        break;
    }
    case E_AND: case E_OR: case E_XOR:
        return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case E_ITE:
        if (isConst(a->k[1]) || isConst(a->k[2]))
            return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
        break;
    case E_ADD: case E_SUB: case E_MUL:
        if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case E_SHL:
        if (isConst(a->k[1])) {
            unsigned s = (unsigned)a->k[1]->c;
            if (off >= s) return mkExtract(a->k[0], off - s, w);
            if (off + w <= s) return mkConst(w, 0);
        }
        break;
    case E_LSHR:
        if (isConst(a->k[1])) {
            unsigned s = (unsigned)a->k[1]->c;
            if (off + s + w <= a->w) return mkExtract(a->k[0], off + s, w);
            if (off + s >= a->w) return mkConst(w, 0);
        }
        break;
    default: break;
    }
    return intern(E_EXTRACT, w, off, a, nullptr, nullptr, 0);
}
Ex mkTrunc(Ex a, unsigned w) { return mkExtract(a, 0, w); }

Ex mkZExt(Ex a, unsigned w) {
    if (w == a->w) return a;
    if (isConst(a)) return mkConst(w, a->c);
    if (a->op == E_ZEXT) return mkZExt(a->k[0], w);
    if (a->op == E_EXTRACT && a->aux == 0 && a->k[0]->w == w && w <= 64 && (a->w >= 64 || a->k[0]->umax < (1ULL << a->w))) return a->k[0];
    if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return intern(E_ZEXT, w, 0, a, nullptr, nullptr, 0);
}
Ex mkSExt(Ex a, unsigned w) {
    if (w == a->w) return a;
    if (isConst(a)) return mkConst(w, (u128)sextw(a->c, a->w));
    if (a->op == E_SEXT) return mkSExt(a->k[0], w);
    if (a->op == E_ZEXT) return mkZExt(a->k[0], w);
    if (a->w == 1) return mkIte(a, mkConst(w, ~(u128)0), mkConst(w, 0));
    if (a->w <= 64 && a->umax < (1ULL << (a->w - 1))) return mkZExt(a, w);
    if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return intern(E_SEXT, w, 0, a, nullptr, nullptr, 0);
}
Ex mkConcat(Ex hi, Ex lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (isConst(hi) && isConst(lo)) return mkConst(w, (hi->c << lo->w) | lo->c);
    if (isConst(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && lo->aux + lo->w == hi->aux)
        return mkExtract(hi->k[0], lo->aux, w);
    if (isConst(hi) && lo->op == E_EXTRACT && lo->aux == 0 && lo->k[0]->w == w && w <= 64 && lo->w < 64 && (lo->k[0]->umin >> lo->w) == (u64)hi->c && (lo->k[0]->umax >> lo->w) == (u64)hi->c) return lo->k[0];
    if (hi->op == E_ZEXT && hi->k[0]->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0]->k[0] == lo->k[0] && lo->aux + lo->w == hi->k[0]->aux)
        return mkZExt(mkExtract(lo->k[0], lo->aux, hi->k[0]->w + lo->w), w);
    // (concat (concat a x[hi]) x[lo])
    if (lo->op == E_CONCAT) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
    if (hi->op == E_CONCAT && hi->k[1]->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[1]->k[0] == lo->k[0] && lo->aux + lo->w == hi->k[1]->aux)
        return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, hi->k[1]->w + lo->w));
    // extract of x from 0 plus zero-extension pieces: concat(extract(x), x) where lo is the plain low part of wider source
    if (hi->op == E_EXTRACT && hi->k[0]->op != E_CONCAT && hi->aux == lo->w && hi->k[0]->w >= w && mkExtract(hi->k[0], 0, lo->w) == lo)
        return mkExtract(hi->k[0], 0, w);
    if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return intern(E_CONCAT, w, 0, hi, lo, nullptr, 0);
}
Ex mkIte(Ex c, Ex a, Ex b) {
    assert(a->w == b->w && c->w == 1);
    if (isConst(c)) return c->c ? a : b;
    if (a == b) return a;
    if (isNot(c)) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isConst(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isConst(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (b->op == E_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    if (b->op == E_ITE && b->k[2] == a) return mkIte(mkOr(c, mkNot(b->k[0])), a, b->k[1]);
    return intern(E_ITE, a->w, 0, c, a, b, 0);
}

// is this an ITE tree with constant leaves (bounded)?
static int iteConstLeaves(Ex e, int budget) {
    if (isConst(e)) return 1;
    if (e->op != E_ITE || budget <= 0) return 1000;
    int l = iteConstLeaves(e->k[1], budget - 1);
    if (l > 64) return 1000;
    return l + iteConstLeaves(e->k[2], budget - 1);
}
static Ex pushCmp(Op op, Ex t, Ex k, bool left) {
    if (isConst(t)) return left ? mkBin(op, t, k) : mkBin(op, k, t);
    return mkIte(t->k[0], pushCmp(op, t->k[1], k, left), pushCmp(op, t->k[2], k, left));
}
// structural "x == constant" pattern
static bool eqConst(Ex e, Ex& x, u128& c) {
    if (e->op == E_EQ && isConst(e->k[1])) { x = e->k[0]; c = e->k[1]->c; return true; }
    return false;
}

// (t / c) * c with t returned, op tells the kind of division
static Ex mulOfDiv(Ex m, Op& rem, Ex& c) {
    if (m->op != E_MUL || !isConst(m->k[1])) return nullptr;
    Ex d = m->k[0]; if ((d->op != E_UDIV && d->op != E_SDIV) || d->k[1] != m->k[1]) return nullptr;
    rem = d->op == E_UDIV ? E_UREM : E_SREM; c = m->k[1]; return d->k[0];
}
Ex mkBin(Op op, Ex a, Ex b) {
    assert(a->w == b->w);
    unsigned w = a->w;
    bool cmp = op >= E_EQ && op <= E_SLE;
    if (isConst(a) && isConst(b)) return mkConst(cmp ? 1 : w, foldBin(op, w, a->c, b->c));
    // canonical: constant on the right for commutative
    bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
    if (comm) { if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b); }
    u128 M = maskw(w);
    switch (op) {
    case E_ADD:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(w, a->k[1]->c + b->c));
            if (a->op == E_SUB && isConst(a->k[0])) return mkBin(E_SUB, mkConst(w, a->k[0]->c + b->c), a->k[1]);
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        } else {
            if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
            if (b->op == E_ADD && isConst(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
            if (a->op == E_SUB && a->k[1] == b) return a->k[0];
            if (b->op == E_SUB && b->k[1] == a) return b->k[0];
            for (int i = 0; i < 2; ++i) { Ex x = i ? b : a, y = i ? a : b; Op rem; Ex c; Ex t = mulOfDiv(x, rem, c); if (t && y->op == rem && y->k[0] == t && y->k[1] == c) return t; }
        }
        break;
    case E_SUB:
        if (a == b) return mkConst(w, 0);
        if (isConst(b)) return mkBin(E_ADD, a, mkConst(w, 0 - b->c));
        { Op rem; Ex c; Ex t = mulOfDiv(b, rem, c); if (t && t == a) return mkBin(rem, a, c); }
        if ((a->op == E_SEXT || a->op == E_ZEXT) && a->op == b->op && a->k[0]->w == b->k[0]->w) {   // a difference that fits (the same sign, the smaller magnitude)
            Op rem; Ex c; Ex t = mulOfDiv(b->k[0], rem, c);
            if (t && t == a->k[0] && (rem == E_SREM) == (a->op == E_SEXT)) { Ex r = mkBin(rem, t, c); return a->op == E_SEXT ? mkSExt(r, w) : mkZExt(r, w); }
        }
        if (isConst(a) && b->op == E_ADD && isConst(b->k[1])) return mkBin(E_SUB, mkConst(w, a->c - b->k[1]->c), b->k[0]);
        if (isConst(a) && a->c == 0 && b->op == E_SUB) return mkBin(E_SUB, b->k[1], b->k[0]);
        if (isConst(a) && b->op == E_SUB && isConst(b->k[0])) return mkBin(E_ADD, b->k[1], mkConst(w, a->c - b->k[0]->c));
        if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a->k[0], b), a->k[1]);
        if (b->op == E_ADD && isConst(b->k[1])) return mkBin(E_ADD, mkBin(E_SUB, a, b->k[0]), mkConst(w, 0 - b->k[1]->c));
        if (a->op == E_ADD && a->k[0] == b) return a->k[1];
        if (a->op == E_ADD && a->k[1] == b) return a->k[0];
        if (isConst(a) && b->op == E_ITE && isConst(b->k[1]) && isConst(b->k[2])) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
        if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0] && isConst(a->k[1]) && isConst(a->k[2]))
            return mkIte(a->k[0], mkBin(op, a->k[1], b->k[1]), mkBin(op, a->k[2], b->k[2]));
        break;
    case E_MUL:
        if (isConst(b)) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; u128 t = b->c; while (t > 1) { t >>= 1; ++s; } return mkBin(E_SHL, a, mkConst(w, s)); }
            if (a->op == E_MUL && isConst(a->k[1])) return mkBin(E_MUL, a->k[0], mkConst(w, a->k[1]->c * b->c));
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        break;
    case E_UDIV:
        if (isConst(b)) {
            if (b->c == 1) return a;
            if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; u128 t = b->c; while (t > 1) { t >>= 1; ++s; } return mkBin(E_LSHR, a, mkConst(w, s)); }
            if (w <= 64 && a->umax < (u64)b->c) return mkConst(w, 0);
            // narrow when the operand is zero-extended
            if (a->op == E_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZExt(mkBin(E_UDIV, a->k[0], mkConst(a->k[0]->w, b->c)), w);
        }
        break;
    case E_UREM:
        if (isConst(b)) {
            if (b->c == 1) return mkConst(w, 0);
            if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(E_AND, a, mkConst(w, b->c - 1));
            if (w <= 64 && a->umax < (u64)b->c) return a;
            if (a->op == E_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZExt(mkBin(E_UREM, a->k[0], mkConst(a->k[0]->w, b->c)), w);
        }
        break;
    case E_SDIV: case E_SREM:
        if (w <= 64 && isConst(b) && sextw(b->c, w) > 0 && a->umax < (1ULL << (w - 1)))
            return mkBin(op == E_SDIV ? E_UDIV : E_UREM, a, b);
        if (op == E_SDIV && isConst(b) && b->c == 1) return a;
        break;
    case E_AND:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->c == 0) return b;
            if (b->c == M) return a;
            if (a->op == E_AND && isConst(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(w, a->k[1]->c & b->c));
            // low mask covering the whole range
            if (w <= 64 && (b->c & (b->c + 1)) == 0) {
                if (a->umax <= (u64)b->c) return a;
                unsigned k = 0; u128 t = b->c; while (t) { t >>= 1; ++k; }
                return mkZExt(mkExtract(a, 0, k), w);
            }
            if (a->op == E_ZEXT) { Ex x = a->k[0]; return mkZExt(mkBin(E_AND, x, mkConst(x->w, b->c)), w); }
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        if (w == 1) {
            if (isNot(a) && a->k[0] == b) return mkConst(1, 0);
            if (isNot(b) && b->k[0] == a) return mkConst(1, 0);
            Ex x, y; u128 c1, c2;
            if (eqConst(a, x, c1) && eqConst(b, y, c2) && x == y && c1 != c2) return mkConst(1, 0);
            if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
        }
        break;
    case E_OR:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c == M) return b;
            if (a->op == E_OR && isConst(a->k[1])) return mkBin(E_OR, a->k[0], mkConst(w, a->k[1]->c | b->c));
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        if (w == 1) {
            if (isNot(a) && a->k[0] == b) return mkConst(1, 1);
            if (isNot(b) && b->k[0] == a) return mkConst(1, 1);
            for (int q = 0; q < 2; ++q) { // a | (!a & b) = a | b
                Ex x = q ? b : a, y = q ? a : b;
                if (y->op == E_AND && y->k[0] != x && y->k[1] != x) {
                    if ((isNot(y->k[0]) && y->k[0]->k[0] == x) || (isNot(x) && x->k[0] == y->k[0])) return mkOr(x, y->k[1]);
                    if ((isNot(y->k[1]) && y->k[1]->k[0] == x) || (isNot(x) && x->k[0] == y->k[1])) return mkOr(x, y->k[0]);
                }
            }
            if (b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b;
            if (a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a;
        } else {
            // disjoint shift-or => concat
            Ex hi = nullptr, lo = nullptr;
            if (a->op == E_SHL && isConst(a->k[1]) && b->op == E_ZEXT && b->k[0]->w <= a->k[1]->c) { hi = a; lo = b; }
            else if (b->op == E_SHL && isConst(b->k[1]) && a->op == E_ZEXT && a->k[0]->w <= b->k[1]->c) { hi = b; lo = a; }
            if (hi) {
                unsigned s = (unsigned)hi->k[1]->c;
                if (s < w) return mkConcat(mkExtract(hi->k[0], 0, w - s), mkZExt(lo->k[0], s));
            }
        }
        break;
    case E_XOR:
        if (a == b) return mkConst(w, 0);
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (a->op == E_XOR && isConst(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(w, a->k[1]->c ^ b->c));
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
            if (w == 1 && b->c == 1) {
                // not: flip comparisons
                if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
                if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
                if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
                if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
            }
        }
        break;
    case E_SHL: case E_LSHR: case E_ASHR:
        if (isConst(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) { if (op != E_ASHR) return mkConst(w, 0); b = mkConst(w, w - 1); }
            unsigned s = (unsigned)b->c;
            if (op == E_LSHR) {
                if (a->op == E_LSHR && isConst(a->k[1])) { u128 t = a->k[1]->c + s; return mkBin(E_LSHR, a->k[0], mkConst(w, t)); }
                Ex x = mkExtract(a, s, w - s);
                return mkZExt(x, w);
            }
            if (op == E_SHL && a->op == E_SHL && isConst(a->k[1])) return mkBin(E_SHL, a->k[0], mkConst(w, a->k[1]->c + s));
            if (op == E_ASHR) {
                if (w <= 64 && a->umax < (1ULL << (w - 1))) return mkBin(E_LSHR, a, b);
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2])) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        }
        if (isConst(a) && a->c == 0) return a;
        break;
    case E_EQ:
        if (a == b) return mkConst(1, 1);
        if (w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return mkConst(1, 0);
        if (w == 1) { if (isConst(b)) return b->c ? a : mkNot(a); return mkNot(mkBin(E_XOR, a, b)); }
        if (isConst(b)) {
            switch (a->op) {
            case E_ZEXT: if (b->c > maskw(a->k[0]->w)) return mkConst(1, 0); return mkEq(a->k[0], mkConst(a->k[0]->w, b->c));
            case E_SEXT: { Ex x = a->k[0]; if ((u128)sextw(b->c, x->w) != (u128)sextw(b->c, w)) return mkConst(1, 0); return mkEq(x, mkConst(x->w, b->c)); }
            case E_ADD: if (isConst(a->k[1])) return mkEq(a->k[0], mkConst(w, b->c - a->k[1]->c)); break;
            case E_SUB: if (isConst(a->k[0])) return mkEq(a->k[1], mkConst(w, a->k[0]->c - b->c)); if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
            case E_XOR: if (isConst(a->k[1])) return mkEq(a->k[0], mkConst(w, a->k[1]->c ^ b->c)); if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
            case E_CONCAT: { Ex hi = a->k[0], lo = a->k[1]; return mkAnd(mkEq(lo, mkConst(lo->w, b->c)), mkEq(hi, mkConst(hi->w, b->c >> lo->w))); }
            case E_ITE: if (iteConstLeaves(a, 40) <= 64) return pushCmp(op, a, b, true);
                if (isConst(a->k[1]) || isConst(a->k[2])) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b)); break;
            default: break;
            }
        } else {
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
            if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
            if (a->op == E_ADD && b->op == E_ADD && isConst(a->k[1]) && isConst(b->k[1])) return mkEq(a->k[0], mkBin(E_ADD, b->k[0], mkConst(w, b->k[1]->c - a->k[1]->c)));
            if (a->op == E_ADD && a->k[0] == b) return mkEq(a->k[1], mkConst(w, 0));
            if (a->op == E_ADD && a->k[1] == b) return mkEq(a->k[0], mkConst(w, 0));
            if (b->op == E_ADD && b->k[0] == a) return mkEq(b->k[1], mkConst(w, 0));
            if (b->op == E_ADD && b->k[1] == a) return mkEq(b->k[0], mkConst(w, 0));
        }
        return intern(E_EQ, 1, 0, a, b, nullptr, 0);
    case E_ULT: case E_ULE: case E_SLT: case E_SLE: {
        if (a == b) return mkConst(1, op == E_ULE || op == E_SLE);
        if (w <= 64) {
            if (op == E_ULT) { if (a->umax < b->umin) return mkConst(1, 1); if (a->umin >= b->umax) return mkConst(1, 0); }
            if (op == E_ULE) { if (a->umax <= b->umin) return mkConst(1, 1); if (a->umin > b->umax) return mkConst(1, 0); }
            if (op == E_SLT || op == E_SLE) {
                u64 half = 1ULL << (w - 1);
                if (w == 64 ? true : true) {
                    if (a->umax < half && b->umax < half) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
                    if (a->umin >= half && b->umin >= half) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
                    if (a->umax < half && b->umin >= half) return mkConst(1, 0);
                    if (a->umin >= half && b->umax < half) return mkConst(1, 1);
                }
            }
        }
        if (w == 1) { // 1-bit
            if (op == E_ULT) return mkAnd(mkNot(a), b);
            if (op == E_ULE) return mkOr(mkNot(a), b);
            if (op == E_SLT) return mkAnd(a, mkNot(b));
            return mkOr(a, mkNot(b));
        }
        if (op == E_ULT && isConst(b) && b->c == 1) return mkEq(a, mkConst(w, 0));
        if (op == E_ULE && isConst(b) && b->c == 0) return mkEq(a, b);
        if (op == E_ULT && isConst(a) && a->c == 0) return mkNot(mkEq(b, a));
        if (op == E_ULE && isConst(a) && a->c == 1) return mkNot(mkEq(b, mkConst(w, 0)));
        if ((a->op == E_ZEXT || isConst(a)) && (b->op == E_ZEXT || isConst(b)) && (op == E_ULT || op == E_ULE)) {
            unsigned nw = 0;
            if (a->op == E_ZEXT) nw = a->k[0]->w;
            if (b->op == E_ZEXT && b->k[0]->w > nw) nw = b->k[0]->w;
            bool ok = nw < w && (!isConst(a) || a->c <= maskw(nw)) && (!isConst(b) || b->c <= maskw(nw));
            if (ok) return mkBin(op, mkExtract(a, 0, nw), mkExtract(b, 0, nw));
        }
        if ((op == E_SLT || op == E_SLE) && a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        if ((op == E_SLT || op == E_SLE) && a->op == E_SEXT && isConst(b)) {
            unsigned nw = a->k[0]->w; i128 v = sextw(b->c, w);
            if (sextw((u128)v, nw) == v) return mkBin(op, a->k[0], mkConst(nw, (u128)v));
            return mkConst(1, v > 0);
        }
        if ((op == E_SLT || op == E_SLE) && b->op == E_SEXT && isConst(a)) {
            unsigned nw = b->k[0]->w; i128 v = sextw(a->c, w);
            if (sextw((u128)v, nw) == v) return mkBin(op, mkConst(nw, (u128)v), b->k[0]);
            return mkConst(1, v < 0);
        }
        if (isConst(b) && a->op == E_ITE && iteConstLeaves(a, 40) <= 64) return pushCmp(op, a, b, true);
        if (isConst(a) && b->op == E_ITE && iteConstLeaves(b, 40) <= 64) return pushCmp(op, b, a, false);
        return intern(op, 1, 0, a, b, nullptr, 0);
    }
    default: break;
    }
    return intern(op, w, 0, a, b, nullptr, 0);
}

Ex mkFP(Op op, unsigned w, Ex a, Ex b, Ex c, u32 aux) {
    unsigned sw = a->w;
    if (isConst(a) && (!b || isConst(b)) && (!c || isConst(c)))
        return mkConst(w, foldFP(op, w, sw, a->c, b ? b->c : 0, c ? c->c : 0, aux));
    if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]) && (!b || isConst(b)) && !c)
        return mkIte(a->k[0], mkFP(op, w, a->k[1], b, c, aux), mkFP(op, w, a->k[2], b, c, aux));
    if ((op == E_FADD || op == E_FMUL) && a->id > b->id) std::swap(a, b); // commutative (up to the payload of a NaN, which no check may depend on)
    return intern(op, w, aux, a, b, c, 0);
}

// ---------- evaluation ----------
static u32 evEpochG = 1;
void newEvalEpoch() { ++evEpochG; }
u128 evalExpr(Ex root, const Model& m) {
    // iterative to survive deep DAGs
    static std::vector<Ex> st; size_t base = st.size();
    st.push_back(root);
    while (st.size() > base) {
        Ex e = st.back();
        if (e->evEpoch == evEpochG) { st.pop_back(); continue; }
        if (e->op == E_CONST) { e->evVal = e->c; e->evEpoch = evEpochG; st.pop_back(); continue; }
        if (e->op == E_SYM) { e->evVal = e->aux < m.size() ? m[e->aux] & maskw(e->w) : 0; e->evEpoch = evEpochG; st.pop_back(); continue; }
        if (e->op == E_ITE) {
            Ex c = e->k[0];
            if (c->evEpoch != evEpochG) { st.push_back(c); continue; }
            Ex x = c->evVal ? e->k[1] : e->k[2];
            if (x->evEpoch != evEpochG) { st.push_back(x); continue; }
            e->evVal = x->evVal; e->evEpoch = evEpochG; st.pop_back(); continue;
        }
        bool ready = true;
        for (int i = 0; i < e->nk; ++i) if (e->k[i]->evEpoch != evEpochG) { st.push_back(e->k[i]); ready = false; }
        if (!ready) continue;
        u128 a = e->k[0]->evVal, b = e->nk > 1 ? e->k[1]->evVal : 0, r;
        unsigned aw = e->k[0]->w;
        switch (e->op) {
        case E_ZEXT: r = a; break;
        case E_SEXT: r = (u128)sextw(a, aw) & maskw(e->w); break;
        case E_EXTRACT: r = (a >> e->aux) & maskw(e->w); break;
        case E_CONCAT: r = (a << e->k[1]->w) | b; break;
        default:
            if (e->op >= E_FADD) r = foldFP(e->op, e->w, aw, a, b, e->nk > 2 ? e->k[2]->evVal : 0, e->aux);
            else r = foldBin(e->op, aw, a, b);
        }
        e->evVal = r; e->evEpoch = evEpochG; st.pop_back();
    }
    return root->evVal;
}

static const char* opn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","fma","foeq","folt","fole","funo","fext","ftrunc","ftosi","ftoui","sitof","uitof","agg","uninit"};
std::string exprStr(Ex e, int depth) {
    std::ostringstream o;
    if (e->op == E_CONST) { o << (u64)e->c << ":" << e->w; return o.str(); }
    if (e->op == E_SYM) return g_syms[e->aux].name;
    if (depth == 0) return "...";
    o << "(" << opn[e->op]; if (e->op == E_EXTRACT) o << "[" << e->aux << "+" << e->w << "]";
    for (int i = 0; i < e->nk; ++i) o << " " << exprStr(e->k[i], depth - 1);
    o << ")"; return o.str();
}
