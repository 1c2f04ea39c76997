// Per-query preprocessing: unsigned intervals under the query's constraints, and rewriting that is valid under
// them (narrowing of wide arithmetic, sign to zero extension, removal of decided comparisons).
// The rewritten formula is equisatisfiable with the original one, because all bounds come from conjuncts that stay in it.
struct IvRw {
    struct I { u128 lo, hi; };
    std::unordered_map<u32, I> bound, memo; std::unordered_map<u32, Ex> rwm; bool contra = false;
    static u128 M(unsigned w) { return maskw(w); }
    void meet(Ex e, u128 lo, u128 hi) {
        if (isConst(e)) return;
        auto it = bound.find(e->id); I v{0, M(e->w)};
        if (it != bound.end()) v = it->second;
        if (lo > v.lo) v.lo = lo;
        if (hi < v.hi) v.hi = hi;
        if (v.lo > v.hi) { contra = true; v.hi = v.lo; }
        bound[e->id] = v; lo = v.lo; hi = v.hi;
        // push to operands
        if (e->op == E_ADD && isConst(e->k[1])) { u128 m = M(e->w), k = e->k[1]->c; u128 a = (lo - k) & m, b = (hi - k) & m; if (a <= b) meet(e->k[0], a, b); }
        else if (e->op == E_SUB && isConst(e->k[0])) { u128 m = M(e->w), k = e->k[0]->c; u128 a = (k - hi) & m, b = (k - lo) & m; if (a <= b) meet(e->k[1], a, b); }
        else if (e->op == E_MUL && e->w <= 64 && isConst(e->k[1]) && e->k[1]->c == M(e->w)) { u128 m = M(e->w), a = (0 - hi) & m, b = (0 - lo) & m; if (a <= b) meet(e->k[0], a, b); }
        else if (e->op == E_ZEXT) meet(e->k[0], lo > M(e->k[0]->w) ? M(e->k[0]->w) : lo, hi > M(e->k[0]->w) ? M(e->k[0]->w) : hi);
        else if (e->op == E_SEXT && hi < ((u128)1 << (e->k[0]->w - 1))) meet(e->k[0], lo, hi);
        else if (e->op == E_SEXT && lo >= (M(e->w) & ~M(e->k[0]->w - 1))) meet(e->k[0], lo & M(e->k[0]->w), hi & M(e->k[0]->w));
        else if (e->op == E_EXTRACT && e->aux == 0 && e->k[0]->w <= 64) { I v0 = iv(e->k[0]); u128 m = M(e->w); if ((v0.lo & ~m) == (v0.hi & ~m)) meet(e->k[0], lo | (v0.lo & ~m), hi | (v0.lo & ~m)); }
    }
    void learn(Ex c) {
        bool neg = false;
        while (c->op == E_XOR && c->w == 1 && isConst(c->k[1])) { if (c->k[1]->c) neg = !neg; c = c->k[0]; }
        if (c->w == 1 && c->op == E_AND && !neg) { learn(c->k[0]); learn(c->k[1]); return; }
        if (c->w == 1 && c->op == E_OR && neg) { learn(mkNot(c->k[0])); learn(mkNot(c->k[1])); return; }
        if (c->op != E_EQ && c->op != E_ULT && c->op != E_ULE && c->op != E_SLT && c->op != E_SLE) return;
        Ex a = c->k[0], b = c->k[1]; unsigned w = a->w; u128 m = M(w), half = (u128)1 << (w - 1);
        if (c->op == E_EQ) { if (!neg) { if (isConst(b)) meet(a, b->c, b->c); else if (isConst(a)) meet(b, a->c, a->c); } else { if (isConst(b) && b->c == 0) meet(a, 1, m); } return; }
        bool strict = c->op == E_ULT || c->op == E_SLT; bool sg = c->op == E_SLT || c->op == E_SLE;
        if (neg) { std::swap(a, b); strict = !strict; }      // !(a<b) == b<=a
        if (isConst(b)) { // a < k
            u128 k = b->c;
            if (!sg) { if (strict) { if (k == 0) { contra = true; return; } --k; } meet(a, 0, k); }
            else { i128 sk = sextw(k, w); if (strict) --sk; I v = iv(a); if (sk >= 0 && v.hi < half) meet(a, 0, (u128)sk); else if (sk < 0 && strict + sk >= -(i128)0x7fffffffffffffffLL * 4) meet(a, half, (u128)sk & m); }
        } else if (isConst(a)) { // k < b
            u128 k = a->c;
            if (!sg) { if (strict) { if (k == m) { contra = true; return; } ++k; } meet(b, k, m); }
            else { i128 sk = sextw(k, w); if (strict) ++sk; if (sk >= 0) { meet(b, (u128)sk, half - 1); } }
        }
    }
    I iv(Ex e) {
        if (isConst(e)) return {e->c, e->c};
        auto it = memo.find(e->id); if (it != memo.end()) return it->second;
        unsigned w = e->w; u128 m = M(w); I r{0, m};
        if (w <= 64) { r.lo = e->umin; r.hi = e->umax; }
        auto A = [&](int i) { return iv(e->k[i]); };
        u128 lo = 0, hi = m; bool wide = w > 120;
        switch (e->op) {
        case E_ZEXT: { I a = A(0); lo = a.lo; hi = a.hi; break; }
        case E_SEXT: { I a = A(0); u128 h = (u128)1 << (e->k[0]->w - 1); if (a.hi < h) { lo = a.lo; hi = a.hi; } else if (a.lo >= h) { u128 x = m & ~M(e->k[0]->w); lo = a.lo | x; hi = a.hi | x; } break; }
        case E_ADD: { I a = A(0), b = A(1); if (wide) { if (a.hi < ((u128)1 << 120) && b.hi < ((u128)1 << 120)) { lo = a.lo + b.lo; hi = a.hi + b.hi; } break; }
            u128 l = a.lo + b.lo, h = a.hi + b.hi; if (h <= m) { lo = l; hi = h; } else if (l > m && h <= 2 * m + 1) { lo = l & m; hi = h & m; } break; }
        case E_SUB: { I a = A(0), b = A(1); if (a.lo >= b.hi) { lo = a.lo - b.hi; hi = a.hi - b.lo; } else if (a.hi < b.lo) { lo = (a.lo - b.hi) & m; hi = (a.hi - b.lo) & m; } break; }
        case E_MUL: { I a = A(0), b = A(1); u128 p; if (!__builtin_mul_overflow(a.hi, b.hi, &p) && p <= m) { hi = p; lo = a.lo * b.lo; } break; }
        case E_UDIV: { I a = A(0), b = A(1); if (b.lo > 0) { lo = a.lo / b.hi; hi = a.hi / b.lo; } break; }
        case E_UREM: { I a = A(0), b = A(1); if (b.lo > 0) { if (a.hi < b.lo) { lo = a.lo; hi = a.hi; } else hi = std::min(a.hi, b.hi - 1); } break; }
        case E_SDIV: { I a = A(0), b = A(1); u128 h = (u128)1 << (w - 1); if (b.lo > 0 && a.hi < h && b.hi < h) { lo = a.lo / b.hi; hi = a.hi / b.lo; } break; }
        case E_SREM: { I a = A(0), b = A(1); u128 h = (u128)1 << (w - 1); if (b.lo > 0 && a.hi < h && b.hi < h) { if (a.hi < b.lo) { lo = a.lo; hi = a.hi; } else hi = std::min(a.hi, b.hi - 1); } break; }
        case E_AND: { I a = A(0), b = A(1); hi = std::min(a.hi, b.hi); break; }
        case E_OR: { I a = A(0), b = A(1); lo = std::max(a.lo, b.lo); u128 x = a.hi | b.hi; hi = 0; while (hi < x) hi = hi * 2 + 1; break; }
        case E_XOR: { I a = A(0), b = A(1); u128 x = a.hi | b.hi; hi = 0; while (hi < x) hi = hi * 2 + 1; break; }
        case E_LSHR: { I a = A(0); if (isConst(e->k[1]) && e->k[1]->c < w) { lo = a.lo >> (unsigned)e->k[1]->c; hi = a.hi >> (unsigned)e->k[1]->c; } else hi = a.hi; break; }
        case E_SHL: { I a = A(0); if (isConst(e->k[1]) && e->k[1]->c < w) { unsigned k = (unsigned)e->k[1]->c; if (a.hi <= (m >> k)) { lo = a.lo << k; hi = a.hi << k; } } break; }
        case E_EXTRACT: { I a = A(0); unsigned o = e->aux; u128 l = a.lo >> o, h = a.hi >> o; if ((l >> (w < 128 ? w : 127)) == (h >> (w < 128 ? w : 127))) { lo = l & m; hi = h & m; } break; }
        case E_CONCAT: { I a = A(0), b = A(1); unsigned bw = e->k[1]->w; lo = (a.lo << bw) | b.lo; hi = (a.hi << bw) | b.hi; if (a.lo != a.hi) { lo = a.lo << bw; hi = (a.hi << bw) | M(bw); } break; }
        case E_ITE: { I a = A(1), b = A(2); I c = A(0); if (c.lo == 1) { lo = a.lo; hi = a.hi; } else if (c.hi == 0) { lo = b.lo; hi = b.hi; } else { lo = std::min(a.lo, b.lo); hi = std::max(a.hi, b.hi); } break; }
        case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: { int d = decideCmp(e); if (d >= 0) lo = hi = (u128)d; break; }
        default: break;
        }
        if (lo > r.lo) r.lo = lo;
        if (hi < r.hi) r.hi = hi;
        auto b = bound.find(e->id);
        if (b != bound.end()) { if (b->second.lo > r.lo) r.lo = b->second.lo; if (b->second.hi < r.hi) r.hi = b->second.hi; }
        if (r.lo > r.hi) { contra = true; r.hi = r.lo; }
        memo[e->id] = r; return r;
    }
    int decideCmp(Ex e) {
        Ex x = e->k[0], y = e->k[1]; if (x->w > 128) return -1; I a = iv(x), b = iv(y); u128 half = (u128)1 << (x->w - 1);
        switch (e->op) {
        case E_EQ: if (a.hi < b.lo || b.hi < a.lo) return 0; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; return -1;
        case E_ULT: if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0;
            if (x->op == E_ADD && (x->k[0] == y || x->k[1] == y)) { I p = iv(x->k[0]), q = iv(x->k[1]); u128 m = M(x->w); if (x->w < 127 && p.hi + q.hi <= m) return 0; }
            return -1;
        case E_ULE: if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; return -1;
        default: {
            bool ap = a.hi < half, an = a.lo >= half, bp = b.hi < half, bn = b.lo >= half;
            if (an && bp) return 1; if (ap && bn) return 0;
            if ((ap && bp) || (an && bn)) { if (e->op == E_SLT) { if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; } else { if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; } }
            return -1; }
        }
    }
    static unsigned bits(u128 v) { unsigned n = 1; while (v >>= 1) ++n; return n; }
    // trunc of e to n bits where e is known to fit
    Ex narrow(Ex e, unsigned n) { return mkExtract(e, 0, n); }
    Ex rw(Ex e) {
        if (e->nk == 0) return e;
        auto it = rwm.find(e->id); if (it != rwm.end()) return it->second;
        Ex r = rw2(e); rwm[e->id] = r; return r;
    }
    Ex rw2(Ex e) {
        if (e->op >= E_FADD) return e;                       // floating point is left alone
        unsigned w = e->w; I v = iv(e);
        if (v.lo == v.hi && bound.find(e->id) == bound.end()) return mkConst(w, v.lo);
        switch (e->op) {
        case E_ADD: case E_MUL: if (w > 64) { I a = iv(e->k[0]), b = iv(e->k[1]); u128 L = (u128)1 << 64; u128 p;
                bool fit = a.hi < L && b.hi < L && (e->op == E_ADD ? a.hi + b.hi < L : (!__builtin_mul_overflow(a.hi, b.hi, &p) && p < L));
                if (fit) return mkZExt(mkBin(e->op, narrow(rw(e->k[0]), 64), narrow(rw(e->k[1]), 64)), w); } break;
        case E_UDIV: case E_UREM: case E_SDIV: case E_SREM: {
            if (w > 64) break;
            I a = iv(e->k[0]), b = iv(e->k[1]); u128 half = (u128)1 << (w - 1); bool sg = e->op == E_SDIV || e->op == E_SREM, dv = e->op == E_UDIV || e->op == E_SDIV; if (b.lo == 0 || (sg && b.hi >= half)) break;
            Ex x = rw(e->k[0]), y = rw(e->k[1]); bool ng = false;
            if (sg && a.hi >= half) { if (a.lo < half) break; ng = true; x = mkBin(E_SUB, mkConst(w, 0), x); I t{(0 - a.hi) & M(w), (0 - a.lo) & M(w)}; a = t; }
            unsigned n = bits(std::max(a.hi, b.hi)); Ex q; Op o = dv ? E_UDIV : E_UREM;
            if (n < w) q = mkZExt(mkBin(o, narrow(x, n), narrow(y, n)), w); else q = mkBin(o, x, y);
            return ng ? mkBin(E_SUB, mkConst(w, 0), q) : q; }
        case E_SEXT: { I a = iv(e->k[0]); if (a.hi < ((u128)1 << (e->k[0]->w - 1))) return zx(e->k[0], w); break; }
        case E_ZEXT: return zx(e->k[0], w);
        case E_SLT: case E_SLE: { I a = iv(e->k[0]), b = iv(e->k[1]); u128 half = (u128)1 << (e->k[0]->w - 1); if (a.hi < half && b.hi < half) return mkBin(e->op == E_SLT ? E_ULT : E_ULE, rw(e->k[0]), rw(e->k[1])); break; }
        case E_ITE: { I c = iv(e->k[0]); if (c.lo == 1) return rw(e->k[1]); if (c.hi == 0) return rw(e->k[2]); break; }
        default: break;
        }
        switch (e->op) {
        case E_ZEXT: return mkZExt(rw(e->k[0]), w);
        case E_SEXT: return mkSExt(rw(e->k[0]), w);
        case E_EXTRACT: return mkExtract(rw(e->k[0]), e->aux, w);
        case E_CONCAT: return mkConcat(rw(e->k[0]), rw(e->k[1]));
        case E_ITE: return mkIte(rw(e->k[0]), rw(e->k[1]), rw(e->k[2]));
        default: return mkBin(e->op, rw(e->k[0]), rw(e->k[1]));
        }
    }
    // zero extension of a to w bits, moving it inside where no wrap-around can happen
    Ex zx(Ex a, unsigned w) {
        unsigned n = a->w; u128 m = M(n);
        if (a->op == E_ADD && n < 120) {
            I x = iv(a->k[0]), y = iv(a->k[1]);
            if (x.hi + y.hi <= m) return mkBin(E_ADD, zx(a->k[0], w), zx(a->k[1], w));
            if (isConst(a->k[1]) && x.lo + y.lo > m) return mkBin(E_ADD, zx(a->k[0], w), mkConst(w, (a->k[1]->c - (m + 1)) & M(w))); // wraps exactly once
        }
        if (a->op == E_EXTRACT && a->aux == 0) { // low bits of something whose high bits are known: subtract them
            Ex b = a->k[0]; I x = iv(b);
            if (b->w <= 64 && (x.lo & ~m) == (x.hi & ~m)) {
                Ex t = (x.lo & ~m) == 0 ? rw(b) : mkBin(E_ADD, rw(b), mkConst(b->w, (0 - (x.lo & ~m)) & M(b->w)));
                if (b->w == w) return t;
                if (b->w < w) { if ((x.lo & ~m) == 0) return zx(b, w); return mkBin(E_ADD, zx(b, w), mkConst(w, (0 - (x.lo & ~m)) & M(w))); }
                return mkExtract(t, 0, w);
            }
        }
        if (a->op == E_ZEXT) return zx(a->k[0], w);
        return mkZExt(rw(a), w);
    }
};
