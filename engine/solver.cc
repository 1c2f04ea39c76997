#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/prctl.h>

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, errh);
    bv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, bv);
    fp = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP")); Z3_solver_inc_ref(ctx, fp);
    rne = ref(Z3_mk_fpa_rne(ctx)); rtz = ref(Z3_mk_fpa_rtz(ctx)); rtn = ref(Z3_mk_fpa_rtn(ctx)); rtp = ref(Z3_mk_fpa_rtp(ctx)); rna = ref(Z3_mk_fpa_rna(ctx));
}

bool Solver::hasFP(Ex e) {
    if (e->nk == 0) return false;
    auto it = fpMemo.find(e->id);
    if (it != fpMemo.end()) return it->second;
    bool r = e->op >= E_FADD && e->op <= E_UITOF;
    for (int i = 0; !r && i < e->nk; ++i) r = hasFP(e->k[i]);
    fpMemo[e->id] = r; return r;
}
Z3_sort Solver::fpSort(unsigned w) {
    return w == 32 ? Z3_mk_fpa_sort(ctx, 8, 24) : w == 64 ? Z3_mk_fpa_sort(ctx, 11, 53) : Z3_mk_fpa_sort(ctx, 15, 64);
}
Z3_ast Solver::bvToFP(Z3_ast b, unsigned w) {
    if (w == 80) b = Z3_mk_concat(ctx, Z3_mk_extract(ctx, 79, 64, b), Z3_mk_extract(ctx, 62, 0, b));
    return Z3_mk_fpa_to_fp_bv(ctx, b, fpSort(w));
}
Z3_ast Solver::fpToBV(Z3_ast f, unsigned w) {
    Z3_ast b = Z3_mk_fpa_to_ieee_bv(ctx, f);
    if (w == 80) {
        Z3_ast ex = Z3_mk_extract(ctx, 77, 63, b);
        Z3_ast z = Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 15));
        Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
        Z3_ast ib = Z3_mk_ite(ctx, Z3_mk_eq(ctx, ex, z), Z3_mk_unsigned_int64(ctx, 0, s1), Z3_mk_unsigned_int64(ctx, 1, s1));
        b = Z3_mk_concat(ctx, Z3_mk_extract(ctx, 78, 63, b), Z3_mk_concat(ctx, ib, Z3_mk_extract(ctx, 62, 0, b)));
    }
    return b;
}
// 1-bit expressions are translated as Bool
Z3_ast Solver::b2v(Z3_ast b) {
    Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
}
Z3_ast Solver::v2b(Z3_ast v) { return Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }

static bool isFPArith(Op o) { return (o >= E_FADD && o <= E_FMA) || o == E_FEXT || o == E_FTRUNC || o == E_SITOF || o == E_UITOF; }

Z3_ast Solver::trFP(Ex e) {
    if (e->z3fp) return (Z3_ast)e->z3fp;
    Z3_ast r;
    auto S = [&](unsigned w) { return fpSort(w); };
    auto bvk = [&](Ex x) { Z3_ast a = tr(x); return x->w == 1 ? b2v(a) : a; };
    switch (e->op) {
    case E_FADD: r = Z3_mk_fpa_add(ctx, rne, trFP(e->k[0]), trFP(e->k[1])); break;
    case E_FSUB: r = Z3_mk_fpa_sub(ctx, rne, trFP(e->k[0]), trFP(e->k[1])); break;
    case E_FMUL: r = Z3_mk_fpa_mul(ctx, rne, trFP(e->k[0]), trFP(e->k[1])); break;
    case E_FDIV: r = Z3_mk_fpa_div(ctx, rne, trFP(e->k[0]), trFP(e->k[1])); break;
    case E_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, trFP(e->k[0])); break;
    case E_FMA: r = Z3_mk_fpa_fma(ctx, rne, trFP(e->k[0]), trFP(e->k[1]), trFP(e->k[2])); break;
    case E_FRND: { Z3_ast m[] = {rtn, rtp, rtz, rna, rne}; r = Z3_mk_fpa_round_to_integral(ctx, m[e->aux], trFP(e->k[0])); break; }
    case E_FEXT: case E_FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, trFP(e->k[0]), S(e->w)); break;
    case E_SITOF: r = Z3_mk_fpa_to_fp_signed(ctx, rne, bvk(e->k[0]), S(e->w)); break;
    case E_UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bvk(e->k[0]), S(e->w)); break;
    case E_ITE: r = Z3_mk_ite(ctx, tr(e->k[0]), trFP(e->k[1]), trFP(e->k[2])); break;
    default: r = bvToFP(tr(e), e->w); break;
    }
    e->z3fp = ref(r); return r;
}

static std::unordered_map<u32, bool> arithMemo;
static bool hasArith(Ex e) {
    if (e->nk == 0) return false;
    if (e->op >= E_UDIV && e->op <= E_SREM) return true;
    auto it = arithMemo.find(e->id); if (it != arithMemo.end()) return it->second;
    bool r = false; for (unsigned i = 0; i < e->nk && !r; ++i) r = hasArith(e->k[i]);
    return arithMemo[e->id] = r;
}
#include "ival.inc"
void Solver::bounds(const std::vector<Ex>& pc, Ex e, u128& lo, u128& hi) {
    IvRw r; for (Ex c : pc) r.learn(c);
    r.memo.clear(); auto v = r.iv(e); lo = v.lo; hi = v.hi; if (r.contra) { lo = 0; hi = maskw(e->w); }
}
void Solver::setTimeout(Z3_solver S, unsigned ms) {
    Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
    Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, S, ps); Z3_params_dec_ref(ctx, ps);
}

Z3_ast Solver::tr(Ex root) {
    if (root->z3ast) return (Z3_ast)root->z3ast;
    std::vector<Ex> stk{root};
    while (!stk.empty()) {
        Ex e = stk.back();
        if (e->z3ast) { stk.pop_back(); continue; }
        bool ready = true;
        if (!(e->op >= E_FADD && e->op <= E_UITOF))
            for (int i = 0; i < e->nk; ++i) if (!e->k[i]->z3ast) { stk.push_back(e->k[i]); ready = false; }
        if (!ready) continue;
        stk.pop_back();
        auto K = [&](int i) { return (Z3_ast)e->k[i]->z3ast; };
        auto KV = [&](int i) { Z3_ast a = (Z3_ast)e->k[i]->z3ast; return e->k[i]->w == 1 ? b2v(a) : a; };
        Z3_ast r = nullptr; unsigned w = e->w; bool isB = false; // isB: r is Bool
        bool k1 = e->nk && e->k[0]->w == 1;
        switch (e->op) {
        case E_CONST:
            if (w == 1) { r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); isB = true; }
            else if (w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->c, Z3_mk_bv_sort(ctx, w));
            else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->c >> 64), Z3_mk_bv_sort(ctx, w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->c, Z3_mk_bv_sort(ctx, 64)));
            break;
        case E_SYM: {
            std::string n = "s" + std::to_string(e->aux);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w)); isB = w == 1;
            if (symEx.size() <= e->aux) symEx.resize(e->aux + 1, nullptr);
            symEx[e->aux] = e;
            break;
        }
        case E_ADD: r = Z3_mk_bvadd(ctx, KV(0), KV(1)); break;
        case E_SUB: r = Z3_mk_bvsub(ctx, KV(0), KV(1)); break;
        case E_MUL: r = Z3_mk_bvmul(ctx, KV(0), KV(1)); break;
        case E_UDIV: r = Z3_mk_bvudiv(ctx, KV(0), KV(1)); break;
        case E_SDIV: r = Z3_mk_bvsdiv(ctx, KV(0), KV(1)); break;
        case E_UREM: r = Z3_mk_bvurem(ctx, KV(0), KV(1)); break;
        case E_SREM: r = Z3_mk_bvsrem(ctx, KV(0), KV(1)); break;
        case E_AND: if (k1) { Z3_ast a[] = {K(0), K(1)}; r = Z3_mk_and(ctx, 2, a); isB = true; } else r = Z3_mk_bvand(ctx, K(0), K(1)); break;
        case E_OR: if (k1) { Z3_ast a[] = {K(0), K(1)}; r = Z3_mk_or(ctx, 2, a); isB = true; } else r = Z3_mk_bvor(ctx, K(0), K(1)); break;
        case E_XOR: if (k1) { if (isConst(e->k[1])) r = Z3_mk_not(ctx, K(0)); else r = Z3_mk_xor(ctx, K(0), K(1)); isB = true; } else r = Z3_mk_bvxor(ctx, K(0), K(1)); break;
        case E_SHL: r = Z3_mk_bvshl(ctx, KV(0), KV(1)); break;
        case E_LSHR: r = Z3_mk_bvlshr(ctx, KV(0), KV(1)); break;
        case E_ASHR: r = Z3_mk_bvashr(ctx, KV(0), KV(1)); break;
        case E_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->k[0]->w, KV(0)); break;
        case E_SEXT: r = Z3_mk_sign_ext(ctx, w - e->k[0]->w, KV(0)); break;
        case E_EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, KV(0)); break;
        case E_CONCAT: r = Z3_mk_concat(ctx, KV(0), KV(1)); break;
        case E_ITE: r = Z3_mk_ite(ctx, K(0), K(1), K(2)); isB = w == 1; break;
        case E_EQ:
            // comparing a floating-point result's bits: keep as bit-vector equality
            r = Z3_mk_eq(ctx, K(0), K(1)); isB = true; break;
        case E_ULT: r = Z3_mk_bvult(ctx, KV(0), KV(1)); isB = true; break;
        case E_ULE: r = Z3_mk_bvule(ctx, KV(0), KV(1)); isB = true; break;
        case E_SLT: r = Z3_mk_bvslt(ctx, KV(0), KV(1)); isB = true; break;
        case E_SLE: r = Z3_mk_bvsle(ctx, KV(0), KV(1)); isB = true; break;
        case E_FOEQ: r = Z3_mk_fpa_eq(ctx, trFP(e->k[0]), trFP(e->k[1])); isB = true; break;
        case E_FOLT: r = Z3_mk_fpa_lt(ctx, trFP(e->k[0]), trFP(e->k[1])); isB = true; break;
        case E_FOLE: r = Z3_mk_fpa_leq(ctx, trFP(e->k[0]), trFP(e->k[1])); isB = true; break;
        case E_FUNO: { Z3_ast a[] = {Z3_mk_fpa_is_nan(ctx, trFP(e->k[0])), Z3_mk_fpa_is_nan(ctx, trFP(e->k[1]))}; r = Z3_mk_or(ctx, 2, a); isB = true; break; }
        case E_FTOSI: case E_FTOUI: {
            Z3_ast f = trFP(e->k[0]); Z3_sort fs = fpSort(e->k[0]->w);
            bool sg = e->op == E_FTOSI;
            Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, rtz, f);
            std::string lim = "1"; // 2^k via int conversion
            Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 128));
            Z3_ast l = Z3_mk_bvshl(ctx, one, Z3_mk_unsigned_int64(ctx, sg ? w - 1 : w, Z3_mk_bv_sort(ctx, 128)));
            Z3_ast lf = Z3_simplify(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, Z3_simplify(ctx, l), fs));
            Z3_ast lo = sg ? Z3_mk_fpa_leq(ctx, Z3_mk_fpa_neg(ctx, lf), t) : Z3_mk_fpa_leq(ctx, Z3_mk_fpa_zero(ctx, fs, false), t);
            Z3_ast a[] = {lo, Z3_mk_fpa_lt(ctx, t, lf)};
            Z3_ast inr = Z3_mk_and(ctx, 2, a);
            Z3_ast cv = sg ? Z3_mk_fpa_to_sbv(ctx, rtz, f, w) : Z3_mk_fpa_to_ubv(ctx, rtz, f, w);
            Z3_ast oor = Z3_mk_unsigned_int64(ctx, sg ? 1ULL << (w - 1) : (u64)maskw(w), Z3_mk_bv_sort(ctx, w));
            if (sg) oor = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, w)), oor);
            r = Z3_mk_ite(ctx, inr, cv, oor); break;
        }
        default:
            if (isFPArith(e->op)) r = fpToBV(trFP(e), w);
            else { fprintf(stderr, "tr: op %d\n", e->op); abort(); }
        }
        if (w == 1 && !isB) r = v2b(r);
        e->z3ast = ref(r);
    }
    return (Z3_ast)root->z3ast;
}

u128 Solver::modelVal(Z3_model m, Ex s) {
    Z3_ast v = nullptr;
    if (!Z3_model_eval(ctx, m, (Z3_ast)s->z3ast, true, &v)) return 0;
    if (s->w == 1) return Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
    if (s->w <= 64) { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, v, &x)) return x; return 0; }
    const char* str = Z3_get_numeral_string(ctx, v); u128 r = 0;
    for (; *str; ++str) r = r * 10 + (*str - '0');
    return r;
}

// Second solver: cvc5 with the bit-vector to integer translation. Decides the linear-arithmetic queries (digit
// accumulation, index arithmetic) on which bit-blasting does not terminate.
int Solver::cvc5(Z3_solver S, const std::vector<u32>& syms, unsigned ms, std::vector<std::pair<u32, u128>>& vals) {
    std::string q = "(set-option :produce-models true)\n(set-logic QF_BV)\n"; q += Z3_solver_to_string(ctx, S); q += "(check-sat)\n";
    std::string gv; for (u32 s : syms) if (s < symEx.size() && symEx[s]) gv += " s" + std::to_string(s);
    if (!gv.empty()) q += "(get-value (" + gv + "))\n";
    int in[2], out[2]; if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC)) return 0;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(in[0], 0); dup2(out[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string tl = "--tlimit=" + std::to_string(ms);
        execlp("cvc5", "cvc5", "--lang=smt2", "--solve-bv-as-int=sum", tl.c_str(), "-", (char*)nullptr); _exit(127);
    }
    close(in[0]); close(out[1]);
    signal(SIGPIPE, SIG_IGN);
    size_t off = 0; while (off < q.size()) { ssize_t k = write(in[1], q.data() + off, q.size() - off); if (k <= 0) break; off += (size_t)k; }
    close(in[1]);
    std::string r; char buf[65536]; ssize_t k;
    while ((k = read(out[0], buf, sizeof buf)) > 0) r.append(buf, (size_t)k);
    close(out[0]); int stt; waitpid(pid, &stt, 0);
    if (r.compare(0, 5, "unsat") == 0) return -1;
    if (r.compare(0, 3, "sat") != 0) return 0;
    size_t p = 3;
    while ((p = r.find("(s", p)) != std::string::npos) {
        u32 id = (u32)strtoul(r.c_str() + p + 2, nullptr, 10); size_t sp = r.find(' ', p); if (sp == std::string::npos) break; ++sp; u128 v = 0;
        if (r.compare(sp, 4, "true") == 0) v = 1;
        else if (r.compare(sp, 2, "#b") == 0) { for (sp += 2; r[sp] == '0' || r[sp] == '1'; ++sp) v = v * 2 + (u128)(r[sp] - '0'); }
        else if (r.compare(sp, 2, "#x") == 0) { for (sp += 2; isxdigit((unsigned char)r[sp]); ++sp) v = v * 16 + (u128)(r[sp] <= '9' ? r[sp] - '0' : (r[sp] | 32) - 'a' + 10); }
        vals.push_back({id, v}); p = sp;
    }
    return 1;
}

// Order between terms: does a chain of comparisons in the path condition contradict the extra comparison?
struct ONode { Ex e; bool uns; bool operator==(const ONode& o) const { return e == o.e && uns == o.uns; } };   // a term read as unsigned or signed integer
static ONode oNode(Ex e, bool uns) {
    if (!uns && e->umax < (u128)1 << (e->w - 1)) uns = true;
    if (uns) while (e->op == E_ZEXT) e = e->k[0];
    return { e, uns };
}
static bool orderEdge(Ex e, ONode& a, ONode& b, bool& strict) {
    if (e->op != E_SLT && e->op != E_SLE && e->op != E_ULT && e->op != E_ULE) return false;
    strict = e->op == E_SLT || e->op == E_ULT; bool uns = e->op == E_ULT || e->op == E_ULE;
    a = oNode(e->k[0], uns); b = oNode(e->k[1], uns); return true;
}
static bool orderUnsat(const std::vector<Ex>& sel, Ex extra, IvRw& rw) {
    ONode a, b; bool st; if (!orderEdge(extra, a, b, st)) return false;
    // contradiction if b <= ... <= a (for a < b), or the same with a strict step (for a <= b)
    struct N { ONode n; bool strict; }; std::vector<N> q{{b, false}};
    for (size_t i = 0; i < q.size() && q.size() < 200; ++i) {
        N n = q[i]; if (n.n == a && (st || n.strict)) return true;
        auto put = [&](ONode t, bool s2) { for (auto& m : q) if (m.n == t && (m.strict || !s2)) return; q.push_back({t, s2}); };
        for (Ex c : sel) {
            ONode x, y; bool s2; if (!orderEdge(c, x, y, s2)) continue;
            if (x == n.n) put(y, n.strict || s2);
            if (n.n.e->op != E_ADD || !x.uns || !y.uns) continue;
            for (int k = 0; k < 2; ++k) {   // u + x <= u + y if x <= y and nothing overflows
                Ex p = n.n.e->k[k], u = n.n.e->k[1 - k]; if (!(oNode(p, true) == x) || y.e->w > n.n.e->w) continue;
                Ex ye = mkZExt(y.e, n.n.e->w); if (rw.iv(u).hi + rw.iv(ye).hi < (u128)1 << (n.n.e->w - 1)) put(oNode(mkBin(E_ADD, u, ye), n.n.uns), n.strict || s2);
            }
        }
    }
    return false;
}
SRes Solver::check(const std::vector<Ex>& pc, Ex extra, const Model& base, Model& out) {
    ++st.queries;
    if (isConst(extra)) { if (!extra->c) return S_UNSAT; out = base; return S_SAT; }
    // slice
    if (mark.size() < g_syms.size()) mark.resize(g_syms.size() + 64, 0);
    ++markEp;
    for (u32 s : extra->syms->ids) mark[s] = markEp;
    static std::vector<Ex> sel; sel.clear();
    static std::vector<char> taken; taken.assign(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = pc.size(); i-- > 0;) if (!taken[i]) {
            bool hit = false;
            for (u32 s : pc[i]->syms->ids) if (mark[s] == markEp) { hit = true; break; }
            if (hit) {
                taken[i] = 1; sel.push_back(pc[i]);
                for (u32 s : pc[i]->syms->ids) if (mark[s] != markEp) { mark[s] = markEp; ch = true; }
            }
        }
    }
    std::vector<u32> key; key.reserve(sel.size() + 1);
    for (Ex e : sel) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(extra->id);
    u64 h = 1469598103934665603ULL; for (u32 x : key) { h ^= x; h *= 1099511628211ULL; }
    auto& bucket = cache[h];
    for (auto& p : bucket) if (p.first == key) {
        ++st.cacheHits;
        if (p.second.r == S_SAT) { out = base; for (auto& kv : p.second.vals) { if (out.size() <= kv.first) out.resize(kv.first + 1, 0); out[kv.first] = kv.second; } }
        return p.second.r;
    }
    CacheEnt ent;
    // try recent models
    for (size_t i = recent.size(); i-- > 0 && i + 12 > recent.size();) {
        Model m = base;
        for (auto& kv : recent[i]) { if (m.size() <= kv.first) m.resize(kv.first + 1, 0); if (kv.first < mark.size() && mark[kv.first] == markEp) m[kv.first] = kv.second; }
        newEvalEpoch();
        if (!evalExpr(extra, m)) continue;
        bool ok = true;
        for (Ex e : sel) if (!evalExpr(e, m)) { ok = false; break; }
        if (ok) {
            ++st.modelHits; ++st.sat;
            ent.r = S_SAT;
            for (u32 s = 0; s < g_syms.size(); ++s) if (mark[s] == markEp) ent.vals.push_back({s, s < m.size() ? m[s] : 0});
            out = m;
            bucket.push_back({key, ent});
            return S_SAT;
        }
    }
    ++st.solverCalls;
    bool isfp = hasFP(extra);
    for (Ex e : sel) if (!isfp) isfp = hasFP(e);
    if (isfp) ++st.fpCalls;
    Z3_solver S = isfp ? fp : bv;
    Z3_solver_reset(ctx, S);
    setTimeout(S, timeoutMs);
    if (!isfp) {
        // bounds come from the path constraints only, which stay in the query unchanged; the extra condition is
        // replaced by its rewriting, which is equivalent under them
        IvRw rw; for (Ex e : sel) rw.learn(e);
        rw.memo.clear();
        bool unsat = rw.contra || rw.iv(extra).hi == 0;
        if (!unsat) { IvRw r2; for (Ex e : sel) r2.learn(e); r2.learn(extra); r2.memo.clear(); if (!r2.contra) r2.iv(extra); unsat = r2.contra; }
        if (unsat) { --st.solverCalls; ++st.ivalUnsat; ++st.unsat; ent.r = S_UNSAT; bucket.push_back({key, ent}); return S_UNSAT; }
        if (orderUnsat(sel, extra, rw)) { --st.solverCalls; ++st.ivalUnsat; ++st.unsat; ent.r = S_UNSAT; bucket.push_back({key, ent}); return S_UNSAT; }
        // constraints with divisions are narrowed too, under the bounds given by the other ones
        IvRw rb; std::vector<Ex> hard; for (Ex e : sel) if (hasArith(e)) hard.push_back(e); else { rb.learn(e); Z3_solver_assert(ctx, S, tr(e)); }
        rb.memo.clear(); for (Ex e : hard) Z3_solver_assert(ctx, S, tr(rb.rw(e)));
        Z3_solver_assert(ctx, S, tr(rw.rw(extra)));
    } else {
        for (Ex e : sel) Z3_solver_assert(ctx, S, tr(e));
        Z3_solver_assert(ctx, S, tr(extra));
    }
    if (dumpMax && dumped < dumpMax && !dumpDir.empty()) {
        std::ofstream f(dumpDir + "/q" + std::to_string(dumped) + ".smt2");
        f << Z3_solver_to_string(ctx, S) << "(check-sat)\n";
    }
    auto t0 = std::chrono::steady_clock::now();
    std::vector<std::pair<u32, u128>> cvals; bool byCvc = false; Z3_lbool r = Z3_L_UNDEF;
    if (isfp) r = Z3_solver_check(ctx, S);
    else {
        unsigned first = cvcStreak >= 2 ? 100 : 400;
        setTimeout(S, first); r = Z3_solver_check(ctx, S);
        if (r == Z3_L_UNDEF) {
            std::vector<u32> sy; for (u32 s = 0; s < g_syms.size() && s < mark.size(); ++s) if (mark[s] == markEp) sy.push_back(s);
            int c = cvc5(S, sy, std::min(timeoutMs, 15000u), cvals); ++st.cvcCalls;
            if (c) { r = c > 0 ? Z3_L_TRUE : Z3_L_FALSE; byCvc = true; ++st.cvcSolved; ++cvcStreak; }
            else { cvcStreak = 0; setTimeout(S, timeoutMs); r = Z3_solver_check(ctx, S); }
        } else cvcStreak = 0;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.solverSec += dt; if (dt > st.maxSec) st.maxSec = dt;
    if (dumpMax && dumped < dumpMax && !dumpDir.empty()) {
        std::ofstream f(dumpDir + "/q" + std::to_string(dumped) + ".res"); f << (r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown") << "\n"; ++dumped;
    }
    if (getenv("SYMX_SLOWQ") && dt > atof(getenv("SYMX_SLOWQ"))) { fprintf(stderr, "[slow %.2fs n=%zu r=%d] %s\n", dt, sel.size(), r, exprStr(extra, getenv("SYMX_SLOWD") ? atoi(getenv("SYMX_SLOWD")) : 8).substr(0, 6000).c_str()); if (getenv("SYMX_SLOWP")) for (Ex e : sel) fprintf(stderr, "    %s\n", exprStr(e, 8).substr(0, 400).c_str()); }
    if (r == Z3_L_TRUE) {
        ++st.sat; ent.r = S_SAT;
        Z3_model m = byCvc ? nullptr : Z3_solver_get_model(ctx, S); if (m) Z3_model_inc_ref(ctx, m);
        out = base;
        for (u32 s = 0; s < g_syms.size() && s < mark.size(); ++s) if (mark[s] == markEp) {
            u128 v = 0;
            if (byCvc) { for (auto& kv : cvals) if (kv.first == s) v = kv.second; }
            else if (s < symEx.size() && symEx[s]) v = modelVal(m, symEx[s]);
            ent.vals.push_back({s, v});
            if (out.size() <= s) out.resize(s + 1, 0);
            out[s] = v;
        }
        if (m) Z3_model_dec_ref(ctx, m);
        // validate model by our own evaluator (guards against translation errors)
        newEvalEpoch();
        bool ok = evalExpr(extra, out);
        for (Ex e : sel) if (ok && !evalExpr(e, out)) ok = false;
        if (!ok) {
            if (!isfp) { fprintf(stderr, "INTERNAL: z3 model does not satisfy expression\n%s\n", exprStr(extra).c_str()); abort(); }
            --st.sat; ++st.unknown; ent.r = S_UNKNOWN; // NaN payload differences etc.
            return S_UNKNOWN;
        }
        recent.push_back(ent.vals); if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32);
    } else if (r == Z3_L_FALSE) { ++st.unsat; ent.r = S_UNSAT; }
    else { ++st.unknown; return S_UNKNOWN; }
    SRes rr = ent.r;
    bucket.push_back({key, std::move(ent)});
    return rr;
}
