#include "elem.h"
#include "common.h"
#include <gul14/expected.h>
using gul14::expected; using gul14::unexpected; using gul14::unexpect; using gul14::in_place; using gul14::bad_expected_access; using gul14::make_unexpected;
struct M { bool has; int v; };
template <typename T> struct Moved { static int of(int) { return -1; } }; template <> struct Moved<int> { static int of(int v) { return v; } }; template <> struct Moved<long> { static int of(int v) { return v; } };
inline int val(long x) { return (int)x; }
template <typename T> struct Tracked { enum { n = std::is_class<T>::value ? 1 : 0 }; };
// reading access
template <typename T, typename E> static void agree(const expected<T, E>& x, const M& m) {
    CHECKM(x.has_value() == m.has, "has_value()"); CHECKM(static_cast<bool>(x) == m.has, "operator bool");
    if (m.has) { CHECKM(val(*x) == m.v, "value"); CHECKM(val(*x.operator->()) == m.v, "operator->"); CHECKM((const void*)&*x >= &x && (const void*)&*x < &x + 1, "stored inside"); }
    else { CHECKM(val(x.error()) == m.v, "error"); CHECKM((const void*)&x.error() >= &x && (const void*)&x.error() < &x + 1, "stored inside"); }
}
template <typename T, typename E, bool COPY> struct Cp {
    typedef expected<T, E> X;
    static void assign(X& a, const X& b) { a = b; } static void assignv(X& a, const T& v) { a = v; } static void construct(const X& b, const M& m) { X c(b); agree(c, m); }
    static void err(X& a, const unexpected<E>& e) { a = e; } static void errctor(const unexpected<E>& e, int x) { X c(e); M m{false, x}; agree(c, m); }
    static void throwing(const X& a, const M& m) { bool th = false; try { CHECKM(val(a.value()) == m.v, "value()"); } catch (const bad_expected_access<E>& e) { th = true; CHECKM(val(e.error()) == m.v, "exception carries the error"); } CHECKM(th == !m.has, "value() throws exactly without a value"); agree(a, m); }
    static int valueor(const X& a, const T& d) { return val(a.value_or(d)); }
};
template <typename T, typename E> struct Cp<T, E, false> { typedef expected<T, E> X; static void assign(X&, const X&) { sx_end(); } static void assignv(X&, const T&) { sx_end(); } static void construct(const X&, const M&) { sx_end(); } static void err(X&, const unexpected<E>&) { sx_end(); } static void errctor(const unexpected<E>&, int) { sx_end(); } static void throwing(const X&, const M&) { sx_end(); } static int valueor(const X&, const T&) { sx_end(); } };
static int g_calls, g_arg; // monadic functions record their call
// params: length, 1: an element operation throws in the last step
template <typename T, typename E, bool COPY, bool THR> static void hist() {
    typedef expected<T, E> X; typedef Cp<T, E, COPY> C; typedef Moved<T> MT; typedef Moved<E> ME; uint64_t heap = sx_live_heap();
    int len = (int)sx_param(0); bool thr = THR && sx_param(1) != 0;
    {
        int i0 = sx_make<int>("i0"), i1 = sx_make<int>("i1"); int st = (int)sx_pick("start", 4); X o[2] = {st & 1 ? X(in_place, i0) : X(unexpect, i0), st & 2 ? X(in_place, i1) : X(unexpect, i1)}; M m[2] = {{(st & 1) != 0, i0}, {(st & 2) != 0, i1}}; agree(o[0], m[0]); agree(o[1], m[1]);
        for (int i = 0; i < len; ++i) {
            int op = (int)sx_pick("op", 23), a = (int)sx_pick("which", 2), b = 1 - a, x = sx_make<int>("x"); X& A = o[a]; X& B = o[b]; M pa = m[a], pb = m[b]; bool boom = false; T v0(x); unexpected<E> e0(x);
            long fuse = thr && i == len - 1 ? (long)sx_pick("fuse", 4) : -1;
            // operations that the implementation declares noexcept although they construct elements: see known finding
            if (fuse >= 0 && (op == 6 || op == 7 || op == 10 || op == 13 || op >= 15)) sx_end();
            Life::fuse = fuse; g_calls = 0;
            try {
                switch (op) {
                case 0: A = std::move(v0); m[a] = M{true, x}; Life::fuse = -1; CHECKM(val(v0) == MT::of(x), "argument moved"); break;
                case 1: C::assignv(A, v0); m[a] = M{true, x}; Life::fuse = -1; CHECKM(val(v0) == x, "argument kept"); break;
                case 2: A = std::move(e0); m[a] = M{false, x}; break;
                case 3: C::err(A, e0); m[a] = M{false, x}; Life::fuse = -1; CHECKM(val(e0.value()) == x, "argument kept"); break;
                case 4: A.emplace(x); m[a] = M{true, x}; break;
                case 5: A.emplace(std::move(v0)); m[a] = M{true, x}; break;
                case 6: C::assign(A, B); m[a] = pb; break;
                case 7: A = std::move(B); m[a] = pb; m[b].v = pb.has ? MT::of(pb.v) : ME::of(pb.v); break;
                case 8: A.swap(B); m[a] = pb; m[b] = pa; break;
                case 9: { using std::swap; swap(A, B); m[a] = pb; m[b] = pa; break; }
                case 10: C::construct(A, pa); break;
                case 11: { X c(in_place, x), d(unexpect, x); Life::fuse = -1; agree(c, M{true, x}); agree(d, M{false, x}); break; }
                case 12: { X c(std::move(v0)); Life::fuse = -1; agree(c, M{true, x}); X d(std::move(e0)); agree(d, M{false, x}); X e; agree(e, M{true, 0}); break; }
                case 13: { X c(std::move(A)); agree(c, pa); m[a].v = pa.has ? MT::of(pa.v) : ME::of(pa.v); C::errctor(e0, x); break; }
                case 14: { int r = C::valueor(A, v0); Life::fuse = -1; CHECKM(r == (pa.has ? pa.v : x), "value_or"); break; }
                case 15: { T r(std::move(A).value_or(std::move(v0))); CHECKM(val(r) == (pa.has ? pa.v : x), "value_or &&"); if (pa.has) m[a].v = MT::of(pa.v); break; }
                case 16: if (pa.has) { *A = T(x); } else { A.error() = E(x); } m[a].v = x; break;
                // monadic operations, here on an rvalue: everything is handed over
                case 17: { bool fail = sx_pick("fail", 2); auto r = std::move(A).and_then([&](T&& t) { ++g_calls; g_arg = val(t); T u(std::move(t)); return fail ? expected<int, E>(unexpect, x) : expected<int, E>(x ^ 5); }); CHECKM(g_calls == (pa.has ? 1 : 0), "and_then calls its function exactly for a value"); if (pa.has) CHECKM(g_arg == pa.v, "argument"); agree(r, pa.has ? (fail ? M{false, x} : M{true, x ^ 5}) : M{false, pa.v}); m[a].v = pa.has ? MT::of(pa.v) : ME::of(pa.v); break; }
                case 18: { auto r = std::move(A).map([&](T&& t) { ++g_calls; g_arg = val(t); return (long)(x ^ 3); }); static_assert(std::is_same<decltype(r), expected<long, E>>::value, ""); CHECKM(g_calls == (pa.has ? 1 : 0), "map calls its function exactly for a value"); if (pa.has) CHECKM(g_arg == pa.v, "argument"); agree(r, pa.has ? M{true, x ^ 3} : M{false, pa.v}); if (!pa.has) m[a].v = ME::of(pa.v); break; }
                case 19: { auto r = std::move(A).map_error([&](E&& t) { ++g_calls; g_arg = val(t); return (long)(x ^ 3); }); static_assert(std::is_same<decltype(r), expected<T, long>>::value, ""); CHECKM(g_calls == (pa.has ? 0 : 1), "map_error calls its function exactly for an error"); if (!pa.has) CHECKM(g_arg == pa.v, "argument"); agree(r, pa.has ? M{true, pa.v} : M{false, x ^ 3}); if (pa.has) m[a].v = MT::of(pa.v); break; }
                case 20: { bool heal = sx_pick("heal", 2); X r = std::move(A).or_else([&](E&& t) { ++g_calls; g_arg = val(t); return heal ? X(in_place, x) : X(unexpect, x ^ 1); }); CHECKM(g_calls == (pa.has ? 0 : 1), "or_else calls its function exactly for an error"); if (!pa.has) CHECKM(g_arg == pa.v, "argument"); agree(r, pa.has ? pa : heal ? M{true, x} : M{false, x ^ 1}); if (pa.has) m[a].v = MT::of(pa.v); break; }
                case 21: C::throwing(A, pa); break;
                case 22: { bool th = false; try { T t(std::move(A).value()); CHECKM(val(t) == pa.v, "rvalue value()"); } catch (const bad_expected_access<E>& e) { th = true; CHECKM(val(e.error()) == pa.v, "exception carries the error"); } CHECKM(th == !pa.has, "value() throws exactly without a value"); m[a].v = pa.has ? MT::of(pa.v) : ME::of(pa.v); break; }
                }
            } catch (const Boom&) { boom = true; }
            Life::fuse = -1;
            if (boom) { sx_reach("threw"); for (int k = 0; k < 2; ++k) { m[k] = k == a ? pa : pb; CHECKM(o[k].has_value() == m[k].has, "still the same alternative after an exception"); int now = m[k].has ? val(*o[k]) : val(o[k].error()); if (op <= 1 || op == 4 || op == 5) CHECKM(now == m[k].v, "unchanged after an exception"); m[k].v = now; } }
            agree(o[0], m[0]); agree(o[1], m[1]);
            for (int k = 0; k < 2; ++k) { sx_observe(m[k].has); sx_observe((uint64_t)m[k].v); }
        }
        CHECKM(Life::live == (m[0].has ? Tracked<T>::n : Tracked<E>::n) + (m[1].has ? Tracked<T>::n : Tracked<E>::n), "exactly one live object each");
        sx_reach("hist");
    }
    CHECKM(Life::live == 0, "objects destroyed exactly once"); CHECKM(sx_live_heap() == heap, "no heap block leaked");
}
extern "C" void c23_tt() { hist<int, long, true, false>(); }
extern "C" void c23_tf() { hist<int, Tr<9>, true, false>(); }
extern "C" void c23_ft() { hist<Tr<1>, long, true, false>(); }
extern "C" void c23_ff() { hist<Tr<1>, Tr<9>, true, false>(); }
extern "C" void c23_mo() { hist<Mo<1>, Mo<9>, false, false>(); }
extern "C" void c23_thrT() { hist<Tr<7>, Tr<9>, true, true>(); }   // value construction and move may throw
extern "C" void c23_thrC() { hist<Tr<5>, Tr<9>, true, true>(); }   // value copy may throw, move not
extern "C" void c23_thrM() { hist<Mo<6>, Mo<8>, false, true>(); }
// value type void; E trivial or tracked
template <typename E> static void histv() {
    typedef expected<void, E> X; typedef Moved<E> ME; int len = (int)sx_param(0);
    {
        int i0 = sx_make<int>("i0"); X o[2] = {X(), X(unexpect, i0)}; M m[2] = {{true, 0}, {false, i0}};
        for (int i = 0; i < len; ++i) {
            int op = (int)sx_pick("op", 14), a = (int)sx_pick("which", 2), b = 1 - a, x = sx_make<int>("x"); X& A = o[a]; X& B = o[b]; M pa = m[a], pb = m[b]; g_calls = 0; unexpected<E> e0(x);
            switch (op) {
            case 0: A = B; m[a] = pb; break;
            case 1: A = std::move(B); m[a] = pb; if (!pb.has) m[b].v = ME::of(pb.v); break;
            case 2: A = e0; m[a] = M{false, x}; break;
            case 3: A = std::move(e0); m[a] = M{false, x}; break;
            case 4: { X c(A); CHECKM(c.has_value() == pa.has && (pa.has || val(c.error()) == pa.v), "copy"); break; }
            case 5: { X c(std::move(A)); CHECKM(c.has_value() == pa.has && (pa.has || val(c.error()) == pa.v), "move"); if (!pa.has) m[a].v = ME::of(pa.v); break; }
            case 6: { X c(unexpect, x), d(e0), e; CHECKM(!c && val(c.error()) == x && !d && val(d.error()) == x && e, "construction"); break; }
            case 7: A = X(); m[a] = M{true, 0}; break;
            case 8: if (!pa.has) { A.error() = E(x); m[a].v = x; } break;
            case 9: { auto r = A.and_then([&] { ++g_calls; return expected<int, E>(x); }); CHECKM(g_calls == pa.has, "and_then"); agree(r, pa.has ? M{true, x} : M{false, pa.v}); break; }
            case 10: { auto r = A.map([&] { ++g_calls; return x; }); CHECKM(g_calls == pa.has, "map"); agree(r, pa.has ? M{true, x} : M{false, pa.v}); break; }
            case 11: { auto r = A.map_error([&](E& e) { ++g_calls; g_arg = val(e); return (long)(x ^ 1); }); CHECKM(g_calls == !pa.has, "map_error"); CHECKM(r.has_value() == pa.has, "map_error"); if (!pa.has) CHECKM(g_arg == pa.v && val(r.error()) == (x ^ 1), "map_error"); break; }
            case 12: { X r = A.or_else([&](E& e) { ++g_calls; g_arg = val(e); return X(); }); CHECKM(g_calls == !pa.has && r.has_value(), "or_else"); break; }
            case 13: { auto r = A.map([&] { ++g_calls; }); CHECKM(g_calls == pa.has && r.has_value() == pa.has && (pa.has || val(r.error()) == pa.v), "map to void"); break; }
            }
            for (int k = 0; k < 2; ++k) { CHECKM(o[k].has_value() == m[k].has && static_cast<bool>(o[k]) == m[k].has, "has_value()"); if (!m[k].has) CHECKM(val(o[k].error()) == m[k].v, "error"); sx_observe(m[k].has); if (!m[k].has) sx_observe((uint64_t)m[k].v); }
            bool eq = m[0].has == m[1].has && (m[0].has || m[0].v == m[1].v); CHECKM((o[0] == o[1]) == eq, "=="); CHECKM((o[0] != o[1]) == !eq, "!=");
        }
        CHECKM(Life::live == (!m[0].has + !m[1].has) * Tracked<E>::n, "exactly one live object each"); sx_reach("void");
    }
    CHECKM(Life::live == 0, "objects destroyed exactly once");
}
extern "C" void c23_vt() { histv<long>(); }
extern "C" void c23_vf() { histv<Tr<9>>(); }
// conversions between expected types, comparisons, lvalue and const monadic operations
extern "C" void c23_misc() {
    typedef expected<Tr<1>, Tr<9>> X; int a = sx_make<int>("a"), b = sx_make<int>("b"); bool ha = sx_pick("ha", 2), hb = sx_pick("hb", 2); M ma{ha, a}, mb{hb, b};
    {
        X A = ha ? X(in_place, a) : X(unexpect, a), B = hb ? X(in_place, b) : X(unexpect, b); const X& CA = A;
        bool eq = ha == hb && a == b; CHECKM((A == B) == eq, "=="); CHECKM((A != B) == !eq, "!=");
        Tr<1> v(b); unexpected<Tr<9>> e(b); CHECKM((A == v) == (ha && a == b) && (v == A) == (ha && a == b) && (A != v) == !(ha && a == b) && (v != A) == !(ha && a == b), "comparison with a value"); CHECKM((A == e) == (!ha && a == b) && (e == A) == (!ha && a == b) && (A != e) == !(!ha && a == b) && (e != A) == !(!ha && a == b), "comparison with an error");
        unexpected<int> u(a), w(b); CHECKM((u == w) == (a == b) && (u != w) == (a != b) && (u < w) == (a < b) && (u <= w) == (a <= b) && (u > w) == (a > b) && (u >= w) == (a >= b), "comparison of unexpected");
        { g_calls = 0; auto r = CA.map([&](const Tr<1>& t) { ++g_calls; return t.v ^ b; }); agree(r, ha ? M{true, a ^ b} : M{false, a}); auto r2 = A.map([&](Tr<1>& t) { ++g_calls; g_arg = t.v; }); CHECKM(r2.has_value() == ha && (ha || r2.error().v == a), "map to void"); auto r3 = CA.map_error([&](const Tr<9>& t) { return t.v ^ b; }); agree(r3, ha ? M{true, a} : M{false, a ^ b}); auto r4 = CA.and_then([&](const Tr<1>& t) { ++g_calls; return X(unexpect, t.v ^ b); }); agree(r4, M{false, ha ? a ^ b : a}); X r5 = CA.or_else([&](const Tr<9>& t) { ++g_calls; return X(in_place, t.v ^ b); }); agree(r5, M{true, ha ? a : a ^ b}); X r6 = A.or_else([&](Tr<9>&) { ++g_calls; }); agree(r6, ma); auto r7 = CA.transform([&](const Tr<1>& t) { return t.v ^ b; }); agree(r7, ha ? M{true, a ^ b} : M{false, a}); auto r8 = CA.transform_error([&](const Tr<9>& t) { return t.v ^ b; }); agree(r8, ha ? M{true, a} : M{false, a ^ b}); CHECKM(g_calls == (ha ? 3 : 2), "number of calls"); agree(A, ma); }
        { expected<int, long> s = ha ? expected<int, long>(a) : expected<int, long>(unexpect, a); X c(s); agree(c, ma); X d(std::move(s)); agree(d, ma); expected<long, long> f(s); CHECKM(f.has_value() == ha && (ha ? *f == a : f.error() == a), "conversion"); unexpected<int> us(a); X g(us); agree(g, M{false, a}); auto h = make_unexpected(a); CHECKM(h.value() == a, "make_unexpected"); }
        sx_observe(eq);
    }
    CHECKM(Life::live == 0, "objects destroyed exactly once"); sx_reach("misc");
}
// copying, moving and cross-kind assignment when the element constructor throws
extern "C" void c23_noexcept() {
    typedef expected<Tr<7>, Tr<9>> X; int a = sx_make<int>("a"); bool boom = false;
    {
        X A(in_place, a), B(unexpect, a); Life::fuse = 0; int op = (int)sx_param(0);
        try { switch (op) { case 0: { X c(A); break; } case 1: { X c(std::move(A)); break; } case 2: B = A; break; case 3: B = std::move(A); break; } } catch (const Boom&) { boom = true; }
        Life::fuse = -1; CHECKM(boom, "exception of the element is passed on"); CHECKM(!B.has_value() && A.has_value() && B.error().v == a, "alternatives unchanged");
    }
    CHECKM(Life::live == 0, "objects destroyed exactly once");
}
