#include "elem.h"
#include "common.h"
#include <functional>
#include <gul14/variant.h>
using gul14::variant; using gul14::get; using gul14::get_if; using gul14::holds_alternative; using gul14::bad_variant_access; using gul14::monostate; using gul14::visit; using gul14::variant_npos; using gul14::in_place_index_t; using gul14::in_place_type_t;
static const size_t NP = variant_npos;
inline int val(long x) { return (int)x; } inline int val(unsigned char x) { return x; } inline int val(short x) { return x; }
struct M { size_t idx; int v; };
template <typename T> struct Mv { static int of(int v) { return std::is_class<T>::value ? -1 : v; } };
template <size_t I, typename V> using alt_t = typename std::decay<decltype(get<I>(std::declval<V&>()))>::type;
struct Vis { size_t n = 0; int v = 0; template <typename T> int operator()(const T& t) { ++n; v = val(t); return v ^ 77; } };
template <size_t I, typename V> static void one(V& x, const M& m) {
    const V& c = x; CHECKM(holds_alternative<I>(x) == (m.idx == I), "holds_alternative"); auto* p = get_if<I>(&x); auto* q = get_if<I>(&c); CHECKM((p != nullptr) == (m.idx == I) && p == q, "get_if");
    bool threw = false; int v = 0; try { v = val(get<I>(c)); v = val(get<I>(x)); } catch (const bad_variant_access&) { threw = true; } CHECKM(threw == (m.idx != I), "get throws exactly for another alternative");
    if (m.idx == I) { CHECKM(v == m.v, "value"); CHECKM(val(*p) == m.v, "value through get_if"); CHECKM((const void*)p >= &x && (const void*)p < &x + 1, "stored inside"); CHECKM(&get<I>(x) == p, "same object"); }
}
template <size_t I, typename V> struct All { static void chk(V& x, const M& m) { one<I - 1>(x, m); All<I - 1, V>::chk(x, m); } }; template <typename V> struct All<0, V> { static void chk(V&, const M&) {} };
template <size_t N, typename V> static void agree(V& x, const M& m) {
    CHECKM(x.index() == m.idx, "index()"); CHECKM(x.valueless_by_exception() == (m.idx == NP), "valueless_by_exception()"); All<N, V>::chk(x, m);
    Vis vis; bool threw = false; int r = 0; try { r = visit(vis, x); } catch (const bad_variant_access&) { threw = true; } CHECKM(threw == (m.idx == NP), "visit throws exactly when valueless"); CHECKM(vis.n == (threw ? 0u : 1u), "visitor called once"); if (!threw) CHECKM(vis.v == m.v && r == (m.v ^ 77), "visitor sees the value and its result is returned");
}
// one operation on alternative I
template <size_t I, typename V, bool COPY> struct Op {
    typedef alt_t<I, V> T;
    template <bool C> static typename std::enable_if<C>::type cp(V& a, M& m, T& t, int x) { a = const_cast<const T&>(t); m = M{I, x}; long f = Life::fuse; Life::fuse = -1; CHECKM(val(t) == x, "argument kept"); Life::fuse = f; }
    template <bool C> static typename std::enable_if<!C>::type cp(V&, M&, T&, int) { sx_end(); }
    static void run(int op, V& a, M& m, int x, bool& same) {
        T t(x); Life::fuse = Life::fuse >= 100 ? Life::fuse - 100 : -1; same = m.idx == I; M n{I, x};
        switch (op) {
        case 0: { auto& r = a.template emplace<I>(x); m = n; CHECKM(&r == get_if<I>(&a), "emplace returns the new object"); break; }
        case 1: { auto& r = a.template emplace<T>(std::move(t)); m = n; CHECKM(&r == get_if<I>(&a), "emplace returns the new object"); break; }
        case 2: a = std::move(t); m = n; Life::fuse = -1; CHECKM(val(t) == Mv<T>::of(x), "argument moved"); break;
        case 3: cp<COPY>(a, m, t, x); break;
        case 4: { V c(std::move(t)); Life::fuse = -1; agree<std::decay<V>::type::SZ>(c, n); break; }
        case 5: { V c(in_place_index_t<I>{}, x), d(in_place_type_t<T>{}, x); Life::fuse = -1; agree<V::SZ>(c, n); agree<V::SZ>(d, n); break; }
        case 6: if (m.idx != I) break; get<I>(a) = std::move(t); m.v = x; break;
        case 7: if (m.idx != I) break; { T u(get<I>(std::move(a))); Life::fuse = -1; CHECKM(val(u) == m.v, "get from an rvalue"); m.v = Mv<T>::of(m.v); } break;
        }
    }
};
template <size_t I, typename V, bool COPY> struct Sel { static void run(size_t i, int op, V& a, M& m, int x, bool& same) { if (i == I - 1) Op<I - 1, V, COPY>::run(op, a, m, x, same); else Sel<I - 1, V, COPY>::run(i, op, a, m, x, same); } static int moved(size_t i, int v) { return i == I - 1 ? Mv<alt_t<I - 1, V>>::of(v) : Sel<I - 1, V, COPY>::moved(i, v); } static bool ntm(size_t i) { return i == NP || (i == I - 1 ? std::is_nothrow_move_constructible<alt_t<I - 1, V>>::value : Sel<I - 1, V, COPY>::ntm(i)); } static int live(size_t i) { return i == I - 1 ? std::is_class<alt_t<I - 1, V>>::value : Sel<I - 1, V, COPY>::live(i); } };
template <typename V, bool COPY> struct Sel<0, V, COPY> { static void run(size_t, int, V&, M&, int, bool&) {} static int moved(size_t, int v) { return v; } static bool ntm(size_t) { return false; } static int live(size_t) { return 0; } };
template <typename... Ts> struct Var : variant<Ts...> { typedef variant<Ts...> B; enum { SZ = sizeof...(Ts) }; using B::B; using B::operator=; Var() = default; Var(const Var&) = default; Var(Var&&) = default; Var& operator=(const Var&) = default; Var& operator=(Var&&) = default; };
template <typename V, bool C> struct Cpy { static void assign(V& a, const V& b) { a = b; } static void ctor(V& a, const M& m) { V c(const_cast<const V&>(a)); long f = Life::fuse; Life::fuse = -1; agree<V::SZ>(c, m); Life::fuse = f; } }; template <typename V> struct Cpy<V, false> { static void assign(V&, const V&) { sx_end(); } static void ctor(V&, const M&) { sx_end(); } };
// params: length, 1: an element operation throws somewhere in the last step
template <typename V, bool COPY, bool THR> static void hist() {
    const size_t N = V::SZ; typedef Sel<N, V, COPY> S; int len = (int)sx_param(0); bool thr = THR && sx_param(1) != 0; uint64_t heap = sx_live_heap();
    {
        V o[2]; M m[2] = {{0, 0}, {0, 0}};
        for (int i = 0; i < len; ++i) {
            int op = (int)sx_pick("op", 14), a = (int)sx_pick("which", 2), b = 1 - a, x = op < 8 ? sx_make<int>("x") & 0x7f : 0; size_t alt = op < 8 ? sx_pick("alt", N) : 0; V& A = o[a]; V& B = o[b]; M pa = m[a], pb = m[b]; bool boom = false, same = false;
            long fuse = thr && i >= len - (int)sx_param(1) ? (long)sx_pick("fuse", 4) : -1; Life::fuse = op < 8 ? (fuse >= 0 ? fuse + 100 : -1) : fuse;
            try {
                if (op < 8) S::run(alt, op, A, m[a], x, same);
                else switch (op) {
                case 8: Cpy<V, COPY>::assign(A, B); m[a] = pb; break;
                case 9: A = std::move(B); m[a] = pb; if (pb.idx != NP) m[b].v = S::moved(pb.idx, pb.v); break;
                case 10: A.swap(B); m[a] = pb; m[b] = pa; break;
                case 11: { using std::swap; swap(static_cast<typename V::B&>(A), static_cast<typename V::B&>(B)); m[a] = pb; m[b] = pa; break; }
                case 12: Cpy<V, COPY>::ctor(A, pa); break;
                case 13: { V c(std::move(A)); Life::fuse = -1; agree<N>(c, pa); if (pa.idx != NP) m[a].v = S::moved(pa.idx, pa.v); break; }
                }
            } catch (const Boom&) { boom = true; }
            Life::fuse = -1;
            if (boom) {
                sx_reach("threw"); m[a] = pa; m[b] = pb; size_t ia = A.index(), ib = B.index(); size_t want = op < 8 ? alt : pb.idx; bool sameAlt = want == pa.idx;
                if (op == 0 || op == 1) CHECKM(ia == NP, "valueless after a failed emplace");
                if (op == 2 || op == 3 || op == 8 || op == 9) CHECKM(ia == pa.idx || (!sameAlt && ia == NP), "unchanged or valueless after a failed assignment");
                if (op >= 4 && op < 8) CHECKM(ia == pa.idx, "other objects unaffected"); if (op < 8 || op == 8 || op == 12) CHECKM(ib == pb.idx, "other objects unaffected");
                if (op == 12 || op == 13) CHECKM(ia == pa.idx, "source keeps its alternative"); if (op == 9) CHECKM(ib == pb.idx, "source keeps its alternative");
                if (op == 10 || op == 11) { CHECKM(ia == NP || ia == pa.idx || ia == pb.idx, "alternative after a failed swap"); CHECKM(ib == NP || ib == pa.idx || ib == pb.idx, "alternative after a failed swap");
                    if (pa.idx != pb.idx && (S::ntm(pa.idx) || S::ntm(pb.idx))) { agree<N>(A, pa); agree<N>(B, pb); sx_reach("strong"); } }
                for (int k = 0; k < 2; ++k) { m[k].idx = o[k].index(); Vis vis; if (m[k].idx != NP) { visit(vis, o[k]); m[k].v = vis.v; } }
            }
            agree<N>(o[0], m[0]); agree<N>(o[1], m[1]);
            for (int k = 0; k < 2; ++k) { sx_observe(m[k].idx); if (m[k].idx != NP) sx_observe((uint64_t)m[k].v); }
        }
        CHECKM(Life::live == S::live(m[0].idx) + S::live(m[1].idx), "exactly one live object per variant holding a value"); if (m[0].idx == NP) sx_reach("valueless"); sx_reach("hist");
    }
    CHECKM(Life::live == 0, "objects destroyed exactly once"); CHECKM(sx_live_heap() == heap, "no heap block leaked");
}
extern "C" void c24_triv() { hist<Var<int, short, long>, true, false>(); }
extern "C" void c24_mix() { hist<Var<int, Tr<1>, Tr<9>>, true, false>(); }
extern "C" void c24_thr() { hist<Var<int, Tr<1>, Tr<13>, Tr<7>>, true, true>(); }
extern "C" void c24_mo() { hist<Var<Mo<1>, int, Mo<6>>, false, true>(); }
// relational operators, hash, visiting several variants, valueless ones included
struct Th { int v; Th(int x) : v(x) {} Th(const Th& o) : v(o.v) { Life::spark(); } Th(Th&& o) : v(o.v) { Life::spark(); } Th& operator=(const Th&) = default;
#define REL(op) friend bool operator op(const Th& a, const Th& b) { return a.v op b.v; }
    REL(==) REL(!=) REL(<) REL(>) REL(<=) REL(>=) };
typedef variant<int, unsigned char, Th> Q;
struct V2 { int n = 0; size_t ti = 9, tj = 9; int x = 0, y = 0; static size_t id(int) { return 0; } static size_t id(unsigned char) { return 1; } static size_t id(const Th&) { return 2; } static int va(int v) { return v; } static int va(const Th& v) { return v.v; } template <typename A, typename B> int operator()(const A& a, const B& b) { ++n; ti = id(a); tj = id(b); x = va(a); y = va(b); return 5; } };
extern "C" void c24_rel() {
    int x = sx_make<int>("x"), y = sx_make<int>("y"); size_t i = sx_pick("i", 4), j = sx_pick("j", 4); Q a(0), b(0);
    Q* q[2] = {&a, &b}; size_t k[2] = {i, j}; int z[2] = {x, y};
    for (int n = 0; n < 2; ++n) switch (k[n]) { case 0: *q[n] = z[n]; break; case 1: z[n] &= 255; *q[n] = (unsigned char)z[n]; break; case 2: q[n]->emplace<2>(z[n]); break; case 3: { Th t(1); Life::fuse = 0; bool boom = false; try { q[n]->emplace<2>(t); } catch (const Boom&) { boom = true; } Life::fuse = -1; CHECKM(boom && q[n]->valueless_by_exception() && q[n]->index() == NP, "valueless"); break; } }
    int oi = i == 3 ? -1 : (int)i, oj = j == 3 ? -1 : (int)j; bool veq = i == 3 || z[0] == z[1], vlt = i != 3 && z[0] < z[1], vgt = i != 3 && z[0] > z[1]; bool eq = oi == oj && veq, lt = oi < oj || (oi == oj && vlt), gt = oi > oj || (oi == oj && vgt);
    CHECKM((a == b) == eq, "=="); CHECKM((a != b) == !eq, "!="); CHECKM((a < b) == lt, "<"); CHECKM((a > b) == gt, ">"); CHECKM((a <= b) == !gt, "<="); CHECKM((a >= b) == !lt, ">=");
    // visiting two variants at once
    V2 v2;
    bool threw = false; int r = 0; try { r = visit(v2, a, b); } catch (const bad_variant_access&) { threw = true; } CHECKM(threw == (i == 3 || j == 3), "visit throws when any variant is valueless"); if (!threw) CHECKM(r == 5 && v2.n == 1 && v2.ti == i && v2.tj == j && v2.x == z[0] && v2.y == z[1], "visit of two variants"); else CHECKM(v2.n == 0, "visitor not called");
    sx_observe(eq | lt << 1 | gt << 2); sx_reach("rel");
}
// a variant with many alternatives, hash, monostate, converting construction picks the alternative
template <int K> struct Nth { int v; };
template <size_t... I> static variant<Nth<I>...> bigType(std::index_sequence<I...>); typedef decltype(bigType(std::make_index_sequence<40>{})) Big;
template <size_t I> struct Fill { static void put(Big& b, size_t i, int v) { if (i == I - 1) b.template emplace<I - 1>(Nth<I - 1>{v}); else Fill<I - 1>::put(b, i, v); } }; template <> struct Fill<0> { static void put(Big&, size_t, int) {} };
struct BigVis { int n = 0, k = -1, v = 0; template <int K> int operator()(Nth<K>& x) { ++n; k = K; v = x.v; x.v ^= 1; return K; } };
extern "C" void c24_big() {
    size_t i = sx_pick("i", 40); int v = sx_make<int>("v"); Big b; CHECKM(b.index() == 0 && get<0>(b).v == 0, "default: first alternative, value-initialised"); Fill<40>::put(b, i, v); CHECKM(b.index() == i, "index"); BigVis vis; int r = visit(vis, b); CHECKM(r == (int)i && vis.n == 1 && vis.k == (int)i && vis.v == v, "visit"); BigVis v2; Big c(b); visit(v2, c); CHECKM(c.index() == i && v2.v == (v ^ 1), "visitor may modify the value; copies keep it");
    Big d; d = std::move(c); CHECKM(d.index() == i, "move"); BigVis v3; visit(v3, d); CHECKM(v3.v == v, "value"); { Big e; Fill<40>::put(e, (i + 7) % 40, 3); e.swap(b); CHECKM(e.index() == i && b.index() == (i + 7) % 40, "swap"); BigVis v4, v5; visit(v4, e); visit(v5, b); CHECKM(v4.v == (v ^ 1) && v5.v == 3, "swap"); }
    variant<monostate, int, bool> s; CHECKM(s.index() == 0 && holds_alternative<monostate>(s), "monostate"); s = v; CHECKM(s.index() == 1 && get<int>(s) == v, "int"); s = true; CHECKM(s.index() == 2 && get<bool>(s), "bool"); s = monostate{}; CHECKM(s.index() == 0, "monostate");
    variant<int, long> h1(v), h2(v), h3((long)v); std::hash<variant<int, long>> h; CHECKM(h(h1) == h(h2), "equal variants have equal hashes"); const int* pi = get_if<int>(&h1); CHECKM(pi && *pi == v && !get_if<long>(&h1) && get_if<long>(&h3) && !get_if<int>((variant<int, long>*)nullptr), "get_if");
    auto f = gul14::make_overload_set([](int x) { return x ^ 1; }, [](long x) { return (int)x ^ 2; }); CHECKM(visit(f, h1) == (v ^ 1) && visit(f, h3) == (v ^ 2), "overload set");
    sx_observe(i); sx_reach("big");
}
