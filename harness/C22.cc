#include "elem.h"
#include "common.h"
#include <functional>
#include <gul14/optional.h>
using gul14::optional; using gul14::nullopt; using gul14::in_place; using gul14::bad_optional_access; using gul14::make_optional;
struct M { bool has = false; int v = 0; };
static const int G = -1; // what a tracked element holds after having been moved from
template <typename T> struct Moved { static int of(int) { return G; } }; template <> struct Moved<int> { static int of(int v) { return v; } };
template <typename T> static void agree(const optional<T>& o, const M& m) {
    CHECKM(o.has_value() == m.has, "has_value()"); CHECKM(static_cast<bool>(o) == m.has, "operator bool"); CHECKM((o == nullopt) == !m.has && (nullopt != o) == m.has, "comparison with nullopt");
    if (m.has) { CHECKM(val(*o) == m.v, "operator*"); CHECKM(val(*o.operator->()) == m.v, "operator->"); bool ok = true; try { CHECKM(val(o.value()) == m.v, "value()"); } catch (const bad_optional_access&) { ok = false; } CHECKM(ok, "value() of an engaged optional"); CHECKM(static_cast<const void*>(&*o) >= &o && static_cast<const void*>(&*o) < &o + 1, "value is stored inside"); }
    else { bool thrown = false; try { (void)o.value(); } catch (const bad_optional_access&) { thrown = true; } CHECKM(thrown, "value() of an empty optional throws"); }
}
// operations available for copyable types only
template <typename T, bool COPY> struct CopyOps {
    static void assign(optional<T>& a, const optional<T>& b) { a = b; } static void assignv(optional<T>& a, const T& v) { a = v; }
    static void construct(const optional<T>& b, const M& m) { optional<T> c(b); agree(c, m); } static void constructv(const T& b, int v) { optional<T> c(b); M m; m.has = true; m.v = v; agree(c, m); }
    static int valueor(const optional<T>& a, const T& d) { return val(a.value_or(d)); }
    static void make(const T& b, int v) { auto c = make_optional(b); static_assert(std::is_same<decltype(c), optional<T>>::value, ""); M m; m.has = true; m.v = v; agree(c, m); }
};
template <typename T> struct CopyOps<T, false> { static void assign(optional<T>&, const optional<T>&) { sx_end(); } static void assignv(optional<T>&, const T&) { sx_end(); } static void construct(const optional<T>&, const M&) { sx_end(); } static void constructv(const T&, int) { sx_end(); } static int valueor(const optional<T>&, const T&) { sx_end(); } static void make(const T&, int) { sx_end(); } };
// param: length, 1: an element operation throws at the last step
template <typename T, bool COPY> static void hist() {
    typedef CopyOps<T, COPY> C; typedef Moved<T> MV;
    int len = (int)sx_param(0); bool thr = sx_param(1) != 0; uint64_t heap = sx_live_heap();
    {
        optional<T> o[2]; M m[2]; const int N = 17;
        for (int i = 0; i < len; ++i) {
            int op = (int)sx_pick("op", N), a = (int)sx_pick("which", 2), b = 1 - a, x = sx_make<int>("x"); optional<T>& A = o[a]; optional<T>& B = o[b]; M pa = m[a], pb = m[b];
            bool arm = thr && i == len - 1; long fuse = arm ? (long)sx_pick("fuse", 4) : -1; bool boom = false;
            T val0(x); // argument made before arming
            Life::fuse = fuse;
            try {
                switch (op) {
                case 0: A = nullopt; m[a].has = false; break;
                case 1: A.reset(); m[a].has = false; break;
                case 2: A.emplace(x); m[a].has = true; m[a].v = x; break;
                case 3: { A = std::move(val0); m[a].has = true; m[a].v = x; Life::fuse = -1; CHECKM(val(val0) == MV::of(x), "argument moved"); break; }
                case 4: C::assignv(A, val0); m[a].has = true; m[a].v = x; Life::fuse = -1; CHECKM(val(val0) == x, "argument left alone"); break;
                case 5: C::assign(A, B); m[a] = pb; break;
                case 6: A = std::move(B); m[a] = pb; if (pb.has) m[b].v = MV::of(pb.v); break;
                case 7: A.swap(B); m[a] = pb; m[b] = pa; break;
                case 8: { using std::swap; swap(A, B); m[a] = pb; m[b] = pa; break; }
                case 9: C::construct(A, pa); break;
                case 10: { optional<T> c(std::move(A)); M e = pa; if (pa.has) m[a].v = MV::of(pa.v); Life::fuse = -1; agree(c, e); break; }
                case 11: { optional<T> c(in_place, x); M e; e.has = true; e.v = x; Life::fuse = -1; agree(c, e); CHECKM(val(*std::move(c)) == x, "rvalue access"); CHECKM(val(std::move(c).value()) == x, "rvalue value()"); break; }
                case 12: C::constructv(val0, x); C::make(val0, x); break;
                case 13: { optional<T> c(std::move(val0)); M e; e.has = true; e.v = x; Life::fuse = -1; agree(c, e); { auto d = make_optional(std::move(*c)); agree(d, e); } agree(c, M{true, MV::of(x)}); break; }
                case 14: { int r = C::valueor(A, val0); Life::fuse = -1; CHECKM(r == (pa.has ? pa.v : x), "value_or"); break; }
                case 15: { T r(std::move(A).value_or(std::move(val0))); Life::fuse = -1; CHECKM(val(r) == (pa.has ? pa.v : x), "value_or &&"); if (pa.has) m[a].v = MV::of(pa.v); break; }
                case 16: if (!pa.has) break; { T t(x); *A = std::move(t); m[a].v = x; A.value() = std::move(*A); } break;
                }
            } catch (const Boom&) { boom = true; }
            Life::fuse = -1;
            if (boom) { // the state the element operation was called in stays valid; engagement as documented
                sx_reach("threw"); m[a] = pa; m[b] = pb; if (op == 2) m[a].has = false; // emplace destroys the previous value first
                for (int k = 0; k < 2; ++k) { CHECKM(o[k].has_value() == m[k].has, "engagement after an exception"); if (m[k].has) { bool keep = op == 4 || op == 5 || op == 9 || op == 12 || op == 11 || op == 13; if (keep) CHECKM(val(*o[k]) == m[k].v, "values after an exception while copying"); m[k].v = val(*o[k]); } }
            }
            agree(o[0], m[0]); agree(o[1], m[1]);
            for (int k = 0; k < 2; ++k) { sx_observe(m[k].has); if (m[k].has) sx_observe((uint64_t)m[k].v); }
        }
        CHECKM(Life::live == (m[0].has + m[1].has) * (std::is_class<T>::value ? 1 : 0), "one live object per engaged optional");
        if (sx_live_heap() == heap) sx_reach("hist");
    }
    CHECKM(Life::live == 0, "objects destroyed exactly once"); CHECKM(sx_live_heap() == heap, "no heap block leaked");
}
extern "C" void c22_int() { hist<int, true>(); }
extern "C" void c22_tr() { hist<Tr<1>, true>(); }
extern "C" void c22_thr() { hist<Tr<7>, true>(); }
extern "C" void c22_mo() { hist<Mo<2>, false>(); }
// relational operators: optional/optional, optional/value, optional/nullopt
template <typename T, typename O> static void rel(const O& a, const O& b, const T& x, const T& y, bool ha, bool hb) {
    typedef int I; I u = ha ? 1 : 0, w = hb ? 1 : 0; // empty sorts before every value
    bool lt = u != w ? u < w : (ha && x < y), gt = u != w ? u > w : (ha && y < x), eq = u == w && (!ha || x == y);
    CHECKM((a == b) == eq, "=="); CHECKM((a != b) == !eq, "!="); CHECKM((a < b) == lt, "<"); CHECKM((a > b) == gt, ">"); CHECKM((a <= b) == !gt, "<="); CHECKM((a >= b) == !lt, ">=");
    const T& v = y; // compare a with the bare value y
    bool vlt = !ha || x < v, vgt = ha && v < x, veq = ha && x == v;
    CHECKM((a == v) == veq, "== value"); CHECKM((a != v) == !veq, "!= value"); CHECKM((a < v) == vlt, "< value"); CHECKM((a > v) == vgt, "> value"); CHECKM((a <= v) == !vgt, "<= value"); CHECKM((a >= v) == !vlt, ">= value");
    CHECKM((v == a) == veq, "value =="); CHECKM((v != a) == !veq, "value !="); CHECKM((v > a) == vlt, "value >"); CHECKM((v < a) == vgt, "value <"); CHECKM((v >= a) == !vgt, "value >="); CHECKM((v <= a) == !vlt, "value <=");
    CHECKM((a == nullopt) == !ha && (nullopt == a) == !ha, "== nullopt"); CHECKM((a != nullopt) == ha && (nullopt != a) == ha, "!= nullopt"); CHECKM(!(a < nullopt) && (nullopt < a) == ha, "< nullopt"); CHECKM((a <= nullopt) == !ha && (nullopt <= a), "<= nullopt"); CHECKM((a > nullopt) == ha && !(nullopt > a), "> nullopt"); CHECKM((a >= nullopt) && (nullopt >= a) == !ha, ">= nullopt");
    sx_observe(eq | lt << 1 | gt << 2 | veq << 3 | vlt << 4 | vgt << 5); sx_reach("rel");
}
// a type whose six comparison operators are independent of each other is not needed: values with a partial order (NaN) cover inconsistent ones
template <typename T> static void relAll(T x, T y) {
    bool ha = sx_pick("ha", 2), hb = sx_pick("hb", 2); bool form = sx_param(0);
    if (!form) { optional<T> a, b; if (ha) a = x; if (hb) b = y; rel<T>(a, b, x, y, ha, hb); std::hash<optional<T>> h; CHECKM(!ha || h(a) == std::hash<T>{}(x), "hash of an engaged optional"); CHECKM(h(optional<T>()) == h(optional<T>(nullopt)), "hash of empty ones"); }
    else if (sx_pick("const", 2)) { optional<T&> a, b; if (ha) a.emplace(x); if (hb) b.emplace(y); rel<T>(a, b, x, y, ha, hb); }
    else { optional<const T&> a, b; if (ha) a.emplace(x); if (hb) b.emplace(y); rel<T>(a, b, x, y, ha, hb); }
}
extern "C" void c22_rel_int() { int x = sx_make<int>("x"), y = sx_make<int>("y"); relAll<int>(x, y); }
extern "C" void c22_rel_u8() { uint8_t x = sx_make<uint8_t>("x"), y = sx_make<uint8_t>("y"); relAll<uint8_t>(x, y); }
// optional references: two of them, two target objects
extern "C" void c22_ref() {
    int len = (int)sx_param(0); int obj[2] = {sx_make<int>("o0"), sx_make<int>("o1")}; int init[2] = {obj[0], obj[1]}; optional<int&> r[2]; int m[2] = {-1, -1};
    for (int i = 0; i < len; ++i) {
        int op = (int)sx_pick("op", 13), a = (int)sx_pick("which", 2), b = 1 - a, t = (int)sx_pick("target", 2), x = sx_make<int>("x");
        switch (op) {
        case 0: r[a] = nullopt; m[a] = -1; break;
        case 1: r[a].reset(); m[a] = -1; break;
        case 2: r[a].emplace(obj[t]); m[a] = t; break;
        case 3: r[a] = r[b]; m[a] = m[b]; break;
        case 4: r[a] = std::move(r[b]); m[a] = m[b]; break;
        case 5: { r[a].swap(r[b]); int k = m[a]; m[a] = m[b]; m[b] = k; break; }
        case 6: { using std::swap; swap(r[a], r[b]); int k = m[a]; m[a] = m[b]; m[b] = k; break; }
        case 7: { optional<int&> c(r[a]); CHECKM(c.has_value() == (m[a] >= 0), "copy"); if (m[a] >= 0) CHECKM(&*c == &obj[m[a]], "copy refers to the same object"); break; }
        case 8: { optional<int&> c(obj[t]), d(in_place, obj[t]); auto e = make_optional(std::ref(obj[t])); CHECKM(&*c == &obj[t] && &d.value() == &obj[t] && &*e == &obj[t], "construction binds the object"); break; }
        case 9: if (m[a] >= 0) { *r[a] = x; init[m[a]] = x; } break;
        case 10: if (m[a] >= 0) { r[a].value() = x; init[m[a]] = x; } else { bool th = false; try { (void)r[a].value(); } catch (const bad_optional_access&) { th = true; } CHECKM(th, "value() throws when empty"); } break;
        case 11: CHECKM(r[a].value_or(x) == (m[a] >= 0 ? init[m[a]] : x), "value_or"); break;
        case 12: { optional<int&> c(nullopt); CHECKM(!c && !c.has_value(), "nullopt"); std::hash<optional<int&>> h; if (m[a] >= 0) CHECKM(h(r[a]) == std::hash<int>{}(init[m[a]]), "hash"); break; }
        }
        for (int k = 0; k < 2; ++k) { CHECKM(r[k].has_value() == (m[k] >= 0) && static_cast<bool>(r[k]) == (m[k] >= 0), "has_value()"); if (m[k] >= 0) { CHECKM(&*r[k] == &obj[m[k]] && r[k].operator->() == &obj[m[k]], "refers to the original object"); } CHECKM(obj[k] == init[k], "objects"); }
    }
    sx_observe((uint64_t)(m[0] * 3 + m[1])); sx_reach("ref");
}
