#include "common.h"
#include <gul14/num_util.h>
#include <cmath>
#include <cstring>
using namespace gul14;
template <typename T> static T mk(const char* n) { return sx_make<T>(n); }
template <> float mk<float>(const char* n) { uint32_t u = (uint32_t)sx_sym(n, 32); float f; memcpy(&f, &u, 4); return f; }
template <> double mk<double>(const char* n) { uint64_t u = sx_sym(n, 64); double f; memcpy(&f, &u, 8); return f; }
typedef uint64_t W;
template <typename T> static W wabs(T x) { return x < 0 ? 0 - (W)x : (W)x; } // exact magnitude and distance
template <typename T> static W dist(T a, T b) { return a > b ? (W)a - (W)b : (W)b - (W)a; }
template <typename T> static void ints() { 
    T a = mk<T>("a"), b = mk<T>("b"), t = mk<T>("t"); if (std::is_signed<T>::value) sx_assume(t != std::numeric_limits<T>::min());
    bool e = dist(a, b) <= wabs(t); bool r = within_abs(a, b, t); CHECKM(r == e, "within_abs is |a-b| <= |tol|"); CHECKM(within_abs(b, a, t) == r, "within_abs is symmetric"); sx_observe(r);
    CHECKM((W)gul14::abs(t) == wabs(t), "abs"); sx_observe((uint64_t)(W)gul14::abs(t)); if (r) sx_reach("near"); else sx_reach("far");
}
template <typename T> static void clampT() {
    T v = mk<T>("v"), lo = mk<T>("lo"), hi = mk<T>("hi"); sx_assume(lo <= hi); sx_assume(v == v); const T& r = clamp(v, lo, hi);
    CHECKM(r == (v < lo ? lo : hi < v ? hi : v), "clamp"); CHECKM(&r == &v || &r == &lo || &r == &hi, "clamp returns one of its arguments"); CHECKM(r >= lo && r <= hi, "clamp result in range");
    const T& q = clamp(v, hi, lo, [](const T& x, const T& y) { return y < x; }); CHECKM(q == r, "clamp with comparator"); sx_reach("clamp");
}
extern "C" void c19_int() {
    switch (sx_param(0)) { case 0: ints<int8_t>(); break; case 1: ints<uint8_t>(); break; case 2: ints<int16_t>(); break; case 3: ints<uint16_t>(); break; case 4: ints<int>(); break; case 5: ints<unsigned>(); break; case 6: ints<long>(); break; case 7: ints<unsigned long>(); break; case 8: ints<long long>(); break; }
}
extern "C" void c19_clamp() {
    switch (sx_param(0)) { case 0: clampT<int8_t>(); break; case 1: clampT<uint8_t>(); break; case 2: clampT<int>(); break; case 3: clampT<unsigned long>(); break; case 4: clampT<long>(); break; case 5: clampT<float>(); break; case 6: clampT<double>(); break; }
}
static const double ORD[] = {0, 1, 2, 3, 5, -1, 2.5, -2};
static const double POW[] = {1, 10, 100, 1000, 100000, 0.1, 316.22776601683796, 0.01};
// params: type, order index, magnitude limit
template <typename T> static void ord() {
    T a = mk<T>("a"), b = mk<T>("b"); long k = sx_param(1); long lim = sx_param(2); sx_assume(wabs(a) <= (W)lim && wabs(b) <= (W)lim); if (std::is_signed<T>::value) sx_assume(a != std::numeric_limits<T>::min() && b != std::numeric_limits<T>::min());
    sx_split(a < 0); sx_split(b < 0); using U = std::make_unsigned_t<T>; U d = sx_split(a > b) ? (U)((U)a - (U)b) : (U)((U)b - (U)a); T aa = a < 0 ? (T)-a : a, ab = b < 0 ? (T)-b : b, m = sx_split(aa < ab) ? ab : aa; sx_split(ab < aa); sx_split(a < b);
    bool r = within_orders(a, b, ORD[k]), e = d == 0 || d < m / POW[k];
    CHECKM(r == e, "within_orders: equal or |a-b| < max(|a|,|b|) / 10^orders"); CHECKM(within_orders(b, a, ORD[k]) == r, "within_orders is symmetric"); sx_observe(r);
    if (k < 5) CHECKM(within_orders(a, b, (int)ORD[k]) == r, "within_orders with integer orders");
    if (r) sx_reach("near"); else sx_reach("far");
}
extern "C" void c19_ord() { switch (sx_param(0)) { case 0: ord<int8_t>(); break; case 1: ord<uint8_t>(); break; case 2: ord<int16_t>(); break; case 3: ord<int>(); break; case 4: ord<unsigned>(); break; case 5: ord<long>(); break; case 6: ord<unsigned long>(); break; } }
template <typename T> static void ordF() {
    T a = mk<T>("a"), b = mk<T>("b"); long k = sx_param(1); bool gt = sx_split(a > b); T d = gt ? a - b : b - a; T aa = std::fabs(a), ab = std::fabs(b); sx_split(a < b); sx_split(ab < aa); T m = sx_split(aa < ab) ? ab : aa; bool r = within_orders(a, b, ORD[k]), e = (d == 0) | (d < m / std::pow((T)10, ORD[k]));
    sx_observe(r); CHECKM(r == e, "within_orders (floating point)"); if (a != a || b != b) CHECKM(!r, "NaN is near nothing"); CHECKM(within_orders(b, a, ORD[k]) == r, "within_orders is symmetric"); sx_reach("ordF");
}
extern "C" void c19_ordf() { if (sx_param(0)) ordF<double>(); else ordF<float>(); }
// tolerance on floating-point numbers
template <typename T> static void absF() {
    T a = mk<T>("a"), b = mk<T>("b"), t = mk<T>("t"); T at = std::fabs(t); bool r = within_abs(a, b, t); sx_observe(r);
    bool gt = sx_split(a > b); T hi = gt ? a : b, lo = gt ? b : a; const T big = std::numeric_limits<T>::max() / 8;
    if (a != a || b != b || t != t) { CHECKM(!r, "NaN is near nothing"); sx_reach("nan"); return; }
    CHECKM(within_abs(b, a, t) == r, "within_abs is symmetric"); CHECKM(within_abs(a, b, -t) == r, "sign of the tolerance is ignored");
    if (std::isfinite(hi) && std::isfinite(lo) && std::isfinite(at)) { CHECKM(r == (hi - at <= lo), "hi - |tol| <= lo"); if (a == b) CHECKM(r, "equal numbers are within every tolerance"); if (at == 0) CHECKM(r == (a == b), "zero tolerance means equality"); sx_reach("fin"); }
    else if (at < big && (lo > -big || lo == -hi || !std::isfinite(lo)) && (std::isinf(hi) || hi > -big)) { CHECKM(r == (a == b), "an infinite number is near only itself"); sx_reach("inf"); }
    if (gul14::abs(a) < 0) CHECKM(false, "abs is never negative"); CHECKM(gul14::abs(a) == std::fabs(a), "abs");
}
extern "C" void c19_absf() { if (sx_param(0)) absF<double>(); else absF<float>(); }
// distance in representable steps; params: ulp, type, 0: same sign, 1: opposite signs (across zero), 2: the special values
template <typename T, typename U> static void ulpT() {
    const unsigned bits = sizeof(T) * 8; U ua = (U)sx_sym("a", bits), ub = (U)sx_sym("b", bits); T a, b; memcpy(&a, &ua, sizeof a); memcpy(&b, &ub, sizeof b); unsigned ulp = (unsigned)sx_param(0); long kind = sx_param(2);
    bool fin = std::isfinite(a) && std::isfinite(b); sx_assume(fin == (kind != 2)); if (kind != 2) sx_assume(((ua ^ ub) >> (bits - 1)) == (U)kind);
    bool r = within_ulp(a, b, ulp); sx_observe(r);
    if (kind == 2) {
        if (a != a || b != b) { CHECKM(!r, "NaN is near nothing"); sx_reach("nan"); } else if (a == b) { CHECKM(r, "equal numbers"); sx_reach("eq"); } else { CHECKM(!r, "an infinite number is near only itself"); sx_reach("inf"); }
        CHECKM(within_ulp(b, a, ulp) == r, "within_ulp is symmetric"); return;
    }
    CHECKM(within_ulp(b, a, ulp) == r, "within_ulp is symmetric"); if (a == b) { CHECKM(r, "equal numbers"); sx_reach("eq"); return; }
    U ma = ua << 1 >> 1, mb = ub << 1 >> 1, d = kind ? ma + mb : ma > mb ? ma - mb : mb - ma;
    if (d <= ulp) { CHECKM(r, "at most ulp steps apart"); sx_reach("near"); } if (d > 4 * (U)ulp + 2) { CHECKM(!r, "clearly more than ulp steps apart"); sx_reach("far"); }
}
extern "C" void c19_ulp() { if (sx_param(1)) ulpT<double, uint64_t>(); else ulpT<float, uint32_t>(); }
