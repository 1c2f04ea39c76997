#include "common.h"
#include <array>
#include <cmath>
#include <cstring>
#include <list>
#include <vector>
#include <gul14/statistics.h>
using namespace gul14;
template <typename T> static T mk(const char* n) { return sx_make<T>(n); }
template <> float mk<float>(const char* n) { uint32_t u = (uint32_t)sx_sym(n, 32); float f; memcpy(&f, &u, 4); return f; }
template <> double mk<double>(const char* n) { uint64_t u = sx_sym(n, 64); double f; memcpy(&f, &u, 8); return f; }
struct Item { char tag; short v; };
static short itemVal(const Item& i) { return i.v; }
static bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return (x == y) | (a == b) | ((a != a) & (b != b)); } // no branches: identical computations are recognised without the solver
// extremes: params type, n
template <typename T> static void ext() {
    size_t n = (size_t)sx_param(1); const bool fl = std::is_floating_point<T>::value; std::vector<T> v(n); for (auto& x : v) x = mk<T>("x"); const std::vector<T> orig = v;
    bool any = false; T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest(); for (T x : orig) if (sx_split(x == x)) { if (!any || sx_split(x < lo)) lo = x; if (!any || sx_split(hi < x)) hi = x; any = true; }
    T a = minimum(v), b = maximum(v); auto mm = min_max(v); T a2 = minimum(v.begin(), v.end()), b2 = maximum(v.cbegin(), v.cend()); auto mm2 = min_max(v.begin(), v.end());
    if (any || !fl) { CHECKM(a == lo && a2 == lo, "minimum"); CHECKM(b == hi && b2 == hi, "maximum"); CHECKM(mm.min == lo && mm.max == hi && mm2.min == lo && mm2.max == hi, "min_max"); sx_reach("ext"); }
    else { CHECKM(a != a && b != b && mm.min != mm.min && mm.max != mm.max && a2 != a2 && b2 != b2 && mm2.min != mm2.min && mm2.max != mm2.max, "extremes of no numbers are NaN"); sx_reach("nan"); }
    for (size_t i = 0; i < n; ++i) CHECKM(memcmp(&v[i], &orig[i], sizeof(T)) == 0, "data unmodified"); if (!fl) { sx_observe((uint64_t)a); sx_observe((uint64_t)b); }
}
extern "C" void c20_ext() { switch (sx_param(0)) { case 0: ext<int>(); break; case 1: ext<unsigned char>(); break; case 2: ext<int64_t>(); break; case 3: ext<float>(); break; case 4: ext<double>(); break; case 5: ext<uint64_t>(); break; } }
// median: params type, n
template <typename T> static void med() {
    size_t n = (size_t)sx_param(1); std::vector<T> v(n); for (auto& x : v) { x = mk<T>("x"); sx_assume(x == x); } const std::vector<T> orig = v;
    double m = median(v), m2 = median(v.begin(), v.end()); CHECKM(same(m, m2), "iterator form"); for (size_t i = 0; i < n; ++i) CHECKM(memcmp(&v[i], &orig[i], sizeof(T)) == 0, "data unmodified");
    if (n == 0) { CHECKM(m != m, "median of nothing is NaN"); sx_reach("empty"); return; }
    std::vector<T> s = orig; for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && sx_split(s[j] < s[j - 1]); --j) std::swap(s[j], s[j - 1]);
    if (n >= 4 && sizeof(T) > 1) for (size_t i = 1; i < n; ++i) sx_assume(s[i - 1] < s[i]); // ties: covered with the one-byte type
    double e = n % 2 ? (double)s[n / 2] : (double)s[n / 2] / 2 + (double)s[n / 2 - 1] / 2; CHECKM(same(m, e), "median"); sx_reach("median");
    Item it[5]; if (n <= 5 && sizeof(T) == 2) { for (size_t i = 0; i < n; ++i) it[i] = Item{'x', (short)orig[i]}; std::vector<Item> iv(it, it + n); CHECKM(same(median(iv, itemVal), e), "median through an accessor"); CHECKM(same(median(iv.begin(), iv.end(), itemVal), e), "median through an accessor and iterators"); }
}
extern "C" void c20_med() { switch (sx_param(0)) { case 0: med<int>(); break; case 1: med<short>(); break; case 2: med<uint64_t>(); break; case 3: med<double>(); break; case 4: med<unsigned char>(); break; } }
// sums: params type, n.  The reference adds in container order, as a left fold.
template <typename T> static void sums() {
    size_t n = (size_t)sx_param(1); std::vector<T> v(n); for (auto& x : v) x = mk<T>("x"); const std::vector<T> orig = v;
    double s = 0, q = 0; for (T x : orig) { s += (double)x; q += (double)x * (double)x; } double me = s / (double)n;
    CHECKM(same(mean(v), me), "mean"); CHECKM(same(mean(v.begin(), v.end()), me), "mean of a range"); CHECKM(same(rms(v), std::sqrt(q / (double)n)), "rms"); CHECKM(same(rms(v.cbegin(), v.cend()), std::sqrt(q / (double)n)), "rms of a range");
    auto sd = standard_deviation(v); auto sd2 = standard_deviation(v.begin(), v.end()); double d = 0; for (T x : orig) d += ((double)x - me) * ((double)x - me); double sg = n < 2 ? (double)NAN : std::sqrt(d / (double)(n - 1));
    CHECKM(same(sd.sigma(), sg) && same((double)sd, sg), "standard deviation"); CHECKM(same(sd2.sigma(), sg), "standard deviation of a range"); CHECKM(same(sd.mean(), n ? me : (double)NAN) && same(sd2.mean(), n ? me : (double)NAN), "mean of the standard deviation");
    CHECKM(same(gul14::accumulate(v, [](double a, T b) { return a + (double)b; }), s), "accumulate"); CHECKM(same(gul14::accumulate(v.begin(), v.end(), [](double a, T b) { return a - (double)b; }), [&] { double r = 0; for (T x : orig) r -= (double)x; return r; }()), "accumulate in order");
    for (size_t i = 0; i < n; ++i) CHECKM(memcmp(&v[i], &orig[i], sizeof(T)) == 0, "data unmodified"); sx_reach("sums");
    if (sizeof(T) == 2) { std::vector<Item> iv; for (T x : orig) iv.push_back(Item{'y', (short)x}); CHECKM(same(mean(iv, itemVal), me) && same(rms(iv, itemVal), std::sqrt(q / (double)n)) && same(standard_deviation(iv, itemVal), sg), "statistics through an accessor"); auto mm = min_max(iv, itemVal); CHECKM(mm.min == minimum(iv, itemVal) && mm.max == maximum(iv, itemVal) && mm.min == minimum(orig) && mm.max == maximum(orig), "extremes through an accessor"); }
}
extern "C" void c20_sums() { switch (sx_param(0)) { case 0: sums<int>(); break; case 1: sums<short>(); break; case 2: sums<double>(); break; case 3: sums<float>(); break; case 4: sums<unsigned char>(); break; } }
// outliers: repeatedly drop the (first) element farthest from the mean.  param n
extern "C" void c20_out() {
    size_t n = (size_t)sx_param(0); std::vector<signed char> v(n); for (auto& x : v) { x = mk<signed char>("x"); sx_assume(x >= -16 && x <= 15); if (n == 3) { sx_assume(x >= -2 && x <= 2); x = (signed char)sx_conc((uint64_t)(int64_t)x); } } size_t k = sx_pick("k", (uint32_t)n + 2);
    std::vector<signed char> ref = v; for (size_t r = 0; r < k && !ref.empty(); ++r) { int s = 0; for (int x : ref) s += x; int m = (int)ref.size(); size_t far = 0; for (size_t i = 1; i < ref.size(); ++i) { int a = ref[far] * m - s, b = ref[i] * m - s; if (sx_split((a < 0 ? -a : a) < (b < 0 ? -b : b))) far = i; } ref.erase(ref.begin() + (long)far); }
    const std::vector<signed char> c = v; auto r2 = remove_outliers(c, k); std::vector<signed char> w = v; auto& r1 = remove_outliers(std::move(w), k); CHECKM(&r1 == &w, "works in place"); CHECKM(c == v, "the copying form leaves its argument alone");
    CHECKM(w.size() == ref.size() && r2.size() == ref.size(), "number of remaining elements"); CHECKM(w == r2, "copying and in-place forms agree"); sx_reach("outliers");
    // ties in exact arithmetic may be broken differently by rounding: compare only when the farthest element was unique
    bool uniq = true; std::vector<signed char> t = v; for (size_t r = 0; r < k && !t.empty(); ++r) { int s = 0; for (int x : t) s += x; int m = (int)t.size(); size_t far = 0; int best = -1, cnt = 0; for (size_t i = 0; i < t.size(); ++i) { int a = t[i] * m - s; if (a < 0) a = -a; if (sx_split(a > best)) { best = a; far = i; cnt = 1; } else if (sx_split(a == best)) ++cnt; } if (cnt > 1) uniq = false; t.erase(t.begin() + (long)far); }
    if (uniq) { for (size_t i = 0; i < ref.size(); ++i) CHECKM(w[i] == ref[i], "the farthest elements are removed, the others keep their order"); sx_reach("unique"); }
}
