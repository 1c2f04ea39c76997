#include "common.h"
#include <gul14/to_number.h>
using namespace gul14;
// ---- reference grammar ----
struct Gram { bool ok; bool inf; bool nan; bool neg; bool bigexp; };
static bool dig(char c) { return (unsigned)((unsigned char)c - '0') < 10u; }
static bool word(const char* p, size_t n, const char* w, size_t wn) { if (n != wn) return false; bool r = true; for (size_t i = 0; i < n; ++i) r = r & (lowerRef(p[i]) == w[i]); return r; }
static Gram gram(const char* p, size_t n) {
    Gram g{false, false, false, false, false}; size_t i = 0;
    if (n > 0 && sx_split(p[0] == '-')) { g.neg = true; i = 1; }
    const char* q = p + i; size_t k = n - i;
    if ((k == 3 && sx_split(word(q, k, "inf", 3))) || (k == 8 && sx_split(word(q, k, "infinity", 8)))) { g.ok = g.inf = true; return g; }
    if (k >= 3 && sx_split(word(q, 3, "nan", 3))) {
        if (k == 3) { g.ok = g.nan = true; return g; }
        if (k < 5 || sx_split(q[3] != '(') || sx_split(q[k - 1] != ')')) return g;
        bool all = true; for (size_t j = 4; j + 1 < k; ++j) all = all & (dig(q[j]) | ((unsigned)((unsigned char)lowerRef(q[j]) - 'a') < 26u) | (q[j] == '_'));
        g.ok = g.nan = all; return g;
    }
    size_t digits = 0; while (i < n && sx_split(dig(p[i]))) { ++i; ++digits; }
    if (i < n && sx_split(p[i] == '.')) { ++i; while (i < n && sx_split(dig(p[i]))) { ++i; ++digits; } }
    if (digits == 0) return g;
    if (i == n) { g.ok = true; return g; }
    if (!sx_split((p[i] == 'e') | (p[i] == 'E'))) return g;
    ++i; if (i < n && sx_split((p[i] == '+') | (p[i] == '-'))) ++i;
    if (i == n) return g;
    uint64_t ev = 0; for (; i < n; ++i) { if (!sx_split(dig(p[i]))) return g; ev = ev * 10 + (unsigned)(p[i] - '0'); }
    if (sx_split(ev > 2147483647)) g.bigexp = true;
    g.ok = true; return g;
}
template <typename T> static bool isNan(T v) { return v != v; }
template <typename T> static bool isInf(T v) { return v > std::numeric_limits<T>::max() || v < -std::numeric_limits<T>::max(); }
template <typename T> static void judge(const char* p, size_t n) {
    Gram g = gram(p, n); auto r = to_number<T>(string_view(p, n));
    if (g.bigexp) sx_end(); // exponent beyond int: accepted or rejected
    CHECKM(r.has_value() == g.ok, "text accepted or rejected against the grammar");
    if (g.ok && g.nan) { CHECKM(isNan(*r), "NaN expected"); sx_reach("nan"); }
    if (g.ok && g.inf) { CHECKM(*r == (g.neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity()), "infinity expected"); sx_reach("inf"); }
    sx_observe(r.has_value()); sx_reach(g.ok ? "accepted" : "rejected");
}
template <typename F> static void types(F f) { switch (sx_param(0)) { case 0: f(float{}); break; case 1: f(double{}); break; default: f((long double)0); } }
template <typename T> static int64_t key(T v);
template <> int64_t key(float v) { int32_t k; __builtin_memcpy(&k, &v, 4); return k; }
template <> int64_t key(double v) { int64_t k; __builtin_memcpy(&k, &v, 8); return k; }
template <typename T> static bool near(T a, T b, int ulp) { uint64_t x = (uint64_t)key(a), y = (uint64_t)key(b); return x - y + (uint64_t)ulp <= 2 * (uint64_t)ulp; }
template <> bool near(long double a, long double b, int ulp) {
    struct B { uint64_t m; uint16_t e; } x{}, y{}; __builtin_memcpy(&x, &a, 10); __builtin_memcpy(&y, &b, 10); if ((x.e ^ y.e) & 0x8000) return false;
    unsigned ex = x.e & 0x7fff, ey = y.e & 0x7fff; if (ex < ey) { auto t = x; x = y; y = t; auto u = ex; ex = ey; ey = u; }
    if (ey == 0x7fff) return ex == ey; if (ex == 0x7fff) return ey == 0x7ffe && y.m >= (uint64_t)-(int64_t)ulp;
    if (ex == ey || (ex == 1 && ey == 0)) return (x.m > y.m ? x.m - y.m : y.m - x.m) <= (uint64_t)ulp;
    return ex == ey + 1 && x.m - 0x8000000000000000u <= (uint64_t)ulp && 0 - y.m <= (uint64_t)(2 * ulp);
}
template <typename T> static void value(const char* z, int ulp) {
    size_t n = 0; while (z[n]) ++n; auto r = to_number<T>(string_view(z, n)); CHECKM(r.has_value(), "number rejected"); long double ref = sx_strtold(z, nullptr); T want = (T)ref;
    CHECKM(near<T>(*r, want, ulp), "wrong value"); sx_reach("value");
}
// arbitrary text of length p1
extern "C" void c02_any() { SxBuf b("s", (size_t)sx_param(1)); types([&](auto t) { judge<decltype(t)>(b.p, b.n); }); }
// words: arbitrary text of length p1 that begins with i, I, n or N (after an optional minus)
extern "C" void c02_word() {
    SxBuf b("s", (size_t)sx_param(1)); size_t k = sx_split(b[0] == '-') ? 1 : 0; char c = lowerRef(b.p[k]); sx_assume((c == 'i') | (c == 'n'));
    types([&](auto t) { judge<decltype(t)>(b.p, b.n); });
}
// long numbers: p1 digits, a point before digit p2, and one arbitrary byte at any position
extern "C" void c02_long() {
    size_t n = (size_t)sx_param(1), pt = (size_t)sx_param(2); SxBuf b(n + (pt <= n ? 1 : 0)); size_t o = 0;
    for (size_t i = 0; i < n; ++i) { if (i == pt) b.p[o++] = '.'; b.p[o++] = (char)('0' + (i * 7 + 3) % 10); } if (pt == n) b.p[o++] = '.';
    size_t at = sx_conc(sx_pick("at", (uint32_t)b.n)); b.p[at] = (char)sx_sym("c", 8);
    if (sx_split(dig(b.p[at]))) { b.p[at] = (char)sx_conc((unsigned char)b.p[at]); char z[64]; for (size_t i = 0; i < b.n; ++i) z[i] = b.p[i]; z[b.n] = 0; types([&](auto t) { value<decltype(t)>(z, sx_param(0) == 2 ? 20 : 4); }); return; }
    types([&](auto t) { judge<decltype(t)>(b.p, b.n); });
}
// exponents: a short mantissa and p1 arbitrary exponent bytes
extern "C" void c02_exp() {
    static const char* const mant[] = {"10", "0.01", ".5", "1.", "000100", "0.000000"}; const char* m = mant[sx_conc(sx_pick("m", 6))]; size_t k = 0; while (m[k]) ++k;
    size_t n = (size_t)sx_param(1); SxBuf b(k + 1 + n); for (size_t i = 0; i < k; ++i) b.p[i] = m[i]; b.p[k] = sx_split(sx_bool("E")) ? 'E' : 'e';
    if (n <= 3) for (size_t i = 0; i < n; ++i) b.p[k + 1 + i] = (char)sx_sym("x", 8);
    else { // sign and a number near the limit of int, with one arbitrary byte
        static const char lim[] = "000002147483647"; b.p[k + 1] = "+-0"[sx_conc(sx_pick("sign", 3))]; for (size_t i = 1; i < n; ++i) b.p[k + 1 + i] = lim[15 - (n - i)];
        b.p[k + 1 + sx_conc(sx_pick("at", (uint32_t)n))] = (char)sx_sym("x", 8);
    }
    types([&](auto t) { judge<decltype(t)>(b.p, b.n); });
}
// values: every three digits in six layouts, with exponents 10*p1 .. 10*p1+9, p2: number of layouts
extern "C" void c02_value() {
    unsigned dd = (unsigned)sx_conc(sx_pick("d", 1000)); char a = (char)('0' + dd / 100), b = (char)('0' + dd / 10 % 10), c = (char)('0' + dd % 10);
    char z[64]; size_t o = 0; if (sx_conc(sx_pick("neg", 2))) z[o++] = '-';
    switch (sx_conc(sx_pick("layout", 6))) {
    case 0: z[o++] = a; z[o++] = b; z[o++] = c; break;
    case 1: z[o++] = a; z[o++] = '.'; z[o++] = b; z[o++] = c; break;
    case 2: z[o++] = '.'; z[o++] = a; z[o++] = b; z[o++] = c; break;
    case 3: z[o++] = '0'; z[o++] = '0'; z[o++] = a; z[o++] = b; z[o++] = '.'; z[o++] = c; z[o++] = '0'; break;
    case 4: z[o++] = a; for (int i = 0; i < 21; ++i) z[o++] = (char)('0' + (i * 3 + 1) % 10); z[o++] = b; z[o++] = '.'; z[o++] = c; break;
    default: z[o++] = '0'; z[o++] = '.'; z[o++] = '0'; z[o++] = '0'; z[o++] = a; for (int i = 0; i < 20; ++i) z[o++] = (char)('0' + (i * 7 + 2) % 10); z[o++] = b; z[o++] = c; break;
    }
    z[o] = 0; types([&](auto t) { value<decltype(t)>(z, sx_param(0) == 2 ? 16 : 4); });
}
// decided bit-precisely by the solver: p1 arbitrary digits, a point after p2 of them, exponent p3; the digits denote exactly this number, up to rounding
extern "C" void c02_sym() {
    size_t n = (size_t)sx_param(1), pt = (size_t)sx_param(2); int e = (int)sx_param(3); SxBuf b(n + 5); size_t o = 0; uint64_t v = 0; bool neg = sx_split(sx_bool("neg")); if (neg) b.p[o++] = '-';
    for (size_t i = 0; i < n; ++i) { if (i == pt) b.p[o++] = '.'; char c = (char)sx_sym("digit", 8); sx_assume(dig(c)); if (i == 0) sx_assume(c != '0'); v = v * 10 + (unsigned)(c - '0'); b.p[o++] = c; }
    if (e) { b.p[o++] = 'e'; if (e < 0) b.p[o++] = '-'; b.p[o++] = (char)('0' + (e < 0 ? -e : e)); }
    int net = e - (pt < n ? (int)(n - pt) : 0); uint64_t p = 1; for (int i = 0; i < (net < 0 ? -net : net); ++i) p *= 10;
    types([&](auto t) { using T = decltype(t); T want = net >= 0 ? (T)(v * p) : (T)v / (T)p; if (neg) want = -want; auto r = to_number<T>(string_view(b.p, o)); CHECK(r.has_value()); CHECKM(near<T>(*r, want, 2), "value"); });
    sx_reach("sym");
}
// every exponent 100*p1 .. 100*p1+99 (p2: 1 negative)
extern "C" void c02_scale() {
    int e = (int)sx_param(1) * 100 + (int)sx_conc(sx_pick("e", 100)); bool en = sx_param(2) != 0; static const char* const mant[] = {"1", "9.99", "0.00125", "12345678901234567890123", "500."}; const char* m = mant[sx_conc(sx_pick("m", 5))];
    char z[64]; size_t o = 0; if (sx_conc(sx_pick("neg", 2))) z[o++] = '-'; while (*m) z[o++] = *m++; z[o++] = sx_conc(sx_pick("E", 2)) ? 'E' : 'e'; if (en) z[o++] = '-'; else if (sx_conc(sx_pick("plus", 2))) z[o++] = '+';
    char t[8]; int k = 0, v = e; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) z[o++] = t[--k]; z[o] = 0;
    types([&](auto q) { value<decltype(q)>(z, sx_param(0) == 2 ? (en && e > 4900 ? 32 : 20) : 4); });
}
extern "C" void c02_bool() {
    SxBuf b("s", (size_t)sx_param(0)); auto r = to_number<bool>(string_view(b.p, b.n)); bool t = (b.n == 1 && b[0] == '1') || word(b.p, b.n, "true", 4), f = (b.n == 1 && b[0] == '0') || word(b.p, b.n, "false", 5);
    CHECK(r.has_value() == (t || f)); if (r) { CHECK(*r == t); sx_reach("bool"); }
}
