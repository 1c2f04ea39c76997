#include "common.h"
#include <gul14/cat.h>
#include <gul14/string_util.h>
#include <array>
using namespace gul14;
// the text is the shortest decimal form of v
template <typename T> static void decimalOf(const std::string& s, T v, const char* what) {
    bool neg = v < 0; using U = std::make_unsigned_t<T>; U mag = neg ? (U)(0 - (U)v) : (U)v; size_t n = s.size();
    sx_check(n >= 1 + (size_t)neg, what); sx_check((s[0] == '-') == neg, what);
    size_t o = neg ? 1 : 0; U x = 0; bool dig = true; for (size_t i = o; i < n; ++i) { unsigned d = (unsigned char)s[i] - 48u; dig = dig & (d < 10); x = (U)(x * 10 + d); }
    sx_check(dig, what); sx_check(n == o + 1 || s[o] != '0', what); sx_check(x == mag, what);
    sx_check(n - o <= (sizeof(T) == 4 ? 10 : v < 0 || std::is_signed<T>::value ? 19 : 20), what); sx_observe(n); sx_observe(x);
}
// params: type, region (0: within 2^bits of zero, 1: of the maximum, 2: of the minimum), bits
template <typename T> static void num() {
    T lim = sx_param(1) == 0 ? 0 : sx_param(1) == 1 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); long bits = sx_param(2); using U = std::make_unsigned_t<T>;
    U d = (U)sx_sym("v", (unsigned)bits); bool up = sx_param(1) != 1; T v = (T)(up ? (U)lim + d : (U)lim - d); if (sx_param(1) == 0 && std::is_signed<T>::value && sx_param(3)) v = (T)((U)lim - d);
    std::string s = cat(v); decimalOf(s, v, "cat(number)");
    std::string m = cat("x", v, 'y'); sx_check(m.size() == s.size() + 2 && m[0] == 'x' && m[m.size() - 1] == 'y' && sameBytes(m.data() + 1, s.data(), s.size()), "cat(text, number, char)"); sx_reach("num");
}
extern "C" void c11_num() { switch (sx_param(0)) { case 0: num<int>(); break; case 1: num<unsigned>(); break; case 2: num<long>(); break; case 3: num<unsigned long>(); break; case 4: num<long long>(); break; case 5: num<unsigned long long>(); break; } }
extern "C" void c11_flt() {
    same(cat(1.5), "1.500000", 8, "cat(double)"); same(cat(-0.25f), "-0.250000", 9, "cat(float)"); same(cat(1e15, "|", 16777217.0, "|", 0.1f, "|", -3.0), "1000000000000000.000000|16777217.000000|0.100000|-3.000000", 58, "cat(doubles)"); sx_reach("flt");
}
extern "C" void c11_cat() {
    size_t a = (size_t)sx_param(0), b = (size_t)sx_param(1), c = (size_t)sx_param(2); SxBuf A("a", a), B("b", b), Z("z", c + 1); char ch = sx_make<char>("ch"); for (size_t i = 0; i < c; ++i) sx_assume(Z.p[i] != 0); Z.p[c] = 0;
    std::string S(A.p, a); string_view V(B.p, b); const char* z = Z.p; Ref e;
    CHECK(cat().empty()); same(cat(S), A.p, a, "cat(string)"); same(cat(V), B.p, b, "cat(view)"); same(cat(z), Z.p, c, "cat(C string)"); same(cat(ch), &ch, 1, "cat(char)");
    e.n = 0; e.app(A.p, a); e.app(B.p, b); same(cat(S, V), e, "cat2"); e.n = 0; e.put(ch); e.app(Z.p, c); same(cat(ch, z), e, "cat2");
    e.n = 0; e.app(B.p, b); e.put(ch); e.app(A.p, a); same(cat(V, ch, S), e, "cat3"); e.n = 0; e.app(Z.p, c); e.app("42"); e.app(Z.p, c); same(cat(z, 42, z), e, "cat3");
    e.n = 0; e.app(A.p, a); e.app(B.p, b); e.app(Z.p, c); e.put(ch); same(cat(S, V, z, ch), e, "cat4");
    e.n = 0; e.put(ch); e.app("-7"); e.app(A.p, a); e.app(B.p, b); e.put(ch); e.app(Z.p, c); std::string r = cat(ch, -7, S, V, ch, z); same(r, e, "cat6"); observe(r); sx_reach("cat");
}
extern "C" void c11_repeat() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxBuf t("t", n); std::string r = repeat(string_view(t.p, n), k);
    CHECK(r.size() == n * k); bool ok = true; for (size_t i = 0; i < n * k; ++i) ok = ok & (r[i] == t.p[i % n]); CHECK(ok); observe(r); sx_reach("repeat");
}
// buffer of exactly n bytes; length is arbitrary as long as a NUL or the length ends the text inside the buffer
extern "C" void c11_safe() {
    size_t n = (size_t)sx_param(0); SxBuf t("t", n); size_t len = sx_make<size_t>("len"); bool nul = false; for (size_t i = 0; i < n; ++i) nul = nul | (t.p[i] == 0);
    sx_assume(len <= n || nul); sx_assume(len <= (size_t)sx_param(1)); len = sx_conc(len); size_t e = len; for (size_t i = n; i-- > 0;) if (i < len) e = t.p[i] == 0 ? i : e; e = sx_conc(e);
    std::string r = safe_string(t.p, len); same(r, t.p, e, "safe_string"); observe(r); CHECK(safe_string(nullptr, len).empty()); sx_reach("safe");
}
static char hexc(unsigned v) { v &= 15; return (char)(v < 10 ? 48 + v : 87 + v); }
template <typename T> static void hexOf(Ref& e, T v) { for (int i = (int)sizeof(T) * 2 - 1; i >= 0; --i) e.put(hexc((unsigned)((std::make_unsigned_t<T>)v >> (4 * i)))); }
template <typename T> static void hexv() {
    T v = sx_make<T>("v"); Ref e; hexOf(e, v); std::string s = hex_string(v); same(s, e, "hex_string(integer)"); observe(s);
    size_t k = (size_t)sx_param(1), n = (size_t)sx_param(2); SxBuf sep("sep", k); string_view S(sep.p, k); std::vector<T> x; for (size_t i = 0; i < n; ++i) x.push_back(sx_make<T>("x"));
    Ref f, g; for (size_t i = 0; i < n; ++i) { if (i) f.app(sep.p, k); hexOf(f, x[i]); hexOf(g, x[i]); }
    same(hex_string(x, S), f, "hex_string(container, separator)"); same(hex_string(x.begin(), x.end(), S), f, "hex_string(range, separator)"); same(hex_string(x), g, "hex_string(container)"); same(hex_string(x.begin(), x.end()), g, "hex_string(range)");
    std::list<T> l(x.begin(), x.end()); same(hex_string(l.begin(), l.end(), S), f, "hex_string(list range, separator)");
    T arr[2] = {v, (T)(v ^ 1)}; Ref h; hexOf(h, arr[0]); h.app(sep.p, k); hexOf(h, arr[1]); same(hex_string(arr, S), h, "hex_string(array, separator)"); std::array<T, 2> ar{{arr[0], arr[1]}}; same(hex_string(ar, S), h, "hex_string(std::array)");
    const T carr[1] = {v}; same(hex_string(carr), e, "hex_string(array)"); sx_reach("hex");
}
extern "C" void c11_hex() { switch (sx_param(0)) { case 0: hexv<char>(); break; case 1: hexv<signed char>(); break; case 2: hexv<unsigned char>(); break; case 3: hexv<short>(); break; case 4: hexv<unsigned short>(); break; case 5: hexv<int>(); break; case 6: hexv<unsigned>(); break; case 7: hexv<long>(); break; case 8: hexv<unsigned long long>(); break; } }
