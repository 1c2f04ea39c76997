#include "common.h"
#include <gul14/string_view.h>
#include <sstream>
#include <iomanip>
using namespace gul14;
static const size_t NP = (size_t)-1;
static bool at(const char* h, const char* s, size_t k) { bool q = true; for (size_t j = 0; j < k; ++j) q = q & (h[j] == s[j]); return q; }
static size_t refFind(const SxBuf& t, const char* s, size_t k, size_t pos) { size_t r = NP; for (size_t i = t.n + 1; i-- > 0;) if (i + k <= t.n) r = ((i >= pos) & at(t.p + i, s, k)) ? i : r; return r; }
static size_t refRfind(const SxBuf& t, const char* s, size_t k, size_t pos) { size_t r = NP; for (size_t i = 0; i + k <= t.n; ++i) r = ((i <= pos) & at(t.p + i, s, k)) ? i : r; return r; }
static size_t refFirst(const SxBuf& t, const char* s, size_t k, size_t pos, bool in) { size_t r = NP; for (size_t i = t.n; i-- > 0;) r = ((i >= pos) & (inSet(t[i], s, k) == in)) ? i : r; return r; }
static size_t refLast(const SxBuf& t, const char* s, size_t k, size_t pos, bool in) { size_t r = NP; for (size_t i = 0; i < t.n; ++i) r = ((i <= pos) & (inSet(t[i], s, k) == in)) ? i : r; return r; }
// params: text length, needle length, operation
extern "C" void c10_find() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); long op = sx_param(2);
    SxBuf t("t", n), s("s", k); string_view T(t.p, n), S(s.p, k); size_t pos = sx_make<size_t>("pos"); size_t r = 0, e = 0, r2 = 0, rd = 0, ed = 0;
    switch (op) {
    case 0: r = T.find(S, pos); r2 = T.find(s.p, pos, k); e = refFind(t, s.p, k, pos); rd = T.find(S); ed = refFind(t, s.p, k, 0); break;
    case 1: r = T.rfind(S, pos); r2 = T.rfind(s.p, pos, k); e = refRfind(t, s.p, k, pos); rd = T.rfind(S); ed = refRfind(t, s.p, k, NP); break;
    case 2: r = T.find_first_of(S, pos); r2 = T.find_first_of(s.p, pos, k); e = refFirst(t, s.p, k, pos, true); rd = T.find_first_of(S); ed = refFirst(t, s.p, k, 0, true); break;
    case 3: r = T.find_last_of(S, pos); r2 = T.find_last_of(s.p, pos, k); e = refLast(t, s.p, k, pos, true); rd = T.find_last_of(S); ed = refLast(t, s.p, k, NP, true); break;
    case 4: r = T.find_first_not_of(S, pos); r2 = T.find_first_not_of(s.p, pos, k); e = refFirst(t, s.p, k, pos, false); rd = T.find_first_not_of(S); ed = refFirst(t, s.p, k, 0, false); break;
    case 5: r = T.find_last_not_of(S, pos); r2 = T.find_last_not_of(s.p, pos, k); e = refLast(t, s.p, k, pos, false); rd = T.find_last_not_of(S); ed = refLast(t, s.p, k, NP, false); break;
    }
    CHECKM(r == e, "search result"); CHECKM(r2 == e, "search result (pointer, count)"); CHECKM(rd == ed, "search result (default position)"); sx_observe(r); sx_observe(rd);
    if (r == NP) sx_reach("none"); else sx_reach("found");
}
// character and C string overloads
extern "C" void c10_chr() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); long op = sx_param(2); SxBuf t("t", n), z("z", k + 1); char c = sx_make<char>("c"); string_view T(t.p, n);
    size_t pos = op < 2 ? sx_make<size_t>("pos") : 0, end = op < 2 ? pos : NP;   // forms 2, 3: default position
    if (op % 2) {
        for (size_t i = 0; i < k; ++i) sx_assume(z.p[i] != 0); z.p[k] = 0; string_view Z(z.p); CHECK(Z.size() == k); CHECK(Z.data() == z.p); const char* y = z.p;
        switch (sx_pick("family", 6)) {
        case 0: CHECK((op < 2 ? T.find(y, pos) : T.find(y)) == refFind(t, y, k, pos)); break; case 1: CHECK((op < 2 ? T.rfind(y, pos) : T.rfind(y)) == refRfind(t, y, k, end)); break;
        case 2: CHECK((op < 2 ? T.find_first_of(y, pos) : T.find_first_of(y)) == refFirst(t, y, k, pos, true)); break; case 3: CHECK((op < 2 ? T.find_last_of(y, pos) : T.find_last_of(y)) == refLast(t, y, k, end, true)); break;
        case 4: CHECK((op < 2 ? T.find_first_not_of(y, pos) : T.find_first_not_of(y)) == refFirst(t, y, k, pos, false)); break; default: CHECK((op < 2 ? T.find_last_not_of(y, pos) : T.find_last_not_of(y)) == refLast(t, y, k, end, false));
        }
    } else switch (sx_pick("family", 6)) {
        case 0: CHECK((op < 2 ? T.find(c, pos) : T.find(c)) == refFind(t, &c, 1, pos)); break; case 1: CHECK((op < 2 ? T.rfind(c, pos) : T.rfind(c)) == refRfind(t, &c, 1, end)); break;
        case 2: CHECK((op < 2 ? T.find_first_of(c, pos) : T.find_first_of(c)) == refFind(t, &c, 1, pos)); break; case 3: CHECK((op < 2 ? T.find_last_of(c, pos) : T.find_last_of(c)) == refRfind(t, &c, 1, end)); break;
        case 4: CHECK((op < 2 ? T.find_first_not_of(c, pos) : T.find_first_not_of(c)) == refFirst(t, &c, 1, pos, false)); break; default: CHECK((op < 2 ? T.find_last_not_of(c, pos) : T.find_last_not_of(c)) == refLast(t, &c, 1, end, false));
    }
    sx_reach("chr");
}
static int sgn(int x) { return (x > 0) - (x < 0); }
// reference three-way comparison of [a,a+x) and [b,b+y)
static int refCmp(const char* a, size_t x, const char* b, size_t y) {
    int r = (x > y) - (x < y); size_t m = x < y ? x : y;
    for (size_t i = m; i-- > 0;) { unsigned char p = (unsigned char)a[i], q = (unsigned char)b[i]; r = p < q ? -1 : (p > q ? 1 : r); }
    return r;
}
extern "C" void c10_cmp() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxBuf t("t", n), s("s", k); string_view T(t.p, n), S(s.p, k); int e = refCmp(t.p, n, s.p, k);
    CHECK(sgn(T.compare(S)) == e); CHECK(sgn(S.compare(T)) == -e);
    CHECK((T == S) == (e == 0)); CHECK((T != S) == (e != 0)); CHECK((T < S) == (e < 0)); CHECK((T > S) == (e > 0)); CHECK((T <= S) == (e <= 0)); CHECK((T >= S) == (e >= 0));
    std::string y(s.p, k);
    CHECK((T == y) == (e == 0)); CHECK((T != y) == (e != 0)); CHECK((T < y) == (e < 0)); CHECK((T > y) == (e > 0)); CHECK((T <= y) == (e <= 0)); CHECK((T >= y) == (e >= 0));
    CHECK((y == T) == (e == 0)); CHECK((y != T) == (e != 0)); CHECK((y < T) == (e > 0)); CHECK((y > T) == (e < 0)); CHECK((y <= T) == (e >= 0)); CHECK((y >= T) == (e <= 0));
    sx_observe(sgn(T.compare(S))); if (e == 0) sx_reach("equal"); else sx_reach("unequal");
}
extern "C" void c10_cmpz() { // against NUL-terminated text
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxBuf t("t", n), z("z", k + 1); string_view T(t.p, n); for (size_t i = 0; i < k; ++i) sx_assume(z.p[i] != 0); z.p[k] = 0;
    const char* y = z.p; int e = refCmp(t.p, n, z.p, k); CHECK(sgn(T.compare(y)) == e);
    CHECK((T == y) == (e == 0)); CHECK((T != y) == (e != 0)); CHECK((T < y) == (e < 0)); CHECK((T > y) == (e > 0)); CHECK((T <= y) == (e <= 0)); CHECK((T >= y) == (e >= 0));
    CHECK((y == T) == (e == 0)); CHECK((y != T) == (e != 0)); CHECK((y < T) == (e > 0)); CHECK((y > T) == (e < 0)); CHECK((y <= T) == (e >= 0)); CHECK((y >= T) == (e <= 0));
    size_t p1 = sx_make<size_t>("p1"), n1 = sx_make<size_t>("n1"); bool thrown = false; int r = 0; try { r = T.compare(p1, n1, y); } catch (const std::out_of_range&) { thrown = true; }
    CHECK(thrown == (p1 > n)); if (!thrown) { size_t q = sx_conc(p1), l = sx_conc(n1 < n - q ? n1 : n - q); CHECK(sgn(r) == refCmp(t.p + q, l, y, k)); }
    sx_observe(thrown);
}
// compare of sub-ranges with arbitrary 64-bit positions and counts
extern "C" void c10_cmpsub() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); long form = sx_param(2); SxBuf t("t", n), s("s", k); string_view T(t.p, n), S(s.p, k);
    size_t p1 = sx_make<size_t>("p1"), n1 = sx_make<size_t>("n1"), p2 = 0, n2 = k; if (form == 1) { p2 = sx_make<size_t>("p2"); n2 = sx_make<size_t>("n2"); }
    bool thrown = false; int r = 0;
    try { r = form == 0 ? T.compare(p1, n1, S) : form == 1 ? T.compare(p1, n1, S, p2, n2) : T.compare(p1, n1, s.p, k); } catch (const std::out_of_range&) { thrown = true; }
    bool et = p1 > n || p2 > k; CHECKM(thrown == et, "compare throws exactly for positions past the end"); sx_observe(thrown);
    if (thrown) { sx_reach("throw"); return; }
    size_t q1 = sx_conc(p1), l1 = sx_conc(n1 < n - q1 ? n1 : n - q1), q2 = sx_conc(p2), l2 = sx_conc(n2 < k - q2 ? n2 : k - q2);
    CHECKM(sgn(r) == refCmp(t.p + q1, l1, s.p + q2, l2), "compare of sub-ranges"); sx_observe(sgn(r)); sx_reach("cmpsub");
}
extern "C" void c10_sub() {
    size_t n = (size_t)sx_param(0); SxBuf t("t", n); string_view T(t.p, n); size_t pos = sx_make<size_t>("pos"), cnt = sx_make<size_t>("cnt");
    CHECK(T.size() == n && T.length() == n && T.empty() == (n == 0)); CHECK(T.data() == t.p); CHECK(T.begin() == t.p && T.end() == t.p + n && T.cbegin() == t.p && T.cend() == t.p + n);
    { size_t i = n; for (auto it = T.rbegin(); it != T.rend(); ++it) CHECK(*it == t.p[--i]); CHECK(i == 0); i = n; for (auto it = T.crbegin(); it != T.crend(); ++it) CHECK(*it == t.p[--i]); CHECK(i == 0); }
    size_t rest = n - pos, want = cnt < rest ? cnt : rest;   // meaningful when pos <= n
    { bool th = false; string_view r; try { r = T.substr(pos, cnt); } catch (const std::out_of_range&) { th = true; } CHECKM(th == (pos > n), "substr throws exactly past the end"); sx_observe(th);
      if (!th) { CHECKM(r.size() == want, "substr length"); CHECKM(r.data() == t.p + pos, "substr start"); sx_observe(r.size()); sx_reach("sub"); } else sx_reach("throw"); }
    { bool th = false; string_view r; try { r = T.substr(pos); } catch (const std::out_of_range&) { th = true; } CHECK(th == (pos > n)); if (!th) { CHECK(r.size() == rest); CHECK(r.data() == t.p + pos); } }
    { bool th = false; char c = 0; try { c = T.at(pos); } catch (const std::out_of_range&) { th = true; } CHECK(th == (pos >= n)); if (!th) { size_t q = sx_conc(pos); CHECK(c == t.p[q]); CHECK(T[q] == t.p[q]); CHECK(T.front() == t.p[0] && T.back() == t.p[n - 1]); } }
    { string_view a = T, b = T; a.remove_prefix(pos); size_t m = pos < n ? pos : n; CHECK(a.size() == n - m); CHECK(a.data() == t.p + m); b.remove_suffix(pos); CHECK(b.size() == n - m); CHECK(b.data() == t.p);
      a.swap(b); CHECK(b.size() == n - m); CHECK(b.data() == t.p + m); CHECK(a.data() == t.p); }
}
extern "C" void c10_copy() {
    size_t n = (size_t)sx_param(0), m = (size_t)sx_param(1); SxBuf t("t", n), o("o", m), keep(m); for (size_t i = 0; i < m; ++i) keep.p[i] = o.p[i]; string_view T(t.p, n);
    size_t pos = sx_make<size_t>("pos"), cnt = sx_make<size_t>("cnt"); sx_assume(pos > n || (cnt < n - pos ? cnt : n - pos) <= m);   // destination large enough for what is copied
    bool th = false; size_t r = 0; try { r = T.copy(o.p, cnt, pos); } catch (const std::out_of_range&) { th = true; } CHECK(th == (pos > n));
    if (th) { CHECK(sameBytes(o.p, keep.p, m)); sx_reach("throw"); return; }
    size_t q = sx_conc(pos), l = sx_conc(cnt < n - q ? cnt : n - q); CHECK(r == l); sx_observe(r);
    for (size_t i = 0; i < m; ++i) CHECKM(o.p[i] == (i < l ? t.p[q + i] : keep.p[i]), "copied bytes"); sx_reach("copy");
}
extern "C" void c10_str() { // conversion to and concatenation with std::string
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxBuf t("t", n), s("s", k); string_view T(t.p, n);
    std::string a = static_cast<std::string>(T); same(a, t.p, n, "conversion to string");
    string_view back(a); CHECK(back.size() == n && back.data() == a.data());
    Ref ab, ba; ab.app(s.p, k); ab.app(t.p, n); ba.app(t.p, n); ba.app(s.p, k);
    std::string y(s.p, k); same(y + T, ab, "string + view"); same(T + y, ba, "view + string"); std::string z(y); std::string& zz = (z += T); CHECK(&zz == &z); same(z, ab, "string += view"); observe(z); sx_reach("str");
}
// the same algorithms on wider characters
template <typename C> static void wide() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); C* t = new C[n + 1]; C* s = new C[k + 1]; for (size_t i = 0; i < n; ++i) t[i] = sx_make<C>("t"); for (size_t i = 0; i < k; ++i) s[i] = sx_make<C>("s"); t[n] = s[k] = 0;
    basic_string_view<C> T(t, n), S(s, k); size_t r = T.find(S), e = NP, f = NP, g = NP; for (size_t i = n + 1; i-- > 0;) if (i + k <= n) { bool q = true; for (size_t j = 0; j < k; ++j) q = q & (t[i + j] == s[j]); e = q ? i : e; }
    for (size_t i = n; i-- > 0;) { bool q = false; for (size_t j = 0; j < k; ++j) q = q | (t[i] == s[j]); f = q ? i : f; g = q ? g : i; }
    CHECK(r == e); CHECK(T.find_first_of(S) == f); CHECK(T.find_first_not_of(S) == g); size_t m = n < k ? n : k; int c = (n > k) - (n < k); for (size_t i = m; i-- > 0;) c = t[i] < s[i] ? -1 : (t[i] > s[i] ? 1 : c); CHECK(sgn(T.compare(S)) == c); CHECK((T == S) == (c == 0)); CHECK((T < S) == (c < 0)); sx_observe(r);
    size_t l = k; for (size_t i = k; i-- > 0;) l = s[i] == 0 ? i : l; CHECK(basic_string_view<C>(s).size() == l); sx_reach("wide");
    delete[] t; delete[] s;
}
extern "C" void c10_wide() { switch (sx_param(2)) { case 0: wide<char16_t>(); break; case 1: wide<char32_t>(); break; default: wide<wchar_t>(); } }
// stream output: padded to the width with the fill character, which is used up
extern "C" void c10_stream() {
    size_t n = (size_t)sx_param(0); SxBuf t("t", n); size_t w = sx_conc(sx_pick("w", (uint32_t)n + 20)); char fill = sx_make<char>("fill"); std::ostringstream o; unsigned adj = (unsigned)sx_conc(sx_pick("adj", 4));
    o << std::setfill(fill); if (adj == 1) o << std::left; else if (adj == 2) o << std::right; else if (adj == 3) o << std::internal; o << std::setw((int)w) << string_view(t.p, n) << string_view("ab", 1);
    Ref e; size_t pad = w > n ? w - n : 0; if (adj != 1) for (size_t i = 0; i < pad; ++i) e.put(fill); e.app(t.p, n); if (adj == 1) for (size_t i = 0; i < pad; ++i) e.put(fill); e.put('a'); std::string r = o.str(); same(r, e, "stream output"); observe(r); sx_reach("stream");
}
// long texts: one arbitrary byte in the text, one in the needle (a piece of the filler), positions around the interesting places
extern "C" void c10_long() {
    size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxLong t("t", n, 1); SxBuf s(k); size_t offs[3] = {0, n - k, (n - k) / 2}; size_t off = offs[sx_conc(sx_pick("off", 3))];
    for (size_t i = 0; i < k; ++i) s.p[i] = SxLong::fillAt(off + i); s.p[sx_conc(sx_pick("sp", 2)) ? k - 1 : 0] = (char)sx_sym("s", 8);
    string_view T(t.p, n), S(s.p, k); size_t poss[7] = {0, 1, off, off + 1, n - 1, n, NP}; size_t pos = poss[sx_conc(sx_pick("pos", 7))];
    CHECK(T.find(S, pos) == refFind(t, s.p, k, pos)); CHECK(T.rfind(S, pos) == refRfind(t, s.p, k, pos)); CHECK(T.find_first_of(S, pos) == refFirst(t, s.p, k, pos, true)); CHECK(T.find_last_of(S, pos) == refLast(t, s.p, k, pos, true));
    CHECK(T.find_first_not_of(S, pos) == refFirst(t, s.p, k, pos, false)); CHECK(T.find_last_not_of(S, pos) == refLast(t, s.p, k, pos, false)); CHECK(T.find(s[0], pos) == refFind(t, s.p, 1, pos)); CHECK(T.rfind(s[0], pos) == refRfind(t, s.p, 1, pos));
    string_view U = T.substr(off, k); int e = refCmp(t.p + off, k, s.p, k); CHECK(sgn(U.compare(S)) == e); CHECK((U == S) == (e == 0)); CHECK((U < S) == (e < 0)); CHECK((S <= U) == (e >= 0)); CHECK(sgn(T.compare(off, k, S)) == e); sx_reach("long");
}
