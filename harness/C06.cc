#include "common.h"
#include <gul14/trim.h>
using namespace gul14;
static const char WS[] = {7, 8, 9, 10, 11, 12, 13, 32};
static void go(const SxBuf& b, size_t n, const char* set, size_t k, bool dflt) {
    string_view v(b.p, n), ws(set, k);
    size_t l = 0; while (l < n && sx_split(inSet(b[l], set, k))) ++l;
    size_t r = n; while (r > 0 && sx_split(inSet(b[r - 1], set, k))) --r;
    size_t bl = l, br = r; if (bl >= br) { bl = br = 0; } // everything trimmed
    string_view t = dflt ? trim_sv(v) : trim_sv(v, ws), tl = dflt ? trim_left_sv(v) : trim_left_sv(v, ws), tr = dflt ? trim_right_sv(v) : trim_right_sv(v, ws);
    CHECK(t.size() == br - bl); if (t.size()) CHECK(t.data() == b.p + bl);
    CHECK(tl.size() == n - l); if (tl.size()) CHECK(tl.data() == b.p + l);
    CHECK(tr.size() == r); if (tr.size()) CHECK(tr.data() == b.p);
    std::string s = dflt ? trim(v) : trim(v, ws), sl = dflt ? trim_left(v) : trim_left(v, ws), sr = dflt ? trim_right(v) : trim_right(v, ws);
    same(s, b.p + bl, br - bl, "trim copy"); same(sl, b.p + l, n - l, "trim_left copy"); same(sr, b.p, r, "trim_right copy");
    observe(s); observe(sl); observe(sr);
    if (l > 0 && l < n) sx_reach("left"); if (r < n && r > 0) sx_reach("right"); if (br == bl && n) sx_reach("all");
}
// whole filler made of trim characters: long runs
extern "C" void c06_runs() { size_t n = (size_t)sx_param(0); SxLong b("s", n, 2); for (size_t i = 0; i < n; ++i) if (i < b.at || i >= b.at + 2) b.p[i] = (i % 3 == 0) ? ' ' : i % 3 == 1 ? '\t' : '\r'; go(b, n, WS, 8, true); }
extern "C" void c06_set() { size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxBuf b("s", n); SxBuf ws("w", k); go(b, n, ws.p, k, false); }
extern "C" void c06_default() { size_t n = (size_t)sx_param(0); SxBuf b("s", n); go(b, n, WS, 8, true); }
// long texts and large sets
static const char BIG[] = {1, 'b', 'h', ',', ';', '.', '-', '\x80', '\xff', '0', '9', 'Z', '[', '\0', ' ', '~', '\x7f', 'q', '\n', '\r'};
extern "C" void c06_long() { SxLong b("s", (size_t)sx_param(0), (size_t)sx_param(1)); if (sx_param(2)) go(b, b.n, BIG, (size_t)sx_param(2), false); else go(b, b.n, WS, 8, true); }
