#include "common.h"
#include <gul14/substring_checks.h>
using namespace gul14;
static bool eqAt(const SxBuf& h, size_t off, const SxBuf& n, bool nc) { bool q = true; for (size_t k = 0; k < n.n; ++k) q = q & (nc ? lowerRef(h[off + k]) == lowerRef(n[k]) : h[off + k] == n[k]); return q; }
static void go(const SxBuf& h, const SxBuf& n) {
    size_t hn = h.n, nn = n.n; string_view H(h.p, hn), N(n.p, nn);
    for (int nc = 0; nc < 2; ++nc) {
        bool any = false; for (size_t i = 0; i + nn <= hn; ++i) any = any | eqAt(h, i, n, nc);
        bool st = nn <= hn && eqAt(h, 0, n, nc), en = nn <= hn && eqAt(h, hn - nn, n, nc);
        bool c = nc ? contains_nocase(H, N) : contains(H, N), s = nc ? starts_with_nocase(H, N) : starts_with(H, N), e = nc ? ends_with_nocase(H, N) : ends_with(H, N);
        CHECK(c == any); CHECK(s == st); CHECK(e == en); sx_observe(c + 2 * s + 4 * e);
    }
    bool eq = hn == nn && eqAt(h, 0, n, true); bool r = equals_nocase(H, N); CHECK(r == eq); sx_observe(r); CHECK(equals_nocase(N, H) == eq);
    if (r) sx_reach("equal"); else sx_reach("different");
}
extern "C" void c09_str() { SxBuf h("h", (size_t)sx_param(0)), n("n", (size_t)sx_param(1)); go(h, n); }
// long texts: the part is a piece of the filler with one arbitrary byte
extern "C" void c09_long() {
    size_t hn = (size_t)sx_param(0), nn = (size_t)sx_param(1); SxLong h("h", hn, 1); SxBuf n(nn); size_t offs[3] = {0, hn - nn, (hn - nn) / 2}; size_t off = nn <= hn ? offs[sx_conc(sx_pick("off", 3))] : 0;
    for (size_t i = 0; i < nn; ++i) n.p[i] = SxLong::fillAt(off + i); size_t ps[3] = {0, nn - 1, nn / 2}; if (nn) n.p[ps[sx_conc(sx_pick("pos", 3))]] = (char)sx_sym("n", 8); go(h, n); sx_reach("long");
}
extern "C" void c09_char() {
    size_t hn = (size_t)sx_param(0); SxBuf h("h", hn); string_view H(h.p, hn); char c = sx_make<char>("c");
    bool any = false, anyn = false; for (size_t i = 0; i < hn; ++i) { any = any | (h[i] == c); anyn = anyn | (lowerRef(h[i]) == lowerRef(c)); }
    CHECK(contains(H, c) == any); CHECK(contains_nocase(H, c) == anyn);
    CHECK(starts_with(H, c) == (hn && h[0] == c)); CHECK(ends_with(H, c) == (hn && h[hn - 1] == c));
    CHECK(starts_with_nocase(H, c) == (hn && lowerRef(h[0]) == lowerRef(c))); CHECK(ends_with_nocase(H, c) == (hn && lowerRef(h[hn - 1]) == lowerRef(c)));
    sx_reach("char");
}
