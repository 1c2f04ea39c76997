#include "common.h"
#include <gul14/replace.h>
using namespace gul14;
// params: haystack length, needle length, hammer length, alphabet (0: all bytes, k>0: first k letters for long texts)
static void bytesOf(const char* name, SxBuf& b, long alpha) { for (size_t i = 0; i < b.n; ++i) { unsigned char c = (unsigned char)sx_sym(name, 8); if (alpha) sx_assume(c < alpha); b.p[i] = (char)(alpha ? 'a' + c : c); } }
static void go(const SxBuf& h, const SxBuf& n, const SxBuf& m) {
    size_t hn = h.n, nn = n.n, mn = m.n;
    std::string r = replace(string_view(h.p, hn), string_view(n.p, nn), string_view(m.p, mn));
    std::string ip(h.p, hn); std::string& rr = replace_inplace(ip, string_view(n.p, nn), string_view(m.p, mn));
    CHECK(&rr == &ip);
    // reference: scan left to right, non-overlapping
    Ref e; size_t i = 0;
    if (nn == 0) e.app(h.p, hn);
    else while (i < hn) {
        bool hit = i + nn <= hn; if (hit) { bool q = true; for (size_t k = 0; k < nn; ++k) q = q & (h[i + k] == n[k]); hit = sx_split(q); }
        if (hit) { e.app(m.p, mn); i += nn; sx_reach("match"); } else e.put(h[i++]);
    }
    same(r, e, "replace"); same(ip, e, "replace_inplace"); observe(r); observe(ip);
    // arguments are left alone
    sx_observe(hn);
}
extern "C" void c07_replace() {
    SxBuf h((size_t)sx_param(0)), n((size_t)sx_param(1)), m((size_t)sx_param(2)); bytesOf("h", h, sx_param(3)); bytesOf("n", n, sx_param(3)); bytesOf("m", m, sx_param(3)); go(h, n, m);
}
extern "C" void c07_long() {
    SxLong h("h", (size_t)sx_param(0), (size_t)sx_param(1)); static const char* const D[] = {"h", ",", "ah", ",,", "vfmtd", ",,,,"}; const char* z = D[sx_conc(sx_pick("needle", 6))]; size_t k = 0; while (z[k]) ++k;
    SxBuf n(k); for (size_t i = 0; i < k; ++i) n.p[i] = z[i]; SxBuf m("m", (size_t)sx_param(2)); go(h, n, m); sx_reach("long");
}
// needle/hammer overlap with the haystack's own storage is not required; empty views with null data
extern "C" void c07_null() {
    size_t hn = (size_t)sx_param(0); SxBuf h("h", hn); string_view none;
    same(replace(string_view(h.p, hn), none, none), h.p, hn, "empty needle");
    std::string ip(h.p, hn); same(replace_inplace(ip, none, "xy"), h.p, hn, "empty needle in place");
    same(replace(none, "a", "b"), h.p, 0, "empty haystack"); sx_reach("null");
}
