#include "common.h"
#include <gul14/join_split.h>
#include <gul14/SmallVector.h>
#include <regex>
using namespace gul14;
// params: text length, delimiter length
static void go(const SxBuf& b, const SxBuf& d) {
    size_t n = b.n, k = d.n; string_view v(b.p, n), dl(d.p, k);
    size_t st[64], en[64], c = 0;
    if (k == 0) { // documented by join(split(t, d), d) == t and "between characters": empty matches at 0..n
        st[c] = 0; en[c] = 0; ++c;
        for (size_t i = 0; i < n; ++i) { st[c] = i; en[c] = i + 1; ++c; }
        st[c] = n; en[c] = n; ++c;
    } else {
        size_t s = 0, i = 0;
        while (i + k <= n) { bool q = true; for (size_t j = 0; j < k; ++j) q = q & (b[i + j] == d[j]); if (sx_split(q)) { st[c] = s; en[c] = i; ++c; i += k; s = i; sx_reach("hit"); } else ++i; }
        st[c] = s; en[c] = n; ++c;
    }
    auto ps = split(v, dl); auto pv = split_sv(v, dl); auto pl = split<std::list<std::string>>(v, dl); auto pm = split<SmallVector<string_view, 2>>(v, dl);
    size_t calls = 0; auto pc = split<std::vector<std::string>>(v, dl, [&calls](std::vector<std::string>& w, string_view x) { ++calls; w.push_back(std::string(x)); });
    if (k) { CHECK(ps.size() == c); CHECK(pv.size() == c); CHECK(pl.size() == c); CHECK(pm.size() == c); CHECK(pc.size() == c); CHECK(calls == c); }
    CHECK(ps.size() == pv.size()); CHECK(ps.size() == pl.size()); CHECK(ps.size() == pm.size()); CHECK(ps.size() == pc.size()); CHECK(ps.size() >= 1);
    sx_observe(ps.size());
    auto it = pl.begin();
    for (size_t i = 0; i < ps.size(); ++i, ++it) {
        if (k) { same(ps[i], b.p + st[i], en[i] - st[i], "piece"); CHECK(pv[i].size() == en[i] - st[i]); if (pv[i].size()) CHECK(pv[i].data() == b.p + st[i]); }
        inside(pv[i], b.p, n, "view inside the text");
        same(ps[i], pv[i].data(), pv[i].size(), "copy equals view"); same(*it, pv[i].data(), pv[i].size(), "list equals view"); same(pm[i], pv[i].data(), pv[i].size(), "small vector equals view"); same(pc[i], pv[i].data(), pv[i].size(), "inserter equals view");
        observe(ps[i]);
    }
    same(join(ps, dl), b.p, n, "join(split) restores the text"); same(join(pv, dl), b.p, n, "join(split_sv) restores the text"); same(join(pl.begin(), pl.end(), dl), b.p, n, "join over iterators restores the text");
}
extern "C" void c04_split() { SxBuf b("s", (size_t)sx_param(0)), d("d", (size_t)sx_param(1)); go(b, d); }
// long text with p1 arbitrary bytes; the delimiter is one of five concrete ones that do or do not occur in the filler
extern "C" void c04_long() {
    SxLong b("s", (size_t)sx_param(0), (size_t)sx_param(1)); static const char* const D[] = {"h", ",", "ah", ",,", "vfmtd"}; const char* z = D[sx_conc(sx_pick("delim", 5))]; size_t k = 0; while (z[k]) ++k;
    SxBuf d(k); for (size_t i = 0; i < k; ++i) d.p[i] = z[i]; go(b, d); sx_reach("long");
}
// regular-expression delimiters; length of the match at i, or 0
static size_t matchLen(int re, const char* p, size_t n, size_t i) {
    auto at = [&](size_t k, char c) { return k < n && sx_split(p[k] == c); };
    switch (re) {
    case 0: return at(i, ',') ? 1 : 0;                                                        // ,
    case 1: { size_t k = i; while (at(k, ' ') || at(k, '\t')) ++k; return k - i; }              // [ \t]+
    case 2: return at(i, 'a') && at(i + 1, 'b') ? 2 : at(i, ';') ? 1 : 0;                     // ab|;
    default: { size_t k = i; while (at(k, ' ')) ++k; if (!at(k, ',')) return 0; ++k; while (at(k, ' ')) ++k; return k - i; }   // " *, *"
    }
}
extern "C" void c04_regex() {
    static const char* const RE[] = {",", "[ \t]+", "ab|;", " *, *"}; int re = (int)sx_param(0); size_t n = (size_t)sx_param(1); static const std::regex rx(RE[re]); SxBuf b("s", n); string_view v(b.p, n);
    size_t st[16], en[16], c = 0, s = 0, i = 0; while (i < n) { size_t m = matchLen(re, b.p, n, i); if (m) { st[c] = s; en[c] = i; ++c; i += m; s = i; sx_reach("rx"); } else ++i; } st[c] = s; en[c] = n; ++c;
    auto ps = split(v, rx); auto pv = split<std::vector<string_view>>(v, rx); size_t calls = 0; auto pc = split<std::list<std::string>>(v, rx, [&calls](std::list<std::string>& w, string_view x) { ++calls; w.emplace_back(x); });
    CHECK(ps.size() == c); CHECK(pv.size() == c); CHECK(pc.size() == c); CHECK(calls == c); auto it = pc.begin();
    for (size_t k = 0; k < c; ++k, ++it) { same(ps[k], b.p + st[k], en[k] - st[k], "piece"); same(*it, b.p + st[k], en[k] - st[k], "piece via inserter"); CHECK(pv[k].size() == en[k] - st[k]); if (pv[k].size()) CHECK(pv[k].data() == b.p + st[k]); observe(ps[k]); }
}
// params: number of parts, glue length; each part has length 0..2
extern "C" void c04_join() {
    size_t c = (size_t)sx_param(0), k = (size_t)sx_param(1); size_t big = (size_t)sx_param(2); SxBuf g("g", k); Ref e; std::vector<std::string> ps; 
    for (size_t i = 0; i < c; ++i) { size_t n = sx_pick("n", 3) * (big ? big : 1); SxBuf p("p", n); ps.push_back(std::string(p.p, n)); if (i) e.app(g.p, k); e.app(p.p, n); }
    std::vector<string_view> vs(ps.begin(), ps.end()); std::list<std::string> ls(ps.begin(), ps.end());
    string_view gl(g.p, k);
    std::string j = join(ps, gl); same(j, e, "join"); same(join(vs, gl), e, "join views"); same(join(ls, gl), e, "join list"); same(join(ls.begin(), ls.end(), gl), e, "join iterators"); observe(j); sx_reach("join");
}
