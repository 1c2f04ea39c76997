#include "common.h"
#include <gul14/tokenize.h>
#include <gul14/SmallVector.h>
#include <set>
using namespace gul14;
static const char WS[] = {7, 8, 9, 10, 11, 12, 13, 32};
static void go(const SxBuf& b, size_t n, const char* set, size_t k, bool dflt) {
    string_view v(b.p, n), dl(set, k);
    size_t st[64], en[64], c = 0; bool in = false;
    for (size_t i = 0; i < n; ++i) { bool d = sx_split(inSet(b[i], set, k)); if (d) { if (in) { en[c++] = i; in = false; } } else if (!in) { st[c] = i; in = true; } }
    if (in) en[c++] = n;
    auto ts = dflt ? tokenize(v) : tokenize(v, dl);
    auto tv = dflt ? tokenize_sv(v) : tokenize_sv(v, dl);
    auto tl = dflt ? tokenize<std::list<std::string>>(v) : tokenize<std::list<std::string>>(v, dl);
    auto tm = dflt ? tokenize<SmallVector<string_view, 2>>(v) : tokenize<SmallVector<string_view, 2>>(v, dl);
    size_t calls = 0; auto ins = [&calls](std::vector<std::string>& w, string_view x) { ++calls; w.push_back(std::string(x)); };
    auto tc = tokenize<std::vector<std::string>>(v, dl, ins);
    CHECK(ts.size() == c); CHECK(tv.size() == c); CHECK(tl.size() == c); CHECK(tm.size() == c); CHECK(tc.size() == c); CHECK(calls == c);
    auto it = tl.begin();
    for (size_t i = 0; i < c; ++i, ++it) {
        same(ts[i], b.p + st[i], en[i] - st[i], "token string"); same(*it, b.p + st[i], en[i] - st[i], "token in list"); same(tc[i], b.p + st[i], en[i] - st[i], "token via inserter");
        CHECK(tv[i].data() == b.p + st[i]); CHECK(tv[i].size() == en[i] - st[i]); CHECK(tm[i].data() == b.p + st[i]); CHECK(tm[i].size() == en[i] - st[i]);
        observe(ts[i]);
    }
    sx_observe(c); if (c >= 2) sx_reach("several"); if (c == 0 && n) sx_reach("none");
}
extern "C" void c05_set() { size_t n = (size_t)sx_param(0), k = (size_t)sx_param(1); SxBuf b("s", n); SxBuf d("d", k); go(b, n, d.p, k, false); }
extern "C" void c05_default() { size_t n = (size_t)sx_param(0); SxBuf b("s", n); go(b, n, WS, 8, true); }
// long texts and large sets
static const char BIG[] = {1, 'b', 'h', ',', ';', '.', '-', '\x80', '\xff', '0', '9', 'Z', '[', '\0', ' ', '~', '\x7f', 'q', '\n', '\r'};
extern "C" void c05_long() { SxLong b("s", (size_t)sx_param(0), (size_t)sx_param(1)); if (sx_param(2)) go(b, b.n, BIG, (size_t)sx_param(2), false); else go(b, b.n, WS, 8, true); }
extern "C" void c05_emplace() { // a container without emplace_back
    size_t n = (size_t)sx_param(0); SxBuf b("s", n); string_view v(b.p, n); auto t = tokenize<std::set<std::string>>(v, ","); auto ref = tokenize(v, ","); size_t hits = 0;
    for (size_t i = 0; i < ref.size(); ++i) { bool dup = false; for (size_t j = 0; j < i; ++j) dup = dup | (ref[i] == ref[j]); hits += sx_split(!dup); CHECK(t.count(ref[i]) == 1); } CHECK(t.size() == hits); sx_reach("set");
}
