#include "common.h"
#include <array>
#include <sstream>
#include <forward_list>
#include <gul14/hexdump.h>
using namespace gul14;
// Reference text: one line per 16 elements, at most 1000 lines.
static void hx(std::string& r, unsigned long long v, int digits) { for (int i = digits - 1; i >= 0; --i) { unsigned d = (unsigned)(v >> (4 * i)) & 15u; r.push_back((char)('0' + d + (d > 9 ? 39 : 0))); } }
template <typename T> static std::string dumpRef(const T* p, size_t n, const std::string& prompt) {
    std::string r; size_t shown = n < 16000 ? n : 16000; typedef typename std::make_unsigned<T>::type U;
    for (size_t i = 0; i < shown || i == 0; i += 16) {
        if (i) r.append(prompt.size(), ' '); else r += prompt;
        hx(r, i, 6); r += ": ";
        for (size_t j = i; j < i + 16; ++j) { if (j < shown) { hx(r, (U)p[j], 2 * sizeof(T)); r += ' '; } else if (sizeof(T) == 1) r += "   "; }
        if (sizeof(T) == 1) { r += ' '; for (size_t j = i; j < i + 16 && j < shown; ++j) { unsigned c = (unsigned char)p[j]; r.push_back((char)((c >= 32) & (c < 127) ? c : '.')); } }
        r += '\n';
    }
    if (n > shown) { r.append(prompt.size(), ' '); r += "[output truncated...]\n"; }
    return r;
}
static void eq(const std::string& a, const std::string& b, const char* w) { sx_check(a.size() == b.size(), w); sx_check(sameBytes(a.data(), b.data(), a.size()), w); }
template <typename T> struct Data {   // n elements, k of them (from position at on) arbitrary
    T* p; size_t n;
    Data(size_t n, size_t at, size_t k) : p(new T[n ? n : 1]), n(n) { for (size_t i = 0; i < n; ++i) p[i] = i >= at && i < at + k ? (T)sx_sym("e", sizeof(T) * 8) : (T)(0x9e3779b97f4a7c15ULL * (i + 1) >> (64 - 8 * sizeof(T))); }
    ~Data() { delete[] p; }
};
static const char* const PROMPT[] = { "", "x", "dump-> " };
template <typename T> static void forms(size_t n, size_t k) {
    size_t at = n > k ? sx_pick("at", (uint32_t)(n - k + 1)) : 0; Data<T> d(n, at, k); std::string pr = PROMPT[sx_pick("prompt", 3)];
    std::string r = dumpRef(d.p, n, pr);
    switch (sx_pick("form", 7)) {
    case 0: eq(hexdump((const T*)d.p, (const T*)d.p + n, pr), r, "hexdump(pointers)"); break;
    case 1: { std::vector<T> v(d.p, d.p + n); eq(hexdump(v, pr), r, "hexdump(container)"); eq(hexdump(v.begin(), v.end(), pr), r, "hexdump(iterators)"); break; }
    case 2: { std::list<T> v(d.p, d.p + n); eq(hexdump(v, pr), r, "hexdump(list)"); break; }
    case 3: { std::ostringstream o; o << hexdump_stream((const T*)d.p, (const T*)d.p + n, pr); eq(o.str(), r, "hexdump_stream(pointers)"); break; }
    case 4: { std::vector<T> v(d.p, d.p + n); std::ostringstream o; o << hexdump_stream(v, pr); eq(o.str(), r, "hexdump_stream(container)"); const std::vector<T>& cv = v; std::ostringstream o2; o2 << hexdump_stream(cv, pr); eq(o2.str(), r, "hexdump_stream(const container)"); break; }
    case 5: { std::ostringstream o; o << hexdump_stream(std::vector<T>(d.p, d.p + n), pr); eq(o.str(), r, "hexdump_stream(temporary)"); break; }
    default: {
        auto h = hexdump_stream(std::vector<T>(d.p, d.p + n), pr); auto h2 = h; auto h3 = std::move(h); decltype(h) h4{}; h4 = h2; decltype(h) h5{}; h5 = std::move(h2);
        std::ostringstream a, b, c; a << h3; b << h4; c << h5; eq(a.str(), r, "moved hexdump_stream"); eq(b.str(), r, "copied hexdump_stream"); eq(c.str(), r, "move-assigned hexdump_stream"); }
    }
    sx_reach("dump");
}
template <typename T> static void one(size_t n, size_t k) {
    Data<T> d(n, n < k ? 0 : n - k, k); std::string r = dumpRef(d.p, n, "p"); std::string s = hexdump((const T*)d.p, (const T*)d.p + n, "p"); eq(s, r, "hexdump"); observe(s); sx_reach("one");
}
template <typename T> static void limit(size_t n) {   // the limit of 1000 lines; the last elements are arbitrary
    Data<T> d(n, 15999, 2); std::string r = dumpRef(d.p, n, ">>"); std::string s = hexdump((const T*)d.p, (const T*)d.p + n, ">>"); eq(s, r, "hexdump near its limit"); observe(s); sx_reach("limit");
}
extern "C" void c12_forms() {
    size_t n = (size_t)sx_param(1), k = 2; if (k > n) k = n;
    switch (sx_param(0)) { case 0: forms<char>(n, k); break; case 1: forms<unsigned char>(n, k); break; case 2: forms<signed char>(n, k); break; case 3: forms<short>(n, 1 < k ? 1 : k); break; case 4: forms<unsigned>(n, 1 < k ? 1 : k); break; default: forms<long>(n, 1 < k ? 1 : k); }
}
extern "C" void c12_all() {   // every element arbitrary
    size_t n = (size_t)sx_param(1);
    switch (sx_param(0)) { case 0: one<char>(n, n); break; case 1: one<unsigned char>(n, n); break; case 2: one<signed char>(n, n); break; case 3: one<short>(n, n); break; case 4: one<int>(n, n); break; case 5: one<unsigned short>(n, n); break; case 6: one<unsigned long long>(n, n); break; default: one<long>(n, n); }
}
extern "C" void c12_limit() { size_t n = (size_t)sx_param(1); if (sx_param(0) == 0) limit<unsigned char>(n); else limit<short>(n); }
