#pragma once
#include "sx.h"
#include <string>
#include <vector>
#include <list>
#include <limits>
#include <stdexcept>
#include <gul14/string_view.h>
// plain reference text buffer
struct Ref {
    char d[1024]; size_t n = 0;
    void put(char c) { d[n++] = c; }
    void app(const char* p, size_t k) { for (size_t i = 0; i < k; ++i) d[n++] = p[i]; }
    void app(const char* z) { while (*z) d[n++] = *z++; }
};
__attribute__((noinline)) inline bool sameBytes(const char* a, const char* b, size_t n) { bool eq = true; for (size_t i = 0; i < n; ++i) eq = eq & (a[i] == b[i]); return eq; }
template <typename S> inline void same(const S& s, const Ref& r, const char* what) { sx_check(s.size() == r.n, what); sx_check(sameBytes(s.data(), r.d, r.n), what); }
template <typename S> inline void same(const S& s, const char* p, size_t n, const char* what) { sx_check(s.size() == n, what); sx_check(sameBytes(s.data(), p, n), what); }
template <typename S> inline void observe(const S& s) { sx_observe(s.size()); uint64_t h = 0; for (size_t i = 0; i < s.size(); ++i) h = h * 31 + (unsigned char)s[i]; sx_observe(h); }
// view must lie inside [p, p+n)
inline void inside(gul14::string_view v, const char* p, size_t n, const char* what) { if (v.size()) { sx_check(v.data() >= p, what); sx_check(v.data() + v.size() <= p + n, what); } }
inline char lowerRef(char c) { unsigned u = (unsigned char)c; unsigned up = (u - 65u) < 26u; return (char)(u + 32 * up); }
inline char upperRef(char c) { unsigned u = (unsigned char)c; unsigned lo = (u - 97u) < 26u; return (char)(u - 32 * lo); }
inline bool inSet(char c, const char* s, size_t n) { bool r = false; for (size_t i = 0; i < n; ++i) r = r | (c == s[i]); return r; }
// A long text: filler letters with w arbitrary bytes at the beginning, at the end, in the middle or at a power-of-two border
struct SxLong : SxBuf {
    size_t at = 0;
    static char fillAt(size_t i) { return (char)('a' + i * 7 % 23); }
    SxLong(const char* name, size_t n, size_t w) : SxBuf(n) {
        for (size_t i = 0; i < n; ++i) p[i] = fillAt(i);
        size_t spots[8] = {0, n - w, n / 2, 15, 31, 63, 127, 255}; size_t k = 2; while (k < 8 && spots[k] + w <= n) ++k;
        at = spots[sx_conc(sx_pick("at", (uint32_t)k))]; for (size_t i = 0; i < w; ++i) p[at + i] = (char)sx_sym(name, 8);
    }
};
