#include "common.h"
#include <gul14/escape.h>
using namespace gul14;
static bool hexd(char c) { unsigned u = (unsigned char)c; return (u - '0' < 10u) | (u - 'a' < 6u) | (u - 'A' < 6u); }
static unsigned hv(char c) { unsigned u = (unsigned char)c; if (sx_split(u - '0' < 10u)) return u - '0'; return (u | 32u) - 'a' + 10; }
static void escRef(Ref& r, const char* p, size_t n) {
    for (size_t i = 0; i < n; ++i) { unsigned u = (unsigned char)p[i];
        if (sx_split((u >= 32) & (u < 127) & (u != '"') & (u != '\\'))) { r.put(p[i]); continue; }
        r.put('\\'); char k = sx_split(u == '"') ? '"' : sx_split(u == '\\') ? '\\' : sx_split(u == '\n') ? 'n' : sx_split(u == '\r') ? 'r' : sx_split(u == '\t') ? 't' : 'x'; r.put(k);
        if (k == 'x') { unsigned a = u >> 4, b = u & 15; r.put((char)(a < 10 ? '0' + a : 'a' + a - 10)); r.put((char)(b < 10 ? '0' + b : 'a' + b - 10)); }
    }
}
static void unescRef(Ref& r, const char* p, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (i + 1 < n && sx_split(p[i] == '\\')) {
            char c = p[i + 1]; int dec = sx_split((c == '"') | (c == '\\')) ? c : sx_split(c == 'n') ? '\n' : sx_split(c == 'r') ? '\r' : sx_split(c == 't') ? '\t' : -1;
            if (dec != -1) { r.put((char)dec); ++i; continue; }
            if (i + 3 < n && sx_split((c == 'x') & hexd(p[i + 2]) & hexd(p[i + 3]))) { r.put((char)(hv(p[i + 2]) * 16 + hv(p[i + 3]))); i += 3; continue; }
        }
        r.put(p[i]);
    }
}
extern "C" void c03_escape() {
    SxBuf b("s", (size_t)sx_param(0)); std::string e = escape(string_view(b.p, b.n)); Ref r; escRef(r, b.p, b.n); same(e, r, "escaped text"); observe(e); sx_reach("escape");
}
extern "C" void c03_unescape() {
    SxBuf b("s", (size_t)sx_param(0)); std::string u = unescape(string_view(b.p, b.n)); Ref r; unescRef(r, b.p, b.n); same(u, r, "unescaped text"); observe(u); sx_reach("unescape");
}
extern "C" void c03_round() {
    unescape(string_view{}); SxBuf b("s", (size_t)sx_param(0)); std::string u = unescape(escape(string_view(b.p, b.n))); same(u, b.p, b.n, "unescape(escape(s))"); sx_reach("round");
}
// long texts: p1 arbitrary bytes somewhere in p0 bytes of filler
extern "C" void c03_long() {
    SxLong b("s", (size_t)sx_param(0), (size_t)sx_param(1)); string_view v(b.p, b.n);
    if (sx_param(2) == 0) { std::string e = escape(v); Ref r; escRef(r, b.p, b.n); same(e, r, "escaped text"); observe(e); }
    else { std::string u = unescape(v); Ref r; unescRef(r, b.p, b.n); same(u, r, "unescaped text"); observe(u); }
    sx_reach("long");
}
