#include "common.h"
#include <gul14/case_ascii.h>
using namespace gul14;
extern "C" void c08_char() {
    char c = sx_make<char>("c");
    CHECK(lowercase_ascii(c) == lowerRef(c)); CHECK(uppercase_ascii(c) == upperRef(c));
    CHECK(lowercase_ascii(lowercase_ascii(c)) == lowercase_ascii(c)); CHECK(uppercase_ascii(uppercase_ascii(c)) == uppercase_ascii(c));
    sx_observe((unsigned char)lowercase_ascii(c)); sx_observe((unsigned char)uppercase_ascii(c)); sx_reach("char");
}
static void go(const SxBuf& b) {
    size_t n = b.n; Ref lo, up;
    for (size_t i = 0; i < n; ++i) { lo.put(lowerRef(b[i])); up.put(upperRef(b[i])); }
    string_view v(b.p, n);
    std::string l = lowercase_ascii(v), u = uppercase_ascii(v);
    same(l, lo, "lowercase copy"); same(u, up, "uppercase copy");
    std::string a(b.p, n); std::string& ra = lowercase_ascii_inplace(a); CHECK(&ra == &a); same(a, lo, "lowercase in place");
    std::string c(b.p, n); std::string& rc = uppercase_ascii_inplace(c); CHECK(&rc == &c); same(c, up, "uppercase in place");
    same(lowercase_ascii(l), lo, "lowercase idempotent"); same(uppercase_ascii(u), up, "uppercase idempotent");
    same(lowercase_ascii(u), lo, "lower(upper)"); same(uppercase_ascii(l), up, "upper(lower)");
    observe(l); observe(u); sx_reach("str");
}
extern "C" void c08_str() { SxBuf b("s", (size_t)sx_param(0)); go(b); }
extern "C" void c08_long() { SxLong b("s", (size_t)sx_param(0), 2); go(b); }
