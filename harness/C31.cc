// Failing memory allocations: containers and text functions report std::bad_alloc and leave nothing behind.
#include "C13.cc"
#include <new>
#include <gul14/SlidingBuffer.h>
#include <gul14/case_ascii.h>
#include <gul14/cat.h>
#include <gul14/escape.h>
#include <gul14/join_split.h>
#include <gul14/replace.h>
#include <gul14/statistics.h>
#include <gul14/string_util.h>
#include <gul14/tokenize.h>
#include <gul14/trim.h>
#include <gul14/optional.h>
#include <gul14/expected.h>
#include <gul14/variant.h>
static void arm() { bool sticky = sx_pick("sticky", 2) != 0; int k = (int)sx_make<uint8_t>("fuse"); sx_set_alloc_fail(k, sticky); }
static void disarm() { sx_set_alloc_fail(-1, 0); }
template <typename T, unsigned N> static void vec() {   // one operation from every state
    int op = (int)sx_param(1); unsigned extra = (unsigned)sx_param(2); big = 1;
    unsigned cap = N + sx_pick("cap", extra + 1), size = sx_pick("size", cap + 1); bool two = op == COPYA || op == MOVEA || op == SWAP;
    unsigned cap2 = two ? N + 2 * sx_pick("cap2", 2) : N, size2 = two ? sx_pick("size2", cap2 + 1) : 1; uint64_t heap0 = sx_live_heap(); int live0 = Life::live;
    {
        SmallVector<T, N> a, b; M m, mb; fill(a, m, cap, size); fill(b, mb, cap2, size2); M m0 = m, mb0 = mb; bool boom = false; arm();
        try { Ops<true>::run(op, a, m, b, mb, N); disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); }
        if (!boom) { agree(a, m, "content differs from the model"); agree(b, mb, "second vector differs from the model"); }
        else {
            sx_reach("vecfail"); for (auto* v : {&a, &b}) { sx_check(v->capacity() >= v->size(), "capacity below size after a failure"); for (auto& e : *v) val(e); }
            sx_check(Life::live - live0 == (int)(a.size() + b.size()), "elements leaked or lost after a failure");
            if (op != ASSIGNN && op != ASSIGNR && op != ASSIGNL && op != LISTA) agree(a, m0, "content changed by a failed allocation");
            if (op != COPYA) agree(b, mb0, "other vector changed");
        }
        a.clear(); a.emplace_back(3); sx_check(a.size() == 1 && val(a[0]) == 3, "usable afterwards");
    }
    sx_check(Life::live == live0, "elements leaked"); sx_check(sx_live_heap() == heap0, "memory leaked"); sx_reach("vec");
}
extern "C" void c31_vec() { switch (sx_param(0)) { case 0: vec<Tr<1>, 2>(); break; case 1: vec<Tr<1>, 1>(); break; } }
// sliding buffer whose capacity is changed, copied or assigned
extern "C" void c31_slide() {
    uint64_t heap0 = sx_live_heap(); int live0 = Life::live; size_t cap = (size_t)sx_param(0); int op = (int)sx_param(1);
    {
        typedef Tr<1> T; SlidingBuffer<T> b(cap), o(2); int v[8]; size_t n = 0; o.push_back(T(5));
        size_t r = cap ? sx_pick("rot", (unsigned)cap) : 0, s = cap ? sx_pick("fill", (unsigned)cap + 1) : 0; for (size_t i = 0; i < r; ++i) { b.push_back(T(1)); b.pop_front(); } for (size_t i = 0; i < s; ++i) { v[n] = fresh(); b.push_back(T(v[n])); ++n; }
        bool boom = false; size_t c = op < 2 ? sx_pick("cap", 6) : cap; arm();
        try {
            switch (op) {
            case 0: b.resize(c); break; case 1: b.resize(c, ShrinkBehavior::keep_back_elements); break;
            case 2: { SlidingBuffer<T> d(b); disarm(); sx_check(d.size() == n, "size of the copy"); for (size_t i = 0; i < n; ++i) sx_check(val(d[i]) == v[i], "element of the copy"); break; }
            case 3: o = b; break; case 4: { SlidingBuffer<T> d(3); disarm(); sx_check(d.capacity() == 3 && d.empty(), "new buffer"); break; }
            } disarm();
        } catch (const std::bad_alloc&) { boom = true; disarm(); }
        if (boom) {
            sx_reach("slidefail"); sx_check(b.capacity() == cap || op < 2, "capacity"); sx_check(b.size() == n, "a failed operation keeps the size");
            for (size_t i = 0; i < n; ++i) sx_check(val(b[i]) == v[i], "a failed operation keeps the elements"); if (op == 3) { sx_check(o.size() <= o.capacity(), "size within the capacity"); for (size_t i = 0; i < o.size(); ++i) val(o[i]); }
        } else {
            size_t keep = n < c ? n : c; sx_check(b.size() == keep && b.capacity() == c, "size and capacity"); for (size_t i = 0; i < keep; ++i) sx_check(val(b[i]) == v[op == 1 ? n - keep + i : i], "element");
            if (op == 3) { sx_check(o.size() == n, "size of the copy"); for (size_t i = 0; i < n; ++i) sx_check(val(o[i]) == v[i], "element of the copy"); }
        }
        if (b.capacity()) { b.push_back(T(77)); sx_check(val(b.back()) == 77, "usable afterwards"); }
    }
    sx_check(Life::live == live0, "elements leaked"); sx_check(sx_live_heap() == heap0, "memory leaked"); sx_reach("slide");
}
// text functions: the result is the same as without failures, or std::bad_alloc is thrown; the arguments stay as they are
static const std::string T1("a quite long text, with blanks and commas, 12345"), T2(", "), T3("\\x41\\n and a \"quotation\" beyond inline storage"), T4("the replacement text, which is long");
static std::string flat(const std::vector<std::string>& v) { std::string r; for (auto& s : v) { r += s; r += '|'; } return r; }
static std::string flat(const std::vector<string_view>& v) { std::string r; for (auto& s : v) { r.append(s.data(), s.size()); r += '|'; } return r; }
enum { F_CAT, F_JOIN, F_JOINSV, F_SPLIT, F_SPLITSV, F_SPLITCH, F_TOK, F_TOKSV, F_REPL, F_REPLIN, F_ESC, F_TRIM, F_LOW, F_UP, F_REP, F_SAFE, F_HEX, F_SVSTR, F_UNESC, F_N };
static std::string work(int f, std::string& io, const std::vector<std::string>& list, const std::vector<string_view>& views) {
    switch (f) {
    case F_CAT: return cat(T1, T2, 123456789, 'c', string_view(T3));
    case F_JOIN: return join(list, T2);
    case F_JOINSV: return join(views, T2);
    case F_SPLIT: return flat(split(T1, T2));
    case F_SPLITSV: return flat(split_sv(T1, T2));
    case F_SPLITCH: return flat(split(T1, " "));
    case F_TOK: return flat(tokenize(T1, " ,"));
    case F_TOKSV: return flat(tokenize_sv(T1, " ,"));
    case F_REPL: return replace(T1, T2, T4);
    case F_REPLIN: return replace_inplace(io, T2, T4);
    case F_ESC: return escape(T3);
    case F_TRIM: return trim(T1);
    case F_LOW: return lowercase_ascii(T1);
    case F_UP: return uppercase_ascii(T1);
    case F_REP: return repeat(T1, 3);
    case F_SAFE: return safe_string(T1.c_str(), T1.size());
    case F_HEX: return hex_string(T1, ":");
    case F_UNESC: return unescape(T3);
    default: return std::string(string_view(T1));
    }
}
extern "C" void c31_text() {
    int f = (int)sx_param(0); std::vector<std::string> list{T1, T2, T4}; std::vector<string_view> views{T1, T2, T4}; std::string io(T1), io2(T1); const std::string want = work(f, io2, list, views); uint64_t heap0 = sx_live_heap();
    {
        const std::string t1(T1), t2(T2), t3(T3), t4(T4); bool boom = false; arm();
        try { std::string got = work(f, io, list, views); disarm(); sx_check(got == want, "result"); observe(got); } catch (const std::bad_alloc&) { boom = true; disarm(); sx_reach("textfail"); }
        sx_check(t1 == T1 && t2 == T2 && t3 == T3 && t4 == T4, "arguments changed"); sx_check(list.size() == 3 && list[0] == T1 && list[2] == T4 && views[0] == T1, "arguments changed"); if (boom) sx_check(io.size() <= io.capacity() && io.c_str()[io.size()] == 0, "string in place stays valid"); sx_observe(boom);
        io = std::string(); io.shrink_to_fit();
    }
    io2.clear(); sx_check(sx_live_heap() + 1 >= heap0 && sx_live_heap() <= heap0, "memory leaked"); sx_reach("text");
}
// statistics that need a copy of the data
extern "C" void c31_median() {
    std::vector<double> v{4, 1, 3, 2, 5}; const std::vector<double> w(v); uint64_t heap0 = sx_live_heap(); double r = 0; arm(); try { r = median(v); disarm(); sx_check(r == 3, "median"); } catch (const std::bad_alloc&) { disarm(); sx_reach("statfail"); }
    sx_check(v == w, "data changed"); sx_check(sx_live_heap() == heap0, "memory leaked"); sx_reach("stat");
}
// optional, expected and variant of strings
template <typename B> static void guarded(B body) { uint64_t heap0 = sx_live_heap(); body(); sx_check(sx_live_heap() == heap0, "memory leaked"); }
extern "C" void c31_types() {
    int k = (int)sx_param(0);
    guarded([k] {
        bool boom = false;
        switch (k) {
        case 0: { optional<std::string> o; if (sx_pick("full", 2)) o.emplace("x"); bool had = !!o; arm(); try { o = T1; disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); } if (boom) { sx_check(!!o == had, "engaged as before"); if (had) sx_check(*o == "x", "old value"); } else sx_check(o && *o == T1, "new value"); break; }
        case 1: { optional<std::string> o(T1), p; arm(); try { p = o; disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); } sx_check(o && *o == T1, "source"); sx_check(!!p != boom, "engaged exactly if copied"); break; }
        case 2: { expected<std::string, int> e(in_place); if (sx_pick("full", 2)) e = unexpected<int>(5); bool had = !!e; arm(); try { e.emplace(T1); disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); } if (!boom) sx_check(e && *e == T1, "new value"); else if (e) sx_check(e->size() <= e->capacity() && had, "valid"); else sx_check(e.error() == 5 && !had, "old error"); break; }
        case 3: { variant<int, std::string> v(7); if (sx_pick("full", 2)) v = std::string("x"); size_t i0 = v.index(); arm(); try { v = T1; disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); } if (!boom) sx_check(v.index() == 1 && get<1>(v) == T1, "new value"); else sx_check(v.valueless_by_exception() || (v.index() == i0 && (i0 ? get<1>(v) == "x" : get<0>(v) == 7)), "unchanged or valueless"); break; }
        case 4: { variant<int, std::string> v(7), w(std::string(T1.c_str())); arm(); try { v = w; disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); } sx_check(w.index() == 1 && get<1>(w) == T1, "source"); if (!boom) sx_check(v.index() == 1 && get<1>(v) == T1, "new value"); else sx_check(v.valueless_by_exception() || (v.index() == 0 && get<0>(v) == 7), "unchanged or valueless"); break; }
        } if (boom) sx_reach("typefail"); sx_observe(boom);
    }); sx_reach("types");
}
