#include "common.h"
#include <gul14/SlidingBuffer.h>
using namespace gul14;
struct D { int v[24]; size_t n = 0; size_t cap = 0;   // bounded double-ended queue
    void pushB(int x) { if (n == cap) popF(); v[n++] = x; } void pushF(int x) { if (n == cap) --n; for (size_t i = n; i > 0; --i) v[i] = v[i - 1]; v[0] = x; ++n; }
    void popF() { for (size_t i = 1; i < n; ++i) v[i - 1] = v[i]; --n; } void popB() { --n; }
    void resize(size_t c, bool back) { cap = c; while (n > c) { if (back) popF(); else popB(); } } };
static int fresh() { return sx_make<int>("x"); }
template <typename B> static void iterate(B& b, const D& d, std::false_type) {
    size_t i = 0; for (auto it = b.begin(); it != b.end(); ++it, ++i) { sx_check(i < d.n, "iteration too long"); sx_check(*it == d.v[i], "forward iteration"); sx_check(&*it == &b[i], "iterator refers to the element"); } sx_check(i == d.n, "iteration too short");
    const B& cb = b; i = 0; for (const auto& e : cb) { sx_check(i < d.n && e == d.v[i], "const iteration"); ++i; } sx_check(i == d.n, "const iteration length");
    i = 0; for (auto it = b.cbegin(); it != b.cend(); it++) { sx_check(i < d.n && *it == d.v[i], "cbegin iteration"); ++i; } sx_check(i == d.n, "cbegin iteration length");
    i = d.n; for (auto it = b.rbegin(); it != b.rend(); ++it) { sx_check(i > 0, "reverse iteration too long"); sx_check(*it == d.v[--i], "reverse iteration"); } sx_check(i == 0, "reverse iteration too short");
    i = d.n; for (auto it = cb.crbegin(); it != cb.crend(); ++it) { sx_check(i > 0, "const reverse iteration too long"); sx_check(*(it.base() - 1) == d.v[--i], "const reverse iteration"); } sx_check(i == 0, "const reverse iteration too short");
    sx_check(b.end() - b.begin() == (long)d.n, "iterator difference");
    if (d.n) { auto a = b.begin(), e = b.end() - 1; sx_check(*e == d.v[d.n - 1], "iterator - n"); sx_check(a <= e && !(a > e) && (a < e) == (d.n > 1) && (a >= e) == (d.n == 1) && (a == e) == (d.n == 1), "iterator comparison"); for (size_t k = 0; k < d.n; ++k) { sx_check(*(a + (long)k) == d.v[k] && *((long)k + a) == d.v[k] && a[(long)k] == d.v[k], "iterator + n"); auto c = a; c += (long)k; sx_check(*c == d.v[k], "iterator += n"); c -= (long)k; sx_check(c == a, "iterator -= n"); sx_check(*(e - (long)k) == d.v[d.n - 1 - k], "iterator - n"); }
        auto c = a; sx_check(c++ == a && *b.begin() == d.v[0], "post-increment"); sx_check(--c == a, "pre-decrement"); auto f = b.end(); sx_check(f-- == b.end() && f == e, "post-decrement"); }
}
template <typename B> static void iterate(B& b, const D& d, std::true_type) { // exposed iterators walk the storage in its own order
    const B& cb = b; size_t len = (size_t)(b.end() - b.begin()); sx_check(cb.end() - cb.begin() == (long)len && b.cend() - b.cbegin() == (long)len && (long)len == b.rend() - b.rbegin() && (long)len == cb.crend() - cb.crbegin(), "iterator kinds agree");
    if (d.n == 0) { sx_check(len == 0, "an empty buffer has an empty iteration range"); return; }
    auto* lo = &*b.begin(); sx_check(lo == &*cb.begin() && lo == &*b.cbegin(), "begin() kinds agree");
    for (size_t i = 0; i < d.n; ++i) sx_check(&b[i] >= lo && &b[i] < lo + len, "every element is visited by iteration");
    bool contiguous = &b[0] <= &b[d.n - 1]; if (contiguous || d.n == d.cap) sx_check(len == d.n, "iteration visits exactly the elements if they are contiguous"); else sx_check(len == d.cap, "iteration visits the whole storage");
    sx_check(&*b.rbegin() == lo + len - 1, "rbegin");
}
template <typename B, bool EXP> static void agree(B& b, const D& d, bool all) {
    const B& cb = b; sx_check(b.size() == d.n, "size"); sx_check(b.capacity() == d.cap, "capacity"); sx_check(b.empty() == (d.n == 0), "empty"); sx_check(b.filled() == (d.n == d.cap && d.cap > 0), "filled");
    for (size_t i = 0; i < d.n; ++i) { sx_check(b[i] == d.v[i], "element"); sx_check(cb[i] == d.v[i], "const element"); }
    if (!all) return;
    for (size_t i = 0; i < d.n; ++i) { sx_check(&b.at(i) == &b[i] && &cb.at(i) == &b[i], "at"); }
    if (d.n) { sx_check(&b.front() == &b[0] && &cb.front() == &b[0], "front"); sx_check(&b.back() == &b[d.n - 1] && &cb.back() == &b[d.n - 1], "back"); }
    for (size_t i : {d.n, d.n + 1, (size_t)-1, (size_t)0 - d.cap}) { bool t = false; if (i < d.n) continue; try { b.at(i); } catch (const std::out_of_range&) { t = true; } sx_check(t, "at() outside must throw"); t = false; try { cb.at(i); } catch (const std::out_of_range&) { t = true; } sx_check(t, "at() const outside must throw"); }
    iterate(b, d, std::integral_constant<bool, EXP>{});
}
template <typename B, bool DYN> struct Rs { static void go(B& b, D& d, bool) {} };
template <typename B> struct Rs<B, true> { static void go(B& b, D& d, bool res) { size_t c = sx_pick("cap", 7); int how = (int)sx_pick("how", 3); d.resize(c, how == 2); if (how == 0) { if (res) b.reserve(c); else b.resize(c); } else { auto h = how == 1 ? ShrinkBehavior::keep_front_elements : ShrinkBehavior::keep_back_elements; if (res) b.reserve(c, h); else b.resize(c, h); } } };
template <typename B, bool EXP, bool DYN> static void op(B& b, D& d) {
    switch (sx_pick("op", DYN ? 11 : 9)) {
    case 0: { if (!d.cap) return; int x = fresh(); const int y = x; b.push_back(y); d.pushB(x); break; }
    case 1: { if (!d.cap) return; int x = fresh(); const int y = x; b.push_front(y); d.pushF(x); break; }
    case 2: if (!d.n) return; b.pop_back(); d.popB(); break;
    case 3: if (!d.n) return; b.pop_front(); d.popF(); break;
    case 4: b.clear(); d.n = 0; break;
    case 5: { if (!d.cap) return; int x = fresh(); b.push_back(int(x)); d.pushB(x); x = fresh(); b.push_front(int(x)); d.pushF(x); break; }
    case 6: { B c(b); agree<B, EXP>(c, d, true); if (d.n) { c[0] = 1; c.pop_front(); } if (d.cap) c.push_back(9); break; }
    case 7: { B c(std::move(b)); agree<B, EXP>(c, d, false); b = c; break; }
    case 8: { if (!d.n) return; int x = fresh(); size_t i = sx_pick("i", (unsigned)d.n); b[i] = x; d.v[i] = x; x = fresh(); b.front() = x; d.v[0] = x; x = fresh(); b.back() = x; d.v[d.n - 1] = x; break; }
    case 9: Rs<B, DYN>::go(b, d, false); break;
    case 10: Rs<B, DYN>::go(b, d, true); break;
    }
}
template <typename B, bool EXP, bool DYN> static void hist(B& b, size_t cap) {
    D d; d.cap = cap; agree<B, EXP>(b, d, true);
    if (cap) { // reach every (rotation, size, fill) state
        bool front = sx_pick("front", 2); size_t r = sx_pick("rot", (unsigned)cap), s = sx_pick("fill", (unsigned)cap + 1);
        for (size_t i = 0; i < r; ++i) { int x = fresh(); if (front) { b.push_front(x); b.pop_back(); } else { b.push_back(x); b.pop_front(); } }
        for (size_t i = 0; i < s; ++i) { int x = fresh(); if (front) { b.push_front(x); d.pushF(x); } else { b.push_back(x); d.pushB(x); } }
        agree<B, EXP>(b, d, true);
    }
    for (long i = 0; i < sx_param(2); ++i) { op<B, EXP, DYN>(b, d); agree<B, EXP>(b, d, true); }
    { size_t i = sx_make<size_t>("at"); bool th = false; int r = 0; sx_assume(i < d.n || i <= d.cap + 1); try { r = b.at(i); } catch (const std::out_of_range&) { th = true; } sx_check(th == (i >= d.n), "at() throws exactly outside the content"); if (!th) sx_check(r == d.v[i], "at() yields the element with this index"); }
    sx_observe(d.n); for (size_t i = 0; i < b.size(); ++i) sx_observe((unsigned)b[i]); if (d.n == d.cap) sx_reach("full"); else sx_reach("partly");
}
template <size_t N> static void fixed() { { SlidingBuffer<int, N> b; hist<SlidingBuffer<int, N>, false, false>(b, N); } }
template <size_t N> static void fixedE() { { SlidingBufferExposed<int, N> b; hist<SlidingBufferExposed<int, N>, true, false>(b, N); } }
// params: kind, capacity, number of operations
extern "C" void c15_hist() {
    size_t c = (size_t)sx_param(1);
    switch (sx_param(0)) {
    case 0: if (c == 1) fixed<1>(); else if (c == 2) fixed<2>(); else if (c == 3) fixed<3>(); else if (c == 4) fixed<4>(); else if (c == 5) fixed<5>(); break;
    case 1: if (c == 1) fixedE<1>(); else if (c == 2) fixedE<2>(); else if (c == 3) fixedE<3>(); else if (c == 4) fixedE<4>(); else if (c == 5) fixedE<5>(); break;
    case 2: { SlidingBuffer<int> b(c); hist<SlidingBuffer<int>, false, true>(b, c); break; }
    case 3: { SlidingBufferExposed<int> b(c); hist<SlidingBufferExposed<int>, true, true>(b, c); break; }
    }
}
