#include "common.h"
#include <array>
#include <vector>
#include <gul14/span.h>
using gul14::span; using gul14::dynamic_extent;
template <typename T> static T* arr(size_t n) { T* p = static_cast<T*>(::operator new(n ? n * sizeof(T) : 1)); for (size_t i = 0; i < n; ++i) p[i] = sx_make<T>("e"); return p; }
template <typename S, typename T> static void is(const S& s, T* p, size_t n) { // s denotes exactly [p, p + n)
    CHECKM(s.data() == p, "data"); CHECKM(s.size() == n, "size"); CHECKM(s.empty() == (n == 0), "empty"); CHECKM(s.size_bytes() == n * sizeof(T), "size_bytes");
    CHECKM(s.begin() == p && s.end() == p + n && s.cbegin() == p && s.cend() == p + n, "begin/end"); CHECKM(begin(s) == p && end(s) == p + n, "free begin/end");
    CHECKM(s.rbegin().base() == p + n && s.rend().base() == p && s.crbegin().base() == p + n && s.crend().base() == p, "rbegin/rend");
}
template <typename T> static void dyn() {
    size_t n = (size_t)sx_param(1); T* p = arr<T>(n); span<T> s(p, n); is(s, p, n); is(span<T>(p, p + n), p, n); is(span<const T>(s), p, n); { span<T> c(s); is(c, p, n); span<T> d; is(d, (T*)nullptr, 0); d = s; is(d, p, n); }
    size_t i = sx_make<uint64_t>("i"), k = sx_make<uint64_t>("k");
    if (i < n) { CHECKM(&s[i] == p + i, "operator[]"); sx_observe(s[i]); s[i] = (T)77; CHECKM(p[i] == (T)77, "writes go to the array"); sx_reach("elem"); }
    if (n) CHECKM(&s.front() == p && &s.back() == p + n - 1, "front/back");
    if (i <= n) { is(s.first(i), p, i); is(s.last(i), p + (n - i), i); is(s.subspan(i), p + i, n - i); if (k <= n - i) { is(s.subspan(i, k), p + i, k); is(s.subspan(i).first(k), p + i, k); is(s.subspan(i).subspan(0, k), p + i, k); is(s.first(n - i).last(k), p + (n - i - k), k); sx_reach("sub"); } }
    auto b = as_bytes(s); is(b, reinterpret_cast<const unsigned char*>(p), n * sizeof(T)); auto wb = as_writable_bytes(s); is(wb, reinterpret_cast<unsigned char*>(p), n * sizeof(T));
    // comparisons
    size_t m = sx_pick("m", (uint32_t)n + 2); T* q = arr<T>(m); span<const T> t(q, m); size_t x = 0; while (x < n && x < m && sx_split(p[x] == q[x])) ++x; bool eq = x == n && x == m, lt = x == n ? x < m : x < m && sx_split(p[x] < q[x]);
    CHECKM((s == t) == eq && (s != t) == !eq, "== and !="); CHECKM((s < t) == lt && (s >= t) == !lt && (s <= t) == (lt || eq) && (s > t) == (!lt && !eq), "ordering"); sx_reach("cmp");
    ::operator delete(q); ::operator delete(p);
}
extern "C" void c16_dyn() { switch (sx_param(0)) { case 0: dyn<int>(); break; case 1: dyn<char>(); break; case 2: dyn<uint64_t>(); break; } }
struct R4 { int& a; int& b; int& c; int& d; };
extern "C" void c16_static() {
    int* p = arr<int>(4); int (&a)[4] = *reinterpret_cast<int(*)[4]>(p); span<int, 4> s(a); static_assert(decltype(s)::extent == 4, "extent"); is(s, p, 4); is(span<int>(a), p, 4); is(span<const int, 4>(s), p, 4); is(span<int>(s), p, 4); is(span<int, 4>(p, (size_t)4), p, 4); is(span<int, 4>(p, p + 4), p, 4);
    is(s.first<0>(), p, 0); is(s.first<1>(), p, 1); is(s.first<3>(), p, 3); is(s.first<4>(), p, 4); is(s.last<0>(), p + 4, 0); is(s.last<1>(), p + 3, 1); is(s.last<3>(), p + 1, 3); is(s.last<4>(), p, 4);
    is(s.subspan<0>(), p, 4); is(s.subspan<1>(), p + 1, 3); is(s.subspan<4>(), p + 4, 0); is(s.subspan<1, 2>(), p + 1, 2); is(s.subspan<3, 1>(), p + 3, 1); is(s.subspan<2, 0>(), p + 2, 0);
    span<int> d(p, (size_t)4); is(d.first<2>(), p, 2); is(d.last<3>(), p + 1, 3); is(d.subspan<1>(), p + 1, 3); is(d.subspan<3, 1>(), p + 3, 1);
    size_t i = sx_make<uint64_t>("i"), k = sx_make<uint64_t>("k");
    if (i <= 4) { is(s.first(i), p, i); is(s.last(i), p + (4 - i), i); is(s.subspan(i), p + i, 4 - i); if (k <= 4 - i) is(s.subspan(i, k), p + i, k); }
    if (i < 4) CHECKM(&s[i] == p + i, "operator[]"); CHECKM(&s.front() == p && &s.back() == p + 3, "front/back"); CHECKM(&gul14::get<0>(s) == p && &gul14::get<3>(s) == p + 3, "get"); static_assert(std::tuple_size<span<int, 4>>::value == 4, "tuple_size");
    auto b = as_bytes(s); static_assert(decltype(b)::extent == 16, "byte extent"); is(b, reinterpret_cast<const unsigned char*>(p), 16); auto wb = as_writable_bytes(s); static_assert(decltype(wb)::extent == 16, "byte extent"); is(wb, reinterpret_cast<unsigned char*>(p), 16);
    span<int, 0> z; is(z, (int*)nullptr, 0); CHECKM((s == d) && !(s < d), "static against dynamic"); sx_reach("static"); ::operator delete(p);
}
extern "C" void c16_from() {
    std::array<int, 3> a{{sx_make<int>("x"), sx_make<int>("y"), sx_make<int>("z")}}; const std::array<int, 3> ca = a; std::vector<int> v(a.begin(), a.end()); v.resize(sx_pick("n", 4)); const std::vector<int> cv = v;
    is(span<int>(a), a.data(), 3); is(span<int, 3>(a), a.data(), 3); is(span<const int>(ca), ca.data(), 3); is(span<const int, 3>(ca), ca.data(), 3); is(span<const int>(a), (const int*)a.data(), 3); is(span<int>(v), v.data(), v.size()); is(span<const int>(cv), cv.data(), cv.size()); is(span<const int>(v), (const int*)v.data(), v.size());
    size_t i = 0; for (int x : span<int>(v)) { CHECKM(x == v[i], "iteration"); ++i; } CHECKM(i == v.size(), "iteration"); span<int> sv(v); for (auto it = sv.rbegin(); it != sv.rend(); ++it) { --i; CHECKM(&*it == &v[i], "reverse iteration"); } CHECKM(i == 0, "reverse iteration"); sx_reach("from");
}
