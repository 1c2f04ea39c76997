#include "common.h"
#include <gul14/gcd_lcm.h>
using namespace gul14;
// One argument is arbitrary (up to the magnitude limit, 0: the whole type), the other one is any small number; the
// remainder between them is split into cases so that the divisor chain below it becomes concrete.
// params: type pair, magnitude limit of a (0: full range), greatest magnitude of b
template <typename A, typename B> static void gl() {
    using C = std::common_type_t<A, B>; using U = std::make_unsigned_t<C>; using W = unsigned __int128; const bool sg = std::is_signed<A>::value;
    uint64_t lim = (uint64_t)sx_param(1); A a = sx_make<A>("a"); if (sg) sx_assume(a != std::numeric_limits<A>::min());
    U ub = (U)sx_pick("b", (uint32_t)sx_param(2) + 1); bool nb = sg && ub != 0 && sx_pick("negb", 2); B b = nb ? (B)(0 - ub) : (B)ub;
    bool na = sx_split(a < 0); U ua = na ? (U)(0 - (U)(C)a) : (U)a; if (lim) sx_assume(ua <= (U)lim);
    if (ua <= ub) ua = (U)sx_conc(ua);
    U r = ub ? (U)sx_conc(ua % ub) : 0;
    auto g = gcd(a, b); static_assert(std::is_same<decltype(g), C>::value, "gcd result type"); auto g2 = gcd(b, a); static_assert(std::is_same<decltype(g2), C>::value, "gcd result type");
    CHECKM(g >= 0, "gcd is not negative"); U ug = (U)g; sx_observe(ug); CHECKM(g2 == g, "gcd is symmetric");
    if (ub == 0) { CHECKM(ug == ua, "gcd(a, 0) = |a|"); sx_reach("zero"); CHECKM(lcm(a, b) == 0 && lcm(b, a) == 0, "lcm with zero"); return; }
    ug = (U)sx_conc(ug); CHECKM(ug != 0, "gcd is zero only for two zeros"); if (ug == 0) return;
    CHECKM(ub % ug == 0 && r % ug == 0, "gcd divides both arguments");
    for (U k = 1; k <= ub; ++k) if (ub % k == 0 && r % k == 0) CHECKM(ug % k == 0, "every common divisor divides the gcd");
    // least common multiple where representable
    U q = ua / ug; if (q > (U)std::numeric_limits<C>::max() / ub) { sx_reach("big"); return; }
    U l = (U)(q * ub); auto m = lcm(a, b); static_assert(std::is_same<decltype(m), C>::value, "lcm result type"); CHECKM((U)m == l, "lcm = |a| / gcd * |b|"); sx_observe((uint64_t)m);
    CHECKM((U)lcm(b, a) == l, "lcm is symmetric"); sx_reach("gcd");
}
extern "C" void c18_gcd() {
    switch (sx_param(0)) { case 0: gl<int8_t, int8_t>(); break; case 1: gl<uint8_t, uint8_t>(); break; case 2: gl<int16_t, int8_t>(); break; case 3: gl<uint16_t, uint8_t>(); break; case 4: gl<int, int>(); break; case 5: gl<unsigned, unsigned>(); break; case 6: gl<int, long>(); break; case 7: gl<unsigned long, unsigned char>(); break; case 8: gl<int16_t, int16_t>(); break; case 9: gl<long long, long>(); break; case 10: gl<uint64_t, uint64_t>(); break; case 11: gl<int8_t, int>(); break; case 12: gl<unsigned, unsigned long>(); break; }
}
// full-width arguments that are equal, zero or one
template <typename T> static void wide() {
    T a = sx_make<T>("a"); sx_assume(a != std::numeric_limits<T>::min() || std::numeric_limits<T>::min() == 0); T m = a < 0 ? -a : a;
    CHECK(gcd(a, (T)0) == m); CHECK(gcd((T)0, a) == m); CHECK(gcd(a, a) == m); CHECK(gcd(a, (T)1) == 1); CHECK(lcm(a, (T)0) == 0); CHECK(lcm((T)0, a) == 0); CHECK(lcm(a, (T)1) == m); sx_observe((uint64_t)gcd(a, (T)0)); sx_reach("wide");
}
extern "C" void c18_wide() { switch (sx_param(0)) { case 0: wide<int>(); break; case 1: wide<unsigned>(); break; case 2: wide<long>(); break; case 3: wide<unsigned long>(); break; } }

// Two large arguments with a large common divisor: a = k g and b = j g for coprime k and j, with every g for which the
// least common multiple k j g is representable although the product a b is not.
// params: type, k, j, number of low bits of g that vary (the others come from the largest admissible g)
template <typename T> static void big() {
    using U = std::make_unsigned_t<T>; U k = (U)sx_param(1), j = (U)sx_param(2); unsigned bits = (unsigned)sx_param(3); const U top = (U)std::numeric_limits<T>::max() / (k * j);
    U g = bits >= sizeof(T) * 8 ? sx_make<U>("g") : (U)(top - (U)sx_sym("g", bits)); sx_assume(g >= 1 && g <= top);
    bool na = std::is_signed<T>::value && sx_split(sx_sym("na", 1)), nb = std::is_signed<T>::value && sx_split(sx_sym("nb", 1));
    T a = (T)(k * g), b = (T)(j * g); if (na) a = (T)-a; if (nb) b = (T)-b;
    CHECKM((U)gcd(a, b) == g, "gcd of k g and j g"); CHECKM((U)gcd(b, a) == g, "gcd is symmetric"); U l = (U)lcm(a, b); sx_observe(l);
    CHECKM(l == (U)(k * j * g), "lcm = |a| / gcd * |b| wherever it is representable"); CHECKM((U)lcm(b, a) == l, "lcm is symmetric"); sx_reach("common");
}
extern "C" void c18_big() { switch (sx_param(0)) { case 0: big<int8_t>(); break; case 1: big<uint8_t>(); break; case 2: big<int16_t>(); break; case 3: big<uint16_t>(); break; case 4: big<int>(); break; case 5: big<unsigned>(); break; case 6: big<long>(); break; case 7: big<uint64_t>(); break; } }
