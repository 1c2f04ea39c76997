#include "common.h"
#include <gul14/bit_manip.h>
using namespace gul14;
template <typename T> static void bits() {
    T v = sx_make<T>("v"); unsigned b = (unsigned)sx_range("b", 0, sizeof(T) * 8 - 1), o = (unsigned)sx_range("o", 0, sizeof(T) * 8 - 1); using U = std::make_unsigned_t<T>;
    auto get = [](T x, unsigned i) { return (bool)(((uint64_t)(U)x >> i) & 1); };
    T s = bit_set(v, b), r = bit_reset(v, b), f = bit_flip(v, b), m = bit_set<T>(b); static_assert(std::is_same<decltype(bit_set(v, b)), T>::value, "");
    CHECK(get(s, b)); CHECK(!get(r, b)); CHECK(get(f, b) == !get(v, b)); CHECK(get(m, b)); CHECK(bit_test(v, b) == get(v, b));
    if (o != b) { CHECK(get(s, o) == get(v, o)); CHECK(get(r, o) == get(v, o)); CHECK(get(f, o) == get(v, o)); CHECK(!get(m, o)); }
    const T cv = v; CHECK(bit_test(cv, b) == get(v, b)); CHECK(bit_set(cv, b) == s);
    sx_observe((uint64_t)(U)s); sx_observe((uint64_t)(U)r); sx_observe((uint64_t)(U)f); sx_observe((uint64_t)(U)m); sx_reach("bits");
}
extern "C" void c17_bits() {
    switch (sx_param(0)) { case 0: bits<signed char>(); break; case 1: bits<unsigned char>(); break; case 2: bits<char>(); break; case 3: bits<short>(); break; case 4: bits<unsigned short>(); break; case 5: bits<int>(); break; case 6: bits<unsigned>(); break; case 7: bits<long>(); break; case 8: bits<unsigned long>(); break; case 9: bits<long long>(); break; case 10: bits<unsigned long long>(); break; case 11: bits<char16_t>(); break; }
}
extern "C" void c17_misc() { unsigned b = (unsigned)sx_range("b", 0, 31); CHECK(bit_set(b) == (1u << b)); CHECK(is_little_endian() != is_big_endian()); uint16_t x = 1; unsigned char first; __builtin_memcpy(&first, &x, 1); CHECK(is_little_endian() == (first == 1)); sx_reach("misc"); }
