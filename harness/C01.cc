#include "sx.h"
#include <gul14/to_number.h>
using namespace gul14;
template <typename T> static void one(size_t len, size_t zeros = 0) {
    SxBuf b("s", len); if (zeros) for (size_t i = 1; i <= zeros; ++i) b.p[i] = '0'; // first byte arbitrary, then zeros, then arbitrary bytes
    auto r = to_number<T>(string_view(b.p, len));
    // reference: optional '-' for signed types, then decimal digits only, exact value in 128-bit arithmetic
    size_t i = 0; bool neg = false;
    if (std::is_signed<T>::value && len > 0 && b[0] == '-') { neg = true; i = 1; }
    neg = sx_split(neg);
    bool ok = i < len; unsigned __int128 v = 0; uint64_t w = 0;
    for (; ok && i < len; ++i) { if (!(b[i] >= '0' && b[i] <= '9')) { ok = false; break; } v = v * 10 + (unsigned)(b[i] - '0'); w = w * 10 + (unsigned)(b[i] - '0'); }
    const unsigned __int128 lim = neg ? -(__int128)std::numeric_limits<T>::min() : (__int128)std::numeric_limits<T>::max();
    // value: v within the type's limits, and equal to the result modulo 2^64 (w = v mod 2^64)
    if (r.has_value()) {
        sx_reach("accepted"); CHECKM(ok, "text that is not a number was accepted"); CHECKM(v <= lim, "number outside the type's range was accepted");
        CHECKM((uint64_t)*r == (neg ? 0 - w : w), "wrong value"); sx_observe((uint64_t)*r);
    } else { sx_reach("rejected"); CHECKM(!ok || v > lim, "representable number rejected"); sx_observe(7); }
}
static void all(size_t len, size_t zeros) {
    switch (sx_param(0)) {
    case 0: one<int8_t>(len, zeros); break; case 1: one<uint8_t>(len, zeros); break; case 2: one<int16_t>(len, zeros); break; case 3: one<uint16_t>(len, zeros); break;
    case 4: one<int32_t>(len, zeros); break; case 5: one<uint32_t>(len, zeros); break; case 6: one<int64_t>(len, zeros); break; case 7: one<uint64_t>(len, zeros); break;
    case 8: one<char>(len, zeros); break; case 9: one<long long>(len, zeros); break; default: one<unsigned long long>(len, zeros);
    }
}
extern "C" void c01_int() { all((size_t)sx_param(1), 0); }
extern "C" void c01_long() { all((size_t)(1 + sx_param(1) + sx_param(2)), (size_t)sx_param(1)); }
