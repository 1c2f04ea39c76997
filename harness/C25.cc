#include "common.h"
#include <gul14/date.h>
#include <ratio>
using namespace gul14::date;
using std::chrono::duration;
// ---- reference calendar, written independently ----
static bool leapRef(int y) { return y % 400 == 0 ? true : y % 100 == 0 ? false : y % 4 == 0; }
static unsigned lenRef(int y, unsigned m) { if (m == 2) return leapRef(y) ? 29u : 28u; return m == 4 || m == 6 || m == 9 || m == 11 ? 30u : 31u; }
static int cnt(const sys_days& d) { return d.time_since_epoch().count(); }
static int symYear(unsigned part = 0, unsigned parts = 1) { int y = (int)sx_range("year", part * (32768u / parts), (part + 1) * (32768u / parts) - 1); if (sx_split(sx_bool("bce"))) { sx_assume(y > 0); y = -y; } return y; }
// every valid date: the next date in the Gregorian calendar has the next day count and the next weekday
extern "C" void c25_succ() {
    int y = symYear((unsigned)sx_param(1), (unsigned)sx_param(2)); unsigned m = (unsigned)sx_param(0) + 1; unsigned len = lenRef(y, m);
    unsigned d = (unsigned)sx_range("day", 1, 31); sx_assume(d <= len);
    year_month_day a{year{y}, month{m}, day{d}}; CHECK(a.ok());
    int ny = y; unsigned nm = m, nd = d + 1; if (sx_split(d == len)) { nd = 1; nm = m + 1; if (m == 12) { nm = 1; ny = y + 1; } sx_reach("month end"); }
    sx_assume(ny != 32768);
    year_month_day b{year{ny}, month{nm}, day{nd}};
    int ca = cnt(sys_days(a)); CHECK(cnt(sys_days(b)) == ca + 1); CHECK(local_days(a).time_since_epoch().count() == ca);
    sx_observe((uint64_t)(int64_t)ca); sx_reach("succ");
}
extern "C" void c25_anchor() {
    CHECK(cnt(sys_days(year{1970} / 1 / 1)) == 0); CHECK(weekday(sys_days{days{0}}) == Thursday);
    int z = (int)sx_sym("z", 32); sx_assume(z >= -12687794 && z <= 11248737);
    weekday w{sys_days{days{z}}}, n{sys_days{days{z + 1}}}; CHECK(w.ok()); CHECK(w.c_encoding() <= 6u);
    CHECK(n.c_encoding() == (w.c_encoding() == 6 ? 0 : w.c_encoding() + 1)); CHECK(weekday(local_days{days{z}}) == w);
    sx_reach("weekday");
}

// every day of a month: the day count is exactly this date; the 400 years beginning with p0*400
static int startRef(int y, unsigned m) { int64_t p = (int64_t)y - 1, q = p + 40000; int64_t r = 365 * p + q / 4 - q / 100 + q / 400 - 9700 - 719162; for (unsigned i = 1; i < m; ++i) r += lenRef(y, i); return (int)r; }
extern "C" void c25_from() {
    int y = (int)sx_param(0) * 400 + (int)sx_conc(sx_pick("y", 400)); if (y < -32767 || y > 32767) sx_end();
    unsigned m = (unsigned)sx_conc(sx_pick("m", 12)) + 1; unsigned len = lenRef(y, m), d = (unsigned)sx_range("d", 1, 31); sx_assume(d <= len);
    int z = startRef(y, m) + (int)d - 1; year_month_day a{sys_days{days{z}}}, l{local_days{days{z}}};
    CHECK((int)a.year() == y); CHECK((unsigned)a.month() == m); CHECK((unsigned)a.day() == d); CHECK(a.ok()); CHECK(a == l);
    CHECK(cnt(sys_days(year{y} / month{m} / day{d})) == z);
    sx_observe(d); sx_reach("from");
}
// weekday views of every date: index of the weekday in the month, last weekday of the month
extern "C" void c25_wd() {
    int y = (int)sx_param(0) * 400 + (int)sx_conc(sx_pick("y", 400)); if (y < -32767 || y > 32767) sx_end();
    unsigned m = (unsigned)sx_conc(sx_pick("m", 12)) + 1, len = lenRef(y, m); int s = startRef(y, m);
    unsigned w1 = (unsigned)(((s + 4) % 7 + 7) % 7); // weekday of the first
    unsigned wd = (unsigned)sx_conc(sx_pick("wd", 7)), first = (wd + 7 - w1) % 7 + 1;
    year Y{y}; month M{m}; weekday W{wd};
    for (unsigned i = 1; i <= 5; ++i) {
        unsigned d = first + (i - 1) * 7; year_month_weekday q = Y / M / W[i]; bool ok = d <= len;
        CHECK(q.ok() == ok); CHECK(cnt(sys_days(q)) == s + (int)d - 1); CHECK(local_days(q).time_since_epoch().count() == s + (int)d - 1);
        if (ok) { year_month_weekday b{sys_days{days{s + (int)d - 1}}}; CHECK(b == q); CHECK(b.index() == i); CHECK(b.weekday() == W); }
    }
    CHECK(!(Y / M / W[6]).ok()); CHECK(!(Y / M / W[0]).ok());
    unsigned l = first + 28 <= len ? first + 28 : first + 21; year_month_weekday_last q = Y / M / W[last]; CHECK(q.ok()); CHECK(cnt(sys_days(q)) == s + (int)l - 1); CHECK(local_days(q).time_since_epoch().count() == s + (int)l - 1);
    year_month_day_last e = Y / M / last; CHECK(e.ok()); CHECK((unsigned)e.day() == len); CHECK(cnt(sys_days(e)) == s + (int)len - 1); CHECK(local_days(e).time_since_epoch().count() == s + (int)len - 1); CHECK(year_month_day(e) == Y / M / day{len});
    sx_reach("wd");
}
// validity of arbitrary fields, leap years, lengths of months
extern "C" void c25_ok() {
    int y = (int)(int16_t)sx_sym("y", 16); unsigned m = (unsigned)sx_sym("m", 8), d = (unsigned)sx_sym("d", 8), wd = (unsigned)sx_sym("wd", 8); year Y{y}; month M{m}; day D{d};
    bool leap = leapRef(y), mok = m >= 1 && m <= 12, yok = y != -32768; unsigned len = lenRef(y, m);
    CHECK((int)Y == y); CHECK(Y.is_leap() == leap); CHECK(Y.ok() == yok); CHECK(M.ok() == mok); CHECK(D.ok() == (d >= 1 && d <= 31)); CHECK((Y / M).ok() == (yok && mok));
    bool dok = d >= 1 && d <= len; CHECK((Y / M / D).ok() == (yok && mok && dok));
    bool mdok = mok && d >= 1 && d <= (m == 2 ? 29u : len); CHECK((M / D).ok() == mdok); CHECK((M / last).ok() == mok); CHECK((Y / M / last).ok() == (yok && mok));
    if (mok) CHECK((unsigned)(Y / M / last).day() == len);
    weekday W{wd}; CHECK(W.ok() == (wd <= 7)); sx_assume(wd <= 7); { CHECK(W.c_encoding() == wd % 7); CHECK(W.iso_encoding() == (wd == 0 ? 7 : wd)); }
    unsigned i = (unsigned)sx_sym("i", 3); CHECK(W[i].ok() == (wd <= 7 && i >= 1 && i <= 5)); CHECK(W[last].ok() == (wd <= 7)); CHECK((M / W[i]).ok() == (mok && wd <= 7 && i >= 1 && i <= 5)); CHECK((M / W[last]).ok() == (mok && wd <= 7));
    CHECK((Y / M / W[last]).ok() == (yok && mok && wd <= 7));
    sx_reach("ok");
}
static int64_t lin(int y, unsigned m) { return (int64_t)y * 12 + (int64_t)m - 1; }
extern "C" void c25_ymadd() {
    int y = symYear(); unsigned m = (unsigned)sx_param(0) + 1; int dm = (int)sx_range("dm", 0, (uint64_t)sx_param(1)); if (sx_split(sx_bool("neg"))) dm = -dm; int64_t t = lin(y, m) + dm; sx_assume(t >= lin(-32767, 1)); sx_assume(t <= lin(32767, 12));
    year_month a = year{y} / month{m}; year_month r = a + months{dm}; unsigned rm = (unsigned)r.month(); CHECK(rm >= 1); CHECK(rm <= 12); CHECK(lin((int)r.year(), rm) == t);
    sx_reach("ymadd");
}
extern "C" void c25_arith() {
    int y = symYear(); unsigned m = (unsigned)sx_param(0) + 1; unsigned d = (unsigned)sx_range("d", 1, 31); year Y{y}; month M{m}; day D{d};
    int dm = (int)sx_range("dm", 0, 60) - 30; int64_t t = lin(y, m) + dm; sx_assume(t >= lin(-32767, 1)); sx_assume(t <= lin(32767, 12));
    year_month a = Y / M, r = a + months{dm}, c = a; months mm{dm}; unsigned rm = (unsigned)r.month(); CHECK(rm >= 1); CHECK(rm <= 12); CHECK(lin((int)r.year(), rm) == t); CHECK(r - a == mm);
    CHECK(mm + a == r); CHECK(a - -mm == r); c += mm; CHECK(c == r); c -= mm; CHECK(c == a);
    year_month_day q = a / D, z = q; CHECK(q + mm == r / D); CHECK(mm + q == r / D); CHECK(q - -mm == r / D); z += mm; CHECK(z == r / D); z -= mm; CHECK(z == q);
    year_month_day_last l = a / last, lz = l; CHECK(l + mm == r / last); CHECK(mm + l == r / last); CHECK(l - -mm == r / last); lz += mm; CHECK(lz == r / last); lz -= mm; CHECK(lz == l);
    weekday W{d % 7}; year_month_weekday w = a / W[2]; CHECK(w + mm == r / W[2]); CHECK(w - -mm == r / W[2]); CHECK(mm + w == r / W[2]); year_month_weekday_last wl = a / W[last]; CHECK(wl + mm == r / W[last]); CHECK(wl - -mm == r / W[last]); CHECK(mm + wl == r / W[last]);
    { month k = M + mm; CHECK(k == r.month()); CHECK(mm + M == k); CHECK(M - -mm == k); month j = M; j += mm; CHECK(j == k); j -= mm; CHECK(j == M); months diff = k - M; CHECK(diff.count() >= 0); CHECK(diff.count() <= 11); CHECK(M + diff == k); month n = M; CHECK(++n == M + months{1}); CHECK(n-- == M + months{1}); CHECK(n == M); CHECK(--n == M - months{1}); CHECK(n++ == M - months{1}); }
    sx_observe(rm); sx_reach("arith");
}
extern "C" void c25_years() {
    int y = symYear(), dy = (int)(int16_t)sx_sym("dy", 16); sx_assume(y + dy >= -32767); sx_assume(y + dy <= 32767); unsigned m = (unsigned)sx_range("m", 1, 12), d = (unsigned)sx_range("d", 1, 31); year Y{y}, R{y + dy}; month M{m}; day D{d}; years ys{dy};
    CHECK((int)(Y + ys) == y + dy); CHECK(ys + Y == R); CHECK(R - ys == Y); CHECK(R - Y == ys); year k = Y; k += ys; CHECK(k == R); k -= ys; CHECK(k == Y); CHECK((int)-Y == -y); CHECK(+Y == Y);
    if (y < 32767) { CHECK((int)++k == y + 1); CHECK((int)k-- == y + 1); CHECK(k == Y); } if (y > -32767) { CHECK((int)--k == y - 1); CHECK((int)k++ == y - 1); CHECK(k == Y); }
    year_month a = Y / M; CHECK(a + ys == R / M); CHECK(ys + a == R / M); CHECK(R / M - ys == a); year_month_day q = a / D; CHECK(q + ys == R / M / D); CHECK(ys + q == R / M / D); CHECK((R / M / D) - ys == q); auto z = q; z += ys; CHECK(z == R / M / D); z -= ys; CHECK(z == q);
    year_month_day_last l = a / last; CHECK(l + ys == R / M / last); CHECK(ys + l == R / M / last); CHECK((R / M / last) - ys == l);
    year_month_weekday w = a / Monday[2]; CHECK(w + ys == R / M / Monday[2]); CHECK(ys + w == R / M / Monday[2]); CHECK((R / M / Monday[2]) - ys == w); year_month_weekday_last wl = a / Monday[last]; CHECK(wl + ys == R / M / Monday[last]); CHECK((R / M / Monday[last]) - ys == wl);
    // every way of writing a date
    CHECK(Y / M / D == q); CHECK(D / M / Y == q); CHECK(M / D / Y == q); CHECK(Y / (int)m / (int)d == q); CHECK(D / (int)m / y == q); CHECK(M / (int)d / y == q); CHECK(y / (M / D) == q); CHECK(Y / M / (int)d == q);
    CHECK(l == M / last / Y); CHECK(l == y / (M / last)); CHECK(l == (last / M) / y); CHECK(l == Y / ((int)m / last)); CHECK(w == M / Monday[2] / Y); CHECK(w == (Monday[2] / M) / y); CHECK(wl == M / Monday[last] / Y); CHECK(wl == y / (Monday[last] / M));
    CHECK(q.year() == Y); CHECK(q.month() == M); CHECK(q.day() == D); CHECK(l.year() == Y); CHECK(l.month() == M); CHECK(w.year() == Y); CHECK(w.month() == M); CHECK(w.index() == 2); CHECK(w.weekday() == Monday); CHECK(wl.weekday() == Monday);
    sx_reach("years");
}
extern "C" void c25_weekdays() {
    unsigned w = (unsigned)sx_conc(sx_pick("w", 7)), v = (unsigned)sx_conc(sx_pick("v", 7)); int n = (int)sx_range("n", 0, (uint64_t)sx_param(0)); if (sx_split(sx_bool("neg"))) n = -n; weekday W{w}, V{v}; days dn{n};
    weekday r = W + dn; CHECK(r.ok()); int k = (int)w + n; // r congruent to k modulo 7
    CHECK((k - (int)r.c_encoding()) % 7 == 0); CHECK(dn + W == r); CHECK(W - -dn == r); weekday a = W; a += dn; CHECK(a == r); a -= dn; CHECK(a == W);
    days df = W - V; CHECK(df.count() >= 0); CHECK(df.count() <= 6); CHECK(V + df == W); CHECK(++a == W + days{1}); CHECK(a-- == W + days{1}); CHECK(--a == W - days{1}); CHECK(a++ == W - days{1}); CHECK(a == W); CHECK((W == V) == (w == v)); CHECK((W != V) == (w != v));
    CHECK(Sunday.c_encoding() == 0); CHECK(Monday.c_encoding() == 1); CHECK(Tuesday.c_encoding() == 2); CHECK(Wednesday.c_encoding() == 3); CHECK(Thursday.c_encoding() == 4); CHECK(Friday.c_encoding() == 5); CHECK(Saturday.c_encoding() == 6);
    CHECK((unsigned)January == 1); CHECK((unsigned)February == 2); CHECK((unsigned)March == 3); CHECK((unsigned)April == 4); CHECK((unsigned)May == 5); CHECK((unsigned)June == 6); CHECK((unsigned)July == 7); CHECK((unsigned)August == 8); CHECK((unsigned)September == 9); CHECK((unsigned)October == 10); CHECK((unsigned)November == 11); CHECK((unsigned)December == 12);
    unsigned x = (unsigned)sx_range("x", 2, 250), z = (unsigned)sx_range("z", 0, 250); day D{x}; CHECK((unsigned)(D + days{3}) == x + 3); CHECK((unsigned)(D - days{1}) == x - 1); CHECK((day{z} - D).count() == (int)z - (int)x); day e = D; CHECK((unsigned)++e == x + 1); CHECK((unsigned)e-- == x + 1); CHECK((unsigned)--e == x - 1); CHECK((unsigned)e++ == x - 1); e += days{2}; CHECK((unsigned)e == x + 2); e -= days{2}; CHECK(e == D);
    sx_reach("weekdays");
}
template <typename T> static void order(const T& a, const T& b, int c, const char* m) { sx_check((a == b) == (c == 0), m); sx_check((a != b) == (c != 0), m); sx_check((a < b) == (c < 0), m); sx_check((a > b) == (c > 0), m); sx_check((a <= b) == (c <= 0), m); sx_check((a >= b) == (c >= 0), m); }
static int cmp3(int a, int b) { return a < b ? -1 : a > b ? 1 : 0; }
extern "C" void c25_order() {
    int y1 = (int)(int16_t)sx_sym("y", 16), y2 = (int)(int16_t)sx_sym("y", 16); unsigned m1 = (unsigned)sx_sym("m", 8), m2 = (unsigned)sx_sym("m", 8), d1 = (unsigned)sx_sym("d", 8), d2 = (unsigned)sx_sym("d", 8);
    int cy = cmp3(y1, y2), cm = cmp3((int)m1, (int)m2), cd = cmp3((int)d1, (int)d2), ym = cy ? cy : cm, ymd = ym ? ym : cd, md = cm ? cm : cd; year Y1{y1}, Y2{y2}; month M1{m1}, M2{m2}; day D1{d1}, D2{d2};
    order(Y1, Y2, cy, "year order"); order(M1, M2, cm, "month order"); order(D1, D2, cd, "day order"); order(Y1 / M1, Y2 / M2, ym, "year_month order"); order(M1 / D1, M2 / D2, md, "month_day order"); order(Y1 / M1 / D1, Y2 / M2 / D2, ymd, "year_month_day order"); order(M1 / last, M2 / last, cm, "month_day_last order"); order(Y1 / M1 / last, Y2 / M2 / last, ym, "year_month_day_last order");
    CHECK((Monday[1] == Monday[2]) == false); CHECK(Monday[1] == Monday[1]); CHECK(Monday[last] != Tuesday[last]);
    sx_reach("order");
}
// rounding between units: From counts N per To unit
template <typename From, typename To, long N> static void rounding() {
    int32_t v = (int32_t)sx_sym("v", (unsigned)sx_param(1)); if (sx_split(sx_bool("neg"))) v = -v; From d{v}; int64_t t = (int64_t)v;
    int64_t f = floor<To>(d).count(), c = ceil<To>(d).count(), r = round<To>(d).count(), k = trunc<To>(d).count();
    CHECKM(f * N <= t && t < (f + 1) * N, "floor"); CHECKM((c - 1) * N < t && t <= c * N, "ceil"); CHECKM(t >= 0 ? k == f : k == c, "trunc");
    int64_t lo = t - f * N, hi = (f + 1) * N - t; if (lo < hi) CHECKM(r == f, "round down"); else if (lo > hi) CHECKM(r == f + 1, "round up"); else { CHECKM(r == f || r == f + 1, "round"); CHECKM((r & 1) == 0, "tie to even"); }
    using TP = std::chrono::time_point<std::chrono::system_clock, From>; TP tp{d}; CHECK(floor<To>(tp).time_since_epoch().count() == f); CHECK(ceil<To>(tp).time_since_epoch().count() == c); CHECK(round<To>(tp).time_since_epoch().count() == r); CHECK(trunc<To>(tp).time_since_epoch().count() == k);
    sx_observe((uint64_t)f); sx_observe((uint64_t)r); sx_reach("rounding");
}
using s32 = duration<int32_t>; using ms32 = duration<int32_t, std::milli>; using min32 = duration<int32_t, std::ratio<60>>; using h32 = duration<int32_t, std::ratio<3600>>;
extern "C" void c25_rounding() {
    switch (sx_param(0)) {
    case 0: rounding<std::chrono::milliseconds, std::chrono::seconds, 1000>(); break;
    case 1: rounding<std::chrono::seconds, days, 86400>(); break;
    case 2: rounding<min32, h32, 60>(); break;
    case 3: rounding<std::chrono::hours, days, 24>(); break;
    case 4: rounding<days, weeks, 7>(); break;
    case 5: rounding<s32, duration<int32_t, std::ratio<2>>, 2>(); break;
    case 6: rounding<ms32, s32, 1000>(); break;
    }
}
template <typename D, long N> static void tod() { // N units per second
    int32_t v = (int32_t)sx_sym("v", (unsigned)sx_param(1)); if (sx_split(sx_bool("neg"))) { sx_assume(v != 0); v = -v; } hh_mm_ss<D> t{D{v}};
    int64_t h = t.hours().count(), m = t.minutes().count(), s = t.seconds().count(); int64_t sub = (int64_t)t.subseconds().count(); int64_t a = v < 0 ? -(int64_t)v : v;
    CHECK(h >= 0); CHECK(m >= 0); CHECK(m < 60); CHECK(s >= 0); CHECK(s < 60); CHECK(sub >= 0); CHECK(sub < N); CHECK(((h * 60 + m) * 60 + s) * N + sub == a); CHECK(t.is_negative() == (v < 0));
    CHECK((int64_t)t.to_duration().count() == v); CHECK(typename hh_mm_ss<D>::precision(t).count() == v); CHECK(t.in_conventional_range() == (v >= 0 && h < 24));
    CHECK(make_time(D{v}).hours() == t.hours()); sx_observe((uint64_t)h); sx_observe((uint64_t)s); sx_reach("tod");
}
extern "C" void c25_tod() {
    switch (sx_param(0)) { case 0: tod<std::chrono::seconds, 1>(); break; case 1: tod<std::chrono::milliseconds, 1000>(); break; case 2: tod<std::chrono::microseconds, 1000000>(); break; case 3: tod<std::chrono::nanoseconds, 1000000000>(); break; }
}
extern "C" void c25_hours() {
    int h = (int)sx_range("h", 0, 23); using H = std::chrono::hours; H t{h}; CHECK(is_am(t) == (h < 12)); CHECK(is_pm(t) == (h >= 12)); int n = (int)make12(t).count(); CHECK(n >= 1); CHECK(n <= 12); CHECK(n % 12 == h % 12); CHECK(make24(make12(t), is_pm(t)) == t);
    CHECK(!is_am(H{24})); CHECK(!is_pm(H{24})); CHECK(!is_am(H{-1})); CHECK(!is_pm(H{-1}));
    sx_reach("hours");
}
