#include "common.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <type_traits>
#include <gul14/time_util.h>
using namespace std::chrono;
using gul14::Trigger; using gul14::tic; using gul14::toc;
typedef std::atomic<int> Ghost;
static const double DBL[] = { 0.0, 0.25, 1.5, 1e-9, 0.001, 3600.125, 86400.0, -1.0, -1e-9 };   // exact or not, in nanoseconds below
static const int64_t DBLNS[] = { 0, 250000000, 1500000000, 1, 1000000, 3600125000000LL, 86400000000000LL, -1000000000LL, -1 };
static int64_t amount(const char* n, int64_t hi) { int64_t v = (int64_t)sx_sym(n, 64); sx_assume(v >= -hi && v <= hi); return v; }
// sleeps without a trigger: unit picked, returns the nanoseconds asked for
static bool plain(unsigned u, int64_t& ns) {
    switch (u) {
    case 0: { int64_t v = amount("v", 1000000000000LL); ns = v; return gul14::sleep(nanoseconds(v)); }
    case 1: { int64_t v = amount("v", 1000000000LL); ns = v * 1000; return gul14::sleep(microseconds(v)); }
    case 2: { int64_t v = amount("v", 1000000LL); ns = v * 1000000; return gul14::sleep(milliseconds(v)); }
    case 3: { int64_t v = amount("v", 100000LL); ns = v * 1000000000; return gul14::sleep(seconds(v)); }
    case 4: { int64_t v = amount("v", 1000LL); ns = v * 60000000000LL; return gul14::sleep(minutes(v)); }
    case 5: { int64_t v = (int)sx_pick("v", 4); ns = v * 3600000000000LL; return gul14::sleep(hours(v)); }
    default: { unsigned k = sx_pick("dbl", 9); ns = DBLNS[k]; if (u == 6) return gul14::sleep(DBL[k]); return gul14::sleep(duration<double, std::milli>(DBL[k] * 1000)); }
    }
}
static bool withTrigger(unsigned u, int64_t& ns, const Trigger& t) {
    switch (u) {
    case 0: { int64_t v = amount("v", 1000000000000LL); ns = v; return gul14::sleep(nanoseconds(v), t); }
    case 1: { int64_t v = amount("v", 1000000LL); ns = v * 1000000; return gul14::sleep(milliseconds(v), t); }
    case 2: { int64_t v = amount("v", 100000LL); ns = v * 1000000000; return gul14::sleep(seconds(v), t); }
    default: { unsigned k = sx_pick("dbl", 9); ns = DBLNS[k]; return gul14::sleep(DBL[k], t); }
    }
}
extern "C" void c30_sleep() { int64_t ns = 0, t0 = sx_now(); bool r = plain((unsigned)sx_param(0), ns); int64_t t1 = sx_now(); CHECKM(r, "sleep without a trigger returns true"); CHECKM(t1 - t0 >= ns, "sleep ended too early"); sx_reach("sleep"); }
extern "C" void c30_trigger() {   // one thread: unset - the full time; set - at once
    bool set = sx_pick("set", 2) != 0; Trigger t(set); int64_t ns = 0, t0 = sx_now(); bool r = withTrigger((unsigned)sx_param(0), ns, t); int64_t t1 = sx_now();
    CHECKM(r == !set, "sleep returns false exactly if the trigger is set"); if (r) CHECKM(t1 - t0 >= ns, "sleep ended too early"); CHECKM((bool)t == set, "sleep leaves the trigger alone"); sx_reach("trigger");
}
extern "C" void c30_atonce() {   // a set trigger ends even an endless sleep
    Trigger t(true); bool r = true; switch (sx_pick("u", 4)) { case 0: r = gul14::sleep(4e9, t); break; case 1: r = gul14::sleep(seconds(4000000000LL), t); break; case 2: r = gul14::sleep(hours(1200000), t); break; default: r = gul14::sleep(nanoseconds(4600000000000000000LL), t); }
    CHECKM(!r, "sleep returns false if the trigger is set"); sx_reach("atonce");
}
struct Sh { Trigger t; Ghost ever{0}, done{0}; };
static void sleeper(Sh* s, unsigned u) {
    int was = s->done.load(std::memory_order_relaxed); int64_t ns = 0, t0 = sx_now(); bool r = withTrigger(u, ns, s->t); int64_t t1 = sx_now();
    if (r) { CHECKM(t1 - t0 >= ns, "sleep ended too early"); CHECKM(!was, "sleep returned true although the trigger was set before"); } else CHECKM(s->ever.load(std::memory_order_relaxed), "sleep was cut short without a trigger");
}
extern "C" void c30_cut() { Sh s; std::thread a(sleeper, &s, (unsigned)sx_param(0)); if (sx_pick("set", 2)) { s.ever.store(1, std::memory_order_relaxed); s.t.trigger(); s.done.store(1, std::memory_order_relaxed); } a.join(); sx_reach("cut"); }
extern "C" void c30_woken() {   // an endless sleep (the clock model never gets to its end) ends when the trigger is set
    sx_assume(sx_now() >= 3000000000000000000LL);
    Sh s; unsigned u = sx_pick("u", 2); std::thread a([&s, u] { bool r = u ? gul14::sleep(4e9, s.t) : gul14::sleep(seconds(4000000000LL), s.t); CHECKM(!r, "sleep was cut short"); CHECKM(s.ever.load(std::memory_order_relaxed), "sleep ended without a trigger"); });
    s.ever.store(1, std::memory_order_relaxed); s.t.trigger(); a.join(); sx_reach("woken");
}
extern "C" void c30_toc() {
    unsigned u = (unsigned)sx_param(0); bool dbl = u >= 6; static const int64_t AT[] = { 1000000007LL, 3000000000123456789LL }; int64_t at = AT[sx_pick("when", 2)]; const int64_t before = at; sx_freeze(at); int64_t d; 
    if (dbl) { static const int64_t D[] = { 0, 1, 250000000, 1500000000, -1500000000, 123456789, 86400000000000LL, -1, 7200000000000LL }; d = D[sx_pick("d", 9)]; } else d = amount("d", (int64_t)1 << 50);
    steady_clock::time_point t0(nanoseconds(before - d));   // the clock is made to stand still, so exactly d has passed

    double x = 0, e = 0;
    switch (u) {
    case 0: { auto v = toc<nanoseconds>(t0); CHECKM(v == d, "elapsed nanoseconds"); break; }
    case 1: { auto v = toc<microseconds>(t0); CHECKM(v == d / 1000, "elapsed microseconds"); break; }
    case 2: { auto v = toc<milliseconds>(t0); CHECKM(v == d / 1000000, "elapsed milliseconds"); break; }
    case 3: { auto v = toc<seconds>(t0); CHECKM(v == d / 1000000000, "elapsed seconds"); break; }
    case 4: { auto v = toc<minutes>(t0); CHECKM(v == d / 60000000000LL, "elapsed minutes"); break; }
    case 5: { auto v = toc<hours>(t0); CHECKM(v == d / 3600000000000LL, "elapsed hours"); break; }
    case 6: { auto v = toc(t0); bool ty = std::is_same<decltype(v), double>::value; CHECKM(ty, "toc() gives seconds as a double"); x = v; e = (double)d / 1e9; break; }
    case 7: { x = toc<duration<double, std::milli>>(t0); e = (double)d / 1e6; break; }
    default: { x = (double)toc<duration<float>>(t0); e = (double)d / 1e9; break; }
    }
    if (dbl) { double tol = u == 8 ? 1e-6 : 1e-15; double diff = x - e; if (diff < 0) diff = -diff; double mag = e < 0 ? -e : e; CHECKM(diff <= mag * tol, "elapsed time"); }
    sx_reach("toc");
}
extern "C" void c30_tic() { int64_t a = sx_now(); auto t = tic(); int64_t b = sx_now(); int64_t v = duration_cast<nanoseconds>(t.time_since_epoch()).count(); CHECKM(v >= a, "tic() is now"); CHECKM(v <= b, "tic() is now"); auto z = toc<nanoseconds>(t); CHECKM(z >= 0, "elapsed time is not negative"); sx_reach("tic"); }
