#include "common.h"
#include <atomic>
#include <chrono>
#include <thread>
#include <gul14/Trigger.h>
using namespace gul14; using namespace std::chrono;
typedef std::atomic<int> Ghost;   // bookkeeping of the harness
static int get(Ghost& g) { return g.load(std::memory_order_relaxed); }
static void put(Ghost& g, int v) { g.store(v, std::memory_order_relaxed); }

// One operation on the trigger; returns the state it must have afterwards
static bool act(Trigger& t, bool before, unsigned k) {
    switch (k) { case 0: t.trigger(); return true; case 1: t.reset(); return false; case 2: { Trigger& r = (t = true); CHECKM(&r == &t, "assignment returns the trigger"); return true; }
    case 3: { Trigger& r = (t = false); CHECKM(&r == &t, "assignment returns the trigger"); return false; } default: return before; }
}
// a timed wait of the picked kind; ns: duration
static bool timed(const Trigger& t, unsigned kind, int64_t ns) {
    switch (kind) {
    case 0: return t.wait_for(nanoseconds(ns));
    case 1: return t.wait_until(steady_clock::now() + nanoseconds(ns));
    case 2: return t.wait_until(system_clock::now() + nanoseconds(ns));
    case 3: return t.wait_for(microseconds(ns / 1000));
    default: return t.wait_for(duration<double>(0.25));
    }
}
static int64_t anyNs(unsigned kind) {
    if (kind == 3) return 1000 * (int64_t)sx_pick("us", 4); if (kind == 4) return 250000000;
    return (int64_t)sx_range("ns", 0, 3600000000000ULL) - (int64_t)1000000000;
}
extern "C" void c26_seq() {   // one thread: the state follows the calls; waits return at once when set and time out otherwise
    bool st = sx_pick("init", 2) != 0; Trigger t(st); Trigger dflt; CHECKM(!dflt, "a new trigger is not set");
    CHECKM((bool)t == st, "initial state");
    for (int i = 0; i < (int)sx_param(0); ++i) { st = act(t, st, sx_pick("op", 4)); CHECKM((bool)t == st, "state after a call"); CHECKM((bool)t == st, "state stays"); }
    if (st) t.wait();
    unsigned kind = sx_pick("kind", 5); int64_t ns = anyNs(kind); int64_t t0 = sx_now(); bool r = timed(t, kind, ns); int64_t t1 = sx_now();
    CHECKM(r == st, "a timed wait returns the state of the trigger"); if (!r) CHECKM(t1 - t0 >= ns, "a timed wait that fails lasts as long as asked");
    CHECKM((bool)t == st, "waiting does not change the state"); sx_reach("seq");
}
struct Shared { Trigger t; Ghost everSet{0}, setDone{0}, back{0}; explicit Shared(bool i) : t(i) { put(everSet, i); put(setDone, i); } };
static void waiter(Shared* s) { s->t.wait(); CHECKM(get(s->everSet), "wait() returned although the trigger was never set"); put(s->back, get(s->back) + 1); }
static void timedWaiter(Shared* s, unsigned kind, int64_t ns, bool resets) {
    bool was = get(s->setDone); int64_t t0 = sx_now(); bool r = timed(s->t, kind, ns); int64_t t1 = sx_now();
    if (r) CHECKM(get(s->everSet), "timed wait returned true although the trigger was never set");
    else { CHECKM(t1 - t0 >= ns, "timed wait gave up too early"); if (!resets) CHECKM(!was, "timed wait returned false although the trigger was set"); }
}
extern "C" void c26_wait() {   // n waiters against a sequence of operations that ends with the trigger set
    int n = (int)sx_param(0), k = (int)sx_param(1); Shared s(false); std::thread th[3];
    for (int i = 0; i < n; ++i) th[i] = std::thread(waiter, &s);
    for (int i = 0; i < k; ++i) { unsigned o = sx_pick("op", 2); if (o == 0) put(s.everSet, 1); act(s.t, false, o); }
    put(s.everSet, 1); act(s.t, false, sx_pick("last", 2) * 2);
    for (int i = 0; i < n; ++i) th[i].join();
    CHECKM((bool)s.t, "the trigger stays set"); sx_reach("wait");
}
extern "C" void c26_timed() {   // a timed wait against a concurrent operation
    unsigned kind = sx_pick("kind", 5); int64_t ns = anyNs(kind); bool init = sx_pick("init", 2) != 0; unsigned o = sx_pick("op", 3); Shared s(init);
    std::thread a(timedWaiter, &s, kind, ns, o == 1);
    if (o == 0) { put(s.everSet, 1); s.t.trigger(); put(s.setDone, 1); } else if (o == 1) s.t.reset(); else { put(s.everSet, 1); s.t = true; put(s.setDone, 1); }
    a.join(); CHECKM((bool)s.t == (o != 1), "state at the end"); sx_reach("timed");
}
static void farWaiter(Shared* s, bool sys) {   // a deadline that never comes: only the trigger can end the wait
    bool r = sys ? s->t.wait_until(system_clock::time_point::max()) : s->t.wait_until(steady_clock::time_point::max());
    CHECKM(r, "a timed wait that ended before its deadline returns true"); CHECKM(get(s->everSet), "timed wait returned although the trigger was never set");
}
extern "C" void c26_mixed() {   // timed and untimed waiters are all woken
    bool sys = sx_pick("sys", 2) != 0; unsigned k = sx_pick("second", 3); Shared s(false); std::thread a(farWaiter, &s, sys), b; if (k == 1) b = std::thread(waiter, &s); else if (k == 2) b = std::thread(farWaiter, &s, !sys);
    if (sx_pick("pulse", 2)) { put(s.everSet, 1); s.t.trigger(); s.t.reset(); } 
    put(s.everSet, 1); if (sx_pick("how", 2)) s.t = true; else s.t.trigger();
    a.join(); if (k) b.join(); sx_reach("mixed");
}
extern "C" void c26_two() {   // two threads setting and resetting while a third one waits
    Shared s(false); unsigned o = sx_pick("op", 2);
    std::thread w(waiter, &s); std::thread b([&s, o] { if (o == 0) { put(s.everSet, 1); s.t.trigger(); } else s.t.reset(); });
    b.join(); put(s.everSet, 1); s.t.trigger(); w.join(); CHECKM((bool)s.t, "the trigger stays set"); sx_reach("two");
}
