// Destroying a pool stops it cleanly.
#include "common.h"
#include <atomic>
#include <chrono>
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <gul14/ThreadPool.h>
using namespace gul14; using namespace std::chrono;
typedef std::atomic<int> Ghost;
static int get(const Ghost& g) { return g.load(std::memory_order_relaxed); }
static void put(Ghost& g, int v) { g.store(v, std::memory_order_relaxed); }
typedef ThreadPool::TaskHandle<int> H; typedef std::shared_ptr<ThreadPool> P;
enum { NT = 4 };
struct Boom { int v; };
struct Env {
    Ghost started[NT], finished[NT], gone{0}; Env() { for (int i = 0; i < NT; ++i) { put(started[i], 0); put(finished[i], 0); } }
    int body(int i, bool boom = false) { CHECKM(!get(gone), "a task runs although the pool is gone"); CHECKM(!get(started[i]), "a task runs only once"); put(started[i], 1); sx_point(); CHECKM(!get(gone), "destruction waits for running tasks"); put(finished[i], 1); if (boom) throw Boom{ i + 40 }; return i + 40; }
};
// a handle whose pool is gone
static void after(H& h, Env& e, int i, bool boom, bool taken = false) {
    bool ran = get(e.started[i]); CHECKM(!ran || get(e.finished[i]), "a task that was started has finished");
    bool a = false, b = false; try { h.get_state(); } catch (const std::logic_error&) { a = true; } try { h.cancel(); } catch (const std::logic_error&) { b = true; } CHECKM(a && b, "operations needing the pool fail with an exception");
    CHECKM(h.is_complete() == ran, "is_complete() is true exactly for a task that has run"); if (taken) return;
    int v = -1; bool threw = false, logic = false; try { v = h.get_result(); } catch (const Boom& x) { threw = true; v = x.v; } catch (const std::logic_error&) { logic = true; }
    if (ran) { CHECKM(!logic && threw == boom && v == i + 40, "a completed result remains available"); CHECKM(h.is_complete(), "complete"); } else CHECKM(logic, "a discarded task has no result");
}
static void leftovers(uint64_t before) { CHECKM(sx_live_heap() == before, "nothing is leaked"); }
extern "C" void c29_plain() {   // w workers, n tasks, destruction at any moment
    int w = (int)sx_param(0), n = (int)sx_param(1), mode = (int)sx_param(2); uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; { H h[NT]; { P p = make_thread_pool(w);
      for (int i = 0; i < n; ++i) { bool boom = mode == 1 && i == 0; int64_t start = mode == 2 && i == 0 ? INT64_MAX : 0; h[i] = p->add_task([q, i, boom] { return q->body(i, boom); }, system_clock::time_point(nanoseconds(start))); }
      bool took = false; if (mode == 3 && n) { CHECKM(h[0].get_result() == 40, "result"); took = true; }
      p.reset(); put(e.gone, 1); for (int i = 0; i < n; ++i) { if (mode == 2 && i == 0) CHECKM(!get(e.started[0]), "a task was started before its time"); after(h[i], e, i, mode == 1 && i == 0, took && i == 0); } } } }
    leftovers(live); sx_reach("plain");
}
extern "C" void c29_idle() {   // idle and waiting workers, also when time passes
    int w = (int)sx_param(0); uint64_t live = sx_live_heap(); { Env e; Env* q = &e; P p = make_thread_pool(w); H h; bool has = sx_pick("has", 2) != 0; if (has) h = p->add_task([q] { return q->body(0); }, nanoseconds((int64_t)sx_range("delay", 0, 3600000000000ULL))); if (sx_pick("settle", 2)) sx_quiesce(); p.reset(); put(e.gone, 1); if (has) after(h, e, 0, false); } leftovers(live); sx_reach("idle");
}
extern "C" void c29_query() {   // running tasks use the pool while it is being destroyed
    int w = (int)sx_param(0); unsigned k = (unsigned)sx_param(1); uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; P p = make_thread_pool(w); std::promise<void> up; auto f = up.get_future();
      H h = p->add_task([q, k, &up](ThreadPool& r) { up.set_value(); int v = q->body(0); bool threw = false;
          switch (k) {
          case 0: CHECKM(r.count_pending() == 0 && !r.is_full() && !r.is_idle() && r.count_threads() >= 1, "queries work"); CHECKM(r.get_running_task_names().size() == 1 && r.get_pending_task_names().empty(), "queries work"); break;
          case 1: { bool a = r.is_shutdown_requested(), b = r.is_shutdown_requested(); CHECKM(!a || b, "a shutdown request stays"); if (r.cancel_pending_tasks()) CHECKM(false, "nothing was pending"); break; }
          default: try { r.add_task([q] { return q->body(1); }); } catch (const std::exception&) { threw = true; } if (threw) CHECKM(!get(q->started[1]), "a rejected task never runs"); 
          } return v; });
      if (sx_pick("wait", 2)) f.get(); p.reset(); put(e.gone, 1); after(h, e, 0, false); CHECKM(get(e.started[1]) == get(e.finished[1]), "a task that was started has finished"); }
    leftovers(live); sx_reach("query");
}
extern "C" void c29_owner() {   // a task holds a reference to its own pool, possibly the last one
    int w = (int)sx_param(0); bool keep = sx_param(1) != 0; uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; { H h; { P p = make_thread_pool(w); if (keep) h = p->add_task([q, p] { CHECKM(p->count_threads() >= 1, "the pool is alive"); return q->body(0); }); else p->add_task([q, p] { CHECKM(p->count_threads() >= 1, "the pool is alive"); return q->body(0); }); }
      if (keep) { CHECKM(h.get_result() == 40, "result"); CHECKM(h.is_complete(), "complete"); } }
      sx_quiesce(); CHECKM(get(e.finished[0]), "a task that holds the pool is run"); }
    leftovers(live); sx_reach("owner");
}
extern "C" void c29_give() {   // a task drops the last reference while it is still running
    int w = (int)sx_param(0); uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; P p = make_thread_pool(w); P* raw = new P(p); H h = p->add_task([q, raw] { int v = q->body(0); delete raw; sx_point(); return v; }); p.reset();
      CHECKM(h.get_result() == 40, "a completed result remains available"); CHECKM(h.is_complete(), "complete"); sx_quiesce(); after(h, e, 0, false, true); }
    leftovers(live); sx_reach("give");
}
extern "C" void c29_handle() {   // a task looks at a handle (which locks the pool for a moment) during destruction
    int w = (int)sx_param(0); uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; P p = make_thread_pool(w); auto other = std::make_shared<H>(p->add_task([] { return 1; }, system_clock::time_point::max()));
      std::promise<void> up; auto f = up.get_future();
      H h = p->add_task([q, other, &up] { up.set_value(); int v = q->body(0); try { TaskState s = other->get_state(); CHECKM(s == TaskState::pending, "pending"); } catch (const std::logic_error&) {} return v; });
      other.reset(); if (sx_pick("wait", 2)) f.get(); p.reset(); sx_quiesce(); after(h, e, 0, false); }
    leftovers(live); sx_reach("handle");
}
extern "C" void c29_two() {   // two owners in two threads, and a handle in use meanwhile
    int w = (int)sx_param(0); uint64_t live = sx_live_heap(); unsigned k = (unsigned)sx_param(1);
    { Env e; Env* q = &e; P p = make_thread_pool(w); H h = p->add_task([q] { return q->body(0); }); H* hp = &h; P p2 = k == 0 ? p : P();
      std::thread t([&p2, hp, k, q] { if (k == 0) p2.reset(); else { try { if (k == 1) { TaskState s = hp->get_state(); CHECKM(s != TaskState::canceled, "not cancelled"); } else { bool c = hp->cancel(); if (c) CHECKM(!get(q->started[0]), "cancelled before it started"); } } catch (const std::logic_error&) {} } });
      p.reset(); t.join(); put(e.gone, 1); if (k < 2) after(h, e, 0, false); else CHECKM(get(e.started[0]) == get(e.finished[0]), "a task that was started has finished"); }
    leftovers(live); sx_reach("two");
}
extern "C" void c29_fail() {   // a thread cannot be started
    int w = (int)sx_param(0); uint64_t live = sx_live_heap(); int k = (int)sx_pick("ok", (uint32_t)w); sx_set_thread_fail(k); bool threw = false; try { P p = make_thread_pool(w); } catch (const std::system_error&) { threw = true; } sx_set_thread_fail(-1); CHECKM(threw, "failing to start a thread is reported"); leftovers(live);
    { Env e; Env* q = &e; P p = make_thread_pool(w); H h = p->add_task([q] { return q->body(0); }); CHECKM(h.get_result() == 40, "a later pool works"); } leftovers(live); sx_reach("fail");
}
