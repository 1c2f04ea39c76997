// The thread pool survives failing memory allocations.
#include "common.h"
#include <atomic>
#include <chrono>
#include <future>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include <gul14/ThreadPool.h>
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
using namespace gul14; using namespace std::chrono;
typedef std::atomic<int> Ghost;
static int get(const Ghost& g) { return g.load(std::memory_order_relaxed); }
static void add(Ghost& g) { g.fetch_add(1, std::memory_order_relaxed); }
typedef ThreadPool::TaskHandle<int> H;
enum { NT = 4 };
struct Env { Ghost runs[NT]; Env() { for (auto& r : runs) r.store(0); } int body(int i) { add(runs[i]); CHECKM(get(runs[i]) == 1, "a task runs only once"); sx_point(); return i + 40; } };
static void arm() { bool sticky = sx_param(3) != 0; sx_set_alloc_fail((int)sx_make<uint8_t>("fuse"), sticky); }
static void disarm() { sx_set_alloc_fail(-1, 0); }
static const char* LONG = "a task name that does not fit into the string object";
extern "C" void c32_make() {   // creation
    int w = (int)sx_param(0); uint64_t live = sx_live_heap(); bool boom = false;
    { std::shared_ptr<ThreadPool> p; arm(); try { p = make_thread_pool(w); disarm(); } catch (const std::bad_alloc&) { boom = true; disarm(); sx_reach("makefail"); }
      CHECKM(!!p != boom, "a pool or an exception"); if (p) { Env e; Env* q = &e; CHECKM(p->count_threads() == (size_t)w, "threads"); H h = p->add_task([q] { return q->body(0); }); CHECKM(h.get_result() == 40, "result"); } }
    CHECKM(sx_live_heap() == live, "nothing is leaked"); sx_observe(boom); sx_reach("make");
}
extern "C" void c32_add() {   // submission while another task may be running
    int w = (int)sx_param(0); int kind = (int)sx_param(1); bool before = sx_param(2) != 0; uint64_t live = sx_live_heap(); bool boom = false;
    { Env e; Env* q = &e; auto p = make_thread_pool(w); H h0, h1, h2; if (before) h0 = p->add_task([q] { return q->body(0); }, LONG); arm();
      try {
          switch (kind) {
          case 0: h1 = p->add_task([q] { return q->body(1); }); break;
          case 1: h1 = p->add_task([q](ThreadPool&) { return q->body(1); }, LONG); break;
          default: h1 = p->add_task([q] { return q->body(1); }, system_clock::time_point(nanoseconds(1)), LONG); break;
          } if (!before) disarm();
      } catch (const std::bad_alloc&) { boom = true; sx_reach("addfail"); if (!before) disarm(); }
      if (before) { CHECKM(h0.get_result() == 40, "the result of another task is delivered"); disarm(); }
      h2 = p->add_task([q] { return q->body(2); }); CHECKM(h2.get_result() == 42, "the pool goes on working"); if (!boom) CHECKM(h1.get_result() == 41, "an accepted task delivers its result");
      CHECKM(p->count_pending() == 0, "nothing is left"); h0 = H(); h1 = H(); h2 = H(); p.reset(); CHECKM(get(e.runs[1]) == (boom ? 0 : 1), "an accepted task runs once, one whose submission failed never"); }
    CHECKM(sx_live_heap() == live, "nothing is leaked"); sx_reach("add");
}
extern "C" void c32_run() {   // tasks are taken from the queue, executed and cancelled while memory is short
    int n = (int)sx_param(0), w = (int)sx_param(1); bool cancel = sx_param(2) != 0; uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; auto p = make_thread_pool(w); H h[NT]; std::promise<void> go, up; auto f = go.get_future(), u = up.get_future();
      for (int i = 0; i < n; ++i) if (i) h[i] = p->add_task([q, i] { return q->body(i); }, LONG); else h[i] = p->add_task([q, &f, &up] { up.set_value(); f.get(); return q->body(0); }, LONG);
      u.get(); arm(); bool gone = false; if (cancel) gone = h[n - 1].cancel(); bool full = p->is_full(); CHECKM(!full, "not full"); bool idle = p->is_idle(); CHECKM(!idle, "not idle"); go.set_value();
      for (int i = 0; i < n; ++i) if (!(gone && i == n - 1)) CHECKM(h[i].get_result() == i + 40, "result"); CHECKM(!h[0].cancel(), "too late"); disarm();
      for (auto& x : h) x = H(); p.reset(); for (int i = 0; i < n; ++i) CHECKM(get(e.runs[i]) == (gone && i == n - 1 ? 0 : 1), "accepted tasks run once"); }
    CHECKM(sx_live_heap() == live, "nothing is leaked"); sx_reach("run");
}
extern "C" void c32_task() {   // a task that itself runs out of memory reports that through its handle
    uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; auto p = make_thread_pool(1); Ghost ok{0}; auto h = p->add_task([q, &ok] { arm(); try { std::unique_ptr<std::string> s(new std::string(LONG)); std::string t(*s); disarm(); add(ok); return q->body(0); } catch (...) { disarm(); throw; } });
      bool boom = false; try { CHECKM(h.get_result() == 40, "result"); } catch (const std::bad_alloc&) { boom = true; sx_reach("taskfail"); } CHECKM(boom == !get(ok), "the exception is delivered by the handle"); CHECKM(h.is_complete(), "complete");
      auto h2 = p->add_task([q] { return q->body(2); }); CHECKM(h2.get_result() == 42, "the pool goes on working"); }
    CHECKM(sx_live_heap() == live, "nothing is leaked"); sx_reach("task");
}
extern "C" void c32_names() {   // queries
    int kind = (int)sx_param(0); uint64_t live = sx_live_heap();
    { Env e; Env* q = &e; auto p = make_thread_pool(1); std::promise<void> go, up; auto f = go.get_future(), u = up.get_future(); H a = p->add_task([q, &f, &up] { up.set_value(); f.get(); return q->body(0); }, LONG); u.get(); H b = p->add_task([q] { return q->body(1); }, LONG), c = p->add_task([q] { return q->body(2); }, LONG);
      bool boom = false; arm(); try { auto v = kind ? p->get_running_task_names() : p->get_pending_task_names(); disarm(); CHECKM(v.size() == (kind ? 1u : 2u) && v[0] == LONG && v.back() == LONG, "names"); } catch (const std::bad_alloc&) { boom = true; disarm(); sx_reach("namesfail"); }
      CHECKM(p->count_pending() == 2, "the queue is unchanged"); CHECKM(b.get_state() == TaskState::pending, "pending"); go.set_value(); CHECKM(a.get_result() == 40 && b.get_result() == 41 && c.get_result() == 42, "results"); sx_observe(boom); }
    CHECKM(sx_live_heap() == live, "nothing is leaked"); sx_reach("names");
}
extern "C" void c32_trigger() {   // triggers and sleeping need no memory
    Trigger t; Ghost n{0}; { std::thread w([&] { t.wait(); add(n); }); sx_set_alloc_fail(0, 1); if (sx_pick("timed", 2)) CHECKM(!t.wait_for(nanoseconds(5)), "not triggered"); t.trigger(); CHECKM(t.wait_for(nanoseconds(0)), "triggered"); CHECKM(!sleep(nanoseconds(5), t), "cut short"); CHECKM(sleep(nanoseconds(3)), "slept"); sx_set_alloc_fail(-1, 0); w.join(); } CHECKM(get(n) == 1, "woken"); sx_reach("trigger");
}
