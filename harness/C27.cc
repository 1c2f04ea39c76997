// The thread pool runs every accepted task exactly once and delivers its result.
#include "common.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <gul14/ThreadPool.h>
using namespace gul14; using namespace std::chrono;
typedef std::atomic<int> Ghost;
static int get(const Ghost& g) { return g.load(std::memory_order_relaxed); }
static void put(Ghost& g, int v) { g.store(v, std::memory_order_relaxed); }
static int add(Ghost& g, int v) { return g.fetch_add(v, std::memory_order_relaxed) + v; }
enum { NT = 6 };
struct Env {   // what the harness knows
    int workers; int64_t start[NT]; Ghost runs[NT], done[NT], seq[NT], active{0}, clock{0}, accepted{0}; bool fifo; int value[NT]; bool exact[NT], gone[NT];
    explicit Env(int w) : workers(w), fifo(false) { for (int i = 0; i < NT; ++i) { start[i] = INT64_MIN; put(runs[i], 0); put(done[i], 0); put(seq[i], 0); value[i] = 0; exact[i] = true; gone[i] = false; } }
    void enter(int i) {
        CHECKM(sx_self() != 0, "a task runs on a thread of the pool"); CHECKM(add(runs[i], 1) == 1, "a task runs only once"); CHECKM(add(active, 1) <= workers, "one task per worker at a time");
        CHECKM(sx_now() >= start[i], "a task was started before its time"); int n = add(clock, 1); put(seq[i], n);
        if (fifo) for (int j = 0; j < i; ++j) if (!gone[j] && exact[i] && exact[j] && start[j] == start[i]) CHECKM(get(runs[j]), "tasks run in order of submission");
        sx_point();
    }
    int leave(int i) { put(done[i], 1); add(active, -1); return value[i]; }
};
static std::shared_ptr<ThreadPool> pool(int w, size_t cap, bool settled) { auto p = make_thread_pool(w, cap); if (settled) sx_quiesce(); return p; }   // settled: all workers are waiting already
struct Boom { int v; };
typedef ThreadPool::TaskHandle<int> H;
// Submission in one of the documented forms; kind: 0 plain, 1 with the pool as argument, 2 throws, 3 named with start time
static H submit(ThreadPool& p, Env& e, int i, unsigned kind) {
    Env* q = &e;
    switch (kind) {
    case 0: return p.add_task([q, i] { q->enter(i); return q->leave(i); });
    case 1: { ThreadPool* a = &p; return p.add_task([q, i, a](ThreadPool& r) { CHECKM(&r == a, "the task is given its pool"); q->enter(i); return q->leave(i); }, "name"); }
    case 2: return p.add_task([q, i]() -> int { q->enter(i); throw Boom{ q->leave(i) }; }, std::string("n"));
    default: return p.add_task([q, i](ThreadPool&) { q->enter(i); return q->leave(i); }, system_clock::time_point(nanoseconds(0)), "t");
    }
}
static void collect(H& h, Env& e, int i, unsigned kind) {
    int v = -1; bool threw = false; try { v = h.get_result(); } catch (const Boom& b) { threw = true; v = b.v; }
    CHECKM(threw == (kind == 2), "the handle delivers the value or the exception"); CHECKM(v == e.value[i], "the handle delivers what the task produced");
    CHECKM(get(e.runs[i]) == 1, "the task has run once"); CHECKM(get(e.done[i]), "the result is available only after the task has finished");
}
extern "C" void c27_run() {   // w workers, n tasks, results collected in either order
    int w = (int)sx_param(0), n = (int)sx_param(1); Env e(w); e.fifo = w == 1; unsigned kind = (unsigned)sx_param(3) & 3; bool back = sx_param(3) > 3;
    { auto p = pool(w, 9, sx_param(2) != 0); CHECKM(p->count_threads() == (size_t)w, "number of threads"); H h[NT];
      for (int i = 0; i < n; ++i) { e.value[i] = (int)sx_sym("value", 32); h[i] = submit(*p, e, i, (kind + i) & 3); }
      for (int k = 0; k < n; ++k) { int i = back ? n - 1 - k : k; collect(h[i], e, i, (kind + i) & 3); }
      p.reset(); }
    for (int i = 0; i < n; ++i) CHECKM(get(e.runs[i]) == 1, "every task has run once"); CHECKM(get(e.active) == 0, "nothing runs any more"); sx_reach("run");
}
extern "C" void c27_delay() {   // tasks with arbitrary start times
    int w = (int)sx_param(0), n = (int)sx_param(1); Env e(w); e.fifo = w == 1; auto p = pool(w, 9, sx_param(2) != 0); H h[NT]; Env* q = &e; unsigned code = (unsigned)sx_param(3);
    for (int i = 0; i < n; ++i) {
        e.value[i] = i + 1; int64_t d = 0; unsigned how = code % 3; code /= 3;
        if (how) d = sx_pick("past", 2) ? -1000000000LL : (int64_t)sx_range("delay", 0, 3600000000000ULL);
        if (how == 0) h[i] = p->add_task([q, i] { q->enter(i); return q->leave(i); });
        else if (how == 1) { int64_t t = sx_now(); e.start[i] = t + d; h[i] = p->add_task([q, i] { q->enter(i); return q->leave(i); }, system_clock::time_point(nanoseconds(t + d))); }
        else { e.exact[i] = false; e.start[i] = sx_now() + d; h[i] = p->add_task([q, i](ThreadPool&) { q->enter(i); return q->leave(i); }, nanoseconds(d), "later"); }
    }
    for (int i = 0; i < n; ++i) collect(h[i], e, i, 0);
    p.reset(); sx_reach("delay");
}
extern "C" void c27_two() {   // two threads submit to the same pool
    int w = (int)sx_param(0); Env e(w); auto p = pool(w, 9, sx_param(1) != 0); H a, b; 
    std::thread t([&] { a = submit(*p, e, 0, 0); collect(a, e, 0, 0); }); b = submit(*p, e, 1, 2); collect(b, e, 1, 2); t.join();
    CHECKM(p->count_pending() == 0, "nothing is left"); p.reset(); sx_reach("two");
}
extern "C" void c27_capacity() {   // a full queue rejects, and only a full queue does
    int w = (int)sx_param(0), cap = (int)sx_param(1), n = (int)sx_param(2); Env e(w); auto p = pool(w, cap, sx_param(3) != 0); CHECKM(p->capacity() == (size_t)cap, "capacity"); H h[NT]; bool in[NT]; int acc = 0;
    for (int i = 0; i < n; ++i) {
        e.value[i] = i + 7; int s = 0; for (int j = 0; j < i; ++j) s += get(e.runs[j]);
        try { h[i] = submit(*p, e, i, 0); in[i] = true; ++acc; } catch (const std::runtime_error&) { in[i] = false; CHECKM(acc - s >= cap, "rejected although there was room"); }
        size_t c = p->count_pending(); CHECKM(c <= (size_t)cap, "more pending tasks than the capacity");
        int s2 = 0; for (int j = 0; j <= i; ++j) s2 += get(e.runs[j]); CHECKM(acc - s2 <= cap + w, "more tasks accepted than fit");
    }
    for (int i = 0; i < n; ++i) if (in[i]) collect(h[i], e, i, 0);
    p.reset(); for (int i = 0; i < n; ++i) CHECKM(get(e.runs[i]) == (in[i] ? 1 : 0), "accepted tasks run once, rejected ones never"); sx_reach("capacity");
}
extern "C" void c27_full() {   // the only worker is busy: exactly the capacity is accepted
    int cap = (int)sx_param(0); Env e(1); e.fifo = true; auto p = make_thread_pool(1, cap); std::promise<void> go, up; auto f = go.get_future(); Env* q = &e; H h[NT]; e.value[0] = 3;
    h[0] = p->add_task([q, &f, &up] { q->enter(0); up.set_value(); f.get(); return q->leave(0); }); up.get_future().get();
    for (int i = 1; i <= cap; ++i) { e.value[i] = i; CHECKM(!p->is_full(), "there is room"); h[i] = submit(*p, e, i, i & 3); CHECKM(p->count_pending() == (size_t)i, "number of pending tasks"); }
    CHECKM(p->is_full(), "the queue is full"); bool threw = false; try { submit(*p, e, cap + 1, sx_pick("kind", 4)); } catch (const std::runtime_error&) { threw = true; } CHECKM(threw, "a full queue rejects the task"); CHECKM(p->count_pending() == (size_t)cap, "a rejected task is not queued");
    go.set_value(); collect(h[0], e, 0, 0); for (int i = 1; i <= cap; ++i) collect(h[i], e, i, i & 3); p.reset(); CHECKM(get(e.runs[cap + 1]) == 0, "a rejected task never runs"); sx_reach("full");
}
extern "C" void c27_queue() {   // a queue with different start times; some tasks are cancelled while the only worker is busy; the others keep their order
    int n = (int)sx_param(0); Env e(1); e.fifo = true; auto p = make_thread_pool(1, n + 1); std::promise<void> go, up; auto f = go.get_future(); Env* q = &e; H h[NT]; e.value[0] = 3; unsigned late = (unsigned)sx_param(1), c1 = (unsigned)sx_param(2);
    h[0] = p->add_task([q, &f, &up] { q->enter(0); up.set_value(); f.get(); return q->leave(0); }); up.get_future().get(); int64_t t0 = sx_now();
    for (int i = 1; i <= n; ++i) { e.value[i] = i; if (late >> i & 1) { e.start[i] = t0 + 5000; h[i] = p->add_task([q, i] { q->enter(i); return q->leave(i); }, system_clock::time_point(nanoseconds(t0 + 5000)), "t" + std::string(i, 'x')); } else h[i] = p->add_task([q, i] { q->enter(i); return q->leave(i); }, "t" + std::string(i, 'x')); }
    int left = n; for (int i = 1; i <= n; ++i) if (c1 >> i & 1) { e.gone[i] = true; CHECKM(h[i].cancel(), "a pending task can be cancelled"); --left; }
    auto names = p->get_pending_task_names(); CHECKM(names.size() == (size_t)left, "number of names"); for (int i = 1; i <= n; ++i) { int k = 0; for (auto& s : names) k += s == "t" + std::string(i, 'x'); CHECKM(k == (e.gone[i] ? 0 : 1), "names of the pending tasks"); }
    go.set_value(); collect(h[0], e, 0, 0); for (int i = 1; i <= n; ++i) if (!e.gone[i]) collect(h[i], e, i, 0);
    p.reset(); for (int i = 1; i <= n; ++i) CHECKM(get(e.runs[i]) == (e.gone[i] ? 0 : 1), "cancelled tasks never run, the others once"); sx_reach("queue");
}
extern "C" void c27_nested() {   // a task that submits a task and, with a second worker, waits for it
    int w = (int)sx_param(0); Env e(w); Env* q = &e; e.value[0] = 1; e.value[1] = 2; auto p = pool(w, 9, sx_param(1) != 0); H inner; unsigned late = (unsigned)sx_param(2);
    auto h = p->add_task([q, &inner, w, late](ThreadPool& r) { q->enter(0); if (late) { int64_t d = 1000; q->start[1] = sx_now() + d; inner = r.add_task([q] { q->enter(1); return q->leave(1); }, nanoseconds(d)); } else inner = r.add_task([q] { q->enter(1); return q->leave(1); }); if (w > 1) collect(inner, *q, 1, 0); return q->leave(0); });
    collect(h, e, 0, 0); if (w == 1) collect(inner, e, 1, 0); p.reset(); sx_reach("nested");
}
extern "C" void c27_progress() {   // a task that waits for a later one is no obstacle while another worker is idle
    int w = (int)sx_param(0); Env e(w); Env* q = &e; auto p = pool(w, 9, sx_param(1) != 0); std::promise<void> sig; auto f = sig.get_future(); unsigned late = (unsigned)sx_param(2); int64_t d = 0; if (late) { d = (int64_t)sx_range("delay", 0, 1000000000); }
    H a, b; if (late) { e.start[1] = sx_now() + d; }
    if (late == 1) b = p->add_task([q, &sig] { q->enter(1); sig.set_value(); return q->leave(1); }, nanoseconds(d));
    if (late == 1) sx_quiesce();
    a = p->add_task([q, &f] { q->enter(0); f.get(); return q->leave(0); });
    if (late != 1) b = p->add_task([q, &sig] { q->enter(1); sig.set_value(); return q->leave(1); }, nanoseconds(d));
    collect(a, e, 0, 0); collect(b, e, 1, 0); p.reset(); sx_reach("progress");
}
extern "C" void c27_void() {   // other result types: void, a reference-free object, an exception from a void task
    auto p = make_thread_pool(1); int x = 0; auto h = p->add_task([&x] { x = 5; }); auto s = p->add_task([](ThreadPool&) { return std::string("result"); }, "s"); auto t = p->add_task([] { throw Boom{ 9 }; });
    h.get_result(); CHECKM(x == 5, "effects are visible when the result is"); CHECKM(s.get_result() == "result", "value"); bool threw = false; try { t.get_result(); } catch (const Boom& b) { threw = b.v == 9; } CHECKM(threw, "exception");
    std::unique_ptr<int> m(new int(4)); struct Mv { std::unique_ptr<int> p; std::unique_ptr<int> operator()(ThreadPool&) { return std::move(p); } }; auto u = p->add_task(Mv{ std::move(m) }); auto r = u.get_result(); CHECKM(r && *r == 4, "moved result"); p.reset(); sx_reach("void");
}
extern "C" void c27_args() {   // invalid pools are refused
    unsigned k = sx_pick("k", 5); bool threw = false; size_t n = k == 0 ? 0 : k == 1 ? ThreadPool::max_threads + 1 : 1, c = k == 2 ? 0 : k == 3 ? ThreadPool::max_capacity + 1 : 1;
    try { auto p = make_thread_pool(n, c); CHECKM(p->count_threads() == n, "threads"); CHECKM(p->capacity() == c, "capacity"); CHECKM(p->is_idle() && !p->is_full(), "a new pool is idle"); } catch (const std::invalid_argument&) { threw = true; } CHECKM(threw == (k < 4), "invalid numbers are refused"); sx_reach("args");
}
struct Peek { ThreadPool* p; Ghost* n; Peek(ThreadPool* q, Ghost* g) : p(q), n(g) {} Peek(Peek&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; } ~Peek() { if (p) { CHECKM(p->count_pending() <= 5, "the pool can be used"); add(*n, 1); } } };
extern "C" void c27_capture() {   // objects held by a task may use the pool when they are destroyed
    Ghost n{0}; auto p = make_thread_pool(1); struct F { Peek k; int operator()(ThreadPool&) { return 6; } }; unsigned how = sx_pick("how", 3);
    { auto h = p->add_task(F{ Peek(p.get(), &n) }, system_clock::time_point(nanoseconds(how ? INT64_MAX : 0)));
      if (how == 0 && sx_pick("keep", 2)) CHECKM(h.get_result() == 6, "result"); else if (how == 1) { CHECKM(h.cancel(), "cancelled"); CHECKM(get(n) == 1, "a cancelled task is gone"); } }
    if (how == 2) { CHECKM(p->cancel_pending_tasks() == 1, "cancelled"); CHECKM(get(n) == 1, "a cancelled task is gone"); } else sx_quiesce();
    CHECKM(p->is_idle(), "idle"); p.reset(); CHECKM(get(n) == 1, "the task object is destroyed once"); sx_reach("capture");
}
