// Task states and cancellation are truthful.
#include "common.h"
#include <atomic>
#include <chrono>
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <gul14/ThreadPool.h>
using namespace gul14; using namespace std::chrono;
typedef std::atomic<int> Ghost;
static int get(const Ghost& g) { return g.load(std::memory_order_relaxed); }
static void put(Ghost& g, int v) { g.store(v, std::memory_order_relaxed); }
typedef ThreadPool::TaskHandle<int> H;
enum { NT = 5 };
struct Boom { int v; };
struct Task {   // one task and what is known about it
    H h; Ghost started{0}, finished{0}; bool cancelled = false, doomed = false, collected = false, sawRun = false, sawDone = false; int value = 0; bool throws = false;
    static int body(Task* t) { CHECKM(!get(t->started), "a task runs only once"); put(t->started, 1); sx_point(); put(t->finished, 1); if (t->throws) throw Boom{ t->value }; return t->value; }
};
static void launch(ThreadPool& p, Task& t, int64_t start = 0, const char* name = "") { Task* q = &t; t.h = p.add_task([q] { return Task::body(q); }, system_clock::time_point(nanoseconds(start)), name); }
// One look at the state; everything seen before stays true
static TaskState look(Task& t) {
    bool s0 = get(t.started), known = t.sawDone || t.collected; TaskState st = t.h.get_state(); bool f1 = get(t.finished);
    switch (st) {
    case TaskState::pending: CHECKM(!s0, "a task that was started is not pending"); CHECKM(!t.cancelled && !t.sawRun && !known, "states only move forward (pending)"); break;
    case TaskState::running: CHECKM(!t.cancelled && !known, "states only move forward (running)"); t.sawRun = true; break;
    case TaskState::complete: CHECKM(f1, "a task is complete only when it has finished"); CHECKM(!t.cancelled, "a cancelled task is not complete"); t.sawRun = t.sawDone = true; break;
    default: CHECKM(t.cancelled || t.doomed, "a task nobody cancelled is not cancelled"); CHECKM(!s0 && !t.sawRun && !known, "a task that was started is not cancelled"); t.cancelled = true; break;
    }
    return st;
}
static bool complete(Task& t) {
    bool known = t.sawDone || t.collected; bool c = t.h.is_complete(); if (c) { CHECKM(get(t.finished), "a task is complete only when it has finished"); CHECKM(!t.cancelled, "a cancelled task is not complete"); t.sawDone = t.sawRun = true; } else CHECKM(!known, "a complete task stays complete"); return c;
}
static bool cancel(Task& t) {
    bool s0 = get(t.started); bool c = t.h.cancel();
    if (c) { CHECKM(!s0 && !t.sawRun && !t.sawDone && !t.collected, "a task that was started cannot be cancelled"); CHECKM(!t.cancelled, "a task can be cancelled only once"); t.cancelled = true; CHECKM(t.h.get_state() == TaskState::canceled, "a cancelled task is reported as cancelled"); }
    else if (!t.cancelled) t.sawRun = true;
    return c;
}
static void result(Task& t) {   // blocks
    int v = -1; bool threw = false, logic = false; try { v = t.h.get_result(); } catch (const Boom& b) { threw = true; v = b.v; } catch (const std::logic_error&) { logic = true; }
    if (t.cancelled) { CHECKM(logic, "a cancelled task has no result"); return; }
    CHECKM(!logic, "a task that was not cancelled has a result"); CHECKM(threw == t.throws, "value or exception"); CHECKM(v == t.value, "result of the task"); CHECKM(get(t.finished), "result before the end of the task"); t.collected = t.sawRun = t.sawDone = true;
}
static void settle(Task& t) { CHECKM(get(t.started) == (t.cancelled ? 0 : 1), "a cancelled task never runs, any other runs"); }
extern "C" void c28_single() {   // one task, a sequence of operations on its handle
    int w = (int)sx_param(0), n = (int)sx_param(1); Task t; t.value = (int)sx_sym("value", 32); t.throws = sx_pick("throws", 2) != 0; auto p = make_thread_pool(w); launch(*p, t, sx_param(3) ? sx_now() + (int64_t)sx_range("delay", 0, 3600000000000ULL) : 0);
    bool taken = false; unsigned code = (unsigned)sx_param(2);
    for (int i = 0; i < n; ++i) switch (code % 4) { case 0: look(t); code /= 4; break; case 1: complete(t); code /= 4; break; case 2: cancel(t); code /= 4; break; default: if (!taken) { result(t); taken = true; } else { bool l = false; try { t.h.get_result(); } catch (const std::logic_error&) { l = true; } CHECKM(l, "a result can be taken once"); } code /= 4; }
    if (!taken) result(t); look(t); complete(t); CHECKM(!cancel(t) , "nothing left to cancel"); 
    sx_quiesce(); look(t); CHECKM(t.h.get_state() == (t.cancelled ? TaskState::canceled : TaskState::complete), "final state"); CHECKM(p->is_idle() && p->count_pending() == 0 && p->get_running_task_names().empty(), "the pool is idle"); p.reset(); settle(t); sx_reach("single");
}
extern "C" void c28_pool() {   // cancellation through the pool against a starting task
    int w = (int)sx_param(0), n = (int)sx_param(1); bool late = sx_param(2) != 0; Task t[NT]; auto p = make_thread_pool(w); for (int i = 0; i < n; ++i) { t[i].value = 10 + i; launch(*p, t[i], late && i ? INT64_MAX : 0); }
    if (sx_pick("peek", 2)) look(t[n - 1]);
    for (int i = 0; i < n; ++i) t[i].doomed = true; int s0 = 0; for (int i = 0; i < n; ++i) s0 += get(t[i].started);
    size_t c = p->cancel_pending_tasks(); CHECKM(p->count_pending() == 0, "nothing is pending"); CHECKM(c + s0 <= (size_t)n, "number of removed tasks");
    size_t gone = 0; for (int i = 0; i < n; ++i) { complete(t[i]); TaskState st = look(t[i]); CHECKM(st != TaskState::pending, "a removed task is not pending"); if (st == TaskState::canceled) ++gone; }
    CHECKM(gone == c, "the number of removed tasks is returned"); for (int i = 0; i < n; ++i) { if (sx_pick("try", 2)) CHECKM(!cancel(t[i]), "nothing left to cancel"); result(t[i]); complete(t[i]); look(t[i]); }
    sx_quiesce(); CHECKM(p->is_idle(), "the pool is idle"); CHECKM(p->cancel_pending_tasks() == 0, "nothing left to cancel"); p.reset(); for (int i = 0; i < n; ++i) settle(t[i]); sx_reach("pool");
}
extern "C" void c28_many() {   // a busy worker: what is pending, what is cancelled, what is running is known exactly
    int n = (int)sx_param(0); Task t[NT]; auto p = make_thread_pool(1, n); std::promise<void> go, up; auto f = go.get_future(); const char* names[] = { "a", "b", "c", "d" };
    CHECKM(p->is_idle() && p->count_pending() == 0, "a new pool is idle"); H run = p->add_task([&] { up.set_value(); f.get(); return 7; }, "busy"); up.get_future().get();
    CHECKM(run.get_state() == TaskState::running && !run.is_complete(), "running"); for (int i = 0; i < n; ++i) { t[i].value = i; launch(*p, t[i], 0, names[i]); }
    unsigned mask = sx_pick("mask", 1u << n); int left = n;
    for (int i = 0; i < n; ++i) if (mask >> i & 1) { CHECKM(cancel(t[i]), "a pending task can be cancelled"); --left; }
    for (int i = 0; i < n; ++i) { TaskState st = look(t[i]); CHECKM(st == (mask >> i & 1 ? TaskState::canceled : TaskState::pending), "state of a pending or cancelled task"); CHECKM(!complete(t[i]), "not complete"); }
    CHECKM(p->count_pending() == (size_t)left, "number of pending tasks"); CHECKM(p->is_full() == (left == n), "full"); CHECKM(!p->is_idle(), "not idle"); CHECKM(!run.cancel(), "a running task cannot be cancelled"); CHECKM(run.get_state() == TaskState::running, "running");
    auto pn = p->get_pending_task_names(); CHECKM(pn.size() == (size_t)left, "names of the pending tasks"); for (int i = 0; i < n; ++i) { int k = 0; for (auto& s : pn) k += s == names[i]; CHECKM(k == (mask >> i & 1 ? 0 : 1), "name of a pending task"); }
    auto rn = p->get_running_task_names(); CHECKM(rn.size() == 1 && rn[0] == "busy", "names of the running tasks"); CHECKM(!p->is_shutdown_requested(), "no shutdown");
    go.set_value(); CHECKM(run.get_result() == 7, "an unsuccessful cancellation keeps the result"); CHECKM(run.is_complete() && run.get_state() == TaskState::complete, "complete");
    for (int i = 0; i < n; ++i) { result(t[i]); look(t[i]); } sx_quiesce(); CHECKM(p->is_idle(), "idle"); p.reset(); for (int i = 0; i < n; ++i) settle(t[i]); sx_reach("many");
}
extern "C" void c28_watch() {   // two workers, an observer in another thread, cancellation in this one
    int w = (int)sx_param(0), n = (int)sx_param(1); Task a, b; a.value = 1; b.value = 2; auto p = make_thread_pool(w); launch(*p, a); launch(*p, b, sx_param(2) ? INT64_MAX : 0); if (sx_param(2)) b.doomed = true;
    std::thread th([&] { for (int i = 0; i < n; ++i) { size_t c = p->count_pending(); CHECKM(c <= 2, "pending"); bool idle = p->is_idle(); if (idle) CHECKM(get(a.finished), "the pool is idle only if all tasks are finished or cancelled"); look(a); } result(a); look(a); });
    bool c = cancel(b); if (sx_param(2)) CHECKM(c, "a pending task can be cancelled"); complete(b); look(b); result(b); look(b); th.join(); sx_quiesce(); look(a); CHECKM(p->is_idle(), "idle"); p.reset(); settle(a); settle(b); sx_reach("watch");
}
extern "C" void c28_inside() {   // a task asks for its own state and tries to cancel itself, and others
    auto p = make_thread_pool((size_t)sx_param(0)); Task other; other.value = 3; std::promise<H*> me; auto f = me.get_future(); bool bad = false; Ghost ok{0};
    H h = p->add_task([&](ThreadPool& r) { H* s = f.get(); bad = s->get_state() != TaskState::running || s->is_complete() || s->cancel() || r.get_running_task_names().empty() || r.is_idle(); put(ok, 1); return 5; });
    launch(*p, other); me.set_value(&h); CHECKM(h.get_result() == 5, "a task that tried to cancel itself keeps its result"); CHECKM(!bad, "a task sees itself running and cannot cancel itself"); CHECKM(h.get_state() == TaskState::complete && h.is_complete(), "complete");
    result(other); look(other); p.reset(); sx_reach("inside");
}
extern "C" void c28_empty() {   // handles without a task
    H h; bool a = false, b = false, c = false; CHECKM(!h.is_complete(), "not complete"); try { h.get_state(); } catch (const std::logic_error&) { a = true; } try { h.cancel(); } catch (const std::logic_error&) { b = true; } try { h.get_result(); } catch (const std::logic_error&) { c = true; } CHECKM(a && b && c, "an empty handle refuses");
    auto p = make_thread_pool(1); H x = p->add_task([] { return 4; }); H y = std::move(x); CHECKM(!x.is_complete(), "a moved-from handle is empty"); a = false; try { x.get_state(); } catch (const std::logic_error&) { a = true; } CHECKM(a, "a moved-from handle is empty");
    h = std::move(y); TaskState s = h.get_state(); CHECKM(s != TaskState::canceled, "not cancelled"); CHECKM(h.get_result() == 4, "result through a moved handle"); CHECKM(h.get_state() == TaskState::complete, "complete"); p.reset(); sx_reach("empty");
}
