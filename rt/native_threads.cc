// Controlled scheduler for native replays: exactly one thread runs at a time and control passes at the same
// operations as in the engine (mutex lock, condition wait/notify, futex wait, join, sleep, thread start and end),
// following the recorded schedule. The pthread functions and futex system calls of the natively compiled code and of
// libstdc++ are interposed; the clock is the recorded one.
#include "sx.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/syscall.h>
#include <unistd.h>
unsigned __int128 sxNative_next(const char* name); bool sxNative_has(); void sxNative_finish(int rc, const char* what);
namespace {
enum Pend { NONE, LOCK, TRYLOCK, CONDWAKE, JOIN, YIELD, FUTEX, SLEEP, START, ATOMIC };
enum { NORMAL, TIMEOUT, SPUR };
struct Th { bool used, done; Pend pend; const void* a; const void* a2; unsigned long join; bool notified, timed, quiesce; int mode; int64_t deadline; sem_t sem; pthread_t pt; void* (*fn)(void*); void* arg; };
Th th[64]; unsigned nth = 1; unsigned cur = 0; bool multi = false; thread_local unsigned me = 0;
struct Own { const void* m; unsigned t; } own[256]; unsigned nown; int64_t now_ = 1700000000000000000LL; int failAfter = -1; int64_t frozenAt = -1;
unsigned& owner(const void* m) { for (unsigned i = 0; i < nown; ++i) if (own[i].m == m) return own[i].t; if (nown == 256) sxNative_finish(5, "too many mutexes"); own[nown] = { m, 0 }; return own[nown++].t; }
bool enabled(unsigned t) {
    Th& x = th[t]; if (x.done) return false;
    switch (x.pend) { case LOCK: return !owner(x.a); case CONDWAKE: return (x.notified || x.timed) && !owner(x.a2); case FUTEX: return x.notified || x.timed; case JOIN: return th[x.join].done; default: return true; }
}
void pass(bool ended) {   // hand control to the thread the schedule names
    if (!sxNative_has()) {
        bool any = false; for (unsigned t = 0; t < nth; ++t) if (!th[t].done && enabled(t)) any = true;
        if (!any) { printf("CHECK FAILED: deadlock, no thread can go on\n"); sxNative_finish(42, "deadlock"); }
    }
    unsigned v = (unsigned)sxNative_next("sched"), t = v / 4; if (t >= nth || th[t].done) sxNative_finish(5, "diverged: no such thread");
    th[t].mode = (int)(v & 3); cur = t;
    if (t == me && !ended) return;
    sem_post(&th[t].sem);
    if (ended) return;
    while (sem_wait(&th[me].sem)) {}
}
void visible(Pend p, const void* a, bool q = false, unsigned long j = 0) {
    if (!multi) { if (p == LOCK && owner(a)) { printf("CHECK FAILED: deadlock, mutex already held\n"); sxNative_finish(42, "deadlock"); } return; }
    Th& x = th[me]; x.pend = p; x.a = a; x.notified = x.timed = false; x.quiesce = q; x.join = j;
    pass(false); x.pend = NONE;
    if (p == LOCK && owner(a)) sxNative_finish(5, "diverged: mutex is held");
}
int64_t tick() { return now_ = (int64_t)(uint64_t)sxNative_next("clk"); }
void advance(int64_t) { tick(); }
int64_t ns(const timespec* t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
int condWait(const void* c, const void* m, bool timed, int64_t dl) {
    bool far = timed && dl >= (int64_t)3 << 61;
    visible(ATOMIC, c);
    if (!multi) { if (!timed || far) { printf("CHECK FAILED: deadlock, waiting with no other thread\n"); sxNative_finish(42, "deadlock"); } advance(dl); return ETIMEDOUT; }
    owner(m) = 0; Th& x = th[me]; x.pend = CONDWAKE; x.a = c; x.a2 = m; x.notified = false; x.timed = timed && !far; x.deadline = dl;
    pass(false); x.pend = NONE; int r = 0;
    if (x.mode == TIMEOUT) { advance(dl); r = ETIMEDOUT; }
    owner(m) = me + 1; return r;
}
void* tramp(void* p) { Th* x = static_cast<Th*>(p); me = (unsigned)(x - th); while (sem_wait(&x->sem)) {} x->pend = NONE; void* r = x->fn(x->arg); x->done = true; bool all = true; for (unsigned t = 0; t < nth; ++t) if (!th[t].done) all = false; if (!all) pass(true); return r; }
template <typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}
extern "C" {
void sx_set_thread_fail(int n) { failAfter = n; }
void sx_freeze(int64_t at) { frozenAt = at; }
void sx_point(void) { visible(ATOMIC, nullptr); }
void sx_quiesce(void) { if (multi) visible(SLEEP, nullptr, true); }
int64_t sx_now(void) { return tick(); }
uint64_t sx_self(void) { return me; }
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
    if (failAfter == 0) return EAGAIN; if (failAfter > 0) --failAfter;
    multi = true; Th& x = th[nth]; x.used = true; x.pend = START; x.fn = f; x.arg = arg; sem_init(&x.sem, 0, 0); if (nth == 1) sem_init(&th[0].sem, 0, 0); ++nth;
    int r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(t, at, tramp, &x); x.pt = *t; return r;
}
int pthread_join(pthread_t t, void** r) {
    for (unsigned i = 1; i < nth; ++i) if (pthread_equal(th[i].pt, t)) { if (i == me) return EDEADLK; visible(JOIN, nullptr, false, i); if (!th[i].done) sxNative_finish(5, "diverged: join of a running thread"); break; }
    return real<int (*)(pthread_t, void**)>("pthread_join")(t, r);
}
int pthread_mutex_lock(pthread_mutex_t* m) { visible(LOCK, m); owner(m) = me + 1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { visible(TRYLOCK, m); if (owner(m)) return EBUSY; owner(m) = me + 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (owner(m) != me + 1) { printf("CHECK FAILED: unlock of a mutex not held\n"); sxNative_finish(42, "mutex"); } owner(m) = 0; return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return condWait(c, m, true, ns(t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return condWait(c, m, true, ns(t)); }
static int notify(const void* c, bool all) {
    visible(ATOMIC, c); unsigned w[64], n = 0;
    for (unsigned t = 0; t < nth; ++t) if (!th[t].done && th[t].pend == CONDWAKE && th[t].a == c && !th[t].notified) w[n++] = t;
    if (all) for (unsigned i = 0; i < n; ++i) th[w[i]].notified = true;
    else if (n == 1) th[w[0]].notified = true;
    else if (n) { unsigned v = (unsigned)sxNative_next("notify"); th[v].notified = true; }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return notify(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return notify(c, true); }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
long syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (nr != SYS_futex) return real<long (*)(long, ...)>("syscall")(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    unsigned* ad = reinterpret_cast<unsigned*>(a[0]); int op = (int)a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { for (unsigned t = 0; t < nth; ++t) if (!th[t].done && th[t].pend == FUTEX && th[t].a == ad) th[t].notified = true; return 0; }
    const timespec* ts = reinterpret_cast<const timespec*>(a[3]);
    visible(ATOMIC, ad);
    if (__atomic_load_n(ad, __ATOMIC_ACQUIRE) != (unsigned)a[2]) { errno = EAGAIN; return -1; }
    if (!multi) { if (!ts) { printf("CHECK FAILED: deadlock, waiting with no other thread\n"); sxNative_finish(42, "deadlock"); } advance(ns(ts)); errno = ETIMEDOUT; return -1; }
    Th& x = th[me]; x.pend = FUTEX; x.a = ad; x.notified = false; x.timed = ts != nullptr; pass(false); x.pend = NONE;
    if (x.mode == TIMEOUT) { advance(ns(ts)); errno = ETIMEDOUT; return -1; }
    return 0;
}
int clock_gettime(clockid_t, timespec* t) { int64_t v = frozenAt >= 0 ? frozenAt : tick(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
static int sleepUntil(int64_t t) { visible(SLEEP, nullptr); advance(t); return 0; }
int nanosleep(const timespec* t, timespec*) { int64_t d = tick() + ns(t); return sleepUntil(d); }
int clock_nanosleep(clockid_t, int flags, const timespec* t, timespec*) { if (flags & 1) return sleepUntil(ns(t)); int64_t d = tick() + ns(t); return sleepUntil(d); }
int sched_yield(void) { visible(YIELD, nullptr); return 0; }
}
