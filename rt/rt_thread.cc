// Model of the compiled half of libstdc++'s thread support and of the pthread calls its headers make.
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <chrono>
#include <system_error>
#include <cstring>
#include <time.h>
#include <signal.h>
#include <errno.h>

extern "C" {
uint64_t sx_th_create(void (*)(void*), void*); void sx_th_join(uint64_t); uint64_t sx_self(void);
int sx_cond_wait(void*, void*); int sx_cond_timedwait(void*, void*, int64_t);
int sx_futex_wait(void*, uint32_t, int64_t); void sx_futex_wake(void*);
int64_t sx_now(void); void sx_sleep_until(int64_t); void sx_yield(void); [[noreturn]] void sx_terminate(const char*);
int sx_thread_fail_after = -1;   // fault injection: number of thread creations that still succeed (-1: all)
void sx_set_thread_fail(int n) { sx_thread_fail_after = n; }
static int64_t sx_frozen_at = -1;
void sx_freeze(int64_t at) { sx_frozen_at = at; }
}
namespace std {
// ------------------------------------------------------------ error categories
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return c.category() == *this && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
}
namespace {
struct Cat : error_category { const char* n; Cat(const char* s) : n(s) {} const char* name() const noexcept override { return n; } string message(int) const override { return n; } };
Cat* cat(char* mem, bool& ready, const char* n) { if (!ready) { ready = true; new (mem) Cat(n); } return reinterpret_cast<Cat*>(mem); }
alignas(8) char cg[sizeof(Cat)], cs[sizeof(Cat)], cf[sizeof(Cat)]; bool rg, rs, rf;
struct InitCats { InitCats() { cat(cg, rg, "generic"); cat(cs, rs, "system"); cat(cf, rf, "future"); } } initCats;
}
inline namespace _V2 {
const error_category& generic_category() noexcept { return *cat(cg, rg, "generic"); }
const error_category& system_category() noexcept { return *cat(cs, rs, "system"); }
}
const error_category& future_category() noexcept { return *cat(cf, rf, "future"); }
system_error::~system_error() noexcept {}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return logic_error::what(); }
void __throw_future_error(int i) { throw future_error(make_error_code((future_errc)i)); }

// ------------------------------------------------------------ threads
thread::_State::~_State() {}
static void threadMain(void* p) { thread::_State_ptr s(static_cast<thread::_State*>(p)); s->_M_run(); }
void thread::_M_start_thread(_State_ptr s, void (*)()) {
    if (sx_thread_fail_after == 0) __throw_system_error(EAGAIN);
    if (sx_thread_fail_after > 0) --sx_thread_fail_after;
    _M_id = thread::id((pthread_t)(sx_th_create(threadMain, s.release()) + 1));
}
void thread::join() {
    if (_M_id == thread::id()) __throw_system_error(EINVAL);
    uint64_t t = (uint64_t)_M_id._M_thread - 1;
    if (t == sx_self()) __throw_system_error(EDEADLK);
    sx_th_join(t); _M_id = thread::id();
}
void thread::detach() { if (_M_id == thread::id()) __throw_system_error(EINVAL); _M_id = thread::id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { sx_sleep_until(sx_now() + s.count() * 1000000000 + n.count()); } }

// ------------------------------------------------------------ condition variables
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex>& l) { sx_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
void __condvar_dummy() {}

// ------------------------------------------------------------ clocks (one model clock for both)
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(nanoseconds(sx_frozen_at >= 0 ? sx_frozen_at : sx_now())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(sx_frozen_at >= 0 ? sx_frozen_at : sx_now())); }
} }

// ------------------------------------------------------------ futures
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
void __future_base::_State_baseV2::_Make_ready::_S_run(void*) {}
void __future_base::_State_baseV2::_Make_ready::_M_set() {}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return sx_futex_wait(a, v, timed ? s.count() * 1000000000 + ns.count() : -1) != ETIMEDOUT; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return sx_futex_wait(a, v, timed ? s.count() * 1000000000 + ns.count() : -1) != ETIMEDOUT; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sx_futex_wake(a); }
__thread void* __once_callable; __thread void (*__once_call)();
} // namespace std
extern "C" {
void __once_proxy() { std::__once_call(); }
int pthread_once(pthread_once_t* c, void (*f)()) {
    for (;;) {
        int v = __atomic_load_n(c, __ATOMIC_ACQUIRE);
        if (v == 2) return 0;
        if (v == 1) { sx_futex_wait(c, 1, -1); continue; }
        int z = 0; if (__atomic_compare_exchange_n(c, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) break;
    }
    try { f(); } catch (...) { __atomic_store_n(c, 0, __ATOMIC_RELEASE); sx_futex_wake(c); throw; }
    __atomic_store_n(c, 2, __ATOMIC_RELEASE); sx_futex_wake(c); return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return sx_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return sx_cond_timedwait(c, m, t->tv_sec * 1000000000 + t->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return sx_cond_timedwait(c, m, t->tv_sec * 1000000000 + t->tv_nsec); }
pthread_t pthread_self() { return (pthread_t)(sx_self() + 1); }
int pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
int sigemptyset(sigset_t* s) { memset(s, 0, sizeof *s); return 0; }
int sigaddset(sigset_t* s, int n) { reinterpret_cast<unsigned long*>(s)[(n - 1) / 64] |= 1UL << ((n - 1) % 64); return 0; }
int nanosleep(const timespec* t, timespec*) { sx_sleep_until(sx_now() + t->tv_sec * 1000000000 + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int abs, const timespec* t, timespec*) { int64_t n = t->tv_sec * 1000000000 + t->tv_nsec; sx_sleep_until(abs ? n : sx_now() + n); return 0; }
int sched_yield() { sx_yield(); return 0; }
}
