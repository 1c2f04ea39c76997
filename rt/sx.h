// Harness interface. Two implementations: the symbolic engine (built in) and
// native.cc, which feeds recorded values and is used to replay counterexamples against the natively
// compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sx_sym(const char* name, unsigned bits);         // fresh unconstrained value
uint32_t sx_pick(const char* name, uint32_t n);           // arbitrary value in [0,n), explored case by case
void sx_assume(int cond);
void sx_check(int cond, const char* msg);                 // property
[[noreturn]] void sx_fail(const char* msg);
long sx_param(int i);                                     // shard parameter
void sx_observe(uint64_t v);                              // compared between engine and native run
uint64_t sx_conc(uint64_t v);                             // split into one case per value
void sx_reach(const char* label);                         // reachability witness
uint64_t sx_live_heap(void);                              // live heap blocks
int sx_obj_check(const void* p, size_t n);                // is [p,p+n) inside one live object
[[noreturn]] void sx_end(void);
int sx_is_native(void);
void sx_debug(const char* name, uint64_t v);
// threads / time (engine: modelled; native: controlled scheduler)
void sx_point(void);                                      // explicit scheduling point
void sx_quiesce(void);                                    // wait until all other threads are blocked or only wait for time to pass
int64_t sx_now(void);                                     // model clock in ns
uint64_t sx_self(void);
void sx_freeze(int64_t at);                               // the clocks of the program stand still at this time (< 0: run on)
void sx_set_alloc_fail(int n, int sticky);                 // the allocation after n more successes fails (-1: never); sticky: and all after it
void sx_set_thread_fail(int n);                          // thread creation fails after n more successes (-1: never)
long double sx_strtold(const char* text, size_t* consumed); // correctly rounded conversion of concrete text
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c) sx_check((c) ? 1 : 0, #c " [" __FILE__ ":" SX_STR(__LINE__) "]")
#define CHECKM(c, m) sx_check((c) ? 1 : 0, m " [" __FILE__ ":" SX_STR(__LINE__) "]")

template <typename T> inline T sx_make(const char* name) { return static_cast<T>(sx_sym(name, sizeof(T) * 8)); }
inline bool sx_split(bool c) { return sx_conc(c ? 1 : 0) != 0; }  // explore both values separately
inline bool sx_bool(const char* name) { return sx_sym(name, 1) != 0; }
inline uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) { uint64_t v = sx_sym(name, 64); sx_assume(v >= lo); sx_assume(v <= hi); return v; }
inline void sx_bytes(const char* name, void* p, size_t n) { auto* c = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) c[i] = static_cast<unsigned char>(sx_sym(name, 8)); }
// A buffer on the heap with exactly n bytes: any access outside is detected (also natively, by ASan).
struct SxBuf {
    char* p; size_t n;
    SxBuf(const char* name, size_t n) : p(new char[n ? n : 1]), n(n) { sx_bytes(name, p, n); if (!n) *p = 0; }
    explicit SxBuf(size_t n) : p(new char[n ? n : 1]), n(n) {}
    SxBuf(const SxBuf&) = delete;
    ~SxBuf() { delete[] p; }
    char operator[](size_t i) const { return p[i]; }
};
