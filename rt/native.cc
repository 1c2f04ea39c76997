// Native implementation of the harness interface: feeds recorded values to the harness compiled with the system
// compiler (address and undefined-behaviour sanitizers on). Used to replay counterexamples against the real code and
// to validate sampled paths of the symbolic engine (observed values must agree).
#include "sx.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>
static std::vector<std::pair<std::string, unsigned __int128>> g_in; static size_t g_pos; static std::vector<long> g_par;
struct Obs { unsigned long long* p = nullptr; size_t n = 0, c = 0; void push_back(unsigned long long v) { if (n == c) { c = c ? 2 * c : 64; p = (unsigned long long*)realloc(p, c * sizeof *p); } p[n++] = v; } unsigned long long* begin() { return p; } unsigned long long* end() { return p + n; } };
static Obs g_obs; static std::atomic<unsigned long> g_live{0};
static bool g_divergent = false;
static void finish(int rc, const char* what) {
    printf("RESULT %s\n", what); printf("OBS"); for (auto v : g_obs) printf(" %llu", v); printf("\n"); fflush(stdout); _exit(rc);
}
static unsigned __int128 next(const char* name) {
    if (g_pos >= g_in.size()) { finish(5, "out of recorded inputs"); }
    auto& p = g_in[g_pos++];
    if (p.first != name) { g_divergent = true; printf("DIVERGE want %s have %s\n", name, p.first.c_str()); finish(5, "diverged"); }
    return p.second;
}
unsigned __int128 sxNative_next(const char* n) { return next(n); }
bool sxNative_has() { return g_pos < g_in.size(); }
void sxNative_finish(int rc, const char* w) { finish(rc, w); }
extern "C" {
uint64_t sx_sym(const char* name, unsigned) { return (uint64_t)next(name); }
uint32_t sx_pick(const char* name, uint32_t) { return (uint32_t)next(name); }
void sx_assume(int c) { if (!c) finish(4, "assumption not met"); }
void sx_check(int c, const char* m) { if (!c) { printf("CHECK FAILED: %s\n", m); finish(42, "check failed"); } }
void sx_fail(const char* m) { printf("CHECK FAILED: %s\n", m); finish(42, "check failed"); abort(); }
long sx_param(int i) { return (size_t)i < g_par.size() ? g_par[(size_t)i] : 0; }
void sx_observe(uint64_t v) { g_obs.push_back(v); }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_reach(const char*) {}
uint64_t sx_live_heap(void) { return g_live; }
int sx_obj_check(const void* p, size_t n);
void sx_end(void) { finish(0, "ok"); abort(); }
int sx_is_native(void) { return 1; }
void sx_debug(const char* n, uint64_t v) { printf("DEBUG %s = %llu (0x%llx)\n", n, (unsigned long long)v, (unsigned long long)v); }
#if defined(__SANITIZE_ADDRESS__)
void* __asan_region_is_poisoned(void*, size_t);
int sx_obj_check(const void* p, size_t n) { return n == 0 || !__asan_region_is_poisoned(const_cast<void*>(p), n); }
#else
int sx_obj_check(const void*, size_t) { return 1; }
#endif
const char* __asan_default_options() { return "exitcode=43:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096"; }
const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=44"; }
}
#ifndef SX_THREADS
extern "C" { void sx_point(void) {} void sx_quiesce(void) {} int64_t sx_now(void) { return 0; } uint64_t sx_self(void) { return 0; } void sx_set_thread_fail(int) {} void sx_freeze(int64_t) {} }
#endif
static int g_fuse = -1, g_sticky = 0;
extern "C" void sx_set_alloc_fail(int n, int sticky) { g_fuse = n; g_sticky = sticky; }
static bool burnt() { if (g_fuse > 0) { --g_fuse; return false; } if (g_fuse < 0) return false; if (!g_sticky) g_fuse = -1; return true; }
static void* alloc(size_t n) { if (burnt()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
static void rel(void* p) { if (p) { --g_live; free(p); } }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (burnt()) return nullptr; void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (burnt()) return nullptr; void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void operator delete(void* p) noexcept { rel(p); }
void operator delete[](void* p) noexcept { rel(p); }
void operator delete(void* p, size_t) noexcept { rel(p); }
void operator delete[](void* p, size_t) noexcept { rel(p); }
int main(int argc, char** argv) {
    // argv: entry values-file params...
    if (argc < 3) return 2;
    void (*f)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1])); if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
    if (FILE* fp = fopen(argv[2], "r")) {
        char name[256]; char val[64];
        while (fscanf(fp, "%255s %63s", name, val) == 2) { unsigned __int128 v = 0; for (char* c = val; *c; ++c) v = v * 10 + (unsigned)(*c - '0'); g_in.push_back({name, v}); }
        fclose(fp);
    }
    for (int i = 3; i < argc; ++i) g_par.push_back(atol(argv[i]));
    std::set_terminate([] { printf("CHECK FAILED: std::terminate called\n"); finish(42, "terminate"); });
    f();
    finish(0, "ok");
}
extern "C" long double sx_strtold(const char* t, size_t* n) { char* e; long double r = strtold(t, &e); if (n) *n = (size_t)(e - t); return r; }
