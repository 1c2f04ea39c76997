// Model of the out-of-line parts of the C++ runtime and C library that the code under test uses.
// Compiled to LLVM IR and executed by the engine together with the real code.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <functional>
#include <memory>
#include <list>
#include <map>
#include <system_error>
#include <cxxabi.h>

extern "C" {
void* sx_exc_alloc(size_t); void sx_exc_free(void*);
[[noreturn]] void sx_unwind(void*); [[noreturn]] void sx_terminate(const char*);
int sx_fmt(char* buf, size_t n, const char* fmt, long double v, int prec, int width);
}

// ---------------------------------------------------------------- exceptions
namespace {
struct Hdr { std::type_info* ti; void (*dtor)(void*); void* adjusted; int refs; int handlers; Hdr* next; void* primary; char pad[128 - 48]; };
static_assert(sizeof(Hdr) == 128, "");
inline Hdr* H(void* o) { return reinterpret_cast<Hdr*>(static_cast<char*>(o) - 128); }
inline void* O(Hdr* h) { return reinterpret_cast<char*>(h) + 128; }
thread_local Hdr* t_caught; thread_local int t_uncaught;
int dropRef(void* obj) { return __atomic_sub_fetch(&H(obj)->refs, 1, __ATOMIC_ACQ_REL); }
void addRef(void* obj) { __atomic_add_fetch(&H(obj)->refs, 1, __ATOMIC_ACQ_REL); }
void releasePrimary(void* obj) { if (dropRef(obj) == 0) { Hdr* h = H(obj); if (h->dtor) h->dtor(obj); sx_exc_free(h); } }
void releaseHdr(Hdr* h) { if (h->primary) { void* p = h->primary; sx_exc_free(h); releasePrimary(p); } else releasePrimary(O(h)); }
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { char* p = static_cast<char*>(sx_exc_alloc(n + 128)); memset(p, 0, 128); return p + 128; }
void __cxa_free_exception(void* o) noexcept { sx_exc_free(H(o)); }
void* __cxa_init_primary_exception_impl(void* o, std::type_info* ti, void (*d)(void*)) noexcept { Hdr* h = H(o); h->ti = ti; h->dtor = d; h->refs = 0; return h; }
__attribute__((noinline)) void sx_raise(void* o) { ++t_uncaught; sx_unwind(o); }
void sx_cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) __asm__("__cxa_throw");
void sx_cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h = H(o); h->ti = ti; h->dtor = d; h->refs = 1; h->handlers = 0; h->primary = nullptr; ++t_uncaught; sx_unwind(o); }
void* __cxa_begin_catch(void* o) noexcept { Hdr* h = H(o); if (h->handlers < 0) h->handlers = -h->handlers + 1; else ++h->handlers; --t_uncaught; if (t_caught != h) { h->next = t_caught; t_caught = h; } return h->adjusted; }
void* __cxa_get_exception_ptr(void* o) noexcept { return H(o)->adjusted; }
void __cxa_end_catch() {
    Hdr* h = t_caught; if (!h) return;
    if (h->handlers < 0) { if (++h->handlers == 0) t_caught = h->next; }
    else if (--h->handlers == 0) { t_caught = h->next; releaseHdr(h); }
}
void __cxa_rethrow() { Hdr* h = t_caught; if (!h) sx_terminate("rethrow without exception"); h->handlers = -h->handlers; ++t_uncaught; sx_unwind(O(h)); }
std::type_info* __cxa_current_exception_type() { return t_caught ? t_caught->ti : nullptr; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_pure_virtual() { sx_terminate("pure virtual call"); }
void __cxa_deleted_virtual() { sx_terminate("deleted virtual call"); }
void __cxa_call_unexpected(void*) { sx_terminate("unexpected exception"); }
void sx_throw_bad_alloc() { throw std::bad_alloc(); }
int __gxx_personality_v0(...) { return 0; }
void _Unwind_Resume(void*) { sx_terminate("unwind resume"); }
}
namespace __cxxabiv1 { extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept { Hdr* h = H(o); h->ti = ti; h->dtor = d; h->refs = 0; h->primary = nullptr; h->handlers = 0; return reinterpret_cast<__cxa_refcounted_exception*>(h); } }
namespace std {
void terminate() noexcept { sx_terminate("std::terminate called"); }
bool uncaught_exception() noexcept { return t_uncaught > 0; }
int uncaught_exceptions() noexcept { return t_uncaught; }
terminate_handler set_terminate(terminate_handler) noexcept { return nullptr; }
terminate_handler get_terminate() noexcept { return nullptr; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) addRef(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { releasePrimary(_M_exception_object); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object ? H(_M_exception_object)->ti : nullptr; }
}
__exception_ptr::exception_ptr current_exception() noexcept { Hdr* h = t_caught; return __exception_ptr::exception_ptr(h ? (h->primary ? h->primary : O(h)) : nullptr); }
void rethrow_exception(__exception_ptr::exception_ptr ep) {
    void* prim = *reinterpret_cast<void**>(&ep); addRef(prim);
    char* p = static_cast<char*>(sx_exc_alloc(128 + 16)); memset(p, 0, 144);
    Hdr* h = reinterpret_cast<Hdr*>(p); h->ti = H(prim)->ti; h->primary = prim; h->refs = 1;
    ep.~exception_ptr(); new (&ep) __exception_ptr::exception_ptr();
    sx_raise(O(h)); __builtin_unreachable();
}
// ---------------------------------------------------------------- standard exception classes
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info* t, void**, unsigned) const { return *this == *t; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }

// message: [refcount][chars...]
static const char* cowMake(const char* s, size_t n) { char* p = static_cast<char*>(sx_exc_alloc(n + 1 + 8)); *reinterpret_cast<int*>(p) = 1; memcpy(p + 8, s, n); p[8 + n] = 0; return p + 8; }
static const char* cowRef(const char* q) { if (q) __atomic_add_fetch(reinterpret_cast<int*>(const_cast<char*>(q) - 8), 1, __ATOMIC_ACQ_REL); return q; }
static void cowDrop(const char* q) { if (q && __atomic_sub_fetch(reinterpret_cast<int*>(const_cast<char*>(q) - 8), 1, __ATOMIC_ACQ_REL) == 0) sx_exc_free(const_cast<char*>(q) - 8); }
__cow_string::__cow_string() : _M_p(cowMake("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(cowMake(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(cowMake(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(cowRef(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* q = cowRef(o._M_p); cowDrop(_M_p); _M_p = q; return *this; }
__cow_string::~__cow_string() { cowDrop(_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(cowRef(o._M_p)) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* q = cowRef(o._M_p); cowDrop(_M_p); _M_p = q; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVED(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
DERIVED(domain_error, logic_error) DERIVED(invalid_argument, logic_error) DERIVED(length_error, logic_error) DERIVED(out_of_range, logic_error)
DERIVED(range_error, runtime_error) DERIVED(overflow_error, runtime_error) DERIVED(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_optional_access_() { throw runtime_error("bad optional access"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { sx_terminate(c ? c : "libstdc++ assertion"); }
const nothrow_t nothrow = nothrow_t();

// ---------------------------------------------------------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; _List_node_base* t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
static _Rb_tree_node_base* rbInc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rbInc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rbInc(const_cast<_Rb_tree_node_base*>(x)); }
static _Rb_tree_node_base* rbDec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rbDec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rbDec(const_cast<_Rb_tree_node_base*>(x)); }
// insertion without rebalancing: the order is what matters to users; all nodes except the header are black
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto*& root = h._M_parent; auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (root == a) root = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    if (!z->_M_left) repl(z, z->_M_right);
    else if (!z->_M_right) repl(z, z->_M_left);
    else { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (!root) { h._M_left = h._M_right = &h; } else { auto* a = root; while (a->_M_left) a = a->_M_left; h._M_left = a; auto* b = root; while (b->_M_right) b = b->_M_right; h._M_right = b; }
    return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = static_cast<const unsigned char*>(p); size_t h = seed ^ 14695981039346656037ULL; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
} // namespace std

// ---------------------------------------------------------------- dynamic_cast
extern "C" const char _ZTVN10__cxxabiv120__si_class_type_infoE[]; extern "C" const char _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const void* findBase(const std::type_info* t, const void* obj, const std::type_info* want) {
    if (t == want || *t == *want) return obj;
    const char* vt = *reinterpret_cast<const char* const*>(t);
    if (vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return findBase(reinterpret_cast<const std::type_info* const*>(t)[2], obj, want);
    if (vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16) {
        unsigned n = reinterpret_cast<const unsigned*>(t)[5];
        for (unsigned i = 0; i < n; ++i) {
            const std::type_info* b = *reinterpret_cast<const std::type_info* const*>(reinterpret_cast<const char*>(t) + 24 + 16 * i);
            long of = *reinterpret_cast<const long*>(reinterpret_cast<const char*>(t) + 32 + 16 * i);
            const char* o = static_cast<const char*>(obj);
            if (of & 1) o += *reinterpret_cast<const long*>(*reinterpret_cast<const char* const*>(obj) + (of >> 8)); else o += of >> 8;
            if (const void* r = findBase(b, o, want)) return r;
        }
    }
    return nullptr;
}
extern "C" void* sx_dyncast(const void* p, const void*, const void* dst, ptrdiff_t) __asm__("__dynamic_cast");
extern "C" void* sx_dyncast(const void* p, const void*, const void* dst, ptrdiff_t) {
    const char* vt = *static_cast<const char* const*>(p);
    const void* top = static_cast<const char*>(p) + reinterpret_cast<const long*>(vt)[-2];
    const std::type_info* dt = reinterpret_cast<const std::type_info* const*>(vt)[-1];
    return const_cast<void*>(findBase(dt, top, static_cast<const std::type_info*>(dst)));
}

