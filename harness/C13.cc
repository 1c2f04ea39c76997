// Small vector: one arbitrary operation (or a sequence) from an arbitrary state, against a plain array model.
#include "common.h"
#include "elem.h"
#include <gul14/SmallVector.h>
using namespace gul14;
static bool faulty = false;       // C14: exceptions are injected
struct M { int v[96]; unsigned n = 0; void ins(unsigned p, int x) { for (unsigned i = n; i > p; --i) v[i] = v[i - 1]; v[p] = x; ++n; } void del(unsigned a, unsigned b) { for (unsigned i = b; i < n; ++i) v[a + i - b] = v[i]; n -= b - a; } };
static unsigned big = 1;       // counts are multiples of this
static unsigned where(unsigned n) { if (big == 1) return sx_pick("p", n); unsigned s[5] = {0, n - 1, n / 2, 1, n > 1 ? n - 2 : 0}; return s[sx_pick("p", n > 1 ? 5 : 1)]; }
static int fresh() { return sx_make<int>("x"); }
template <typename V> static void agree(V& a, const M& m, const char* what) {
    sx_check(a.size() == m.n, what); sx_check(a.empty() == (m.n == 0), what); sx_check(a.capacity() >= a.size(), "capacity below size"); sx_check(a.capacity() >= a.inner_capacity(), "capacity below inline capacity");
    sx_check(a.end() - a.begin() == (long)m.n && a.begin() == a.data() && a.cbegin() == a.data() && a.cend() == a.end(), "iterators");
    sx_check((a.capacity() > a.inner_capacity()) == !((char*)a.data() >= (char*)&a && (char*)a.data() < (char*)(&a + 1)), "inline storage used exactly up to the inline capacity");
    unsigned i = 0; for (auto& e : a) { sx_check(val(e) == m.v[i], what); sx_check(val(a[i]) == m.v[i], what); sx_check(&a[i] == &e, "operator[]"); ++i; }
    for (auto it = a.rbegin(); it != a.rend(); ++it) sx_check(val(*it) == m.v[--i], "reverse iteration");
    if (m.n) { sx_check(val(a.front()) == m.v[0], "front"); sx_check(val(a.back()) == m.v[m.n - 1], "back"); }
    const V& c = a; sx_check(c.data() == a.data() && c.begin() == a.begin() && c.end() == a.end(), "const access"); if (m.n) sx_check(&c.front() == &a.front() && &c.back() == &a.back() && &c[m.n - 1] == &a[m.n - 1], "const access");
    i = m.n; for (auto it = a.crbegin(); it != a.crend(); ++it) sx_check(&*it == &a[--i], "const reverse iteration"); sx_check(i == 0, "const reverse iteration");
}
template <typename V> static void fill(V& a, M& m, unsigned cap, unsigned size) { if (cap > a.capacity()) a.reserve(cap); for (unsigned i = 0; i < size; ++i) { int x = fresh(); a.emplace_back(x); m.v[m.n++] = x; } }
enum { PUSH, PUSHR, EMPB, EMP, INS, INSR, INSN, INSRANGE, INSLIST, ERASE, ERASER, POP, CLEAR, RESIZE, RESIZEV, RESERVE, SHRINK, ASSIGNN, ASSIGNR, ASSIGNL, COPYC, MOVEC, COPYA, MOVEA, SWAP, SELFPUSH, SELFINS, SELFINSN, SELFRESIZE, SELFEMP, SELFASG, CTORN, CTORNV, CTORR, CTORL, AT, EQ, LISTA, NOPS };
// performs op on a (model m); b is a second vector. Copying operations are compiled only for copyable T.
template <bool COPY> struct Ops {
    template <typename V> static void run(int op, V& a, M& m, V& b, M& mb, unsigned N) {
        using T = typename V::value_type; unsigned p, q, k; int x;
        switch (op) {
        case PUSHR: x = fresh(); m.ins(m.n, x); a.push_back(T(x)); break;
        case EMPB: { x = fresh(); m.ins(m.n, x); T& r = a.emplace_back(x); sx_check(&r == &a.back(), "emplace_back result"); break; }
        case EMP: { p = where(m.n + 1); x = fresh(); m.ins(p, x); auto it = a.emplace(a.cbegin() + p, x); sx_check(it == a.begin() + p, "emplace result"); break; }
        case INSR: { p = where(m.n + 1); x = fresh(); m.ins(p, x); auto it = a.insert(a.cbegin() + p, T(x)); sx_check(it == a.begin() + p, "insert result"); break; }
        case ERASE: { if (!m.n) return; p = where(m.n); m.del(p, p + 1); auto it = a.erase(a.cbegin() + p); sx_check(it == a.begin() + p, "erase result"); break; }
        case ERASER: { p = where(m.n + 1); q = p + sx_pick("q", m.n - p + 1); m.del(p, q); auto it = a.erase(a.cbegin() + p, a.cbegin() + q); sx_check(it == a.begin() + p, "erase result"); break; }
        case POP: if (!m.n) return; m.n--; a.pop_back(); break;
        case CLEAR: { m.n = 0; auto c = a.capacity(); a.clear(); sx_check(a.capacity() == c, "clear keeps the capacity"); break; }
        case RESIZE: k = (big > 1 ? 4 * sx_pick("k", m.n / 4 + 5) : sx_pick("k", m.n + 4)); while (m.n < k) m.v[m.n++] = 0; m.n = k; a.resize(k); break;
        case RESERVE: { k = (big > 1 ? 7 * sx_pick("k", m.n / 7 + 4) : sx_pick("k", m.n + 6)); auto c = a.capacity(); a.reserve(k); sx_check(a.capacity() >= k && a.capacity() >= c, "reserve"); break; }
        case SHRINK: a.shrink_to_fit(); sx_check(a.capacity() == (m.n > N ? m.n : N), "shrink_to_fit capacity"); break;
        case MOVEC: { V c(std::move(a)); Life::fuse = -1; agree(c, m, "move construction"); M e; agree(a, e, "moved-from vector is empty"); a.emplace_back(5); sx_check(a.size() == 1 && val(a[0]) == 5, "moved-from vector is usable"); m.n = 1; m.v[0] = 5; break; }
        case MOVEA: { b = std::move(a); mb = m; m.n = 0; break; }
        case SWAP: { if (sx_pick("s", 2)) a.swap(b); else { using gul14::swap; swap(a, b); } M t = m; m = mb; mb = t; break; }
        case CTORN: { k = (big > 1 ? 2 : 1) * sx_pick("k", N + 3); V c(k); M e; e.n = k; for (unsigned i = 0; i < k; ++i) e.v[i] = 0; agree(c, e, "constructor(n)"); break; }
        case AT: { unsigned i = sx_make<unsigned>("i"); if (!std::is_same<T, int>::value) { sx_assume(i <= m.n + 1); i = (unsigned)sx_conc(i); } bool th = false; int r = 0; try { r = val(a.at(i)); } catch (const std::out_of_range&) { th = true; } sx_check(th == (i >= m.n), "at() throws exactly outside"); if (!th) { i = (unsigned)sx_conc(i); sx_check(r == m.v[i], "at()"); const V& ca = a; sx_check(val(ca.at(i)) == m.v[i], "at() const"); } else { const V& ca = a; th = false; try { ca.at(i); } catch (const std::out_of_range&) { th = true; } sx_check(th, "at() const throws"); } break; }
        }
    }
};
template <> struct Ops<true> {
    template <typename V> static void run(int op, V& a, M& m, V& b, M& mb, unsigned N) {
        using T = typename V::value_type; unsigned p, k; int x;
        switch (op) {
        case PUSH: { x = fresh(); m.ins(m.n, x); const T t(x); a.push_back(t); sx_check(val(t) == x, "argument changed"); break; }
        case INS: { p = where(m.n + 1); x = fresh(); m.ins(p, x); const T t(x); auto it = a.insert(a.cbegin() + p, t); sx_check(it == a.begin() + p, "insert result"); sx_check(val(t) == x, "argument changed"); break; }
        case INSN: { p = where(m.n + 1); k = big * sx_pick("k", 5); x = fresh(); for (unsigned i = 0; i < k; ++i) m.ins(p, x); const T t(x); auto it = a.insert(a.cbegin() + p, k, t); sx_check(it == a.begin() + p, "insert result"); break; }
        case INSRANGE: { p = where(m.n + 1); k = big * sx_pick("k", 5); std::vector<T> s; s.reserve(48); for (unsigned i = 0; i < k; ++i) { x = fresh(); s.emplace_back(x); m.ins(p + i, x); } auto it = a.insert(a.cbegin() + p, s.begin(), s.end()); sx_check(it == a.begin() + p, "insert result"); break; }
        case INSLIST: { p = where(m.n + 1); x = fresh(); int y = fresh(); auto it = a.insert(a.cbegin() + p, {T(x), T(y)}); m.ins(p, x); m.ins(p + 1, y); sx_check(it == a.begin() + p, "insert result"); break; }
        case RESIZEV: { k = (big > 1 ? 4 * sx_pick("k", m.n / 4 + 5) : sx_pick("k", m.n + 4)); x = fresh(); while (m.n < k) m.v[m.n++] = x; m.n = k; const T t(x); a.resize(k, t); break; }
        case ASSIGNN: { k = (big > 1 ? 2 : 1) * sx_pick("k", N + 3); x = fresh(); m.n = k; for (unsigned i = 0; i < k; ++i) m.v[i] = x; const T t(x); a.assign(k, t); break; }
        case ASSIGNR: { k = (big > 1 ? 2 : 1) * sx_pick("k", N + 3); std::vector<T> s; s.reserve(48); m.n = 0; for (unsigned i = 0; i < k; ++i) { x = fresh(); s.emplace_back(x); m.ins(i, x); } a.assign(s.begin(), s.end()); break; }
        case ASSIGNL: { x = fresh(); int y = fresh(), z = fresh(); std::initializer_list<T> l{T(x), T(y), T(z)}; m.n = 0; a.assign(l); m.ins(0, x); m.ins(1, y); m.ins(2, z); break; }
        case LISTA: { x = fresh(); int y = fresh(); std::initializer_list<T> l{T(x), T(y)}; m.n = 0; V& r = (a = l); sx_check(&r == &a, "assignment result"); m.ins(0, x); m.ins(1, y); break; }
        case COPYC: { const V& ca = a; V c(ca); agree(c, m, "copy construction"); if (m.n) { sx_check(c.data() != a.data(), "copy shares storage"); c.pop_back(); } break; }
        case COPYA: { V& r = (b = a); sx_check(&r == &b, "assignment result"); mb = m; break; }
        case SELFPUSH: if (!m.n) return; p = where(m.n); m.ins(m.n, m.v[p]); a.push_back(a[p]); break;
        case SELFEMP: { if (!m.n) return; unsigned q = where(m.n + 1); p = where(m.n); x = m.v[p]; m.ins(q, x); if (q == m.n - 1) a.emplace_back(a[p]); else a.emplace(a.cbegin() + q, a[p]); break; }
        case SELFINS: { if (!m.n) return; unsigned q = where(m.n + 1); p = where(m.n); m.ins(q, m.v[p]); a.insert(a.cbegin() + q, a[p]); break; }
        case SELFINSN: { if (!m.n) return; unsigned q = where(m.n + 1); p = where(m.n); k = big * sx_pick("k", 3); x = m.v[p]; for (unsigned i = 0; i < k; ++i) m.ins(q, x); a.insert(a.cbegin() + q, k, a[p]); break; }
        case SELFRESIZE: { if (!m.n) return; p = where(m.n); k = m.n + big * sx_pick("k", 4); x = m.v[p]; while (m.n < k) m.v[m.n++] = x; a.resize(k, a[p]); break; }
        case SELFASG: { V& r = a; a = r; break; }
        case CTORNV: { k = (big > 1 ? 2 : 1) * sx_pick("k", N + 3); x = fresh(); const T t(x); V c(k, t); M e; e.n = k; for (unsigned i = 0; i < k; ++i) e.v[i] = x; agree(c, e, "constructor(n, value)"); break; }
        case CTORR: { M e; k = (big > 1 ? 2 : 1) * sx_pick("k", N + 3); std::vector<T> s; s.reserve(48); for (unsigned i = 0; i < k; ++i) { x = fresh(); s.emplace_back(x); e.ins(i, x); } V c(s.begin(), s.end()); agree(c, e, "constructor(range)"); break; }
        case CTORL: { x = fresh(); int y = fresh(); V c{T(x), T(y)}; M e; e.ins(0, x); e.ins(1, y); agree(c, e, "constructor(list)"); break; }
        case EQ: { bool e = m.n == mb.n; for (unsigned i = 0; i < m.n && i < mb.n; ++i) e = e & (m.v[i] == mb.v[i]); sx_check((a == b) == e, "=="); sx_check((a != b) == !e, "!="); break; }
        default: Ops<false>::run(op, a, m, b, mb, N);
        }
    }
};
template <typename T, unsigned N, bool COPY> static void step(int nops) {
    int op = (int)sx_param(1); unsigned extra = (unsigned)sx_param(2);
    big = sx_param(3) ? (unsigned)sx_param(3) : 1; unsigned cap = big > 1 ? N + extra : N + sx_pick("cap", extra + 1), size = big > 1 ? cap - 3 * sx_pick("size", cap / 3 + 1 < 3 ? cap / 3 + 1 : 3) : sx_pick("size", cap + 1); bool two = op == COPYA || op == MOVEA || op == SWAP || op == EQ || nops > 1;
    unsigned cap2 = two ? N + 2 * sx_pick("cap2", 2) : N, size2 = two ? sx_pick("size2", cap2 + 1) : 1;
    uint64_t heap0 = sx_live_heap(); int live0 = Life::live;
    {
        SmallVector<T, N> a, b; M m, mb; fill(a, m, cap, size); fill(b, mb, cap2, size2);
        for (int i = 0; i < nops; ++i) {
            if (i) op = (int)sx_pick("op", NOPS);
            M m0 = m, mb0 = mb; bool boom = false; if (faulty) Life::fuse = (long)sx_make<uint8_t>("fuse");
            try { Ops<COPY>::run(op, a, m, b, mb, N); Life::fuse = -1; } catch (const Boom&) { boom = true; Life::fuse = -1; }
            if (!boom) { agree(a, m, "content differs from the model"); agree(b, mb, "second vector differs from the model"); }
            else {
                sx_reach("boom");
                for (auto* v : {&a, &b}) { sx_check(v->capacity() >= v->size(), "capacity below size after exception"); for (auto& e : *v) val(e); }
                sx_check(Life::live - live0 == (int)(a.size() + b.size()), "elements leaked or lost after an exception");
                // strong guarantee where it is documented: a failed append/resize(n)/reserve/shrink/copy leaves the content unchanged
                bool strong = op == PUSH || op == EMPB || op == RESIZE || op == CTORN || op == CTORNV || op == CTORR || op == CTORL || op == COPYC || (COPY && (op == PUSHR || op == MOVEC || op == RESERVE || op == SHRINK));
                if (!COPY && noexcept(T(std::declval<T&&>())) == false && op != CTORN) strong = false;
                if (strong) agree(a, m0, "content changed by a failed operation");
                if (op != SWAP && op != MOVEA && op != COPYA) agree(b, mb0, "other vector changed");
                if (op == COPYA || (op == MOVEA && COPY)) agree(a, m0, "source of a failed assignment changed");
                m.n = 0; for (auto& e : a) m.v[m.n++] = val(e); mb.n = 0; for (auto& e : b) mb.v[mb.n++] = val(e);
            }
            sx_observe(a.size()); for (auto& e : a) sx_observe((unsigned)val(e)); sx_check(Life::live - live0 == (int)(std::is_same<T, int>::value ? 0 : a.size() + b.size()), "number of live elements");
        }
        // moved-out vector still works afterwards
        a.clear(); a.emplace_back(3); sx_check(a.size() == 1 && val(a[0]) == 3, "usable afterwards");
    }
    sx_check(Life::live == live0, "elements leaked"); sx_check(sx_live_heap() == heap0, "memory leaked"); sx_reach("done");
}
// params: type, op, largest heap capacity beyond the inline one; the state is chosen among all (capacity, size) pairs
static void go(int nops) {
    switch (sx_param(0)) {
    case 0: step<int, 2, true>(nops); break; case 1: step<int, 3, true>(nops); break; case 2: step<Tr<1>, 2, true>(nops); break; case 3: step<Mo<0>, 2, false>(nops); break;
    case 4: step<Tr<5>, 2, true>(nops); break; case 5: step<Tr<7>, 2, true>(nops); break; case 6: step<Mo<6>, 2, false>(nops); break; case 7: step<int, 1, true>(nops); break; case 8: step<Tr<7>, 1, true>(nops); break; case 9: step<Tr<1>, 3, true>(nops); break; case 10: step<int, 16, true>(nops); break; case 11: step<Tr<1>, 7, true>(nops); break; case 12: step<Tr<13>, 2, true>(nops); break;
    }
}
extern "C" void c13_one() { go(1); }
extern "C" void c13_two() { go(2); }
extern "C" void c13_three() { go(3); }
extern "C" void c14_one() { faulty = true; go(1); }
extern "C" void c14_two() { faulty = true; go(2); }
