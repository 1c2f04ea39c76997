#include "elem.h"
#include "common.h"
#include <functional>
#include <vector>
#include <gul14/finalizer.h>
using gul14::finally; using gul14::FinalAction;
// Every finalizer's action adds its (arbitrary) weight and appends its id to a log.
struct Log { int n = 0; int id[8]; uint64_t sum = 0; };
struct Act { Log* l; int id; uint64_t w; Tr<1> t; Act(Log* l, int id, uint64_t w) : l(l), id(id), w(w), t(5) {} void operator()() { t.need(); CHECKM(l->n < 8, "too many calls"); l->id[l->n++] = id; l->sum += w; } };
typedef FinalAction<Act> FA;
static bool ran(const Log& l, int id) { int c = 0; for (int i = 0; i < l.n; ++i) c += l.id[i] == id; CHECKM(c <= 1, "an action ran twice"); return c == 1; }
// two slots and three actions under every sequence of operations; param: length
extern "C" void c21_hist() {
    Log l; uint64_t w[3] = {sx_sym("w0", 64), sx_sym("w1", 64), sx_sym("w2", 64)}; int len = (int)sx_param(0); int owner[2] = {-1, -1}; /* which action a slot is to run; -1: none */ bool expect[3] = {false, false, false};
    alignas(FA) char mem[2][sizeof(FA)]; FA* slot[2] = {nullptr, nullptr}; int next = 0; bool thrown = false;
    struct Guard { FA** s; ~Guard() { for (int i = 1; i >= 0; --i) if (s[i]) { s[i]->~FA(); s[i] = nullptr; } } };
    try {
        Guard g{slot};
        for (int i = 0; i < len; ++i) {
            int op = (int)sx_pick("op", 6), a = (int)sx_pick("slot", 2), b = 1 - a;
            switch (op) {
            case 0: if (slot[a] || next >= 3) break; new (mem[a]) FA(finally(Act(&l, next, w[next]))); slot[a] = reinterpret_cast<FA*>(mem[a]); owner[a] = next++; break; // create
            case 1: if (!slot[b] || slot[a]) break; new (mem[a]) FA(std::move(*slot[b])); slot[a] = reinterpret_cast<FA*>(mem[a]); owner[a] = owner[b]; owner[b] = -1; break; // move construct
            case 2: if (!slot[a] || !slot[b]) break; *slot[a] = std::move(*slot[b]); owner[a] = owner[b]; owner[b] = -1; break; // move assign: the previous action of the target is dropped
            case 3: if (!slot[a]) break; { FA& self = *slot[a]; *slot[a] = std::move(self); } break; // self move
            case 4: if (!slot[a]) break; slot[a]->~FA(); slot[a] = nullptr; if (owner[a] >= 0) expect[owner[a]] = true; owner[a] = -1; break; // destroy
            case 5: if (!sx_split((sx_sym("throw", 8) & 1) != 0)) break; for (int k = 0; k < 2; ++k) if (owner[k] >= 0) expect[owner[k]] = true; thrown = true; throw Boom{1};
            }
            uint64_t s = 0; for (int k = 0; k < 3; ++k) { CHECKM(ran(l, k) == expect[k], "action ran exactly when its owner died"); if (expect[k]) s += w[k]; } CHECKM(l.sum == s, "action effects");
        }
        for (int k = 0; k < 2; ++k) if (owner[k] >= 0) expect[owner[k]] = true;
    } catch (const Boom&) { CHECKM(thrown, "exception"); sx_reach("thrown"); }
    uint64_t s = 0; for (int k = 0; k < 3; ++k) { CHECKM(ran(l, k) == expect[k], "action ran exactly when its owner died"); if (expect[k]) s += w[k]; } CHECKM(l.sum == s, "action effects"); CHECKM(Life::live == 0, "callables released"); sx_observe(l.sum); sx_observe((uint64_t)l.n); sx_reach("hist");
}
// scope exits: nested finalizers run in reverse order on return, break, continue and throw
static int body(Log& l, int how, uint64_t w, int depth) {
    auto f1 = finally([&] { l.id[l.n++] = 1; l.sum += w; });
    for (int i = 0; i < 2; ++i) {
        auto f2 = finally([&l, i] { l.id[l.n++] = 10 + i; });
        if (how == 0 && i == 0) return 5;
        if (how == 1) break;
        if (how == 2) continue;
        if (how == 3 && i == 1) throw Boom{3};
        if (how == 4 && depth) return body(l, 3, w, depth - 1);
    }
    return 6;
}
extern "C" void c21_scope() {
    Log l; uint64_t w = sx_sym("w", 64); int how = (int)sx_pick("how", 6); bool boom = false; int r = 0; try { r = body(l, how, w, 1); } catch (const Boom&) { boom = true; }
    static const int E[6][6] = {{2, 10, 1}, {2, 10, 1}, {3, 10, 11, 1}, {3, 10, 11, 1}, {5, 10, 11, 1, 10, 1}, {3, 10, 11, 1}};
    CHECKM(boom == (how == 3 || how == 4), "exception passes through"); if (!boom) CHECKM(r == (how == 0 ? 5 : 6), "return value"); CHECKM(l.n == E[how][0], "number of calls"); for (int i = 0; i < l.n && i < 5; ++i) CHECKM(l.id[i] == E[how][i + 1], "order of calls"); CHECKM(l.sum == (how == 4 ? w + w : w), "effect"); sx_observe(l.sum); sx_reach("scope");
}
// kinds of callables: lvalues are copied and stay usable, function pointers, std::function, move-only callables
static uint64_t g_sum; static void plain() { g_sum += 3; }
struct MoveOnly { Mo<1> m; uint64_t w; MoveOnly(uint64_t w) : m(1), w(w) {} MoveOnly(MoveOnly&&) = default; void operator()() const { m.need(); g_sum += w; } };
extern "C" void c21_kind() {
    uint64_t w = sx_sym("w", 64); g_sum = 0;
    switch (sx_pick("kind", 7)) {
    case 0: { std::function<void()> f = [w] { g_sum += w; }; { auto x = finally(f); CHECKM(g_sum == 0, "not before the end"); } CHECKM(g_sum == w, "ran"); CHECKM((bool)f, "an lvalue callable is left untouched"); f(); CHECKM(g_sum == 2 * w, "an lvalue callable stays usable"); break; }
    case 1: { const std::function<void()> f = [w] { g_sum += w; }; { auto x = finally(f); } CHECKM(g_sum == w, "ran"); f(); CHECKM(g_sum == 2 * w, "usable"); break; }
    case 2: { std::vector<uint64_t> d(3, w); auto f = [d] { for (auto v : d) g_sum += v; }; { auto x = finally(f); } CHECKM(g_sum == 3 * w, "ran"); f(); CHECKM(g_sum == 6 * w, "usable"); break; }
    case 3: { { auto x = finally(plain); auto y = finally(&plain); } CHECKM(g_sum == 6, "ran"); break; }
    case 4: { { auto x = finally(MoveOnly(w)); auto y = std::move(x); CHECKM(g_sum == 0, "not before the end"); } CHECKM(g_sum == w, "ran once"); break; }
    case 5: { { auto p = new auto(finally([w] { g_sum += w; })); auto q = std::move(*p); delete p; CHECKM(g_sum == 0, "moved-from object does nothing"); } CHECKM(g_sum == w, "ran once"); break; }
    case 6: { { std::vector<FA> v; Log l; v.reserve(1); for (int i = 0; i < 3; ++i) v.push_back(finally(Act(&l, i, w))); CHECKM(l.n == 0, "relocation runs nothing"); v.clear(); CHECKM(l.n == 3 && l.sum == 3 * w, "each ran once"); } break; }
    }
    CHECKM(Life::live == 0, "callables released"); sx_observe(g_sum); sx_reach("kind");
}
