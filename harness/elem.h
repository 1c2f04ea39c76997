#pragma once
#include "sx.h"
#include <utility>
// Element types that watch their own lifetime. Fuse: the fuse-th fallible operation throws Boom.
struct Boom { int v; };
struct Life {
    static int live;              // currently constructed objects
    static long fuse;             // counts fallible operations down; throws when it reaches 0; < 0: disarmed
    static void spark() { if (fuse >= 0 && fuse-- == 0) throw Boom{7}; }
};
int Life::live = 0; long Life::fuse = -1;
// kind bit 0: copyable; bit 1: move may throw; bit 2: construction/copy may throw; bit 3: copy assignment never throws
template <int KIND> struct Tr {
    static constexpr bool thr = (KIND & 4) != 0, mthr = (KIND & 2) != 0, nasg = (KIND & 8) != 0;
    int v; unsigned mark; const Tr* self;
    static constexpr unsigned ALIVE = 0xA11CE5u, DEAD = 0xDEADu;
    void birth() { mark = ALIVE; self = this; ++Life::live; }
    bool ok() const { return mark == ALIVE && self == this; }
    void need() const { sx_check(mark == ALIVE, "element used outside its lifetime"); sx_check(self == this, "element moved bytewise"); }
    Tr() : v(0) { if (thr) Life::spark(); birth(); }
    explicit Tr(int x) : v(x) { if (thr) Life::spark(); birth(); }
    Tr(int x, int y) : v(x + y) { if (thr) Life::spark(); birth(); }
    Tr(const Tr& o) : v(0) { o.need(); if (thr) Life::spark(); v = o.v; birth(); }
    Tr(Tr&& o) noexcept(!mthr) : v(0) { o.need(); if (mthr) Life::spark(); v = o.v; o.v = -1; birth(); }
    Tr& operator=(const Tr& o) noexcept(nasg) { need(); o.need(); if (thr && !nasg) Life::spark(); v = o.v; return *this; }
    Tr& operator=(Tr&& o) noexcept(!mthr) { need(); o.need(); if (mthr) Life::spark(); if (&o != this) { v = o.v; o.v = -1; } return *this; }
    ~Tr() { sx_check(mark == ALIVE, "element destroyed twice or without construction"); sx_check(self == this, "element destroyed elsewhere"); mark = DEAD; --Life::live; }
    friend bool operator==(const Tr& a, const Tr& b) { a.need(); b.need(); return a.v == b.v; }
    friend bool operator!=(const Tr& a, const Tr& b) { return !(a == b); }
    friend bool operator<(const Tr& a, const Tr& b) { a.need(); b.need(); return a.v < b.v; }
};
// move-only flavour
template <int KIND> struct Mo : Tr<KIND> {
    Mo() = default; explicit Mo(int x) : Tr<KIND>(x) {} Mo(int x, int y) : Tr<KIND>(x, y) {}
    Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete; Mo(Mo&&) = default; Mo& operator=(Mo&&) = default;
};
inline int val(int x) { return x; }
template <int K> inline int val(const Tr<K>& t) { t.need(); return t.v; }
template <int K> inline int val(const Mo<K>& t) { t.need(); return t.v; }
