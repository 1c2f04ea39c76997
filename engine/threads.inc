// Threads, scheduling, clock, races (included from exec.cc)

static void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }

void Exec::acquire(State& s, u64 a) { if (!s.multi) return; auto it = s.syncVC.find(a); if (it != s.syncVC.end()) vcJoin(s.th[s.cur].vc, it->second); }
void Exec::release(State& s, u64 a) {
    if (!s.multi) return;
    VC& v = s.th[s.cur].vc; if (v.size() <= s.cur) v.resize(s.cur + 1, 0);
    vcJoin(s.syncVC[a], v); ++v[s.cur];
}
void Exec::raceCheck(State& s, u32 id, u32 off, u32 n, bool wr) {
    MemObj* o = s.objs.get(id); if (!o) return;
    auto& sh = s.shadow[id];
    if (!sh) { sh = std::make_shared<Shadow>(); sh->c.resize(o->size); }
    else if (sh.use_count() > 1) sh = std::make_shared<Shadow>(*sh);
    VC& v = s.th[s.cur].vc; if (v.size() <= s.cur) v.resize(s.cur + 1, 0);
    for (u32 i = off; i < off + n && i < sh->c.size(); ++i) {
        ShadowCell& c = sh->c[i];
        if (c.wT != ~0u && c.wT != s.cur && (c.wT >= v.size() || v[c.wT] < c.wC))
            violation(s, "race", std::string("data race: ") + (wr ? "write" : "read") + " not ordered after a write by thread " + std::to_string(c.wT));
        if (wr) {
            for (u32 t = 0; t < c.rd.size(); ++t) if (t != s.cur && c.rd[t] && (t >= v.size() || v[t] < c.rd[t]))
                violation(s, "race", "data race: write not ordered after a read by thread " + std::to_string(t));
            c.wT = s.cur; c.wC = v[s.cur]; c.rd.clear();
        } else { if (c.rd.size() <= s.cur) c.rd.resize(s.cur + 1, 0); c.rd[s.cur] = v[s.cur]; }
    }
}

enum { MODE_NORMAL = 0, MODE_TIMEOUT = 1, MODE_SPUR = 2 };

bool Exec::enabled(State& s, u32 t) { // "hard" enabled: without spurious wake-ups
    Thread& th = s.th[t]; if (th.stat == T_DONE) return false;
    auto owned = [&](u64 a) { auto it = s.mutexOwner.find(a); return it != s.mutexOwner.end() && it->second; };
    switch (th.pend) {
    case P_LOCK: return !owned(th.paddr);
    case P_CONDWAKE: return (th.notified || th.timed) && !owned(th.paddr2);
    case P_FUTEX: return th.notified || th.timed;
    case P_JOIN: return th.paddr < s.th.size() && s.th[th.paddr].stat == T_DONE;
    default: return true;
    }
}

void Exec::schedule(State& s) {
    ++schedPoints;
    struct O { u32 t; u32 mode; bool pre; };
    std::vector<O> opts; u32 c = s.cur;
    Thread& ct = s.th[c];
    auto owned = [&](u64 a) { auto it = s.mutexOwner.find(a); return it != s.mutexOwner.end() && it->second; };
    bool curGoes = ct.stat != T_DONE && ct.pend != P_CONDWAKE && ct.pend != P_SLEEP && ct.pend != P_YIELD && ct.pend != P_FUTEX && enabled(s, c);
    auto add = [&](u32 t) {
        Thread& th = s.th[t]; if (th.stat == T_DONE) return;
        bool pre = curGoes && t != c;
        if (pre && s.preempt >= opt.preemptBound) return;
        if (th.pend == P_CONDWAKE) {
            if (owned(th.paddr2)) return;
            if (th.notified) opts.push_back({t, MODE_NORMAL, pre});
            else { if (th.timed) opts.push_back({t, MODE_TIMEOUT, pre}); if (s.spurLeft) opts.push_back({t, MODE_SPUR, pre}); }
        } else if (th.pend == P_FUTEX) {
            if (th.notified) opts.push_back({t, MODE_NORMAL, pre});
            else { if (th.timed) opts.push_back({t, MODE_TIMEOUT, pre}); }
        } else if (enabled(s, t)) opts.push_back({t, MODE_NORMAL, pre});
    };
    bool anyHard = false, quiesceOnly = false; u32 qt = 0;
    for (u32 t = 0; t < s.th.size(); ++t) {
        Thread& th = s.th[t];
        if (th.stat == T_DONE) continue;
        if (th.pend == P_NONE && t != c) continue;
        if (th.paddr == ~0ULL && th.pend == P_SLEEP) { qt = t + 1; continue; } // quiesce: lowest priority
        if (enabled(s, t)) anyHard = true;
    }
    if (!anyHard && qt) quiesceOnly = true;
    if (!anyHard && !qt) {
        bool all = true; for (auto& t : s.th) if (t.stat != T_DONE) all = false;
        if (all) return;
        std::string d = "deadlock:";
        static const char* pn[] = {"running", "lock", "trylock", "condition wait", "join", "yield", "atomic wait", "sleep", "start", "atomic"};
        for (u32 t = 0; t < s.th.size(); ++t) if (s.th[t].stat != T_DONE) d += " thread " + std::to_string(t) + " blocked in " + pn[s.th[t].pend] + ";";
        if (ct.stat == T_DONE || ct.st.empty()) { for (u32 t = 0; t < s.th.size(); ++t) if (s.th[t].stat != T_DONE && !s.th[t].st.empty()) { s.cur = t; break; } }
        violation(s, "deadlock", d);
    }
    // a quiescing thread goes on only if every other thread is blocked or only waiting for time to pass
    if (qt) {
        bool busy = false;
        for (u32 t = 0; t < s.th.size(); ++t) { if (t + 1 == qt || s.th[t].stat == T_DONE) continue; Thread& th = s.th[t]; if (enabled(s, t) && !((th.pend == P_CONDWAKE || th.pend == P_FUTEX) && !th.notified) && th.pend != P_SLEEP) busy = true; }
        if (!busy) quiesceOnly = true;
    }
    auto isQ = [&](u32 t) { return qt == t + 1; };
    if (quiesceOnly) opts.push_back({qt - 1, MODE_NORMAL, false});
    else {
        if (!isQ(c)) add(c);
        for (u32 t = 0; t < s.th.size(); ++t) if (t != c && !isQ(t)) add(t);
        if (qt) { // do not let time pass while quiescing
            std::vector<O> o2; for (auto& o : opts) if (o.mode == MODE_NORMAL && s.th[o.t].pend != P_SLEEP) o2.push_back(o);
            opts.swap(o2);
        }
    }
    if (opts.empty()) incomplete(s, "scheduler: only spurious options");
    auto apply = [&](State& z, const O& o, Ex sv) {
        u32 val = o.t * 4 + o.mode;
        if (sv) { addPC(z, mkEq(sv, mkConst(16, val))); u32 id = sv->aux; if (z.model.size() <= id) z.model.resize(id + 1, 0); z.model[id] = val; z.inputs.push_back({"sched", Val(sv)}); }
        else z.inputs.push_back({"sched", Val((u128)val)});
        z.inputW.push_back(16);
        if (o.pre) ++z.preempt;
        if (o.mode == MODE_SPUR) --z.spurLeft;
        z.cur = o.t; Thread& th = z.th[o.t];
        th.spur = o.mode;
        if (th.pend == P_START) { th.pend = P_NONE; th.granted = false; } else th.granted = true;
    };
    if (!opt.concFile.empty()) {
        u64 v = concPos < concIn.size() ? (u64)concIn[concPos++].second : opts[0].t * 4 + opts[0].mode;
        for (auto& o : opts) if (o.t * 4 + o.mode == v) { apply(s, o, nullptr); return; }
        fprintf(stderr, "replay: schedule choice %lu not possible\n", (unsigned long)v); apply(s, opts[0], nullptr); return;
    }
    Ex sv = nullptr;
    if (opts.size() > 1) {
        static std::map<u64, Ex> pool; auto& e = pool[s.inputs.size()]; if (!e) e = mkSym("sched", 16); sv = e;
    }
    for (size_t i = opts.size(); i-- > 1;) { auto n = clone(s); apply(*n, opts[i], sv); work.push_back(std::move(n)); }
    apply(s, opts[0], sv);
}

// A visible operation: the thread parks here until the scheduler grants it.
void Exec::visible(State& s, PendKind k, u64 a, u64 a2) {
    if (!s.multi) {
        if (k == P_LOCK) { auto it = s.mutexOwner.find(a); if (it != s.mutexOwner.end() && it->second) violation(s, "deadlock", "deadlock: locking a mutex already held, single thread"); }
        return;
    }
    Thread& t = s.th[s.cur]; u32 me = s.cur;
    if (t.granted) { t.granted = false; t.pend = P_NONE; return; }
    t.pend = k; t.paddr = a; t.paddr2 = a2; t.notified = false; t.timed = false;
    schedule(s);
    if (s.cur != me) throw Switch{};
    Thread& t2 = s.th[s.cur]; t2.granted = false; t2.pend = P_NONE;
}

Val Exec::clockNow(State& s) {
    if (!s.nowInit) { s.now = Val((u128)1700000000000000000ULL); s.nowInit = true; }
    return clockTo(s, nullptr);
}
// the clock shows an arbitrary time, not before the last reading and not before atLeast, and below 2^62 ns
Val Exec::clockTo(State& s, Ex atLeast) {
    Ex old = ex(s.now, 64);
    if (atLeast) {   // the clock never gets beyond 2^62 ns
        Ex e = mkBin(E_SLT, atLeast, mkConst(64, (u128)1 << 62));
        if (isFalse(e)) throw Terminate{PathEnd::ASSUME};
        if (!isTrue(e)) { if (!evalM(s, e)) { Model m2; SRes q = feasible(s, e, m2); if (q == S_UNSAT) throw Terminate{PathEnd::ASSUME}; if (q == S_UNKNOWN) incomplete(s, "solver unknown (clock)"); s.model = m2; } addPC(s, e); }
    }
    Val v = sym(s, "clk", 62); if (!v.e) return s.now = v;
    Ex z = mkZExt(v.e, 64); s.now = Val(z);
    u128 m = evalM(s, old); if (atLeast) { u128 t = evalM(s, atLeast); if ((int64_t)(u64)t > (int64_t)(u64)m) m = t; }
    u32 id = v.e->aux; if (s.model.size() <= id) s.model.resize(id + 1, 0); s.model[id] = m;
    if ((u64)m >> 62) incomplete(s, "clock: beyond its range");
    addPC(s, mkBin(E_ULE, old, z)); if (atLeast) addPC(s, mkBin(E_SLE, atLeast, z));
    return s.now;
}
void Exec::clockAdvance(State& s, Ex atLeast) {
    if (!s.nowInit) { s.now = Val((u128)1700000000000000000ULL); s.nowInit = true; }
    clockTo(s, atLeast);
}
u64 Exec::thCreate(State& s, u64 fn, u64 arg) {
    auto it = faddr.find(fn); if (it == faddr.end()) violation(s, "memory", "thread start with invalid function");
    if (!s.multi) { s.multi = true; s.spurLeft = opt.spurious; s.th[0].vc.assign(1, 1); }
    u32 tid = (u32)s.th.size(); u32 me = s.cur;
    Thread t; t.pend = P_START; t.vc = s.th[me].vc; if (t.vc.size() <= tid) t.vc.resize(tid + 1, 0); t.vc[tid] = 1;
    s.th.push_back(t); ++s.th[me].vc[me];
    s.cur = tid; std::vector<Val> a{Val((u128)arg)}; enter(s, it->second, a, false); s.cur = me;
    if (s.th.size() > maxThreads) maxThreads = s.th.size();
    return tid;
}
void Exec::thDone(State& s) {
    Thread& t = s.th[s.cur]; t.stat = T_DONE; t.pend = P_NONE;
    schedule(s);
}

bool Exec::threadBuiltin(State& s, Frame& fr, const Inst& in, int b, std::vector<Val>& a, Val& r) {
    auto A = [&](int i) { return width(in.I->getOperand(i)->getType()); };
    auto C = [&](int i, const char* what) { return conc(s, a[i], A(i), what); };
    switch (b) {
    case B_sx_th_create: r = Val((u128)thCreate(s, C(0, "fn"), C(1, "arg"))); return true;
    case B_sx_nthreads: r = Val((u128)s.th.size()); return true;
    case B_sx_self: r = Val((u128)s.cur); return true;
    case B_sx_th_join: {
        u64 t = C(0, "tid"); if (t >= s.th.size()) violation(s, "memory", "join of invalid thread");
        if (t == s.cur) violation(s, "deadlock", "deadlock: thread joins itself");
        visible(s, P_JOIN, t);
        vcJoin(s.th[s.cur].vc, s.th[t].vc); return true;
    }
    case B_mutex_lock: {
        u64 m = C(0, "mutex"); { bool sv = opt.races; opt.races = false; chk(s, m, 1, false, "mutex lock"); opt.races = sv; }
        visible(s, P_LOCK, m); s.mutexOwner[m] = s.cur + 1; acquire(s, m); r = Val((u128)0); return true;
    }
    case B_mutex_trylock: {
        u64 m = C(0, "mutex"); { bool sv = opt.races; opt.races = false; chk(s, m, 1, false, "mutex lock"); opt.races = sv; }
        visible(s, P_TRYLOCK, m); if (s.mutexOwner[m]) { r = Val((u128)16); return true; } s.mutexOwner[m] = s.cur + 1; acquire(s, m); r = Val((u128)0); return true;
    }
    case B_mutex_unlock: {
        u64 m = C(0, "mutex"); { bool sv = opt.races; opt.races = false; chk(s, m, 1, false, "mutex unlock"); opt.races = sv; }
        if (s.mutexOwner[m] != s.cur + 1) violation(s, "mutex", "unlock of a mutex not held by this thread");
        release(s, m); s.mutexOwner[m] = 0; r = Val((u128)0); return true;
    }
    case B_sx_cond_wait: case B_sx_cond_timedwait: {
        u64 c = C(0, "cond"), m = C(1, "mutex"); bool timedCall = b == B_sx_cond_timedwait;
        Thread* t = &s.th[s.cur];
        if (s.multi && t->granted && t->pend == P_CONDWAKE) { // woken
            t->granted = false; t->pend = P_NONE;
            u32 mode = t->spur; r = Val((u128)0);
            if (mode == MODE_TIMEOUT) { clockAdvance(s, ex(t->deadline, 64)); r = Val((u128)110); }
            s.mutexOwner[m] = s.cur + 1; acquire(s, m); return true;
        }
        { bool sv = opt.races; opt.races = false; chk(s, c, 1, false, "condition wait"); chk(s, m, 1, false, "condition wait"); opt.races = sv; }
        if (s.mutexOwner[m] != s.cur + 1) violation(s, "mutex", "condition wait without holding the mutex");
        bool far = false;
        if (timedCall && !(s.multi && t->granted)) { // a deadline beyond 2^62 ns never expires
            Ex d = ex(a[2], 64); far = decide(s, mkBin(E_SLE, mkConst(64, (u128)3 << 61), d), "deadline");
        } else if (timedCall) { Ex d = ex(a[2], 64); far = evalM(s, mkBin(E_SLE, mkConst(64, (u128)3 << 61), d)) != 0; }
        visible(s, P_ATOMIC, c);
        t = &s.th[s.cur]; u32 me = s.cur;
        if (!s.multi) {
            if (!timedCall || far) violation(s, "deadlock", "deadlock: waiting on a condition variable with no other thread");
            clockAdvance(s, ex(a[2], 64)); r = Val((u128)110); return true;
        }
        release(s, m); s.mutexOwner[m] = 0;
        t->pend = P_CONDWAKE; t->paddr = c; t->paddr2 = m; t->notified = false; t->timed = timedCall && !far; t->deadline = timedCall ? a[2] : Val(); t->granted = false;
        schedule(s);
        if (s.cur != me) throw Switch{};
        return threadBuiltin(s, s.top(), in, b, a, r);
    }
    case B_cond_signal: case B_cond_broadcast: {
        u64 c = C(0, "cond"); { bool sv = opt.races; opt.races = false; chk(s, c, 1, false, "condition notify"); opt.races = sv; }
        if (s.multi) visible(s, P_ATOMIC, c);
        r = Val((u128)0);
        std::vector<u32> w; for (u32 t = 0; t < s.th.size(); ++t) { Thread& th = s.th[t]; if (th.stat != T_DONE && th.pend == P_CONDWAKE && th.paddr == c && !th.notified) w.push_back(t); }
        if (w.empty()) return true;
        if (b == B_cond_broadcast) { for (u32 t : w) s.th[t].notified = true; return true; }
        if (w.size() == 1) { s.th[w[0]].notified = true; return true; }
        // which waiter is woken is nondeterministic
        Val v = sym(s, "notify", 16);
        if (!v.e) { for (u32 t : w) if (t == (u32)v.c) s.th[t].notified = true; return true; }
        u32 sid = v.e->aux;
        for (size_t i = w.size(); i-- > 0;) {
            State* z = &s; std::unique_ptr<State> n;
            if (i) { n = clone(s); z = n.get(); }
            addPC(*z, mkEq(v.e, mkConst(16, w[i]))); if (z->model.size() <= sid) z->model.resize(sid + 1, 0); z->model[sid] = w[i];
            z->th[w[i]].notified = true;
            if (i) { Frame& g = z->th[z->cur].st.back(); if (in.dst >= 0) g.r[in.dst] = Val((u128)0); if (in.opc == Instruction::Invoke) jump(*z, g, in.t0, in.e0); else ++g.pc; work.push_back(std::move(n)); }
        }
        return true;
    }
    case B_sx_futex_wait: { // (addr, expected, deadline_ns or -1): blocks while *addr == expected; 0 = woken, 110 = timeout
        u64 ad = C(0, "futex"); Thread* t = &s.th[s.cur];
        if (s.multi && t->granted && t->pend == P_FUTEX) {
            t->granted = false; t->pend = P_NONE; r = Val((u128)0);
            if (t->spur == MODE_TIMEOUT) { clockAdvance(s, ex(t->deadline, 64)); r = Val((u128)110); }
            return true;
        }
        if (s.multi) visible(s, P_ATOMIC, ad);
        bool sv = opt.races; opt.races = false; Val cur = loadW(s, Val((u128)ad), 4, 32); opt.races = sv;
        Val eq = icmp(CmpInst::ICMP_EQ, 32, cur, a[1]);
        if (eq.e) incomplete(s, "symbolic futex");
        if (!eq.c) { r = Val((u128)0); return true; }
        bool timed = !(a[2].conc() && (i128)sextw(a[2].c, 64) == -1);
        t = &s.th[s.cur]; u32 me = s.cur;
        if (!s.multi) { if (!timed) violation(s, "deadlock", "deadlock: waiting for a result with no other thread"); clockAdvance(s, ex(a[2], 64)); r = Val((u128)110); return true; }
        t->pend = P_FUTEX; t->paddr = ad; t->notified = false; t->timed = timed; t->deadline = a[2]; t->granted = false;
        schedule(s);
        if (s.cur != me) throw Switch{};
        return threadBuiltin(s, s.top(), in, b, a, r);
    }
    case B_sx_futex_wake: { u64 ad = C(0, "futex"); for (auto& th : s.th) if (th.stat != T_DONE && th.pend == P_FUTEX && th.paddr == ad) th.notified = true; return true; }
    case B_sx_now: r = clockNow(s); return true;
    case B_sx_advance: clockAdvance(s, ex(a[0], 64)); return true;
    case B_sx_sleep_until: { if (s.multi) visible(s, P_SLEEP, 0); clockAdvance(s, ex(a[0], 64)); return true; }
    case B_sx_yield: visible(s, P_YIELD, 0); return true;
    case B_sx_point: visible(s, P_ATOMIC, 0); return true;
    case B_sx_quiesce: if (s.multi) visible(s, P_SLEEP, ~0ULL); return true;
    default: incomplete(s, "builtin");
    }
}
