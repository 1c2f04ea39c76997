// Instruction execution (included from exec.cc)

static inline bool isBin(unsigned o) { return o >= Instruction::Add && o <= Instruction::Xor; }

void Exec::stepOne(State& s) {
    Frame& f = s.th[s.cur].st.back();
    const Inst& in = f.f->in[f.pc];
    ++insts; ++s.steps;
    switch (in.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Val a = get(f, in.o[0]), b = get(f, in.o[1]);
        if (in.vec) { std::vector<Val> v; for (size_t i = 0; i < a.e->agg->size(); ++i) v.push_back(binop(s, in.opc, in.w, (*a.e->agg)[i], (*b.e->agg)[i], &in)); f.r[in.dst] = agg(v); }
        else f.r[in.dst] = known(s, binop(s, in.opc, in.w, a, b, &in));
        ++f.pc; return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Val a = get(f, in.o[0]), b = get(f, in.o[1]);
        if (in.vec) { std::vector<Val> v; for (size_t i = 0; i < a.e->agg->size(); ++i) v.push_back(fbin(s, in.opc, in.w, (*a.e->agg)[i], (*b.e->agg)[i])); f.r[in.dst] = agg(v); }
        else f.r[in.dst] = fbin(s, in.opc, in.w, a, b);
        ++f.pc; return;
    }
    case Instruction::FNeg: {
        auto one = [&](Val a) { u128 m = (u128)1 << (in.w - 1); if (!a.e) return Val(a.c ^ m); return Val(mkBin(E_XOR, a.e, mkConst(in.w, m))); };
        Val a = get(f, in.o[0]);
        if (in.vec) { std::vector<Val> v; for (auto& x : *a.e->agg) v.push_back(one(x)); f.r[in.dst] = agg(v); } else f.r[in.dst] = one(a);
        ++f.pc; return;
    }
    case Instruction::ICmp: {
        Val a = get(f, in.o[0]), b = get(f, in.o[1]);
        if (in.vec) { std::vector<Val> v; for (size_t i = 0; i < a.e->agg->size(); ++i) v.push_back(icmp(in.pred, in.sw, (*a.e->agg)[i], (*b.e->agg)[i])); f.r[in.dst] = agg(v); }
        else f.r[in.dst] = known(s, icmp(in.pred, in.sw, a, b));
        ++f.pc; return;
    }
    case Instruction::FCmp: {
        Val a = get(f, in.o[0]), b = get(f, in.o[1]);
        if (in.vec) { std::vector<Val> v; for (size_t i = 0; i < a.e->agg->size(); ++i) v.push_back(fcmp(in.pred, in.sw, (*a.e->agg)[i], (*b.e->agg)[i])); f.r[in.dst] = agg(v); }
        else f.r[in.dst] = known(s, fcmp(in.pred, in.sw, a, b));
        ++f.pc; return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::AddrSpaceCast: case Instruction::Freeze: {
        Val a = get(f, in.o[0]);
        if (in.vec && in.opc != Instruction::Freeze) { std::vector<Val> v; for (auto& x : *a.e->agg) v.push_back(castv(s, in.opc, in.sw, in.w, x)); f.r[in.dst] = agg(v); }
        else f.r[in.dst] = known(s, castv(s, in.opc, in.sw, in.w, a));
        ++f.pc; return;
    }
    case Instruction::BitCast: {
        Type* st = in.I->getOperand(0)->getType();
        if (st->isVectorTy() || in.ty->isVectorTy()) {
            // flatten to one integer (<=128 bits) and split again
            u64 bits = DL.getTypeSizeInBits(st); if (bits > 128) incomplete(s, "wide vector bitcast");
            Val a = get(f, in.o[0]); Ex flat;
            if (st->isVectorTy()) { unsigned ew = width(st->getScalarType()); flat = nullptr; for (auto& x : *a.e->agg) { Ex y = ex(x, ew); flat = flat ? mkConcat(y, flat) : y; } }
            else flat = ex(a, (unsigned)bits);
            if (in.ty->isVectorTy()) { unsigned ew = width(in.ty->getScalarType()); std::vector<Val> v; for (u64 i = 0; i < bits / ew; ++i) v.push_back(Val(mkExtract(flat, (unsigned)i * ew, ew))); f.r[in.dst] = agg(v); }
            else f.r[in.dst] = Val(flat);
        } else f.r[in.dst] = get(f, in.o[0]);
        ++f.pc; return;
    }
    case Instruction::Select: {
        Val c = known(s, get(f, in.o[0])), a = get(f, in.o[1]), b = get(f, in.o[2]);
        if (c.e && c.e->op == E_AGG) {
            std::vector<Val> v; unsigned ew = width(in.ty->getScalarType());
            for (size_t i = 0; i < c.e->agg->size(); ++i) { auto& ci = (*c.e->agg)[i]; auto &x = (*a.e->agg)[i], &y = (*b.e->agg)[i]; if (!ci.e) v.push_back(ci.c ? x : y); else v.push_back(Val(mkIte(ci.e, ex(x, ew), ex(y, ew)))); }
            f.r[in.dst] = agg(v);
        } else if (!c.e) f.r[in.dst] = c.c ? a : b;
        else if ((a.e && a.e->op == E_AGG) || (b.e && b.e->op == E_AGG) || !in.w || (s.multi && in.ty->isPointerTy())) { bool d = decide(s, c.e, "select"); f.r[in.dst] = d ? a : b; }
        else f.r[in.dst] = known(s, Val(mkIte(c.e, ex(a, in.w), ex(b, in.w))));
        ++f.pc; return;
    }
    case Instruction::GetElementPtr: {
        if (in.vec) incomplete(s, "vector gep");
        Val p = get(f, in.o[0]); u64 off = in.imm; Ex se = p.e; u64 base = (u64)p.c;
        for (auto& g : in.gi) {
            Val x = get(f, g.o);
            if (!x.e) off += (u64)(long long)sextw(x.c, g.w) * g.scale;
            else {
                Ex y = g.w == 64 ? x.e : mkSExt(x.e, 64);
                y = mkBin(E_MUL, y, mkConst(64, g.scale));
                if (se) se = mkBin(E_ADD, se, y);
                else { se = mkBin(E_ADD, y, mkConst(64, base)); }
            }
        }
        if (!se) f.r[in.dst] = Val((u128)(u64)(base + off));
        else f.r[in.dst] = Val(mkBin(E_ADD, se, mkConst(64, off)));
        ++f.pc; return;
    }
    case Instruction::Load: {
        Val a = get(f, in.o[0]);
        if (in.ord) { u64 ad = conc(s, a, 64, "atomic"); if (opt.atomicPoints) visible(s, P_ATOMIC, ad); if (in.ord & ORD_ACQ) acquire(s, ad); bool sv = opt.races; opt.races = false; Val v; try { v = load(s, a, in.ty); } catch (...) { opt.races = sv; throw; } opt.races = sv; Frame& g = s.top(); g.r[in.dst] = v; ++g.pc; return; }
        Val v = load(s, a, in.ty);
        f.r[in.dst] = known(s, v); ++f.pc; return;
    }
    case Instruction::Store: {
        Val a = get(f, in.o[1]);
        if (in.ord) { u64 ad = conc(s, a, 64, "atomic"); if (opt.atomicPoints) visible(s, P_ATOMIC, ad); if (in.ord & ORD_REL) release(s, ad); bool sv = opt.races; opt.races = false; try { store(s, a, get(s.top(), in.o[0]), in.ty); } catch (...) { opt.races = sv; throw; } opt.races = sv; ++s.top().pc; return; }
        store(s, a, get(f, in.o[0]), in.ty);
        ++f.pc; return;
    }
    case Instruction::AtomicRMW: {
        auto* rm = cast<AtomicRMWInst>(in.I);
        Val a = get(f, in.o[0]); u64 ad = conc(s, a, 64, "atomic");
        if (opt.atomicPoints) visible(s, P_ATOMIC, ad);
        if (isAcquireOrStronger(rm->getOrdering())) acquire(s, ad);
        bool sv = opt.races; opt.races = false;
        unsigned bytes = (unsigned)DL.getTypeStoreSize(in.ty);
        Val old = loadW(s, Val((u128)ad), bytes, in.w), v = get(s.top(), in.o[1]), nv;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, in.w, old, v, &in); break;
        case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, in.w, old, v, &in); break;
        case AtomicRMWInst::And: nv = binop(s, Instruction::And, in.w, old, v, &in); break;
        case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, in.w, old, v, &in); break;
        case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, in.w, old, v, &in); break;
        default: opt.races = sv; incomplete(s, "atomicrmw op");
        }
        storeW(s, Val((u128)ad), nv, bytes, in.w);
        opt.races = sv;
        if (isReleaseOrStronger(rm->getOrdering())) release(s, ad);
        Frame& g = s.top(); g.r[in.dst] = old; ++g.pc; return;
    }
    case Instruction::AtomicCmpXchg: {
        auto* cx = cast<AtomicCmpXchgInst>(in.I);
        u64 ad = conc(s, get(f, in.o[0]), 64, "atomic");
        if (opt.atomicPoints) visible(s, P_ATOMIC, ad);
        Type* vt = cx->getNewValOperand()->getType(); unsigned w = width(vt), bytes = (unsigned)DL.getTypeStoreSize(vt);
        bool sv = opt.races; opt.races = false;
        Val old = loadW(s, Val((u128)ad), bytes, w); Val cmp = get(s.top(), in.o[1]), nv = get(s.top(), in.o[2]);
        Val eq = icmp(CmpInst::ICMP_EQ, w, old, cmp);
        bool ok = eq.e ? decide(s, eq.e, "cmpxchg") : eq.c != 0;
        if (ok) storeW(s, Val((u128)ad), nv, bytes, w);
        opt.races = sv;
        if (isAcquireOrStronger(cx->getSuccessOrdering())) acquire(s, ad);
        if (ok && isReleaseOrStronger(cx->getSuccessOrdering())) release(s, ad);
        Frame& g = s.top(); g.r[in.dst] = agg({old, Val((u128)ok)}); ++g.pc; return;
    }
    case Instruction::Fence: ++f.pc; return;
    case Instruction::Alloca: {
        u64 n = conc(s, get(f, in.o[0]), in.sw, "alloca size");
        u64 a = alloc(s, in.imm * n, K_STACK, A_NONE, "");
        Frame& g = s.top(); g.allocas.push_back((u32)(a >> 32) - 1); g.r[in.dst] = Val((u128)a); ++g.pc; return;
    }
    case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(in.I); Val a = get(f, in.o[0]);
        for (unsigned i : ev->indices()) { if (!a.e || a.e->op != E_AGG) incomplete(s, "extractvalue"); a = (*a.e->agg)[i]; }
        f.r[in.dst] = a; ++f.pc; return;
    }
    case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(in.I); Val a = get(f, in.o[0]), x = get(f, in.o[1]);
        std::function<Val(Val, unsigned)> rec = [&](Val b, unsigned d) -> Val {
            if (d == iv->getNumIndices()) return x;
            std::vector<Val> v = *b.e->agg; unsigned i = iv->getIndices()[d]; v[i] = rec(v[i], d + 1); return agg(v);
        };
        if (!a.e || a.e->op != E_AGG) a = zeroOf(in.ty);
        f.r[in.dst] = rec(a, 0); ++f.pc; return;
    }
    case Instruction::ExtractElement: { Val a = get(f, in.o[0]); u64 i = conc(s, get(f, in.o[1]), width(in.I->getOperand(1)->getType()), "extractelement"); Frame& g = s.top(); g.r[in.dst] = a.e->agg->at(i); ++g.pc; return; }
    case Instruction::InsertElement: { Val a = get(f, in.o[0]); if (!a.e || a.e->op != E_AGG) a = zeroOf(in.ty); u64 i = conc(s, get(f, in.o[2]), width(in.I->getOperand(2)->getType()), "insertelement"); std::vector<Val> v = *a.e->agg; v.at(i) = get(s.top(), in.o[1]); Frame& g = s.top(); g.r[in.dst] = agg(v); ++g.pc; return; }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(in.I); Val a = get(f, in.o[0]), b = get(f, in.o[1]); std::vector<Val> v; size_t n = a.e->agg->size();
        for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? Val((u128)0) : (size_t)m < n ? (*a.e->agg)[m] : (*b.e->agg)[m - n]);
        f.r[in.dst] = agg(v); ++f.pc; return;
    }
    case Instruction::Br: {
        if (in.o.empty()) { jump(s, f, in.t0, in.e0); return; }
        Val c = known(s, get(f, in.o[0])); bool t;
        if (!c.e) t = c.c & 1;
        else {
            // both sides continue directly (no re-execution needed)
            bool v = evalM(s, c.e) != 0; Ex taken = v ? c.e : mkNot(c.e), other = v ? mkNot(c.e) : c.e;
            Model m2; SRes r = feasible(s, other, m2);
            if (r == S_SAT && opt.merge && !s.multi) { regionMerge(s, in, v, taken, other, std::move(m2)); return; }
            if (r == S_SAT) {
                auto n = clone(s); addPC(*n, other); n->model = std::move(m2);
                Frame& nf = n->th[n->cur].st.back();
                if (v) jump(*n, nf, in.t1, in.e1); else jump(*n, nf, in.t0, in.e0);
                work.push_back(std::move(n)); addPC(s, taken);
                if (opt.progress) ++forkSites[where(s)];
            } else if (r == S_UNKNOWN) { ++incompletes; ++incReasons["solver unknown (branch) @ " + where(s)]; addPC(s, taken); }
            t = v;
        }
        if (t) jump(s, f, in.t0, in.e0); else jump(s, f, in.t1, in.e1);
        return;
    }
    case Instruction::Switch: {
        Val c = get(f, in.o[0]);
        if (!c.e) {
            for (auto& k : in.cases) if (k.first == (c.c & maskw(in.sw))) { jump(s, f, k.second.first, k.second.second); return; }
            jump(s, f, in.t0, in.e0); return;
        }
        // group by destination
        u128 v = evalM(s, c.e); u32 tgt = in.t0; int ed = in.e0; bool dflt = true;
        for (auto& k : in.cases) if (k.first == v) { tgt = k.second.first; ed = k.second.second; dflt = false; break; }
        Ex same = mkConst(1, 0);
        if (dflt) { Ex any = mkConst(1, 0); for (auto& k : in.cases) any = mkOr(any, mkEq(c.e, mkConst(in.sw, k.first))); same = mkNot(any); }
        else for (auto& k : in.cases) if (k.second.first == tgt && k.second.second == ed) same = mkOr(same, mkEq(c.e, mkConst(in.sw, k.first)));
        // different edges to the same block with different phi values are distinct destinations
        if (!decide(s, same, "switch")) incomplete(s, "switch internal");
        jump(s, s.top(), tgt, ed); return;
    }
    case Instruction::Ret: {
        bool has = !in.o.empty(); Val v = has ? get(f, in.o[0]) : Val();
        ret(s, v, has); return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, in); return;
    case Instruction::Resume: { Val a = get(f, in.o[0]); u64 exn = (u64)(*a.e->agg)[0].c; unwind(s, exn, true); return; }
    case Instruction::Unreachable: violation(s, "undefined", "unreachable code reached");
    default: incomplete(s, std::string("unsupported instruction ") + in.I->getOpcodeName());
    }
}

void Exec::doCall(State& s, Frame& f, const Inst& in) {
    auto* cb = cast<CallBase>(in.I);
    Function* F = in.callee; int b = in.builtin;
    std::vector<Val> a; size_t n = cb->arg_size(); a.reserve(n);
    if (!F) {
        if (cb->isInlineAsm()) { // only empty asm (compiler barriers)
            auto* ia = cast<InlineAsm>(cb->getCalledOperand());
            if (ia->getAsmString().empty() && in.dst < 0) { if (in.opc == Instruction::Invoke) jump(s, f, in.t0, in.e0); else ++f.pc; return; }
            incomplete(s, "inline assembly");
        }
        u64 t = conc(s, get(f, in.o.back()), 64, "function pointer");
        auto it = faddr.find(t);
        if (it == faddr.end()) violation(s, "memory", "call through invalid function pointer");
        F = it->second;
        auto bi = bmap.find(F->getName().str()); if (bi != bmap.end()) b = bi->second;
    }
    Frame& fr = s.top();
    for (size_t i = 0; i < n; ++i) a.push_back(get(fr, in.o[i]));
    Val r; bool done;
    if (F->isIntrinsic()) done = intrinsic(s, fr, in, F, a, r);
    else if (b >= 0) done = builtin(s, fr, in, b, a, r);
    else if (F->isDeclaration()) {
        if (libm(s, F->getName().str(), in, a, r)) done = true;
        else incomplete(s, "call to external function " + demangle(F->getName().str()));
    } else { enter(s, F, a, false); return; }
    if (done) {
        Frame& g = s.top();
        if (in.dst >= 0) g.r[in.dst] = r;
        if (in.opc == Instruction::Invoke) jump(s, g, in.t0, in.e0); else ++g.pc;
    }
}

void Exec::finishPath(State& s) {
    ++paths;
    for (u32 x : s.reached) (void)x;
    // keep a reservoir of sample paths for native validation
    ++sampleSeen; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    size_t slot = samples.size() < opt.samplePaths ? samples.size() : (size_t)(rng % sampleSeen);
    if (slot < opt.samplePaths) {
        Sample sm; newEvalEpoch();
        for (auto& i : s.inputs) sm.in.push_back({i.first, valStr(i.second.e ? evalExpr(i.second.e, s.model) : i.second.c)});
        for (size_t i = 0; i < s.observed.size(); ++i) { const Val& v = s.observed[i]; sm.obs.push_back(valStr(v.e ? evalExpr(v.e, s.model) : v.c)); }
        if (slot == samples.size()) samples.push_back(sm); else samples[slot] = sm;
    }
}

void Exec::runState() {
    State& s = *S;
    try {
        u32 tick = 0;
        while (true) {
            Thread& t = s.th[s.cur];
            if (t.st.empty()) {
                if (s.cur == 0) { // main finished
                    finishPath(s); return;
                }
                thDone(s); // schedules another thread
                continue;
            }
            try {
                for (int i = 0; i < 256; ++i) { 
                    stepOne(s);
                    if (s.th[s.cur].st.empty()) break;
                }
            } catch (Switch&) {}
            if (s.steps > opt.maxSteps) violation(s, "nontermination", "no termination within " + std::to_string(opt.maxSteps) + " steps");
            if ((++tick & 63) == 0 && elapsed() > opt.timeBudget) { stopAll = true; stopReason = "time budget"; ++incReasons["time budget"]; ++incompletes; return; }
        }
    } catch (Terminate& t) {
        if (t.k == PathEnd::ASSUME) ++assumeKilled;
        else if (t.k == PathEnd::INCOMPLETE) ++incompletes;
        else if (t.k == PathEnd::VIOL) { if (opt.stopFirst) { stopAll = true; stopReason = "violation"; } }
        else if (t.k == PathEnd::DONE) finishPath(s);
    }
}
