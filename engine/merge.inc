// Local path merging (included from exec.cc).
// At a two-way symbolic branch the side-effect-free continuation of the current frame is explored for both
// sides together; partial paths that meet at the same instruction with the same live registers are joined
// (their path conditions are or-ed, small data registers become if-then-else).  A partial path stops at the
// first instruction that is not plainly side-effect free and then continues as an ordinary path.
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>

struct RegionInfo {
    std::vector<u32> blkOf;               // instruction index -> block
    std::vector<u32> start;               // block -> first instruction index
    std::vector<std::vector<bool>> live;  // block -> live registers after the phi moves
    std::vector<u32> depth, rpo;
    std::unordered_map<u32, std::vector<bool>> mid; // live registers before an instruction
    std::vector<std::vector<bool>> out;
};
static void usesOf(const Inst& in, std::vector<int>& u) { for (auto& o : in.o) if (o.reg >= 0) u.push_back(o.reg); for (auto& g : in.gi) if (g.o.reg >= 0) u.push_back(g.o.reg); }

RegionInfo* Exec::region(FuncInfo* fi) {
    auto& p = regions[fi]; if (p) return p.get();
    p = std::make_shared<RegionInfo>(); RegionInfo& R = *p;
    Function* F = fi->F; std::unordered_map<const BasicBlock*, u32> id; u32 nb = 0;
    for (BasicBlock& B : *F) id[&B] = nb++;
    R.blkOf.resize(fi->in.size()); R.start.assign(nb, 0); R.live.assign(nb, std::vector<bool>(fi->nregs)); R.out = R.live; R.depth.assign(nb, 0); R.rpo.assign(nb, 1u << 30);
    std::vector<std::pair<u32, u32>> rng(nb, {~0u, 0});
    for (u32 i = 0; i < fi->in.size(); ++i) { u32 b = id[fi->in[i].I->getParent()]; R.blkOf[i] = b; rng[b].first = std::min(rng[b].first, i); rng[b].second = std::max(rng[b].second, i); }
    for (u32 b = 0; b < nb; ++b) R.start[b] = rng[b].first;
    // register numbers as assigned in info(): arguments, then non-void instructions in order
    std::unordered_map<const Value*, int> reg; int n = 0;
    for (Argument& A : F->args()) reg[&A] = n++;
    for (BasicBlock& B : *F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++;
    bool ch = true;
    while (ch) {
        ch = false;
        u32 k = nb;
        for (auto it = F->end(); it != F->begin();) {
            --it; BasicBlock& B = *it; --k; std::vector<bool> l(fi->nregs);
            for (BasicBlock* S2 : successors(&B)) {
                u32 t = id[S2]; std::vector<bool> q = R.live[t];
                for (PHINode& P : S2->phis()) q[reg[&P]] = false;
                for (PHINode& P : S2->phis()) { Value* v = P.getIncomingValueForBlock(&B); auto r = reg.find(v); if (r != reg.end()) q[r->second] = true; }
                for (u32 i = 0; i < fi->nregs; ++i) if (q[i]) l[i] = true;
            }
            R.out[k] = l;
            for (u32 i = rng[k].second + 1; rng[k].first != ~0u && i-- > rng[k].first;) { const Inst& in = fi->in[i]; if (in.dst >= 0) l[in.dst] = false; std::vector<int> u; usesOf(in, u); for (int r : u) l[r] = true; }
            if (l != R.live[k]) { R.live[k] = l; ch = true; }
        }
    }
    DominatorTree DT(*F); LoopInfo LI(DT);
    u32 c = 0; ReversePostOrderTraversal<Function*> RP(F);
    for (BasicBlock* B : RP) { R.rpo[id[B]] = c++; R.depth[id[B]] = LI.getLoopDepth(B); }
    return &R;
}
static const std::vector<bool>& liveAt(RegionInfo& R, FuncInfo* fi, u32 pc) {
    auto it = R.mid.find(pc); if (it != R.mid.end()) return it->second;
    u32 b = R.blkOf[pc]; std::vector<bool> l = R.out[b]; u32 e = pc; while (e + 1 < fi->in.size() && R.blkOf[e + 1] == b) ++e;
    for (u32 i = e + 1; i-- > pc;) { const Inst& in = fi->in[i]; if (in.dst >= 0) l[in.dst] = false; std::vector<int> u; usesOf(in, u); for (int r : u) l[r] = true; }
    return R.mid[pc] = l;
}

static bool pureIntrinsic(const Inst& in) {
    if (!in.callee || !in.callee->isIntrinsic() || in.opc != Instruction::Call || (in.ty && in.ty->isVectorTy())) return false;
    switch (in.callee->getIntrinsicID()) {
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:
        return in.I->getOperand(0)->getType()->getIntegerBitWidth() <= 64;
    case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::abs: case Intrinsic::expect: case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
    case Intrinsic::fabs: case Intrinsic::assume: case Intrinsic::ctpop: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::bswap: return true;
    default: return false;
    }
}

void Exec::regionMerge(State& s, const Inst& br, bool v, Ex taken, Ex other, Model m2) {
    FuncInfo* fi = s.top().f; RegionInfo& R = *region(fi);
    struct Mini { u32 pc; std::vector<Val> r; std::vector<Ex> cond; Model m; };
    std::vector<Mini> pend, done; u64 budget = 6000;
    std::function<void(std::vector<Ex>&, Ex)> add = [&](std::vector<Ex>& c, Ex e) { if (isConst(e)) return; if (e->op == E_AND && e->w == 1) { add(c, e->k[0]); add(c, e->k[1]); return; } c.push_back(e); };
    Frame& f = s.top(); u32 savedPc = f.pc;
    auto goTo = [&](Mini& m, u32 t, int e) { std::swap(f.r, m.r); u32 p = f.pc; jump(s, f, t, e); m.pc = f.pc; f.pc = p; std::swap(f.r, m.r); };
    auto tryJoin = [&](Mini& a, const Mini& b) -> bool { // a absorbs b
        if (a.pc != b.pc) return false;
        const auto& L = liveAt(R, fi, a.pc); std::vector<u32> diff;
        for (u32 i = 0; i < fi->nregs; ++i) {
            if (!L[i]) continue;
            const Val &x = a.r[i], &y = b.r[i];
            if (x.e == y.e && (x.e || x.c == y.c)) continue;
            if ((x.e && x.e->op == E_AGG) || (y.e && y.e->op == E_AGG)) return false;
            diff.push_back(i);
        }
        size_t k = 0; while (k < a.cond.size() && k < b.cond.size() && a.cond[k] == b.cond[k]) ++k;
        Ex ca = mkConst(1, 1), cb = ca;
        for (size_t i = a.cond.size(); i-- > k;) ca = mkAnd(a.cond[i], ca);
        for (size_t i = b.cond.size(); i-- > k;) cb = mkAnd(b.cond[i], cb);
        if (!diff.empty()) {
            if (!opt.iteMerge || diff.size() > 4) return false;
            for (u32 i : diff) {
                unsigned w = 0; const Val &x = a.r[i], &y = b.r[i];
                if (x.e) w = x.e->w; else if (y.e) w = y.e->w; else w = regWidth(fi, i);
                if (w == 0 || w > 32) return false;
                if (!x.e && !y.e && w > 8) return false;
            }
            for (u32 i : diff) { unsigned w = a.r[i].e ? a.r[i].e->w : b.r[i].e ? b.r[i].e->w : regWidth(fi, i); a.r[i] = Val(mkIte(ca, ex(a.r[i], w), ex(b.r[i], w))); }
        }
        a.cond.resize(k); add(a.cond, mkOr(ca, cb)); ++merges; return true;
    };
    auto arrive = [&](Mini&& m, std::vector<Mini>& where) { for (auto& q : where) if (tryJoin(q, m)) return; where.push_back(std::move(m)); };
    {
        Mini a; a.r = f.r; a.m = s.model; add(a.cond, taken); Mini b; b.r = f.r; b.m = std::move(m2); add(b.cond, other);
        if (v) { goTo(a, br.t0, br.e0); goTo(b, br.t1, br.e1); } else { goTo(a, br.t1, br.e1); goTo(b, br.t0, br.e0); }
        arrive(std::move(a), pend); arrive(std::move(b), pend);
    }
    auto simple = [&](const Inst& in, const std::vector<Val>& r) -> bool {
        auto gv = [&](const Opnd& o) -> const Val& { return o.reg >= 0 ? r[o.reg] : o.v; };
        switch (in.opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::ICmp: case Instruction::FCmp: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg:
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::ExtractValue:
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: return true;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { const Val& d = gv(in.o[1]); return !in.vec && !d.e && (d.c & maskw(in.w)); }
        case Instruction::Select: { const Val &a = gv(in.o[1]), &b = gv(in.o[2]); if (!in.w || in.vec) return false; return !(a.e && a.e->op == E_AGG) && !(b.e && b.e->op == E_AGG); }
        case Instruction::GetElementPtr: return !in.vec;
        case Instruction::Load: {
            if (in.ord || !width(in.ty)) return false; const Val& a = gv(in.o[0]); if (a.e) return false; u64 ad = (u64)a.c, n = DL.getTypeStoreSize(in.ty); u32 hi = (u32)(ad >> 32);
            if (!hi || n > 16) return false; MemObj* o = s.objs.get(hi - 1); return o && (u64)(u32)ad + n <= o->size && o->kind != K_FUNC;
        }
        case Instruction::Call: return pureIntrinsic(in);
        default: return false;
        }
    };
    std::vector<Ex> full = s.pc; size_t base = full.size();
    auto feas = [&](Mini& m, Ex c, Model& out) { full.resize(base); for (Ex e : m.cond) full.push_back(e); return solver.check(full, c, m.m, out); };
    while (!pend.empty()) {
        // deepest loop first, then reverse post order
        size_t bi = 0;
        for (size_t i = 1; i < pend.size(); ++i) { u32 x = R.blkOf[pend[i].pc], y = R.blkOf[pend[bi].pc]; if (R.depth[x] > R.depth[y] || (R.depth[x] == R.depth[y] && R.rpo[x] < R.rpo[y])) bi = i; }
        Mini m = std::move(pend[bi]); pend[bi] = std::move(pend.back()); pend.pop_back();
        bool stop = false;
        while (!stop) {
            const Inst& in = fi->in[m.pc];
            if (budget == 0 || pend.size() + done.size() > 200) { arrive(std::move(m), done); break; }
            --budget;
            if (in.opc == Instruction::Br) {
                ++insts; ++s.steps;
                if (in.o.empty()) { goTo(m, in.t0, in.e0); arrive(std::move(m), pend); break; }
                const Val c = in.o[0].reg >= 0 ? m.r[in.o[0].reg] : in.o[0].v;
                if (!c.e) { if (c.c & 1) goTo(m, in.t0, in.e0); else goTo(m, in.t1, in.e1); arrive(std::move(m), pend); break; }
                newEvalEpoch(); bool tv = evalExpr(c.e, m.m) != 0; Ex tk = tv ? c.e : mkNot(c.e), ot = tv ? mkNot(c.e) : c.e; Model mo; SRes q = feas(m, ot, mo);
                if (q == S_UNKNOWN) { arrive(std::move(m), done); break; } // leave it to the ordinary path
                if (q == S_SAT) { Mini n; n.r = m.r; n.cond = m.cond; n.m = std::move(mo); add(n.cond, ot); if (tv) goTo(n, in.t1, in.e1); else goTo(n, in.t0, in.e0); add(m.cond, tk); arrive(std::move(n), pend); }
                if (tv) goTo(m, in.t0, in.e0); else goTo(m, in.t1, in.e1);
                arrive(std::move(m), pend); break;
            }
            if (in.opc == Instruction::Switch) {
                const Val c = in.o[0].reg >= 0 ? m.r[in.o[0].reg] : in.o[0].v;
                if (!c.e) { ++insts; u32 t = in.t0; int e = in.e0; for (auto& k : in.cases) if (k.first == (c.c & maskw(in.sw))) { t = k.second.first; e = k.second.second; break; } goTo(m, t, e); arrive(std::move(m), pend); break; }
                if (in.cases.size() > 24) { arrive(std::move(m), done); break; }
                std::map<std::pair<u32, int>, Ex> grp; Ex any = mkConst(1, 0);
                for (auto& k : in.cases) { Ex q = mkEq(c.e, mkConst(in.sw, k.first)); any = mkOr(any, q); auto& g = grp[k.second]; g = g ? mkOr(g, q) : q; }
                std::vector<std::pair<std::pair<u32, int>, Ex>> outs(grp.begin(), grp.end()); outs.push_back({{in.t0, in.e0}, mkNot(any)});
                std::vector<Mini> nm; bool unk = false;
                for (auto& o : outs) { newEvalEpoch(); Model mo; bool isT = evalExpr(o.second, m.m) != 0; SRes q = isT ? S_SAT : feas(m, o.second, mo); if (q == S_UNKNOWN) unk = true; if (q != S_SAT) continue; Mini n; n.r = m.r; n.cond = m.cond; n.m = isT ? m.m : std::move(mo); add(n.cond, o.second); goTo(n, o.first.first, o.first.second); nm.push_back(std::move(n)); }
                if (unk) { arrive(std::move(m), done); break; }
                ++insts; for (auto& n : nm) arrive(std::move(n), pend);
                break;
            }
            if (!simple(in, m.r)) { arrive(std::move(m), done); break; }
            std::swap(f.r, m.r); f.pc = m.pc;
            try { stepOne(s); } catch (...) { std::swap(f.r, m.r); f.pc = savedPc; throw; }
            m.pc = f.pc; std::swap(f.r, m.r); f.pc = savedPc;
        }
    }
    // the outcomes continue as ordinary paths
    for (size_t i = 1; i < done.size(); ++i) {
        auto n = clone(s); for (Ex e : done[i].cond) addPC(*n, e); n->model = std::move(done[i].m); Frame& g = n->top(); g.r = std::move(done[i].r); g.pc = done[i].pc; work.push_back(std::move(n));
    }
    for (Ex e : done[0].cond) addPC(s, e);
    s.model = std::move(done[0].m); f.r = std::move(done[0].r); f.pc = done[0].pc;
}
unsigned Exec::regWidth(FuncInfo* fi, u32 r) {
    auto& v = regW[fi];
    if (v.empty()) {
        for (Argument& A : fi->F->args()) v.push_back(A.getType()->isPointerTy() ? 0 : width(A.getType()));
        for (BasicBlock& B : *fi->F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) v.push_back(I.getType()->isPointerTy() ? 0 : width(I.getType()));
    }
    return v[r];
}
