// Symbolic execution of LLVM IR: decoding, memory, control flow.
#include "exec.h"
#include <llvm/IR/Operator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstdio>
#include <sstream>
#include <fstream>
#include <cmath>
#include <algorithm>
#include <sys/resource.h>

using namespace llvm;
u64 g_liveObj = 0;
static Expr uninitMarkerStorage;
static Ex UNINIT = nullptr;

enum { I_INTRIN = 200, I_BUILTIN };
enum { ORD_ACQ = 2, ORD_REL = 4, ORD_ATOMIC = 1 };

static double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double Exec::elapsed() { return nowSec() - t0; }

static long double bitsToLDx(u128 v, unsigned w) {
    if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
    if (w == 64) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
    long double f = 0; memcpy(&f, &v, 10); return f;
}
#include "builtins.inc"

Exec::Exec(Module& m, Options o) : M(m), DL(m.getDataLayout()), opt(o) {
    t0 = nowSec();
    rng ^= (u64)o.seed * 0x9e3779b97f4a7c15ULL;
    uninitMarkerStorage.op = E_UNINIT; uninitMarkerStorage.w = 8; UNINIT = &uninitMarkerStorage;
    for (int i = 0; builtinNames[i]; ++i) bmap[builtinNames[i]] = i;
    solver.timeoutMs = o.solverTimeout; solver.dumpDir = o.dumpDir; solver.dumpMax = o.dumpMax;
    if (!o.concFile.empty()) {
        std::ifstream f(o.concFile); std::string n, v;
        while (f >> n >> v) { u128 x = 0; for (char c : v) x = x * 10 + (c - '0'); concIn.push_back({n, x}); }
    }
}

unsigned Exec::width(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0; // aggregate or void
}

// ---------------- globals ----------------
u64 Exec::alloc(State& s, u64 size, ObjKind k, AllocKind ak, const char* name, bool zero) {
    MemObj* o = new MemObj(); o->size = (u32)size; o->kind = k; o->ak = ak; o->b.assign(size, 0);
    if (!zero) o->s.assign(size, UNINIT);
    (void)name;
    return baseOf(s.objs.add(o));
}

void Exec::initGlobals() {
    State& s = *S;
    for (Function& F : M) {
        u64 a = alloc(s, 1, K_FUNC, A_NONE, "", true);
        gaddr[&F] = a; faddr[a] = &F;
    }
    for (GlobalVariable& G : M.globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        u64 sz = DL.getTypeAllocSize(G.getValueType());
        if (G.isDeclaration()) sz = std::max<u64>(sz, 256);
        gaddr[&G] = alloc(s, sz, G.isThreadLocal() ? K_TLS : K_GLOBAL, A_NONE, "", true);
        s.objs.get((u32)(gaddr[&G] >> 32) - 1)->name = new std::string(G.getName().str());
    }
    for (GlobalAlias& A : M.aliases()) {
        Constant* c = A.getAliasee();
        if (auto* gv = dyn_cast<GlobalValue>(c->stripPointerCasts())) gaddr[&A] = gaddr[gv];
    }
    for (GlobalVariable& G : M.globals()) {
        if (!G.hasInitializer() || G.getName().starts_with("llvm.")) continue;
        MemObj* o = s.objs.getW((u32)(gaddr[&G] >> 32) - 1);
        initConst(o, 0, G.getInitializer());
        if (G.isConstant()) o->ro = true;
    }
}
void Exec::initConst(MemObj* o, u64 off, const Constant* c) {
    if (c->isNullValue() || isa<UndefValue>(c)) return;
    Type* t = c->getType();
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL.getTypeAllocSize(cds->getElementType());
        for (unsigned i = 0; i < cds->getNumElements(); ++i) initConst(o, off + i * es, cds->getElementAsConstant(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
            u64 eo;
            if (auto* st = dyn_cast<StructType>(t)) eo = DL.getStructLayout(st)->getElementOffset(i);
            else if (auto* at = dyn_cast<ArrayType>(t)) eo = i * DL.getTypeAllocSize(at->getElementType());
            else eo = i * DL.getTypeAllocSize(cast<VectorType>(t)->getElementType());
            initConst(o, off + eo, ca->getOperand(i));
        }
        return;
    }
    Val v = constVal(c);
    u64 n = DL.getTypeStoreSize(t);
    for (u64 i = 0; i < n && i < 16; ++i) o->b[off + i] = (u8)(v.c >> (8 * i));
}

Val Exec::zeroOf(Type* t) {
    if (width(t)) return Val((u128)0);
    std::vector<Val> v;
    if (auto* st = dyn_cast<StructType>(t)) for (Type* e : st->elements()) v.push_back(zeroOf(e));
    else if (auto* at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); ++i) v.push_back(zeroOf(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); ++i) v.push_back(zeroOf(vt->getElementType()));
    else return Val((u128)0);
    return agg(v);
}

Val Exec::constVal(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        const APInt& a = ci->getValue(); u128 v = a.getRawData()[0];
        if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
        return Val(v & maskw(a.getBitWidth()));
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt(); u128 v = a.getRawData()[0];
        if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
        return Val(v);
    }
    if (isa<ConstantPointerNull>(c)) return Val((u128)0);
    if (isa<UndefValue>(c)) return zeroOf(t); // undef / poison
    if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); return Val((u128)(it == gaddr.end() ? 0 : it->second)); }
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o))); return agg(v); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i))); return agg(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = width(t);
        auto op = [&](unsigned i) { return constVal(ce->getOperand(i)); };
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val(op(0).c & maskw(w ? w : 64));
        case Instruction::GetElementPtr: {
            APInt off(64, 0); auto* g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(DL, off)) break;
            return Val((u128)(u64)(op(0).c + off.getZExtValue()));
        }
        case Instruction::Add: return Val(foldBin(E_ADD, w, op(0).c, op(1).c));
        case Instruction::Sub: return Val(foldBin(E_SUB, w, op(0).c, op(1).c));
        case Instruction::And: return Val(foldBin(E_AND, w, op(0).c, op(1).c));
        case Instruction::Or: return Val(foldBin(E_OR, w, op(0).c, op(1).c));
        case Instruction::Xor: return Val(foldBin(E_XOR, w, op(0).c, op(1).c));
        case Instruction::Mul: return Val(foldBin(E_MUL, w, op(0).c, op(1).c));
        case Instruction::Shl: return Val(foldBin(E_SHL, w, op(0).c, op(1).c));
        case Instruction::Trunc: return Val(op(0).c & maskw(w));
        case Instruction::ICmp: return icmp(ce->getPredicate(), width(ce->getOperand(0)->getType()), op(0), op(1));
        default: break;
        }
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    fprintf(stderr, "unsupported constant: %s\n", str.c_str());
    exit(3);
}

// ---------------- decode ----------------
FuncInfo* Exec::info(Function* F) {
    auto& p = finfo[F];
    if (p) return p.get();
    p = std::make_unique<FuncInfo>(); FuncInfo& fi = *p; fi.F = F;
    std::unordered_map<const Value*, int> reg;
    int n = 0;
    for (Argument& A : F->args()) reg[&A] = n++;
    fi.nargs = n;
    for (BasicBlock& B : *F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++;
    fi.nregs = n;
    std::unordered_map<const BasicBlock*, u32> bbs; u32 pos = 0;
    for (BasicBlock& B : *F) { bbs[&B] = pos; for (Instruction& I : B) { if (isa<PHINode>(I)) continue; if (isa<DbgInfoIntrinsic>(I)) continue; if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue; } ++pos; } }
    auto opnd = [&](Value* v) -> Opnd {
        Opnd o;
        auto it = reg.find(v);
        if (it != reg.end()) { o.reg = it->second; return o; }
        if (auto* c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
        return o; // metadata etc.
    };
    auto edge = [&](BasicBlock* from, BasicBlock* to) -> int {
        if (!isa<PHINode>(to->front())) return -1;
        std::vector<PhiMove> mv;
        for (PHINode& P : to->phis()) mv.push_back({reg[&P], opnd(P.getIncomingValueForBlock(from))});
        fi.edges.push_back(mv); return (int)fi.edges.size() - 1;
    };
    for (BasicBlock& B : *F) for (Instruction& I : B) {
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue; }
        Inst in; in.I = &I; in.opc = I.getOpcode(); in.ty = I.getType();
        if (!I.getType()->isVoidTy()) { in.dst = reg[&I]; in.w = width(I.getType()); in.vec = I.getType()->isVectorTy(); }
        switch (I.getOpcode()) {
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            if (b.isConditional()) in.o.push_back(opnd(b.getCondition()));
            in.t0 = bbs[b.getSuccessor(0)]; in.e0 = edge(&B, b.getSuccessor(0));
            if (b.isConditional()) { in.t1 = bbs[b.getSuccessor(1)]; in.e1 = edge(&B, b.getSuccessor(1)); }
            break;
        }
        case Instruction::Switch: {
            auto& sw = cast<SwitchInst>(I); in.o.push_back(opnd(sw.getCondition())); in.sw = width(sw.getCondition()->getType());
            in.t0 = bbs[sw.getDefaultDest()]; in.e0 = edge(&B, sw.getDefaultDest());
            for (auto& c : sw.cases()) in.cases.push_back({constVal(c.getCaseValue()).c, {bbs[c.getCaseSuccessor()], edge(&B, c.getCaseSuccessor())}});
            break;
        }
        case Instruction::Invoke: case Instruction::Call: {
            auto& cb = cast<CallBase>(I);
            for (auto& a : cb.args()) in.o.push_back(opnd(a));
            in.callee = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
            if (!in.callee) in.o.push_back(opnd(cb.getCalledOperand()));
            else {
                auto it = bmap.find(in.callee->getName().str());
                if (it != bmap.end()) in.builtin = it->second;
            }
            if (auto* iv = dyn_cast<InvokeInst>(&I)) {
                in.t0 = bbs[iv->getNormalDest()]; in.e0 = edge(&B, iv->getNormalDest());
                in.t1 = bbs[iv->getUnwindDest()]; in.e1 = edge(&B, iv->getUnwindDest());
            }
            break;
        }
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(I); in.o.push_back(opnd(g.getPointerOperand()));
            for (auto gi = gep_type_begin(&g), ge = gep_type_end(&g); gi != ge; ++gi) {
                Value* ix = gi.getOperand();
                if (StructType* st = gi.getStructTypeOrNull()) { in.imm += DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 sc = gi.getSequentialElementStride(DL);
                if (auto* ci = dyn_cast<ConstantInt>(ix)) { in.imm += (u64)ci->getSExtValue() * sc; continue; }
                in.gi.push_back({opnd(ix), sc, (u16)width(ix->getType())});
            }
            break;
        }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I); in.imm = DL.getTypeAllocSize(a.getAllocatedType()); in.o.push_back(opnd(a.getArraySize())); in.sw = width(a.getArraySize()->getType());
            break;
        }
        case Instruction::ICmp: case Instruction::FCmp: in.pred = cast<CmpInst>(I).getPredicate(); in.vec = I.getOperand(0)->getType()->isVectorTy(); in.sw = width(I.getOperand(0)->getType()->getScalarType()); for (auto& o : I.operands()) in.o.push_back(opnd(o)); break;
        case Instruction::LandingPad: break;
        case Instruction::ExtractValue: case Instruction::InsertValue: for (auto& o : I.operands()) in.o.push_back(opnd(o)); break;
        case Instruction::Load: { auto& l = cast<LoadInst>(I); in.o.push_back(opnd(l.getPointerOperand())); if (l.isAtomic()) { in.ord = ORD_ATOMIC; if (isAcquireOrStronger(l.getOrdering())) in.ord |= ORD_ACQ; } break; }
        case Instruction::Store: { auto& l = cast<StoreInst>(I); in.o.push_back(opnd(l.getValueOperand())); in.o.push_back(opnd(l.getPointerOperand())); in.ty = l.getValueOperand()->getType(); in.sw = width(in.ty); if (l.isAtomic()) { in.ord = ORD_ATOMIC; if (isReleaseOrStronger(l.getOrdering())) in.ord |= ORD_REL; } break; }
        default:
            for (auto& o : I.operands()) in.o.push_back(opnd(o));
            if (I.getNumOperands()) in.sw = width(I.getOperand(0)->getType()->getScalarType());
            if (in.vec) in.w = width(I.getType()->getScalarType());
            break;
        }
        fi.in.push_back(std::move(in));
    }
    return &fi;
}

// ---------------- diagnostics ----------------
std::string Exec::locOf(const Instruction* I) {
    std::string r;
    if (const DILocation* d = I->getDebugLoc().get()) {
        // innermost location, then outermost inlined-at chain
        const DILocation* x = d; int n = 0;
        while (x && n < 6) { if (n) r += " <- "; r += x->getFilename().str() + ":" + std::to_string(x->getLine()); x = x->getInlinedAt(); ++n; }
    }
    return r;
}
std::string Exec::where(State& s) {
    auto& st = s.th[s.cur].st;
    for (size_t i = st.size(); i-- > 0;) {
        if (st[i].pc >= st[i].f->in.size()) continue;
        std::string l = locOf(st[i].f->in[st[i].pc].I);
        if (!l.empty()) return l + " in " + demangle(st[i].f->F->getName().str());
    }
    return st.empty() ? "?" : demangle(st.back().f->F->getName().str());
}
std::vector<std::string> Exec::stackOf(State& s) {
    std::vector<std::string> v; auto& st = s.th[s.cur].st;
    for (size_t i = st.size(); i-- > 0 && v.size() < 24;) {
        std::string l = st[i].pc < st[i].f->in.size() ? locOf(st[i].f->in[st[i].pc].I) : "";
        v.push_back(demangle(st[i].f->F->getName().str()) + (l.empty() ? "" : " at " + l));
    }
    return v;
}
std::string Exec::valStr(u128 v) { if (!v) return "0"; std::string r; while (v) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } return r; }

void Exec::violation(State& s, const std::string& kind, const std::string& msg, const Model* m) {
    Violation v; v.kind = kind; v.msg = msg; v.where = where(s); v.stack = stackOf(s);
    const Model& mm = m ? *m : s.model;
    newEvalEpoch();
    for (size_t i = 0; i < s.inputs.size(); ++i) {
        const Val& x = s.inputs[i].second;
        v.inputs.push_back({s.inputs[i].first, valStr(x.e ? evalExpr(x.e, mm) : x.c)});
    }
    viols.push_back(v);
    throw Terminate{PathEnd::VIOL};
}
void Exec::incomplete(State& s, const std::string& why) {
    ++incReasons[why + " @ " + where(s)];
    throw Terminate{PathEnd::INCOMPLETE};
}

// ---------------- path condition ----------------
void Exec::addPC(State& s, Ex c) {
    if (isConst(c)) return;
    if (c->op == E_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    { auto it = std::lower_bound(s.eqs.begin(), s.eqs.end(), c, [](auto& x, Ex y) { return x.first < y; }); if (it != s.eqs.end() && it->first == c && it->second == 1) return; } // already there
    s.pc.push_back(c);
    auto rec = [&](Ex a, u128 v) { std::pair<Ex, u128> p{a, v}; auto it = std::lower_bound(s.eqs.begin(), s.eqs.end(), p, [](auto& x, auto& y) { return x.first < y.first; }); if (it == s.eqs.end() || it->first != a) s.eqs.insert(it, p); };
    rec(c, 1); if (c->op == E_XOR && isConst(c->k[1]) && c->k[1]->c) rec(c->k[0], 0);
    if (c->op == E_EQ && c->k[0]->w > 1) {
        Ex a = c->k[0], b = c->k[1]; if (isConst(a)) std::swap(a, b);
        if (isConst(b) && !isConst(a)) rec(a, b->c);
    }
}
// replaces an expression that the path condition fixes to a constant
Val Exec::known(State& s, const Val& v) {
    if (!v.e || s.eqs.empty()) return v;
    auto it = std::lower_bound(s.eqs.begin(), s.eqs.end(), v.e, [](auto& x, Ex y) { return x.first < y; });
    return it != s.eqs.end() && it->first == v.e ? Val(it->second) : v;
}
std::unique_ptr<State> Exec::clone(State& s) { ++forks; auto n = std::make_unique<State>(s); n->forkDepth = s.forkDepth + 1; return n; }

// Decide a symbolic condition; if both sides are possible the clone (with the other side assumed)
// re-executes the current instruction.
bool Exec::decide(State& s, Ex c, const char* what, bool* forked) {
    if (isConst(c)) return c->c != 0;
    bool v = evalM(s, c) != 0;
    Ex taken = v ? c : mkNot(c), other = v ? mkNot(c) : c;
    Model m2;
    SRes r = feasible(s, other, m2);
    if (r == S_SAT) {
        auto n = clone(s); addPC(*n, other); n->model = std::move(m2);
        work.push_back(std::move(n));
        addPC(s, taken);
        if (forked) *forked = true;
    } else if (r == S_UNKNOWN) { ++incReasons[std::string("solver unknown (") + what + ") @ " + where(s)]; ++incompletes; addPC(s, taken); }
    return v;
}
u64 Exec::conc(State& s, const Val& v, unsigned w, const char* what) {
    if (!v.e) return (u64)v.c;
    u128 c = evalM(s, v.e);
    Ex eq = mkEq(v.e, mkConst(w, c));
    if (isTrue(eq)) return (u64)c;
    Model m2; Ex ne = mkNot(eq);
    SRes r = feasible(s, ne, m2);
    if (r == S_SAT) { ++concForks; auto n = clone(s); addPC(*n, ne); n->model = std::move(m2); work.push_back(std::move(n)); }
    else if (r == S_UNKNOWN) { ++incReasons[std::string("solver unknown (concretise ") + what + ") @ " + where(s)]; ++incompletes; }
    addPC(s, eq);
    // substitute in registers of the current frame so that it stays concrete
    for (auto& t : s.th[s.cur].st.back().r) if (t.e == v.e) { t.e = nullptr; t.c = c; }
    return (u64)c;
}
void Exec::requireTrue(State& s, Ex c, const std::string& kind, const std::string& msg) {
    if (isTrue(c)) return;
    if (isFalse(c)) violation(s, kind, msg);
    if (!evalM(s, c)) violation(s, kind, msg);
    Model m2; SRes r = feasible(s, mkNot(c), m2);
    if (r == S_SAT) violation(s, kind, msg, &m2);
    if (r == S_UNKNOWN) { ++incReasons["solver unknown (" + kind + ") @ " + where(s)]; ++incompletes; addPC(s, c); }
}
Val Exec::sym(State& s, const std::string& name, unsigned w, bool input) {
    Val v;
    if (input && !opt.concFile.empty()) {
        u128 x = 0; if (concPos < concIn.size()) { x = concIn[concPos].second; if (concIn[concPos].first != name) fprintf(stderr, "replay: expected %s got %s\n", concIn[concPos].first.c_str(), name.c_str()); ++concPos; }
        v = Val(x & maskw(w));
    } else {
        // reuse symbols by (position, name, width) across paths, so that queries can be cached
        static std::map<std::pair<std::string, u64>, Ex> pool;
        u64 k = ((u64)(input ? s.inputs.size() : 1000000 + s.nclock++) << 8) | w;
        auto& e = pool[{name, k}];
        if (!e) e = mkSym(name, w);
        v.e = e;
    }
    if (input) { s.inputs.push_back({name, v}); s.inputW.push_back(w); }
    return v;
}

// ---------------- memory access ----------------
MemObj* Exec::chk(State& s, u64 a, u64 n, bool wr, const char* what) {
    if (n == 0) return nullptr;
    u32 hi = (u32)(a >> 32);
    if (hi == 0) violation(s, "memory", std::string(what) + ": null or wild pointer " + valStr(a));
    u32 id = hi - 1; MemObj* o = s.objs.get(id);
    if (!o) violation(s, "memory", std::string(what) + (id < s.objs.n ? ": use after free/scope" : ": wild pointer"));
    u64 off = (u32)a;
    if (off + n > o->size) {
        std::ostringstream m; m << what << ": out of bounds, offset " << (off > 0x80000000u ? (long long)off - (1LL << 32) : (long long)off) << " + " << n << " in " << (o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global") << " object of " << o->size << " bytes";
        if (o->name) m << " (" << *o->name << ")";
        violation(s, "memory", m.str());
    }
    if (o->kind == K_FUNC) violation(s, "memory", std::string(what) + ": access to code");
    if (wr) { if (o->ro) violation(s, "memory", std::string(what) + ": write to constant object"); o = s.objs.getW(id); }
    if (s.multi && opt.races) raceCheck(s, id, (u32)off, (u32)n, wr);
    return o;
}
Val Exec::readBytes(State& s, u32 id, MemObj* o, u32 off, unsigned bytes) {
    if (o->s.empty()) { u128 v = 0; memcpy(&v, &o->b[off], bytes); return Val(v); }
    bool any = false;
    for (unsigned i = 0; i < bytes; ++i) if (o->s[off + i]) { any = true; break; }
    if (!any) { u128 v = 0; memcpy(&v, &o->b[off], bytes); return Val(v); }
    bool un = false;
    for (unsigned i = 0; i < bytes; ++i) if (o->s[off + i] == UNINIT) un = true;
    if (un) { // give uninitialised bytes an arbitrary but fixed value
        o = s.objs.getW(id);
        for (unsigned i = 0; i < bytes; ++i) if (o->s[off + i] == UNINIT) o->s[off + i] = sym(s, "uninit", 8, false).e;
    }
    auto by = [&](unsigned i) -> Ex { Ex e = o->s[off + i]; return e ? e : mkConst(8, o->b[off + i]); };
    Ex r = by(bytes - 1);
    for (unsigned i = bytes - 1; i-- > 0;) r = mkConcat(r, by(i));
    return Val(r);
}
void Exec::writeBytes(MemObj* o, u32 off, unsigned bytes, const Val& v) {
    if (!v.e) {
        memcpy(&o->b[off], &v.c, bytes);
        if (!o->s.empty()) {
            for (unsigned i = 0; i < bytes; ++i) o->s[off + i] = nullptr;
            if (bytes == o->size) o->s.clear();
        }
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (unsigned i = 0; i < bytes; ++i) {
        Ex e = mkExtract(v.e, i * 8, 8);
        if (isConst(e)) { o->b[off + i] = (u8)e->c; o->s[off + i] = nullptr; } else o->s[off + i] = e;
    }
}
static unsigned trailZ(Ex e) {
    switch (e->op) {
    case E_CONST: { if (!e->c) return 64; unsigned n = 0; u128 v = e->c; while (!(v & 1)) { v >>= 1; ++n; } return n; }
    case E_SHL: if (isConst(e->k[1])) return trailZ(e->k[0]) + (unsigned)e->k[1]->c; return 0;
    case E_MUL: return trailZ(e->k[0]) + trailZ(e->k[1]);
    case E_ADD: case E_SUB: case E_OR: return std::min(trailZ(e->k[0]), trailZ(e->k[1]));
    case E_AND: return std::max(trailZ(e->k[0]), trailZ(e->k[1]));
    case E_ITE: return std::min(trailZ(e->k[1]), trailZ(e->k[2]));
    case E_ZEXT: case E_SEXT: { unsigned t = trailZ(e->k[0]); return t; }
    case E_CONCAT: { unsigned t = trailZ(e->k[1]); return t; }
    default: return 0;
    }
}
// Resolve a symbolic address to one object and candidate offsets. May fork (the clone re-executes).
u64 Exec::resolve(State& s, Val addr, unsigned n, bool write, std::vector<u32>& cands, Ex& off) {
    Ex a = addr.e;
    u64 v = (u64)evalM(s, a);
    u32 hi = (u32)(v >> 32);
    u64 base = (u64)hi << 32;
    Ex inobj = mkEq(mkExtract(a, 32, 32), mkConst(32, hi));
    if (a->umin >= base && a->umax < base + (1ULL << 32)) {} // known
    else decide(s, inobj, "object of symbolic address");
    MemObj* o = hi ? s.objs.get(hi - 1) : nullptr;
    if (!o) violation(s, "memory", hi ? "access through symbolic pointer: use after free" : "access through null/wild symbolic pointer");
    off = mkExtract(a, 0, 32);
    if (o->size < n) violation(s, "memory", "access out of bounds (object smaller than access)");
    Ex inb = mkBin(E_ULE, off, mkConst(32, o->size - n));
    if (!isTrue(inb)) {
        Model m2; SRes r = isFalse(inb) ? S_SAT : feasible(s, mkNot(inb), m2);
        if (r == S_SAT) violation(s, "memory", std::string(write ? "store" : "load") + ": symbolic index out of bounds of " + (o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes" + (o->name ? " (" + *o->name + ")" : ""), isFalse(inb) ? nullptr : &m2);
        if (r == S_UNKNOWN) { ++incompletes; ++incReasons["solver unknown (bounds) @ " + where(s)]; addPC(s, inb); }
    }
    u64 lo = 0, hiO = o->size - n;
    if (off->umin > lo) lo = off->umin;
    if (off->umax < hiO) hiO = off->umax;
    unsigned tz = trailZ(off); u64 step = tz >= 12 ? 4096 : 1ULL << tz;
    lo = (lo + step - 1) / step * step;
    // shrink range by binary search when large
    if ((hiO - lo) / step + 1 > 24) {
        Model m2;
        u64 cur = (u32)v; u64 l = lo, h = cur; // smallest feasible
        while (l < h) { u64 mid = (l + h) / 2; if (feasible(s, mkBin(E_ULE, off, mkConst(32, mid)), m2) == S_UNSAT) l = mid + 1; else h = mid; }
        lo = (l + step - 1) / step * step;
        l = cur; h = hiO;
        while (l < h) { u64 mid = (l + h + 1) / 2; if (feasible(s, mkBin(E_ULE, mkConst(32, mid), off), m2) == S_UNSAT) h = mid - 1; else l = mid; }
        hiO = h;
    }
    for (u64 k = lo; k <= hiO; k += step) { cands.push_back((u32)k); if (cands.size() > 1100) break; }
    return base;
}
Val Exec::loadW(State& s, Val addr, unsigned bytes, unsigned w, bool atomic) {
    auto fin = [&](Val v) { if (w < bytes * 8) { if (v.e) v = Val(mkExtract(v.e, 0, w)); else v.c &= maskw(w); } return v; };
    if (!addr.e) {
        u64 a = (u64)addr.c;
        MemObj* o = chk(s, a, bytes, false, "load");
        if (bytes > 16) incomplete(s, "wide load");
        return fin(readBytes(s, (u32)(a >> 32) - 1, o, (u32)a, bytes));
    }
    std::vector<u32> c; Ex off; u64 base = resolve(s, addr, bytes, false, c, off);
    if (c.size() == 1 || c.size() > 1024) { u64 a = conc(s, addr, 64, "load address"); return loadW(s, Val((u128)a), bytes, w, atomic); }
    u32 id = (u32)(base >> 32) - 1; 
    if (s.multi && opt.races) for (u32 k : c) raceCheck(s, id, k, bytes, false);
    std::vector<Ex> vals;
    for (u32 k : c) { Val v = readBytes(s, id, s.objs.get(id), k, bytes); vals.push_back(ex(v, bytes * 8)); }
    // balanced selection tree by offset comparison
    std::function<Ex(size_t, size_t)> build = [&](size_t l, size_t h) -> Ex {
        if (l == h) return vals[l];
        bool same = true; for (size_t i = l + 1; i <= h && same; ++i) same = vals[i] == vals[l];
        if (same) return vals[l];
        if (h - l < 3) { Ex r = vals[h]; for (size_t i = h; i-- > l;) r = mkIte(mkEq(off, mkConst(32, c[i])), vals[i], r); return r; }
        size_t m = (l + h) / 2;
        return mkIte(mkBin(E_ULE, off, mkConst(32, c[m])), build(l, m), build(m + 1, h));
    };
    return fin(Val(build(0, c.size() - 1)));
}
void Exec::storeW(State& s, Val addr, Val v, unsigned bytes, unsigned w, bool atomic) {
    if (w < bytes * 8 && v.e) v = Val(mkZExt(v.e, bytes * 8));
    if (!addr.e) {
        u64 a = (u64)addr.c;
        MemObj* o = chk(s, a, bytes, true, "store");
        writeBytes(o, (u32)a, bytes, v);
        return;
    }
    std::vector<u32> c; Ex off; u64 base = resolve(s, addr, bytes, true, c, off);
    if (c.size() == 1 || c.size() > 128) { u64 a = conc(s, addr, 64, "store address"); storeW(s, Val((u128)a), v, bytes, w, atomic); return; }
    u32 id = (u32)(base >> 32) - 1; MemObj* o = s.objs.get(id);
    if (o->ro) violation(s, "memory", "store to constant object");
    if (s.multi && opt.races) for (u32 k : c) raceCheck(s, id, k, bytes, true);
    std::vector<std::pair<u32, Val>> nw;
    for (u32 k : c) {
        Val old = readBytes(s, id, s.objs.get(id), k, bytes);
        (void)old;
    }
    o = s.objs.getW(id);
    // per byte: combine all candidate offsets
    std::map<u32, Ex> upd;
    for (u32 k : c) {
        Ex g = mkEq(off, mkConst(32, k));
        for (unsigned i = 0; i < bytes; ++i) {
            u32 p = k + i; Ex oldb = upd.count(p) ? upd[p] : (o->s.empty() || !o->s[p] ? mkConst(8, o->b[p]) : o->s[p]);
            Ex nb = mkExtract(ex(v, bytes * 8), i * 8, 8);
            upd[p] = mkIte(g, nb, oldb);
        }
    }
    for (auto& u : upd) writeBytes(o, u.first, 1, Val(u.second));
}
Val Exec::load(State& s, Val addr, Type* t) {
    unsigned w = width(t);
    if (w) return loadW(s, addr, (unsigned)DL.getTypeStoreSize(t), w);
    std::vector<Val> v;
    auto at = [&](u64 off, Type* et) {
        Val a; if (addr.e) a = Val(mkBin(E_ADD, addr.e, mkConst(64, off))); else a = Val((u128)(u64)(addr.c + off));
        v.push_back(load(s, a, et));
    };
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) at(sl->getElementOffset(i), st->getElementType(i)); }
    else if (auto* a2 = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a2->getNumElements(); ++i) at(i * DL.getTypeAllocSize(a2->getElementType()), a2->getElementType());
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        Type* et = vt->getElementType(); unsigned ew = width(et);
        if (ew % 8) incomplete(s, "load of bit vector");
        for (u64 i = 0; i < vt->getNumElements(); ++i) at(i * (ew / 8), et);
    } else incomplete(s, "load of unsupported type");
    return agg(v);
}
void Exec::store(State& s, Val addr, Val v, Type* t) {
    unsigned w = width(t);
    if (w) { storeW(s, addr, v, (unsigned)DL.getTypeStoreSize(t), w); return; }
    if (!v.e || v.e->op != E_AGG) incomplete(s, "store of unsupported aggregate");
    auto at = [&](unsigned i, u64 off, Type* et) {
        Val a; if (addr.e) a = Val(mkBin(E_ADD, addr.e, mkConst(64, off))); else a = Val((u128)(u64)(addr.c + off));
        store(s, a, (*v.e->agg)[i], et);
    };
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) at(i, sl->getElementOffset(i), st->getElementType(i)); }
    else if (auto* a2 = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < a2->getNumElements(); ++i) at((unsigned)i, i * DL.getTypeAllocSize(a2->getElementType()), a2->getElementType());
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { Type* et = vt->getElementType(); unsigned ew = width(et); if (ew % 8) incomplete(s, "store of bit vector"); for (u64 i = 0; i < vt->getNumElements(); ++i) at((unsigned)i, i * (ew / 8), et); }
    else incomplete(s, "store of unsupported type");
}
void Exec::copyMem(State& s, u64 d, u64 sr, u64 n) {
    if (!n) return;
    MemObj* so = chk(s, sr, n, false, "memcpy source");
    ObjPtr hold(so);
    MemObj* dO = chk(s, d, n, true, "memcpy destination");
    u32 soff = (u32)sr, doff = (u32)d;
    so = hold.p; // the pre-write version (if same object, getW made a copy because hold keeps a reference)
    memmove(&dO->b[doff], &so->b[soff], n);
    if (so->s.empty()) { if (!dO->s.empty()) for (u64 i = 0; i < n; ++i) dO->s[doff + i] = nullptr; }
    else {
        if (dO->s.empty()) dO->s.assign(dO->size, nullptr);
        std::vector<Ex> tmp(so->s.begin() + soff, so->s.begin() + soff + n);
        for (u64 i = 0; i < n; ++i) dO->s[doff + i] = tmp[i];
    }
}
std::string Exec::cstr(State& s, u64 a) {
    std::string r;
    while (r.size() < 400) {
        Val v = loadW(s, Val((u128)a), 1, 8);
        u64 c = conc(s, v, 8, "string");
        if (!c) break;
        r += (char)c; ++a;
    }
    return r;
}
void Exec::freeObj(State& s, u64 a, AllocKind ak) {
    if (!a) return;
    u32 hi = (u32)(a >> 32); MemObj* o = hi ? s.objs.get(hi - 1) : nullptr;
    if (!o) violation(s, "memory", "double free or free of invalid pointer");
    if (o->kind != K_HEAP || (u32)a != 0) violation(s, "memory", "free of a pointer that was not allocated");
    if (o->ak != ak) violation(s, "memory", "allocation/deallocation mismatch");
    if (s.multi && opt.races) { raceCheck(s, hi - 1, 0, o->size, true); s.shadow.erase(hi - 1); }
    s.objs.del(hi - 1);
}

// ---------------- scalar operations ----------------
Val Exec::binop(State& s, unsigned opc, unsigned w, const Val& a, const Val& b, const Inst* in) {
    Op op;
    switch (opc) {
    case Instruction::Add: op = E_ADD; break; case Instruction::Sub: op = E_SUB; break; case Instruction::Mul: op = E_MUL; break;
    case Instruction::UDiv: op = E_UDIV; break; case Instruction::SDiv: op = E_SDIV; break; case Instruction::URem: op = E_UREM; break; case Instruction::SRem: op = E_SREM; break;
    case Instruction::And: op = E_AND; break; case Instruction::Or: op = E_OR; break; case Instruction::Xor: op = E_XOR; break;
    case Instruction::Shl: op = E_SHL; break; case Instruction::LShr: op = E_LSHR; break; case Instruction::AShr: op = E_ASHR; break;
    default: incomplete(s, "binop");
    }
    if (op >= E_UDIV && op <= E_SREM) {
        if (!b.e) { if ((b.c & maskw(w)) == 0) violation(s, "undefined", "division by zero"); }
        else requireTrue(s, mkNot(mkEq(b.e, mkConst(w, 0))), "undefined", "division by zero");
    }
    if (!a.e && !b.e) return Val(foldBin(op, w, a.c, b.c));
    if (op >= E_UDIV && op <= E_SREM && w <= 64) { // division: use the bounds that the path gives
        Ex x = ex(a, w), y = ex(b, w); u128 al, ah, bl, bh, half = (u128)1 << (w - 1);
        Solver::bounds(s.pc, x, al, ah); Solver::bounds(s.pc, y, bl, bh);
        if ((op == E_SDIV || op == E_SREM) && ah < half && bh < half) op = op == E_SDIV ? E_UDIV : E_UREM;
        if ((op == E_UDIV || op == E_UREM) && ah < bl) return op == E_UDIV ? Val((u128)0) : a;
        if (al == ah && bl == bh && bl) return Val(foldBin(op, w, al, bl));
        if (bl == bh && bl) y = mkConst(w, bl);
        if (al == ah) x = mkConst(w, al);
        // few possible quotients: count the multiples that are reached instead of dividing
        if (bl == bh && bl && (op == E_UDIV || op == E_UREM) && ah / bl - al / bl <= 12) {
            Ex q = mkConst(w, al / bl);
            for (u128 k = al / bl + 1; k <= ah / bl; ++k) q = mkBin(E_ADD, q, mkZExt(mkBin(E_ULE, mkConst(w, k * bl), x), w));
            return Val(op == E_UDIV ? q : mkBin(E_SUB, x, mkBin(E_MUL, q, mkConst(w, bl))));
        }
        if (bl == bh && bl && bl < half && (op == E_SDIV || op == E_SREM) && al >= half) { // dividend negative
            Ex n = mkBin(E_SUB, mkConst(w, 0), x); u128 nl = (0 - ah) & maskw(w), nh = (0 - al) & maskw(w);
            if (nh / bl - nl / bl <= 12) {
                Ex q = mkConst(w, nl / bl);
                for (u128 k = nl / bl + 1; k <= nh / bl; ++k) q = mkBin(E_ADD, q, mkZExt(mkBin(E_ULE, mkConst(w, k * bl), n), w));
                q = mkBin(E_SUB, mkConst(w, 0), q);
                return Val(op == E_SDIV ? q : mkBin(E_SUB, x, mkBin(E_MUL, q, mkConst(w, bl))));
            }
        }
        return Val(mkBin(op, x, y));
    }
    return Val(mkBin(op, ex(a, w), ex(b, w)));
}
Val Exec::fbin(State& s, unsigned opc, unsigned w, const Val& a, const Val& b) {
    Op op;
    switch (opc) {
    case Instruction::FAdd: op = E_FADD; break; case Instruction::FSub: op = E_FSUB; break; case Instruction::FMul: op = E_FMUL; break;
    case Instruction::FDiv: op = E_FDIV; break; case Instruction::FRem: op = E_FREM; break; default: incomplete(s, "fbin");
    }
    if (!a.e && !b.e) return Val(foldFP(op, w, w, a.c, b.c, 0, 0));
    if (op == E_FREM) incomplete(s, "symbolic frem");
    return Val(mkFP(op, w, ex(a, w), ex(b, w)));
}
Val Exec::icmp(unsigned p, unsigned w, const Val& a, const Val& b) {
    Op op; bool sw = false, neg = false;
    switch (p) {
    case CmpInst::ICMP_EQ: op = E_EQ; break; case CmpInst::ICMP_NE: op = E_EQ; neg = true; break;
    case CmpInst::ICMP_ULT: op = E_ULT; break; case CmpInst::ICMP_ULE: op = E_ULE; break;
    case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
    case CmpInst::ICMP_SLT: op = E_SLT; break; case CmpInst::ICMP_SLE: op = E_SLE; break;
    case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break; default: op = E_SLE; sw = true; break;
    }
    if (!a.e && !b.e) { u128 r = sw ? foldBin(op, w, b.c, a.c) : foldBin(op, w, a.c, b.c); return Val(neg ? !r : r); }
    Ex r = sw ? mkBin(op, ex(b, w), ex(a, w)) : mkBin(op, ex(a, w), ex(b, w));
    return Val(neg ? mkNot(r) : r);
}
Val Exec::fcmp(unsigned p, unsigned w, const Val& a, const Val& b) {
    Ex x = ex(a, w), y = ex(b, w); Ex r;
    auto F = [&](Op o, Ex l, Ex q) { return mkFP(o, 1, l, q); };
    switch (p) {
    case CmpInst::FCMP_FALSE: r = mkConst(1, 0); break;
    case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
    case CmpInst::FCMP_OEQ: r = F(E_FOEQ, x, y); break;
    case CmpInst::FCMP_OGT: r = F(E_FOLT, y, x); break;
    case CmpInst::FCMP_OGE: r = F(E_FOLE, y, x); break;
    case CmpInst::FCMP_OLT: r = F(E_FOLT, x, y); break;
    case CmpInst::FCMP_OLE: r = F(E_FOLE, x, y); break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(F(E_FUNO, x, y)), mkNot(F(E_FOEQ, x, y))); break;
    case CmpInst::FCMP_ORD: r = mkNot(F(E_FUNO, x, y)); break;
    case CmpInst::FCMP_UNO: r = F(E_FUNO, x, y); break;
    case CmpInst::FCMP_UEQ: r = mkOr(F(E_FUNO, x, y), F(E_FOEQ, x, y)); break;
    case CmpInst::FCMP_UGT: r = mkNot(F(E_FOLE, x, y)); break;
    case CmpInst::FCMP_UGE: r = mkNot(F(E_FOLT, x, y)); break;
    case CmpInst::FCMP_ULT: r = mkNot(F(E_FOLE, y, x)); break;
    case CmpInst::FCMP_ULE: r = mkNot(F(E_FOLT, y, x)); break;
    default: r = mkNot(F(E_FOEQ, x, y)); break; // UNE
    }
    return Val(r);
}
Val Exec::castv(State& s, unsigned opc, unsigned sw, unsigned w, const Val& a) {
    switch (opc) {
    case Instruction::Trunc: if (!a.e) return Val(a.c & maskw(w)); return Val(mkExtract(a.e, 0, w));
    case Instruction::ZExt: if (!a.e) return a; return Val(mkZExt(a.e, w));
    case Instruction::SExt: if (!a.e) return Val((u128)sextw(a.c, sw) & maskw(w)); return Val(mkSExt(a.e, w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (w == sw) return a;
        if (w < sw) { if (!a.e) return Val(a.c & maskw(w)); return Val(mkExtract(a.e, 0, w)); }
        if (!a.e) return a; return Val(mkZExt(a.e, w));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: return a;
    case Instruction::FPExt: return Val(mkFP(E_FEXT, w, ex(a, sw)));
    case Instruction::FPTrunc: return Val(mkFP(E_FTRUNC, w, ex(a, sw)));
    case Instruction::FPToSI: return Val(mkFP(E_FTOSI, w, ex(a, sw)));
    case Instruction::FPToUI: return Val(mkFP(E_FTOUI, w, ex(a, sw)));
    case Instruction::SIToFP: return Val(mkFP(E_SITOF, w, ex(a, sw)));
    case Instruction::UIToFP: return Val(mkFP(E_UITOF, w, ex(a, sw)));
    }
    incomplete(s, "cast");
}

// ---------------- control ----------------
void Exec::jump(State& s, Frame& f, u32 t, int e) {
    if (e >= 0) {
        auto& mv = f.f->edges[e];
        if (mv.size() == 1) f.r[mv[0].dst] = get(f, mv[0].src);
        else {
            Val tmp[16]; std::vector<Val> big; Val* T = tmp;
            if (mv.size() > 16) { big.resize(mv.size()); T = big.data(); }
            for (size_t i = 0; i < mv.size(); ++i) T[i] = get(f, mv[i].src);
            for (size_t i = 0; i < mv.size(); ++i) f.r[mv[i].dst] = T[i];
        }
    }
    f.pc = t;
}
void Exec::popFrame(State& s) {
    Frame& f = s.top();
    for (u32 id : f.allocas) { if (s.multi) s.shadow.erase(id); s.objs.del(id); }
    s.th[s.cur].st.pop_back();
}
void Exec::enter(State& s, Function* F, std::vector<Val>& args, bool) {
    FuncInfo* fi = info(F);
    if (!fi->entered) {
        fi->entered = true; funcs.insert(F->getName().str());
        if (DISubprogram* sp = F->getSubprogram()) { (void)sp; }
        // which functions (including inlined ones) come from /repo
        for (auto& in : fi->in) if (const DILocation* d = in.I->getDebugLoc().get())
            for (const DILocation* x = d; x; x = x->getInlinedAt()) {
                StringRef fn = x->getScope()->getSubprogram()->getFile() ? x->getScope()->getSubprogram()->getFile()->getFilename() : "";
                std::string dir = x->getScope()->getSubprogram()->getFile() ? x->getScope()->getSubprogram()->getFile()->getDirectory().str() : "";
                if (fn.contains("gul14/") || fn.contains("/repo/") || (StringRef(dir).starts_with("/repo") && !fn.starts_with("/"))) {
                    auto* sp = x->getScope()->getSubprogram();
                    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
                    repoFuncs.insert(nm);
                }
            }
    }
    auto& st = s.th[s.cur].st;
    if (st.size() > 3000) violation(s, "stack", "unbounded recursion (call depth > 3000)");
    Frame f; f.f = fi; f.pc = 0; f.r.resize(fi->nregs);
    size_t n = std::min<size_t>(args.size(), fi->nargs);
    for (size_t i = 0; i < n; ++i) f.r[i] = args[i];
    // byval parameters: callee receives a copy
    for (size_t i = 0; i < n; ++i) if (F->hasParamAttribute((unsigned)i, Attribute::ByVal)) {
        u64 sz = DL.getTypeAllocSize(F->getParamByValType((unsigned)i));
        u64 a = alloc(s, sz, K_STACK, A_NONE, "byval"); f.allocas.push_back((u32)(a >> 32) - 1);
        copyMem(s, a, conc(s, args[i], 64, "byval"), sz); f.r[i] = Val((u128)a);
    }
    if (F->isVarArg() && args.size() > fi->nargs) {
        size_t nv = args.size() - fi->nargs;
        u64 a = alloc(s, nv * 16, K_STACK, A_NONE, "va"); f.allocas.push_back((u32)(a >> 32) - 1);
        f.va = a; u64 p = a;
        const auto* cb = cast<CallBase>(st.back().f->in[st.back().pc].I);
        for (size_t i = 0; i < nv; ++i) {
            Type* t = cb->getArgOperand((unsigned)(fi->nargs + i))->getType();
            if (t->isX86_FP80Ty()) { p = (p + 15) & ~15ULL; store(s, Val((u128)p), args[fi->nargs + i], t); p += 16; }
            else { store(s, Val((u128)p), args[fi->nargs + i], t); p += 8; }
        }
    }
    st.push_back(std::move(f));
}
void Exec::ret(State& s, Val v, bool has) {
    popFrame(s);
    auto& st = s.th[s.cur].st;
    if (st.empty()) return;
    Frame& c = st.back(); const Inst& in = c.f->in[c.pc];
    if (in.dst >= 0 && has) c.r[in.dst] = v;
    if (in.opc == Instruction::Invoke) jump(s, c, in.t0, in.e0); else ++c.pc;
}

// ---------------- exceptions ----------------
int Exec::typeId(u64 ti) { auto it = tids.find(ti); if (it != tids.end()) return it->second; int n = (int)tids.size() + 1; tids[ti] = n; return n; }

static u64 rd64(State& s, u64 a) { MemObj* o = s.objs.get((u32)(a >> 32) - 1); u64 v = 0; if (o && (u32)a + 8 <= o->size) memcpy(&v, &o->b[(u32)a], 8); return v; }
static std::string vtName(State& s, u64 ti) {
    u64 vt = rd64(s, ti); MemObj* o = (vt >> 32) ? s.objs.get((u32)(vt >> 32) - 1) : nullptr;
    return o && o->name ? *o->name : "";
}
bool Exec::tiMatch(State& s, u64 c, u64 t, u64& adj, u64 obj, int depth) {
    if (c == t) { adj = obj; return true; }
    if (depth > 12) return false;
    std::string vn = vtName(s, t);
    if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(s, c, rd64(s, t + 16), adj, obj, depth + 1);
    if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        u32 n = (u32)(rd64(s, t + 16) >> 32);
        for (u32 i = 0; i < n; ++i) {
            u64 b = rd64(s, t + 24 + i * 16); i128 of = (i128)(long long)rd64(s, t + 32 + i * 16);
            bool virt = (u64)of & 1; bool pub = (u64)of & 2; long long o = (long long)of >> 8;
            if (!pub) continue;
            u64 bo = obj;
            if (virt) { u64 vt = rd64(s, obj); bo = obj + rd64(s, vt + o); } else bo = obj + o;
            if (tiMatch(s, c, b, adj, bo, depth + 1)) return true;
        }
    }
    if (vn == "_ZTVN10__cxxabiv119__pointer_type_infoE") {
        // pointer conversions: add const (flags), same pointee
        if (vtName(s, c) == vn && rd64(s, c + 24) == rd64(s, t + 24)) {
            u32 fc = (u32)rd64(s, c + 16), ft = (u32)rd64(s, t + 16);
            if ((ft & ~fc & 7) == 0) { adj = obj; return true; }
        }
    }
    return false;
}
// Exception object layout (see rt): header of 128 bytes before the object: [0] typeinfo, [16] adjusted pointer
void Exec::unwind(State& s, u64 exn, bool isResume) {
    u64 hdr = exn - 128; u64 ti = rd64(s, hdr); u64 obj = rd64(s, hdr + 40); if (!obj) obj = exn; // dependent exceptions refer to the primary object
    auto& th = s.th[s.cur];
    auto findHandler = [&](const Inst& in, bool wantCleanup, int& sel, u64& adj) -> bool {
        const LandingPadInst* lp = cast<InvokeInst>(in.I)->getUnwindDest()->getLandingPadInst();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (lp->isCatch(i)) {
                Constant* c = lp->getClause(i);
                u64 cti = constVal(c).c;
                if (cti == 0) { sel = typeId(0); adj = obj; if (vtName(s, ti) == "_ZTVN10__cxxabiv119__pointer_type_infoE") adj = rd64(s, obj); return true; }
                u64 a;
                if (tiMatch(s, cti, ti, a, obj)) { sel = typeId(cti); adj = a; if (vtName(s, ti) == "_ZTVN10__cxxabiv119__pointer_type_infoE") adj = rd64(s, obj); return true; }
            } else { // filter: dynamic exception specification; empty filter -> matches everything
                Constant* c = lp->getClause(i);
                bool ok = false; u64 a;
                if (auto* ca = dyn_cast<ConstantArray>(c)) for (auto& o : ca->operands()) if (tiMatch(s, constVal(cast<Constant>(o)).c, ti, a, exn)) ok = true;
                if (!ok) { sel = -1; adj = exn; return true; }
            }
        }
        if (wantCleanup && lp->isCleanup()) { sel = 0; adj = exn; return true; }
        return false;
    };
    // phase 1
    if (!isResume) {
        bool found = false; int sel; u64 adj;
        for (size_t i = th.st.size() - 1; i-- > 0 && !found;) {
            const Inst& in = th.st[i].f->in[th.st[i].pc];
            if (in.opc == Instruction::Invoke && findHandler(in, false, sel, adj)) found = true;
        }
        if (!found) {
            MemObj* n = s.objs.get((u32)(rd64(s, ti + 8) >> 32) - 1);
            std::string nm = n ? std::string((const char*)n->b.data() + (u32)rd64(s, ti + 8), strnlen((const char*)n->b.data() + (u32)rd64(s, ti + 8), n->size)) : "?";
            violation(s, "terminate", "uncaught exception of type " + demangle("_Z" + nm) + " (std::terminate)");
        }
    }
    // phase 2
    popFrame(s); // the throwing helper / resuming frame
    while (!th.st.empty()) {
        Frame& f = th.st.back(); const Inst& in = f.f->in[f.pc];
        int sel; u64 adj;
        if (in.opc == Instruction::Invoke && findHandler(in, true, sel, adj)) {
            MemObj* h = s.objs.getW((u32)(hdr >> 32) - 1); u32 o = (u32)hdr; memcpy(&h->b[o + 16], &adj, 8); if (!h->s.empty()) for (int i = 0; i < 8; ++i) h->s[o + 16 + i] = nullptr;
            jump(s, f, in.t1, in.e1);
            // the landingpad instruction is at the target
            const Inst& lp = f.f->in[f.pc];
            f.r[lp.dst] = agg({Val((u128)exn), Val((u128)(u32)sel)});
            ++f.pc;
            return;
        }
        popFrame(s);
    }
    violation(s, "terminate", "exception left the thread (std::terminate)");
}

#include "merge.inc"
#include "step.inc"
#include "builtin_impl.inc"
#include "threads.inc"
#include "report.inc"
