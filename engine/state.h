#pragma once
#include "expr.h"
#include "solver.h"
#include <memory>
#include <map>
#include <set>
#include <deque>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GlobalVariable.h>

// ---------------- memory ----------------
enum ObjKind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_FUNC, K_TLS };
enum AllocKind : u8 { A_NONE, A_MALLOC, A_NEW, A_NEWARR, A_EXC };

struct MemObj {
    u32 rc = 0; u32 size; ObjKind kind; AllocKind ak = A_NONE; bool ro = false;
    std::vector<u8> b; std::vector<Ex> s; // s empty => all bytes concrete
    std::string* name = nullptr; // leaked, shared
    u64 site = 0;
};
extern u64 g_liveObj;
struct ObjPtr {
    MemObj* p = nullptr;
    ObjPtr() {}
    ObjPtr(MemObj* x) : p(x) { if (p) ++p->rc; }
    ObjPtr(const ObjPtr& o) : p(o.p) { if (p) ++p->rc; }
    ObjPtr(ObjPtr&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjPtr& operator=(const ObjPtr& o) { if (o.p) ++o.p->rc; rel(); p = o.p; return *this; }
    ~ObjPtr() { rel(); }
    void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
struct Leaf { u32 rc = 0; ObjPtr o[32]; };
struct ObjTable {
    std::vector<Leaf*> leaves; u32 n = 0; // next id
    ObjTable() {}
    ObjTable(const ObjTable& t) : leaves(t.leaves), n(t.n) { for (Leaf* l : leaves) ++l->rc; }
    ObjTable& operator=(const ObjTable&) = delete;
    ~ObjTable() { for (Leaf* l : leaves) if (--l->rc == 0) delete l; }
    MemObj* get(u32 id) const { if (id >= n) return nullptr; return leaves[id >> 5]->o[id & 31].p; }
    Leaf* wleaf(u32 i) {
        Leaf* l = leaves[i];
        if (l->rc > 1) { Leaf* c = new Leaf(); for (int j = 0; j < 32; ++j) c->o[j] = l->o[j]; --l->rc; c->rc = 1; leaves[i] = c; l = c; }
        return l;
    }
    MemObj* getW(u32 id) {
        Leaf* l = wleaf(id >> 5); ObjPtr& p = l->o[id & 31];
        if (p.p && p.p->rc > 1) { MemObj* c = new MemObj(*p.p); c->rc = 0; p = ObjPtr(c); }
        return p.p;
    }
    u32 add(MemObj* m) {
        u32 id = n++;
        if ((id >> 5) >= leaves.size()) { Leaf* l = new Leaf(); l->rc = 1; leaves.push_back(l); }
        wleaf(id >> 5)->o[id & 31] = ObjPtr(m);
        return id;
    }
    void del(u32 id) { wleaf(id >> 5)->o[id & 31] = ObjPtr(); }
};
static inline u64 baseOf(u32 id) { return ((u64)id + 1) << 32; }

// ---------------- decoded code ----------------
struct Opnd { int reg = -1; Val v; };
struct PhiMove { int dst; Opnd src; };
struct FuncInfo;
struct GepIdx { Opnd o; u64 scale; u16 w; };
struct Inst {
    u16 opc = 0;            // llvm opcode or I_* pseudo
    u16 w = 0, sw = 0;      // result width, source width
    u16 pred = 0; 
    int dst = -1;
    std::vector<Opnd> o;
    u32 t0 = 0, t1 = 0;     // branch targets (instr index), edges
    int e0 = -1, e1 = -1;   // phi edge index
    u64 imm = 0;            // gep const offset, alloca size...
    std::vector<GepIdx> gi;
    std::vector<std::pair<u128, std::pair<u32, int>>> cases; // switch
    llvm::Type* ty = nullptr;
    const llvm::Instruction* I = nullptr;
    llvm::Function* callee = nullptr; int builtin = -1;
    bool vec = false;       // vector op -> elementwise
    u8 ord = 0;             // atomic ordering: 0 none, 1 relaxed, 2 acquire,4 release bits
};
struct FuncInfo {
    llvm::Function* F; std::vector<Inst> in; u32 nregs = 0; u32 nargs = 0;
    std::vector<std::vector<PhiMove>> edges;
    bool isGul = false; bool entered = false;
};

struct Frame {
    FuncInfo* f; u32 pc = 0; std::vector<Val> r; std::vector<u32> allocas; u64 va = 0; 
};

typedef std::vector<u32> VC;
enum TStat : u8 { T_RUN, T_DONE };
enum PendKind : u8 { P_NONE, P_LOCK, P_TRYLOCK, P_CONDWAKE, P_JOIN, P_YIELD, P_FUTEX, P_SLEEP, P_START, P_ATOMIC };
struct Thread {
    std::vector<Frame> st; TStat stat = T_RUN;
    // pending visible operation at which this thread is parked (the call instruction is re-executed when chosen)
    PendKind pend = P_NONE; u64 paddr = 0, paddr2 = 0; bool granted = false; bool timed = false; bool notified = false;
    u32 spur = 0; 
    std::map<const llvm::GlobalVariable*, u64> tls;
    VC vc; u64 retArg = 0;
    Val deadline; 
};

struct ShadowCell { u32 wT = ~0u, wC = 0; std::vector<u32> rd; const Inst* wI = nullptr; };
struct Shadow { std::vector<ShadowCell> c; };

struct State {
    ObjTable objs; std::vector<Thread> th; u32 cur = 0;
    std::vector<Ex> pc; Model model;
    std::vector<std::pair<Ex, u128>> eqs; // expressions known to equal a constant on this path (sorted by address)
    std::vector<std::pair<std::string, Val>> inputs; // replay log in order
    std::vector<u16> inputW;
    std::vector<Val> observed; std::vector<u16> observedW;
    u64 steps = 0; u32 depth = 0; u64 forkDepth = 0;
    u32 preempt = 0; u32 schedN = 0; bool multi = false; u32 spurLeft = 0;
    std::map<u64, u32> mutexOwner;        // addr -> tid+1
    std::map<u64, VC> syncVC;             // release clocks of sync objects
    std::map<u32, std::shared_ptr<Shadow>> shadow;
    Val allocFuse; bool allocArmed = false, allocSticky = false, allocStuck = false; u32 allocN = 0; // fault injection: number of successful allocations before the failing one
    Val now; bool nowInit = false; u32 nclock = 0;
    std::vector<std::pair<u64,u64>> exclude;
    std::set<u32> reached;
    std::vector<u32> schedTrace;
    Frame& top() { return th[cur].st.back(); }
};
