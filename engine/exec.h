#pragma once
#include "state.h"
#include <functional>

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; };

struct PathEnd { enum K { DONE, ASSUME, VIOL, INCOMPLETE, HALT } k; };
struct Terminate { PathEnd::K k; };   // thrown to end the current path
struct Switch {};                     // thrown when the current thread has been rescheduled

struct Options {
    std::string entry; std::vector<long> params; double timeBudget = 600; u64 maxSteps = 20000000; unsigned solverTimeout = 60000;
    unsigned preemptBound = 2; unsigned spurious = 1; u64 maxPaths = 0; std::string out; bool stopFirst = true; unsigned samplePaths = 8;
    std::string concFile; std::string dumpDir; unsigned dumpMax = 0; bool races = true; u64 memLimitMB = 0; unsigned seed = 1;
    unsigned timeoutsMax = 1000; bool atomicPoints = true; u64 progress = 0; bool merge = true, iteMerge = true;
};
struct RegionInfo;

class Exec {
public:
    Exec(llvm::Module& m, Options o);
    int run();
    llvm::Module& M; const llvm::DataLayout& DL; Options opt; Solver solver;
private:
    // globals
    std::map<const llvm::GlobalValue*, u64> gaddr; std::unordered_map<u64, llvm::Function*> faddr;
    std::unordered_map<const llvm::Function*, std::unique_ptr<FuncInfo>> finfo;
    std::unordered_map<std::string, int> bmap;
    std::unique_ptr<State> S; // current
    std::vector<std::unique_ptr<State>> work;
    // stats
    u64 paths = 0, assumeKilled = 0, forks = 0, insts = 0, incompletes = 0, checks = 0, checksSym = 0, states = 0, schedPoints = 0, maxThreads = 1, concForks = 0;
    std::map<std::string, u64> incReasons; std::vector<Violation> viols;
    std::map<std::string, u64> reached; std::set<std::string> funcs; std::set<std::string> repoFuncs;
    struct Sample { std::vector<std::pair<std::string, std::string>> in; std::vector<std::string> obs; };
    std::vector<Sample> samples; u64 sampleSeen = 0; u64 rng = 88172645463325252ULL;
    std::map<std::string, u64> forkSites;
    double t0;

    // setup
    void initGlobals(); void initConst(MemObj* o, u64 off, const llvm::Constant* c);
    Val constVal(const llvm::Constant* c);
    FuncInfo* info(llvm::Function* F);
    unsigned width(llvm::Type* t);
    // memory
    u64 alloc(State& s, u64 size, ObjKind k, AllocKind ak, const char* name, bool zero = false);
    Val load(State& s, Val addr, llvm::Type* t);
    void store(State& s, Val addr, Val v, llvm::Type* t);
    Val loadW(State& s, Val addr, unsigned bytes, unsigned w, bool atomic = false);
    void storeW(State& s, Val addr, Val v, unsigned bytes, unsigned w, bool atomic = false);
    Val readBytes(State& s, u32 id, MemObj* o, u32 off, unsigned bytes);
    void writeBytes(MemObj* o, u32 off, unsigned bytes, const Val& v);
    MemObj* chk(State& s, u64 addr, u64 n, bool write, const char* what);
    u64 resolve(State& s, Val addr, unsigned n, bool write, std::vector<u32>& cands, Ex& off); // returns object base
    void copyMem(State& s, u64 d, u64 sr, u64 n);
    std::string cstr(State& s, u64 a);
    void freeObj(State& s, u64 a, AllocKind ak);
    // symbolic helpers
    Ex ex(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
    u128 evalM(State& s, Ex e) { newEvalEpoch(); return evalExpr(e, s.model); }
    void addPC(State& s, Ex c); Val known(State& s, const Val& v);
    u64 conc(State& s, const Val& v, unsigned w, const char* what);
    bool decide(State& s, Ex cond, const char* what, bool* forked = nullptr); // fork; the clone re-executes the current instruction
    SRes feasible(State& s, Ex c, Model& m) { return solver.check(s.pc, c, s.model, m); }
    std::unique_ptr<State> clone(State& s);
    [[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
    [[noreturn]] void incomplete(State& s, const std::string& why);
    void requireTrue(State& s, Ex c, const std::string& kind, const std::string& msg);
    Val sym(State& s, const std::string& name, unsigned w, bool input = true);
    // run
    void runState(); void stepOne(State& s); void finishPath(State& s);
    void enter(State& s, llvm::Function* F, std::vector<Val>& args, bool va);
    void doCall(State& s, Frame& fr, const Inst& in); void ret(State& s, Val v, bool has);
    bool builtin(State& s, Frame& fr, const Inst& in, int b, std::vector<Val>& a, Val& r);
    bool intrinsic(State& s, Frame& fr, const Inst& in, llvm::Function* F, std::vector<Val>& a, Val& r);
    bool libm(State& s, const std::string& n, const Inst& in, std::vector<Val>& a, Val& r);
    void unwind(State& s, u64 exn, bool isResume);
    bool tiMatch(State& s, u64 catchTI, u64 throwTI, u64& adj, u64 obj, int depth = 0);
    int typeId(u64 ti);
    std::map<u64, int> tids;
    void jump(State& s, Frame& f, u32 t, int edge);
    void popFrame(State& s);
    Val get(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.r[o.reg] : o.v; }
    Val binop(State& s, unsigned opc, unsigned w, const Val& a, const Val& b, const Inst* in);
    Val fbin(State& s, unsigned opc, unsigned w, const Val& a, const Val& b);
    Val icmp(unsigned p, unsigned w, const Val& a, const Val& b);
    Val fcmp(unsigned p, unsigned w, const Val& a, const Val& b);
    Val castv(State& s, unsigned opc, unsigned sw, unsigned w, const Val& a);
    Val agg(std::vector<Val> v) { Expr* e = new Expr(); e->op = E_AGG; e->w = 0; e->agg = new std::vector<Val>(std::move(v)); Val r; r.e = e; return r; }
    Val zeroOf(llvm::Type* t);
    // threads
    void schedule(State& s); bool enabled(State& s, u32 t); void visible(State& s, PendKind k, u64 a, u64 a2 = 0);
    void acquire(State& s, u64 a); void release(State& s, u64 a);
    bool threadBuiltin(State& s, Frame& fr, const Inst& in, int b, std::vector<Val>& a, Val& r);
    void raceCheck(State& s, u32 id, u32 off, u32 n, bool write); 
    Val clockNow(State& s); Val clockTo(State& s, Ex atLeast); void clockAdvance(State& s, Ex atLeast);
    u64 thCreate(State& s, u64 fn, u64 arg); void thDone(State& s);
    std::string where(State& s); std::string locOf(const llvm::Instruction* I);
    std::vector<std::string> stackOf(State& s);
    std::string valStr(u128 v);
    void writeJson(bool exhausted, const std::string& stopReason);
    std::unordered_map<FuncInfo*, std::shared_ptr<RegionInfo>> regions; std::unordered_map<FuncInfo*, std::vector<u16>> regW; u64 merges = 0;
    RegionInfo* region(FuncInfo* fi); unsigned regWidth(FuncInfo* fi, u32 r); void regionMerge(State& s, const Inst& br, bool v, Ex taken, Ex other, Model m2);
    std::string stopReason; bool stopAll = false;
    std::vector<std::pair<std::string, u128>> concIn; size_t concPos = 0;
    double elapsed();
};
