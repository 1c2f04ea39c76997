#pragma once
#include "expr.h"
#include <z3.h>
#include <fstream>

enum SRes { S_UNSAT = 0, S_SAT = 1, S_UNKNOWN = 2 };

struct SolverStats {
    u64 queries = 0, cacheHits = 0, solverCalls = 0, sat = 0, unsat = 0, unknown = 0, fpCalls = 0, cvcCalls = 0, cvcSolved = 0, ivalUnsat = 0, modelHits = 0;
    double solverSec = 0, maxSec = 0;
};

class Solver {
public:
    Solver();
    // is pc && extra satisfiable?  On SAT, `out` = `base` updated so that pc && extra holds
    // (base must satisfy pc).
    SRes check(const std::vector<Ex>& pc, Ex extra, const Model& base, Model& out);
    static void bounds(const std::vector<Ex>& pc, Ex e, u128& lo, u128& hi); // unsigned interval of e under pc
    SolverStats st;
    unsigned timeoutMs = 60000;
    std::string dumpDir; unsigned dumpMax = 0, dumped = 0;
private:
    Z3_context ctx; Z3_solver bv, fp;
    struct CacheEnt { SRes r; std::vector<std::pair<u32, u128>> vals; };
    std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, CacheEnt>>> cache;
    Z3_ast tr(Ex e); Z3_ast trFP(Ex e);
    void setTimeout(Z3_solver S, unsigned ms); int cvc5(Z3_solver S, const std::vector<u32>& syms, unsigned ms, std::vector<std::pair<u32, u128>>& vals); unsigned cvcStreak = 0;
    Z3_ast ref(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    bool hasFP(Ex e);
    Z3_sort fpSort(unsigned w);
    Z3_ast bvToFP(Z3_ast b, unsigned w); Z3_ast fpToBV(Z3_ast f, unsigned w);
    Z3_ast b2v(Z3_ast b); Z3_ast v2b(Z3_ast v);
    std::vector<std::vector<std::pair<u32, u128>>> recent;
    std::unordered_map<u32, bool> fpMemo;
    u128 modelVal(Z3_model m, Ex sym);
    std::vector<Ex> symEx;
    Z3_ast rne, rtz, rtn, rtp, rna;
    std::vector<u32> mark; u32 markEp = 0;
};
