// Exploration loop and JSON report (included from exec.cc)
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r + "\"";
}
void Exec::writeJson(bool exhausted, const std::string& stop) {
    std::ofstream f(opt.out);
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    f << "{\n \"entry\": " << jstr(opt.entry) << ", \"params\": [";
    for (size_t i = 0; i < opt.params.size(); ++i) f << (i ? "," : "") << opt.params[i];
    f << "],\n \"exhausted\": " << (exhausted ? "true" : "false") << ", \"stop\": " << jstr(stop)
      << ",\n \"paths\": " << paths << ", \"assume_killed\": " << assumeKilled << ", \"incomplete_paths\": " << incompletes << ", \"forks\": " << forks << ", \"value_forks\": " << concForks
      << ", \"instructions\": " << insts << ", \"checks\": " << checks << ", \"symbolic_checks\": " << checksSym << ", \"states\": " << states << ", \"sched_points\": " << schedPoints << ", \"max_threads\": " << maxThreads
      << ",\n \"queries\": " << solver.st.queries << ", \"solver_calls\": " << solver.st.solverCalls << ", \"cache_hits\": " << solver.st.cacheHits << ", \"model_hits\": " << solver.st.modelHits << ", \"sat\": " << solver.st.sat << ", \"unsat\": " << solver.st.unsat << ", \"unknown\": " << solver.st.unknown << ", \"fp_calls\": " << solver.st.fpCalls
      << ", \"cvc5_calls\": " << solver.st.cvcCalls << ", \"cvc5_solved\": " << solver.st.cvcSolved << ", \"interval_unsat\": " << solver.st.ivalUnsat << ", \"solver_s\": " << solver.st.solverSec << ", \"max_query_s\": " << solver.st.maxSec << ", \"wall_s\": " << elapsed() << ", \"maxrss_mb\": " << ru.ru_maxrss / 1024
      << ",\n \"symbols\": " << g_syms.size() << ", \"exprs\": " << g_exprCount;
    f << ",\n \"reached\": {"; { bool first = true; for (auto& p : reached) { f << (first ? "" : ", ") << jstr(p.first) << ": " << p.second; first = false; } }
    f << "},\n \"incomplete\": {"; { bool first = true; for (auto& p : incReasons) { f << (first ? "" : ", ") << jstr(p.first) << ": " << p.second; first = false; } }
    f << "},\n \"functions\": ["; { bool first = true; for (auto& p : repoFuncs) { f << (first ? "" : ", ") << jstr(p); first = false; } }
    f << "],\n \"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) {
        f << (i ? ",\n  " : "\n  ") << "{\"in\": ["; for (size_t j = 0; j < samples[i].in.size(); ++j) f << (j ? "," : "") << "[" << jstr(samples[i].in[j].first) << "," << samples[i].in[j].second << "]";
        f << "], \"obs\": ["; for (size_t j = 0; j < samples[i].obs.size(); ++j) f << (j ? "," : "") << samples[i].obs[j]; f << "]}"; }
    f << "],\n \"violations\": ["; for (size_t i = 0; i < viols.size(); ++i) {
        auto& v = viols[i]; f << (i ? ",\n  " : "\n  ") << "{\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"where\": " << jstr(v.where) << ", \"inputs\": [";
        for (size_t j = 0; j < v.inputs.size(); ++j) f << (j ? "," : "") << "[" << jstr(v.inputs[j].first) << "," << v.inputs[j].second << "]";
        f << "], \"stack\": ["; for (size_t j = 0; j < v.stack.size(); ++j) f << (j ? "," : "") << jstr(v.stack[j]); f << "]}"; }
    f << "]\n}\n";
}

int Exec::run() {
    S = std::make_unique<State>(); S->th.resize(1);
    initGlobals();
    // global constructors
    if (auto* gc = M.getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<u64, Function*>> fs;
        for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
        std::stable_sort(fs.begin(), fs.end(), [](auto& x, auto& y) { return x.first < y.first; });
        for (auto& p : fs) {
            std::vector<Val> none; enter(*S, p.second, none, false);
            try { while (!S->th[0].st.empty()) stepOne(*S); }
            catch (Terminate&) { fprintf(stderr, "global constructor failed: %s\n", p.second->getName().str().c_str()); for (auto& v : viols) fprintf(stderr, "%s: %s at %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto& v : incReasons) fprintf(stderr, "%s\n", v.first.c_str()); return 3; }
        }
    }
    Function* E = M.getFunction(opt.entry);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
    std::vector<Val> none; enter(*S, E, none, false);
    S->steps = 0;
    work.push_back(std::move(S));
    bool exhausted = true; double lastP = 0;
    while (!work.empty()) {
        if (opt.maxPaths && paths >= opt.maxPaths) { exhausted = false; stopReason = "path budget"; break; }
        if (elapsed() > opt.timeBudget) { exhausted = false; stopReason = "time budget"; break; }
        S = std::move(work.back()); work.pop_back(); ++states;
        runState();
        if (stopAll) { if (stopReason != "violation") exhausted = false; else exhausted = false; break; }
        if (opt.progress && elapsed() - lastP > 5) { lastP = elapsed(); fprintf(stderr, "[%.0fs] paths=%lu work=%zu insts=%lu queries=%lu solver=%lu (%.1fs) inc=%lu\n", lastP, (unsigned long)paths, work.size(), (unsigned long)insts, (unsigned long)solver.st.queries, (unsigned long)solver.st.solverCalls, solver.st.solverSec, (unsigned long)incompletes); }
        if (opt.memLimitMB && (states & 255) == 0) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss / 1024 > opt.memLimitMB) { exhausted = false; stopReason = "memory budget"; break; } }
    }
    if (incompletes) exhausted = false;
    if (opt.progress) { std::vector<std::pair<u64, std::string>> v; for (auto& p : forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; ++i) fprintf(stderr, "fork %lu %s\n", (unsigned long)v[i].first, v[i].second.c_str()); }
    if (!opt.out.empty()) writeJson(exhausted, stopReason);
    fprintf(stderr, "%s: paths=%lu killed=%lu inc=%lu viol=%zu exhausted=%d insts=%lu queries=%lu z3=%lu %.2fs (max %.2fs) wall=%.2fs\n", opt.entry.c_str(), (unsigned long)paths, (unsigned long)assumeKilled, (unsigned long)incompletes, viols.size(), exhausted, (unsigned long)insts, (unsigned long)solver.st.queries, (unsigned long)solver.st.solverCalls, solver.st.solverSec, solver.st.maxSec, elapsed());
    for (auto& v : viols) { fprintf(stderr, "  VIOL %s: %s\n    at %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto& x : v.stack) fprintf(stderr, "      %s\n", x.c_str()); fprintf(stderr, "    inputs:"); for (auto& i : v.inputs) fprintf(stderr, " %s=%s", i.first.c_str(), i.second.c_str()); fprintf(stderr, "\n"); }
    for (auto& r : incReasons) fprintf(stderr, "  INCOMPLETE %lu x %s\n", (unsigned long)r.second, r.first.c_str());
    return viols.empty() ? 0 : 1;
}
