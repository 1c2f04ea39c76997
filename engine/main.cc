#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <cstdlib>
using namespace llvm;
int main(int argc, char** argv) {
    Options o; std::vector<std::string> files;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") o.entry = nx(); else if (a == "--out") o.out = nx();
        else if (a == "--param") o.params.push_back(atol(nx().c_str()));
        else if (a == "--time") o.timeBudget = atof(nx().c_str());
        else if (a == "--steps") o.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--solver-timeout") o.solverTimeout = (unsigned)atoi(nx().c_str());
        else if (a == "--preempt") o.preemptBound = (unsigned)atoi(nx().c_str());
        else if (a == "--spurious") o.spurious = (unsigned)atoi(nx().c_str());
        else if (a == "--paths") o.maxPaths = strtoull(nx().c_str(), 0, 10);
        else if (a == "--samples") o.samplePaths = (unsigned)atoi(nx().c_str());
        else if (a == "--replay") o.concFile = nx();
        else if (a == "--dump") { o.dumpDir = nx(); o.dumpMax = (unsigned)atoi(nx().c_str()); }
        else if (a == "--mem") o.memLimitMB = strtoull(nx().c_str(), 0, 10);
        else if (a == "--seed") o.seed = (unsigned)atoi(nx().c_str());
        else if (a == "--no-races") o.races = false;
        else if (a == "--no-atomic-points") o.atomicPoints = false;
        else if (a == "--all") o.stopFirst = false;
        else if (a == "--no-merge") o.merge = false;
        else if (a == "--no-ite") o.iteMerge = false;
        else if (a == "-v") o.progress = 1;
        else files.push_back(a);
    }
    LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
    for (auto& f : files) {
        auto m = parseIRFile(f, err, ctx);
        if (!m) { err.print("symx", errs()); return 3; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed: %s\n", f.c_str()); return 3; }
    }
    Exec e(*M, o);
    return e.run();
}
