#include "absint.hpp"
#include "llvm/IR/LegacyPassManager.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/InstIterator.h"
#include <cstdio>
#include <set>
#include <fstream>
#include <iostream>

static std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}

// obligations (vf_check / vf_reach) textually present in everything an entry refers to
static std::set<std::string> expectedIds(Function* F) {
    std::set<std::string> ids;
    std::set<const Value*> seen;
    std::vector<const Value*> q{F};
    while (!q.empty()) {
        const Value* v = q.back();
        q.pop_back();
        if (!seen.insert(v).second) continue;
        if (auto* fn = dyn_cast<Function>(v)) {
            for (auto& I : instructions(*fn)) {
                if (auto* c = dyn_cast<CallBase>(&I))
                    if (auto* t = c->getCalledFunction()) {
                        int arg = t->getName() == "vf_check" ? 1 : t->getName() == "vf_reach" ? 0 : -1;
                        if (arg >= 0) {
                            StringRef sr;
                            if (getConstantStringInfo(c->getArgOperand(arg), sr)) ids.insert(sr.str());
                        }
                    }
                for (auto& o : I.operands())
                    if (isa<Constant>(o)) q.push_back(o);
            }
        } else if (auto* g = dyn_cast<GlobalVariable>(v)) {
            if (g->hasInitializer()) q.push_back(g->getInitializer());
        } else if (auto* c = dyn_cast<Constant>(v)) {
            for (auto& o : c->operands()) q.push_back(o);
        }
    }
    return ids;
}

// Whether some path reads the variable before anything was written to it. Registers would hide that: a phi of a value
// and nothing counts as the value. Such variables stay in memory, where what was never written is known as such.
static bool mayReadUnwritten(AllocaInst* A) {
    std::set<BasicBlock*> seen;
    std::vector<std::pair<BasicBlock*, BasicBlock::iterator>> work{{A->getParent(), std::next(A->getIterator())}};
    while (!work.empty()) {
        auto [B, it] = work.back();
        work.pop_back();
        bool written = false;
        for (; it != B->end(); ++it) {
            if (auto* S = dyn_cast<StoreInst>(&*it); S && S->getPointerOperand() == A) {
                written = true;
                break;
            }
            if (auto* L = dyn_cast<LoadInst>(&*it); L && L->getPointerOperand() == A) return true;
        }
        if (!written)
            for (auto* N : successors(B))
                if (seen.insert(N).second) work.push_back({N, N->begin()});
    }
    return false;
}

static void promote(Function& F) {
    if (F.isDeclaration()) return;
    DominatorTree DT(F);
    for (;;) {
        std::vector<AllocaInst*> as;
        for (auto& I : F.getEntryBlock())
            if (auto* A = dyn_cast<AllocaInst>(&I))
                if (isAllocaPromotable(A) && !mayReadUnwritten(A)) as.push_back(A);
        if (as.empty()) return;
        PromoteMemToReg(as, DT);
    }
}

int main(int argc, char** argv) {
    std::vector<std::string> files;
    std::string out, repo = "/repo/";
    std::vector<std::string> entries;
    bool verbose = false, list = false;
    double tl = 800;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-e") entries.push_back(argv[++i]);
        else if (a == "-o") out = argv[++i];
        else if (a == "-r") repo = argv[++i];
        else if (a == "-t") tl = atof(argv[++i]);
        else if (a == "-v") verbose = true;
        else if (a == "-l") list = true;
        else files.push_back(a);
    }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (auto& f : files) {
        auto m = parseIRFile(f, err, ctx);
        if (!m) {
            err.print("absint", errs());
            return 3;
        }
        if (!M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m)))
            return 3;
    }
    {
        LoopAnalysisManager LAM;
        FunctionAnalysisManager FAM;
        CGSCCAnalysisManager CAM;
        ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM);
        PB.registerCGSCCAnalyses(CAM);
        PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        for (auto& F : *M) promote(F);
        FunctionPassManager FPM;
        FPM.addPass(LoopSimplifyPass());
        ModulePassManager MPM;
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    if (list) {
        for (auto& F : *M)
            if (!F.isDeclaration() && F.getName().starts_with("vp_")) std::cout << F.getName().str() << "\n";
        return 0;
    }
    std::string json = "{\"entries\":[";
    bool firstE = true;
    int rc = 0;
    for (auto& en : entries) {
        auto* F = M->getFunction(en);
        if (!F || F->isDeclaration()) {
            std::cerr << "no entry " << en << "\n";
            return 3;
        }
        g_syms.clear();
        g_stats = Stats();
        std::string abort;
        auto E = std::make_unique<Engine>(*M);
        E->deadline = tl;
        E->repoPrefix = repo;
        E->verbose = verbose;
        size_t nret = 0, nthrow = 0;
        try {
            State s;
            // variables exist from the start: loops must know them as modified even when first used inside
            for (auto& G : M->globals())
                if (!G.isConstant() && !G.getName().starts_with("llvm.") && G.hasNUsesOrMore(1)) E->globalRegion(s, &G);
            E->runGlobalCtors(s);
            auto r = E->exec(F, {}, std::move(s));
            for (auto& o : r) {
                if (o.threw) {
                    ++nthrow;
                    E->alarm(o.s, nullptr, "exception", "an exception escapes to the client (" + o.s.excType + ")");
                } else
                    ++nret;
            }
        } catch (Abort& a) {
            abort = a.why;
        } catch (NumOverflow&) {
            abort = "numeric overflow in the abstract domain";
        }
        Sink& k = E->root;
        if (!firstE) json += ",";
        firstE = false;
        json += "{\"entry\":\"" + esc(en) + "\",\"abort\":\"" + esc(abort) + "\",\"returns\":" + std::to_string(nret) +
                ",\"throws\":" + std::to_string(nthrow) + ",\"wall\":" + std::to_string(E->elapsed()) +
                ",\"lp\":" + std::to_string(g_stats.lp) + ",\"entail\":" + std::to_string(g_stats.entail) +
                ",\"steps\":" + std::to_string(E->steps);
        json += ",\"alarms\":[";
        for (size_t i = 0; i < k.alarms.size(); ++i) {
            auto& a = k.alarms[i];
            json += std::string(i ? "," : "") + "{\"kind\":\"" + esc(a.kind) + "\",\"msg\":\"" + esc(a.msg) + "\",\"where\":\"" + esc(a.where) +
                    "\",\"stack\":\"" + esc(a.stack) + "\",\"trace\":\"" + esc(a.trace) + "\"}";
        }
        json += "],\"checks\":{";
        bool f = true;
        for (auto& c : k.reached) {
            json += std::string(f ? "" : ",") + "\"" + esc(c.first) + "\":[" + std::to_string(k.checksOk[c.first]) + "," + std::to_string(k.checksBad[c.first]) + "]";
            f = false;
        }
        json += "},\"sites\":[";
        f = true;
        std::set<std::string> sites;
        long nacc = 0;
        for (auto& m : k.memOk) {
            nacc += m.second;
            std::string w = E->loc(m.first);
            if (w.find(repo) != std::string::npos) sites.insert(w);
        }
        for (auto& w : sites) {
            json += std::string(f ? "" : ",") + "\"" + esc(w) + "\"";
            f = false;
        }
        json += "],\"accesses\":" + std::to_string(nacc) + ",\"functions\":[";
        f = true;
        std::set<std::string> fns;
        for (auto* fn : k.funcs) {
            if (auto* sp = fn->getSubprogram()) {
                std::string fl = sp->getFilename().str();
                if (!fl.empty() && fl[0] != '/') fl = sp->getDirectory().str() + "/" + fl;
                if (fl.find(repo) != std::string::npos) fns.insert(E->fnName(fn) + " @ " + fl + ":" + std::to_string(sp->getLine()));
            }
        }
        for (auto& w : fns) {
            json += std::string(f ? "" : ",") + "\"" + esc(w) + "\"";
            f = false;
        }
        json += "],\"unmodelled\":[";
        f = true;
        for (auto& w : k.unmodelled) {
            json += std::string(f ? "" : ",") + "\"" + esc(w) + "\"";
            f = false;
        }
        json += "],\"expected\":[";
        f = true;
        for (auto& w : expectedIds(F)) {
            json += std::string(f ? "" : ",") + "\"" + esc(w) + "\"";
            f = false;
        }
        json += "]}";
        if (out.empty()) {
            std::cout << "== " << en << " returns=" << nret << " throws=" << nthrow << " wall=" << E->elapsed() << " lp=" << g_stats.lp << " lpq=" << g_stats.lpq
                      << " entail=" << g_stats.entail << " quick=" << g_stats.entailQuick << " steps=" << E->steps << (abort.empty() ? "" : " ABORT " + abort) << "\n";
            for (auto& c : k.reached) std::cout << "   check " << c.first << ": ok " << k.checksOk[c.first] << " bad " << k.checksBad[c.first] << "\n";
            for (auto& a : k.alarms) std::cout << "   ALARM " << a.kind << ": " << a.msg << "\n     where " << a.where << "\n" << a.stack << (verbose ? a.trace : "");
            for (auto& u : k.unmodelled) std::cout << "   unmodelled " << u << "\n";
        }
    }
    json += "]}";
    if (!out.empty()) {
        std::ofstream o(out);
        o << json;
    }
    return rc;
}
