// Abstract interpreter over LLVM IR: trace-partitioned convex polyhedra with a
// region/log memory model.  No path is handed to a solver; entailment is decided
// by the domain itself (simplex on the polyhedron).
#pragma once
#include "mem.hpp"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <chrono>
#include <functional>
#include <unordered_map>

using namespace llvm;

typedef std::map<const Value*, Val> Regs;

struct Path {
    State s;
    Regs r;
    const BasicBlock* prev = nullptr;
    const BasicBlock* bb = nullptr;
    BasicBlock::const_iterator at;
    bool mid = false;    // resume inside bb at `at`
    bool enter = false;  // first visit of the loop header being run
    std::vector<int> allocas;
};
struct Outcome {
    State s;
    Val v;
    bool threw = false;
};
struct Alarm {
    std::string kind, msg, where, stack, trace, op;
    std::string key() const { return kind + "|" + msg + "|" + where; }
};
struct Abort {
    std::string why;
};
struct TrialAbort {};

struct Sink {
    std::vector<Alarm> alarms;
    std::map<std::string, int> reached;                 // check id -> times discharged/failed
    std::map<std::string, int> checksOk, checksBad;
    std::map<const Instruction*, int> memOk;            // discharged memory obligations per site
    std::set<const Function*> funcs;
    long paths = 0;
    std::set<std::string> unmodelled;
};

struct Engine {
    long nondet = 0; // answers from outside the program so far
    void checkEndless(const Loop* L, const Path& h, std::vector<Path>& backs, long before);
    Module& M;
    const DataLayout& DL;
    std::vector<Sink*> sinks;
    Sink root;
    std::vector<const Instruction*> callStack;
    std::vector<std::vector<Val>> argStack; // arguments of the calls on the stack
    std::vector<std::vector<Val>> vaTable;  // arguments that variable argument lists stand for
    std::vector<const Function*> fnStack;
    std::string op;
    int nextRegion = 1, nextBase = 1;
    std::map<std::string, Sym> uf;
    std::map<const Function*, std::pair<std::unique_ptr<DominatorTree>, std::unique_ptr<LoopInfo>>> loops;
    std::map<const Function*, int> fnRegion;
    std::map<std::string, std::function<bool(Path&, const CallBase&, std::vector<Val>&, std::vector<Outcome>&)>> models;
    std::vector<i128> thresholds;
    bool leakCheck = false, uninitCheck = false, termCheck = false, fpExact = false, wrapCheck = true;
    int maxDisj = 3;
    int unrollMax = 24;
    int splitMax = 0; // paths a bounded loop may split into while it is unrolled
    double deadline = 800;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::string repoPrefix = "/repo/";
    bool verbose = false;
    std::map<std::string, std::string> modelArgs;
    std::map<const Function*, int> recDepth;
    long steps = 0;

    Engine(Module& m) : M(m), DL(m.getDataLayout()) {
        sinks.push_back(&root);
        initModels();
        collectThresholds();
    }
    Sink& sink() { return *sinks.back(); }
    int suppress = 0;

    // ---- helpers
    double elapsed() const {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
    void tick() {
        if ((++steps & 0x3ff) == 0 && elapsed() > deadline) throw Abort{"analysis time limit"};
    }
    std::string loc(const Instruction* I) const;
    std::string fnName(const Function* F) const;
    std::string stackStr() const;
    bool repoSite(const Instruction* I, std::string& where) const;
    void alarm(const State& s, const Instruction* I, const std::string& kind, const std::string& msg);
    void note(State& s, const Instruction* I, const std::string& what);

    Lin fresh(const std::string& n, bool real = false) { return Lin::var(newSym(real, n)); }
    Sym ufSym(const std::string& key, bool real, const std::string& nm) {
        auto it = uf.find(key);
        if (it != uf.end()) return it->second;
        Sym s = newSym(real, nm);
        uf[key] = s;
        return s;
    }
    Lin freshInt(State& s, unsigned w, bool sgn, const std::string& n);

    // ---- numeric helpers
    typedef std::vector<std::pair<State, Lin>> SL;
    typedef std::vector<std::pair<State, Val>> SVs;
    SL normRange(const State& s, const Lin& e, unsigned w, bool sgn);
    SL normU(const State& s, const Lin& e, unsigned w) { return normRange(s, e, w, false); }
    SL normS(const State& s, const Lin& e, unsigned w) { return normRange(s, e, w, true); }
    bool inRange(const State& s, const Lin& e, const Q& lo, const Q& hi) {
        return s.P().entailsGE(e - Lin(lo)) && s.P().entailsGE(Lin(hi) - e);
    }
    // split s on e >= 0
    void split(const State& s, const Lin& e, bool strict, std::vector<State>& t, std::vector<State>& f);
    void splitEQ(const State& s, const Lin& e, std::vector<State>& t, std::vector<State>& f);

    // ---- memory
    int newRegionIn(State& s, Region::K k, const Lin& size, const std::string& name, const Value* site);
    int globalRegion(State& s, const GlobalVariable* G);
    int funcRegion(State& s, const Function* F);
    Val constVal(State& s, const Constant* C);
    Val readConst(State& s, const Constant* C, int64_t off, unsigned size, Type* T, bool& ok);
    Val zeroOf(Type* T);
    Val freshOf(State& s, Type* T, const std::string& n);
    unsigned tsize(Type* T) { return (unsigned)DL.getTypeStoreSize(T).getFixedValue(); }
    Val coerce(State& s, const Val& v, unsigned fromSize, Type* T);
    Val extractBytes(State& s, const Val& v, unsigned vsize, int64_t off, unsigned size);
    void flush(Region& R);
    void eraseTop(State& s, Region& R, int64_t off, int64_t len);
    void write(State& s, int rid, const Lin& off, unsigned size, const Val& v);
    SVs read(const State& s, int rid, const Lin& off, unsigned size, Type* T);
    void readLog(State s, LogP n, const Lin& off, unsigned size, Type* T, SVs& out);
    // bounds obligation: returns the states in which the access is valid
    std::vector<std::pair<State, Lin>> access(const State& s, const Val& p, const Lin& size, const Instruction* I,
                                              const char* what, bool wr);
    void memCopy(State& s, int dr, const Lin& doff, int sr, const Lin& soff, const Lin& len);
    void memFill(State& s, int r, const Lin& off, const Lin& len, const Val& byte);

    // ---- execution
    Val eval(Path& p, const Value* v);
    std::vector<Outcome> exec(const Function* F, const std::vector<Val>& args, State s);
    LoopInfo& loopInfo(const Function* F);
    void run(std::vector<Path> init, const Loop* L, const Function* F, std::vector<Path>& backs,
             std::vector<Path>& exits, std::vector<Outcome>& rets);
    void handleLoop(const Loop* L, Path p, const Function* F, std::vector<Path>& exits, std::vector<Outcome>& rets);
    // executes from p.at to the end of block; pushes successors
    void runBlock(Path p, const Function* F, std::vector<Path>& next, std::vector<Outcome>& rets);
    // one non-terminator instruction; false when path was replaced by `forks`
    bool step(Path& p, const Instruction* I, std::vector<Path>& forks, std::vector<Outcome>& rets);
    void doCall(Path& p, const CallBase& C, std::vector<Path>& forks, std::vector<Outcome>& rets, bool& handled);
    void dispatchCall(Path& p, const CallBase& C, const Function* callee, std::vector<Val> args,
                      std::vector<Outcome>& outs, bool& noret);
    SVs binop(const State& s, unsigned opc, const Val& a, const Val& b, Type* T, const Instruction* I);
    SVs cmp(const State& s, CmpInst::Predicate pr, const Val& a, const Val& b, Type* T, const Instruction* I);
    SVs castop(const State& s, unsigned opc, const Val& a, Type* from, Type* to, const Instruction* I);
    SVs decide(const State& s, const Val& c, const Instruction* I); // i1 -> constant 0/1
    bool truth(const Val& v, bool& out);
    void goTo(Path p, const BasicBlock* to, std::vector<Path>& next);
    void phis(Path& p);
    bool parseDecimal(Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs);
    bool formatExact(const State& s0, const std::string& f, const std::vector<Val>& args, const CallBase& C, std::vector<std::pair<State, std::vector<Lin>>>& out);
    void initModels();
    bool intrinsic(Path& p, const CallBase& C, const Function* F, std::vector<Val>& a, std::vector<Outcome>& outs);
    void collectThresholds();
    void throwExc(State s, const std::string& type, std::vector<Outcome>& outs) {
        Outcome o;
        o.s = std::move(s);
        o.s.excType = type;
        o.threw = true;
        outs.push_back(std::move(o));
    }
    void leakScan(State& s, const Instruction* I, const std::vector<Val>& roots);
    std::set<int> reachable(const State& s, const std::vector<int>& roots);
    SVs fpUF(const State& s, const std::string& op, std::vector<Lin> args, Type* T);
    void runGlobalCtors(State& s);
    SVs divrem(const State& s, bool sgn, bool rem, const Lin& a, const Lin& b, unsigned w, const Instruction* I);
};

std::string demangleName(const std::string& n);
