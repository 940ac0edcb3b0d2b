#include "absint.hpp"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/ADT/SmallString.h"
#include <cmath>

std::vector<SymInfo> g_syms;
Stats g_stats;

std::string demangleName(const std::string& n) { return llvm::demangle(n); }

// ------------------------------------------------------------------ reporting
std::string Engine::loc(const Instruction* I) const {
    if (!I) return "?";
    if (auto& d = I->getDebugLoc()) {
        auto* L = d.get();
        std::string f = L->getFilename().str();
        if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
        // collapse ../
        return f + ":" + std::to_string(L->getLine());
    }
    return I->getFunction()->getName().str();
}
std::string Engine::fnName(const Function* F) const {
    std::string s = demangleName(F->getName().str());
    return s;
}
bool Engine::repoSite(const Instruction* I, std::string& where) const {
    auto test = [&](const Instruction* X) {
        std::string l = loc(X);
        if (l.find(repoPrefix) != std::string::npos) {
            where = l + " in " + fnName(X->getFunction());
            return true;
        }
        return false;
    };
    if (I && test(I)) return true;
    for (size_t k = callStack.size(); k-- > 0;)
        if (test(callStack[k])) return true;
    return false;
}
std::string Engine::stackStr() const {
    std::string s;
    for (size_t k = callStack.size(); k-- > 0;) {
        s += "    called at " + loc(callStack[k]) + " in " + fnName(callStack[k]->getFunction()) + "\n";
    }
    return s;
}
void Engine::alarm(const State& s, const Instruction* I, const std::string& kind, const std::string& msg) {
    if (suppress) return;
    Alarm a;
    a.kind = kind;
    a.msg = msg;
    std::string w;
    if (repoSite(I, w))
        a.where = w;
    else
        a.where = loc(I) + " in " + (I ? fnName(I->getFunction()) : "?");
    for (auto& x : sink().alarms)
        if (x.key() == a.key()) return;
    a.stack = "    at " + loc(I) + " in " + (I ? fnName(I->getFunction()) : "?") + "\n" + stackStr();
    std::vector<std::string> tr;
    for (auto t = s.trace; t && tr.size() < 60; t = t->prev) tr.push_back(t->what);
    std::string last;
    for (size_t i = tr.size(); i-- > 0;) {
        if (tr[i] == last) continue;
        last = tr[i];
        a.trace += "    " + tr[i] + "\n";
    }
    a.op = op;
    if (verbose) a.trace += "    constraints: " + s.P().str() + "\n";
    sink().alarms.push_back(a);
}
void Engine::note(State& s, const Instruction* I, const std::string& what) {
    auto n = std::make_shared<TraceNode>();
    n->prev = s.trace;
    n->what = I ? (what + " [" + loc(I) + "]") : what;
    n->n = s.trace ? s.trace->n + 1 : 1;
    s.trace = n;
}

// ------------------------------------------------------------------ numerics
Lin Engine::freshInt(State& s, unsigned w, bool sgn, const std::string& n) {
    Lin l = fresh(n);
    if (w == 1) sgn = false;
    if (sgn) {
        s.Pm().addGE(l + Lin(pow2(w - 1)));
        s.Pm().addGE(Lin(pow2(w - 1) - Q(1)) - l);
    } else {
        s.Pm().addGE(l);
        s.Pm().addGE(Lin(pow2(w) - Q(1)) - l);
    }
    return l;
}

Engine::SL Engine::normRange(const State& s, const Lin& e0, unsigned w, bool sgn) {
    SL out;
    Q lo = sgn ? -pow2(w - 1) : Q(0);
    Q hi = sgn ? pow2(w - 1) - Q(1) : pow2(w) - Q(1);
    if (w == 1) {
        lo = Q(0);
        hi = Q(1);
        if (sgn) lo = Q(-1), hi = Q(0);
    }
    Q m = pow2(w);
    Lin e = s.P().norm(e0);
    // reduce the constant part and coefficients that are multiples of the modulus
    if (e.t.size()) {
        Lin r;
        for (auto& p : e.t) {
            if (p.second.isInt() && (p.second.n % m.n) == 0) continue;
            r.t.push_back(p);
        }
        r.c = e.c;
        e = r;
    }
    if (e.isConst()) {
        Q k = ((e.c - lo) / m).floor();
        out.push_back({s, Lin(e.c - k * m)});
        return out;
    }
    if (inRange(s, e, lo, hi)) {
        out.push_back({s, e});
        return out;
    }
    for (int k : {1, -1}) {
        Lin f = e + Lin(m * Q(k));
        if (inRange(s, f, lo, hi)) {
            out.push_back({s, f});
            return out;
        }
    }
    // bounded window: split into the representable translates
    int kmin = -3, kmax = 3;
    bool bounded = s.P().entailsGE(e - Lin(lo) + Lin(m * Q(kmax))) && s.P().entailsGE(Lin(hi) - e - Lin(m * Q(kmin)));
    if (bounded) {
        for (int k = kmin; k <= kmax; ++k) {
            Lin f = e + Lin(m * Q(k));
            if (!s.P().feasibleWith(f - Lin(lo))) continue;
            State t = s;
            t.Pm().addGE(f - Lin(lo));
            if (t.P().bottom || !t.P().feasibleWith(Lin(hi) - f)) continue;
            t.Pm().addGE(Lin(hi) - f);
            if (t.P().bottom) continue;
            out.push_back({std::move(t), f});
        }
        return out;
    }
    State t = s;
    Sym u = ufSym(std::string(sgn ? "S" : "U") + std::to_string(w) + "(" + e.key() + ")", false, sgn ? "swrap" : "uwrap");
    Lin r = Lin::var(u);
    t.Pm().addGE(r - Lin(lo));
    t.Pm().addGE(Lin(hi) - r);
    out.push_back({std::move(t), r});
    return out;
}

static void refineNE(State& s) {
    if (s.P().ne.empty() || s.P().bottom) return;
    s.Pm().feasible();
}

void Engine::split(const State& s, const Lin& e0, bool strict, std::vector<State>& t, std::vector<State>& f) {
    Lin e = s.P().norm(e0);
    if (e.isConst()) {
        bool v = strict ? e.c.sgn() > 0 : e.c.sgn() >= 0;
        (v ? t : f).push_back(s);
        return;
    }
    if (s.P().entailsGE(e, strict)) {
        t.push_back(s);
        return;
    }
    Lin n = -e;
    if (s.P().entailsGE(n, !strict)) {
        f.push_back(s);
        return;
    }
    State a = s;
    a.Pm().addGE(e, strict);
    refineNE(a);
    if (!a.P().bottom) t.push_back(std::move(a));
    State b = s;
    b.Pm().addGE(n, !strict);
    refineNE(b);
    if (!b.P().bottom) f.push_back(std::move(b));
}
void Engine::splitEQ(const State& s, const Lin& e0, std::vector<State>& t, std::vector<State>& f) {
    Lin e = s.P().norm(e0);
    if (e.isConst()) {
        (e.c.sgn() == 0 ? t : f).push_back(s);
        return;
    }
    if (s.P().entailsNE(e)) {
        f.push_back(s);
        return;
    }
    bool ge = s.P().entailsGE(e), le = s.P().entailsGE(-e);
    if (ge && le) {
        t.push_back(s);
        return;
    }
    State a = s;
    a.Pm().addEQ(e);
    if (!a.P().bottom && a.Pm().feasible()) t.push_back(std::move(a));
    State b = s;
    if (ge)
        b.Pm().addGE(e, true);
    else if (le)
        b.Pm().addGE(-e, true);
    else
        b.Pm().addNE(e);
    refineNE(b);
    if (!b.P().bottom) f.push_back(std::move(b));
}

// ------------------------------------------------------------------ regions
int Engine::newRegionIn(State& s, Region::K k, const Lin& size, const std::string& name, const Value* site) {
    int id = nextRegion++;
    auto r = std::make_shared<Region>();
    r->kind = k;
    r->size = size;
    r->name = name;
    r->site = site;
    auto n = std::make_shared<Node>();
    n->k = Node::Base;
    n->b = Node::UndefB;
    n->baseId = nextBase++;
    r->log = n;
    s.mem[id] = r;
    return id;
}
int Engine::globalRegion(State& s, const GlobalVariable* G) {
    auto it = s.globals.find(G);
    if (it != s.globals.end()) return it->second;
    // ids of globals are fixed engine-wide so that states agree on them
    static std::map<const void*, std::pair<int, int>> ids;
    auto& id = ids[G];
    if (!id.first) {
        id.first = nextRegion++;
        id.second = nextBase++;
    }
    auto r = std::make_shared<Region>();
    r->kind = Region::Global;
    r->size = Lin(Q((i128)DL.getTypeAllocSize(G->getValueType()).getFixedValue()));
    r->name = G->getName().str();
    r->site = G;
    r->constant = G->isConstant();
    auto n = std::make_shared<Node>();
    n->k = Node::Base;
    n->baseId = id.second;
    if (G->hasInitializer()) {
        if (G->getInitializer()->isNullValue())
            n->b = Node::Zero;
        else {
            n->b = Node::Init;
            n->init = G->getInitializer();
        }
    } else
        n->b = Node::Unknown;
    r->log = n;
    s.mem[id.first] = r;
    s.globals[G] = id.first;
    return id.first;
}
int Engine::funcRegion(State& s, const Function* F) {
    auto& id = fnRegion[F];
    if (!id) id = nextRegion++;
    if (!s.mem.count(id)) {
        auto r = std::make_shared<Region>();
        r->kind = Region::Func;
        r->fn = F;
        r->size = Lin(1);
        r->name = F->getName().str();
        s.mem[id] = r;
    }
    return id;
}

Val Engine::zeroOf(Type* T) {
    if (T->isPointerTy()) return Val::p(0, Lin(0));
    if (T->isIntegerTy()) return Val::i(Lin(0));
    if (T->isFloatingPointTy()) return Val::f(Lin(0));
    if (T->isStructTy() || T->isArrayTy()) {
        Val v;
        v.k = Val::Agg;
        v.agg = std::make_shared<std::vector<Val>>();
        unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i)
            v.agg->push_back(zeroOf(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType()));
        return v;
    }
    if (T->isVectorTy()) {
        Val v;
        v.k = Val::Blob;
        v.pieces = std::make_shared<std::vector<Piece>>();
        v.pieces->push_back({0, tsize(T), Val::i(Lin(0))});
        return v;
    }
    return Val::undef();
}
Val Engine::freshOf(State& s, Type* T, const std::string& n) {
    if (T->isIntegerTy()) return Val::i(freshInt(s, T->getIntegerBitWidth(), false, n));
    if (T->isFloatingPointTy()) return Val::f(fresh(n, true));
    return Val::undef();
}

bool fpToQ(const APFloat& f, Q& out) {
    if (!f.isFinite()) return false;
    if (f.isZero()) {
        out = Q(0);
        return true;
    }
    APFloat g = f;
    bool li;
    g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double d = g.convertToDouble();
    int ex;
    double m = ::frexp(d, &ex);
    i128 mi = (i128)(int64_t)::ldexp(m, 53);
    ex -= 53;
    while ((mi & 1) == 0) {
        mi >>= 1;
        ++ex;
    }
    if (ex > 60 || ex < -90) return false;
    if (ex >= 0)
        out = Q(mi) * pow2(ex);
    else
        out = Q(mi, (i128)1 << -ex);
    return true;
}

Val Engine::constVal(State& s, const Constant* C) {
    Type* T = C->getType();
    if (isa<UndefValue>(C)) return Val::undef();
    if (auto* I = dyn_cast<ConstantInt>(C)) {
        if (I->getBitWidth() > 64) return Val::undef();
        return Val::i(Lin(I->getBitWidth() == 1 ? Q((i128)I->getZExtValue()) : Q((i128)I->getSExtValue())));
    }
    if (auto* F = dyn_cast<ConstantFP>(C)) {
        Q q;
        if (fpToQ(F->getValueAPF(), q)) return Val::f(Lin(q));
        SmallString<32> str;
        F->getValueAPF().toString(str);
        APFloat g = F->getValueAPF();
        bool li;
        g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        SmallString<32> str2;
        g.toString(str2);
        Sym y = ufSym("fpc:" + str2.str().str(), true, "fp(" + str2.str().str() + ")");
        // a known ordering against zero and one
        if (!g.isNaN()) {
            if (g.isNegative())
                s.Pm().addGE(Lin(Q(-1)) - Lin::var(y));
            else if (g.convertToDouble() > 1)
                s.Pm().addGE(Lin::var(y) - Lin(Q((i128)1 << 60)));
            else
                s.Pm().addGE(Lin::var(y), true);
        }
        return Val::f(Lin::var(y));
    }
    if (isa<ConstantPointerNull>(C)) return Val::p(0, Lin(0));
    if (C->isNullValue()) return zeroOf(T);
    if (auto* F = dyn_cast<Function>(C)) return Val::p(funcRegion(s, F), Lin(0));
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constVal(s, A->getAliasee());
    if (auto* G = dyn_cast<GlobalVariable>(C)) return Val::p(globalRegion(s, G), Lin(0));
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
        if (E->getOpcode() == Instruction::GetElementPtr) {
            Val b = constVal(s, E->getOperand(0));
            APInt off(64, 0);
            if (cast<GEPOperator>(E)->accumulateConstantOffset(DL, off)) {
                if (b.k == Val::Ptr) return Val::p(b.region, b.e + Lin(Q((i128)off.getSExtValue())));
            }
            return Val::undef();
        }
        if (E->getOpcode() == Instruction::BitCast || E->getOpcode() == Instruction::PtrToInt ||
            E->getOpcode() == Instruction::IntToPtr || E->getOpcode() == Instruction::AddrSpaceCast)
            return constVal(s, E->getOperand(0));
        if (E->getOpcode() == Instruction::Sub) {
            Val a = constVal(s, E->getOperand(0)), b = constVal(s, E->getOperand(1));
            if (a.k == Val::Ptr && b.k == Val::Ptr && a.region == b.region) return Val::i(a.e - b.e);
        }
        return Val::undef();
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
        Val v;
        v.k = Val::Agg;
        v.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < C->getNumOperands(); ++i)
            v.agg->push_back(constVal(s, cast<Constant>(C->getOperand(i))));
        return v;
    }
    if (T->isVectorTy()) {
        Val v;
        v.k = Val::Blob;
        v.pieces = std::make_shared<std::vector<Piece>>();
        auto* VT = cast<FixedVectorType>(T);
        unsigned es = tsize(VT->getElementType());
        for (unsigned i = 0; i < VT->getNumElements(); ++i)
            v.pieces->push_back({(int64_t)i * es, es, constVal(s, C->getAggregateElement(i))});
        return v;
    }
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
        Val v;
        v.k = Val::Agg;
        v.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < D->getNumElements(); ++i) v.agg->push_back(constVal(s, D->getElementAsConstant(i)));
        return v;
    }
    return Val::undef();
}

Val Engine::readConst(State& s, const Constant* C, int64_t off, unsigned size, Type* T, bool& ok) {
    Type* CT = C->getType();
    uint64_t cs = DL.getTypeStoreSize(CT).getFixedValue();
    if (off < 0 || (uint64_t)off + size > DL.getTypeAllocSize(CT).getFixedValue()) {
        ok = false;
        return Val::undef();
    }
    if (C->isNullValue()) return zeroOf(T);
    if (off == 0 && size == cs && !CT->isStructTy() && !CT->isArrayTy()) return coerce(s, constVal(s, C), size, T);
    if (auto* ST = dyn_cast<StructType>(CT)) {
        auto* SL_ = DL.getStructLayout(ST);
        if (ST->getNumElements() == 0) {
            ok = false;
            return Val::undef();
        }
        unsigned i = SL_->getElementContainingOffset(off);
        auto* el = C->getAggregateElement(i);
        int64_t eo = off - (int64_t)SL_->getElementOffset(i).getFixedValue();
        if (el && (uint64_t)eo + size <= DL.getTypeAllocSize(el->getType()).getFixedValue())
            return readConst(s, el, eo, size, T, ok);
    } else if (auto* AT = dyn_cast<ArrayType>(CT)) {
        uint64_t es = DL.getTypeAllocSize(AT->getElementType()).getFixedValue();
        uint64_t i = off / es;
        if (auto* el = C->getAggregateElement((unsigned)i))
            if (off % es + size <= es) return readConst(s, el, off % es, size, T, ok);
    } else if (CT->isIntegerTy() && T->isIntegerTy() && isa<ConstantInt>(C)) {
        auto v = cast<ConstantInt>(C)->getValue().lshr(off * 8).zextOrTrunc(64).getZExtValue();
        if (size < 8) v &= (1ull << (size * 8)) - 1;
        return Val::i(Lin(Q((i128)v)));
    }
    // byte-wise little-endian fold for integers spanning several array elements
    if (T->isIntegerTy()) {
        Type* T8 = Type::getInt8Ty(M.getContext());
        uint64_t v = 0;
        for (unsigned b = 0; b < size; ++b) {
            if (size == 1) {
                ok = false;
                return Val::undef();
            }
            Val x = readConst(s, C, off + b, 1, T8, ok);
            if (!ok || x.k != Val::Int || !x.e.isConst()) {
                ok = false;
                return Val::undef();
            }
            v |= ((uint64_t)x.e.c.n & 0xff) << (8 * b);
        }
        return Val::i(Lin(Q((i128)v)));
    }
    ok = false;
    return Val::undef();
}

Val Engine::extractBytes(State& s, const Val& v, unsigned vsize, int64_t off, unsigned size) {
    if (off == 0 && size == vsize) return v;
    if (v.k == Val::Blob) {
        Val r;
        r.k = Val::Blob;
        r.pieces = std::make_shared<std::vector<Piece>>();
        for (auto& p : *v.pieces) {
            int64_t a = std::max<int64_t>(p.off, off), b = std::min<int64_t>(p.off + p.size, off + size);
            if (a < b) r.pieces->push_back({a - off, (unsigned)(b - a), extractBytes(s, p.v, p.size, a - p.off, (unsigned)(b - a))});
        }
        if (r.pieces->size() == 1 && r.pieces->front().off == 0 && r.pieces->front().size == size) {
            Val q = r.pieces->front().v;
            return q;
        }
        return r;
    }
    if (v.k == Val::Int) {
        Lin e = s.P().norm(v.e);
        if (e.isConst()) {
            if (e.c.sgn() == 0) return Val::i(Lin(0));
            unsigned __int128 u = (unsigned __int128)e.c.n;
            u >>= off * 8;
            if (size < 16) u &= (((unsigned __int128)1) << (size * 8)) - 1;
            return Val::i(Lin(Q((i128)u)));
        }
        if (off == 0 && size < 8 && e.allInt()) { // modulo 2^(8 size)
            const i128 m = (i128)1 << (8 * size);
            Lin low;
            low.c = Q(e.c.n % m);
            for (auto& t : e.t)
                if (t.second.n % m != 0) low.t.push_back(t);
            return Val::i(low);
        }
        if (off == 0) return Val::i(e);
        if (off > 0 && off < 8 && e.allInt()) {
            // e = low + 2^(8 off) * high with 0 <= low < 2^(8 off)
            const i128 m = (i128)1 << (8 * off);
            Lin low, high;
            i128 cl = e.c.n % m;
            if (cl < 0) cl += m;
            low.c = Q(cl);
            high.c = Q((e.c.n - cl) / m);
            for (auto& t : e.t) {
                if (t.second.n % m == 0)
                    high.t.push_back({t.first, Q(t.second.n / m)});
                else
                    low.t.push_back(t);
            }
            for (int k = 0; k <= 1; ++k) {
                if (s.P().entailsGE(low) && s.P().entailsGE(Lin(Q(m - 1)) - low)) return Val::i(high);
                low = low + Lin(Q(m));
                high = high - Lin(1);
            }
        }
    }
    if (v.isNull() && v.e.isZero()) return Val::i(Lin(0));
    if (v.k == Val::Fp && v.e.isZero()) return Val::i(Lin(0));
    return Val::undef();
}

Val Engine::coerce(State& s, const Val& v, unsigned fromSize, Type* T) {
    if (v.k == Val::Undef) return v;
    if (T->isPointerTy()) {
        if (v.k == Val::Ptr) return v;
        if (v.k == Val::Int) {
            Lin e = s.P().norm(v.e);
            if (e.isZero()) return Val::p(0, Lin(0));
            return Val::p(0, e);
        }
        if (v.k == Val::Fp && v.e.isZero()) return Val::p(0, Lin(0));
    } else if (T->isIntegerTy()) {
        if (v.k == Val::Int || v.k == Val::Ptr) {
            if (v.isNull()) return Val::i(v.e);
            return v;
        }
        if (v.k == Val::Fp) {
            if (v.e.isZero()) return Val::i(Lin(0));
            // bits of a floating-point value: keep as a blob so that it can be read back
            Val r;
            r.k = Val::Blob;
            r.pieces = std::make_shared<std::vector<Piece>>();
            r.pieces->push_back({0, fromSize, v});
            return r;
        }
    } else if (T->isFloatingPointTy()) {
        if (v.k == Val::Fp) return v;
        if (v.k == Val::Int && s.P().norm(v.e).isZero()) return Val::f(Lin(0));
    } else if (T->isVectorTy()) {
        if (v.k == Val::Blob) return v;
        Val r;
        r.k = Val::Blob;
        r.pieces = std::make_shared<std::vector<Piece>>();
        r.pieces->push_back({0, fromSize, v});
        return r;
    } else if (T->isStructTy() || T->isArrayTy()) {
        if (v.k == Val::Agg) return v;
        // decompose
        Val r;
        r.k = Val::Agg;
        r.agg = std::make_shared<std::vector<Val>>();
        unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) {
            Type* ET = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
            int64_t o = T->isStructTy()
                            ? (int64_t)DL.getStructLayout(cast<StructType>(T))->getElementOffset(i).getFixedValue()
                            : (int64_t)(i * DL.getTypeAllocSize(ET).getFixedValue());
            Val x = extractBytes(s, v, fromSize, o, tsize(ET));
            r.agg->push_back(coerce(s, x, tsize(ET), ET));
        }
        return r;
    }
    if (v.k == Val::Blob) {
        if (v.pieces->size() == 1 && v.pieces->front().off == 0) {
            auto& p = v.pieces->front();
            if (p.size == fromSize || p.v.k == Val::Int) return coerce(s, p.v, p.size, T);
        }
        // integer assembled from integer pieces
        if (T->isIntegerTy()) {
            Lin sum;
            int64_t cov = 0;
            bool good = true;
            for (auto& p : *v.pieces) {
                if (p.off != cov || p.v.k != Val::Int) {
                    good = false;
                    break;
                }
                auto nu = normU(s, p.v.e, p.size * 8);
                if (nu.size() != 1) {
                    good = false;
                    break;
                }
                s = nu[0].first;
                sum = sum + nu[0].second.scaled(pow2((unsigned)p.off * 8));
                cov += p.size;
            }
            if (good && cov == (int64_t)fromSize) return Val::i(sum);
            return v; // opaque bits, can be stored back
        }
        return Val::undef();
    }
    return Val::undef();
}

void Engine::flush(Region& R) {
    if (R.top.empty()) return;
    for (auto& c : R.top) {
        auto n = std::make_shared<Node>();
        n->k = Node::Store;
        n->next = R.log;
        n->off = Lin(Q((i128)c.first));
        n->size = c.second.size;
        n->v = c.second.v;
        n->depth = R.log ? R.log->depth + 1 : 1;
        R.log = n;
    }
    R.top.clear();
}
void Engine::eraseTop(State& s, Region& R, int64_t off, int64_t len) {
    std::vector<std::pair<int64_t, Cell>> add;
    auto it = R.top.lower_bound(off);
    if (it != R.top.begin()) {
        auto pv = std::prev(it);
        if (pv->first + (int64_t)pv->second.size > off) it = pv;
    }
    while (it != R.top.end() && it->first < off + len) {
        int64_t a = it->first, b = a + it->second.size;
        if (b <= off) {
            ++it;
            continue;
        }
        if (a < off) add.push_back({a, {(unsigned)(off - a), extractBytes(s, it->second.v, it->second.size, 0, (unsigned)(off - a))}});
        if (b > off + len)
            add.push_back({off + len, {(unsigned)(b - off - len), extractBytes(s, it->second.v, it->second.size, off + len - a, (unsigned)(b - off - len))}});
        it = R.top.erase(it);
    }
    for (auto& x : add) R.top[x.first] = x.second;
}
static void putTop(Region& R, int64_t off, unsigned size, const Val& v) {
    if (v.k == Val::Blob) {
        int64_t cov = 0;
        for (auto& p : *v.pieces) {
            if (p.off > cov) R.top[off + cov] = {(unsigned)(p.off - cov), Val::undef()};
            putTop(R, off + p.off, p.size, p.v);
            cov = p.off + p.size;
        }
        if (cov < (int64_t)size) R.top[off + cov] = {(unsigned)(size - cov), Val::undef()};
        return;
    }
    R.top[off] = {size, v};
}
void Engine::write(State& s, int rid, const Lin& off0, unsigned size, const Val& v) {
    Region& R = s.R(rid);
    Lin off = s.P().norm(off0);
    if (off.isConst()) {
        int64_t o = (int64_t)off.c.n;
        eraseTop(s, R, o, size);
        putTop(R, o, size, v);
        return;
    }
    flush(R);
    auto n = std::make_shared<Node>();
    n->k = Node::Store;
    n->next = R.log;
    n->off = off;
    n->size = size;
    n->v = v;
    n->depth = R.log ? R.log->depth + 1 : 1;
    R.log = n;
}

Engine::SVs Engine::read(const State& s0, int rid, const Lin& off0, unsigned size, Type* T) {
    SVs out;
    State s = s0;
    const Region* R = s.getR(rid);
    Lin off = s.P().norm(off0);
    if (off.isConst()) {
        int64_t o = (int64_t)off.c.n;
        auto it = R->top.find(o);
        if (it != R->top.end() && it->second.size == size) {
            Val v = coerce(s, it->second.v, size, T);
            out.push_back({std::move(s), v});
            return out;
        }
        // overlapping cells?
        auto jt = R->top.lower_bound(o);
        if (jt != R->top.begin()) {
            auto pv = std::prev(jt);
            if (pv->first + (int64_t)pv->second.size > o) jt = pv;
        }
        std::vector<Piece> ps;
        int64_t cov = o;
        bool full = true, any = false;
        for (; jt != R->top.end() && jt->first < o + (int64_t)size; ++jt) {
            int64_t a = std::max<int64_t>(jt->first, o), b = std::min<int64_t>(jt->first + jt->second.size, o + size);
            if (a >= b) continue;
            any = true;
            if (a > cov) full = false;
            ps.push_back({a - o, (unsigned)(b - a), extractBytes(s, jt->second.v, jt->second.size, a - jt->first, (unsigned)(b - a))});
            cov = b;
        }
        if (cov < o + (int64_t)size) full = false;
        if (any) {
            if (!full && !(R->log->k == Node::Base && R->log->b == Node::UndefB)) {
                // mixed: read the gaps bytewise as unknown
            }
            if (!full && ps.size() == 1 && R->log->k == Node::Base && R->log->b == Node::UndefB && T->isIntegerTy()) {
                Val bl;
                bl.k = Val::Blob;
                bl.pieces = std::make_shared<std::vector<Piece>>(ps);
                out.push_back({std::move(s), bl});
                return out;
            }
            Val bl;
            bl.k = Val::Blob;
            bl.pieces = std::make_shared<std::vector<Piece>>(ps);
            if (ps.size() == 1 && ps[0].off == 0 && ps[0].size == size) bl = ps[0].v;
            Val v = coerce(s, bl, size, T);
            if (T->isIntegerTy() && v.k == Val::Undef) v = bl;
            out.push_back({std::move(s), v});
            return out;
        }
    }
    LogP l = R->log;
    if (!off.isConst() && !R->top.empty()) {
        Region tmp = *R;
        flush(tmp);
        l = tmp.log;
    }
    readLog(std::move(s), l, off, size, T, out);
    return out;
}

void Engine::readLog(State s, LogP n, const Lin& off0, unsigned size, Type* T, SVs& out) {
    tick();
    Lin off = s.P().norm(off0);
    for (;;) {
        switch (n->k) {
        case Node::Base: {
            if (n->b == Node::Zero) {
                out.push_back({std::move(s), zeroOf(T)});
                return;
            }
            if (n->b == Node::Init) {
                if (off.isConst()) {
                    bool ok = true;
                    Val v = readConst(s, n->init, (int64_t)off.c.n, size, T, ok);
                    if (!ok) v = freshOf(s, T, "init");
                    out.push_back({std::move(s), v});
                    return;
                }
                // symbolic index into a constant table: the value lies in the table's range
                if (T->isIntegerTy()) {
                    auto* AT = dyn_cast<ArrayType>(n->init->getType());
                    if (AT && AT->getElementType() == T) {
                        Q lo, hi;
                        bool first = true, good = true;
                        for (unsigned i = 0; i < AT->getNumElements() && good; ++i) {
                            auto* ci = dyn_cast_or_null<ConstantInt>(n->init->getAggregateElement(i));
                            if (!ci) {
                                good = false;
                                break;
                            }
                            Q q((i128)ci->getSExtValue());
                            if (first || q < lo) lo = q;
                            if (first || hi < q) hi = q;
                            first = false;
                        }
                        if (good && !first) {
                            // functional in the offset
                            Sym y = ufSym("tab" + std::to_string(n->baseId) + "@" + off.key(), false, "table");
                            Lin l = Lin::var(y);
                            s.Pm().addGE(l - Lin(lo));
                            s.Pm().addGE(Lin(hi) - l);
                            out.push_back({std::move(s), Val::i(l)});
                            return;
                        }
                    }
                }
                Val v = freshOf(s, T, "init");
                out.push_back({std::move(s), v});
                return;
            }
            if (n->b == Node::UndefB) {
                out.push_back({std::move(s), Val::undef()});
                return;
            }
            // Unknown: consistent lazily-created contents
            auto it = s.lazy.find(n->baseId);
            if (it != s.lazy.end()) {
                auto cells = it->second;
                for (auto& c : *cells) {
                    if (c.size != size) continue;
                    Lin d = s.P().norm(off - c.off);
                    if (d.isZero()) {
                        Val v = coerce(s, c.v, size, T);
                        out.push_back({std::move(s), v});
                        return;
                    }
                    if (s.P().entailsNE(d)) continue;
                    std::vector<State> eq, nq;
                    splitEQ(s, d, eq, nq);
                    for (auto& e : eq) {
                        Val v = coerce(e, c.v, size, T);
                        out.push_back({std::move(e), v});
                    }
                    if (nq.empty()) return;
                    s = std::move(nq[0]);
                }
            }
            Val v = freshOf(s, T, "mem");
            s.L(n->baseId).push_back({off, size, v});
            out.push_back({std::move(s), v});
            return;
        }
        case Node::Store: {
            Lin d = s.P().norm(off - n->off);
            if (d.isConst()) {
                i128 k = d.c.n;
                if (k == 0 && n->size == size) {
                    Val v = coerce(s, n->v, size, T);
                    out.push_back({std::move(s), v});
                    return;
                }
                if (k >= (i128)n->size || k + (i128)size <= 0) {
                    n = n->next;
                    continue;
                }
                if (k >= 0 && k + size <= n->size) {
                    Val x = extractBytes(s, n->v, n->size, (int64_t)k, size);
                    Val v = coerce(s, x, size, T);
                    out.push_back({std::move(s), v});
                    return;
                }
                out.push_back({s, freshOf(s, T, "overlap")});
                return;
            }
            bool stride = n->size == size && d.intSyms();
            if (stride) {
                for (auto& p : d.t)
                    if (!(p.second / Q((long)size)).isInt()) stride = false;
                if (!(d.c / Q((long)size)).isInt()) stride = false;
            }
            if (stride) {
                Lin q = d.scaled(Q(1, (i128)size));
                if (s.P().entailsNE(q)) {
                    n = n->next;
                    continue;
                }
                std::vector<State> eq, nq;
                splitEQ(s, q, eq, nq);
                for (auto& e : eq) {
                    Val v = coerce(e, n->v, size, T);
                    out.push_back({std::move(e), v});
                }
                if (nq.empty()) return;
                s = std::move(nq[0]);
                n = n->next;
                continue;
            }
            // general: before / after / overlapping
            std::vector<State> aft, rest, bef, mid;
            split(s, d - Lin(Q((long)n->size)), false, aft, rest);
            for (auto& a : aft) readLog(std::move(a), n->next, off, size, T, out);
            for (auto& r : rest) split(r, -d - Lin(Q((long)size)), false, bef, mid);
            for (auto& b : bef) readLog(std::move(b), n->next, off, size, T, out);
            for (auto& m : mid) {
                std::vector<State> eq, nq;
                if (n->size == size)
                    splitEQ(m, d, eq, nq);
                else
                    nq.push_back(m);
                for (auto& e : eq) {
                    Val v = coerce(e, n->v, size, T);
                    out.push_back({std::move(e), v});
                }
                for (auto& x : nq) {
                    Val v = freshOf(x, T, "overlap");
                    out.push_back({std::move(x), v});
                }
            }
            return;
        }
        case Node::Fill:
        case Node::Copy: {
            std::vector<State> bef, r1, aft, r2, in, r3;
            split(s, n->off - off - Lin(Q((long)size)), false, bef, r1);
            for (auto& b : bef) readLog(std::move(b), n->next, off, size, T, out);
            for (auto& r : r1) split(r, off - n->off - n->len, false, aft, r2);
            for (auto& a : aft) readLog(std::move(a), n->next, off, size, T, out);
            for (auto& r : r2) {
                std::vector<State> ge, lt;
                split(r, off - n->off, false, ge, lt);
                for (auto& g : ge) split(g, n->off + n->len - off - Lin(Q((long)size)), false, in, r3);
                for (auto& l : lt) r3.push_back(std::move(l));
            }
            for (auto& x : in) {
                if (n->k == Node::Fill) {
                    Val v;
                    if (n->byte.k == Val::Int && n->byte.e.isConst()) {
                        uint64_t b = (uint64_t)n->byte.e.c.n & 0xff, w = 0;
                        for (unsigned i = 0; i < size && i < 8; ++i) w |= b << (8 * i);
                        v = coerce(x, Val::i(Lin(Q((i128)w))), size, T);
                        if (w == 0) v = zeroOf(T);
                    } else if (size == 1)
                        v = n->byte;
                    else
                        v = freshOf(x, T, "fill");
                    out.push_back({std::move(x), v});
                } else
                    readLog(std::move(x), n->src, off - n->off + n->srcOff, size, T, out);
            }
            for (auto& x : r3) {
                Val v = freshOf(x, T, "partial");
                out.push_back({std::move(x), v});
            }
            return;
        }
        }
    }
}

void Engine::memCopy(State& s, int dr, const Lin& doff0, int sr, const Lin& soff0, const Lin& len0) {
    Lin doff = s.P().norm(doff0), soff = s.P().norm(soff0), len = s.P().norm(len0);
    if (len.isZero()) return;
    if (dr == sr && doff == soff) return;
    if (doff.isConst() && soff.isConst() && len.isConst()) {
        const Region* S = s.getR(sr);
        const Region* D = s.getR(dr);
        int64_t so = (int64_t)soff.c.n, d = (int64_t)doff.c.n, l = (int64_t)len.c.n;
        std::vector<Piece> ps;
        int64_t cov = so;
        bool full = true;
        auto jt = S->top.lower_bound(so);
        if (jt != S->top.begin()) {
            auto pv = std::prev(jt);
            if (pv->first + (int64_t)pv->second.size > so) jt = pv;
        }
        for (; jt != S->top.end() && jt->first < so + l; ++jt) {
            int64_t a = std::max(jt->first, so), b = std::min<int64_t>(jt->first + jt->second.size, so + l);
            if (a >= b) continue;
            if (a > cov) full = false;
            ps.push_back({a - so, (unsigned)(b - a), extractBytes(s, jt->second.v, jt->second.size, a - jt->first, (unsigned)(b - a))});
            cov = b;
        }
        if (cov < so + l) full = false;
        auto plainUndef = [](const Region* R) { return R->log && R->log->k == Node::Base && R->log->b == Node::UndefB; };
        if (full || (plainUndef(S) && plainUndef(D))) {
            Region& R = s.R(dr);
            eraseTop(s, R, d, l);
            for (auto& p : ps) putTop(R, d + p.off, p.size, p.v);
            return;
        }
        if (S->log && S->log->k == Node::Base && (S->log->b == Node::Init || S->log->b == Node::Zero) && l <= 512) {
            // what no cell holds is still as it was initialised
            const LogP base = S->log;
            Region& R = s.R(dr);
            if (base->b == Node::Zero) {
                eraseTop(s, R, d, l);
                int64_t at = 0;
                for (auto& p : ps) {
                    if (p.off > at) R.top[d + at] = {(unsigned)(p.off - at), Val::i(Lin(0))};
                    at = p.off + p.size;
                }
                if (at < l) R.top[d + at] = {(unsigned)(l - at), Val::i(Lin(0))};
                for (auto& p : ps) putTop(s.R(dr), d + p.off, p.size, p.v);
                return;
            }
            // enumerate scalar leaves of the initializer
            std::vector<std::tuple<int64_t, Type*, const Constant*>> leaves;
            std::function<void(const Constant*, int64_t)> walk = [&](const Constant* C, int64_t o) {
                Type* T = C->getType();
                if (T->isStructTy()) {
                    auto* L = DL.getStructLayout(cast<StructType>(T));
                    for (unsigned i = 0; i < T->getStructNumElements(); ++i)
                        walk(C->getAggregateElement(i), o + (int64_t)L->getElementOffset(i).getFixedValue());
                } else if (T->isArrayTy()) {
                    uint64_t es = DL.getTypeAllocSize(T->getArrayElementType()).getFixedValue();
                    for (unsigned i = 0; i < T->getArrayNumElements(); ++i)
                        walk(C->getAggregateElement(i), o + (int64_t)(i * es));
                } else
                    leaves.push_back({o, T, C});
            };
            walk(base->init, 0);
            eraseTop(s, R, d, l);
            for (auto& lf : leaves) {
                int64_t o = std::get<0>(lf);
                unsigned sz = tsize(std::get<1>(lf));
                bool over = false; // (partly) replaced by a cell
                for (auto& p : ps) over = over || (p.off < o - so + (int64_t)sz && o - so < p.off + (int64_t)p.size);
                if (over) {
                    const bool all = std::any_of(ps.begin(), ps.end(), [&](const Piece& p) { return p.off <= o - so && o - so + (int64_t)sz <= p.off + (int64_t)p.size; });
                    if (all) continue;
                }
                if (o >= so && o + sz <= so + l) putTop(s.R(dr), d + o - so, sz, constVal(s, std::get<2>(lf)));
            }
            for (auto& p : ps) {
                eraseTop(s, s.R(dr), d + p.off, p.size);
                putTop(s.R(dr), d + p.off, p.size, p.v);
            }
            return;
        }
    }
    {
        Region& S = s.R(sr);
        flush(S);
    }
    LogP src = s.getR(sr)->log;
    Region& R = s.R(dr);
    flush(R);
    auto n = std::make_shared<Node>();
    n->k = Node::Copy;
    n->next = R.log;
    n->off = doff;
    n->len = len;
    n->src = src;
    n->srcOff = soff;
    n->depth = R.log->depth + 1;
    R.log = n;
}
void Engine::memFill(State& s, int r, const Lin& off0, const Lin& len0, const Val& byte) {
    Lin off = s.P().norm(off0), len = s.P().norm(len0);
    if (len.isZero()) return;
    Region& R = s.R(r);
    Val b = byte;
    if (b.k == Val::Int) b.e = s.P().norm(b.e);
    if (off.isConst() && len.isConst() && b.k == Val::Int && b.e.isConst()) {
        int64_t o = (int64_t)off.c.n, l = (int64_t)len.c.n;
        uint64_t x = (uint64_t)b.e.c.n & 0xff;
        if (x == 0) {
            eraseTop(s, R, o, l);
            R.top[o] = {(unsigned)l, Val::i(Lin(0))};
            return;
        }
        if (l <= 8) {
            uint64_t w = 0;
            for (int64_t i = 0; i < l; ++i) w |= x << (8 * i);
            eraseTop(s, R, o, l);
            R.top[o] = {(unsigned)l, Val::i(Lin(Q((i128)w)))};
            return;
        }
    }
    flush(R);
    auto n = std::make_shared<Node>();
    n->k = Node::Fill;
    n->next = R.log;
    n->off = off;
    n->len = len;
    n->byte = b;
    n->depth = R.log->depth + 1;
    R.log = n;
}

// bounds / liveness obligation
std::vector<std::pair<State, Lin>> Engine::access(const State& s, const Val& p, const Lin& size, const Instruction* I,
                                                  const char* what, bool wr) {
    std::vector<std::pair<State, Lin>> out;
    std::string w(what);
    if (p.k != Val::Ptr) {
        alarm(s, I, "wild-pointer", w + " through a pointer of unknown or uninitialised value");
        return out;
    }
    if (p.region == 0) {
        if (s.P().norm(size).isZero()) {
            out.push_back({s, p.e});
            return out;
        }
        alarm(s, I, "null-dereference", w + " through a null pointer");
        return out;
    }
    const Region* R = s.getR(p.region);
    if (!R) {
        alarm(s, I, "dangling", w + " through a pointer to a dead object");
        return out;
    }
    if (R->kind == Region::Func) {
        alarm(s, I, "wild-pointer", w + " through a function pointer");
        return out;
    }
    if (R->freed) {
        alarm(s, I, "use-after-free",
              w + (R->kind == Region::Heap ? " of memory already released (" : " of an object whose lifetime ended (") +
                  R->name + ")");
        return out;
    }
    if (wr && R->constant) {
        alarm(s, I, "write-to-constant", w + " to constant " + R->name);
        return out;
    }
    auto offs = normS(s, p.e, 64);
    bool bad = false;
    for (auto& so : offs) {
        State& t = so.first;
        Lin off = so.second;
        bool lo = t.P().entailsGE(off);
        bool hi = t.P().entailsGE(R->size - off - size);
        if (lo && hi) {
            if (!suppress && I) sink().memOk[I]++;
            out.push_back({std::move(t), off});
            continue;
        }
        // a zero-length block access is harmless
        if (t.P().norm(size).isZero()) {
            out.push_back({std::move(t), off});
            continue;
        }
        Lin sz = t.P().norm(size);
        if (!sz.isConst() && !t.P().entailsGE(sz - Lin(1))) {
            std::vector<State> z, nz;
            splitEQ(t, sz, z, nz);
            for (auto& x : z) out.push_back({std::move(x), off});
            bool allok = true;
            for (auto& x : nz) {
                if (x.P().entailsGE(off) && x.P().entailsGE(R->size - off - size))
                    out.push_back({std::move(x), off});
                else
                    allok = false;
            }
            if (allok) continue;
        }
        bad = true;
        if (verbose && !suppress) {
            errs() << "OOB " << w << " region " << R->name << " size " << R->size.str() << " off " << off.str() << " len "
                   << size.str() << "\n  P: " << t.P().str() << "\n";
        }
        alarm(t, I, "out-of-bounds", w + " outside the bounds of " + R->name);
        // continue with the in-bounds part
        State u = std::move(t);
        u.Pm().addGE(off);
        if (!u.P().bottom) u.Pm().addGE(R->size - off - size);
        if (!u.P().bottom && u.Pm().feasible()) out.push_back({std::move(u), off});
    }
    (void)bad;
    return out;
}

std::set<int> Engine::reachable(const State& s, const std::vector<int>& roots) {
    std::set<int> seen;
    std::vector<int> st(roots.begin(), roots.end());
    std::set<const Node*> seenN;
    std::function<void(const Val&)> visit = [&](const Val& v) {
        if (v.k == Val::Ptr && v.region)
            st.push_back(v.region);
        else if (v.k == Val::Agg)
            for (auto& x : *v.agg) visit(x);
        else if (v.k == Val::Blob)
            for (auto& x : *v.pieces) visit(x.v);
    };
    while (!st.empty()) {
        int r = st.back();
        st.pop_back();
        if (!seen.insert(r).second) continue;
        const Region* R = s.getR(r);
        if (!R) continue;
        for (auto& c : R->top) visit(c.second.v);
        std::vector<LogP> ns{R->log};
        while (!ns.empty()) {
            LogP n = ns.back();
            ns.pop_back();
            while (n) {
                if (!seenN.insert(n.get()).second) break;
                if (n->k == Node::Store) visit(n->v);
                if (n->k == Node::Copy) ns.push_back(n->src);
                if (n->k == Node::Base && n->b == Node::Unknown) {
                    auto it = s.lazy.find(n->baseId);
                    if (it != s.lazy.end())
                        for (auto& c : *it->second) visit(c.v);
                }
                n = n->next;
            }
        }
    }
    return seen;
}
