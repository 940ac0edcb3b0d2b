#include "absint.hpp"
bool fpExactConst(const Q& q, llvm::Type* T);
#include <cmath>
#include <functional>
#include "llvm/Support/raw_ostream.h"

static std::string cstr(Engine& E, State& s, const Val& v) {
    if (v.k != Val::Ptr || !v.region || !v.e.isConst()) return "?";
    const Region* R = s.getR(v.region);
    if (!R || !R->log || R->log->k != Node::Base || R->log->b != Node::Init) return "?";
    if (auto* D = dyn_cast<ConstantDataSequential>(R->log->init))
        if (D->isString() || D->isCString()) {
            std::string t = D->getAsString().str();
            int64_t o = (int64_t)v.e.c.n;
            if (o < 0 || o > (int64_t)t.size()) return "?";
            t = t.substr(o);
            auto z = t.find('\0');
            if (z != std::string::npos) t.resize(z);
            return t;
        }
    return "?";
}

static void one(std::vector<Outcome>& outs, State s, Val v = Val::undef()) {
    Outcome o;
    o.s = std::move(s);
    o.v = v;
    outs.push_back(std::move(o));
}

// one outcome per state
#define MODEL(n) models[n] = [this](Path & p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) -> bool

void Engine::runGlobalCtors(State& s) {
    auto* G = M.getGlobalVariable("llvm.global_ctors");
    if (!G || !G->hasInitializer()) return;
    auto* A = dyn_cast<ConstantArray>(G->getInitializer());
    if (!A) return;
    std::vector<std::pair<int, Function*>> fs;
    for (auto& o : A->operands()) {
        auto* S = dyn_cast<ConstantStruct>(o);
        if (!S) continue;
        auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts());
        if (F) fs.push_back({(int)cast<ConstantInt>(S->getOperand(0))->getSExtValue(), F});
    }
    std::stable_sort(fs.begin(), fs.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& f : fs) {
        auto r = exec(f.second, {}, s);
        if (r.size() != 1) {
            if (r.empty()) throw Abort{"static initialiser does not return"};
        }
        s = std::move(r[0].s);
    }
}

void Engine::leakScan(State& s, const Instruction* I, const std::vector<Val>& roots) {
    for (auto& r : s.mem)
        if (r.second->kind == Region::Heap && !r.second->freed)
            alarm(s, dyn_cast_or_null<Instruction>(r.second->site) ? cast<Instruction>(r.second->site) : I, "leak",
                  "memory was never released (" + r.second->name + ")");
}

// strtol of a text that starts with digits only (no sign, no space), character by character; false if that is not known
bool Engine::parseDecimal(Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
    Type* T8 = Type::getInt8Ty(M.getContext());
    struct At {
        State s;
        Lin v;
        bool over;
    };
    std::vector<At> cur{{p.s, Lin(0), false}};
    std::vector<Outcome> res;
    auto in = [&](const State& s, const Val& b, int lo, int hi) { // states where lo <= b <= hi, and the others
        std::pair<std::vector<State>, std::vector<State>> r;
        for (auto& x : cmp(s, CmpInst::ICMP_SGE, b, Val::i(Lin(lo)), T8, &C))
            if (!x.second.e.c.sgn()) r.second.push_back(std::move(x.first));
            else
                for (auto& y : cmp(x.first, CmpInst::ICMP_SLE, b, Val::i(Lin(hi)), T8, &C))
                    (y.second.e.c.sgn() ? r.first : r.second).push_back(std::move(y.first));
        return r;
    };
    const Lin big(Q((i128)INT64_MAX));
    for (int i = 0; i < 40 && !cur.empty(); ++i) {
        std::vector<At> nx;
        for (auto& at : cur) {
            if (!at.s.P().entailsGE(at.s.getR(a[0].region)->size - a[0].e - Lin(Q((i128)i + 1)))) return false;
            for (auto& b : read(at.s, a[0].region, a[0].e + Lin(Q((i128)i)), 1, T8)) {
                if (b.second.k != Val::Int) return false;
                auto d = in(b.first, b.second, '0', '9');
                for (auto& st : d.first)
                    for (auto& x : normS(st, b.second.e, 8)) {
                        Lin v = at.v.scaled(Q(10)) + x.second - Lin(48);
                        bool over = at.over;
                        if (!over && i >= 18) {
                            if (x.first.P().entailsGE(v - big - Lin(1))) over = true;
                            else if (!x.first.P().entailsGE(big - v)) return false;
                        }
                        nx.push_back({std::move(x.first), v, over});
                    }
                for (auto& st : d.second) {
                    if (i == 0) { // white space or a sign may precede a number
                        for (int c : {' ', '\t', '\n', '\v', '\f', '\r', '+', '-'})
                            if (!in(st, b.second, c, c).first.empty()) return false;
                    }
                    State t = std::move(st);
                    if (a[1].k == Val::Ptr && a[1].region) write(t, a[1].region, a[1].e, 8, Val::p(a[0].region, a[0].e + Lin(Q((i128)i))));
                    auto* G = M.getGlobalVariable("vf_errno_storage");
                    if (at.over && G) write(t, globalRegion(t, G), Lin(0), 4, Val::i(Lin(34)));
                    one(res, std::move(t), Val::i(at.over ? big : at.v));
                }
            }
        }
        cur = std::move(nx);
        if (cur.size() > 4096) return false;
    }
    if (!cur.empty()) return false;
    for (auto& o : res) outs.push_back(std::move(o));
    return true;
}

// Output of a printf-style format whose text, strings and integers are known or symbolic integers: all possible character
// sequences. An integer is spelled with one unknown per digit, tied to the value by value = sum of digit * 10^position.
bool Engine::formatExact(const State& s0, const std::string& f, const std::vector<Val>& args, const CallBase& C,
                         std::vector<std::pair<State, std::vector<Lin>>>& out) {
    std::vector<std::pair<State, std::vector<Lin>>> cur{{s0, {}}};
    size_t arg = 0;
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') {
            for (auto& c : cur) c.second.push_back(Lin(Q((i128)(signed char)f[i])));
            continue;
        }
        if (++i >= f.size()) return false;
        if (f[i] == '%') {
            for (auto& c : cur) c.second.push_back(Lin(Q((i128)'%')));
            continue;
        }
        bool longer = false;
        const bool zeros = f[i] == '0';
        int width = 0;
        while (i < f.size() && f[i] >= '0' && f[i] <= '9') width = width * 10 + (f[i++] - '0');
        if (width > 64) return false;
        while (i < f.size() && (f[i] == 'l' || f[i] == 'z' || f[i] == 'j')) {
            longer = true;
            ++i;
        }
        if (i >= f.size() || arg >= args.size()) return false;
        const Val& v = args[arg++];
        std::vector<std::pair<State, std::vector<Lin>>> nx;
        if (f[i] == 's') {
            if (v.k != Val::Ptr || !v.region) return false;
            if (width) return false;
            Type* T8 = Type::getInt8Ty(M.getContext());
            for (auto& c : cur) {
                std::string str = cstr(*this, c.first, v);
                if (str != "?") {
                    for (char x : str) c.second.push_back(Lin(Q((i128)(signed char)x)));
                    nx.push_back(std::move(c));
                    continue;
                }
                // character by character
                std::vector<std::pair<State, std::vector<Lin>>> open{std::move(c)};
                for (int k = 0; !open.empty(); ++k) {
                    if (k > 64) return false;
                    std::vector<std::pair<State, std::vector<Lin>>> more;
                    for (auto& o : open) {
                        const Region* R = o.first.getR(v.region);
                        if (!R || R->freed || !o.first.P().entailsGE(R->size - v.e - Lin(Q((i128)k + 1)))) return false;
                        for (auto& b : read(o.first, v.region, v.e + Lin(Q((i128)k)), 1, T8)) {
                            if (b.second.k != Val::Int) return false;
                            for (auto& z : cmp(b.first, CmpInst::ICMP_EQ, b.second, Val::i(Lin(0)), T8, &C)) {
                                auto text = o.second;
                                if (z.second.e.c.sgn()) {
                                    nx.push_back({std::move(z.first), std::move(text)});
                                    continue;
                                }
                                text.push_back(b.second.e);
                                more.push_back({std::move(z.first), std::move(text)});
                            }
                        }
                    }
                    open = std::move(more);
                    if (open.size() + nx.size() > 512) return false;
                }
            }
            cur = std::move(nx);
            continue;
        }
        if (f[i] == 'c') {
            if (v.k != Val::Int || width) return false;
            for (auto& c : cur) c.second.push_back(v.e);
            continue;
        }
        const bool sg = f[i] == 'd' || f[i] == 'i';
        if (!sg && f[i] != 'u') return false;
        if (v.k != Val::Int) return false;
        for (auto& c : cur) {
            auto ns = sg ? normS(c.first, v.e, longer ? 64 : 32) : normU(c.first, v.e, longer ? 64 : 32);
            for (auto& n : ns) {
                std::vector<std::pair<State, bool>> signs;
                if (sg) {
                    State neg = n.first;
                    neg.Pm().addGE(-n.second - Lin(1));
                    if (!neg.P().bottom) signs.push_back({std::move(neg), true});
                }
                State pos = n.first;
                pos.Pm().addGE(n.second);
                if (!pos.P().bottom) signs.push_back({std::move(pos), false});
                for (auto& si : signs) {
                    const Lin mag = si.second ? -n.second : n.second;
                    i128 lo = 0, hi = 9;
                    for (int digits = 1; digits <= 20; ++digits) {
                        State t = si.first;
                        t.Pm().addGE(mag - Lin(Q(lo)));
                        t.Pm().addGE(Lin(Q(hi)) - mag);
                        lo = hi + 1;
                        hi = hi * 10 + 9;
                        if (t.P().bottom) continue;
                        std::vector<Lin> text = c.second;
                        const int shown = digits + si.second;
                        if (!zeros)
                            for (int k = shown; k < width; ++k) text.push_back(Lin(Q((i128)' ')));
                        if (si.second) text.push_back(Lin(Q((i128)'-')));
                        if (zeros)
                            for (int k = shown; k < width; ++k) text.push_back(Lin(Q((i128)'0')));
                        Lin sum(0);
                        i128 pow = 1;
                        std::vector<Lin> ds;
                        for (int k = 0; k < digits; ++k, pow *= 10) {
                            Lin d = fresh("digit");
                            t.Pm().addGE(d - Lin(k == digits - 1 && digits > 1 ? 1 : 0));
                            t.Pm().addGE(Lin(9) - d);
                            sum = lincomb(sum, Q(1), d, Q(pow));
                            ds.push_back(d);
                        }
                        t.Pm().addEQ(mag - sum);
                        if (t.P().bottom) continue;
                        for (int k = digits - 1; k >= 0; --k) text.push_back(ds[k] + Lin(48));
                        nx.push_back({std::move(t), std::move(text)});
                    }
                }
            }
        }
        cur = std::move(nx);
        if (cur.size() > 512) return false;
    }
    out = std::move(cur);
    return true;
}

void Engine::initModels() {
    // ---------------------------------------------------------------- client intrinsics
    auto nondetInt = [this](unsigned w, bool sg, const char* nm) {
        return [this, w, sg, nm](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            State s = p.s;
            ++nondet;
            Lin l = freshInt(s, w, sg, nm);
            one(outs, std::move(s), Val::i(l));
            return true;
        };
    };
    models["vf_nondet_int"] = nondetInt(32, true, "int");
    models["vf_nondet_uint"] = nondetInt(32, false, "uint");
    models["vf_nondet_long"] = nondetInt(64, true, "long");
    models["vf_nondet_size"] = nondetInt(64, false, "size");
    models["vf_nondet_u8"] = nondetInt(8, false, "byte");
    models["vf_nondet_char"] = nondetInt(8, true, "char");
    models["vf_nondet_u16"] = nondetInt(16, false, "u16");
    MODEL("vf_nondet_double") {
        ++nondet;
        one(outs, p.s, Val::f(fresh("double", true)));
        return true;
    };
    models["vf_nondet_float"] = models["vf_nondet_double"];
    auto forkBool = [this](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
        ++nondet;
        one(outs, p.s, Val::i(Lin(0)));
        one(outs, p.s, Val::i(Lin(1)));
        return true;
    };
    models["vf_nondet_bool"] = forkBool;
    models["vf_loop"] = forkBool;
    MODEL("vf_choose") {
        ++nondet;
        int n = a[0].k == Val::Int && a[0].e.isConst() ? (int)a[0].e.c.n : 0;
        for (int i = n - 1; i >= 0; --i) one(outs, p.s, Val::i(Lin(i)));
        return true;
    };
    MODEL("vf_assume") {
        auto d = decide(p.s, a[0], &C);
        for (auto& x : d)
            if (x.second.e.c.sgn()) one(outs, std::move(x.first));
        return true;
    };
    MODEL("vf_check") {
        std::string id = cstr(*this, p.s, a[1]);
        auto d = decide(p.s, a[0], &C);
        sink().reached[id]++;
        bool bad = false;
        for (auto& x : d) {
            if (x.second.e.c.sgn()) {
                one(outs, std::move(x.first));
            } else {
                if (!x.first.Pm().feasible()) continue;
                bad = true;
                alarm(x.first, &C, "check", id);
            }
        }
        if (bad)
            sink().checksBad[id]++;
        else
            sink().checksOk[id]++;
        return true;
    };
    MODEL("vf_unreachable") {
        std::string id = cstr(*this, p.s, a[0]);
        if (p.s.Pm().feasible()) {
            alarm(p.s, &C, "check", id);
            sink().checksBad[id]++;
        }
        return true;
    };
    MODEL("vf_reach") {
        sink().reached[cstr(*this, p.s, a[0])]++;
        one(outs, p.s);
        return true;
    };
    MODEL("vf_op") {
        State s = p.s;
        note(s, nullptr, "-- client: " + cstr(*this, s, a[0]));
        one(outs, std::move(s));
        return true;
    };
    MODEL("vf_key") {
        State s = p.s;
        if (a[0].k == Val::Int && a[1].k == Val::Int && a[0].e.isConst() && s.P().norm(a[1].e).isConst())
            s.keys[(int)a[0].e.c.n] = (int)s.P().norm(a[1].e).c.n;
        one(outs, std::move(s));
        return true;
    };
    MODEL("vf_term") {
        State s = p.s;
        if (a[0].k == Val::Int) s.terms.push_back(a[0].e);
        one(outs, std::move(s));
        return true;
    };
    MODEL("vf_option") {
        std::string o = cstr(*this, p.s, a[0]);
        int v = a[1].k == Val::Int && a[1].e.isConst() ? (int)a[1].e.c.n : 1;
        if (o == "leaks") leakCheck = v;
        else if (o == "uninit") uninitCheck = v;
        else if (o == "fp_exact") fpExact = v;
        else if (o == "disjuncts") maxDisj = v;
        else if (o == "unroll") unrollMax = v;
        else if (o == "split") splitMax = v;
        else if (o == "overflow") wrapCheck = v;
        else throw Abort{"unknown option " + o};
        one(outs, p.s);
        return true;
    };
    MODEL("vf_leak_check") {
        State s = p.s;
        leakScan(s, &C, {});
        sink().reached["leak check"]++;
        one(outs, std::move(s));
        return true;
    };
    MODEL("vf_unknown_bytes") {
        ++nondet;
        State s = p.s;
        auto n = normU(s, a[0].e, 64);
        for (auto& x : n) {
            int r = newRegionIn(x.first, Region::Opaque, x.second, "client buffer", &C);
            auto nd = std::make_shared<Node>();
            nd->k = Node::Base;
            nd->b = Node::Unknown;
            nd->baseId = nextBase++;
            x.first.R(r).log = nd;
            one(outs, std::move(x.first), Val::p(r, Lin(0)));
        }
        return true;
    };
    MODEL("vf_alive") {
        bool alive = false;
        if (a[0].k == Val::Ptr && a[0].region) {
            auto* R = p.s.getR(a[0].region);
            alive = R && !R->freed;
        }
        one(outs, p.s, Val::i(Lin(alive ? 1 : 0)));
        return true;
    };
    MODEL("vf_in_bounds") { // is [p, p+n) inside one live object?
        State s = p.s;
        if (a[0].k != Val::Ptr || !a[0].region || !s.getR(a[0].region) || s.getR(a[0].region)->freed) {
            bool z = a[1].k == Val::Int && s.P().norm(a[1].e).isZero();
            one(outs, std::move(s), Val::i(Lin(z ? 1 : 0)));
            return true;
        }
        auto offs = normS(s, a[0].e, 64);
        for (auto& o : offs) {
            auto ns = normU(o.first, a[1].e, 64);
            for (auto& n : ns) {
                std::vector<State> t, f, t2;
                split(n.first, o.second, false, t, f);
                for (auto& x : t) split(x, x.getR(a[0].region)->size - o.second - n.second, false, t2, f);
                for (auto& x : t2) one(outs, std::move(x), Val::i(Lin(1)));
                for (auto& x : f) one(outs, std::move(x), Val::i(Lin(0)));
            }
        }
        return true;
    };
    MODEL("vf_trace_state") {
        errs() << "[state] " << p.s.P().str() << "\n";
        for (auto& r : p.s.mem) {
            if (r.second->kind == Region::Func || r.second->kind == Region::Global) continue;
            errs() << "  R" << r.first << " " << r.second->name << " size " << p.s.P().norm(r.second->size).str() << (r.second->freed ? " FREED" : "") << "\n";
            for (auto& c : r.second->top)
                errs() << "     +" << c.first << ":" << c.second.size << " k" << (int)c.second.v.k << " r" << c.second.v.region << " "
                       << p.s.P().norm(c.second.v.e).str() << "\n";
            for (auto n = r.second->log; n; n = n->next) errs() << "     log " << (int)n->k << " b" << (int)n->b << " off " << n->off.str() << " len " << n->len.str() << "\n";
        }
        one(outs, p.s);
        return true;
    };

    // ---------------------------------------------------------------- allocation
    auto alloc = [this](int kind) {
        return [this, kind](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            State s = p.s;
            if (a[0].k != Val::Int) {
                alarm(s, &C, "alloc", "allocation of unknown size");
                return true;
            }
            auto n = normU(s, a[0].e, 64);
            for (auto& x : n) {
                // allocations beyond 2^62 bytes fail
                std::vector<State> okS, bad;
                split(x.first, Lin(pow2(62)) - x.second, false, okS, bad);
                for (auto& y : okS) {
                    std::string w = loc(&C);
                    repoSite(&C, w);
                    int r = newRegionIn(y, Region::Heap, x.second, "memory allocated at " + w, &C);
                    y.R(r).allocKind = kind;
                    one(outs, std::move(y), Val::p(r, Lin(0)));
                }
            }
            return true;
        };
    };
    models["malloc"] = alloc(1);
    models["_Znwm"] = alloc(2);
    models["_Znam"] = alloc(3);
    models["_ZnwmSt11align_val_t"] = alloc(2);
    MODEL("calloc") {
        State s = p.s;
        auto m = binop(s, Instruction::Mul, a[0], a[1], Type::getInt64Ty(M.getContext()), nullptr);
        for (auto& x : m) {
            auto n = normU(x.first, x.second.e, 64);
            for (auto& y : n) {
                int r = newRegionIn(y.first, Region::Heap, y.second, "memory allocated at " + loc(&C), &C);
                auto nd = std::make_shared<Node>();
                nd->b = Node::Zero;
                nd->baseId = nextBase++;
                y.first.R(r).log = nd;
                y.first.R(r).allocKind = 1;
                one(outs, std::move(y.first), Val::p(r, Lin(0)));
            }
        }
        return true;
    };
    auto dealloc = [this](int kind) {
        return [this, kind](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            State s = p.s;
            if (a[0].isNull()) {
                one(outs, std::move(s));
                return true;
            }
            if (a[0].k != Val::Ptr) {
                alarm(s, &C, "invalid-free", "release of a pointer of unknown value");
                one(outs, std::move(s));
                return true;
            }
            const Region* R = s.getR(a[0].region);
            if (!R || R->kind != Region::Heap) {
                alarm(s, &C, "invalid-free", "release of memory that was not allocated dynamically" + (R ? " (" + R->name + ")" : std::string()));
            } else if (R->freed)
                alarm(s, &C, "double-free", "memory released twice (" + R->name + ")");
            else if (!s.P().norm(a[0].e).isZero())
                alarm(s, &C, "invalid-free", "release of a pointer into the middle of " + R->name);
            else {
                if (R->allocKind && ((R->allocKind == 1) != (kind == 1)))
                    alarm(s, &C, "invalid-free", "memory released with the wrong deallocation function (" + R->name + ")");
                s.R(a[0].region).freed = true;
                if (!suppress) sink().memOk[&C]++;
            }
            one(outs, std::move(s));
            return true;
        };
    };
    models["free"] = dealloc(1);
    models["_ZdlPv"] = dealloc(2);
    models["_ZdlPvm"] = dealloc(2);
    models["_ZdaPv"] = dealloc(3);
    models["_ZdaPvm"] = dealloc(3);
    models["_ZdlPvmSt11align_val_t"] = dealloc(2);

    // ---------------------------------------------------------------- block memory
    auto copyModel = [this](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
        if (a[2].k != Val::Int) {
            alarm(p.s, &C, "wild-length", "block copy of unknown length");
            return true;
        }
        auto ns = normU(p.s, a[2].e, 64);
        for (auto& n : ns) {
            auto rd = access(n.first, a[1], n.second, &C, "block read", false);
            for (auto& r : rd) {
                auto wr = access(r.first, a[0], n.second, &C, "block write", true);
                for (auto& w : wr) {
                    State s = std::move(w.first);
                    const auto* callee = C.getCalledFunction();
                    if (a[0].region && a[0].region == a[1].region && callee && callee->getName().contains("memcpy")) {
                        const Lin d = w.second - r.second; // how far it is moved, less than its length, but somewhat
                        for (int up = 0; up < 2; ++up) {
                            State t = s;
                            const Lin by = up ? d : Lin(0) - d;
                            t.Pm().addGE(by - Lin(1));
                            t.Pm().addGE(n.second - Lin(1) - by);
                            if (t.P().bottom || !t.Pm().feasible()) continue;
                            alarm(t, &C, "overlap", "block copy onto itself, which must be a move");
                            break;
                        }
                    }
                    if (!s.P().norm(n.second).isZero() && a[0].region && a[1].region)
                        memCopy(s, a[0].region, w.second, a[1].region, r.second, n.second);
                    one(outs, std::move(s), a[0]);
                }
            }
        }
        return true;
    };
    models["memcpy"] = copyModel;
    models["memmove"] = copyModel;
    auto setModel = [this](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
        if (a[2].k != Val::Int) {
            alarm(p.s, &C, "wild-length", "block fill of unknown length");
            return true;
        }
        auto ns = normU(p.s, a[2].e, 64);
        for (auto& n : ns) {
            auto wr = access(n.first, a[0], n.second, &C, "block write", true);
            for (auto& w : wr) {
                State s = std::move(w.first);
                if (!s.P().norm(n.second).isZero() && a[0].region) memFill(s, a[0].region, w.second, n.second, a[1]);
                one(outs, std::move(s), a[0]);
            }
        }
        return true;
    };
    models["memset"] = setModel;
    MODEL("memcmp") {
        auto ns = normU(p.s, a[2].e, 64);
        for (auto& n : ns) {
            auto rd = access(n.first, a[1], n.second, &C, "block read", false);
            for (auto& r : rd) {
                auto rd2 = access(r.first, a[0], n.second, &C, "block read", false);
                for (auto& w : rd2) {
                    State s = std::move(w.first);
                    if (s.P().norm(n.second).isZero() || (a[0].region == a[1].region && s.P().norm(a[0].e - a[1].e).isZero())) {
                        one(outs, std::move(s), Val::i(Lin(0)));
                        continue;
                    }
                    Lin len = s.P().norm(n.second);
                    if (len.isConst() && len.c.n <= 32) {
                        // bytewise comparison
                        Type* T8 = Type::getInt8Ty(M.getContext());
                        std::vector<State> cur{std::move(s)};
                        int64_t L = (int64_t)len.c.n;
                        for (int64_t i = 0; i < L && !cur.empty(); ++i) {
                            std::vector<State> nx;
                            for (auto& st : cur) {
                                auto x = read(st, a[0].region, w.second + Lin(Q((i128)i)), 1, T8);
                                for (auto& xx : x) {
                                    auto y = read(xx.first, a[1].region, r.second + Lin(Q((i128)i)), 1, T8);
                                    for (auto& yy : y) {
                                        auto c = cmp(yy.first, CmpInst::ICMP_EQ, xx.second, yy.second, T8, &C);
                                        for (auto& cc : c) {
                                            if (cc.second.e.c.sgn())
                                                nx.push_back(std::move(cc.first));
                                            else {
                                                for (auto& lt : cmp(cc.first, CmpInst::ICMP_ULT, xx.second, yy.second, T8, &C))
                                                    one(outs, std::move(lt.first), Val::i(Lin(lt.second.e.c.sgn() ? -1 : 1)));
                                            }
                                        }
                                    }
                                }
                            }
                            cur = std::move(nx);
                        }
                        for (auto& st : cur) one(outs, std::move(st), Val::i(Lin(0)));
                        continue;
                    }
                    Lin l = freshInt(s, 32, true, "memcmp");
                    one(outs, std::move(s), Val::i(l));
                }
            }
        }
        return true;
    };
    models["bcmp"] = models["memcmp"];
    MODEL("memchr") {
        auto ns = normU(p.s, a[2].e, 64);
        for (auto& n : ns) {
            auto rd = access(n.first, a[0], n.second, &C, "block read", false);
            for (auto& r : rd) {
                State s = std::move(r.first), s2 = s;
                Lin len = s.P().norm(n.second);
                if (len.isConst() && len.c.n <= 64 && a[1].k == Val::Int) {
                    // a known set of characters: one case for each run of consecutive ones
                    if (len.c.n >= 3) {
                        std::vector<int> set;
                        Type* B8 = Type::getInt8Ty(M.getContext());
                        for (int64_t i = 0; i < (int64_t)len.c.n; ++i) {
                            State peek = s;
                            auto b = read(peek, a[0].region, r.second + Lin(Q((i128)i)), 1, B8);
                            if (b.size() != 1 || b[0].second.k != Val::Int || !s.P().norm(b[0].second.e).isConst()) break;
                            const int c = (int)(signed char)(int)s.P().norm(b[0].second.e).c.n;
                            if (std::find(set.begin(), set.end(), c) != set.end()) break;
                            set.push_back(c);
                        }
                        if ((int64_t)set.size() == (int64_t)len.c.n) {
                            std::vector<int> sorted = set;
                            std::sort(sorted.begin(), sorted.end());
                            std::vector<State> rest;
                            Lin ch;
                            bool usable = true;
                            for (auto& nd : castop(s, Instruction::Trunc, a[1], Type::getInt32Ty(M.getContext()), B8, &C))
                                for (auto& x : normS(nd.first, nd.second.e, 8)) {
                                    if (!rest.empty() && !(ch == x.second)) usable = false;
                                    ch = x.second;
                                    rest.push_back(std::move(x.first));
                                }
                            if (usable) {
                                std::vector<Outcome> hits;
                                for (size_t i = 0; i < sorted.size();) {
                                    size_t j = i + 1;
                                    while (j < sorted.size() && sorted[j] == sorted[j - 1] + 1) ++j;
                                    const int lo = sorted[i], hi = sorted[j - 1];
                                    auto pos = [&](int c) { return (int)(std::find(set.begin(), set.end(), c) - set.begin()); };
                                    bool affine = true;
                                    int least = pos(lo), most = pos(lo);
                                    for (int c = lo; c <= hi; ++c) {
                                        affine = affine && pos(c) == pos(lo) + (c - lo);
                                        least = std::min(least, pos(c));
                                        most = std::max(most, pos(c));
                                    }
                                    std::vector<State> nx;
                                    for (auto& st : rest) {
                                        State in = st, below = st, above = std::move(st);
                                        in.Pm().addGE(ch - Lin(lo));
                                        in.Pm().addGE(Lin(hi) - ch);
                                        below.Pm().addGE(Lin(lo - 1) - ch);
                                        above.Pm().addGE(ch - Lin(hi + 1));
                                        if (!below.P().bottom) nx.push_back(std::move(below));
                                        if (!above.P().bottom) nx.push_back(std::move(above));
                                        if (in.P().bottom) continue;
                                        Lin at = ch - Lin(lo - pos(lo));
                                        if (!affine) {
                                            at = freshInt(in, 32, false, "found");
                                            in.Pm().addGE(at - Lin(least));
                                            in.Pm().addGE(Lin(most) - at);
                                        }
                                        if (!in.P().bottom) one(hits, std::move(in), Val::p(a[0].region, r.second + at));
                                    }
                                    rest = std::move(nx);
                                    i = j;
                                }
                                for (auto& h : hits) outs.push_back(std::move(h));
                                for (auto& st : rest) one(outs, std::move(st), Val::p(0, Lin(0)));
                                continue;
                            }
                        }
                    }
                    // bytewise search
                    Type* T8 = Type::getInt8Ty(M.getContext());
                    Type* T32 = Type::getInt32Ty(M.getContext());
                    std::vector<State> cur{std::move(s)};
                    for (int64_t i = 0; i < (int64_t)len.c.n && !cur.empty(); ++i) {
                        std::vector<State> nx;
                        for (auto& st : cur)
                            for (auto& nd : castop(st, Instruction::Trunc, a[1], T32, T8, &C))
                                for (auto& y : read(nd.first, a[0].region, r.second + Lin(Q((i128)i)), 1, T8))
                                    for (auto& c : cmp(y.first, CmpInst::ICMP_EQ, nd.second, y.second, T8, &C)) {
                                        if (c.second.e.c.sgn())
                                            one(outs, std::move(c.first), Val::p(a[0].region, r.second + Lin(Q((i128)i))));
                                        else
                                            nx.push_back(std::move(c.first));
                                    }
                        cur = std::move(nx);
                    }
                    for (auto& st : cur) one(outs, std::move(st), Val::p(0, Lin(0)));
                    continue;
                }
                one(outs, std::move(s), Val::p(0, Lin(0)));
                if (s2.P().norm(n.second).isZero()) continue;
                Lin i = freshInt(s2, 32, false, "found");
                s2.Pm().addGE(n.second - i - Lin(1));
                if (!s2.P().bottom) one(outs, std::move(s2), Val::p(a[0].region, a[0].e + i));
            }
        }
        return true;
    };
    MODEL("strlen") {
        std::string k = cstr(*this, p.s, a[0]);
        State s = p.s;
        if (k != "?") {
            one(outs, std::move(s), Val::i(Lin(Q((long)k.size()))));
            return true;
        }
        auto acc = access(s, a[0], Lin(1), &C, "string read", false);
        for (auto& x : acc) {
            State t = std::move(x.first);
            const Region* R = t.getR(a[0].region);
            // a terminator known to lie at or after the start
            Region tmp = *R;
            flush(tmp);
            // every character decided?
            if (R->size.isConst() && x.second.isConst() && R->size.c.n <= 512) {
                Type* T8 = Type::getInt8Ty(M.getContext());
                i128 k = 0, left = R->size.c.n - x.second.c.n;
                bool exact = false;
                for (; k < left && k < 256; ++k) {
                    auto r = read(t, a[0].region, x.second + Lin(Q(k)), 1, T8);
                    if (r.size() != 1 || r[0].second.k != Val::Int) break;
                    auto z = cmp(r[0].first, CmpInst::ICMP_EQ, r[0].second, Val::i(Lin(0)), T8, &C);
                    if (z.size() != 1 || !z[0].second.e.isConst()) break;
                    if (z[0].second.e.c.sgn()) {
                        exact = true;
                        break;
                    }
                }
                if (exact) {
                    one(outs, std::move(t), Val::i(Lin(Q(k))));
                    continue;
                }
            }
            Lin bound;
            bool found = false;
            for (LogP n = tmp.log; n && !found; n = n->next) {
                if (n->k == Node::Store && n->size == 1 && n->v.k == Val::Int && t.P().norm(n->v.e).isZero() && t.P().entailsGE(n->off - x.second)) {
                    bound = n->off;
                    found = true;
                } else if (n->k == Node::Store && n->v.k == Val::Int && n->v.e.isZero() && t.P().entailsGE(n->off - x.second)) {
                    bound = n->off;
                    found = true;
                } else if (n->k == Node::Base && n->b == Node::Zero) {
                    bound = R->size - Lin(1);
                    found = true;
                }
                if (n->k == Node::Fill || n->k == Node::Copy) break;
            }
            Lin l = freshInt(t, 62, false, "strlen");
            if (!found) {
                alarm(t, &C, "unterminated", "string read may run past the end of " + R->name);
                t.Pm().addGE(R->size - x.second - l - Lin(1));
            } else
                t.Pm().addGE(bound - x.second - l);
            if (!t.P().bottom) one(outs, std::move(t), Val::i(l));
        }
        return true;
    };
    MODEL("strcmp") {
        State s = p.s;
        Lin l = freshInt(s, 32, true, "strcmp");
        one(outs, std::move(s), Val::i(l));
        return true;
    };
    models["strncmp"] = models["strcmp"];
    MODEL("strstr") {
        // texts that are known
        auto known = [&](State& s, const Val& v, std::string& t) {
            const Region* R = v.k == Val::Ptr && v.region ? s.getR(v.region) : nullptr;
            if (!R) return false;
            for (int i = 0; i < 256; ++i) {
                if (!s.P().entailsGE(R->size - v.e - Lin(Q((i128)i + 1)))) return false;
                auto b = read(s, v.region, v.e + Lin(Q((i128)i)), 1, Type::getInt8Ty(M.getContext()));
                if (b.size() != 1 || b[0].second.k != Val::Int) return false;
                s = b[0].first;
                Lin e = s.P().norm(b[0].second.e);
                if (!e.isConst()) return false;
                const char c = (char)(int)e.c.n;
                if (!c) return true;
                t += c;
            }
            return false;
        };
        {
            State s = p.s;
            std::string hay, needle;
            if (known(s, a[0], hay) && known(s, a[1], needle)) {
                const auto at = hay.find(needle);
                one(outs, std::move(s), at == std::string::npos ? Val::p(0, Lin(0)) : Val::p(a[0].region, a[0].e + Lin(Q((i128)at))));
                return true;
            }
        }
        State s = p.s, s2 = p.s;
        one(outs, std::move(s), Val::p(0, Lin(0)));
        if (a[0].k == Val::Ptr && a[0].region) {
            const Region* R = s2.getR(a[0].region);
            Lin i = freshInt(s2, 32, false, "strstr");
            s2.Pm().addGE(R->size - a[0].e - i - Lin(1));
            if (!s2.P().bottom) one(outs, std::move(s2), Val::p(a[0].region, a[0].e + i));
        }
        return true;
    };
    // formatted input of whole numbers and words
    auto scan = [this](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
        State s0 = p.s;
        const std::string f = cstr(*this, s0, a[1]);
        if (f == "?" || a[0].k != Val::Ptr || !a[0].region) return false;
        struct Cur {
            State s;
            Lin at;
            int matched = 0;
            size_t arg = 2;
        };
        bool refused = false;
        auto classify = [&](const State& s, const Lin& c, int lo, int hi, auto in, auto out) {
            State t = s;
            t.Pm().addGE(c - Lin(Q((i128)lo)));
            t.Pm().addGE(Lin(Q((i128)hi)) - c);
            if (!t.P().bottom) in(std::move(t));
            t = s;
            t.Pm().addGE(Lin(Q((i128)lo - 1)) - c);
            if (!t.P().bottom) out(std::move(t));
            t = s;
            t.Pm().addGE(c - Lin(Q((i128)hi + 1)));
            if (!t.P().bottom) out(std::move(t));
        };
        auto peek = [&](const State& s, const Lin& at, auto then) {
            Path q = p;
            q.s = s;
            for (auto& w : access(q.s, Val::p(a[0].region, at), Lin(1), &C, "text that is scanned", false))
                for (auto& b : read(w.first, a[0].region, w.second, 1, Type::getInt8Ty(M.getContext()))) {
                    Lin c = b.second.k == Val::Int ? b.second.e : freshInt(b.first, 8, true, "character");
                    for (auto& x : normS(b.first, c, 8)) then(x.first, x.second);
                }
        };
        std::function<void(Cur, std::function<void(Cur)>)> blanks = [&](Cur c, std::function<void(Cur)> then) {
            peek(c.s, c.at, [&](const State& s, const Lin& ch) {
                auto skip = [&](State t) {
                    Cur n = c;
                    n.s = std::move(t);
                    n.at = n.at + Lin(1);
                    blanks(n, then);
                };
                auto stay = [&](State t) {
                    Cur n = c;
                    n.s = std::move(t);
                    then(n);
                };
                classify(s, ch, 32, 32, skip, [&](State t) { classify(t, ch, 9, 13, skip, stay); });
            });
        };
        std::function<void(Cur, int, int, int, Lin, bool, std::function<void(Cur, Lin, bool)>)> digits =
            [&](Cur c, int base, int room, int had, Lin value, bool neg, std::function<void(Cur, Lin, bool)> then) {
                auto end = [&](State t) {
                    Cur n = c;
                    n.s = std::move(t);
                    then(n, neg ? Lin(0) - value : value, had > 0);
                };
                if (room == 0) return end(c.s);
                if (had > 9) {
                    refused = true;
                    return;
                }
                peek(c.s, c.at, [&](const State& s, const Lin& ch) {
                    classify(s, ch, '0', base == 8 ? '7' : '9', [&](State t) {
                        Cur n = c;
                        n.s = std::move(t);
                        n.at = n.at + Lin(1);
                        digits(n, base, room - 1, had + 1, value.scaled(Q((i128)base)) + ch - Lin(Q((i128)'0')), neg, then);
                    }, end);
                });
            };
        auto done = [&](Cur c, bool stopped) { (void)stopped; one(outs, std::move(c.s), Val::i(Lin(Q((i128)c.matched)))); };
        std::function<void(Cur, size_t)> go = [&](Cur c, size_t i) {
            if (i >= f.size()) return done(c, false);
            if (isspace((unsigned char)f[i])) return blanks(c, [&, i](Cur n) { go(n, i + 1); });
            if (f[i] != '%' || (i + 1 < f.size() && f[i + 1] == '%')) {
                const int want = f[i];
                const size_t next = i + (f[i] == '%' ? 2 : 1);
                return peek(c.s, c.at, [&](const State& s, const Lin& ch) {
                    classify(s, ch, want, want, [&](State t) {
                        Cur n = c;
                        n.s = std::move(t);
                        n.at = n.at + Lin(1);
                        go(n, next);
                    }, [&](State t) {
                        Cur n = c;
                        n.s = std::move(t);
                        done(n, true);
                    });
                });
            }
            size_t j = i + 1;
            int width = 0;
            while (j < f.size() && isdigit((unsigned char)f[j])) width = width * 10 + (f[j++] - '0');
            unsigned bytes = 4;
            if (f.compare(j, 2, "hh") == 0) bytes = 1, j += 2;
            else if (j < f.size() && f[j] == 'h') bytes = 2, ++j;
            else if (f.compare(j, 2, "ll") == 0) bytes = 8, j += 2;
            else if (j < f.size() && f[j] == 'l') bytes = 8, ++j;
            const char kind = j < f.size() ? f[j] : 0;
            if (c.arg >= a.size() || !strchr("dius", kind) || !kind) {
                refused = true;
                return;
            }
            const int room = width ? width : -1;
            if (kind == 's') {
                if (!width) {
                    refused = true; // nothing limits what is written
                    return;
                }
                return blanks(c, [&, j, width](Cur b) {
                    std::function<void(Cur, int)> word = [&](Cur n, int k) {
                        auto end = [&](State t) {
                            Cur m = n;
                            m.s = std::move(t);
                            if (k == 0) return done(m, true);
                            for (auto& w : access(m.s, Val::p(a[m.arg].region, a[m.arg].e + Lin(Q((i128)k))), Lin(1), &C, "word that is scanned", true)) {
                                Cur x = m;
                                x.s = w.first;
                                write(x.s, a[m.arg].region, w.second, 1, Val::i(Lin(0)));
                                ++x.matched;
                                ++x.arg;
                                go(x, j + 1);
                            }
                        };
                        if (k == width) return end(n.s);
                        peek(n.s, n.at, [&](const State& s, const Lin& ch) {
                            auto more = [&](State t) {
                                for (auto& w : access(t, Val::p(a[n.arg].region, a[n.arg].e + Lin(Q((i128)k))), Lin(1), &C, "word that is scanned", true)) {
                                    Cur x = n;
                                    x.s = w.first;
                                    write(x.s, a[n.arg].region, w.second, 1, Val::i(ch));
                                    x.at = x.at + Lin(1);
                                    word(x, k + 1);
                                }
                            };
                            classify(s, ch, 32, 32, end, [&](State t) {
                                classify(t, ch, 9, 13, end, [&](State u) { classify(u, ch, 0, 0, end, more); });
                            });
                        });
                    };
                    word(b, 0);
                });
            }
            blanks(c, [&, j, room, bytes, kind](Cur b) {
                auto store = [&, j, bytes](Cur n, Lin v, bool any) {
                    if (!any) return done(n, true);
                    for (auto& w : access(n.s, a[n.arg], Lin(Q((i128)bytes)), &C, "number that is scanned", true)) {
                        Cur x = n;
                        x.s = w.first;
                        write(x.s, a[n.arg].region, w.second, bytes, Val::i(v));
                        ++x.matched;
                        ++x.arg;
                        go(x, j + 1);
                    }
                };
                auto number = [&, kind](Cur n, int left, bool neg) {
                    if (kind != 'i') return digits(n, 10, left, 0, Lin(0), neg, store);
                    peek(n.s, n.at, [&](const State& s, const Lin& ch) { // a leading zero makes it octal, or hexadecimal
                        classify(s, ch, '0', '0', [&](State t) {
                            Cur m = n;
                            m.s = std::move(t);
                            m.at = m.at + Lin(1);
                            if (left == 1) return digits(m, 8, 0, 1, Lin(0), neg, store);
                            peek(m.s, m.at, [&](const State& s2, const Lin& c2) {
                                auto hex = [&](State) { refused = true; };
                                classify(s2, c2, 'x', 'x', hex, [&](State u) {
                                    classify(u, c2, 'X', 'X', hex, [&](State v) {
                                        Cur o = m;
                                        o.s = std::move(v);
                                        digits(o, 8, left - 1, 1, Lin(0), neg, store);
                                    });
                                });
                            });
                        }, [&](State t) {
                            Cur m = n;
                            m.s = std::move(t);
                            digits(m, 10, left, 0, Lin(0), neg, store);
                        });
                    });
                };
                peek(b.s, b.at, [&](const State& s, const Lin& ch) {
                    auto sign = [&](State t, bool neg) {
                        Cur n = b;
                        n.s = std::move(t);
                        n.at = n.at + Lin(1);
                        number(n, room - 1, neg);
                    };
                    classify(s, ch, '-', '-', [&](State t) { sign(t, true); }, [&](State t) {
                        classify(t, ch, '+', '+', [&](State u) { sign(u, false); }, [&](State u) {
                            Cur n = b;
                            n.s = std::move(u);
                            number(n, room, false);
                        });
                    });
                });
            });
        };
        Cur c{p.s, a[0].e};
        go(c, 0);
        if (refused) outs.clear();
        return !refused;
    };
    models["sscanf"] = scan;
    models["__isoc99_sscanf"] = scan;
    models["__isoc23_sscanf"] = scan;
    // what is logged is no concern of programs that do not link the logger: its arguments are evaluated and its texts read
    MODEL("_ZN3spn7logging11is_loggableENS0_8LogLevelE") {
        if (!C.getCalledFunction() || !C.getCalledFunction()->isDeclaration()) return false;
        one(outs, p.s, Val::i(Lin(1)));
        return true;
    };
    MODEL("_ZN3spn7logging6detail5printENS0_8LogLevelEPKciS4_S4_z") {
        if (!C.getCalledFunction() || !C.getCalledFunction()->isDeclaration()) return false;
        State s0 = p.s;
        const std::string f = a.size() > 4 ? cstr(*this, s0, a[4]) : "?";
        std::vector<State> ss{p.s};
        for (size_t i = 5; i < a.size(); ++i) {
            if (a[i].k != Val::Ptr || f.find("%s") == std::string::npos) continue;
            // the i-th conversion
            size_t n = 5, at = 0;
            for (; at < f.size(); ++at)
                if (f[at] == '%') {
                    if (at + 1 < f.size() && f[at + 1] == '%') {
                        ++at;
                        continue;
                    }
                    if (n++ == i) break;
                }
            if (at + 1 >= f.size() || f[at + 1] != 's') continue;
            std::vector<State> ns;
            for (auto& s : ss) {
                Path q = p;
                q.s = s;
                for (auto& w : access(q.s, a[i], Lin(1), &C, "text of a log message", false)) ns.push_back(w.first);
            }
            ss = std::move(ns);
        }
        for (auto& s : ss) one(outs, s);
        return true;
    };
    // formatted output: returns any length >= 0, writes at most `size` bytes
    auto snp = [this](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
        if (a[1].k != Val::Int) return false;
        if (C.getCalledFunction() && a.size() > 2 && p.s.P().norm(a[1].e).isConst() && a[0].k == Val::Ptr && a[0].region) {
            State s0 = p.s;
            std::vector<Val> values;
            bool known = true;
            if (C.getCalledFunction()->getName() == "snprintf")
                values.assign(a.begin() + 3, a.end());
            else {
                known = false;
                if (a.size() > 3 && a[3].k == Val::Ptr && a[3].region && s0.getR(a[3].region)) {
                    auto r = read(s0, a[3].region, a[3].e, 8, Type::getInt64Ty(M.getContext()));
                    for (auto& v : r)
                        if (v.second.k == Val::Undef) alarm(s0, &C, "uninitialised", "formats arguments that were never collected");
                    if (r.size() == 1 && r[0].second.k == Val::Int && r[0].second.e.isConst() && r[0].second.e.c.n >= 0 &&
                        r[0].second.e.c.n < (i128)vaTable.size()) {
                        values = vaTable[(size_t)r[0].second.e.c.n];
                        known = true;
                    }
                }
            }
            const std::string f = cstr(*this, s0, a[2]);
            const i128 size = p.s.P().norm(a[1].e).c.n;
            std::vector<std::pair<State, std::vector<Lin>>> texts;
            if (known && f != "?" && size > 0 && size <= 4096 && formatExact(s0, f, values, C, texts)) {
                for (auto& t : texts) {
                    const i128 put = std::min<i128>((i128)t.second.size(), size - 1);
                    for (auto& w : access(t.first, a[0], Lin(Q(put + 1)), &C, "formatted write", true)) {
                        State s = std::move(w.first);
                        for (i128 i = 0; i < put; ++i) write(s, a[0].region, w.second + Lin(Q(i)), 1, Val::i(t.second[i]));
                        write(s, a[0].region, w.second + Lin(Q(put)), 1, Val::i(Lin(0)));
                        one(outs, std::move(s), Val::i(Lin(Q((i128)t.second.size()))));
                    }
                }
                return true;
            }
        }
        auto ns = normU(p.s, a[1].e, 64);
        for (auto& n : ns) {
            std::vector<std::pair<State, Lin>> wr;
            if (n.first.P().norm(n.second).isZero())
                wr.push_back({n.first, a[0].e});
            else
                wr = access(n.first, a[0], n.second, &C, "formatted write", true);
            for (auto& w : wr) {
                State s = std::move(w.first);
                if (a[0].k == Val::Ptr && a[0].region && s.getR(a[0].region)) {
                    Region& R = s.R(a[0].region);
                    flush(R);
                    auto nd = std::make_shared<Node>();
                    nd->b = Node::Unknown;
                    nd->baseId = nextBase++;
                    // contents after the call are unknown
                    R.log = nd;
                }
                Lin l = fresh("formatted");
                s.Pm().addGE(l);
                s.Pm().addGE(Lin(Q((i128)0x7ffffffe)) - l);
                State s2 = s;
                const bool some = a[0].k == Val::Ptr && a[0].region && s.getR(a[0].region) && s.P().entailsGE(n.second - Lin(1));
                if (some) { // terminated, cut off if it does not fit
                    State cut = s;
                    cut.Pm().addGE(l - n.second);
                    if (!cut.P().bottom) {
                        write(cut, a[0].region, w.second + n.second - Lin(1), 1, Val::i(Lin(0)));
                        one(outs, std::move(cut), Val::i(l));
                    }
                    s.Pm().addGE(n.second - l - Lin(1));
                    if (!s.P().bottom) {
                        write(s, a[0].region, w.second + l, 1, Val::i(Lin(0)));
                        one(outs, std::move(s), Val::i(l));
                    }
                } else
                    one(outs, std::move(s), Val::i(l));
                // an encoding error is reported as a negative length
                if (modelArgs.count("snprintf_error")) one(outs, std::move(s2), Val::i(Lin(-1)));
            }
        }
        return true;
    };
    models["snprintf"] = snp;
    models["vsnprintf"] = snp;
    for (const char* n : {"printf", "puts", "putchar", "fflush", "fputs", "fputc", "fprintf", "fwrite", "putc"})
        MODEL(n) {
            State s = p.s;
            Lin l = freshInt(s, 31, false, "io");
            one(outs, std::move(s), C.getType()->isVoidTy() ? Val::undef() : Val::i(l));
            return true;
        };
    // ---------------------------------------------------------------- process / runtime
    for (const char* n : {"abort", "exit", "_exit", "_ZSt9terminatev", "__cxa_pure_virtual", "__assert_fail", "__clang_call_terminate"})
        MODEL(n) {
            std::string nm = C.getCalledFunction() ? C.getCalledFunction()->getName().str() : "abort";
            if (nm == "_ZSt9terminatev" || nm == "__cxa_pure_virtual" || nm == "__clang_call_terminate")
                alarm(p.s, &C, "terminate", "program terminates (" + nm + ")");
            return true;
        };
    for (const char* n : {"__cxa_atexit", "atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "usleep", "nanosleep", "sleep"})
        MODEL(n) {
            one(outs, p.s, Val::i(Lin(0)));
            return true;
        };
    MODEL("__cxa_guard_acquire") {
        // first use initialises
        Type* T8 = Type::getInt8Ty(M.getContext());
        auto r = read(p.s, a[0].region, a[0].e, 1, T8);
        for (auto& x : r) {
            auto d = cmp(x.first, CmpInst::ICMP_EQ, x.second, Val::i(Lin(0)), T8, &C);
            for (auto& y : d) one(outs, std::move(y.first), y.second);
        }
        return true;
    };
    MODEL("__cxa_guard_release") {
        State s = p.s;
        write(s, a[0].region, a[0].e, 1, Val::i(Lin(1)));
        one(outs, std::move(s));
        return true;
    };
    MODEL("__cxa_guard_abort") {
        one(outs, p.s);
        return true;
    };
    MODEL("__cxa_allocate_exception") {
        State s = p.s;
        Lin sz = a[0].k == Val::Int ? a[0].e : Lin(64);
        int r = newRegionIn(s, Region::Opaque, sz, "exception object", &C);
        one(outs, std::move(s), Val::p(r, Lin(0)));
        return true;
    };
    MODEL("__cxa_free_exception") {
        one(outs, p.s);
        return true;
    };
    MODEL("__cxa_throw") {
        std::string t = "?";
        if (a[1].k == Val::Ptr && a[1].region)
            if (auto* R = p.s.getR(a[1].region)) t = R->name;
        State s = p.s;
        note(s, &C, "throws " + t);
        throwExc(std::move(s), t, outs);
        return true;
    };
    // dynamic_cast among classes with one base each: the type of the object is the one its virtual table names
    MODEL("__dynamic_cast") {
        if (a[0].k == Val::Ptr && a[0].region == 0) return one(outs, p.s, Val::p(0, Lin(0))), true;
        const auto* to = dyn_cast<GlobalVariable>(C.getArgOperand(2)->stripPointerCasts());
        if (!to || a[0].k != Val::Ptr) return false;
        State s = p.s;
        for (auto& v : read(s, a[0].region, a[0].e, 8, PointerType::get(M.getContext(), 0))) {
            Lin off = v.first.P().norm(v.second.e);
            const Region* R = v.second.k == Val::Ptr && v.second.region ? v.first.getR(v.second.region) : nullptr;
            const auto* table = R ? dyn_cast_or_null<GlobalVariable>(R->site) : nullptr;
            if (!table || !table->hasInitializer() || !off.isConst() || off.c != Q((i128)16)) return false;
            const auto* group = dyn_cast<ConstantArray>(table->getInitializer()->getAggregateElement(0u));
            if (!group) return false;
            const auto* type = dyn_cast<GlobalVariable>(group->getOperand(1)->stripPointerCasts());
            bool is = false;
            for (int depth = 0; type && !(is = type == to || type->getName() == to->getName()); ++depth) {
                if (!type->hasInitializer() || depth > 16) return false;
                const auto* st = dyn_cast<ConstantStruct>(type->getInitializer());
                const auto* kind = st ? dyn_cast<GlobalVariable>(st->getOperand(0)->stripInBoundsConstantOffsets()) : nullptr;
                if (!kind) return false;
                if (kind->getName() == "_ZTVN10__cxxabiv117__class_type_infoE") break;
                if (kind->getName() != "_ZTVN10__cxxabiv120__si_class_type_infoE") return false;
                type = dyn_cast<GlobalVariable>(st->getOperand(2)->stripPointerCasts());
            }
            one(outs, v.first, is ? a[0] : Val::p(0, Lin(0)));
        }
        return true;
    };
    MODEL("__cxa_rethrow") {
        throwExc(p.s, p.s.excType, outs);
        return true;
    };
    MODEL("__cxa_begin_catch") {
        one(outs, p.s, Val::p(0, Lin(0)));
        return true;
    };
    MODEL("__cxa_end_catch") {
        State s = p.s;
        s.excType.clear();
        one(outs, std::move(s));
        return true;
    };
    struct {
        const char *fn, *ty;
    } thr[] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
               {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
               {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
               {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
               {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
               {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
               {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
               {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
               {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}};
    for (auto& t : thr) {
        std::string ty = t.ty;
        models[t.fn] = [this, ty](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            State s = p.s;
            note(s, &C, "throws " + ty);
            throwExc(std::move(s), ty, outs);
            return true;
        };
    }
    // ---------------------------------------------------------------- mathematics
    auto roundLike = [this](int mode) { // 0 round half away, 1 floor, 2 ceil, 3 trunc
        return [this, mode](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            if (a[0].k != Val::Fp) {
                one(outs, p.s, Val::f(fresh("round", true)));
                return true;
            }
            Lin e = p.s.P().norm(a[0].e);
            State s = p.s;
            if (e.isConst()) {
                Q q = e.c;
                Q r;
                if (mode == 0) r = q.sgn() >= 0 ? (q + Q(1, 2)).floor() : (q - Q(1, 2)).ceil();
                else if (mode == 1) r = q.floor();
                else if (mode == 2) r = q.ceil();
                else r = q.sgn() >= 0 ? q.floor() : q.ceil();
                one(outs, std::move(s), Val::f(Lin(r)));
                return true;
            }
            if (e.allInt()) {
                one(outs, std::move(s), Val::f(e));
                return true;
            }
            Sym y = ufSym("round" + std::to_string(mode) + "(" + e.key() + ")", false, "round");
            Lin r = Lin::var(y);
            if (mode == 0) {
                s.Pm().addGE(r - e + Lin(Q(1, 2)));
                s.Pm().addGE(e - r + Lin(Q(1, 2)));
            } else if (mode == 1) {
                s.Pm().addGE(e - r);
                s.Pm().addGE(r + Lin(1) - e, true);
            } else if (mode == 2) {
                s.Pm().addGE(r - e);
                s.Pm().addGE(e + Lin(1) - r, true);
            } else {
                s.Pm().addGE(r - e + Lin(1), true);
                s.Pm().addGE(e - r + Lin(1), true);
            }
            one(outs, std::move(s), Val::f(r));
            return true;
        };
    };
    for (const char* n : {"round", "roundf"}) models[n] = roundLike(0);
    for (const char* n : {"floor", "floorf"}) models[n] = roundLike(1);
    for (const char* n : {"ceil", "ceilf"}) models[n] = roundLike(2);
    for (const char* n : {"trunc", "truncf"}) models[n] = roundLike(3);
    for (const char* n : {"pow", "powf", "exp", "expf", "log", "logf", "sqrt", "sqrtf", "fmod", "fmodf", "sin", "cos", "hypot", "hypotf", "exp2", "exp2f"})
        models[n] = [this, n](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            std::vector<Lin> ls;
            for (auto& x : a) ls.push_back(x.k == Val::Fp ? p.s.P().norm(x.e) : fresh("m", true));
            if (std::string(n).substr(0, 4) == "exp2" && ls[0].isConst()) ls.insert(ls.begin(), Lin(2));
            if ((std::string(n).substr(0, 3) == "pow" || (std::string(n).substr(0, 4) == "exp2" && ls.size() == 2)) && ls[0].isConst() && ls[1].isConst() && ls[1].c.d == 1 && ls[1].c.n >= 0 && ls[1].c.n <= (ls[0].c.d == 1 && ls[0].c.n >= -2 && ls[0].c.n <= 2 ? 60 : 8) &&
                ls[0].c.d <= 1024 && ls[0].c.n >= -1024 && ls[0].c.n <= 1024) { // exact
                Q q(1);
                for (i128 i = 0; i < ls[1].c.n; ++i) q = q * ls[0].c;
                if (fpExactConst(q, C.getType())) {
                    one(outs, p.s, Val::f(Lin(q)));
                    return true;
                }
            }
            const bool hypot = std::string(n).substr(0, 5) == "hypot";
            if (hypot && ls[0].isConst() && ls[1].isConst() && ls[0].c.d <= 1024 && ls[0].c.n >= -1024 && ls[0].c.n <= 1024 && ls[1].c.d <= 1024 &&
                ls[1].c.n >= -1024 && ls[1].c.n <= 1024)
                ls = {Lin(ls[0].c * ls[0].c + ls[1].c * ls[1].c)};
            if ((std::string(n).substr(0, 4) == "sqrt" || (hypot && ls.size() == 1)) && ls[0].isConst() && ls[0].c.n >= 0 && ls[0].c.n < ((i128)1 << 52) && ls[0].c.d < ((i128)1 << 52)) { // exact
                auto root = [](i128 v) { return (i128)std::llround(std::sqrt((double)v)); };
                const i128 rn = root(ls[0].c.n), rd = root(ls[0].c.d);
                if (rn * rn == ls[0].c.n && rd * rd == ls[0].c.d && fpExactConst(Q(rn, rd), C.getType())) {
                    one(outs, p.s, Val::f(Lin(Q(rn, rd))));
                    return true;
                }
            }
            if (std::string(n).substr(0, 4) == "exp2" && ls.size() == 2) ls.erase(ls.begin());
            if (hypot && ls.size() == 1) ls = {p.s.P().norm(a[0].e), p.s.P().norm(a[1].e)};
            auto r = fpUF(p.s, C.getCalledFunction()->getName().str(), ls, C.getType());
            for (auto& x : r) one(outs, std::move(x.first), x.second);
            return true;
        };
    auto lr = [this](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
        std::vector<Outcome> o2;
        models["round"](p, C, a, o2);
        for (auto& o : o2) one(outs, std::move(o.s), Val::i(o.v.e));
        return true;
    };
    for (const char* n : {"lround", "lroundf", "llround", "llroundf"}) models[n] = lr;
    MODEL("fabs") {
        if (a[0].k != Val::Fp) {
            one(outs, p.s, Val::f(fresh("abs", true)));
            return true;
        }
        std::vector<State> t, f;
        split(p.s, a[0].e, false, t, f);
        for (auto& x : t) one(outs, std::move(x), a[0]);
        for (auto& x : f) one(outs, std::move(x), Val::f(-a[0].e));
        return true;
    };
    models["fabsf"] = models["fabs"];
    auto minmax = [this](bool mx) {
        return [this, mx](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            if (a[0].k != Val::Fp || a[1].k != Val::Fp) {
                one(outs, p.s, Val::f(fresh("mm", true)));
                return true;
            }
            std::vector<State> t, f;
            split(p.s, a[0].e - a[1].e, false, t, f);
            for (auto& x : t) one(outs, std::move(x), mx ? a[0] : a[1]);
            for (auto& x : f) one(outs, std::move(x), mx ? a[1] : a[0]);
            return true;
        };
    };
    models["fmax"] = models["fmaxf"] = minmax(true);
    models["fmin"] = models["fminf"] = minmax(false);
    MODEL("abs") {
        unsigned w = C.getType()->getIntegerBitWidth();
        auto n = normS(p.s, a[0].e, w);
        for (auto& x : n) {
            std::vector<State> t, f;
            split(x.first, x.second, false, t, f);
            for (auto& y : t) one(outs, std::move(y), Val::i(x.second));
            for (auto& y : f) one(outs, std::move(y), Val::i(-x.second));
        }
        return true;
    };
    models["labs"] = models["llabs"] = models["abs"];
    // ---------------------------------------------------------------- number parsing
    auto strto = [this](bool real, bool sg) {
        return [this, real, sg](Path& p, const CallBase& C, std::vector<Val>& a, std::vector<Outcome>& outs) {
            if (!real && sg && a.size() > 2 && a[2].k == Val::Int && p.s.P().norm(a[2].e).isConst() && p.s.P().norm(a[2].e).c.n == 10 && a[0].region && parseDecimal(p, C, a, outs)) return true;
            // needs a terminated string
            std::vector<Outcome> len;
            std::vector<Val> la{a[0]};
            models["strlen"](p, C, la, len);
            for (auto& o : len) {
                State s = std::move(o.s);
                Lin used = freshInt(s, 62, false, "parsed");
                s.Pm().addGE(o.v.e - used);
                // no number goes beyond a character that occurs in none
                for (int i = 0; i < 64 && a[0].region && s.P().entailsGE(s.getR(a[0].region)->size - a[0].e - Lin(Q((i128)i + 1))); ++i) {
                    State peek = s;
                    auto b = read(peek, a[0].region, a[0].e + Lin(Q((i128)i)), 1, Type::getInt8Ty(M.getContext()));
                    if (b.size() != 1 || b[0].second.k != Val::Int) break;
                    Lin e = b[0].first.P().norm(b[0].second.e);
                    if (!e.isConst()) continue;
                    const char c = (char)(int)e.c.n;
                    if (isalnum((unsigned char)c) || (c && strchr("+-.()_ \t\n\v\f\r", c))) continue;
                    s.Pm().addGE(Lin(Q((i128)i)) - used);
                    break;
                }
                if (s.P().bottom) continue;
                std::vector<std::pair<State, Lin>> ends;
                int most = 0;
                while (most <= 8 && !s.P().entailsGE(Lin(Q((i128)most)) - used)) ++most;
                if (most > 8) ends.push_back({s, used});
                else
                    for (int i = 0; i <= most; ++i) {
                        State t = s;
                        t.Pm().addEQ(used - Lin(Q((i128)i)));
                        if (!t.P().bottom) ends.push_back({std::move(t), Lin(Q((i128)i))});
                    }
                for (auto& en : ends) {
                    State t = std::move(en.first);
                    if (a.size() > 1 && a[1].k == Val::Ptr && a[1].region) write(t, a[1].region, a[1].e, 8, Val::p(a[0].region, a[0].e + en.second));
                    // a range error sets errno
                    State s2 = t;
                    Val v = real ? Val::f(fresh("parsed", true)) : Val::i(freshInt(t, 64, sg, "parsed"));
                    one(outs, std::move(t), v);
                    auto* G = M.getGlobalVariable("vf_errno_storage");
                    if (G) {
                        int r = globalRegion(s2, G);
                        write(s2, r, Lin(0), 4, Val::i(Lin(34)));
                        Val v2 = real ? Val::f(fresh("parsed", true)) : Val::i(freshInt(s2, 64, sg, "parsed"));
                        one(outs, std::move(s2), v2);
                    }
                }
            }
            return true;
        };
    };
    models["strtof"] = models["strtod"] = strto(true, true);
    models["strtol"] = models["strtoll"] = models["__isoc23_strtol"] = models["__isoc23_strtoll"] = strto(false, true);
    models["strtoul"] = models["strtoull"] = models["__isoc23_strtoul"] = models["__isoc23_strtoull"] = strto(false, false);
    MODEL("atoi") {
        std::vector<Outcome> len;
        std::vector<Val> la{a[0]};
        models["strlen"](p, C, la, len);
        for (auto& o : len) {
            State s = std::move(o.s);
            Lin l = freshInt(s, 32, true, "atoi");
            one(outs, std::move(s), Val::i(l));
        }
        return true;
    };
    MODEL("__errno_location") {
        State s = p.s;
        auto* G = M.getGlobalVariable("vf_errno_storage");
        if (!G) throw Abort{"errno used but vf_errno_storage missing"};
        one(outs, std::move(s), Val::p(globalRegion(p.s, G), Lin(0)));
        outs.back().s = p.s;
        return true;
    };
    for (const char* n : {"isdigit", "isspace", "isalpha", "tolower", "toupper", "isalnum"})
        MODEL(n) {
            State s = p.s;
            std::string nm = C.getCalledFunction()->getName().str();
            if (nm == "isdigit" || nm == "isspace") {
                auto v = normS(s, a[0].e, 32);
                for (auto& x : v) {
                    if (nm == "isdigit") {
                        std::vector<State> ge, lt, in, out2;
                        split(x.first, x.second - Lin(48), false, ge, lt);
                        for (auto& g : ge) split(g, Lin(57) - x.second, false, in, out2);
                        for (auto& y : in) one(outs, std::move(y), Val::i(Lin(1)));
                        for (auto& y : lt) one(outs, std::move(y), Val::i(Lin(0)));
                        for (auto& y : out2) one(outs, std::move(y), Val::i(Lin(0)));
                    } else {
                        std::vector<State> sp, ns, tab, lo, hi;
                        splitEQ(x.first, x.second - Lin(32), sp, ns);
                        for (auto& y : ns) {
                            std::vector<State> ge;
                            split(y, x.second - Lin(9), false, ge, lo);
                            for (auto& g : ge) split(g, Lin(13) - x.second, false, tab, hi);
                        }
                        for (auto& y : sp) one(outs, std::move(y), Val::i(Lin(1)));
                        for (auto& y : tab) one(outs, std::move(y), Val::i(Lin(1)));
                        for (auto& y : lo) one(outs, std::move(y), Val::i(Lin(0)));
                        for (auto& y : hi) one(outs, std::move(y), Val::i(Lin(0)));
                    }
                }
                return true;
            }
            Lin l = freshInt(s, 32, true, nm);
            one(outs, std::move(s), Val::i(l));
            return true;
        };
}

bool Engine::intrinsic(Path& p, const CallBase& C, const Function* F, std::vector<Val>& a, std::vector<Outcome>& outs) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: {
        State s = p.s;
        if (a[1].k == Val::Ptr && a[1].region && s.getR(a[1].region)) {
            Region& R = s.R(a[1].region);
            R.top.clear();
            auto n = std::make_shared<Node>();
            n->b = Node::UndefB;
            n->baseId = 0;
            static LogP undefBase;
            if (!undefBase) undefBase = n;
            R.log = undefBase;
            if (R.kind == Region::Stack) R.freed = F->getIntrinsicID() == Intrinsic::lifetime_end;
        }
        one(outs, std::move(s));
        return true;
    }
    case Intrinsic::vastart: { // the list stands for the arguments of the frame
        State s = p.s;
        if (argStack.size() >= 2 && a[0].k == Val::Ptr && a[0].region && s.getR(a[0].region)) {
            auto& all = argStack[argStack.size() - 2];
            const size_t named = C.getFunction()->arg_size();
            std::vector<Val> rest(all.begin() + std::min(named, all.size()), all.end());
            vaTable.push_back(rest);
            write(s, a[0].region, a[0].e, 8, Val::i(Lin(Q((i128)vaTable.size() - 1))));
        }
        one(outs, std::move(s));
        return true;
    }
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::prefetch:
    case Intrinsic::assume:
    case Intrinsic::vaend:
    case Intrinsic::donothing:
    case Intrinsic::stackrestore: one(outs, p.s); return true;
    case Intrinsic::stacksave: one(outs, p.s, Val::p(0, Lin(0))); return true;
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: one(outs, p.s, a[0]); return true;
    case Intrinsic::is_constant: one(outs, p.s, Val::i(Lin(0))); return true;
    case Intrinsic::is_fpclass: { // floats stand for finite reals
        const auto mask = cast<ConstantInt>(C.getArgOperand(1))->getZExtValue();
        if ((mask & 0x1f8) == 0) return one(outs, p.s, Val::i(Lin(0))), true;
        if ((mask & 0x1f8) == 0x1f8) return one(outs, p.s, Val::i(Lin(1))), true;
        return false;
    }
    case Intrinsic::objectsize: one(outs, p.s, Val::i(Lin(-1))); return true;
    case Intrinsic::eh_typeid_for: {
        std::string cn;
        if (a[0].k == Val::Ptr && a[0].region)
            if (auto* R = p.s.getR(a[0].region)) cn = R->name;
        one(outs, p.s, Val::i(Lin((int)(std::hash<std::string>{}(cn) % 1000000 + 2))));
        return true;
    }
    case Intrinsic::trap:
    case Intrinsic::ubsantrap: return true;
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: return models["memmove"](p, C, a, outs);
    case Intrinsic::memset: return models["memset"](p, C, a, outs);
    case Intrinsic::fabs: return models["fabs"](p, C, a, outs);
    case Intrinsic::round: return models["round"](p, C, a, outs);
    case Intrinsic::floor: return models["floor"](p, C, a, outs);
    case Intrinsic::ceil: return models["ceil"](p, C, a, outs);
    case Intrinsic::trunc: return models["trunc"](p, C, a, outs);
    case Intrinsic::maxnum: return models["fmax"](p, C, a, outs);
    case Intrinsic::minnum: return models["fmin"](p, C, a, outs);
    case Intrinsic::lround:
    case Intrinsic::llround: return models["lround"](p, C, a, outs);
    case Intrinsic::abs: return models["abs"](p, C, a, outs);
    case Intrinsic::pow:
    case Intrinsic::exp:
    case Intrinsic::log:
    case Intrinsic::sqrt: {
        std::vector<Lin> ls;
        for (auto& x : a)
            if (x.k == Val::Fp) ls.push_back(x.e);
        auto r = fpUF(p.s, F->getName().str(), ls, C.getType());
        for (auto& x : r) one(outs, std::move(x.first), x.second);
        return true;
    }
    case Intrinsic::fmuladd: {
        auto m = binop(p.s, Instruction::FMul, a[0], a[1], C.getType(), nullptr);
        for (auto& x : m) {
            auto r = binop(x.first, Instruction::FAdd, x.second, a[2], C.getType(), nullptr);
            for (auto& y : r) one(outs, std::move(y.first), y.second);
        }
        return true;
    }
    case Intrinsic::smin:
    case Intrinsic::smax:
    case Intrinsic::umin:
    case Intrinsic::umax: {
        auto id = F->getIntrinsicID();
        bool sg = id == Intrinsic::smin || id == Intrinsic::smax;
        auto pr = (id == Intrinsic::smin) ? CmpInst::ICMP_SLT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : CmpInst::ICMP_UGT;
        (void)sg;
        auto r = cmp(p.s, pr, a[0], a[1], C.getType(), &C);
        for (auto& x : r) one(outs, std::move(x.first), x.second.e.c.sgn() ? a[0] : a[1]);
        return true;
    }
    case Intrinsic::cttz:
    case Intrinsic::ctlz:
    case Intrinsic::ctpop: {
        unsigned w = C.getType()->getIntegerBitWidth();
        auto id = F->getIntrinsicID();
        if (a[0].k != Val::Int) break;
        auto xs = normU(p.s, a[0].e, w);
        for (auto& x : xs) {
            Lin u = x.first.P().norm(x.second);
            if (u.isConst() && w <= 64) {
                unsigned long v = (unsigned long)u.c.n;
                long r = id == Intrinsic::ctpop ? __builtin_popcountl(v) : v == 0 ? w : id == Intrinsic::cttz ? __builtin_ctzl(v) : __builtin_clzl(v) - (64 - (long)w);
                one(outs, std::move(x.first), Val::i(Lin(Q(r))));
                continue;
            }
            State s = std::move(x.first);
            Lin l = fresh("bits");
            s.Pm().addGE(l);
            s.Pm().addGE(Lin(Q((long)w)) - l);
            one(outs, std::move(s), Val::i(l));
        }
        return true;
    }
    case Intrinsic::usub_sat: {
        auto r = cmp(p.s, CmpInst::ICMP_UGE, a[0], a[1], C.getType(), &C);
        for (auto& x : r) one(outs, std::move(x.first), x.second.e.c.sgn() ? Val::i(a[0].e - a[1].e) : Val::i(Lin(0)));
        return true;
    }
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow:
    case Intrinsic::smul_with_overflow: {
        auto id = F->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Type* T = C.getArgOperand(0)->getType();
        unsigned w = T->getIntegerBitWidth();
        auto xs = sg ? normS(p.s, a[0].e, w) : normU(p.s, a[0].e, w);
        for (auto& x : xs) {
            auto ys = sg ? normS(x.first, a[1].e, w) : normU(x.first, a[1].e, w);
            for (auto& y : ys) {
                State s = std::move(y.first);
                Lin u = s.P().norm(x.second), v = s.P().norm(y.second), r;
                bool lin = true;
                if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = u + v;
                else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) r = u - v;
                else if (u.isConst()) r = v.scaled(u.c);
                else if (v.isConst()) r = u.scaled(v.c);
                else lin = false;
                auto mk = [&](State st, const Lin& res, bool ov) {
                    Val g;
                    g.k = Val::Agg;
                    g.agg = std::make_shared<std::vector<Val>>();
                    g.agg->push_back(Val::i(res));
                    g.agg->push_back(Val::i(Lin(ov ? 1 : 0)));
                    one(outs, std::move(st), g);
                };
                if (!lin) {
                    State s2 = s;
                    Lin l = freshInt(s, w, sg, "mul");
                    mk(std::move(s), l, false);
                    Lin l2 = freshInt(s2, w, sg, "mul");
                    mk(std::move(s2), l2, true);
                    continue;
                }
                Q lo = sg ? -pow2(w - 1) : Q(0), hi = sg ? pow2(w - 1) - Q(1) : pow2(w) - Q(1);
                std::vector<State> ge, lt, in, gt;
                split(s, r - Lin(lo), false, ge, lt);
                for (auto& g : ge) split(g, Lin(hi) - r, false, in, gt);
                for (auto& t : in) mk(std::move(t), r, false);
                for (auto& t : lt) mk(std::move(t), r, true);
                for (auto& t : gt) mk(std::move(t), r, true);
            }
        }
        return true;
    }
    default: break;
    }
    return false;
}
