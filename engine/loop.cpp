// Fixpoint computation at loop heads: partitions by discrete facts, affine
// equalities (Karr) and thresholded difference bounds between the changed cells.
#include "absint.hpp"
#include "llvm/Support/raw_ostream.h"

namespace {
struct Slot {
    std::string name;
    int kind = 1; // 0 phi, 1 cell, 2 region size
    const PHINode* phi = nullptr;
    int region = 0;
    int64_t off = 0;
    unsigned size = 0;
    char ty = 'i';
    unsigned width = 64;
};
struct Fact {
    Lin e; // e >= b over slot symbols and outer symbols
    Q b;
    bool dead = false;
    bool konst = false; // bound against constants
};
struct Stride { // the slot advances in steps: value = origin + g * k
    std::string slot;
    i128 g;
    Lin origin;
};
struct Disj {
    std::string key;
    std::vector<Path> arr;
    Path base;
    std::map<std::string, Sym> sym;
    std::vector<Lin> rows;
    std::vector<Fact> facts;
    std::vector<Stride> strides;
    bool dirty = true;
    bool built = false;
    int joins = 0;
};

// nullspace: combinations of es that vanish identically
std::vector<std::vector<Q>> relations(const std::vector<Lin>& es) {
    size_t n = es.size();
    std::vector<Lin> m = es;
    std::vector<std::vector<Q>> c(n, std::vector<Q>(n));
    for (size_t i = 0; i < n; ++i) c[i][i] = Q(1);
    size_t r = 0;
    // eliminate symbols (and the constant, treated as a column)
    std::vector<bool> used(n, false);
    std::set<Sym> syms;
    for (auto& e : es)
        for (auto& p : e.t) syms.insert(p.first);
    auto elim = [&](auto coef) {
        size_t piv = n;
        for (size_t i = 0; i < n; ++i)
            if (!used[i] && coef(m[i]).sgn()) {
                piv = i;
                break;
            }
        if (piv == n) return;
        used[piv] = true;
        ++r;
        for (size_t i = 0; i < n; ++i) {
            if (i == piv || used[i]) continue;
            Q k = coef(m[i]);
            if (!k.sgn()) continue;
            Q f = k / coef(m[piv]);
            m[i] = m[i] - m[piv].scaled(f);
            for (size_t j = 0; j < n; ++j) c[i][j] = c[i][j] - c[piv][j] * f;
        }
    };
    for (Sym s : syms) elim([&](const Lin& l) { return l.coef(s); });
    elim([&](const Lin& l) { return l.c; });
    std::vector<std::vector<Q>> out;
    for (size_t i = 0; i < n; ++i)
        if (!used[i]) out.push_back(c[i]);
    return out;
}
} // namespace

void Engine::collectThresholds() {
    std::set<i128> t;
    for (auto& F : M) {
        if (F.isDeclaration()) continue;
        for (auto& I : instructions(F)) {
            if (isa<ICmpInst>(I) || isa<BinaryOperator>(I)) {
                for (auto& O : I.operands())
                    if (auto* c = dyn_cast<ConstantInt>(O)) {
                        if (c->getBitWidth() > 64 || c->getBitWidth() < 8) continue;
                        i128 v = c->getSExtValue();
                        if (v > 1 && v < ((i128)1 << 40) && t.size() < 24 && isa<ICmpInst>(I)) {
                            std::string l = loc(&I);
                            if (l.find("/repo/") != std::string::npos || l.find("/witness/") != std::string::npos) {
                                t.insert(v);
                                t.insert(v - 1);
                            }
                        }
                    }
            }
        }
    }
    for (i128 v : {(i128)-1, (i128)0, (i128)1, (i128)2}) t.insert(v);
    for (int k : {7, 8, 15, 16, 31, 32, 63, 64}) {
        t.insert(((i128)1 << k) - 1);
        t.insert(((i128)1 << k));
        if (k % 8 == 7) t.insert(-((i128)1 << k));
    }
    thresholds.assign(t.begin(), t.end());
}

// A state that gets around the loop and is the same again, without an answer from outside, gets around it forever.
static bool same(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    if (a.k == Val::Agg || a.k == Val::Blob) return a.agg == b.agg && a.pieces == b.pieces && a.e == b.e;
    return a.k != Val::Undef && a.region == b.region && a.e == b.e;
}
static bool same(const Region& a, const Region& b) {
    if (!(a.size == b.size) || a.freed != b.freed || a.log != b.log || a.top.size() != b.top.size()) return false;
    for (auto x = a.top.begin(), y = b.top.begin(); x != a.top.end(); ++x, ++y)
        if (x->first != y->first || x->second.size != y->second.size || !same(x->second.v, y->second.v)) return false;
    return true;
}
void Engine::checkEndless(const Loop* L, const Path& h, std::vector<Path>& backs, long before) {
    if (nondet != before) return;
    for (auto& x : backs) {
        bool eq = true;
        for (auto& I : *L->getHeader()) {
            auto* P = dyn_cast<PHINode>(&I);
            if (!P) break;
            auto a = h.r.find(P);
            auto b = std::as_const(x.r).find(P);
            eq = eq && a != h.r.end() && b != x.r.end() && same(a->second, b->second);
        }
        for (auto& m : h.s.mem) {
            if (!eq) break;
            auto* o = x.s.getR(m.first);
            eq = o && (o == m.second.get() || same(*m.second, *o));
        }
        if (!eq || !x.s.Pm().feasible()) continue;
        const auto* at = &*L->getHeader()->getFirstNonPHIIt();
        alarm(x.s, at, "endless", "a loop gets to where it was and goes on forever");
        // a client that expects to be kept forever says what has to be so by then
        if (auto* G = M.getNamedGlobal("vf_kept")) {
            State s = x.s;
            bool ok = false;
            for (auto& v : read(s, globalRegion(s, G), Lin(0), 1, Type::getInt8Ty(M.getContext())))
                ok = v.second.k == Val::Int && v.second.e.isConst() && !v.second.e.isZero();
            if (!ok) alarm(x.s, at, "postcondition", "goes on forever without having done what comes before that");
        }
    }
}
void Engine::handleLoop(const Loop* L, Path p, const Function* F, std::vector<Path>& exits, std::vector<Outcome>& rets) {
    tick();
    if (!p.s.Pm().feasible()) return; // nothing arrives here
    if (p.prev) phis(p);
    const BasicBlock* H = L->getHeader();

    // ---- bounded unrolling when the exit decision is determined on every path
    bool mgc = false;
    for (auto* BB : {H})
        for (auto& I : *BB)
            if (auto* c = dyn_cast<CallBase>(&I))
                if (c->getCalledFunction() && c->getCalledFunction()->getName() == "vf_loop") mgc = true;
    if (!mgc && unrollMax > 0) {
        std::vector<Path> cur{p}, ex;
        std::vector<Outcome> rt;
        Sink tmp;
        sinks.push_back(&tmp);
        bool ok = true;
        for (int it = 0; ok && !cur.empty(); ++it) {
            if (it >= unrollMax || cur.size() > (size_t)std::max(64, splitMax)) {
                ok = false;
                break;
            }
            std::vector<Path> nx;
            for (auto& c : cur) {
                std::vector<Path> b, e;
                c.enter = true;
                std::vector<Path> init;
                init.push_back(c);
                const long before = nondet;
                run(std::move(init), L, F, b, e, rt);
                if (nondet == before) {
                    std::vector<Path> again = b;
                    for (auto& x : again) phis(x);
                    sinks.pop_back();
                    checkEndless(L, c, again, before);
                    sinks.push_back(&tmp);
                }
                if (!b.empty() && !e.empty() && !splitMax) {
                    ok = false;
                    break;
                }
                for (auto& x : e) ex.push_back(std::move(x));
                for (auto& x : b) {
                    phis(x);
                    nx.push_back(std::move(x));
                }
            }
            cur = std::move(nx);
        }
        sinks.pop_back();
        if (ok) {
            Sink& s = sink();
            for (auto& a : tmp.alarms) {
                bool dup = false;
                for (auto& x : s.alarms) dup = dup || x.key() == a.key();
                if (!dup) s.alarms.push_back(a);
            }
            for (auto& x : tmp.reached) s.reached[x.first] += x.second;
            for (auto& x : tmp.checksOk) s.checksOk[x.first] += x.second;
            for (auto& x : tmp.checksBad) s.checksBad[x.first] += x.second;
            for (auto& x : tmp.memOk) s.memOk[x.first] += x.second;
            s.funcs.insert(tmp.funcs.begin(), tmp.funcs.end());
            s.unmodelled.insert(tmp.unmodelled.begin(), tmp.unmodelled.end());
            for (auto& e : ex) exits.push_back(std::move(e));
            for (auto& r : rt) rets.push_back(std::move(r));
            return;
        }
    }

    // ---- fixpoint
    const Path E = p;
    const Sym symMark = (Sym)g_syms.size();
    const int regMark = nextRegion;
    std::vector<Slot> layout;
    std::set<std::string> known;
    std::set<std::string> mods, undefSlots;
    std::set<int> modContent;
    std::map<std::string, int> canon; // slot name -> canonical id of a region born in the loop
    std::set<int> canonIds;
    std::map<std::string, std::set<std::string>> smallVals;
    std::vector<std::unique_ptr<Disj>> ds;
    bool rebuild = false;

    std::set<int> persistent;
    for (auto& r : E.s.mem) persistent.insert(r.first);
    auto outerLin = [&](const Lin& l) {
        for (auto& t : l.t)
            if (t.first >= symMark) return false;
        return true;
    };
    auto typeOf = [&](const Slot& s) -> Type* {
        LLVMContext& c = M.getContext();
        if (s.ty == 'p') return PointerType::get(c, 0);
        if (s.ty == 'f') return s.size == 4 ? Type::getFloatTy(c) : Type::getDoubleTy(c);
        return IntegerType::get(c, s.size * 8);
    };
    auto addSlot = [&](const Slot& s) {
        if (!known.insert(s.name).second) return;
        layout.push_back(s);
    };
    for (auto& I : *H) {
        auto* P = dyn_cast<PHINode>(&I);
        if (!P) break;
        Slot s;
        s.kind = 0;
        s.phi = P;
        s.name = "phi:" + std::to_string((size_t)layout.size());
        s.ty = P->getType()->isPointerTy() ? 'p' : P->getType()->isFloatingPointTy() ? 'f' : 'i';
        if (P->getType()->isIntegerTy())
            s.width = P->getType()->getIntegerBitWidth();
        s.size = tsize(P->getType());
        addSlot(s);
    }
    auto cellName = [&](int r, int64_t o) { return "r" + std::to_string(r) + "+" + std::to_string(o); };

    auto valueOf = [&](Path& a, const Slot& s) -> Val {
        if (s.kind == 0) {
            auto it = a.r.find(s.phi);
            return it == a.r.end() ? Val::undef() : it->second;
        }
        const Region* R = a.s.getR(s.region);
        if (!R) return Val::undef();
        if (s.kind == 2) return Val::i(R->size);
        auto it = R->top.find(s.off);
        if (it != R->top.end() && it->second.size == s.size) return coerce(a.s, it->second.v, s.size, typeOf(s));
        if (R->freed) return Val::undef();
        auto r = read(a.s, s.region, Lin(Q((i128)s.off)), s.size, typeOf(s));
        if (r.size() == 1) {
            a.s = std::move(r[0].first);
            return r[0].second;
        }
        return Val::undef();
    };

    // garbage collection, canonical naming of regions born in the loop, layout growth
    auto normalise = [&](Path& a) {
        std::vector<int> roots;
        for (auto& r : a.s.mem)
            if (persistent.count(r.first)) roots.push_back(r.first);
        for (auto& s : layout)
            if (s.kind == 0) {
                auto it = a.r.find(s.phi);
                if (it != a.r.end() && it->second.k == Val::Ptr && it->second.region) roots.push_back(it->second.region);
            }
        for (int x : a.allocas) roots.push_back(x);
        auto live = reachable(a.s, roots);
        std::vector<int> gone;
        for (auto& r : a.s.mem)
            if (!persistent.count(r.first) && !live.count(r.first) && r.second->kind != Region::Func &&
                r.second->kind != Region::Global)
                gone.push_back(r.first);
        for (int g : gone) {
            auto& R = a.s.mem[g];
            if (leakCheck && R->kind == Region::Heap && !R->freed)
                alarm(a.s, dyn_cast_or_null<Instruction>(R->site), "leak", "memory is no longer reachable and was never released (" + R->name + ")");
            a.s.mem.erase(g);
        }
        // canonical names for born regions, discovered in slot order
        std::map<int, int> ren;
        std::vector<std::pair<int, std::string>> q;
        std::set<int> seen;
        auto visit = [&](const Val& v, const std::string& nm) {
            if (v.k != Val::Ptr || !v.region || persistent.count(v.region)) return;
            auto* R = a.s.getR(v.region);
            if (!R || R->kind == Region::Func || R->kind == Region::Global) return;
            if (!seen.insert(v.region).second) return;
            auto it = canon.find(nm);
            int id;
            if (it == canon.end()) {
                id = nextRegion++;
                canon[nm] = id;
                canonIds.insert(id);
            } else
                id = it->second;
            ren[v.region] = id;
            q.push_back({v.region, nm});
        };
        for (auto& s : layout)
            if (s.kind == 0) {
                auto it = a.r.find(s.phi);
                if (it != a.r.end()) visit(it->second, s.name);
            }
        for (auto& r : a.s.mem)
            if (persistent.count(r.first))
                for (auto& c : r.second->top) visit(c.second.v, cellName(r.first, c.first));
        for (size_t i = 0; i < q.size(); ++i) {
            const Region* R = a.s.getR(q[i].first);
            for (auto& c : R->top) visit(c.second.v, q[i].second + ">" + std::to_string(c.first));
        }
        bool needRen = false;
        for (auto& x : ren) needRen = needRen || x.first != x.second;
        if (needRen) {
            auto fix = [&](Val& v) {
                if (v.k == Val::Ptr) {
                    auto it = ren.find(v.region);
                    if (it != ren.end()) v.region = it->second;
                }
            };
            std::map<int, std::shared_ptr<Region>> nm;
            for (auto& r : a.s.mem) {
                auto it = ren.find(r.first);
                bool touch = false;
                for (auto& c : r.second->top)
                    if (c.second.v.k == Val::Ptr && ren.count(c.second.v.region)) touch = true;
                std::shared_ptr<Region> R = r.second;
                if (touch) {
                    R = std::make_shared<Region>(*R);
                    for (auto& c : R->top) fix(c.second.v);
                }
                nm[it == ren.end() ? r.first : it->second] = R;
            }
            a.s.mem = std::move(nm);
            for (auto& v : a.r) fix(v.second);
            for (int& x : a.allocas) {
                auto it = ren.find(x);
                if (it != ren.end()) x = it->second;
            }
        }
        // layout growth
        for (auto& r : a.s.mem) {
            if (r.second->kind == Region::Func) continue;
            bool born = !persistent.count(r.first);
            const Region* ER = born ? nullptr : E.s.getR(r.first);
            if (ER && ER == r.second.get()) continue; // untouched
            if (born && !r.second->size.isConst()) {
                Slot s;
                s.kind = 2;
                s.region = r.first;
                s.name = "size:r" + std::to_string(r.first);
                s.size = 8;
                if (!known.count(s.name)) rebuild = true;
                addSlot(s);
            }
            for (auto& c : r.second->top) {
                std::string n = cellName(r.first, c.first);
                if (known.count(n)) continue;
                if (c.second.v.k == Val::Undef) continue;
                if (!r.second->size.isConst() && (!ER || !ER->size.isConst())) {
                    // element storage of unknown length: contents are a summary
                    if (modContent.insert(r.first).second) rebuild = true;
                    continue;
                }
                if (c.second.size > 8) {
                    continue;
                }
                // untouched cell identical to E's: no need for a slot
                if (ER) {
                    auto it = ER->top.find(c.first);
                    if (it != ER->top.end() && it->second.size == c.second.size && it->second.v.k == c.second.v.k &&
                        it->second.v.region == c.second.v.region && it->second.v.e == c.second.v.e &&
                        (c.second.v.k == Val::Int || c.second.v.k == Val::Ptr || c.second.v.k == Val::Fp))
                        continue;
                }
                Slot s;
                s.region = r.first;
                s.off = c.first;
                s.size = c.second.size;
                s.width = s.size * 8;
                s.name = n;
                s.ty = c.second.v.k == Val::Ptr ? 'p' : c.second.v.k == Val::Fp ? 'f' : 'i';
                if (c.second.v.k == Val::Int && s.size != 1 && s.size != 2 && s.size != 4 && s.size != 8) continue;
                // a zero pattern whose type is known from E
                if (ER) {
                    auto it = ER->top.find(c.first);
                    if (it != ER->top.end() && it->second.size == s.size) {
                        if (it->second.v.k == Val::Ptr && c.second.v.k == Val::Int && c.second.v.e.isZero()) s.ty = 'p';
                        if (it->second.v.k == Val::Fp && c.second.v.k == Val::Int && c.second.v.e.isZero()) s.ty = 'f';
                    }
                }
                bool clash = false;
                for (auto& o : layout)
                    if (o.kind == 1 && o.region == s.region && o.off < s.off + (int64_t)s.size && s.off < o.off + (int64_t)o.size) clash = true;
                if (clash) {
                    if (modContent.insert(s.region).second) rebuild = true;
                    continue;
                }
                addSlot(s);
                rebuild = true;
            }
            if (ER ? ER->log != r.second->log : true) {
                // log equality up to base for born regions
                bool changed = ER != nullptr || r.second->log->k != Node::Base;
                if (changed && modContent.insert(r.first).second) rebuild = true;
            }
        }
    };

    auto sameVal = [&](Path& a, const Val& x, const Val& y) {
        if (x.k != y.k) {
            if (x.k == Val::Undef || y.k == Val::Undef) return false;
            if ((x.k == Val::Int && x.e.isZero() && y.isNull() && y.e.isZero()) ||
                (y.k == Val::Int && y.e.isZero() && x.isNull() && x.e.isZero()))
                return true;
            return false;
        }
        switch (x.k) {
        case Val::Undef: return true;
        case Val::Ptr:
            if (x.region != y.region) return false;
            [[fallthrough]];
        case Val::Int:
        case Val::Fp: return a.s.P().norm(x.e - y.e).isZero() || a.s.P().entailsEQ(x.e - y.e);
        default: return false;
        }
    };

    // numeric value of a slot in an arrival; false when it has none
    auto num = [&](Path& a, const Slot& s, Lin& out) -> bool {
        Val v = valueOf(a, s);
        if (v.k == Val::Ptr || v.k == Val::Fp) {
            out = a.s.P().norm(v.e);
            return true;
        }
        if (v.k != Val::Int) return false;
        Lin e = a.s.P().norm(v.e);
        if (s.kind == 2) {
            out = e;
            return true;
        }
        unsigned w = s.width;
        if (w == 1) {
            out = e;
            return true;
        }
        if (inRange(a.s, e, -pow2(w - 1), pow2(w) - Q(1))) {
            out = e;
            return true;
        }
        auto n = normU(a.s, e, w);
        if (n.size() == 1) {
            a.s = std::move(n[0].first);
            out = n[0].second;
            return true;
        }
        out = freshInt(a.s, w, false, "rep");
        return true;
    };

    // discrete key
    auto keyOf = [&](Path& a) {
        std::string k;
        for (auto& s : layout) {
            if (s.kind == 2) continue;
            Val v = valueOf(a, s);
            if (v.k == Val::Ptr) {
                k += s.name + "=" + std::to_string(v.region) + ";";
                continue;
            }
            if (v.k == Val::Int && (s.size == 1 || s.width == 1)) {
                Lin e = a.s.P().norm(v.e);
                std::string sv = e.isConst() ? e.c.str() : "?";
                auto& set = smallVals[s.name];
                set.insert(sv);
                if (set.size() <= 4) k += s.name + "=" + sv + ";";
            }
        }
        for (auto& r : a.s.mem) {
            if (r.second->kind == Region::Func || r.second->kind == Region::Global) continue;
            if (r.second->freed) k += "F" + std::to_string(r.first) + ";";
            if (!persistent.count(r.first)) k += "B" + std::to_string(r.first) + ";";
        }
        for (int r : persistent)
            if (!a.s.mem.count(r)) k += "D" + std::to_string(r) + ";";
        for (auto& u : a.s.keys) k += "u" + std::to_string(u.first) + "=" + std::to_string(u.second) + ";";
        return k;
    };

    // outer terms
    std::vector<Lin> outer;
    auto addOuter = [&](const Lin& l0) {
        Lin l = E.s.P().norm(l0);
        if (l.isConst()) return;
        for (auto& o : outer)
            if (o == l) return;
        if (outer.size() < 14) outer.push_back(l);
    };

    auto build = [&](Disj& d) {
        Path& first = d.arr[0];
        Path b = first;
        b.s.poly = E.s.poly;
        b.s.lazy = E.s.lazy;
        b.s.terms = E.s.terms;
        b.s.trace = E.s.trace;
        d.sym.clear();
        std::vector<std::pair<const Slot*, Lin>> nums; // slot, symbol term
        std::vector<std::vector<Lin>> vals(d.arr.size());
        std::set<int> wiped;
        for (int r : modContent) {
            if (!b.s.mem.count(r)) continue;
            Region& R = b.s.R(r);
            auto n = std::make_shared<Node>();
            n->k = Node::Base;
            n->b = Node::Unknown;
            n->baseId = nextBase++;
            // keep only cells that are slots
            std::map<int64_t, Cell> keep;
            for (auto& s : layout)
                if (s.kind == 1 && s.region == r) {
                    auto it = R.top.find(s.off);
                    if (it != R.top.end() && it->second.size == s.size) keep[s.off] = it->second;
                }
            R.top = keep;
            R.log = n;
        }
        for (auto& s : layout) {
            bool born = s.kind != 0 && !persistent.count(s.region);
            if (s.kind != 0 && !first.s.mem.count(s.region)) continue; // absent in this disjunct
            Val fv = valueOf(first, s);
            bool mod = mods.count(s.name) || born;
            if (!mod) {
                // value equal to E's
                if (s.kind == 0) {
                    Path e2 = E;
                    Val ev = valueOf(e2, s);
                    b.r[s.phi] = ev;
                } else if (s.kind == 1) {
                    Path e2 = E;
                    Val ev = valueOf(e2, s);
                    if (ev.k != Val::Undef) {
                        Region& R = b.s.R(s.region);
                        eraseTop(b.s, R, s.off, s.size);
                        R.top[s.off] = {s.size, ev};
                    } else {
                        Region& R = b.s.R(s.region);
                        eraseTop(b.s, R, s.off, s.size);
                        R.top[s.off] = {s.size, Val::undef()};
                    }
                }
                continue;
            }
            Val nv;
            bool isUndef = undefSlots.count(s.name) || fv.k == Val::Undef || fv.k == Val::Agg || fv.k == Val::Blob;
            if (!isUndef) {
                // constants of keyed slots stay constant
                bool keyedConst = fv.k == Val::Int && (s.size == 1 || s.width == 1) && first.s.P().norm(fv.e).isConst() &&
                                  smallVals[s.name].size() <= 4;
                if (keyedConst) {
                    nv = Val::i(first.s.P().norm(fv.e));
                } else if (fv.isNull() && first.s.P().norm(fv.e).isZero()) {
                    nv = fv;
                } else {
                    bool real = fv.k == Val::Fp;
                    Sym y = newSym(real, s.name);
                    d.sym[s.name] = y;
                    nv = fv;
                    nv.e = Lin::var(y);
                    nums.push_back({&s, nv.e});
                }
            } else
                nv = Val::undef();
            if (s.kind == 0)
                b.r[s.phi] = nv;
            else if (s.kind == 1) {
                Region& R = b.s.R(s.region);
                eraseTop(b.s, R, s.off, s.size);
                if (!(nv.k == Val::Undef && modContent.count(s.region))) R.top[s.off] = {s.size, nv};
            } else
                b.s.R(s.region).size = nv.e;
        }
        // values of the numeric slots in every arrival
        std::vector<bool> good(nums.size(), true);
        for (size_t k = 0; k < d.arr.size(); ++k) {
            vals[k].resize(nums.size());
            for (size_t i = 0; i < nums.size(); ++i)
                if (!num(d.arr[k], *nums[i].first, vals[k][i])) good[i] = false;
        }
        // affine equalities valid in all arrivals
        std::vector<Lin> basis; // over slot symbols and outer symbols
        {
            // affine hull of arrival 0 over the slots, the symbols of the context and the constant one
            std::vector<Lin> es, forms;
            std::set<Sym> os;
            for (size_t i = 0; i < nums.size(); ++i) {
                if (!good[i]) continue;
                es.push_back(vals[0][i]);
                forms.push_back(nums[i].second);
                for (size_t k = 0; k < d.arr.size(); ++k)
                    for (auto& t : vals[k][i].t)
                        if (t.first < symMark) os.insert(t.first);
            }
            for (auto& o : outer)
                for (auto& t : o.t)
                    if (t.first < symMark) os.insert(t.first);
            for (Sym y : os) {
                Lin v = Lin::var(y);
                Lin in0 = E.s.P().norm(v);
                if (!(in0.t.size() == 1 && in0.t[0].first == y)) continue; // determined by other context symbols
                es.push_back(d.arr[0].s.P().norm(v));
                forms.push_back(v);
            }
            es.push_back(Lin(1));
            forms.push_back(Lin(1));
            auto rel = relations(es);
            for (auto& c : rel) {
                Lin row;
                for (size_t i = 0; i < forms.size(); ++i)
                    if (c[i].sgn()) row = row + forms[i].scaled(c[i]);
                if (!row.isZero()) basis.push_back(row);
            }
        }
        auto evalIn = [&](size_t k, const Lin& row) {
            Lin r;
            r.c = row.c;
            for (auto& t : row.t) {
                bool hit = false;
                for (size_t i = 0; i < nums.size(); ++i)
                    if (nums[i].second.t[0].first == t.first) {
                        r = r + vals[k][i].scaled(t.second);
                        hit = true;
                        break;
                    }
                if (!hit) {
                    Lin v;
                    v.t.push_back(t);
                    r = r + d.arr[k].s.P().norm(v);
                }
            }
            return d.arr[k].s.P().norm(r);
        };
        for (size_t k = 1; k < d.arr.size() && !basis.empty(); ++k) {
            std::vector<Lin> ev;
            for (auto& r : basis) ev.push_back(evalIn(k, r));
            auto rel = relations(ev);
            std::vector<Lin> nb;
            for (auto& c : rel) {
                Lin row;
                for (size_t i = 0; i < basis.size(); ++i)
                    if (c[i].sgn()) row = row + basis[i].scaled(c[i]);
                if (!row.isZero()) nb.push_back(row);
            }
            basis = nb;
        }
        d.rows = basis;
        // difference bounds
        d.facts.clear();
        auto holds = [&](const Lin& e, const Q& bnd) {
            for (size_t k = 0; k < d.arr.size(); ++k) {
                Lin v = evalIn(k, e);
                if (!d.arr[k].s.P().entailsGE(v - Lin(bnd))) return false;
            }
            return true;
        };
        auto search = [&](const Lin& e, const std::vector<Q>& th, Q& best) {
            // largest threshold that holds in every arrival
            int lo = 0, hi = (int)th.size() - 1, ans = -1;
            if (!holds(e, th[0])) return false;
            ans = 0;
            lo = 1;
            while (lo <= hi) {
                int mid = (lo + hi) / 2;
                if (holds(e, th[mid])) {
                    ans = mid;
                    lo = mid + 1;
                } else
                    hi = mid - 1;
            }
            best = th[ans];
            return true;
        };
        std::vector<Q> cth, nth, pth;
        for (auto v : thresholds) cth.push_back(Q(v));
        for (size_t i = thresholds.size(); i-- > 0;) nth.push_back(Q(-thresholds[i]));
        for (int v : {-8, -4, -1, 0, 1, 4, 8}) pth.push_back(Q(v));
        std::vector<Q> rth, r0{Q(0)};
        for (int v : {-8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 8}) rth.push_back(Q(v));
        auto tryFact = [&](const Lin& e, const std::vector<Q>& th, bool kst) {
            // implied by the equalities already? keep cheap: just test
            Q b0;
            if (search(e, th, b0)) d.facts.push_back({e, b0, false, kst});
        };
        for (size_t i = 0; i < nums.size(); ++i) {
            if (!good[i]) continue;
            const Lin& x = nums[i].second;
            bool real = g_syms[x.t[0].first].real;
            tryFact(x, real ? rth : cth, true);
            tryFact(-x, real ? rth : nth, true);
            for (auto& o : outer) {
                bool oreal = !o.intSyms();
                if (oreal != real) continue;
                tryFact(x - o, real ? r0 : pth, false);
                tryFact(o - x, real ? r0 : pth, false);
            }
            for (size_t j = i + 1; j < nums.size(); ++j) {
                if (!good[j]) continue;
                const Lin& y = nums[j].second;
                if (g_syms[y.t[0].first].real != real) continue;
                tryFact(x - y, real ? r0 : pth, false);
                tryFact(y - x, real ? r0 : pth, false);
            }
        }
        // congruences: what all arrivals have in common modulo a step
        d.strides.clear();
        for (size_t i = 0; i < nums.size(); ++i) {
            if (!good[i] || nums[i].first->kind == 2 || g_syms[nums[i].second.t[0].first].real || nums[i].first->size < 4) continue;
            i128 g = 0;
            Lin origin;
            bool ok = vals[0][i].allInt();
            if (!ok) continue;
            origin.c = vals[0][i].c;
            for (auto& t : vals[0][i].t) {
                if (t.first < symMark)
                    origin.t.push_back(t);
                else
                    g = gcd128(g, t.second.n);
            }
            for (size_t k = 1; ok && k < d.arr.size(); ++k) {
                Lin df = vals[k][i] - origin;
                ok = df.allInt();
                if (!ok) break;
                for (auto& t : df.t) g = gcd128(g, t.second.n);
                g = gcd128(g, df.c.n);
            }
            if (ok && g > 1 && g <= 4096) d.strides.push_back({nums[i].first->name, g, origin});
        }
        for (auto& s : d.strides) {
            Sym k = newSym(false, s.slot + "/step");
            b.s.Pm().addEQ(Lin::var(d.sym[s.slot]) - s.origin - Lin::var(k).scaled(Q(s.g)));
        }
        for (auto& r : d.rows) b.s.Pm().addEQ(r);
        for (auto& f : d.facts) b.s.Pm().addGE(f.e - Lin(f.b));
        if (b.s.P().bottom) {
            // cannot happen for a sound generalisation of non-empty arrivals
            throw Abort{"inconsistent loop invariant"};
        }
        note(b.s, &*H->getFirstNonPHIIt(), "any iteration of the loop");
        d.base = std::move(b);
        d.built = true;
        d.dirty = true;
    };

    // value of a row over the slots of d in an arrival
    auto slotVals = [&](Path& a, Disj& d) {
        std::map<Sym, Lin> val;
        for (auto& s : layout) {
            auto it = d.sym.find(s.name);
            if (it == d.sym.end()) continue;
            Lin v;
            if (num(a, s, v)) val[it->second] = v;
        }
        return val;
    };
    auto evalRow = [&](Path& a, Disj& d, const std::map<Sym, Lin>& val, const Lin& row, bool& def) {
        Lin r;
        r.c = row.c;
        def = true;
        for (auto& t : row.t) {
            auto it = val.find(t.first);
            if (it != val.end())
                r = r + it->second.scaled(t.second);
            else {
                if (t.first >= symMark) {
                    for (auto& q : d.sym)
                        if (q.second == t.first) {
                            def = false;
                            return r;
                        }
                }
                Lin v;
                v.t.push_back(t);
                r = r + v;
            }
        }
        return a.s.P().norm(r);
    };
    // is the arrival covered by d?  (d built with current mods/layout)
    auto covered = [&](Path& a, Disj& d) {
        auto val = slotVals(a, d);
        for (auto& q : d.sym)
            if (!val.count(q.second)) return false;
        bool def;
        for (auto& r : d.rows) {
            Lin v = evalRow(a, d, val, r, def);
            if (!def || !(v.isZero() || a.s.P().entailsEQ(v))) return false;
        }
        for (auto& f : d.facts) {
            Lin v = evalRow(a, d, val, f.e, def);
            if (!def || !a.s.P().entailsGE(v - Lin(f.b))) return false;
        }
        for (auto& s : d.strides) {
            Lin v = evalRow(a, d, val, Lin::var(d.sym[s.slot]) - s.origin, def);
            if (!def || !v.allInt() || v.c.n % s.g) return false;
            for (auto& t : v.t)
                if (t.second.n % s.g) return false;
        }
        return true;
    };
    // equalities of d lost by joining the arrival
    auto loss = [&](Path& a, Disj& d) {
        auto val = slotVals(a, d);
        std::vector<Lin> ev;
        int lost = 0;
        for (auto& r : d.rows) {
            bool def;
            Lin v = evalRow(a, d, val, r, def);
            if (!def) {
                ++lost;
                continue;
            }
            ev.push_back(v);
        }
        return lost + (int)ev.size() - (int)relations(ev).size();
    };

    auto rebuildAll = [&]() {
        for (auto& d : ds) {
            for (auto& x : d->arr) {
                for (auto& s : layout)
                    if (mods.count(s.name) && s.kind != 2) {
                        if (s.kind == 1 && !x.s.mem.count(s.region)) continue;
                        Val v = valueOf(x, s);
                        if (v.k == Val::Undef || v.k == Val::Agg || v.k == Val::Blob) undefSlots.insert(s.name);
                    }
            }
        }
        for (auto& d : ds) {
            d->key = keyOf(d->arr[0]);
            build(*d);
        }
        rebuild = false;
    };
    auto arriveAll = [&](std::vector<Path> as, Disj* src) {
        for (auto& a : as) normalise(a);
        as.erase(std::remove_if(as.begin(), as.end(), [](Path& a) { return !a.s.Pm().feasible(); }), as.end());
        // new modified slots
        for (auto& a : as)
            for (auto& s : layout) {
                if (s.kind == 2) continue;
                if (s.kind == 1 && !persistent.count(s.region)) continue;
                if (s.kind == 1 && !a.s.mem.count(s.region)) continue;
                Val v = valueOf(a, s);
                if (!mods.count(s.name)) {
                    Path e2 = E;
                    Val ev = valueOf(e2, s);
                    if (!sameVal(a, v, ev)) {
                        mods.insert(s.name);
                        rebuild = true;
                    }
                }
                if ((v.k == Val::Undef || v.k == Val::Agg || v.k == Val::Blob) && mods.count(s.name) && !undefSlots.count(s.name)) {
                    undefSlots.insert(s.name);
                    rebuild = true;
                }
            }
        for (auto& a : as) keyOf(a); // learn which small slots are discrete
        if (rebuild) rebuildAll();
        while (!as.empty()) {
            int bi = -1, bscore = 0;
            Disj* bd = nullptr;
            std::vector<bool> done(as.size(), false);
            std::vector<std::string> ks;
            std::vector<int> cnt(as.size(), 0);
            for (size_t i = 0; i < as.size(); ++i) {
                std::string k = keyOf(as[i]);
                ks.push_back(k);
                int best = 1 << 28;
                Disj* d1 = nullptr;
                for (auto& d : ds) {
                    if (d->key != k) continue;
                    ++cnt[i];
                    if (covered(as[i], *d)) {
                        done[i] = true;
                        break;
                    }
                    bool step = d->joins == 0 && d.get() == src; // first step along the iteration
                    int ls = loss(as[i], *d);
                    int sc = 64 * (4 * ls + (d->joins ? 0 : step ? -3 : -1)) - std::min(63, (int)d->rows.size() - ls);
                    if (sc < best) best = sc, d1 = d.get();
                }
                if (done[i]) continue;
                if (d1 && (bi < 0 || best < bscore)) bi = (int)i, bscore = best, bd = d1;
            }
            int pick = -1;
            bool fresh = false;
            if (bd && bscore <= 64)
                pick = bi;
            else {
                for (size_t i = 0; i < as.size(); ++i)
                    if (!done[i] && cnt[i] < maxDisj) {
                        pick = (int)i;
                        fresh = true;
                        break;
                    }
                if (pick < 0) pick = bi;
            }
            if (pick >= 0) {
                if (fresh) {
                    if (ds.size() > (size_t)std::max(40, splitMax)) throw Abort{"too many loop partitions at " + loc(&*H->getFirstNonPHIIt())};
                    auto d = std::make_unique<Disj>();
                    d->key = ks[pick];
                    d->arr.push_back(std::move(as[pick]));
                    build(*d);
                    ds.push_back(std::move(d));
                } else {
                    bd->arr.push_back(std::move(as[pick]));
                    bd->joins++;
                    build(*bd);
                }
                done[pick] = true;
            }
            std::vector<Path> rest;
            for (size_t i = 0; i < as.size(); ++i)
                if (!done[i]) rest.push_back(std::move(as[i]));
            as = std::move(rest);
            if (rebuild) rebuildAll();
        }
    };

    // seed with the entry state
    {
        for (auto& t : E.s.terms) addOuter(t);
        for (auto& v : E.r)
            if (v.second.k == Val::Int || v.second.k == Val::Ptr) addOuter(v.second.e);
        for (auto it = E.s.mem.rbegin(); it != E.s.mem.rend(); ++it) {
            addOuter(it->second->size);
            for (auto& c : it->second->top)
                if (c.second.v.k == Val::Int || c.second.v.k == Val::Fp) addOuter(c.second.v.e);
        }
        auto d = std::make_unique<Disj>();
        Path a = E;
        normalise(a);
        rebuild = false;
        d->key = keyOf(a);
        d->arr.push_back(a);
        build(*d);
        ds.push_back(std::move(d));
    }
    ++suppress;
    {
        int iter = 0;
        try {
            for (bool any = true; any;) {
                any = false;
                if (++iter > 60) throw Abort{"loop fixpoint does not stabilise at " + loc(&*H->getFirstNonPHIIt())};
                for (size_t i = 0; i < ds.size(); ++i) {
                    if (!ds[i]->dirty) continue;
                    ds[i]->dirty = false;
                    any = true;
                    std::vector<Path> b, e;
                    std::vector<Outcome> r;
                    Path st = ds[i]->base;
                    st.enter = true;
                    std::vector<Path> init;
                    init.push_back(std::move(st));
                    Sink tmp;
                    sinks.push_back(&tmp);
                    try {
                        run(std::move(init), L, F, b, e, r);
                    } catch (...) {
                        sinks.pop_back();
                        throw;
                    }
                    sinks.pop_back();
                    if (verbose)
                        errs() << "[loop " << loc(&*H->getFirstNonPHIIt()) << "] iter " << iter << " disj " << i << "/" << ds.size()
                               << " backs " << b.size() << " exits " << e.size() << " t=" << (int)elapsed() << "\n";
                    for (auto& x : b) phis(x);
                    arriveAll(std::move(b), ds[i].get());
                }
            }
        } catch (...) {
            --suppress;
            throw;
        }
    }
    --suppress;
    if (verbose) {
        for (auto& d : ds) {
            errs() << "[loop " << loc(&*H->getFirstNonPHIIt()) << "] invariant key={" << d->key << "} rows:";
            for (auto& r : d->rows) errs() << " " << r.str() << "=0;";
            errs() << " facts " << d->facts.size() << "\n";
        }
    }
    for (auto& d : ds) {
        std::vector<Path> b, e;
        Path st = d->base;
        st.enter = true;
        std::vector<Path> init;
        init.push_back(st);
        const long before = nondet;
        run(std::move(init), L, F, b, e, rets);
        if (nondet == before) {
            std::vector<Path> again = b;
            for (auto& x : again) phis(x);
            checkEndless(L, st, again, before);
        }
        // leaks of loop-born regions are found when the back edge is normalised
        if (leakCheck)
            for (auto& x : b) {
                phis(x);
                normalise(x);
            }
        for (auto& x : e) exits.push_back(std::move(x));
    }
}
