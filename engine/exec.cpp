#include "absint.hpp"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/Support/raw_ostream.h"

Val Engine::eval(Path& p, const Value* v) {
    if (auto* C = dyn_cast<Constant>(v)) return constVal(p.s, C);
    auto it = p.r.find(v);
    if (it != p.r.end()) return it->second;
    return Val::undef();
}

bool Engine::truth(const Val& v, bool& out) {
    if (v.k == Val::Int && v.e.isConst()) {
        out = v.e.c.sgn() != 0;
        return true;
    }
    return false;
}

Engine::SVs Engine::decide(const State& s, const Val& c, const Instruction* I) {
    SVs out;
    if (c.k == Val::Int) {
        Lin e = s.P().norm(c.e);
        if (e.isConst()) {
            bool b = ((e.c.n % 2) + 2) % 2 != 0;
            out.push_back({s, Val::i(Lin(b ? 1 : 0))});
            return out;
        }
        auto nu = normU(s, e, 1);
        for (auto& x : nu) {
            std::vector<State> t, f;
            splitEQ(x.first, x.second, f, t);
            for (auto& a : t) out.push_back({std::move(a), Val::i(Lin(1))});
            for (auto& a : f) out.push_back({std::move(a), Val::i(Lin(0))});
        }
        return out;
    }
    if (c.k == Val::Undef && uninitCheck) alarm(s, I, "uninitialised", "decision depends on an uninitialised value");
    out.push_back({s, Val::i(Lin(1))});
    out.push_back({s, Val::i(Lin(0))});
    return out;
}

Engine::SVs Engine::fpUF(const State& s, const std::string& o, std::vector<Lin> args, Type* T) {
    SVs out;
    State t = s;
    std::string k = o + (T->isFloatTy() ? "f" : "d") + "(";
    for (auto& a : args) k += t.P().norm(a).key() + ",";
    Sym y = ufSym(k + ")", true, o);
    out.push_back({std::move(t), Val::f(Lin::var(y))});
    return out;
}

// is q exactly representable in the type?
bool fpExactConst(const Q& q, Type* T) {
    int mant = T->isFloatTy() ? 24 : 53;
    i128 d = q.d;
    while (d > 1) {
        if (d & 1) return false;
        d >>= 1;
    }
    i128 n = q.n < 0 ? -q.n : q.n;
    while (n && !(n & 1)) n >>= 1;
    int bits = 0;
    while (n) {
        ++bits;
        n >>= 1;
    }
    return bits <= mant;
}

bool fpToQ(const APFloat& f, Q& out);

// an operation on constants, rounded as the machine rounds it
static bool foldFP(unsigned opc, const Q& x, const Q& y, Type* T, Q& out) {
    if (!T->isFloatTy() && !T->isDoubleTy()) return false;
    if (!fpExactConst(x, T) || !fpExactConst(y, T)) return false;
    const double dx = NumTraits<mpq_class>::from(x).get_d(), dy = NumTraits<mpq_class>::from(y).get_d();
    const auto& sem = T->isFloatTy() ? APFloat::IEEEsingle() : APFloat::IEEEdouble();
    bool li;
    APFloat fx(dx), fy(dy);
    fx.convert(sem, APFloat::rmNearestTiesToEven, &li);
    fy.convert(sem, APFloat::rmNearestTiesToEven, &li);
    switch (opc) {
    case Instruction::FAdd: fx.add(fy, APFloat::rmNearestTiesToEven); break;
    case Instruction::FSub: fx.subtract(fy, APFloat::rmNearestTiesToEven); break;
    case Instruction::FMul: fx.multiply(fy, APFloat::rmNearestTiesToEven); break;
    case Instruction::FDiv: fx.divide(fy, APFloat::rmNearestTiesToEven); break;
    default: return false;
    }
    return fx.isFinite() && fpToQ(fx, out);
}

Engine::SVs Engine::divrem(const State& s0, bool sgn, bool rem, const Lin& a0, const Lin& b0, unsigned w,
                           const Instruction* I) {
    SVs out;
    auto as = sgn ? normS(s0, a0, w) : normU(s0, a0, w);
    for (auto& xa : as) {
        auto bs = sgn ? normS(xa.first, b0, w) : normU(xa.first, b0, w);
        for (auto& xb : bs) {
            State s = std::move(xb.first);
            Lin a = s.P().norm(xa.second), b = s.P().norm(xb.second);
            // division by zero
            {
                std::vector<State> z, nz;
                splitEQ(s, b, z, nz);
                for (auto& q : z) alarm(q, I, "division-by-zero", "integer division or remainder by zero");
                if (nz.empty()) continue;
                s = std::move(nz[0]);
            }
            a = s.P().norm(a);
            b = s.P().norm(b);
            if (a.isConst() && b.isConst()) {
                i128 q = a.c.n / b.c.n, r = a.c.n % b.c.n;
                out.push_back({s, Val::i(Lin(Q(rem ? r : q)))});
                continue;
            }
            // sign cases
            std::vector<State> pos, neg;
            if (sgn)
                split(s, a, false, pos, neg);
            else
                pos.push_back(s);
            auto nonneg = [&](State t, const Lin& n, const Lin& d, bool nneg, bool dneg) {
                // n >= 0, d > 0; result signs applied afterwards
                Lin nn = t.P().norm(n), dd = t.P().norm(d);
                auto emitq = [&](State u, const Lin& q) {
                    out.push_back({std::move(u), Val::i((nneg != dneg) ? -q : q)});
                };
                auto emitr = [&](State u, const Lin& r) { out.push_back({std::move(u), Val::i(nneg ? -r : r)}); };
                if (dd == Lin(1)) {
                    if (rem)
                        emitr(t, Lin(0));
                    else
                        emitq(t, nn);
                    return;
                }
                // small quotients exactly: n < d, d <= n < 2d
                if (!dd.isConst()) {
                    std::vector<State> lt, ge;
                    split(t, nn - dd, false, ge, lt);
                    for (auto& u : lt) {
                        if (rem)
                            emitr(u, nn);
                        else
                            emitq(u, Lin(0));
                    }
                    for (auto& u : ge) {
                        std::vector<State> lt2, ge2;
                        split(u, nn - dd.scaled(Q(2)), false, ge2, lt2);
                        for (auto& x : lt2) {
                            if (rem)
                                emitr(x, nn - dd);
                            else
                                emitq(x, Lin(1));
                        }
                        for (auto& x : ge2) {
                            if (rem) {
                                Sym y = ufSym("urem(" + nn.key() + "," + dd.key() + ")", false, "rem");
                                Lin r = Lin::var(y);
                                x.Pm().addGE(r);
                                x.Pm().addGE(dd - r - Lin(1));
                                x.Pm().addGE(nn - r);
                                emitr(std::move(x), r);
                            } else {
                                Sym y = ufSym("udiv(" + nn.key() + "," + dd.key() + ")", false, "quot");
                                Lin q = Lin::var(y);
                                x.Pm().addGE(q - Lin(2));
                                x.Pm().addGE(nn - q.scaled(Q(2)));
                                emitq(std::move(x), q);
                            }
                        }
                    }
                    return;
                }
                Q c = dd.c;
                // exact multiple?
                bool mult = nn.intSyms();
                for (auto& p : nn.t)
                    if (!(p.second / c).isInt()) mult = false;
                if (mult) {
                    // n = c*m + k
                    Q k = nn.c - (nn.c / c).floor() * c;
                    if (rem)
                        emitr(t, Lin(k));
                    else
                        emitq(t, (nn - Lin(k)).scaled(Q(1) / c));
                    return;
                }
                Sym y = ufSym("udiv(" + nn.key() + "," + dd.key() + ")", false, "quot");
                Lin q = Lin::var(y);
                t.Pm().addGE(q);
                t.Pm().addGE(nn - q.scaled(c));
                t.Pm().addGE(q.scaled(c) + Lin(c - Q(1)) - nn);
                if (t.P().bottom) return;
                if (rem)
                    emitr(std::move(t), nn - q.scaled(c));
                else
                    emitq(std::move(t), q);
            };
            for (auto& t : pos) {
                if (!sgn) {
                    nonneg(t, a, b, false, false);
                    continue;
                }
                std::vector<State> bp, bn;
                split(t, b, true, bp, bn);
                for (auto& u : bp) nonneg(u, a, b, false, false);
                for (auto& u : bn) nonneg(u, a, -b, false, true);
            }
            for (auto& t : neg) {
                std::vector<State> bp, bn;
                split(t, b, true, bp, bn);
                for (auto& u : bp) nonneg(u, -a, b, true, false);
                for (auto& u : bn) nonneg(u, -a, -b, true, true);
            }
        }
    }
    return out;
}

static bool maskK(const Lin& e, unsigned w, unsigned& k) { // e == 2^k - 1 (mod 2^w)
    if (!e.isConst()) return false;
    unsigned __int128 m = (unsigned __int128)e.c.n;
    if (w < 128) m &= (((unsigned __int128)1) << w) - 1;
    for (k = 0; k <= w; ++k)
        if (m == (((unsigned __int128)1) << k) - 1) return true;
    return false;
}

Engine::SVs Engine::binop(const State& s, unsigned opc, const Val& a, const Val& b, Type* T, const Instruction* I) {
    SVs out;
    if (T->isFloatingPointTy()) {
        if (a.k != Val::Fp || b.k != Val::Fp) {
            State t = s;
            Val v = Val::f(fresh("fp?", true));
            out.push_back({std::move(t), v});
            return out;
        }
        Lin x = s.P().norm(a.e), y = s.P().norm(b.e);
        bool cc = x.isConst() && y.isConst();
        auto ret = [&](const Lin& l) { out.push_back({s, Val::f(l)}); };
        if (Q folded; cc && !fpExact && foldFP(opc, x.c, y.c, T, folded)) return ret(Lin(folded)), out;
        switch (opc) {
        case Instruction::FAdd:
            if (x.isZero()) return ret(y), out;
            if (y.isZero()) return ret(x), out;
            if (fpExact || (cc && fpExactConst(x.c + y.c, T))) return ret(x + y), out;
            {
                auto r = fpUF(s, "fadd", x.key() < y.key() ? std::vector<Lin>{x, y} : std::vector<Lin>{y, x}, T);
                for (auto& q : r) // rounding is monotone
                    for (int i = 0; i < 2; ++i) {
                        const Lin &m = i ? y : x, &o = i ? x : y;
                        if (q.first.P().entailsGE(o)) q.first.Pm().addGE(q.second.e - m);
                        if (q.first.P().entailsGE(-o)) q.first.Pm().addGE(m - q.second.e);
                    }
                return r;
            }
        case Instruction::FSub: {
            if (y.isZero()) return ret(x), out;
            if (x == y) return ret(Lin(0)), out;
            if (x.isZero()) return ret(-y), out;
            if (fpExact || (cc && fpExactConst(x.c - y.c, T))) return ret(x - y), out;
            auto r = fpUF(s, "fsub", {x, y}, T);
            // rounding is monotone: the sign of a difference is exact
            SVs o2;
            for (auto& q : r) {
                Lin d = q.second.e;
                std::vector<State> ge, lt;
                if (q.first.P().entailsGE(x - y)) q.first.Pm().addGE(d);
                if (q.first.P().entailsGE(y - x)) q.first.Pm().addGE(-d);
                if (q.first.P().entailsGE(x - y, true)) q.first.Pm().addGE(d, true);
                if (q.first.P().entailsGE(y - x, true)) q.first.Pm().addGE(-d, true);
                if (q.first.P().entailsGE(y)) q.first.Pm().addGE(x - d);
                if (q.first.P().entailsGE(-y)) q.first.Pm().addGE(d - x);
                o2.push_back(q);
            }
            return o2;
        }
        case Instruction::FMul:
            if (x == Lin(1)) return ret(y), out;
            if (y == Lin(1)) return ret(x), out;
            if (x == Lin(-1)) return ret(-y), out;
            if (y == Lin(-1)) return ret(-x), out;
            if (x.isZero() || y.isZero()) return ret(Lin(0)), out;
            if (cc && fpExactConst(x.c * y.c, T)) return ret(Lin(x.c * y.c)), out;
            if (fpExact && x.isConst()) return ret(y.scaled(x.c)), out;
            if (fpExact && y.isConst()) return ret(x.scaled(y.c)), out;
            {
                auto r = fpUF(s, "fmul", x.key() < y.key() ? std::vector<Lin>{x, y} : std::vector<Lin>{y, x}, T);
                for (auto& q : r) {
                    bool xp = q.first.P().entailsGE(x), yp = q.first.P().entailsGE(y);
                    bool xn = q.first.P().entailsGE(-x), yn = q.first.P().entailsGE(-y);
                    if ((xp && yp) || (xn && yn)) q.first.Pm().addGE(q.second.e);
                    if ((xp && yn) || (xn && yp)) q.first.Pm().addGE(-q.second.e);
                }
                return r;
            }
        case Instruction::FDiv:
            if (y == Lin(1)) return ret(x), out;
            if (cc && y.c.sgn() && fpExactConst(x.c / y.c, T)) return ret(Lin(x.c / y.c)), out;
            if (fpExact && y.isConst() && y.c.sgn()) return ret(x.scaled(Q(1) / y.c)), out;
            {
                auto r = fpUF(s, "fdiv", {x, y}, T);
                for (auto& q : r) {
                    bool xp = q.first.P().entailsGE(x), yp = q.first.P().entailsGE(y, true);
                    if (xp && yp) q.first.Pm().addGE(q.second.e);
                    if (q.first.P().entailsGE(-x) && yp) q.first.Pm().addGE(-q.second.e);
                }
                return r;
            }
        default: return fpUF(s, "frem", {x, y}, T);
        }
    }
    if (!T->isIntegerTy()) {
        out.push_back({s, Val::undef()});
        return out;
    }
    unsigned w = T->getIntegerBitWidth();
    // pointer arithmetic done on integers
    if (a.k == Val::Ptr || b.k == Val::Ptr) {
        if (opc == Instruction::Sub && a.k == Val::Ptr && b.k == Val::Ptr && a.region == b.region) {
            out.push_back({s, Val::i(a.e - b.e)});
            return out;
        }
        if (opc == Instruction::Add && a.k == Val::Ptr && b.k == Val::Int) {
            out.push_back({s, Val::p(a.region, a.e + b.e)});
            return out;
        }
        if (opc == Instruction::Add && b.k == Val::Ptr && a.k == Val::Int) {
            out.push_back({s, Val::p(b.region, a.e + b.e)});
            return out;
        }
        if (opc == Instruction::Sub && a.k == Val::Ptr && b.k == Val::Int) {
            out.push_back({s, Val::p(a.region, a.e - b.e)});
            return out;
        }
        if (opc == Instruction::And && b.k == Val::Int && a.k == Val::Ptr && b.e == Lin(1)) {
            // alignment bit of a member-function pointer
            out.push_back({s, Val::i(Lin(0))});
            return out;
        }
        State t = s;
        Val v = Val::i(freshInt(t, w, false, "ptrint"));
        out.push_back({std::move(t), v});
        return out;
    }
    if (a.k != Val::Int || b.k != Val::Int) {
        // bit-blob masks used for member access of coerced aggregates
        if (a.k == Val::Undef && uninitCheck && b.k == Val::Int && opc != Instruction::And && opc != Instruction::Or)
            alarm(s, I, "uninitialised", "arithmetic on an uninitialised value");
        State t = s;
        Val v = Val::i(freshInt(t, w, false, "undef"));
        out.push_back({std::move(t), v});
        return out;
    }
    Lin x = s.P().norm(a.e), y = s.P().norm(b.e);
    auto ret = [&](const Lin& l) { out.push_back({s, Val::i(l)}); };
    auto retFresh = [&](const std::string& nm, bool sg = false) {
        State t = s;
        Sym u = ufSym(nm + std::to_string(w) + "(" + x.key() + "," + y.key() + ")", false, nm);
        Lin l = Lin::var(u);
        t.Pm().addGE(l);
        t.Pm().addGE(Lin(pow2(w) - Q(1)) - l);
        out.push_back({std::move(t), Val::i(l)});
    };
    auto* OBO = I ? dyn_cast<OverflowingBinaryOperator>(I) : nullptr;
    switch (opc) {
    case Instruction::Add:
    case Instruction::Sub: {
        Lin r = opc == Instruction::Add ? x + y : x - y;
        if (w == 1) {
            auto d = decide(s, Val::i(r), I);
            return d;
        }
        if (OBO && OBO->hasNoSignedWrap() && !r.isConst()) {
            // operands as signed values; the result must be representable
            auto xs = normS(s, x, w);
            for (auto& p : xs) {
                auto ys = normS(p.first, y, w);
                for (auto& q : ys) {
                    State t = std::move(q.first);
                    Lin v = opc == Instruction::Add ? p.second + q.second : p.second - q.second;
                    if (wrapCheck) {
                        if (!inRange(t, v, -pow2(w - 1), pow2(w - 1) - Q(1)) && loc(I).find(repoPrefix) != std::string::npos)
                            alarm(t, I, "signed-overflow", "signed arithmetic may overflow");
                    }
                    t.Pm().addGE(v + Lin(pow2(w - 1)));
                    t.Pm().addGE(Lin(pow2(w - 1) - Q(1)) - v);
                    if (!t.P().bottom) out.push_back({std::move(t), Val::i(v)});
                }
            }
            return out;
        }
        ret(r);
        return out;
    }
    case Instruction::Mul: {
        if (x.isConst() || y.isConst()) {
            Lin r;
            if (x.isConst() && y.isConst())
                r = Lin(x.c * y.c);
            else {
                // interpret the variable operand in its natural range so that scaling stays meaningful
                const Lin& v = x.isConst() ? y : x;
                Q k = x.isConst() ? x.c : y.c;
                if (OBO && OBO->hasNoSignedWrap()) {
                    auto vs = normS(s, v, w);
                    for (auto& q : vs) {
                        State t = std::move(q.first);
                        Lin m = q.second.scaled(k);
                        if (wrapCheck && !inRange(t, m, -pow2(w - 1), pow2(w - 1) - Q(1)) && loc(I).find(repoPrefix) != std::string::npos)
                            alarm(t, I, "signed-overflow", "signed multiplication may overflow");
                        t.Pm().addGE(m + Lin(pow2(w - 1)));
                        t.Pm().addGE(Lin(pow2(w - 1) - Q(1)) - m);
                        if (!t.P().bottom) out.push_back({std::move(t), Val::i(m)});
                    }
                    return out;
                }
                // modular: k reduced to a signed representative
                Q m = pow2(w);
                Q kk = k - ((k + pow2(w - 1)) / m).floor() * m;
                r = v.scaled(kk);
            }
            ret(r);
            return out;
        }
        {
            auto xs = normS(s, x, w);
            for (auto& p : xs) {
                auto ys = normS(p.first, y, w);
                for (auto& q : ys) {
                    State t = std::move(q.first);
                    Lin u = t.P().norm(p.second), v = t.P().norm(q.second);
                    if (u.isConst() || v.isConst()) {
                        out.push_back({t, Val::i(u.isConst() ? v.scaled(u.c) : u.scaled(v.c))});
                        continue;
                    }
                    std::string k1 = u.key(), k2 = v.key();
                    if (k2 < k1) std::swap(k1, k2);
                    bool nsw = OBO && OBO->hasNoSignedWrap();
                    Sym y2 = ufSym(std::string(nsw ? "smul" : "mul") + std::to_string(w) + "(" + k1 + "," + k2 + ")", false, "mul");
                    Lin l = Lin::var(y2);
                    if (nsw) {
                        t.Pm().addGE(l + Lin(pow2(w - 1)));
                        t.Pm().addGE(Lin(pow2(w - 1) - Q(1)) - l);
                        if (t.P().entailsGE(u) && t.P().entailsGE(v)) {
                            t.Pm().addGE(l);
                            if (t.P().entailsGE(u - Lin(1))) t.Pm().addGE(l - v);
                            if (t.P().entailsGE(v - Lin(1))) t.Pm().addGE(l - u);
                        }
                    } else {
                        t.Pm().addGE(l);
                        t.Pm().addGE(Lin(pow2(w) - Q(1)) - l);
                    }
                    out.push_back({std::move(t), Val::i(l)});
                }
            }
            return out;
        }
    }
    case Instruction::UDiv: return divrem(s, false, false, x, y, w, I);
    case Instruction::SDiv: return divrem(s, true, false, x, y, w, I);
    case Instruction::URem: return divrem(s, false, true, x, y, w, I);
    case Instruction::SRem: return divrem(s, true, true, x, y, w, I);
    case Instruction::Shl:
        if (y.isConst() && y.c.n >= 0 && y.c.n < (i128)w) {
            ret(x.scaled(pow2((unsigned)y.c.n)));
            return out;
        }
        retFresh("shl");
        return out;
    case Instruction::LShr:
        if (y.isConst() && y.c.n >= 0 && y.c.n < (i128)w) return divrem(s, false, false, x, Lin(pow2((unsigned)y.c.n)), w, I);
        retFresh("lshr");
        return out;
    case Instruction::AShr:
        if (y.isConst() && y.c.n >= 0 && y.c.n < (i128)w) {
            if (y.c.n == 0) {
                ret(x);
                return out;
            }
            // floor division
            auto xs = normS(s, x, w);
            for (auto& p : xs) {
                State t = std::move(p.first);
                Lin v = t.P().norm(p.second);
                Q k = pow2((unsigned)y.c.n);
                if (v.isConst()) {
                    out.push_back({t, Val::i(Lin((v.c / k).floor()))});
                    continue;
                }
                bool mult = true;
                for (auto& q : v.t)
                    if (!(q.second / k).isInt()) mult = false;
                if (mult && (v.c / k).isInt()) {
                    out.push_back({t, Val::i(v.scaled(Q(1) / k))});
                    continue;
                }
                Sym u = ufSym("ashr(" + v.key() + "," + k.str() + ")", false, "ashr");
                Lin q = Lin::var(u);
                t.Pm().addGE(v - q.scaled(k));
                t.Pm().addGE(q.scaled(k) + Lin(k - Q(1)) - v);
                if (!t.P().bottom) out.push_back({std::move(t), Val::i(q)});
            }
            return out;
        }
        retFresh("ashr");
        return out;
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor: {
        if (w == 1) {
            auto da = decide(s, a, I);
            for (auto& p : da) {
                auto db = decide(p.first, b, I);
                for (auto& q : db) {
                    int u = (int)p.second.e.c.n, v = (int)q.second.e.c.n;
                    int r = opc == Instruction::And ? (u & v) : opc == Instruction::Or ? (u | v) : (u ^ v);
                    out.push_back({std::move(q.first), Val::i(Lin(r))});
                }
            }
            return out;
        }
        if (x.isConst() && y.isConst()) {
            unsigned __int128 m = w < 128 ? ((((unsigned __int128)1) << w) - 1) : ~(unsigned __int128)0;
            unsigned __int128 u = (unsigned __int128)x.c.n & m, v = (unsigned __int128)y.c.n & m;
            unsigned __int128 r = opc == Instruction::And ? (u & v) : opc == Instruction::Or ? (u | v) : (u ^ v);
            ret(Lin(Q((i128)r)));
            return out;
        }
        Lin c = x.isConst() ? x : y, v = x.isConst() ? y : x;
        if (c.isConst()) {
            unsigned k;
            unsigned __int128 m = w < 128 ? ((((unsigned __int128)1) << w) - 1) : ~(unsigned __int128)0;
            unsigned __int128 cu = (unsigned __int128)c.c.n & m;
            if (cu == 0) {
                if (opc == Instruction::And)
                    ret(Lin(0));
                else
                    ret(v);
                return out;
            }
            if (cu == m) {
                if (opc == Instruction::And)
                    ret(v);
                else if (opc == Instruction::Or)
                    ret(Lin(-1));
                else
                    ret(-v - Lin(1));
                return out;
            }
            if (opc == Instruction::And && maskK(c, w, k)) return divrem(s, false, true, v, Lin(pow2(k)), w, I);
            if (opc == Instruction::And) {
                // clear the low bits: v - v mod 2^k
                Lin nc = Lin(Q((i128)(~cu & m)));
                if (maskK(nc, w, k)) {
                    auto r = divrem(s, false, true, v, Lin(pow2(k)), w, I);
                    for (auto& q : r) out.push_back({q.first, Val::i(v - q.second.e)});
                    return out;
                }
            }
        }
        if (opc == Instruction::Or || opc == Instruction::Xor) {
            // disjoint bits: one operand is a multiple of 2^k, the other below 2^k
            auto pw = [&](const Lin& e) {
                unsigned k = w;
                auto upd = [&](i128 n) {
                    unsigned c2 = 0;
                    if (n == 0) return;
                    while (!(n & 1)) {
                        n >>= 1;
                        ++c2;
                    }
                    k = std::min(k, c2);
                };
                for (auto& p : e.t) {
                    if (!p.second.isInt()) return 0u;
                    upd(p.second.n);
                }
                upd(e.c.n);
                return k;
            };
            for (int sw = 0; sw < 2; ++sw) {
                const Lin& hiV = sw ? y : x;
                const Lin& loV = sw ? x : y;
                unsigned k = pw(hiV);
                if (k == 0) continue;
                if (k >= w) {
                    ret(loV);
                    return out;
                }
                if (inRange(s, loV, Q(0), pow2(k) - Q(1))) {
                    ret(hiV + loV);
                    return out;
                }
            }
        }
        retFresh(opc == Instruction::And ? "and" : opc == Instruction::Or ? "or" : "xor");
        if (opc == Instruction::And) {
            auto& t = out.back();
            if (inRange(t.first, x, Q(0), pow2(w) - Q(1))) t.first.Pm().addGE(x - t.second.e);
            if (inRange(t.first, y, Q(0), pow2(w) - Q(1))) t.first.Pm().addGE(y - t.second.e);
        }
        return out;
    }
    }
    retFresh("bin" + std::to_string(opc));
    return out;
}

Engine::SVs Engine::cmp(const State& s, CmpInst::Predicate pr, const Val& a0, const Val& b0, Type* T, const Instruction* I) {
    SVs out;
    auto T1 = [&](State st) { out.push_back({std::move(st), Val::i(Lin(1))}); };
    auto F1 = [&](State st) { out.push_back({std::move(st), Val::i(Lin(0))}); };
    Val a = a0, b = b0;
    if (CmpInst::isFPPredicate(pr)) {
        if (pr == CmpInst::FCMP_TRUE) return T1(s), out;
        if (pr == CmpInst::FCMP_FALSE) return F1(s), out;
        if (pr == CmpInst::FCMP_ORD) return T1(s), out;
        if (pr == CmpInst::FCMP_UNO) return F1(s), out;
        if (a.k != Val::Fp || b.k != Val::Fp) {
            if (uninitCheck) alarm(s, I, "uninitialised", "comparison of an uninitialised value");
            T1(s);
            F1(s);
            return out;
        }
        Lin d = a.e - b.e;
        std::vector<State> t, f;
        switch (pr) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: splitEQ(s, d, t, f); break;
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: splitEQ(s, d, f, t); break;
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_UGT: split(s, d, true, t, f); break;
        case CmpInst::FCMP_OGE:
        case CmpInst::FCMP_UGE: split(s, d, false, t, f); break;
        case CmpInst::FCMP_OLT:
        case CmpInst::FCMP_ULT: split(s, -d, true, t, f); break;
        default: split(s, -d, false, t, f); break;
        }
        for (auto& x : t) T1(std::move(x));
        for (auto& x : f) F1(std::move(x));
        return out;
    }
    if (a.k == Val::Ptr || b.k == Val::Ptr) {
        // integers compared with pointers: null checks
        if (a.k == Val::Int && s.P().norm(a.e).isZero()) a = Val::p(0, Lin(0));
        if (b.k == Val::Int && s.P().norm(b.e).isZero()) b = Val::p(0, Lin(0));
        if (a.k == Val::Ptr && b.k == Val::Ptr) {
            if (a.region == b.region) {
                Lin d = a.e - b.e;
                std::vector<State> t, f;
                switch (pr) {
                case CmpInst::ICMP_EQ: splitEQ(s, d, t, f); break;
                case CmpInst::ICMP_NE: splitEQ(s, d, f, t); break;
                case CmpInst::ICMP_UGT:
                case CmpInst::ICMP_SGT: split(s, d, true, t, f); break;
                case CmpInst::ICMP_UGE:
                case CmpInst::ICMP_SGE: split(s, d, false, t, f); break;
                case CmpInst::ICMP_ULT:
                case CmpInst::ICMP_SLT: split(s, -d, true, t, f); break;
                default: split(s, -d, false, t, f); break;
                }
                for (auto& x : t) T1(std::move(x));
                for (auto& x : f) F1(std::move(x));
                return out;
            }
            // distinct objects (one may be null): never equal
            if (pr == CmpInst::ICMP_EQ) return F1(s), out;
            if (pr == CmpInst::ICMP_NE) return T1(s), out;
            if (b.isNull() && (pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_UGE)) return T1(s), out;
            if (a.isNull() && (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE)) return T1(s), out;
            T1(s);
            F1(s);
            return out;
        }
        T1(s);
        F1(s);
        return out;
    }
    if (a.k != Val::Int || b.k != Val::Int || !T->isIntegerTy()) {
        if (uninitCheck && (a.k == Val::Undef || b.k == Val::Undef))
            alarm(s, I, "uninitialised", "comparison of an uninitialised value");
        T1(s);
        F1(s);
        return out;
    }
    unsigned w = T->getIntegerBitWidth();
    bool isEq = pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE;
    bool sg = CmpInst::isSigned(pr);
    if (isEq) {
        Lin d = s.P().norm(a.e - b.e);
        if (d.isConst()) {
            bool eq = (d.c.n % ((i128)1 << w)) == 0;
            if ((pr == CmpInst::ICMP_EQ) == eq)
                T1(s);
            else
                F1(s);
            return out;
        }
        // the difference within one modulus: direct
        if (inRange(s, d, -(pow2(w) - Q(1)), pow2(w) - Q(1))) {
            std::vector<State> t, f;
            if (pr == CmpInst::ICMP_EQ)
                splitEQ(s, d, t, f);
            else
                splitEQ(s, d, f, t);
            for (auto& x : t) T1(std::move(x));
            for (auto& x : f) F1(std::move(x));
            return out;
        }
    }
    auto as = sg ? normS(s, a.e, w) : normU(s, a.e, w);
    for (auto& xa : as) {
        auto bs = sg ? normS(xa.first, b.e, w) : normU(xa.first, b.e, w);
        for (auto& xb : bs) {
            Lin d = xa.second - xb.second;
            std::vector<State> t, f;
            switch (pr) {
            case CmpInst::ICMP_EQ: splitEQ(xb.first, d, t, f); break;
            case CmpInst::ICMP_NE: splitEQ(xb.first, d, f, t); break;
            case CmpInst::ICMP_UGT:
            case CmpInst::ICMP_SGT: split(xb.first, d, true, t, f); break;
            case CmpInst::ICMP_UGE:
            case CmpInst::ICMP_SGE: split(xb.first, d, false, t, f); break;
            case CmpInst::ICMP_ULT:
            case CmpInst::ICMP_SLT: split(xb.first, -d, true, t, f); break;
            default: split(xb.first, -d, false, t, f); break;
            }
            for (auto& x : t) T1(std::move(x));
            for (auto& x : f) F1(std::move(x));
        }
    }
    return out;
}

Engine::SVs Engine::castop(const State& s, unsigned opc, const Val& a, Type* from, Type* to, const Instruction* I) {
    SVs out;
    auto ret = [&](const Val& v) { out.push_back({s, v}); };
    auto retFresh = [&]() {
        State t = s;
        Val v = freshOf(t, to, "cast");
        out.push_back({std::move(t), v});
    };
    switch (opc) {
    case Instruction::Trunc:
        if (a.k == Val::Blob) {
            State t = s;
            Val x = extractBytes(t, a, tsize(from), 0, tsize(to));
            Val v = coerce(t, x, tsize(to), to);
            if (v.k == Val::Undef) v = x;
            if (to->getIntegerBitWidth() == 1 && v.k == Val::Int) {
                auto d = decide(t, v, I);
                return d;
            }
            out.push_back({t, v});
            return out;
        }
        if (a.k != Val::Int) {
            if (a.k == Val::Undef) return ret(a), out;
            retFresh();
            return out;
        }
        if (to->getIntegerBitWidth() == 1) {
            // booleans are kept concrete: split on the low bit when the source is known to be 0/1
            Lin e = s.P().norm(a.e);
            if (e.isConst()) return ret(Val::i(Lin(((e.c.n % 2) + 2) % 2 ? 1 : 0))), out;
            if (inRange(s, e, Q(0), Q(1))) {
                std::vector<State> t, f;
                splitEQ(s, e, f, t);
                for (auto& x : t) out.push_back({std::move(x), Val::i(Lin(1))});
                for (auto& x : f) out.push_back({std::move(x), Val::i(Lin(0))});
                return out;
            }
            // a stored bool is 0 or 1
            State t1 = s, t0 = s;
            t1.Pm().addEQ(e - Lin(1));
            t0.Pm().addEQ(e);
            if (!t1.P().bottom && t1.Pm().feasible()) out.push_back({std::move(t1), Val::i(Lin(1))});
            if (!t0.P().bottom && t0.Pm().feasible()) out.push_back({std::move(t0), Val::i(Lin(0))});
            return out;
        }
        ret(a);
        return out;
    case Instruction::ZExt:
    case Instruction::SExt: {
        if (a.k == Val::Ptr) return ret(a), out;
        if (a.k == Val::Undef) return ret(a), out;
        if (a.k == Val::Blob) {
            Val r;
            r.k = Val::Blob;
            r.pieces = std::make_shared<std::vector<Piece>>(*a.pieces);
            r.pieces->push_back({(int64_t)tsize(from), tsize(to) - tsize(from), Val::i(Lin(0))});
            return ret(r), out;
        }
        unsigned w = from->getIntegerBitWidth();
        auto n = opc == Instruction::ZExt ? normU(s, a.e, w) : normS(s, a.e, w);
        for (auto& x : n) out.push_back({std::move(x.first), Val::i(x.second)});
        return out;
    }
    case Instruction::FPExt:
        if (a.k == Val::Fp) return ret(a), out;
        return retFresh(), out;
    case Instruction::FPTrunc: {
        if (a.k != Val::Fp) return retFresh(), out;
        Lin e = s.P().norm(a.e);
        if (e.isConst()) {
            if (fpExactConst(e.c, to)) return ret(a), out;
            double dv = 0;
            // exact rounding of a constant
            mpq_class q = NumTraits<mpq_class>::from(e.c);
            dv = q.get_d();
            APFloat f(dv);
            bool li;
            f.convert(APFloat::IEEEsingle(), APFloat::rmNearestTiesToEven, &li);
            State t = s;
            Val v = constVal(t, ConstantFP::get(M.getContext(), f));
            out.push_back({std::move(t), v});
            return out;
        }
        if (fpExact) return ret(a), out;
        return fpUF(s, "fptrunc", {e}, to);
    }
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
        if (a.k != Val::Int) return retFresh(), out;
        unsigned w = from->getIntegerBitWidth();
        auto n = opc == Instruction::UIToFP ? normU(s, a.e, w) : normS(s, a.e, w);
        Q lim = pow2(to->isFloatTy() ? 24 : 53);
        for (auto& x : n) {
            if (fpExact || inRange(x.first, x.second, -lim, lim)) {
                out.push_back({std::move(x.first), Val::f(x.second)});
                continue;
            }
            auto r = fpUF(x.first, "itofp", {x.second}, to);
            for (auto& q : r) {
                if (q.first.P().entailsGE(x.second)) q.first.Pm().addGE(q.second.e);
                if (q.first.P().entailsGE(-x.second)) q.first.Pm().addGE(-q.second.e);
                out.push_back(q);
            }
        }
        return out;
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
        if (a.k != Val::Fp) return retFresh(), out;
        Lin e = s.P().norm(a.e);
        unsigned w = to->getIntegerBitWidth();
        if (e.isConst()) {
            Q q = e.c.sgn() >= 0 ? e.c.floor() : e.c.ceil();
            return ret(Val::i(Lin(q))), out;
        }
        if (e.allInt() && e.intSyms()) {
            return ret(Val::i(e)), out;
        }
        // truncation toward zero
        std::vector<State> pos, neg;
        split(s, e, false, pos, neg);
        auto mk = [&](State t, bool p) {
            Sym u = ufSym("fptoi(" + e.key() + ")", false, "trunc");
            Lin q = Lin::var(u);
            if (p) {
                t.Pm().addGE(q);
                t.Pm().addGE(e - q);
                t.Pm().addGE(q + Lin(1) - e, true);
            } else {
                t.Pm().addGE(-q);
                t.Pm().addGE(q - e);
                t.Pm().addGE(e - q + Lin(1), true);
            }
            // out-of-range conversions are undefined; assume representable
            t.Pm().addGE(q + Lin(opc == Instruction::FPToSI ? pow2(w - 1) : Q(0)));
            t.Pm().addGE(Lin((opc == Instruction::FPToSI ? pow2(w - 1) : pow2(w)) - Q(1)) - q);
            if (!t.P().bottom && t.Pm().feasible()) out.push_back({std::move(t), Val::i(q)});
        };
        for (auto& t : pos) mk(std::move(t), true);
        for (auto& t : neg) mk(std::move(t), false);
        return out;
    }
    case Instruction::PtrToInt:
        if (a.isNull()) return ret(Val::i(a.e)), out;
        return ret(a), out;
    case Instruction::IntToPtr:
        if (a.k == Val::Int) return ret(Val::p(0, a.e)), out;
        return ret(a), out;
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast: {
        if (from == to || (from->isPointerTy() && to->isPointerTy())) return ret(a), out;
        State t = s;
        Val v = coerce(t, a, tsize(from), to);
        out.push_back({std::move(t), v});
        return out;
    }
    }
    retFresh();
    return out;
}

// ------------------------------------------------------------------ control flow
LoopInfo& Engine::loopInfo(const Function* F) {
    auto& p = loops[F];
    if (!p.first) {
        p.first = std::make_unique<DominatorTree>(const_cast<Function&>(*F));
        p.second = std::make_unique<LoopInfo>(*p.first);
    }
    return *p.second;
}

std::vector<Outcome> Engine::exec(const Function* F, const std::vector<Val>& args, State s) {
    tick();
    std::vector<Outcome> rets;
    if (fnStack.size() > 60 || recDepth[F] > 4) {
        alarm(s, callStack.empty() ? nullptr : callStack.back(), "recursion", "unbounded recursion in " + fnName(F));
        return rets;
    }
    recDepth[F]++;
    fnStack.push_back(F);
    sink().funcs.insert(F);
    Path p;
    p.s = std::move(s);
    unsigned i = 0;
    for (auto& A : F->args()) {
        Val v = i < args.size() ? args[i] : Val::undef();
        if (A.hasByValAttr() && v.k == Val::Ptr) {
            // private copy
            Type* T = A.getParamByValType();
            Lin sz(Q((i128)DL.getTypeAllocSize(T).getFixedValue()));
            int r = newRegionIn(p.s, Region::Stack, sz, "by-value argument of " + fnName(F), nullptr);
            memCopy(p.s, r, Lin(0), v.region, v.e, sz);
            p.allocas.push_back(r);
            v = Val::p(r, Lin(0));
        }
        p.r[&A] = v;
        ++i;
    }
    p.bb = &F->getEntryBlock();
    std::vector<Path> init, backs, exits;
    init.push_back(std::move(p));
    run(std::move(init), nullptr, F, backs, exits, rets);
    fnStack.pop_back();
    recDepth[F]--;
    return rets;
}

void Engine::phis(Path& p) {
    std::vector<std::pair<const Value*, Val>> vs;
    for (auto& I : *p.bb) {
        auto* P = dyn_cast<PHINode>(&I);
        if (!P) break;
        vs.push_back({P, eval(p, P->getIncomingValueForBlock(p.prev))});
    }
    for (auto& v : vs) p.r[v.first] = v.second;
}

void Engine::run(std::vector<Path> work, const Loop* L, const Function* F, std::vector<Path>& backs,
                 std::vector<Path>& exits, std::vector<Outcome>& rets) {
    LoopInfo& LI = loopInfo(F);
    while (!work.empty()) {
        tick();
        Path p = std::move(work.back());
        work.pop_back();
        if (!p.mid) {
            if (L && !L->contains(p.bb)) {
                exits.push_back(std::move(p));
                continue;
            }
            const Loop* B = LI.getLoopFor(p.bb);
            if (B && B->getHeader() == p.bb) {
                if (B == L) {
                    if (!p.enter) {
                        backs.push_back(std::move(p));
                        continue;
                    }
                    p.enter = false; // header phis already set by the loop driver
                } else {
                    std::vector<Path> ex;
                    handleLoop(B, std::move(p), F, ex, rets);
                    for (auto& e : ex) work.push_back(std::move(e));
                    continue;
                }
            } else if (p.prev)
                phis(p);
        }
        runBlock(std::move(p), F, work, rets);
    }
}

void Engine::goTo(Path p, const BasicBlock* to, std::vector<Path>& next) {
    p.prev = p.bb;
    p.bb = to;
    p.mid = false;
    next.push_back(std::move(p));
}

void Engine::runBlock(Path p, const Function* F, std::vector<Path>& next, std::vector<Outcome>& rets) {
    BasicBlock::const_iterator it = p.mid ? p.at : p.bb->getFirstNonPHIIt();
    p.mid = false;
    for (;;) {
        const Instruction* I = &*it;
        if (I->isTerminator()) {
            if (auto* R = dyn_cast<ReturnInst>(I)) {
                Outcome o;
                if (R->getReturnValue()) o.v = eval(p, R->getReturnValue());
                for (int a : p.allocas) {
                    auto r = p.s.mem.find(a);
                    if (r != p.s.mem.end()) p.s.mem.erase(r);
                }
                o.s = std::move(p.s);
                rets.push_back(std::move(o));
                return;
            }
            if (auto* B = dyn_cast<BranchInst>(I)) {
                if (B->isUnconditional()) {
                    goTo(std::move(p), B->getSuccessor(0), next);
                    return;
                }
                Val c = eval(p, B->getCondition());
                auto d = decide(p.s, c, I);
                bool forked = d.size() > 1;
                for (auto& x : d) {
                    Path q = p;
                    q.s = std::move(x.first);
                    bool t = x.second.e.c.sgn() != 0;
                    (void)forked;
                    std::string l = loc(I);
                    if (l.find(repoPrefix) != std::string::npos) note(q.s, I, t ? "condition true" : "condition false");
                    goTo(std::move(q), B->getSuccessor(t ? 0 : 1), next);
                }
                return;
            }
            if (auto* S = dyn_cast<SwitchInst>(I)) {
                Val c = eval(p, S->getCondition());
                State rest = p.s;
                bool alive = true;
                if (c.k != Val::Int) {
                    for (unsigned k = 0; k < S->getNumSuccessors(); ++k) {
                        Path q = p;
                        goTo(std::move(q), S->getSuccessor(k), next);
                    }
                    return;
                }
                for (auto& cs : S->cases()) {
                    if (!alive) break;
                    Val k = constVal(rest, cs.getCaseValue());
                    auto r = cmp(rest, CmpInst::ICMP_EQ, c, k, S->getCondition()->getType(), I);
                    alive = false;
                    for (auto& x : r) {
                        if (x.second.e.c.sgn()) {
                            Path q = p;
                            q.s = std::move(x.first);
                            std::string l = loc(I);
                            if (l.find(repoPrefix) != std::string::npos)
                                note(q.s, I, "case " + std::to_string(cs.getCaseValue()->getSExtValue()));
                            goTo(std::move(q), cs.getCaseSuccessor(), next);
                        } else {
                            rest = std::move(x.first);
                            alive = true;
                        }
                    }
                }
                if (alive) {
                    Path q = p;
                    q.s = std::move(rest);
                    goTo(std::move(q), S->getDefaultDest(), next);
                }
                return;
            }
            if (auto* IV = dyn_cast<InvokeInst>(I)) {
                std::vector<Path> forks;
                bool handled = false;
                doCall(p, *IV, forks, rets, handled);
                for (auto& q : forks) next.push_back(std::move(q));
                return;
            }
            if (isa<UnreachableInst>(I)) {
                // control cannot get here in a defined program; a preceding noreturn call ended the path,
                // otherwise the function falls off its end
                alarm(p.s, I, "unreachable", "control reaches a point the program promises never to reach");
                return;
            }
            if (isa<ResumeInst>(I)) {
                for (int a : p.allocas) p.s.mem.erase(a);
                Outcome o;
                o.threw = true;
                o.s = std::move(p.s);
                rets.push_back(std::move(o));
                return;
            }
            alarm(p.s, I, "unsupported", std::string("unsupported terminator ") + I->getOpcodeName());
            return;
        }
        std::vector<Path> forks;
        p.at = it;
        bool cont = step(p, I, forks, rets);
        if (!cont) {
            auto nx = std::next(it);
            for (auto& f : forks) {
                f.mid = true;
                f.at = nx;
                next.push_back(std::move(f));
            }
            return;
        }
        ++it;
    }
}

static void assign(Engine& E, Path& p, const Instruction* I, Engine::SVs& r, std::vector<Path>& forks, bool& cont) {
    if (r.size() == 1) {
        p.s = std::move(r[0].first);
        p.r[I] = r[0].second;
        cont = true;
        return;
    }
    cont = false;
    for (auto& x : r) {
        Path q = p;
        q.s = std::move(x.first);
        q.r[I] = x.second;
        forks.push_back(std::move(q));
    }
}

bool Engine::step(Path& p, const Instruction* I, std::vector<Path>& forks, std::vector<Outcome>& rets) {
    tick();
    bool cont = true;
    auto oneState = [&](SVs& r) {
        assign(*this, p, I, r, forks, cont);
        return cont;
    };
    if (auto* A = dyn_cast<AllocaInst>(I)) {
        Lin sz(Q((i128)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue()));
        if (A->isArrayAllocation()) {
            Val n = eval(p, A->getArraySize());
            if (n.k == Val::Int && n.e.isConst())
                sz = sz.scaled(n.e.c);
            else if (n.k == Val::Int)
                sz = n.e.scaled(sz.c);
        }
        std::string nm = A->getName().str();
        int r = newRegionIn(p.s, Region::Stack, sz, "local '" + nm + "'", A);
        // scoped locals are dead until their lifetime starts
        for (auto* U : A->users())
            if (auto* II = dyn_cast<IntrinsicInst>(U))
                if (II->getIntrinsicID() == Intrinsic::lifetime_start) p.s.R(r).freed = true;
        p.allocas.push_back(r);
        p.r[I] = Val::p(r, Lin(0));
        return true;
    }
    if (auto* Ld = dyn_cast<LoadInst>(I)) {
        if (Ld->isVolatile() || Ld->isAtomic()) ++nondet;
        Val ptr = eval(p, Ld->getPointerOperand());
        Type* T = Ld->getType();
        unsigned sz = tsize(T);
        auto acc = access(p.s, ptr, Lin(Q((long)sz)), I, "read", false);
        SVs all;
        for (auto& a : acc) {
            auto r = read(a.first, ptr.region, a.second, sz, T);
            for (auto& x : r) all.push_back(std::move(x));
        }
        return oneState(all);
    }
    if (auto* St = dyn_cast<StoreInst>(I)) {
        Val ptr = eval(p, St->getPointerOperand());
        Val v = eval(p, St->getValueOperand());
        Type* T = St->getValueOperand()->getType();
        unsigned sz = tsize(T);
        if (v.k == Val::Agg) {
            // store element-wise
            Val bl;
            bl.k = Val::Blob;
            bl.pieces = std::make_shared<std::vector<Piece>>();
            std::function<void(const Val&, Type*, int64_t)> walk = [&](const Val& x, Type* t, int64_t o) {
                if (x.k == Val::Agg && (t->isStructTy() || t->isArrayTy())) {
                    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
                    for (unsigned i = 0; i < n && i < x.agg->size(); ++i) {
                        Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
                        int64_t eo = t->isStructTy() ? (int64_t)DL.getStructLayout(cast<StructType>(t))->getElementOffset(i).getFixedValue()
                                                     : (int64_t)(i * DL.getTypeAllocSize(et).getFixedValue());
                        walk((*x.agg)[i], et, o + eo);
                    }
                } else
                    bl.pieces->push_back({o, tsize(t), x});
            };
            walk(v, T, 0);
            v = bl;
        }
        auto acc = access(p.s, ptr, Lin(Q((long)sz)), I, "write", true);
        if (acc.size() == 1) {
            p.s = std::move(acc[0].first);
            write(p.s, ptr.region, acc[0].second, sz, v);
            return true;
        }
        for (auto& a : acc) {
            Path q = p;
            q.s = std::move(a.first);
            write(q.s, ptr.region, a.second, sz, v);
            forks.push_back(std::move(q));
        }
        return false;
    }
    if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
        Val b = eval(p, G->getPointerOperand());
        if (G->getType()->isVectorTy() || b.k != Val::Ptr) {
            p.r[I] = Val::undef();
            return true;
        }
        MapVector<Value*, APInt> vars;
        APInt cst(64, 0);
        cast<GEPOperator>(G)->collectOffset(DL, 64, vars, cst);
        std::vector<std::pair<State, Lin>> cur;
        cur.push_back({p.s, b.e + Lin(Q((i128)cst.getSExtValue()))});
        for (auto& v : vars) {
            std::vector<std::pair<State, Lin>> nx;
            Val x = eval(p, v.first);
            for (auto& c : cur) {
                if (x.k != Val::Int) {
                    State t = c.first;
                    Lin l = fresh("idx");
                    nx.push_back({t, c.second + l});
                    continue;
                }
                unsigned w = v.first->getType()->getIntegerBitWidth();
                auto n = normS(c.first, x.e, w);
                for (auto& y : n) nx.push_back({std::move(y.first), c.second + y.second.scaled(Q((i128)v.second.getSExtValue()))});
            }
            cur = std::move(nx);
        }
        SVs all;
        for (auto& c : cur) all.push_back({std::move(c.first), Val::p(b.region, c.second)});
        return oneState(all);
    }
    if (auto* C = dyn_cast<CmpInst>(I)) {
        Val a = eval(p, C->getOperand(0)), b = eval(p, C->getOperand(1));
        auto r = cmp(p.s, C->getPredicate(), a, b, C->getOperand(0)->getType(), I);
        return oneState(r);
    }
    if (auto* B = dyn_cast<BinaryOperator>(I)) {
        Val a = eval(p, B->getOperand(0)), b = eval(p, B->getOperand(1));
        auto r = binop(p.s, B->getOpcode(), a, b, B->getType(), I);
        return oneState(r);
    }
    if (auto* C = dyn_cast<CastInst>(I)) {
        Val a = eval(p, C->getOperand(0));
        auto r = castop(p.s, C->getOpcode(), a, C->getSrcTy(), C->getDestTy(), I);
        return oneState(r);
    }
    if (auto* S = dyn_cast<SelectInst>(I)) {
        Val c = eval(p, S->getCondition());
        // both values first: evaluating one may bring a global into the state
        const Val yes = eval(p, S->getTrueValue()), no = eval(p, S->getFalseValue());
        auto d = decide(p.s, c, I);
        SVs all;
        for (auto& x : d) all.push_back({std::move(x.first), x.second.e.c.sgn() ? yes : no});
        return oneState(all);
    }
    if (auto* U = dyn_cast<UnaryOperator>(I)) {
        Val a = eval(p, U->getOperand(0));
        if (a.k == Val::Fp)
            p.r[I] = Val::f(-a.e);
        else
            p.r[I] = Val::f(fresh("fneg", true));
        return true;
    }
    if (auto* E = dyn_cast<ExtractValueInst>(I)) {
        Val a = eval(p, E->getAggregateOperand());
        for (unsigned i : E->indices()) {
            if (a.k == Val::Agg && i < a.agg->size()) {
                Val t = (*a.agg)[i];
                a = t;
            } else
                a = Val::undef();
        }
        p.r[I] = a;
        return true;
    }
    if (auto* N = dyn_cast<InsertValueInst>(I)) {
        Val a = eval(p, N->getAggregateOperand());
        Val v = eval(p, N->getInsertedValueOperand());
        std::function<Val(Val, Type*, ArrayRef<unsigned>)> ins = [&](Val g, Type* T, ArrayRef<unsigned> ix) -> Val {
            if (ix.empty()) return v;
            unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
            Val r;
            r.k = Val::Agg;
            r.agg = std::make_shared<std::vector<Val>>(n);
            if (g.k == Val::Agg)
                for (unsigned i = 0; i < n && i < g.agg->size(); ++i) (*r.agg)[i] = (*g.agg)[i];
            Type* ET = T->isStructTy() ? T->getStructElementType(ix[0]) : T->getArrayElementType();
            (*r.agg)[ix[0]] = ins((*r.agg)[ix[0]], ET, ix.drop_front());
            return r;
        };
        p.r[I] = ins(a, N->getType(), N->getIndices());
        return true;
    }
    if (isa<FreezeInst>(I)) {
        p.r[I] = eval(p, I->getOperand(0));
        return true;
    }
    if (auto* X = dyn_cast<ExtractElementInst>(I)) {
        Val a = eval(p, X->getVectorOperand());
        Val ix = eval(p, X->getIndexOperand());
        Type* T = X->getType();
        if (a.k == Val::Blob && ix.k == Val::Int && ix.e.isConst()) {
            Val e = extractBytes(p.s, a, tsize(X->getVectorOperandType()), (int64_t)ix.e.c.n * tsize(T), tsize(T));
            p.r[I] = coerce(p.s, e, tsize(T), T);
        } else
            p.r[I] = freshOf(p.s, T, "vec");
        return true;
    }
    if (auto* X = dyn_cast<InsertElementInst>(I)) {
        Val a = eval(p, X->getOperand(0)), v = eval(p, X->getOperand(1)), ix = eval(p, X->getOperand(2));
        unsigned es = tsize(X->getOperand(1)->getType()), n = cast<FixedVectorType>(X->getType())->getNumElements();
        Val r;
        r.k = Val::Blob;
        r.pieces = std::make_shared<std::vector<Piece>>();
        for (unsigned i = 0; i < n; ++i) {
            if (ix.k == Val::Int && ix.e.isConst() && (unsigned)ix.e.c.n == i)
                r.pieces->push_back({(int64_t)i * es, es, v});
            else if (a.k == Val::Blob)
                r.pieces->push_back({(int64_t)i * es, es, extractBytes(p.s, a, n * es, (int64_t)i * es, es)});
            else
                r.pieces->push_back({(int64_t)i * es, es, Val::undef()});
        }
        p.r[I] = r;
        return true;
    }
    if (auto* R = dyn_cast<AtomicRMWInst>(I)) {
        Val ptr = eval(p, R->getPointerOperand());
        Val v = eval(p, R->getValOperand());
        Type* T = R->getType();
        unsigned sz = tsize(T);
        auto acc = access(p.s, ptr, Lin(Q((long)sz)), I, "atomic update", true);
        SVs all;
        for (auto& a : acc) {
            auto r = read(a.first, ptr.region, a.second, sz, T);
            for (auto& x : r) {
                SVs nv;
                switch (R->getOperation()) {
                case AtomicRMWInst::Add: nv = binop(x.first, Instruction::Add, x.second, v, T, nullptr); break;
                case AtomicRMWInst::Sub: nv = binop(x.first, Instruction::Sub, x.second, v, T, nullptr); break;
                case AtomicRMWInst::Xchg: nv.push_back({x.first, v}); break;
                default: nv.push_back({x.first, freshOf(x.first, T, "rmw")});
                }
                for (auto& y : nv) {
                    write(y.first, ptr.region, a.second, sz, y.second);
                    all.push_back({std::move(y.first), x.second});
                }
            }
        }
        return oneState(all);
    }
    if (isa<FenceInst>(I)) return true;
    if (auto* LP = dyn_cast<LandingPadInst>(I)) {
        // selector: first matching clause
        Val sel = Val::i(Lin(0));
        std::string et = p.s.excType;
        for (unsigned k = 0; k < LP->getNumClauses(); ++k) {
            if (!LP->isCatch(k)) continue;
            Constant* c = LP->getClause(k);
            if (c->isNullValue()) {
                sel = Val::i(Lin(1));
                break;
            }
            std::string cn = c->stripPointerCasts()->getName().str();
            bool match = cn == et;
            if (!match && cn == "_ZTISt9exception" && et.find("_ZTISt") == 0) match = true;
            if (!match && cn == "_ZTISt11logic_error" &&
                (et == "_ZTISt16invalid_argument" || et == "_ZTISt12out_of_range" || et == "_ZTISt12length_error"))
                match = true;
            if (match) {
                static std::map<std::string, int> ids;
                int& id = ids[cn];
                if (!id) id = (int)ids.size() + 1;
                sel = Val::i(Lin((int)(std::hash<std::string>{}(cn) % 1000000 + 2)));
                break;
            }
        }
        Val v;
        v.k = Val::Agg;
        v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val::p(0, Lin(0)));
        v.agg->push_back(sel);
        p.r[I] = v;
        return true;
    }
    if (auto* C = dyn_cast<CallInst>(I)) {
        bool handled = false;
        doCall(p, *C, forks, rets, handled);
        return handled;
    }
    alarm(p.s, I, "unsupported", std::string("unsupported instruction ") + I->getOpcodeName());
    p.r[I] = Val::undef();
    return true;
}

// handled == true: p was updated in place
void Engine::doCall(Path& p, const CallBase& C, std::vector<Path>& forks, std::vector<Outcome>& rets, bool& handled) {
    handled = false;
    std::vector<Val> args;
    for (auto& a : C.args()) {
        if (a->getType()->isMetadataTy()) {
            args.push_back(Val::undef());
            continue;
        }
        args.push_back(eval(p, a.get()));
    }
    const Function* callee = C.getCalledFunction();
    if (!callee) {
        Val f = eval(p, C.getCalledOperand());
        if (f.k == Val::Ptr && f.region) {
            const Region* R = p.s.getR(f.region);
            if (R && R->fn) callee = R->fn;
        }
        if (!callee) {
            if (auto* A = dyn_cast<GlobalAlias>(C.getCalledOperand()))
                callee = dyn_cast<Function>(A->getAliaseeObject());
        }
        if (!callee) {
            if (f.isNull())
                alarm(p.s, &C, "null-call", "call through a null function pointer");
            else
                alarm(p.s, &C, "unknown-call", "indirect call whose target the analysis cannot resolve");
            return;
        }
    }
    std::vector<Outcome> outs;
    bool noret = false;
    // fast path for intrinsics that do nothing
    callStack.push_back(&C);
    argStack.push_back(args);
    dispatchCall(p, C, callee, args, outs, noret);
    callStack.pop_back();
    argStack.pop_back();
    auto* IV = dyn_cast<InvokeInst>(&C);
    // in place
    if (!IV && outs.size() == 1 && !outs[0].threw) {
        p.s = std::move(outs[0].s);
        if (!C.getType()->isVoidTy()) p.r[&C] = outs[0].v;
        handled = true;
        return;
    }
    for (auto& o : outs) {
        if (o.threw) {
            if (IV) {
                Path q = p;
                q.s = std::move(o.s);
                q.prev = IV->getParent();
                q.bb = IV->getUnwindDest();
                q.mid = false;
                forks.push_back(std::move(q));
            } else {
                for (int a : p.allocas) o.s.mem.erase(a);
                rets.push_back(std::move(o));
            }
            continue;
        }
        Path q = p;
        q.s = std::move(o.s);
        if (!C.getType()->isVoidTy()) q.r[&C] = o.v;
        if (IV) {
            q.prev = IV->getParent();
            q.bb = IV->getNormalDest();
            q.mid = false;
        }
        forks.push_back(std::move(q));
    }
}

void Engine::dispatchCall(Path& p, const CallBase& C, const Function* callee, std::vector<Val> args,
                          std::vector<Outcome>& outs, bool& noret) {
    std::string name = callee->getName().str();
    auto m = models.find(name);
    if (m != models.end()) {
        if (m->second(p, C, args, outs)) return;
    }
    if (callee->isIntrinsic()) {
        if (intrinsic(p, C, callee, args, outs)) return;
    }
    if (!callee->isDeclaration()) {
        outs = exec(callee, args, p.s);
        return;
    }
    // unmodelled external
    ++nondet;
    sink().unmodelled.insert(name);
    alarm(p.s, &C, "unmodelled-call", "call to external function " + name + " without a model");
    Outcome o;
    o.s = p.s;
    if (!C.getType()->isVoidTy()) o.v = freshOf(o.s, C.getType(), name);
    outs.push_back(std::move(o));
}
