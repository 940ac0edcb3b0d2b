// Convex-polyhedra abstract value: a conjunction of linear constraints over
// integer and real dimensions, with exact entailment by the simplex method.
#pragma once
#include "num.hpp"
#include <gmpxx.h>
#include <map>
#include <set>
#include <unordered_map>

struct Stats {
    long lp = 0, lpq = 0, entail = 0, entailQuick = 0;
};
extern Stats g_stats;

struct Con {
    Lin e;            // e >= 0, or e > 0 when strict
    bool strict = false;
};

// ---------------------------------------------------------------- simplex
template<class N>
struct NumTraits;
template<>
struct NumTraits<Q> {
    static Q from(const Q& q) { return q; }
    static int sgn(const Q& q) { return q.sgn(); }
    static bool isInt(const Q& q) { return q.isInt(); }
    static Q fl(const Q& q) { return q.floor(); }
};
inline mpz_class toZ(i128 v) {
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    mpz_class hi((unsigned long)(u >> 64)), lo((unsigned long)u);
    mpz_class r = (hi << 64) + lo;
    return neg ? mpz_class(-r) : r;
}
template<>
struct NumTraits<mpq_class> {
    static mpq_class from(const Q& q) {
        mpq_class r(toZ(q.n), toZ(q.d));
        r.canonicalize();
        return r;
    }
    static int sgn(const mpq_class& q) { return ::sgn(q); }
    static bool isInt(const mpq_class& q) { return q.get_den() == 1; }
    static mpq_class fl(const mpq_class& q) {
        mpz_class z;
        mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
        return mpq_class(z);
    }
};

template<class N>
struct Simplex {
    typedef NumTraits<N> T;
    struct D { // value + delta * epsilon
        N r{0}, e{0};
    };
    static int cmp(const D& a, const D& b) {
        if (a.r < b.r) return -1;
        if (b.r < a.r) return 1;
        if (a.e < b.e) return -1;
        if (b.e < a.e) return 1;
        return 0;
    }
    int nv = 0; // total variables (structural + slack)
    std::vector<D> val;
    std::vector<bool> hasLo, hasHi;
    std::vector<D> lo, hi;
    std::vector<int> rowOf; // -1 = nonbasic
    std::vector<int> basic; // row -> var
    std::vector<std::map<int, N>> rows;
    int newVar() {
        val.push_back(D{});
        hasLo.push_back(false);
        hasHi.push_back(false);
        lo.push_back(D{});
        hi.push_back(D{});
        rowOf.push_back(-1);
        return nv++;
    }
    int addRow(const std::map<int, N>& def) { // def over nonbasic vars only (call before pivoting)
        int v = newVar();
        rowOf[v] = (int)rows.size();
        basic.push_back(v);
        rows.push_back(def);
        return v;
    }
    bool setLo(int v, const D& b) {
        if (hasLo[v] && cmp(lo[v], b) >= 0) return true;
        hasLo[v] = true;
        lo[v] = b;
        if (hasHi[v] && cmp(hi[v], b) < 0) return false;
        if (rowOf[v] < 0 && cmp(val[v], b) < 0) update(v, b);
        return true;
    }
    bool setHi(int v, const D& b) {
        if (hasHi[v] && cmp(hi[v], b) <= 0) return true;
        hasHi[v] = true;
        hi[v] = b;
        if (hasLo[v] && cmp(b, lo[v]) < 0) return false;
        if (rowOf[v] < 0 && cmp(b, val[v]) < 0) update(v, b);
        return true;
    }
    void update(int v, const D& b) {
        D d{N(b.r - val[v].r), N(b.e - val[v].e)};
        val[v] = b;
        for (size_t i = 0; i < rows.size(); ++i) {
            auto it = rows[i].find(v);
            if (it != rows[i].end()) {
                val[basic[i]].r = val[basic[i]].r + it->second * d.r;
                val[basic[i]].e = val[basic[i]].e + it->second * d.e;
            }
        }
    }
    void pivot(int r, int xj) {
        int xi = basic[r];
        std::map<int, N> row = rows[r];
        N a = row[xj];
        row.erase(xj);
        std::map<int, N> nr;
        N inv = N(1) / a;
        for (auto& p : row) nr[p.first] = -(p.second * inv);
        nr[xi] = inv;
        rows[r] = nr;
        basic[r] = xj;
        rowOf[xj] = r;
        rowOf[xi] = -1;
        for (size_t k = 0; k < rows.size(); ++k) {
            if ((int)k == r) continue;
            auto it = rows[k].find(xj);
            if (it == rows[k].end()) continue;
            N f = it->second;
            rows[k].erase(it);
            for (auto& p : nr) {
                auto& slot = rows[k];
                auto jt = slot.find(p.first);
                if (jt == slot.end()) {
                    slot[p.first] = f * p.second;
                } else {
                    jt->second = jt->second + f * p.second;
                    if (T::sgn(jt->second) == 0) slot.erase(jt);
                }
            }
        }
    }
    void pivotAndUpdate(int r, int xj, const D& b) {
        int xi = basic[r];
        N a = rows[r][xj];
        D th{N((b.r - val[xi].r) / a), N((b.e - val[xi].e) / a)};
        val[xi] = b;
        val[xj].r = val[xj].r + th.r;
        val[xj].e = val[xj].e + th.e;
        for (size_t k = 0; k < rows.size(); ++k) {
            if ((int)k == r) continue;
            auto it = rows[k].find(xj);
            if (it != rows[k].end()) {
                val[basic[k]].r = val[basic[k]].r + it->second * th.r;
                val[basic[k]].e = val[basic[k]].e + it->second * th.e;
            }
        }
        pivot(r, xj);
    }
    bool check() {
        for (;;) {
            int r = -1, best = 1 << 30;
            bool low = false;
            for (size_t i = 0; i < rows.size(); ++i) {
                int v = basic[i];
                if (hasLo[v] && cmp(val[v], lo[v]) < 0) {
                    if (v < best) best = v, r = (int)i, low = true;
                } else if (hasHi[v] && cmp(hi[v], val[v]) < 0) {
                    if (v < best) best = v, r = (int)i, low = false;
                }
            }
            if (r < 0) return true;
            int xj = -1;
            for (auto& p : rows[r]) {
                int v = p.first;
                int s = T::sgn(p.second);
                if (!low) s = -s;
                if ((s > 0 && (!hasHi[v] || cmp(val[v], hi[v]) < 0)) ||
                    (s < 0 && (!hasLo[v] || cmp(lo[v], val[v]) < 0))) {
                    xj = v;
                    break;
                }
            }
            if (xj < 0) return false;
            pivotAndUpdate(r, xj, low ? lo[best] : hi[best]);
        }
    }
};

// true = a rational (and, within the branching bound, integral) point may exist
template<class N>
bool lpFeasible(const std::vector<const Con*>& cons, const std::map<Sym, std::pair<const Q*, const Q*>>& bounds,
                int depth = 0, std::vector<Con>* extra = nullptr) {
    typedef NumTraits<N> T;
    Simplex<N> S;
    std::map<Sym, int> idx;
    auto varOf = [&](Sym s) {
        auto it = idx.find(s);
        if (it != idx.end()) return it->second;
        int v = S.newVar();
        idx[s] = v;
        return v;
    };
    auto each = [&](auto f) {
        for (auto* c : cons) f(*c);
        if (extra)
            for (auto& c : *extra) f(c);
    };
    each([&](const Con& c) {
        for (auto& p : c.e.t) varOf(p.first);
    });
    bool ok = true;
    for (auto& b : bounds) {
        auto it = idx.find(b.first);
        if (it == idx.end()) continue;
        if (b.second.first) ok = ok && S.setLo(it->second, {T::from(*b.second.first), N(0)});
        if (b.second.second) ok = ok && S.setHi(it->second, {T::from(*b.second.second), N(0)});
        if (!ok) return false;
    }
    // single-variable constraints become bounds; others rows (created before any pivot)
    std::vector<std::pair<int, typename Simplex<N>::D>> lows;
    each([&](const Con& c) {
        if (!ok) return;
        if (c.e.t.empty()) {
            int s = c.e.c.sgn();
            if (s < 0 || (c.strict && s == 0)) ok = false;
            return;
        }
        if (c.e.t.size() == 1) {
            int v = idx[c.e.t[0].first];
            N a = T::from(c.e.t[0].second);
            N k = N(-T::from(c.e.c)) / a;
            if (T::sgn(a) > 0)
                ok = ok && S.setLo(v, {k, c.strict ? N(1) : N(0)});
            else
                ok = ok && S.setHi(v, {k, c.strict ? N(-1) : N(0)});
            return;
        }
        std::map<int, N> def;
        typename Simplex<N>::D v0;
        for (auto& p : c.e.t) {
            int v = idx[p.first];
            N a = T::from(p.second);
            def[v] = a;
        }
        int r = S.addRow(def);
        lows.push_back({r, {N(-T::from(c.e.c)), c.strict ? N(1) : N(0)}});
    });
    if (!ok) return false;
    // row values must reflect the current nonbasic assignment
    for (size_t i = 0; i < S.rows.size(); ++i) {
        typename Simplex<N>::D v0;
        for (auto& p : S.rows[i]) {
            v0.r = v0.r + p.second * S.val[p.first].r;
            v0.e = v0.e + p.second * S.val[p.first].e;
        }
        S.val[S.basic[i]] = v0;
    }
    for (auto& l : lows)
        if (!S.setLo(l.first, l.second)) return false;
    if (!S.check()) return false;
    if (depth >= 6) return true;
    for (auto& p : idx) {
        if (g_syms[p.first].real) continue;
        const N& r = S.val[p.second].r;
        if (!T::isInt(r) || T::sgn(S.val[p.second].e) != 0) {
            if (!T::isInt(r)) {
                std::vector<Con> ex;
                if (extra) ex = *extra;
                N f = T::fl(r);
                // convert f back to Q if it fits
                Q fq;
                if constexpr (std::is_same_v<N, Q>) {
                    fq = f;
                } else {
                    if (!f.get_num().fits_slong_p()) return true;
                    fq = Q((long)f.get_num().get_si());
                }
                ex.push_back({Lin(fq) - Lin::var(p.first), false});
                if (lpFeasible<N>(cons, bounds, depth + 1, &ex)) return true;
                ex.back() = {Lin::var(p.first) - Lin(fq + Q(1)), false};
                return lpFeasible<N>(cons, bounds, depth + 1, &ex);
            }
        }
    }
    return true;
}

// ---------------------------------------------------------------- polyhedron
struct Poly {
    std::map<Sym, Lin> sub;                  // solved equalities
    std::vector<Con> cons;                   // >= 2 variables
    std::map<Sym, std::pair<Q, Q>> dummy;
    std::map<Sym, Q> lo, hi;                 // interval bounds (non-strict)
    std::vector<Con> single;                 // strict single-variable (real) constraints
    std::vector<Lin> ne;                     // disequalities e != 0
    bool bottom = false;

    Lin norm(const Lin& e) const {
        bool need = false;
        for (auto& p : e.t)
            if (sub.count(p.first)) {
                need = true;
                break;
            }
        if (!need) return e;
        Lin r;
        r.c = e.c;
        for (auto& p : e.t) {
            auto it = sub.find(p.first);
            if (it == sub.end()) {
                Lin v;
                v.t.push_back(p);
                r = r + v;
            } else
                r = r + it->second.scaled(p.second);
        }
        return r;
    }
    // interval of a normalised expression
    bool ivLo(const Lin& e, Q& out) const {
        Q r = e.c;
        for (auto& p : e.t) {
            auto& m = p.second.sgn() > 0 ? lo : hi;
            auto it = m.find(p.first);
            if (it == m.end()) return false;
            r = r + it->second * p.second;
        }
        out = r;
        return true;
    }
    static void tighten(Lin& e, bool& strict) {
        if (e.t.empty()) return;
        if (e.intSyms()) {
            // scale to integer coefficients, divide by gcd, tighten the constant
            i128 l = 1;
            for (auto& p : e.t) l = mulov(l / gcd128(l, p.second.d), p.second.d);
            if (l != 1) e = e.scaled(Q(l));
            i128 g = 0;
            for (auto& p : e.t) g = gcd128(g, p.second.n);
            if (g > 1) e = e.scaled(Q(1, g));
            if (strict) {
                if (e.c.isInt())
                    e.c = e.c - Q(1);
                else
                    e.c = e.c.floor();
                strict = false;
            } else
                e.c = e.c.floor();
        } else {
            Q k = e.t[0].second;
            if (k.sgn() < 0) k = -k;
            if (k != Q(1)) e = e.scaled(Q(1) / k);
        }
    }
    void addGE(Lin e, bool strict = false) {
        if (bottom) return;
        e = norm(e);
        if (e.t.empty()) {
            if (e.c.sgn() < 0 || (strict && e.c.sgn() == 0)) bottom = true;
            return;
        }
        tighten(e, strict);
        if (e.t.size() == 1) {
            Sym s = e.t[0].first;
            Q k = e.t[0].second;
            Q b = (-e.c) / k;
            if (strict) single.push_back({e, true});
            if (k.sgn() > 0) {
                auto it = lo.find(s);
                if (it == lo.end() || it->second < b) lo[s] = b;
            } else {
                auto it = hi.find(s);
                if (it == hi.end() || b < it->second) hi[s] = b;
            }
            auto a = lo.find(s), z = hi.find(s);
            if (a != lo.end() && z != hi.end()) {
                if (z->second < a->second)
                    bottom = true;
                else if (a->second == z->second) {
                    Lin eq = Lin::var(s) - Lin(a->second);
                    addEQ(eq);
                }
            }
            return;
        }
        for (auto& c : cons) {
            if (c.e.t == e.t) {
                if (e.c < c.e.c || (e.c == c.e.c && strict && !c.strict)) {
                    c.e.c = e.c;
                    c.strict = strict;
                    checkOpposite(e);
                }
                return;
            }
        }
        cons.push_back({e, strict});
        checkOpposite(e);
    }
    void checkOpposite(const Lin& e) {
        for (auto& c : cons) {
            if (c.e.t.size() != e.t.size()) continue;
            bool opp = true;
            for (size_t i = 0; i < e.t.size() && opp; ++i)
                opp = c.e.t[i].first == e.t[i].first && (c.e.t[i].second + e.t[i].second).sgn() == 0;
            if (!opp) continue;
            Q s = c.e.c + e.c;
            if (s.sgn() < 0 || (s.sgn() == 0 && c.strict)) {
                bottom = true;
                return;
            }
            if (s.sgn() == 0) {
                Lin x = e;
                addEQ(x);
            }
            return;
        }
    }
    void addEQ(Lin e) {
        if (bottom) return;
        e = norm(e);
        if (e.t.empty()) {
            if (e.c.sgn()) bottom = true;
            return;
        }
        // pick a variable to solve for: real, or integer with unit coefficient after scaling
        bool allint = e.intSyms();
        if (allint) {
            i128 l = 1;
            for (auto& p : e.t) l = mulov(l / gcd128(l, p.second.d), p.second.d);
            if (l != 1) e = e.scaled(Q(l));
            i128 g = 0;
            for (auto& p : e.t) g = gcd128(g, p.second.n);
            if (g > 1) e = e.scaled(Q(1, g));
            if (!e.c.isInt()) {
                bottom = true;
                return;
            }
        }
        int pick = -1;
        for (int i = (int)e.t.size() - 1; i >= 0; --i) {
            if (allint) {
                Q a = e.t[i].second;
                if (a == Q(1) || a == Q(-1)) {
                    pick = i;
                    break;
                }
            } else if (g_syms[e.t[i].first].real) {
                pick = i;
                break;
            }
        }
        if (pick < 0) {
            // keep as two inequalities
            bool f = false;
            for (auto& c : cons)
                if (c.e == e) f = true;
            if (!f) cons.push_back({e, false});
            Lin m = -e;
            f = false;
            for (auto& c : cons)
                if (c.e == m) f = true;
            if (!f) cons.push_back({m, false});
            return;
        }
        Sym s = e.t[pick].first;
        Q a = e.t[pick].second;
        Lin rhs = e;
        rhs.t.erase(rhs.t.begin() + pick);
        rhs = rhs.scaled(Q(-1) / a);
        // substitute s := rhs everywhere
        auto apply = [&](const Lin& x) {
            Q k = x.coef(s);
            if (!k.sgn()) return x;
            Lin y = x;
            for (size_t i = 0; i < y.t.size(); ++i)
                if (y.t[i].first == s) {
                    y.t.erase(y.t.begin() + i);
                    break;
                }
            return y + rhs.scaled(k);
        };
        for (auto& p : sub) p.second = apply(p.second);
        sub[s] = rhs;
        std::vector<Con> old;
        old.swap(cons);
        std::vector<Con> olds;
        olds.swap(single);
        std::vector<Lin> oldne;
        oldne.swap(ne);
        Q L, H;
        bool hl = lo.count(s), hh = hi.count(s);
        if (hl) L = lo[s];
        if (hh) H = hi[s];
        lo.erase(s);
        hi.erase(s);
        // push unaffected first, then re-add affected
        std::vector<Con> redo;
        for (auto& c : old) {
            if (c.e.coef(s).sgn())
                redo.push_back(c);
            else
                cons.push_back(c);
        }
        for (auto& c : olds) {
            if (c.e.coef(s).sgn())
                redo.push_back(c);
            else
                single.push_back(c);
        }
        for (auto& n : oldne) ne.push_back(n);
        if (hl) addGE(Lin::var(s) - Lin(L));
        if (hh) addGE(Lin(H) - Lin::var(s));
        for (auto& c : redo) addGE(c.e, c.strict);
    }
    void addNE(const Lin& e) {
        if (bottom) return;
        Lin n = norm(e);
        if (n.t.empty()) {
            if (!n.c.sgn()) bottom = true;
            return;
        }
        if (n.intSyms() && n.t.size() == 1) {
            // x != c at an interval end tightens
            Q v = (-n.c) / n.t[0].second;
            Sym s = n.t[0].first;
            if (!v.isInt()) return;
            if (lo.count(s) && lo[s] == v) {
                addGE(Lin::var(s) - Lin(v + Q(1)));
                return;
            }
            if (hi.count(s) && hi[s] == v) {
                addGE(Lin(v - Q(1)) - Lin::var(s));
                return;
            }
        }
        for (auto& x : ne)
            if (x == n || x == -n) return;
        ne.push_back(n);
    }
    // gather constraints connected to the symbols of e
    void slice(const Lin* e, std::vector<const Con*>& out, std::map<Sym, std::pair<const Q*, const Q*>>& bd) const {
        std::set<Sym> rel;
        std::vector<bool> used(cons.size(), false);
        if (e)
            for (auto& p : e->t) rel.insert(p.first);
        if (e) {
            bool ch = true;
            while (ch) {
                ch = false;
                for (size_t i = 0; i < cons.size(); ++i) {
                    if (used[i]) continue;
                    bool hit = false;
                    for (auto& p : cons[i].e.t)
                        if (rel.count(p.first)) {
                            hit = true;
                            break;
                        }
                    if (!hit) continue;
                    used[i] = true;
                    ch = true;
                    out.push_back(&cons[i]);
                    for (auto& p : cons[i].e.t) rel.insert(p.first);
                }
            }
        } else {
            for (auto& c : cons) {
                out.push_back(&c);
                for (auto& p : c.e.t) rel.insert(p.first);
            }
        }
        for (auto& c : single)
            if (!e || rel.count(c.e.t[0].first)) out.push_back(&c);
        for (Sym s : rel) {
            auto a = lo.find(s), z = hi.find(s);
            bd[s] = {a == lo.end() ? nullptr : &a->second, z == hi.end() ? nullptr : &z->second};
        }
    }
    static bool feas(const std::vector<const Con*>& cs, const std::map<Sym, std::pair<const Q*, const Q*>>& bd) {
        g_stats.lp++;
        try {
            return lpFeasible<Q>(cs, bd);
        } catch (NumOverflow&) {
            g_stats.lpq++;
            return lpFeasible<mpq_class>(cs, bd);
        }
    }
    // does P entail e >= 0 (strict: e > 0)?
    bool entailsGE(const Lin& e0, bool strict = false) const {
        g_stats.entail++;
        if (bottom) return true;
        Lin e = norm(e0);
        if (e.t.empty()) {
            g_stats.entailQuick++;
            return strict ? e.c.sgn() > 0 : e.c.sgn() >= 0;
        }
        Q v;
        try {
            if (ivLo(e, v) && (strict ? v.sgn() > 0 : v.sgn() >= 0)) {
                g_stats.entailQuick++;
                return true;
            }
        } catch (NumOverflow&) {
        }
        for (auto& c : cons)
            if (c.e.t == e.t) {
                int s = (e.c - c.e.c).sgn();
                if (s > 0 || (s == 0 && (!strict || c.strict))) {
                    g_stats.entailQuick++;
                    return true;
                }
            }
        Con neg;
        neg.e = -e;
        neg.strict = !strict;
        tighten(neg.e, neg.strict);
        std::vector<const Con*> cs;
        std::map<Sym, std::pair<const Q*, const Q*>> bd;
        slice(&neg.e, cs, bd);
        cs.push_back(&neg);
        if (!feas(cs, bd)) return true;
        return false;
    }
    bool entailsEQ(const Lin& e0) const {
        Lin e = norm(e0);
        if (e.t.empty()) return e.c.sgn() == 0;
        return entailsGE(e) && entailsGE(-e);
    }
    bool entailsNE(const Lin& e0) const {
        Lin e = norm(e0);
        if (e.t.empty()) return e.c.sgn() != 0;
        for (auto& x : ne) {
            Lin y = norm(x);
            if (y == e || y == -e) return true;
            // scaled match
            if (!y.t.empty() && y.t.size() == e.t.size()) {
                Q k = e.t[0].second / y.t[0].second;
                if (y.scaled(k) == e) return true;
            }
        }
        return entailsGE(e, true) || entailsGE(-e, true);
    }
    // may be called after additions; uses disequalities to refine
    bool feasible() {
        if (bottom) return false;
        for (int round = 0; round < 4; ++round) {
            bool ch = false;
            std::vector<Lin> keep;
            std::vector<Lin> cur;
            cur.swap(ne);
            for (auto& x0 : cur) {
                Lin x = norm(x0);
                if (x.t.empty()) {
                    if (!x.c.sgn()) {
                        bottom = true;
                        return false;
                    }
                    continue;
                }
                bool ge = entailsGE(x), le = entailsGE(-x);
                if (ge && le) {
                    bottom = true;
                    return false;
                }
                if (ge) {
                    addGE(x, true);
                    ch = true;
                } else if (le) {
                    addGE(-x, true);
                    ch = true;
                } else
                    keep.push_back(x);
                if (bottom) return false;
            }
            for (auto& k : keep) ne.push_back(k);
            if (!ch) break;
        }
        if (bottom) return false;
        std::vector<const Con*> cs;
        std::map<Sym, std::pair<const Q*, const Q*>> bd;
        slice(nullptr, cs, bd);
        if (cs.empty()) return true;
        if (!feas(cs, bd)) {
            bottom = true;
            return false;
        }
        return true;
    }
    // feasibility of P with one more constraint, restricted to the connected part
    bool feasibleWith(const Lin& e, bool strict = false) const {
        if (bottom) return false;
        return !entailsGE(-e, !strict);
    }
    std::string str() const {
        std::string s;
        for (auto& p : sub) s += g_syms[p.first].name + "#" + std::to_string(p.first) + " = " + p.second.str() + "; ";
        for (auto& p : lo) s += g_syms[p.first].name + "#" + std::to_string(p.first) + " >= " + p.second.str() + "; ";
        for (auto& p : hi) s += g_syms[p.first].name + "#" + std::to_string(p.first) + " <= " + p.second.str() + "; ";
        for (auto& c : cons) s += c.e.str() + (c.strict ? " > 0; " : " >= 0; ");
        for (auto& c : ne) s += c.str() + " != 0; ";
        return s;
    }
};
