// Exact numbers and linear expressions used by the abstract domain.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

typedef __int128 i128;

struct NumOverflow {};

inline i128 addov(i128 a, i128 b) {
    i128 r;
    if (__builtin_add_overflow(a, b, &r)) throw NumOverflow{};
    return r;
}
inline i128 mulov(i128 a, i128 b) {
    int64_t sa = (int64_t)a, sb = (int64_t)b;
    if (sa == a && sb == b) return (i128)sa * sb;
    i128 r;
    if (__builtin_mul_overflow(a, b, &r)) throw NumOverflow{};
    return r;
}
inline i128 gcd128(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) {
        if ((uint64_t)a == a && (uint64_t)b == b) {
            uint64_t x = (uint64_t)a, y = (uint64_t)b;
            while (y) {
                uint64_t t = x % y;
                x = y;
                y = t;
            }
            return x;
        }
        i128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
inline std::string str128(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0;
    std::string s;
    while (v) {
        int d = (int)(v % 10);
        if (d < 0) d = -d;
        s.push_back('0' + d);
        v /= 10;
    }
    if (neg) s.push_back('-');
    std::reverse(s.begin(), s.end());
    return s;
}

struct Q {
    i128 n = 0, d = 1;
    Q() {}
    Q(int v) : n(v) {}
    Q(long v) : n(v) {}
    Q(long long v) : n(v) {}
    Q(unsigned long v) : n(v) {}
    Q(i128 v) : n(v) {}
    Q(i128 nn, i128 dd) : n(nn), d(dd) { norm(); }
    void norm() {
        if (d < 0) {
            n = -n;
            d = -d;
        }
        if (d == 1) return;
        i128 g = gcd128(n, d);
        if (g > 1) {
            n /= g;
            d /= g;
        }
        if (n == 0) d = 1;
    }
    bool isInt() const { return d == 1; }
    int sgn() const { return n < 0 ? -1 : n > 0 ? 1 : 0; }
    Q operator-() const {
        Q r;
        r.n = -n;
        r.d = d;
        return r;
    }
    friend Q operator+(const Q& a, const Q& b) {
        Q r;
        if (a.d == 1 && b.d == 1) {
            r.n = addov(a.n, b.n);
            return r;
        }
        r.n = addov(mulov(a.n, b.d), mulov(b.n, a.d));
        r.d = mulov(a.d, b.d);
        r.norm();
        return r;
    }
    friend Q operator-(const Q& a, const Q& b) { return a + (-b); }
    friend Q operator*(const Q& a, const Q& b) {
        Q r;
        if (a.d == 1 && b.d == 1) {
            r.n = mulov(a.n, b.n);
            return r;
        }
        i128 g1 = gcd128(a.n, b.d), g2 = gcd128(b.n, a.d);
        if (g1 == 0) g1 = 1;
        if (g2 == 0) g2 = 1;
        r.n = mulov(a.n / g1, b.n / g2);
        r.d = mulov(a.d / g2, b.d / g1);
        if (r.n == 0) r.d = 1;
        return r;
    }
    friend Q operator/(const Q& a, const Q& b) {
        Q inv;
        inv.n = b.d;
        inv.d = b.n;
        if (inv.d < 0) {
            inv.n = -inv.n;
            inv.d = -inv.d;
        }
        return a * inv;
    }
    friend bool operator==(const Q& a, const Q& b) { return a.n == b.n && a.d == b.d; }
    friend bool operator!=(const Q& a, const Q& b) { return !(a == b); }
    friend bool operator<(const Q& a, const Q& b) {
        if (a.d == b.d) return a.n < b.n;
        return mulov(a.n, b.d) < mulov(b.n, a.d);
    }
    friend bool operator>(const Q& a, const Q& b) { return b < a; }
    friend bool operator<=(const Q& a, const Q& b) { return !(b < a); }
    friend bool operator>=(const Q& a, const Q& b) { return !(a < b); }
    Q floor() const {
        if (d == 1) return *this;
        i128 q = n / d;
        if (n < 0 && q * d != n) q -= 1;
        return Q(q);
    }
    Q ceil() const { return -((-*this).floor()); }
    std::string str() const { return d == 1 ? str128(n) : str128(n) + "/" + str128(d); }
};

inline Q pow2(unsigned k) { return Q((i128)1 << k); }

typedef int Sym;

// global symbol table
struct SymInfo {
    bool real;
    std::string name;
};
extern std::vector<SymInfo> g_syms;
inline Sym newSym(bool real, const std::string& name) {
    g_syms.push_back({real, name});
    return (Sym)g_syms.size() - 1;
}

struct Lin {
    std::vector<std::pair<Sym, Q>> t; // sorted by symbol
    Q c;
    Lin() {}
    Lin(const Q& k) : c(k) {}
    Lin(int k) : c(k) {}
    static Lin var(Sym s) {
        Lin l;
        l.t.push_back({s, Q(1)});
        return l;
    }
    bool isConst() const { return t.empty(); }
    bool isZero() const { return t.empty() && c.sgn() == 0; }
    Q coef(Sym s) const {
        for (auto& p : t)
            if (p.first == s) return p.second;
        return Q(0);
    }
    bool allInt() const {
        for (auto& p : t)
            if (g_syms[p.first].real || !p.second.isInt()) return false;
        return c.isInt();
    }
    bool intSyms() const {
        for (auto& p : t)
            if (g_syms[p.first].real) return false;
        return true;
    }
    friend Lin lincomb(const Lin& a, const Q& ka, const Lin& b, const Q& kb) {
        Lin r;
        r.c = a.c * ka + b.c * kb;
        size_t i = 0, j = 0;
        r.t.reserve(a.t.size() + b.t.size());
        while (i < a.t.size() || j < b.t.size()) {
            if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
                Q v = a.t[i].second * ka;
                if (v.sgn()) r.t.push_back({a.t[i].first, v});
                ++i;
            } else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
                Q v = b.t[j].second * kb;
                if (v.sgn()) r.t.push_back({b.t[j].first, v});
                ++j;
            } else {
                Q v = a.t[i].second * ka + b.t[j].second * kb;
                if (v.sgn()) r.t.push_back({a.t[i].first, v});
                ++i;
                ++j;
            }
        }
        return r;
    }
    friend Lin operator+(const Lin& a, const Lin& b) { return lincomb(a, Q(1), b, Q(1)); }
    friend Lin operator-(const Lin& a, const Lin& b) { return lincomb(a, Q(1), b, Q(-1)); }
    Lin scaled(const Q& k) const {
        if (k.sgn() == 0) return Lin();
        Lin r;
        r.c = c * k;
        for (auto& p : t) r.t.push_back({p.first, p.second * k});
        return r;
    }
    Lin operator-() const { return scaled(Q(-1)); }
    friend bool operator==(const Lin& a, const Lin& b) { return a.c == b.c && a.t == b.t; }
    friend bool operator!=(const Lin& a, const Lin& b) { return !(a == b); }
    std::string key() const {
        std::string s;
        for (auto& p : t) s += p.second.str() + "*" + std::to_string(p.first) + "+";
        return s + c.str();
    }
    std::string str() const {
        std::string s;
        for (auto& p : t) {
            if (!s.empty()) s += " + ";
            if (p.second != Q(1)) s += p.second.str() + "*";
            s += g_syms[p.first].name + "#" + std::to_string(p.first);
        }
        if (s.empty() || c.sgn()) s += (s.empty() ? "" : " + ") + c.str();
        return s;
    }
};
