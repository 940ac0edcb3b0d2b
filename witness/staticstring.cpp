// A string with fixed storage, filled in every way with up to four characters.
#include "vf.h"
#include "spine/structure/static_string.hpp"
using namespace spn::structure;

static bool in(char c, std::string_view set) {
    bool found = false;
    for (size_t i = 0; i < set.size(); ++i) found = found || c == set[i];
    return found;
}
static std::string_view any_delimiters() {
    switch (vf_choose(3)) {
    case 0: return " \f\n\r\t\v";
    case 1: return ";";
    default: return "";
    }
}
template<int MAX>
struct Scene {
    StaticString s;
    size_t n;
    char c[MAX + 1];
    const char* at;
    size_t cap;
    explicit Scene(int room) : s(room) {
        at = s.data();
        cap = s.capacity();
        vf_check(cap >= (size_t)room && s.size() == cap, "a string has at least the room asked for");
        n = vf_choose(MAX + 1);
        char* p = s.data(n);
        if (n == 0) s.set_size(0);
        for (size_t i = 0; i < n; ++i) p[i] = c[i] = vf_nondet_char();
        vf_check(s.size() == n, "the announced size is the size");
    }
    void holds(size_t from, size_t to, const char* id) {
        vf_check(s.size() == to - from && s.view().size() == to - from, id);
        for (size_t i = from; i < to; ++i) vf_check(s.view()[i - from] == c[i], id);
        vf_check(s.data() == at && s.capacity() == cap && s.c_str() == at && s.view().data() == at, "the storage never moves and keeps its size");
        vf_check(s.c_str()[s.size()] == 0, "a string is terminated");
    }
};
extern "C" void vp_staticstring_strip() {
    vf_option("split", 16384);
    vf_option("leaks", 1);
    {
        Scene<3> t(3 + 40 * vf_choose(2)); // inside and outside the small string buffer
        auto d = any_delimiters();
        size_t from = 0, to = t.n;
        switch (vf_choose(2)) {
        case 0:
            vf_op("lstrip");
            while (from < to && in(t.c[from], d)) ++from;
            vf_check(&t.s.lstrip(d) == &t.s, "stripping yields the string");
            t.holds(from, to, "stripping the front removes exactly the leading delimiters");
            break;
        case 1:
            vf_op("rstrip");
            while (from < to && in(t.c[to - 1], d)) --to;
            vf_check(&t.s.rstrip(d) == &t.s, "stripping yields the string");
            t.holds(from, to, "stripping the back removes exactly the trailing delimiters");
            break;
        }
    }
    vf_leak_check();
}
extern "C" void vp_staticstring_default() {
    vf_option("split", 16384);
    Scene<2> t(5);
    const std::string_view space = " \f\n\r\t\v";
    size_t from = 0, to = t.n;
    while (from < to && in(t.c[from], space)) ++from;
    while (from < to && in(t.c[to - 1], space)) --to;
    t.s.lstrip().rstrip();
    t.holds(from, to, "white space is stripped unless told otherwise");
}
extern "C" void vp_staticstring_affixes() {
    vf_option("split", 16384);
    Scene<2> t(5);
    const size_t m = vf_choose(4);
    char* p = vf_unknown_bytes(m);
    bool first = t.n >= m, last = t.n >= m;
    if (first)
        for (size_t i = 0; i < m; ++i) {
            first = first && t.c[i] == p[i];
            last = last && t.c[t.n - m + i] == p[i];
        }
    if (vf_nondet_bool()) vf_check(t.s.starts_with({p, m}) == first, "a string starts with exactly its prefixes");
    else vf_check(t.s.ends_with({p, m}) == last, "a string ends with exactly its suffixes");
    t.holds(0, t.n, "comparing changes nothing");
}
extern "C" void vp_staticstring_size() {
    vf_option("split", 16384);
    vf_option("leaks", 1);
    {
        Scene<3> t(3 + 40 * vf_choose(2));
        const size_t k = vf_nondet_size();
        vf_assume(k <= t.cap);
        if (k < 4 && k <= t.n) {
            t.s.set_size(k);
            t.holds(0, k, "shrinking keeps the characters that remain");
        } else if (k >= t.n) {
            t.s.set_size(k);
            vf_check(t.s.size() == k, "growing sets the size");
            for (size_t i = 0; i < t.n; ++i) vf_check(t.s.view()[i] == t.c[i], "growing keeps the characters");
            vf_check(t.s.data() == t.at && t.s.capacity() == t.cap, "growing within the room keeps the storage");
        }
    }
    vf_leak_check();
}

extern "C" void vp_staticstring_new() {
    vf_option("split", 512);
    const int room = vf_choose(6);
    const StaticString s(room);
    for (int i = 0; i < room; ++i) vf_check(s.view()[i] == 0, "a new string holds nothing");
    vf_check(s.c_str()[0] == 0, "a new string holds nothing");
}
