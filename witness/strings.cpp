// String utilities on every string of up to four characters in memory of exactly that size, so that looking at one
// character too many is seen.
#include "vf.h"
#include "spine/core/utils/string.hpp"
#include <string_view>
using namespace spn::core::utils;

struct Text {
    size_t n;
    char* p;
    explicit Text(int max) : n(vf_choose(max + 1)), p(vf_unknown_bytes(n)) {}
    std::string_view view() const { return {p, n}; }
};
static bool in(char c, std::string_view set) {
    bool found = false;
    for (size_t i = 0; i < set.size(); ++i) found = found || c == set[i];
    return found;
}
static std::string_view any_delimiters() {
    switch (vf_choose(3)) {
    case 0: return " \f\n\r\t\v";
    case 1: return ";";
    default: return "";
    }
}

extern "C" void vp_strings_lstrip() {
    vf_option("split", 8192);
    const Text t(4);
    const auto d = any_delimiters();
    const auto v = lstrip(t.view(), d);
    size_t k = 0; // delimiters at the front
    while (k < t.n && in(t.p[k], d)) ++k;
    vf_check(v.size() == t.n - k, "stripping the front removes exactly the leading delimiters");
    vf_check(v.empty() || v.data() == t.p + k, "what is left after stripping the front is the rest of the string");
    vf_check(v.data() >= t.p && v.data() + v.size() <= t.p + t.n, "stripping the front stays within the string");
}
extern "C" void vp_strings_rstrip() {
    vf_option("split", 8192);
    const Text t(4);
    const auto d = any_delimiters();
    const auto v = rstrip(t.view(), d);
    size_t k = t.n; // what remains before the trailing delimiters
    while (k > 0 && in(t.p[k - 1], d)) --k;
    vf_check(v.size() == k, "stripping the back removes exactly the trailing delimiters");
    vf_check(v.empty() || v.data() == t.p, "what is left after stripping the back is the start of the string");
    vf_check(v.data() >= t.p && v.data() + v.size() <= t.p + t.n, "stripping the back stays within the string");
}
extern "C" void vp_strings_default() {
    vf_option("split", 8192);
    const Text t(2);
    const auto v = lstrip(t.view()), w = rstrip(t.view());
    const std::string_view space = " \f\n\r\t\v";
    size_t k = 0, l = t.n;
    while (k < t.n && in(t.p[k], space)) ++k;
    while (l > 0 && in(t.p[l - 1], space)) --l;
    vf_check(v.size() == t.n - k && w.size() == l, "white space is stripped unless told otherwise");
}
extern "C" void vp_strings_affixes() {
    vf_option("split", 16384);
    const Text t(3), n(3);
    const auto s = t.view(), x = n.view();
    bool first = t.n >= n.n, last = t.n >= n.n;
    if (first)
        for (size_t i = 0; i < n.n; ++i) {
            first = first && t.p[i] == n.p[i];
            last = last && t.p[t.n - n.n + i] == n.p[i];
        }
    if (vf_nondet_bool()) vf_check(starts_with(s, x) == first, "a string starts with exactly its prefixes");
    else vf_check(ends_with(s, x) == last, "a string ends with exactly its suffixes");
}
extern "C" void vp_strings_find() {
    vf_option("split", 16384);
    const Text t(4), d(2);
    const size_t at = find_first_of(t.view(), d.view());
    size_t k = 0;
    while (k < t.n && !in(t.p[k], d.view())) ++k;
    vf_check(at == (k < t.n ? k : std::string_view::npos), "the position found is that of the first delimiter, or none");
}
extern "C" void vp_strings_number() {
    vf_option("split", 8192);
    const Text t(4);
    const float f = to_float(t.view());
    if (t.n == 0) vf_check(f == 0.0f, "no text is no number");
    (void)f;
    // a character that occurs in no number, after an arbitrary one
    char text[3] = {'1', vf_nondet_char(), ';'};
    vf_assume(text[1] != 0);
    vf_check(to_float(std::string_view(text, 3)) == 0.0f, "text with something behind the number is no number");
    vf_reach("any text is converted without leaving it");
}
