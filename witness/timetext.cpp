// Times as text.
#include "vf.h"
#include "spine/core/utils/time_repr.hpp"
using namespace spn::core::utils;

static bool digit(char c) { return c >= '0' && c <= '9'; }

// the unit a text names, as an index into the variant, or -1
static int unit_of(const char* p, size_t n) {
    if (n == 2 && p[0] == 'u' && p[1] == 's') return 0;
    if (n == 2 && p[0] == 'm' && p[1] == 's') return 1;
    if (n == 1 && p[0] == 's') return 2;
    if (n == 1 && p[0] == 'm') return 3;
    if (n == 1 && p[0] == 'h') return 4;
    if (n == 1 && p[0] == 'd') return 5;
    return -1;
}
template<typename V>
static long count(const V& v) {
    switch (v.index()) {
    case 0: return std::get<0>(v).raw();
    case 1: return std::get<1>(v).raw();
    case 2: return std::get<2>(v).raw();
    case 3: return std::get<3>(v).raw();
    case 4: return std::get<4>(v).raw();
    default: return std::get<5>(v).raw();
    }
}
static void parses(const char* p, size_t n) {
    size_t k = 0;
    long value = 0;
    while (k < n && digit(p[k])) {
        value = value * 10 + (p[k] - '0');
        ++k;
    }
    const int unit = k == 0 ? -1 : unit_of(p + k, n - k);
    const auto t = parse_time({p, n});
    vf_check(t.has_value() == (unit >= 0), "a text is a time iff it is a number followed by a unit");
    if (t && unit >= 0) {
        vf_check(t->index() == (size_t)unit, "the time has the unit that was given");
        vf_check(count(*t) == value, "the time has the number that was given");
    }
}
// any text of up to three characters
extern "C" void vp_timetext_any() {
    vf_option("split", 16384);
    const size_t n = vf_choose(4);
    parses(vf_unknown_bytes(n), n);
}
// numbers with a unit, and any unit behind a number
extern "C" void vp_timetext_numbers() {
    vf_option("split", 16384);
    char* p = vf_unknown_bytes(4);
    vf_assume(digit(p[0]) && digit(p[1]));
    vf_assume(!digit(p[2]));
    parses(p, 4);
}
// long numbers: representable ones are read, others are refused
extern "C" void vp_timetext_long() {
    vf_option("split", 16384);
    const size_t n = vf_choose(2) ? 9 : 10 + vf_choose(14);
    char* p = vf_unknown_bytes(n + 1);
    for (size_t i = 0; i < n; ++i) p[i] = '9';
    p[n] = 's';
    const auto t = parse_time({p, n + 1});
    if (n == 9) vf_check(t.has_value() && t->index() == 2 && count(*t) == 999999999, "a number of nine digits is read");
    else if (t) {
        long want = 0;
        for (size_t i = 0; i < n && i < 18; ++i) want = want * 10 + 9;
        vf_check(n <= 18 && count(*t) == want, "a number that does not fit is refused, not misread");
    }
    vf_reach("long numbers");
}

// the largest number there is, and its neighbours
extern "C" void vp_timetext_limit() {
    vf_option("split", 64);
    char p[21] = "922337203685477580_s";
    const char c = vf_nondet_char();
    vf_assume(digit(c));
    p[18] = c;
    const auto t = parse_time({p, 20});
    vf_check(t.has_value() == (c <= '7'), "a number is read exactly if it fits");
    if (t) vf_check(t->index() == 2 && count(*t) == 9223372036854775800l + (c - '0'), "the largest numbers are read as they are");
}
// printing a time and reading it back
template<typename T>
static void prints(long in_us) {
    vf_option("split", 16384);
    const long x = vf_nondet_long();
    vf_assume(x >= 0 && x <= (1l << 44) / in_us);
    const std::string text = repr(T(x));
    const auto t = parse_time(text);
    vf_check(t.has_value(), "a printed time can be read back");
    if (!t) return;
    static const long units[6] = {1, 1000, 1000000, 60000000, 3600000000, 86400000000};
    const long n = count(*t);
    const int unit = vf_choose(6); // the interpreter follows each unit separately
    vf_assume((size_t)unit == t->index());
    const long off = 2 * (n * units[unit] - x * in_us);
    vf_check(off <= units[unit] && off >= -units[unit], "a printed time is the time rounded to the unit printed");
    vf_check(n >= 0, "a printed time is not negative");
    if (unit > 0) vf_check(n > 0, "a time is not printed as nothing of a unit");
    if (unit < 2) vf_check(n < 1000, "microseconds and milliseconds are printed below a thousand only");
    if (unit == 2) vf_check(n < 900, "seconds are printed below nine hundred only");
    if (unit == 3) vf_check(n < 1440, "minutes are printed below a day only");
}
extern "C" void vp_timetext_prints_us() { prints<k_time_us>(1); }
extern "C" void vp_timetext_prints_ms() { prints<k_time_ms>(1000); }
extern "C" void vp_timetext_prints_s() { prints<k_time_s>(1000000); }
extern "C" void vp_timetext_prints_m() { prints<k_time_m>(60000000); }
extern "C" void vp_timetext_prints_h() { prints<k_time_h>(3600000000); }
extern "C" void vp_timetext_prints_d() { prints<k_time_d>(86400000000); }
// a unit with anything behind it is none
extern "C" void vp_timetext_trailing() {
    vf_option("split", 16384);
    static const char* const texts[] = {"5us__", "7ms__", "3s__", "9m__", "1h__", "2d__"};
    const char* text = texts[vf_choose(6)];
    char p[6] = {};
    size_t n = 0;
    while (text[n] && text[n] != '_') {
        p[n] = text[n];
        ++n;
    }
    const size_t more = vf_choose(3);
    for (size_t i = 0; i < more; ++i) p[n + i] = vf_nondet_char();
    parses(p, n + more);
}
