// Logging: what is printed, with a message buffer small enough to be exceeded.
#define SPINE_LOGGING_MAX_MSG_SIZE 32
#include "spine/core/logging.cpp"
#include "vf.h"
#include <cstring>
using namespace spn::logging;

static int printed, lines;
static const char* last;
static char text[256];
static size_t length;
static bool keep;
static size_t room = SPINE_LOGGING_MAX_MSG_SIZE;
namespace std {
template<>
std::ostream& operator<< <std::char_traits<char>>(std::ostream& o, const char* s) {
    length = strlen(s);
    vf_check(length < room, "a printed message is terminated within its buffer");
    if (keep)
        for (size_t i = 0; i < length; ++i) text[i] = s[i];
    ++printed;
    return o;
}
template<>
std::ostream& endl<char, std::char_traits<char>>(std::ostream& o) {
    ++lines;
    return o;
}
} // namespace std

static LogLevel any_level() { return (LogLevel)vf_choose(5); }
static const char* any_text(int max) {
    const size_t n = vf_choose(max + 1);
    char* p = vf_unknown_bytes(n + 1);
    for (size_t i = 0; i < n; ++i) vf_assume(p[i] > 0);
    p[n] = 0;
    return p;
}

extern "C" void vp_logging_levels() {
    const auto level = any_level();
    set_log_level(level);
    vf_check(log_level() == level, "the log level is the one that was set");
    const auto l = any_level();
    vf_check(is_loggable(l) == ((int)l <= (int)level), "a message is loggable iff its level is enabled");
    int enabled = 0;
    switch (vf_choose(3)) {
    case 0:
        SPN_LOG("x");
        enabled = level >= LogLevel::INFO;
        break;
    case 1:
        SPN_WARN("x");
        enabled = level >= LogLevel::WARN;
        break;
    default: SPN_ERR("x"); enabled = level >= LogLevel::ERR;
    }
    vf_check(printed == enabled && lines == enabled, "a message is printed once, in a line of its own, iff its level is enabled");
}
extern "C" void vp_logging_text() {
    vf_option("split", 8192);
    vf_option("unroll", 64);
    keep = true;
    const uint32_t t = vf_nondet_uint();
    vf_assume(t <= 999);
    HAL::delay_ms(k_time_ms(t));
    const char* s = any_text(16);
    const auto level = (LogLevel)(1 + vf_choose(3));
    detail::print(level, "f.cpp", 1, "f", "%s", s);
    const char* head = level == LogLevel::ERR ? "[00000123] [ERR] " : level == LogLevel::WARN ? "[00000123] [WARN] " : "[00000123] [INFO] ";
    const size_t n = strlen(head), m = strlen(s);
    const size_t all = n + m;
    vf_check(length == (all < 31 ? all : 31), "a message is cut off only when it does not fit");
    for (size_t i = 0; i < n; ++i)
        if (i < 6 || i > 8) vf_check(text[i] == head[i], "a message starts with the time and its level");
    vf_check((text[6] - '0') * 100 + (text[7] - '0') * 10 + (text[8] - '0') == (int)t, "a message starts with the time and its level");
    for (size_t i = 0; i < m && n + i < 31; ++i) vf_check(text[n + i] == s[i], "a message continues with its text");
}
// whatever the arguments and their length
extern "C" void vp_logging_bounds() {
    const auto level = any_level();
    HAL::delay_ms(k_time_ms(vf_nondet_uint()));
    detail::print(level, "file.cpp", vf_nondet_int(), "function", "%f %d %s", vf_nondet_double(), vf_nondet_int(), "text");
    vf_check(printed == 1 && lines == 1, "a message is printed once");
}
extern "C" void vp_logging_printf() {
    room = 256;
    HAL::printf("%f %d", vf_nondet_double(), vf_nondet_int());
    vf_check(printed == 1, "a formatted text is printed once");
}
// a debug message tells where it comes from
extern "C" void vp_logging_debug() {
    vf_option("split", 8192);
    vf_option("unroll", 64);
    keep = true;
    const char* s = any_text(9);
    detail::print(LogLevel::DEBUG, "f.c", 7, "g", "%s", s);
    const char* head = "[00000000] [DBG] ";
    const char* tail = " (f.c:7 g)";
    const size_t n = strlen(head), m = strlen(s), k = strlen(tail);
    vf_check(length == (n + m + k < 31 ? n + m + k : 31), "a debug message is cut off only when it does not fit");
    for (size_t i = 0; i < n; ++i) vf_check(text[i] == head[i], "a debug message starts with the time and its level");
    for (size_t i = 0; i < m && n + i < 31; ++i) vf_check(text[n + i] == s[i], "a debug message continues with its text");
    for (size_t i = 0; i < k && n + m + i < 31; ++i) vf_check(text[n + m + i] == tail[i], "a debug message ends with where it comes from");
}
extern "C" void vp_logging_formatted() {
    vf_option("split", 8192);
    vf_option("unroll", 64);
    room = 256;
    keep = true;
    const char* s = any_text(4);
    HAL::printf("<%s>", s);
    const size_t m = strlen(s);
    vf_check(length == m + 2 && text[0] == '<' && text[m + 1] == '>', "a formatted text is as long as its parts");
    for (size_t i = 0; i < m; ++i) vf_check(text[1 + i] == s[i], "a formatted text is printed as it was formatted");
    vf_check(lines == 0, "a formatted text does not end the line by itself");
}
// printing and lines, of what stays and of what passes
extern "C" void vp_logging_console() {
    keep = true;
    const char* s = "ab";
    const auto passed = [&]() -> const char* { return s; };
    const bool line = vf_nondet_bool();
    switch (vf_choose(2)) {
    case 0: line ? HAL::println(s) : HAL::print(s); break;
    default: line ? HAL::println(passed()) : HAL::print(passed()); break;
    }
    vf_check(printed == 1 && length == 2 && text[0] == 'a' && text[1] == 'b', "a text is printed once, as it is");
    vf_check(lines == (line ? 1 : 0), "a line is ended exactly when a line is printed");
}
