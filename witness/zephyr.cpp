// The Zephyr platform against a recording stand-in for the kernel (C34)
#include "vf.h"
#include <zephyr/logging/log.h>
#include <zephyr/logging/log_ctrl.h>
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
using spn::logging::LogLevel;

static long uptime, ticks;
static unsigned long micros, asked;
static long slept_us;
static bool panicked;
static unsigned logs, level, filters, filter;
static const char *message, *backend;

extern "C" {
int64_t k_uptime_get() { return uptime; }
int64_t k_uptime_ticks() { return ticks; }
// what the kernel makes of ticks: the narrow conversions are cut off
uint64_t k_ticks_to_us_near64(uint64_t t) {
    asked = t;
    return micros;
}
uint32_t k_ticks_to_us_near32(uint32_t t) {
    asked = t;
    return (uint32_t)micros;
}
uint64_t k_ticks_to_us_floor64(uint64_t t) {
    asked = t;
    return micros;
}
uint32_t k_ticks_to_us_floor32(uint32_t t) {
    asked = t;
    return (uint32_t)micros;
}
uint32_t k_uptime_get_32() { return (uint32_t)uptime; }
int32_t k_msleep(int32_t ms) {
    vf_check(ms >= 0, "no sleep is negative");
    slept_us += 1000l * ms;
    return 0;
}
int32_t k_usleep(int32_t us) {
    vf_check(us >= 0, "no sleep is negative");
    slept_us += us;
    return 0;
}
void k_busy_wait(uint32_t us) { slept_us += us; }
void k_panic() {
    panicked = true;
    vf_reach("halting panics");
}
void zephyr_stub_log(unsigned l, const char* fmt, const char* msg) {
    if (logs < 3) ++logs;
    level = l;
    message = msg;
    vf_check(fmt[0] == '%' && fmt[1] == 's' && fmt[2] == 0, "a message is never taken for a format");
}
const struct log_backend* log_backend_get_by_name(const char* name) {
    backend = name;
    return nullptr;
}
uint32_t log_filter_set(const struct log_backend*, uint32_t, int16_t, uint32_t l) {
    if (filters < 3) ++filters;
    filter = l;
    return l;
}
}

extern "C" void vp_zephyr_time() {
    uptime = vf_nondet_long();
    vf_assume(uptime >= 0 && uptime < (1l << 50));
    vf_check(HAL::millis().raw() == uptime, "milliseconds are those since start");
    ticks = vf_nondet_long();
    micros = vf_nondet_size();
    vf_assume(ticks >= 0 && ticks < (1l << 50) && micros < (1ul << 60));
    vf_check(HAL::micros().raw() == (long)micros && asked == (unsigned long)ticks, "microseconds are those of the ticks since start");
}
extern "C" void vp_zephyr_delay() {
    slept_us = 0;
    const long x = vf_nondet_long();
    vf_assume(x >= 0 && x <= 2000000000l);
    switch (vf_choose(3)) {
    case 0: HAL::delay(k_time_ms(x)); vf_check(slept_us == 1000 * x, "a delay takes the milliseconds asked for"); break;
    case 1: HAL::delay_ms(k_time_ms(x)); vf_check(slept_us == 1000 * x, "a delay in milliseconds takes as many"); break;
    default: HAL::delay_us(k_time_us(x)); vf_check(slept_us >= x && slept_us < x + 1000, "a delay in microseconds takes as many, and not a millisecond more"); break;
    }
}
static LogLevel any_level() {
    switch (vf_choose(5)) {
    case 0: return LogLevel::OFF;
    case 1: return LogLevel::ERR;
    case 2: return LogLevel::WARN;
    case 3: return LogLevel::INFO;
    default: return LogLevel::DEBUG;
    }
}
static unsigned rank(LogLevel l) {
    switch (l) {
    case LogLevel::OFF: return LOG_LEVEL_NONE;
    case LogLevel::ERR: return LOG_LEVEL_ERR;
    case LogLevel::WARN: return LOG_LEVEL_WRN;
    case LogLevel::INFO: return LOG_LEVEL_INF;
    default: return LOG_LEVEL_DBG;
    }
}
extern "C" void vp_zephyr_log() {
    logs = filters = 0;
    const char* msg = "message %d";
    const LogLevel l = any_level();
    spn::platform::zephyr_log(l, msg);
    if (l == LogLevel::OFF) vf_check(logs == 0, "what is off is not logged");
    else vf_check(logs == 1 && level == rank(l) && message == msg, "a message is logged once, at its level");
    vf_check(filters == 0, "logging leaves the level alone");
}
extern "C" void vp_zephyr_log_level() {
    logs = filters = 0;
    const LogLevel l = any_level();
    spn::logging::set_log_level(l);
    vf_check(filters >= 1 && filter == rank(l), "the kernel logs at the level that was set");
    vf_check(spn::logging::log_level() == l, "the level reads back as it was set");
    vf_check(logs == 0, "setting a level logs nothing");
}
extern "C" void vp_zephyr_overload() {
    logs = 0;
    spn::logging::set_log_level(any_level());
    SPN_ERR("hello");
    const bool on = spn::logging::log_level() != LogLevel::OFF;
    vf_check(logs == (on ? 1u : 0u), "a message goes to the kernel once, if its level is enabled");
    if (on) vf_check(level == LOG_LEVEL_ERR, "a message keeps its level");
}
extern "C" void vp_zephyr_halt() {
    panicked = false;
    HAL::halt("reason");
    vf_check(panicked, "halting panics");
    panicked = false;
    HAL::halt();
    vf_check(panicked, "halting without a reason panics");
}
