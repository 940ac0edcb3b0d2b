// The set-reset latch: any readings at any times, any limits.
#include "vf.h"
#include "spine/controller/sr_latch.hpp"
using namespace spn::controller;

static long any_time() {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 30));
    return t;
}
static long now() { return HAL::millis().raw(); }
static void pass() {
    vf_assume(now() <= (1l << 50));
    HAL::delay_ms(k_time_ms(any_time()));
}
extern "C" void vp_latch() {
    pass();
    const float high = vf_nondet_float(), low = vf_nondet_float();
    const long min_on = any_time(), max_on = any_time(), min_off = any_time(), max_off = any_time();
    SRLatch l(SRLatch::Config{.high = high, .low = low, .minimal_on_time = k_time_ms(min_on), .maximal_on_time = k_time_ms(max_on),
                              .minimal_off_time = k_time_ms(min_off), .maximal_off_time = k_time_ms(max_off)});
    l.initialize();
    vf_check(!l.response(), "a latch starts off");
    long since = now() - min_off; // a new latch may turn on at once
    bool on = false;
    while (vf_loop()) {
        vf_key(0, on);
        pass();
        const float x = vf_nondet_float();
        const long held = now() - since;
        l.new_reading(x);
        const bool now_on = l.response();
        if (on) {
            if (held < min_on) vf_check(now_on, "a latch stays on for its minimal time whatever it reads");
            else if (max_on != 0 && held > max_on) vf_check(!now_on, "a latch turns off after its maximal time whatever it reads");
            else if (x > high) vf_check(now_on, "a latch stays on while the reading is above the upper limit");
            else if (x < low) vf_check(!now_on, "a latch turns off when the reading is below the lower limit");
            else vf_check(now_on, "a latch stays on while the reading is between the limits");
        } else {
            if (held < min_off) vf_check(!now_on, "a latch stays off for its minimal time whatever it reads");
            else if (max_off != 0 && held > max_off) vf_check(now_on, "a latch turns on after its maximal time whatever it reads");
            else if (x > high) vf_check(now_on, "a latch turns on when the reading is above the upper limit");
            else vf_check(!now_on, "a latch stays off while the reading is not above the upper limit");
        }
        if (now_on != on) since = now();
        on = now_on;
    }
}
