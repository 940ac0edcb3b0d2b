// Timers: any passing of time between any uses.
#include "vf.h"
#include "spine/structure/time/timers.hpp"
using namespace spn::structure::time;

static long any_time() {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 30));
    return t;
}
static long now() { return HAL::millis().raw(); }
static void pass() {
    vf_assume(now() <= (1l << 50));
    HAL::delay_ms(k_time_ms(any_time()));
}

extern "C" void vp_timers_timer() {
    pass();
    Timer t;
    long last = now();
    if (vf_nondet_bool()) {
        last = any_time();
        t = Timer(k_time_ms(last));
    }
    while (vf_loop()) {
        pass();
        switch (vf_choose(5)) {
        case 0:
            vf_check(t.time_since_last().raw() == now() - last, "a timer reports the time since it was last reset");
            last = now();
            break;
        case 1: vf_check(t.time_since_last(Timer::NoReset).raw() == now() - last, "a timer can be read without resetting it"); break;
        case 2:
            t.reset();
            last = now();
            break;
        case 3:
            last = any_time();
            t.reset(k_time_ms(last));
            break;
        case 4: break;
        }
    }
}
extern "C" void vp_timers_alarm() {
    pass();
    const long d = any_time();
    const bool absolute = vf_nondet_bool();
    vf_assume(!absolute || d > now());
    AlarmTimer t = absolute ? AlarmTimer(k_time_ms(d), true) : vf_nondet_bool() ? AlarmTimer(k_time_ms(d), false) : AlarmTimer(k_time_ms(d));
    const long due = absolute ? d : now() + d;
    while (vf_loop()) {
        pass();
        vf_check(t.future().raw() == due, "an alarm keeps its time");
        vf_check(t.time_from_now().raw() == due - now(), "an alarm reports the time until it goes off");
        if (vf_nondet_bool()) vf_check(t.expired() == (now() >= due), "an alarm has gone off iff its time has come");
    }
}
extern "C" void vp_timers_interval() {
    pass();
    const long d = any_time();
    const bool catch_up = vf_nondet_bool();
    IntervalTimer t = catch_up ? IntervalTimer(k_time_ms(d), true) : vf_nondet_bool() ? IntervalTimer(k_time_ms(d), false) : IntervalTimer(k_time_ms(d));
    long last = now();
    while (vf_loop()) {
        pass();
        vf_check(t.interval().raw() == d, "an interval timer keeps its interval");
        vf_check(t.future().raw() == last + d, "an interval timer reports when it will expire");
        vf_check(t.time_until_next().raw() == last + d - now(), "an interval timer reports the time until it expires");
        if (vf_nondet_bool()) {
            vf_op("poll");
            const bool e = t.expired();
            vf_check(e == (now() >= last + d), "an interval timer expires iff its interval has passed");
            if (e) last = catch_up ? last + d : now();
            vf_check(t.future().raw() == last + d, "an interval timer starts over once when it expires: from the moment it was due when catching up, else from now");
        } else if (vf_nondet_bool()) {
            vf_op("reset");
            t.reset();
            last = now();
        }
    }
}
extern "C" void vp_timers_alarm_rollover() {
    const long d = any_time();
    AlarmTimer t = AlarmTimer(k_time_ms(d), false);
    pass();
    const bool before = t.expired();
    spn::platform::MockStateInstance().millis = k_time_ms(any_time()); // the clock rolls around
    vf_assume(before);
    vf_check(t.expired(), "an alarm seen to have gone off stays so when the clock rolls around");
    vf_check(t.expired(), "an alarm seen to have gone off stays so when asked again");
}
