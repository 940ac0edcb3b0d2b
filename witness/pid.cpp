// PID controller, in real arithmetic (rounding aside): gains and intervals from literals, everything else arbitrary.
#include "vf.h"
#include <cmath>
#include <memory>
#include "spine/controller/pid.hpp"
#include "spine/platform/hal.hpp"
using namespace spn::controller;

// logging is another property (C16)
namespace spn::logging {
bool is_loggable(LogLevel) { return false; }
void detail::print(LogLevel, const char*, int, const char*, const char*, ...) {}
} // namespace spn::logging

static long any_time() {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 30));
    return t;
}
static long now() { return HAL::millis().raw(); }
static void pass(long least = 0) {
    vf_assume(now() <= (1l << 50));
    const long t = any_time();
    vf_assume(t >= least);
    HAL::delay_ms(k_time_ms(t));
}
static PID::Tunings tunings(int which) {
    switch (which) {
    case 0: return {.Kp = 2, .Ki = 4, .Kd = 0.5};
    case 1: return {.Kp = 8};
    default: return {.Kp = 0, .Ki = 1, .Kd = 1};
    }
}
using D = PID::Direction;
using Q = PID::Proportionality;
struct Limits {
    float lo = vf_nondet_float(), hi = vf_nondet_float();
    Limits() { vf_assume(lo < hi); }
    float clamp(float x) const { return x > hi ? hi : x < lo ? lo : x; }
};
static void read(PID& p, float x) {
    if (vf_nondet_bool()) p.new_reading(x);
    else p.new_reading(x, HAL::millis());
}

// any history of readings, setpoints and changes of tunings against the textbook
template<int INTERVAL, PID::Direction D, PID::Proportionality P>
static void control() {
    vf_option("fp_exact", 1);
    vf_option("overflow", 0); // that the last update lies before now is more than the interpreter keeps
    pass();
    const Limits l;
    int which = 0;
    PID p(PID::Config{.tunings = tunings(which), .output_lower_limit = l.lo, .output_upper_limit = l.hi, .sample_interval = k_time_ms(INTERVAL),
                      .proportionality = P, .direction = D});
    p.initialize();
    vf_check(p.response() == l.clamp(0), "the response starts at zero, within the limits");
    constexpr float sign = D == PID::Direction::REVERSE ? -1 : 1;
    auto proportionality = P;
    float sum = l.clamp(0), last = 0, out = sum, setpoint = 0, input = 0;
    long updated = now();
    pass(INTERVAL);
    while (vf_loop()) {
        switch (vf_choose(3)) {
        case 0: {
            vf_op("set");
            if (vf_nondet_bool()) {
                setpoint = vf_nondet_float();
                p.set_target_setpoint(setpoint);
            } else {
                which = vf_choose(3);
                proportionality = vf_nondet_bool() ? PID::Proportionality::ON_ERROR : PID::Proportionality::ON_MEASUREMENT;
                p.set_tunings(tunings(which), proportionality);
            }
            break;
        }
        case 1: pass(); break;
        case 2: {
            vf_op("reading");
            input = vf_nondet_float();
            read(p, input);
            if (now() - updated >= INTERVAL) {
                const auto t = tunings(which);
                const float error = setpoint - input, change = input - last;
                sum += sign * t.Ki * error * INTERVAL / 1000;
                if (proportionality == PID::Proportionality::ON_MEASUREMENT) sum -= sign * t.Kp * change;
                sum = l.clamp(sum);
                out = sum - sign * t.Kd * change * 1000 / INTERVAL;
                if (proportionality == PID::Proportionality::ON_ERROR) out += sign * t.Kp * error;
                out = l.clamp(out);
                last = input;
                updated = now();
            }
            break;
        }
        }
        vf_key(0, which);
        vf_key(1, proportionality == PID::Proportionality::ON_ERROR);
        vf_check(p.response() == out, "the response is the textbook response, updated once per sampling interval");
        vf_check(p.response() >= l.lo && p.response() <= l.hi, "the response is within its limits");
        vf_check(p.tunings() == tunings(which), "the tunings are those that were set");
        vf_check(p.setpoint() == setpoint, "the setpoint is the one that was set");
        const float e = p.error();
        vf_check(e >= 0 && (e == setpoint - input || e == input - setpoint), "the error is the distance between setpoint and reading");
    }
}
extern "C" void vp_pid_100_forward() { control<100, D::FORWARD, Q::ON_ERROR>(); }
extern "C" void vp_pid_100_reverse() { control<100, D::REVERSE, Q::ON_MEASUREMENT>(); }
static_assert(std::is_same_v<Q, PIDController::Proportionality>);
extern "C" void vp_pid_50() { control<50, D::FORWARD, Q::ON_MEASUREMENT>(); }
extern "C" void vp_pid_250_reverse() { control<250, D::REVERSE, Q::ON_ERROR>(); }

// the controller underneath: direction, sampling interval, limits and tunings may change at any time
template<PIDController::Proportionality proportionality>
static void controller() {
    vf_option("fp_exact", 1);
    vf_option("overflow", 0); // that the last update lies before now is more than the interpreter keeps
    pass();
    float lo = 0, hi = 255, input = vf_nondet_float(), output = vf_nondet_float(), setpoint = vf_nondet_float();
    int which = 0, interval = 100;
    bool reverse = vf_nondet_bool();
    const auto g = tunings(0);
    PIDController c(&input, &output, &setpoint, g.Kp, g.Ki, g.Kd, proportionality, reverse ? PIDController::Direction::REVERSE : PIDController::Direction::FORWARD);
    c.initialize();
    const auto clamp = [&](float x) { return x > hi ? hi : x < lo ? lo : x; };
    float sum = clamp(output), last = input;
    long updated = now() - interval;
    while (vf_loop()) {
        switch (vf_choose(6)) {
        case 0:
            vf_op("direction");
            reverse = vf_nondet_bool();
            c.set_controller_direction(reverse ? PIDController::Direction::REVERSE : PIDController::Direction::FORWARD);
            break;
        case 1:
            vf_op("interval");
            if (vf_nondet_bool()) interval = vf_nondet_bool() ? 100 : 400;
            c.set_sampling_time(k_time_ms(interval));
            break;
        case 2:
            vf_op("tunings");
            which = vf_choose(2);
            c.set_tunings(tunings(which).Kp, tunings(which).Ki, tunings(which).Kd, proportionality);
            break;
        case 3: {
            vf_op("limits");
            const float a = vf_nondet_float(), b = vf_nondet_float();
            const float before = output;
            c.set_output_limits(a, b);
            if (a < b) {
                lo = a;
                hi = b;
                sum = clamp(sum);
                vf_check(output == clamp(before), "new limits apply to the present output");
            } else vf_check(output == before, "limits the wrong way round change nothing");
            break;
        }
        case 4:
            pass();
            setpoint = vf_nondet_float();
            break;
        case 5: {
            vf_op("update");
            input = vf_nondet_float();
            const float before = output;
            const bool did = c.update(HAL::millis());
            vf_check(did == (now() - updated >= interval), "the controller updates exactly when a sampling interval has passed");
            if (did) {
                const auto t = tunings(which);
                const float sign = reverse ? -1 : 1, error = setpoint - input, change = input - last;
                sum += sign * t.Ki * error * interval / 1000;
                if (proportionality == Q::ON_MEASUREMENT) sum -= sign * t.Kp * change;
                sum = clamp(sum);
                float out = sum - sign * t.Kd * change * 1000 / interval;
                if (proportionality == Q::ON_ERROR) out += sign * t.Kp * error;
                vf_check(output == clamp(out), "the controller's output is the textbook response");
                last = input;
                updated = now();
            } else vf_check(output == before, "between updates the output stays");
            break;
        }
        }
        vf_key(0, which + 2 * reverse + 4 * (interval == 400));
        vf_check((c.direction() == PIDController::Direction::REVERSE) == reverse, "the direction is the one that was set");
    }
}
extern "C" void vp_pid_controller_error() { controller<Q::ON_ERROR>(); }
extern "C" void vp_pid_controller_measurement() { controller<Q::ON_MEASUREMENT>(); }

// whatever the gains
extern "C" void vp_pid_limits() {
    vf_option("overflow", 0); // that the last update lies before now is more than the interpreter keeps
    const Limits l;
    const float kp = vf_nondet_float(), ki = vf_nondet_float(), kd = vf_nondet_float();
    vf_assume(kp >= 0 && ki >= 0 && kd >= 0);
    const long interval = any_time();
    vf_assume(interval > 0);
    PID p(PID::Config{.tunings = {.Kp = kp, .Ki = ki, .Kd = kd}, .output_lower_limit = l.lo, .output_upper_limit = l.hi, .sample_interval = k_time_ms(interval),
                      .proportionality = vf_nondet_bool() ? Q::ON_ERROR : Q::ON_MEASUREMENT, .direction = vf_nondet_bool() ? D::FORWARD : D::REVERSE});
    p.initialize();
    while (vf_loop()) {
        if (vf_nondet_bool()) pass();
        if (vf_nondet_bool()) p.set_target_setpoint(vf_nondet_float());
        if (vf_nondet_bool()) read(p, vf_nondet_float());
        vf_check(p.response() >= l.lo && p.response() <= l.hi, "the response is within its limits whatever the gains");
    }
}

// copies are controllers of their own
extern "C" void vp_pid_copies() {
    vf_option("fp_exact", 1);
    vf_option("leaks", 1);
    pass();
    {
        const Limits l;
        auto p = std::make_unique<PID>(PID::Config{.tunings = {.Kp = 2}, .output_lower_limit = l.lo, .output_upper_limit = l.hi});
        p->initialize();
        pass(100);
        const float aim = vf_nondet_float(), seen = vf_nondet_float();
        p->set_target_setpoint(aim);
        p->new_reading(seen);
        std::unique_ptr<PID> q;
        switch (vf_choose(3)) {
        case 0: q = std::make_unique<PID>(*p); break;
        case 1: q = std::make_unique<PID>(std::move(*p)); break;
        default:
            q = std::make_unique<PID>(PID::Config{.tunings = {.Kp = 1}});
            *q = *p;
        }
        const float before = p->response();
        vf_check(q->response() == before && q->tunings() == p->tunings(), "a copy is in the state of its original");
        vf_check(q->setpoint() == aim && q->error() == p->error(), "a copy has the setpoint and the error of its original");
        pass(100);
        if (vf_nondet_bool()) {
            q->new_reading(seen);
            vf_check(q->response() == before, "a copy continues where its original was");
            pass(100);
        }
        const float setpoint = vf_nondet_float(), x = vf_nondet_float();
        if (vf_nondet_bool()) p.reset();
        q->set_target_setpoint(setpoint);
        q->new_reading(x);
        vf_check(q->response() == l.clamp(l.clamp(0) + 2 * (setpoint - x)), "a copy controls by its own readings");
        if (p) vf_check(p->response() == before && p->setpoint() == aim, "a copy leaves its original alone");
    }
    vf_leak_check();
}

// tuning drives the process within its limits, from one limit to the other
extern "C" void vp_pid_tuner() {
    const Limits l;
    const float target = vf_nondet_float(), hysteresis = vf_nondet_float();
    vf_assume(hysteresis >= 0);
    const int cycles = vf_nondet_int();
    vf_assume(cycles >= 1);
    PIDAutotuner t;
    t.set_target_input_value(target);
    t.set_loop_interval(k_time_ms(100));
    t.setOutputRange(l.lo, l.hi);
    t.set_hysteresis(hysteresis);
    t.set_tuning_cycles(cycles);
    pass();
    t.start_tuning_loop(HAL::millis());
    bool heating = true;
    int done = 0;
    while (vf_loop()) {
        if (t.is_finished()) break;
        pass();
        const float x = vf_nondet_float(), y = t.do_autotune(x, HAL::millis());
        if (heating && x > target + hysteresis) heating = false;
        else if (!heating && x < target - hysteresis) {
            heating = true;
            ++done;
        }
        vf_key(0, heating);
        vf_check(t.get_cycle() == done, "tuning counts how often the process fell below the target");
        vf_check(t.is_finished() == (done >= cycles), "tuning is finished after the cycles asked for");
        vf_check(y == (heating && !t.is_finished() ? l.hi : l.lo), "tuning drives the process to one limit until it passes the target, then to the other, and down when finished");
    }
}

// what tuning finds, for a process that rises and falls by known amounts at known times
static bool near(float x, float y) { return x - y <= y * 1e-4f && y - x <= y * 1e-4f; }
struct Cycle {
    float top, bottom;
    int high, low; // ms
};
static constexpr Cycle process[] = {{12, -8, 400, 300}, {9, -5, 350, 250}, {7, -7, 200, 300}, {11, -6, 500, 700}, {8, -9, 300, 300}};
struct Gains {
    float p = 0, i = 0, d = 0;
};
static Gains ziegler_nichols(PIDAutotuner::Aggressiveness how, int cycles, float range, float interval) {
    using A = PIDAutotuner::Aggressiveness;
    const float kp = how == A::BasicPID ? 0.6f : how == A::LessOvershoot ? 0.33f : 0.2f, td = how == A::BasicPID ? 0.125f : 0.33f, ti = 0.5f;
    Gains sum;
    const int from = cycles > 2 ? 2 : cycles - 1;
    for (int k = from; k < cycles; ++k) {
        const float amplitude = (process[k].top - process[k].bottom) / 2, period = process[k].high + process[k].low;
        const float p = kp * 4 * (range / 2) / (3.14159265f * amplitude);
        sum.p += p;
        sum.i += p / (ti * period) * interval;
        sum.d += p * td * period / interval;
    }
    const int n = cycles - from;
    return {sum.p / n, sum.i / n, sum.d / n};
}
static void tune(int cycles) {
    PIDAutotuner t;
    const auto how = vf_nondet_bool() ? PIDAutotuner::Aggressiveness::BasicPID
                     : vf_nondet_bool() ? PIDAutotuner::Aggressiveness::LessOvershoot
                                        : PIDAutotuner::Aggressiveness::NoOvershoot;
    const int interval = vf_nondet_bool() ? 100 : 50;
    t.set_target_input_value(1);
    t.set_loop_interval(k_time_ms(interval));
    t.setOutputRange(-20, 80);
    t.set_hysteresis(-0.5f);
    t.set_aggressiveness(how);
    t.set_tuning_cycles(cycles);
    const int repeat = 1 + vf_choose(2);
    int at = 1000;
    for (int r = 0; r < repeat; ++r) {
        t.start_tuning_loop(k_time_ms(at));
        t.do_autotune(1.25f, k_time_ms(at + 20));
        for (int k = 0; k < cycles; ++k) {
            // it passes the target after so long, then still rises, falls below it after so long, then still falls
            at += process[k].high;
            t.do_autotune(2, k_time_ms(at));
            t.do_autotune(process[k].top, k_time_ms(at + 10));
            t.do_autotune(1.25f, k_time_ms(at + 20));
            // what it rose to before, it does not rise to now
            t.do_autotune(0.75f, k_time_ms(at + 30));
            at += process[k].low;
            t.do_autotune(process[k].bottom, k_time_ms(at));
        }
        const auto g = ziegler_nichols(how, cycles, 100, interval);
        vf_check(near(t.get_Kp(), g.p) && near(t.get_Ki(), g.i) && near(t.get_Kd(), g.d),
                 "tuning finds the Ziegler-Nichols gains, averaged over the cycles after the first two");
    }
}
extern "C" void vp_pid_tuned_1() { tune(1); }
extern "C" void vp_pid_tuned_2() { tune(2); }
extern "C" void vp_pid_tuned_3() { tune(3); }
extern "C" void vp_pid_tuned_5() { tune(5); }

// and what the controller makes of it: gains per second
static void autotune(int interval, int cycles) {
    const PID p(PID::Config{.tunings = {.Kp = 2}, .output_lower_limit = -20, .output_upper_limit = 80, .sample_interval = k_time_ms(interval)});
    // a step of the process per sample: it rises for the time of the cycle, stays, then falls for the rest of it
    int clock = 1000, step = 0, driven = 0;
    float output = 0;
    const auto found = p.autotune({.setpoint = 1, .hysteresis = 0.5f, .cycles = cycles, .aggressiveness = PIDAutotuner::Aggressiveness::BasicPID},
                                  [&](float y) {
                                      ++driven;
                                      output = y;
                                      if (driven > step) return; // it is over
                                      const int at = driven - 1;
                                      // (the reading that ends tuning has nothing to drive to any more)
                                      if (at > 0) vf_check(y == (at % 3 ? -20 : 80) || (y == -20 && at == 3 * cycles), "the process is driven to a limit, away from where its reading is");
                                      else vf_check(y == 80 || y == -20, "the process is driven to a limit from the beginning");
                                  },
                                  [&] {
                                      vf_check(driven == step, "every reading is answered with an output once");
                                      const int now = step++;
                                      if (now == 0) return 1.f;
                                      const Cycle& c = process[(now - 1) / 3];
                                      return now % 3 ? c.top : c.bottom;
                                  },
                                  {}, [&] { return k_time_ms(clock); },
                                  [&](k_time_ms) {
                                      const Cycle& c = process[(step - 1) / 3];
                                      clock += step % 3 == 1 ? c.high : step % 3 == 2 ? 100 : c.low - 100;
                                  });
    vf_check(driven == step + 1 && output == 0, "after the last reading is answered the process is turned off");
    const auto g = ziegler_nichols(PIDAutotuner::Aggressiveness::BasicPID, cycles, 100, 1000);
    vf_check(near(found.Kp, g.p) && near(found.Ki, g.i) && near(found.Kd, g.d), "autotuning yields gains per second, whatever the sampling interval");
}
extern "C" void vp_pid_autotuned_50() { autotune(50, 3); }
extern "C" void vp_pid_autotuned_100() { autotune(100, 4); }

// the tuning loop as a whole, at arbitrary times
extern "C" void vp_pid_autotune() {
    const Limits l;
    vf_assume(l.lo <= 0 && l.hi >= 0);
    const PID p(PID::Config{.tunings = {.Kp = 2}, .output_lower_limit = l.lo, .output_upper_limit = l.hi});
    float driven = 0;
    bool on = false;
    p.autotune({.setpoint = vf_nondet_float(), .startpoint = vf_nondet_float(), .hysteresis = vf_nondet_float(), .cycles = 2},
               [&](float y) {
                   vf_check(y >= l.lo && y <= l.hi, "tuning drives the process within the limits");
                   driven = y;
                   on = true;
               },
               [] { return vf_nondet_float(); }, [] {}, [] { return k_time_ms(any_time()); }, [](k_time_ms) {});
    vf_check(on && driven == 0, "after tuning the process is off");
}

// tunings are equal when all of their gains are
extern "C" void vp_pid_tunings() {
    const PID::Tunings a{.Kp = vf_nondet_float(), .Ki = vf_nondet_float(), .Kd = vf_nondet_float()}, b{.Kp = vf_nondet_float(), .Ki = vf_nondet_float(), .Kd = vf_nondet_float()};
    vf_check((a == b) == (a.Kp == b.Kp && a.Ki == b.Ki && a.Kd == b.Kd), "tunings are equal when all of their gains are");
    vf_check(a == a, "tunings equal themselves");
    const PID::Tunings p{.Kp = a.Kp};
    vf_check(p.Ki == 0 && p.Kd == 0, "gains that are not given are zero");
}

// before it, the process is driven up to where tuning is to start, for half an hour at most
extern "C" void vp_pid_preheat() {
    const Limits l;
    const PID p(PID::Config{.tunings = {.Kp = 2}, .output_lower_limit = l.lo, .output_upper_limit = l.hi});
    const float start = vf_nondet_float();
    pass();
    const long began = now();
    float last = 0;
    bool tuning = false, up = false, down = false;
    p.autotune({.setpoint = vf_nondet_float(), .startpoint = start, .cycles = 1},
               [&](float y) {
                   if (tuning) return;
                   vf_check(start > 0, "there is no heating up without a point to start from");
                   vf_check(!down, "heating up ends once");
                   if (last < start && now() - began < 30 * 60 * 1000) {
                       vf_check(y == l.hi, "heating up drives the process to the upper limit until it reaches its start or half an hour passed");
                       up = true;
                   } else {
                       vf_check(y == l.lo, "heating up ends when the process reaches its start or half an hour passed");
                       down = true;
                   }
               },
               [&] { return last = vf_nondet_float(); }, {},
               [&] {
                   if (!tuning) vf_check(down == (start > 0), "tuning starts when heating up is over");
                   tuning = true;
                   return k_time_ms(any_time());
               },
               [&](k_time_ms) {
                   if (!tuning) vf_check(!down, "tuning starts as soon as heating up is over");
                   pass();
               });
    vf_check(tuning, "heating up is followed by tuning");
}
