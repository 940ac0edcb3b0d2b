// Outputs and inputs: what an implementation is told, and fading (C29)
#include "vf.h"
#include "spine/platform/hal.hpp"
namespace P = spn::platform;
using spn::core::LogicalState;

static int told, initialized;
static LogicalState last_state;

struct Lamp : P::DigitalOutput<Lamp> {
protected:
    void initialize_impl() {
        vf_check(told == 0, "an output is initialized before it is set");
        ++initialized;
    }
    void set_state_impl(LogicalState s) {
        ++told;
        last_state = s;
    }
    friend DigitalOutput;
};

extern "C" void vp_gpio_digital() {
    Lamp l;
    vf_check(l.state() == LogicalState::OFF, "an output starts off");
    bool on = false;
    told = initialized = 0;
    if (vf_choose(2)) {
        vf_op("initialize");
        if (vf_choose(2)) {
            on = vf_nondet_bool();
            l.initialize(on);
        } else l.initialize();
        vf_check(initialized == 1 && told == 1, "initializing initializes and sets once");
        vf_check((last_state == LogicalState::ON) == on && (last_state == LogicalState::OFF) == !on, "initializing sets the state asked for");
    }
    while (vf_loop()) {
        vf_check((l.state() == LogicalState::ON) == on && (l.state() == LogicalState::OFF) == !on, "an output has the state it was set to last");
        const bool x = vf_nondet_bool();
        told = initialized = 0;
        switch (vf_choose(3)) {
        case 0:
            vf_op("set_state(bool)");
            l.set_state(x);
            on = x;
            break;
        case 1:
            vf_op("set_state(LogicalState)");
            l.set_state(x ? LogicalState::ON : LogicalState::OFF);
            on = x;
            break;
        default:
            vf_op("flip");
            l.flip();
            on = !on;
            break;
        }
        vf_check(told == 1 && initialized == 0, "the implementation is told once");
        vf_check((last_state == LogicalState::ON) == on && (last_state == LogicalState::OFF) == !on, "the implementation is told the state that was set");
    }
}

static float from, target, step, last_value;
static long interval, last_time;
static bool fading;

struct Dimmer : P::AnalogueOutput<Dimmer> {
protected:
    void initialize_impl() {
        vf_check(told == 0, "an output is initialized before it is set");
        ++initialized;
    }
    void set_value_impl(float x) {
        if (fading) {
            vf_check(x >= 0.0f && x <= 1.0f, "a fading output stays between zero and one");
            vf_check((x >= from && x <= target) || (x <= from && x >= target), "a fading output stays between its start and its setpoint");
            vf_check(x - last_value <= step && last_value - x <= step, "a fading output takes no step larger than the increment");
            vf_check(target >= from ? x >= last_value : x <= last_value, "a fading output moves towards its setpoint");
            if (told > 0) vf_check(HAL::millis().raw() == last_time + interval, "steps are one interval apart");
            last_time = HAL::millis().raw();
        }
        if (told < 2) ++told;
        last_value = x;
    }
    friend AnalogueOutput;
};

static float any_level() {
    const float x = vf_nondet_float();
    vf_assume(x >= 0.0f && x <= 1.0f);
    return x;
}

extern "C" void vp_gpio_analogue() {
    fading = false;
    Dimmer d;
    vf_check(d.value() == 0.0f, "an output starts at zero");
    float v = 0;
    if (vf_choose(2)) {
        vf_op("initialize");
        told = initialized = 0;
        d.initialize();
        vf_check(initialized == 1 && told == 1 && last_value == 0.0f, "initializing sets an output to zero");
    }
    while (vf_loop()) {
        vf_check(d.value() == v, "an output has the value it was set to last");
        told = initialized = 0;
        v = any_level();
        d.set_value(v);
        vf_check(told == 1 && initialized == 0 && last_value == v, "the implementation is told the value that was set, once");
    }
}
extern "C" void vp_gpio_fade() {
    vf_option("fp_exact", 1);
    vf_option("overflow", 0); // a fade may take longer than the clock can tell
    fading = false;
    Dimmer d;
    const float a = any_level(), b = any_level(), s = vf_nondet_float();
    const long ms = vf_nondet_long();
    vf_assume(s > 0.0f && s <= 1.0f);
    vf_assume(ms >= 0 && ms <= 1000000);
    d.set_value(a);
    from = last_value = a;
    target = b;
    step = s;
    interval = ms;
    told = initialized = 0;
    fading = true;
    d.fade_to(b, s, k_time_ms(ms));
    fading = false;
    if (b > a) vf_check(last_value == b && told > 0, "a fade up ends at its setpoint");
    else if (b < a) vf_check(last_value == b && told > 0, "a fade down ends at its setpoint");
    else vf_check(last_value == b && told > 0, "a fade to where it is ends");
    vf_check(d.value() == b, "after a fade an output has the value of the setpoint");
    vf_check(initialized == 0, "fading does not initialize");
}
// without a step there is nothing to fade
template<int SIGN>
static void no_step() {
    vf_option("fp_exact", 1);
    fading = false;
    Dimmer d;
    const float a = any_level(), b = any_level();
    float s = 0;
    if (SIGN < 0) {
        s = vf_nondet_float();
        vf_assume(s < 0);
    }
    d.set_value(a);
    told = 0;
    d.fade_to(b, s, k_time_ms(8));
    vf_check(last_value == b && d.value() == b && told == 1, "without a step a fade goes to its setpoint at once");
}
extern "C" void vp_gpio_fade_no_step() { no_step<0>(); }
extern "C" void vp_gpio_fade_negative_step() { no_step<-1>(); }
// fades take as many steps as it takes
template<int N>
static void steps(float a, float b, float s) {
    vf_option("fp_exact", 1);
    vf_option("split", 256);
    fading = false;
    Dimmer d;
    d.set_value(a);
    from = last_value = a;
    target = b;
    step = s;
    interval = 8;
    told = initialized = 0;
    const auto begin = HAL::millis();
    fading = true;
    d.fade_to(b, s, k_time_ms(8));
    fading = false;
    vf_check(last_value == b && d.value() == b, "a fade ends at its setpoint");
    vf_check((HAL::millis() - begin).raw() <= 8 * N && (HAL::millis() - begin).raw() >= 8 * (N - 1), "a fade takes an interval for each step");
}
extern "C" void vp_gpio_fade_exact() { steps<4>(0.0f, 1.0f, 0.25f); }
extern "C" void vp_gpio_fade_down() { steps<5>(1.0f, 0.375f, 0.125f); }
extern "C" void vp_gpio_fade_rest() { steps<3>(0.25f, 0.875f, 0.25f); }
extern "C" void vp_gpio_fade_none() { steps<1>(0.5f, 0.5f, 0.25f); }
extern "C" void vp_gpio_fade_small() { steps<1>(0.5f, 0.625f, 0.25f); }

// the platform's own types behave like the interfaces they implement
extern "C" void vp_gpio_platform() {
    vf_option("overflow", 0); // a fade may take longer than the clock can tell
    const bool low = vf_nondet_bool();
    HAL::DigitalOutput o(HAL::DigitalOutput::Config{.pin = 1, .active_on_low = low});
    const bool x = vf_nondet_bool();
    o.initialize(x);
    vf_check(o.state() == (x ? LogicalState::ON : LogicalState::OFF), "an output has the state it was initialized with");
    o.flip();
    vf_check(o.state() == (x ? LogicalState::OFF : LogicalState::ON), "flipping turns on what was off and off what was on");
    HAL::AnalogueOutput p(HAL::AnalogueOutput::Config{.pin = 2, .active_on_low = low});
    p.initialize();
    vf_check(p.value() == 0.0f, "an initialized output is at zero");
    const float v = any_level();
    p.set_value(v);
    vf_check(p.value() == v, "an output has the value it was set to");
    vf_legal(v == 0.0f);
    p.fade_to(0.5f, 0.25f, k_time_ms(1));
    vf_check(p.value() == 0.5f, "after a fade an output has the value of the setpoint");
}

// interfaces forward to what implements them
static bool level;
static float reading;
static int attached, detached;
static void (*callback)();
static spn::core::TriggerType trigger;
struct Button : P::DigitalInput<Button> {
    void initialize() { ++initialized; }
    bool state() const { return level; }
};
struct Sensor : P::AnalogueInput<Sensor> {
    void initialize() { ++initialized; }
    float read() { return reading; }
};
struct Wakeup : P::Interrupt<Wakeup> {
    void initialize() { ++initialized; }
    void attach_interrupt(void (*c)(), TriggerType t) {
        ++attached;
        callback = c;
        trigger = t;
    }
    void detach_interrupt() { ++detached; }
};
static void ring() {}
extern "C" void vp_gpio_inputs() {
    initialized = attached = detached = 0;
    Button b;
    P::DigitalInput<Button>& in = b;
    in.initialize();
    vf_check(initialized == 1, "initializing an input initializes its implementation");
    level = vf_nondet_bool();
    vf_check(in.state() == (level ? LogicalState::ON : LogicalState::OFF), "an input has the state of its implementation");
    Sensor s;
    P::AnalogueInput<Sensor>& an = s;
    an.initialize();
    vf_check(initialized == 2, "initializing an input initializes its implementation");
    reading = any_level();
    vf_check(an.read() == reading, "an input reads what its implementation reads");
    Wakeup w;
    P::Interrupt<Wakeup>& i = w;
    i.initialize();
    vf_check(initialized == 3 && attached == 0, "initializing an interrupt does not attach it");
    const auto t = vf_choose(2) ? spn::core::TriggerType::RISING_EDGE : spn::core::TriggerType::FALLING_EDGE;
    i.attach_interrupt(ring, t);
    vf_check(attached == 1 && callback == ring && trigger == t, "attaching attaches the callback and trigger asked for");
    i.detach_interrupt();
    vf_check(detached == 1 && attached == 1, "detaching detaches");
}
