// Filters, in real arithmetic (rounding aside): limits from literals, samples and offsets arbitrary.
#include "vf.h"
#include <algorithm>
#include <memory>
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
using namespace spn::filter;
using F = float;

struct Thrown {};
struct Thrower : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { throw Thrown(); }
};
static void catching() { spn::core::set_machine_exception_handler(std::make_unique<Thrower>()); }

// feed a sample in one of the three ways there are
template<typename Filter>
static F feed(Filter& f, F x) {
    if (vf_nondet_bool()) {
        const F y = f.value(x);
        vf_check(f.value() == y, "a filter keeps the value it yields");
        return y;
    }
    if (vf_nondet_bool()) return f(x);
    f.new_sample(x);
    return f.value();
}

// what a filter has before any sample, and after it was reset
template<typename Filter>
static void at_rest(Filter& f) {
    vf_check(f.value() == 0, "a filter without a sample is at zero");
    if (!vf_nondet_bool()) return;
    const F x = vf_nondet_float();
    f.reset_to(x);
    vf_check(f.value() == x, "a filter that is reset has the value it was reset to");
}
extern "C" void vp_filters_passthrough() {
    Passthrough<F> f({});
    at_rest(f);
    for (int i = 0; i < 2; ++i) {
        const F x = vf_nondet_float();
        vf_check(feed(f, x) == x, "a passthrough filter passes every sample");
    }
}
extern "C" void vp_filters_invert() {
    vf_option("fp_exact", 1);
    const F lo = vf_nondet_float(), hi = vf_nondet_float();
    vf_assume(lo <= hi);
    Invert<F> f({.input_lower_limit = lo, .input_upper_limit = hi});
    at_rest(f);
    const F x = vf_nondet_float();
    vf_assume(x >= lo && x <= hi);
    const F y = feed(f, x);
    vf_check(y >= lo && y <= hi, "an inverted sample is within the limits");
    vf_check(x + y == lo + hi, "an inverted sample is as far from one limit as the sample is from the other");
    vf_check(feed(f, y) == x, "inverting twice yields the sample");
}
template<int WHICH>
static void mapped(F lo, F hi, F olo, F ohi) {
    vf_option("fp_exact", 1);
    catching();
    const bool throws = vf_nondet_bool();
    MappedRange<F> f({.input_lower_limit = lo, .input_upper_limit = hi, .output_lower_limit = olo, .output_upper_limit = ohi,
                      .throw_for_value_out_of_range = throws});
    at_rest(f);
    for (int i = 0; i < 2; ++i) {
        const F x = vf_nondet_float(), before = f.value();
        bool thrown = false;
        F y = 0;
        try {
            y = feed(f, x);
        } catch (Thrown) { thrown = true; }
        vf_check(thrown == (throws && (x < lo || x > hi)), "a range throws iff told to and the sample is outside");
        if (thrown) {
            vf_check(f.value() == before, "a sample that is refused leaves the value");
            continue;
        }
        const F c = x < lo ? lo : x > hi ? hi : x;
        vf_check((y - olo) * (hi - lo) == (c - lo) * (ohi - olo), "a range maps linearly between its limits");
    }
}
extern "C" void vp_filters_mapped_percentage() { mapped<0>(0, 1, 0, 100); }
extern "C" void vp_filters_mapped_current() { mapped<1>(4, 20, -50, 150); }
extern "C" void vp_filters_mapped_reverse() { mapped<2>(-2, 2, 10, -10); }
extern "C" void vp_filters_mapped_presets() {
    vf_option("fp_exact", 1);
    const bool percent = vf_nondet_bool();
    auto f = percent ? MappedRange<F>::Percentage(2, 4) : MappedRange<F>::Permillage(2, 4);
    const F x = vf_nondet_float();
    vf_assume(x >= 2 && x <= 4);
    vf_check(f->value(x) == (x - 2) / 2 * (percent ? 100 : 1000), "a percentage is of the range");
}

// what is configured without saying so
extern "C" void vp_filters_defaults() {
    vf_option("fp_exact", 1);
    const F x = vf_nondet_float();
    vf_assume(x >= 0 && x <= 1);
    MappedRange<F> percent({});
    vf_check(percent.value(x) == 100 * x && percent.value(2) == 100 && percent.value(-1) == 0, "a range maps a share to a percentage and clamps unless told otherwise");
    Invert<F> invert({});
    vf_check(invert.value(x) == 1 - x, "an inverter inverts a share unless told otherwise");
    vf_check(Invert<F>::NormalizedInverter()->value(x) == 1 - x, "a normalized inverter inverts a share");
    vf_check(Invert<F>::NormalizedInverter(-1, 3)->value(2 * x) == 2 - 2 * x, "a normalized inverter inverts within its limits");
    vf_check(MappedRange<F>::Percentage()->value(x) == 100 * x, "a percentage is of a share");
    vf_check(MappedRange<F>::Permillage()->value(x) == 1000 * x, "a permillage is of a share");
    const bool longer = vf_nondet_bool();
    auto average = longer ? EWMA<F>::Long() : EWMA<F>::Short();
    average->reset_to(0);
    for (int i = 0; i < 2; ++i) average->value(x);
    vf_check(average->value() == x, "a preset average is that of its samples");
    average->reset_to(0);
    for (int i = 0; i < (longer ? 100 : 10); ++i) average->value(0);
    vf_check(average->value(x) == x / (longer ? 100 : 10), "a preset average has the frame its name stands for");
}

// moving average: of all samples until the frame is full, then moving
template<int K>
static void average() {
    vf_option("fp_exact", 1);
    EWMA<F> f({.K = K});
    F value = 0;
    int n = 0;
    while (vf_loop()) {
        vf_key(0, n);
        if (vf_nondet_bool()) {
            value = vf_nondet_float();
            n = 0;
            f.reset_to(value);
            vf_check(f.value() == value, "a reset average has the value it was reset to");
            if (vf_nondet_bool()) continue;
        }
        const F x = vf_nondet_float(), y = feed(f, x);
        if (n < K) ++n;
        value = value + (x - value) / n;
        vf_check(y == value, "an average is that of all samples since the reset until the frame is full, then moves by one frame's share");
    }
}
extern "C" void vp_filters_average_1() { average<1>(); }
extern "C" void vp_filters_average_2() { average<2>(); }
extern "C" void vp_filters_average_3() { average<3>(); }

// band pass: margin is mantissa * 10^(decades+1)
template<typename B>
static void band(F mantissa, F decades, F margin) {
    vf_option("fp_exact", 1);
    catching();
    const bool relative = vf_nondet_bool(), throws = vf_nondet_bool();
    const F offset = vf_nondet_float();
    const int limit = vf_nondet_int();
    vf_assume(limit >= 1);
    B f({.mode = relative ? B::Mode::RELATIVE : B::Mode::ABSOLUTE, .mantissa = mantissa, .decades = decades, .offset = offset,
         .rejection_limit = limit, .throw_on_rejection_limit = throws});
    F value = vf_nondet_float();
    f.reset_to(value);
    vf_check(f.value() == value, "a reset band has the value it was reset to");
    int rejections = 0;
    while (vf_loop()) {
        vf_term(rejections);
        vf_assume(value != F(-789.123456789)); // stands for no value yet
        if (vf_nondet_bool() && vf_nondet_bool()) {
            value = vf_nondet_float();
            rejections = 0;
            f.reset_to(value);
            continue;
        }
        const F x = vf_nondet_float();
        const F middle = relative ? value + offset : offset;
        bool thrown = false;
        F y = 0;
        try {
            y = feed(f, x);
        } catch (Thrown) { thrown = true; }
        if (x >= middle - margin && x <= middle + margin) {
            vf_check(!thrown && y == x, "a sample within the band is accepted");
            value = x;
            rejections = 0;
        } else if (rejections < limit) {
            vf_check(!thrown && y == value, "a sample outside the band is rejected");
            ++rejections;
        } else if (throws) {
            vf_check(thrown && f.value() == value, "a sample beyond the rejection limit throws when told to");
        } else {
            vf_check(!thrown && y == x, "a sample beyond the rejection limit is accepted");
            value = x;
            rejections = 0;
        }
        vf_check(f.value() == value, "the value is the last sample that was accepted");
    }
}
extern "C" void vp_filters_band_10() { band<BandPass<F>>(1, 0, 10); }
extern "C" void vp_filters_band_200() { band<BandPass<F>>(2, 1, 200); }
extern "C" void vp_filters_band_first() {
    vf_option("fp_exact", 1);
    using B = BandPass<F>;
    const F x = vf_nondet_float();
    B f({.mode = vf_nondet_bool() ? B::Mode::RELATIVE : B::Mode::ABSOLUTE, .mantissa = 1, .decades = 0, .offset = 0});
    vf_check(feed(f, x) == x, "the first sample is accepted");
}

// stack: every sample passes through all filters in order
struct Probe : Filter<F> {
    F in = 0, out;
    int n = 0;
    Probe(F o) : out(o) {}
    F value(F x) override {
        in = x;
        ++n;
        return out;
    }
    F value() const override { return out; }
    void new_sample(F x) override { value(x); }
    void reset_to(F x) override { out = x; }
};
extern "C" void vp_filters_stack() {
    vf_option("leaks", 1);
    {
        Stack<F> s(3);
        const int n = vf_choose(4);
        Probe* p[3];
        for (int i = 0; i < n; ++i) {
            auto f = std::make_unique<Probe>(vf_nondet_float());
            p[i] = f.get();
            vf_check(s.filter_slots_occupied() == (size_t)i, "a stack counts its filters");
            s.attach_filter(std::move(f));
        }
        vf_check(s.filter_slots_occupied() == (size_t)n, "a stack counts its filters");
        vf_check(s.filter_slots() >= (size_t)n && s.filter_slots() <= 255, "a stack has the slots that were asked for");
        int left = n;
        if (vf_nondet_bool()) {
            const int k = vf_choose(4);
            auto f = s.detach_filter(k);
            vf_check(f.get() == (k < n ? p[k] : nullptr), "detaching yields the filter at the index, if any");
            if (k < n) {
                for (int i = k + 1; i < n; ++i) p[i - 1] = p[i];
                --left;
            }
            vf_check(s.filter_slots_occupied() == (size_t)left, "detaching removes one filter");
        }
        if (vf_nondet_bool()) {
            const F r = vf_nondet_float();
            s.reset_to(r);
            for (int i = 0; i < left; ++i) vf_check(p[i]->out == r, "resetting resets every filter");
            if (left) vf_check(s.value() == r, "a stack has the value of its last filter");
        }
        const F x = vf_nondet_float();
        F y;
        if (vf_nondet_bool()) y = s.value(x);
        else {
            s.new_sample(x);
            y = left ? s.value() : x;
        }
        F expect = x;
        for (int i = 0; i < left; ++i) {
            vf_check(p[i]->n == 1 && p[i]->in == expect, "a sample passes through every filter once, in the order they were attached");
            expect = p[i]->out;
        }
        vf_check(y == expect, "a stack yields what its last filter yields");
    }
    vf_leak_check();
}
