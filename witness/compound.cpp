// Compound units (a quantity per another), in real arithmetic: whatever the numerators, for representative denominators.
#include "vf.h"
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"
using spn::structure::units::CompoundUnit;

struct Thrown {};
struct Thrower : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { throw Thrown{}; }
};
template<typename F>
static bool throws(F&& f) {
    try {
        f();
    } catch (Thrown&) {
        return true;
    }
    return false;
}
static float any_float() {
    const float x = vf_nondet_float();
    vf_assume(x >= -1000000.0f && x <= 1000000.0f);
    return x;
}
static float any_denominator() {
    switch (vf_choose(4)) {
    case 0: return 1.0f;
    case 1: return 4.0f;
    case 2: return 0.5f;
    default: return -2.0f;
    }
}

using Fine = CompoundUnit<meter, time_m>;    // meter per minute
using Coarse = CompoundUnit<meter_k, time_h>; // kilometer per hour: 1000/60 of the other
using Same = CompoundUnit<meter, time_m>;

// N numerators of the coarser make one finer, D denominators: the coarser is N/D of the finer
template<typename F, typename C, int N, int D>
static void compound() {
    vf_option("fp_exact", 1);
    vf_option("split", 512);
    spn::core::set_machine_exception_handler(std::make_unique<Thrower>());
    const float x = any_float(), y = any_float();
    const float p = any_denominator(), q = any_denominator();
    using FN = typename F::NumeratorType;
    using FD = typename F::DenominatorType;
    using CN = typename C::NumeratorType;
    using CD = typename C::DenominatorType;
    const F f{FN(x), FD(p)};
    const C c{CN(y), CD(q)};
    const float fv = x / p, cv = y / q;   // what they are in their own units
    vf_check(f.numerator().raw() == x && f.denominator().raw() == p, "a compound holds what it was made of");
    vf_check(f.raw() == fv && c.raw() == cv, "a compound is its numerator by its denominator");
    vf_check(F(c).raw() * D == cv * N, "a compound is converted in numerator and denominator");
    F a;
    a = c;
    vf_check(a.raw() * D == cv * N, "assigning a compound converts it");
    a = F(FN(x), FD(0.0f));
    vf_check(a.numerator().raw() == x && a.denominator().raw() == 0.0f, "a compound over nothing can be assigned");
    switch (vf_choose(5)) {
    case 4: {
        vf_op("with itself");
        a = f;
        a += a;
        vf_check(a.raw() == 2 * fv, "a compound can be added to itself");
        a = f;
        a -= a;
        vf_check(a.raw() == 0.0f, "a compound can be subtracted from itself");
        a = f;
        a = *&a;
        vf_check(a.numerator().raw() == x && a.denominator().raw() == p, "a compound can be assigned to itself");
        break;
    }
    case 0: {
        vf_op("add");
        vf_check((f + c).raw() * D == fv * D + cv * N, "compounds of one kind add up");
        a = f;
        a += c;
        vf_check(a.raw() * D == fv * D + cv * N, "a compound can be added to");
        break;
    }
    case 1: {
        vf_op("subtract");
        vf_check((f - c).raw() * D == fv * D - cv * N, "compounds of one kind subtract");
        a = f;
        a -= c;
        vf_check(a.raw() * D == fv * D - cv * N, "a compound can be subtracted from");
        vf_check((-f).raw() == -fv, "a compound can be negated");
        break;
    }
    case 2: {
        vf_op("scale");
        vf_check((f * 4).raw() == fv * 4 && (f / 4).raw() == fv / 4, "a compound can be scaled");
        a = f;
        a *= 3;
        vf_check(a.raw() == fv * 3, "a compound can be scaled in place");
        a /= 2;
        vf_check(a.raw() == fv * 3 / 2, "a compound can be divided in place");
        vf_check(throws([&] { (void)(f / 0); }) && throws([&] { a /= 0; }), "dividing a compound by zero is an error");
        vf_check(throws([&] { (void)F(FN(x), FD(0.0f)).raw(); }), "a compound over nothing has no value");
        vf_check(!throws([&] { (void)f.raw(); }), "any other has");
        vf_check(throws([&] { (void)F(FN(x), FD(y)).raw(); }) == (y == 0.0f), "a compound has a value iff it is not over nothing");
        vf_check(throws([&] { (void)(f / y); }) == (y == 0.0f), "dividing a compound is an error iff it is by zero");
        vf_check(throws([&] {
                     a = f;
                     a /= y;
                 }) == (y == 0.0f),
                 "dividing a compound in place is an error iff it is by zero");
        break;
    }
    default: {
        vf_op("compare");
        vf_check((f < c) == (fv * D < cv * N), "less than compares the quantities");
        vf_check((f > c) == (fv * D > cv * N), "greater than compares the quantities");
        vf_check((f <= c) == (fv * D <= cv * N), "at most compares the quantities");
        vf_check((f >= c) == (fv * D >= cv * N), "at least compares the quantities");
        const bool eq = f == c;
        vf_check((f != c) == !eq, "compounds differ iff they are not equal");
        if (fv * D > cv * N + 64 * D || fv * D < cv * N - 64 * D) vf_check(!eq, "quantities that clearly differ are not equal");
        const F g(c);
        vf_check(g == c && !(g != c), "a quantity is equal to itself in other units");
        break;
    }
    }
}
extern "C" void vp_compound_converted() { compound<Fine, Coarse, 1000, 60>(); }
extern "C" void vp_compound_same() { compound<Fine, Fine, 1, 1>(); }
extern "C" void vp_compound_back() { compound<CompoundUnit<litre, time_h>, CompoundUnit<cubic_metre, time_d>, 1000, 24>(); }

// simplifying keeps the ratio, whatever the precision asked for
extern "C" void vp_compound_simplify() {
    vf_option("fp_exact", 1);
    vf_option("split", 512);
    spn::core::set_machine_exception_handler(std::make_unique<Thrower>());
    float n, d, scale;
    switch (vf_choose(8)) {
    case 0: n = 600, d = 30; break;
    case 1: n = -6, d = 4; break;
    case 2: n = 7, d = 7; break;
    case 3: n = 0, d = 3; break;
    case 4: n = 0.25f, d = 0.125f; break;
    case 5: n = 0.25f, d = -0.25f; break;
    case 6: n = 1000, d = 0.5f; break;
    default: n = -9, d = -12; break;
    }
    switch (vf_choose(3)) {
    case 0: scale = 1; break;
    case 1: scale = 8; break;
    default: scale = 1000; break;
    }
    Fine f{meter(n), time_m(d)};
    const float before = f.raw();
    bool thrown = throws([&] { f.simplify(scale); });
    vf_check(!thrown, "simplifying a compound that has a value is no error");
    vf_check(!thrown && f.raw() == before, "simplifying keeps the ratio");
}
