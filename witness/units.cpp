// Named units: what one of each is in its base unit and back, and the arithmetic of real valued units.
#include "vf.h"
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"

static bool near(float got, float want) {
    const float slack = want * 1e-5f;
    return got >= want - slack && got <= want + slack;
}
// one `U` is `factor` of the base unit `B`
template<typename U, typename B>
static void is(float factor) {
    vf_check(near(B(U(1.0f)).raw(), factor), "one of a unit is what its name says in the base unit");
    vf_check(near(U(B(1.0f)).raw(), 1.0f / factor), "one of the base unit is what its name says in a unit");
    B b;
    b = U(1.0f);
    vf_check(near(b.raw(), factor), "assigning a unit converts it");
    b += U(1.0f);
    vf_check(near(b.raw(), 2 * factor), "adding a unit converts it");
}
extern "C" void vp_units_factors() {
    is<farad_p, farad>(1e-12f);
    is<farad_n, farad>(1e-9f);
    is<farad_u, farad>(1e-6f);
    is<farad_m, farad>(1e-3f);
    is<coulomb_n, coulomb>(1e-9f);
    is<coulomb_u, coulomb>(1e-6f);
    is<coulomb_m, coulomb>(1e-3f);
    is<siemens_u, siemens>(1e-6f);
    is<siemens_m, siemens>(1e-3f);
    is<amp_u, amp>(1e-6f);
    is<amp_m, amp>(1e-3f);
    is<joule_p, joule>(1e-12f);
    is<joule_n, joule>(1e-9f);
    is<joule_u, joule>(1e-6f);
    is<joule_m, joule>(1e-3f);
    is<joule_k, joule>(1e3f);
    is<joule_M, joule>(1e6f);
    is<joule_G, joule>(1e9f);
    is<joule_T, joule>(1e12f);
    is<newton_k, newton>(1e3f);
    is<hertz_k, hertz>(1e3f);
    is<hertz_M, hertz>(1e6f);
    is<hertz_G, hertz>(1e9f);
    is<meter_n, meter>(1e-9f);
    is<meter_u, meter>(1e-6f);
    is<meter_m, meter>(1e-3f);
    is<meter_c, meter>(1e-2f);
    is<meter_d, meter>(1e-1f);
    is<meter_k, meter>(1e3f);
    is<gram_u, gram>(1e-6f);
    is<gram_m, gram>(1e-3f);
    is<gram_k, gram>(1e3f);
    is<volt_u, volt>(1e-6f);
    is<volt_m, volt>(1e-3f);
    is<watt_m, watt>(1e-3f);
    is<watt_k, watt>(1e3f);
    is<watt_M, watt>(1e6f);
    is<watt_G, watt>(1e9f);
    is<pascal_k, pascal>(1e3f);
    is<pascal_M, pascal>(1e6f);
    is<ohm_m, ohm>(1e-3f);
    is<ohm_k, ohm>(1e3f);
    is<ohm_M, ohm>(1e6f);
    is<litre_ml, litre>(1e-3f);
    is<cubic_metre, litre>(1e3f);
    is<time_us, time_s>(1e-6f);
    is<time_ms, time_s>(1e-3f);
    is<time_m, time_s>(60.0f);
    is<time_h, time_s>(3600.0f);
    is<time_d, time_s>(86400.0f);
    is<time_W, time_s>(604800.0f);
    is<time_Y, time_s>(31536000.0f);
    // months differ: between 28 and 31 days
    const float month = time_s(time_M(1.0f)).raw();
    vf_check(month >= 28 * 86400.0f && month <= 31 * 86400.0f, "a month is as long as a month can be");
    vf_check(time_M(time_s(month)).raw() == 1.0f, "a month converts back");
    // unprefixed units are their own base
    is<gray, gray>(1.0f);
    is<mole, mole>(1.0f);
    is<katal, katal>(1.0f);
    is<sievert, sievert>(1.0f);
    is<lux, lux>(1.0f);
    is<henry, henry>(1.0f);
    is<lumen, lumen>(1.0f);
    is<weber, weber>(1.0f);
    is<tesla, tesla>(1.0f);
    is<becquerel, becquerel>(1.0f);
    is<kelvin, kelvin>(1.0f);
    is<celsius, celsius>(1.0f);
}

// every magnitude prefix, on a quantity of its own
struct TagTest {};
template<typename M>
using test = spnu::Unit<TagTest, M, spnu::RealRawType>;
extern "C" void vp_units_prefixes() {
    using B = test<spnu::Base>;
    is<test<spnu::Atto>, test<spnu::Femto>>(1e-3f);
    is<test<spnu::Femto>, test<spnu::Pico>>(1e-3f);
    is<test<spnu::Pico>, B>(1e-12f);
    is<test<spnu::Nano>, B>(1e-9f);
    is<test<spnu::Micro>, B>(1e-6f);
    is<test<spnu::Milli>, B>(1e-3f);
    is<test<spnu::Centi>, B>(1e-2f);
    is<test<spnu::Deci>, B>(1e-1f);
    is<test<spnu::Deca>, B>(1e1f);
    is<test<spnu::Hecto>, B>(1e2f);
    is<test<spnu::Kilo>, B>(1e3f);
    is<test<spnu::Mega>, B>(1e6f);
    is<test<spnu::Giga>, B>(1e9f);
    is<test<spnu::Tera>, B>(1e12f);
    is<test<spnu::Peta>, test<spnu::Tera>>(1e3f);
    is<test<spnu::Exa>, test<spnu::Peta>>(1e3f);
    // one prefix against another
    is<test<spnu::Kilo>, test<spnu::Milli>>(1e6f);
    is<test<spnu::Deca>, test<spnu::Hecto>>(1e-1f);
    is<test<spnu::Micro>, test<spnu::Deci>>(1e-5f);
}

extern "C" void vp_units_temperature() {
    vf_option("fp_exact", 1);
    const float t = vf_nondet_float();
    vf_assume(t >= -10000.0f && t <= 10000.0f);
    const float zero = to_kelvin(celsius(0)).raw();
    vf_check(zero >= 273.149f && zero <= 273.151f, "zero degrees celsius is 273.15 kelvin");
    vf_check(to_kelvin(celsius(t)).raw() == t + zero, "kelvin and celsius differ by a fixed amount");
    vf_check(to_celsius(kelvin(t)).raw() == t - zero, "celsius and kelvin differ by a fixed amount");
    vf_check(to_kelvin(kelvin(t)).raw() == t && to_celsius(celsius(t)).raw() == t, "a temperature of the unit asked for is left alone");
}

// ---- arithmetic of real valued units, in real arithmetic (what floating point approximates)
struct Thrown {};
struct Thrower : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception&) override { throw Thrown{}; }
};
template<typename F>
static bool throws(F&& f) {
    try {
        f();
    } catch (Thrown&) {
        return true;
    }
    return false;
}
static float any_float() {
    const float x = vf_nondet_float();
    vf_assume(x >= -1000000.0f && x <= 1000000.0f);
    return x;
}
// both in whole and half multiples; `K` of U are one V
template<typename U, typename V, int K>
static void arithmetic() {
    vf_option("fp_exact", 1);
    vf_option("split", 256);
    spn::core::set_machine_exception_handler(std::make_unique<Thrower>());
    const float x = any_float(), y = any_float();
    const U u(x);
    const V v(y);
    vf_check(U().raw() == 0.0f, "a unit starts at zero");
    vf_check(u.raw() == x && u.template raw<float>() == x, "a unit holds what it was given");
    vf_check(U(v).raw() == K * y, "converting to a finer unit multiplies");
    vf_check((u + v).raw() == x + K * y, "units of one quantity add up");
    vf_check((u - v).raw() == x - K * y, "units of one quantity subtract");
    vf_check((-u).raw() == -x, "a unit can be negated");
    U a(x);
    a += v;
    vf_check(a.raw() == x + K * y, "a unit can be added to");
    a -= v;
    vf_check(a.raw() == x, "a unit can be subtracted from");
    a -= u;
    vf_check(a.raw() == 0.0f, "a unit less itself is nothing");
    a = v;
    vf_check(a.raw() == K * y, "assigning a coarser unit converts it");
    vf_check((u * 3).raw() == 3 * x && (u * 0.5f).raw() == x / 2, "a unit can be scaled");
    vf_check((u / 4).raw() == x / 4 && (u / 0.5f).raw() == 2 * x, "a unit can be divided");
    a = u;
    a *= 3;
    vf_check(a.raw() == 3 * x, "a unit can be scaled in place");
    a /= 4;
    vf_check(a.raw() == 3 * x / 4, "a unit can be divided in place");
    vf_check(u.is_negative() == (x < 0.0f), "a unit is negative iff its value is");
    vf_check((u * V(2.0f)).raw() == 2 * K * x, "a unit times a converted unit");
    vf_check((u / V(2.0f)).raw() == x / (2 * K), "a unit divided by a converted unit");
    vf_check((u < v) == (x < K * y), "less than compares the quantities");
    vf_check((u > v) == (x > K * y), "greater than compares the quantities");
    vf_check((u <= v) == (x <= K * y), "at most compares the quantities");
    vf_check((u >= v) == (x >= K * y), "at least compares the quantities");
    vf_check(throws([&] { (void)(u / 0); }), "dividing by zero is an error");
    vf_check(throws([&] { (void)(u / V(0.0f)); }), "dividing by a zero unit is an error");
    vf_check(throws([&] {
                 U b(x);
                 b /= 0;
             }),
             "dividing in place by zero is an error");
    vf_check(!throws([&] { (void)(u / 2); }), "dividing by anything else is not");
    vf_check(throws([&] { (void)(u / v); }) == (y == 0.0f), "dividing by a unit is an error iff it is nothing");
    vf_check(throws([&] { (void)(u / y); }) == (y == 0.0f), "dividing by a number is an error iff it is zero");
    vf_check(throws([&] {
                 U b(x);
                 b /= y;
             }) == (y == 0.0f),
             "dividing in place is an error iff it is by zero");
    vf_check((u / U(0.5f)).raw() == 2 * x, "a unit divided by less than one");
    vf_check((u * U(0.5f)).raw() == x / 2, "a unit times less than one");
}
extern "C" void vp_units_arithmetic_m() { arithmetic<meter, meter_k, 1000>(); }
extern "C" void vp_units_arithmetic_h() { arithmetic<time_m, time_h, 60>(); }
extern "C" void vp_units_arithmetic_v() { arithmetic<volt, volt, 1>(); }

template<typename U, typename V, int K>
static void equality() {
    vf_option("fp_exact", 1);
    vf_option("split", 256);
    const float x = any_float(), y = any_float();
    const U u(x);
    const V v(y);
    const bool eq = u == v;
    vf_check((u != v) == !eq, "units differ iff they are not equal");
    if (x > K * y + 1.0f || x < K * y - 1.0f) vf_check(!eq, "quantities that differ by a millionth or more are not equal");
    const V w(x);
    vf_check(U(w) == w && !(U(w) != w), "a quantity is equal to itself in another unit");
}
extern "C" void vp_units_equality_m() { equality<meter, meter_k, 1000>(); }
extern "C" void vp_units_equality_v() { equality<volt, volt, 1>(); }

// between real and kernel time
template<typename R, typename K>
static void kernel() {
    vf_option("fp_exact", 1);
    vf_option("split", 256);
    const float x = any_float();
    const K up = to_kernel_time(R(x));
    vf_check((float)up.raw() >= x && (float)up.raw() < x + 1.0f, "real time becomes the next whole kernel time unless told otherwise");
    const K down = to_kernel_time(R(x), std::floor);
    vf_check((float)down.raw() <= x && (float)down.raw() > x - 1.0f, "real time is rounded as told");
    const int n = vf_nondet_int();
    vf_assume(n >= -1000000 && n <= 1000000);
    vf_check(to_real_time(K(n)).raw() == (float)n, "kernel time becomes the same real time");
    vf_check(to_kernel_time(to_real_time(K(n))) == K(n), "kernel time survives the way to real time and back");
}
extern "C" void vp_units_kernel_ms() { kernel<time_ms, k_time_ms>(); }
extern "C" void vp_units_kernel_h() { kernel<time_h, k_time_h>(); }
