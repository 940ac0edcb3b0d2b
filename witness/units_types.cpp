// Which quantities may meet: facts about types that every program compiled against the library depends on.
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"
#include <type_traits>
#include <utility>
using spn::structure::units::CompoundUnit;

template<typename... Ts>
struct List {};
// one unit of every quantity
using Quantities = List<gray, mole, farad, katal, coulomb, siemens, amp, sievert, joule, newton, hertz, lux, henry, meter, lumen, weber, tesla, gram,
                        volt, watt, pascal, becquerel, ohm, kelvin, celsius, time_s, k_time_s, litre>;
// further units of the same quantities
using Prefixed = List<farad_p, farad_n, farad_u, farad_m, coulomb_n, coulomb_u, coulomb_m, siemens_u, siemens_m, amp_u, amp_m, joule_p, joule_n,
                      joule_u, joule_m, joule_k, joule_M, joule_G, joule_T, newton_k, hertz_k, hertz_M, hertz_G, meter_n, meter_u, meter_m, meter_c,
                      meter_d, meter_k, gram_u, gram_m, gram_k, volt_u, volt_m, watt_m, watt_k, watt_M, watt_G, pascal_k, pascal_M, ohm_m, ohm_k,
                      ohm_M, litre_ml, cubic_metre, time_us, time_ms, time_m, time_h, time_d, time_W, time_M, time_Y, k_time_us, k_time_ms, k_time_m,
                      k_time_h, k_time_d>;

#define DETECT(name, expression)                                                                                                              \
    template<typename A, typename B, typename = void>                                                                                         \
    struct name : std::false_type {};                                                                                                         \
    template<typename A, typename B>                                                                                                          \
    struct name<A, B, std::void_t<decltype(expression)>> : std::true_type {};
DETECT(CanAdd, std::declval<A&>() + std::declval<const B&>())
DETECT(CanSubtract, std::declval<A&>() - std::declval<const B&>())
DETECT(CanMultiply, std::declval<A&>() * std::declval<const B&>())
DETECT(CanDivide, std::declval<A&>() / std::declval<const B&>())
DETECT(CanAddTo, std::declval<A&>() += std::declval<const B&>())
DETECT(CanSubtractFrom, std::declval<A&>() -= std::declval<const B&>())
DETECT(CanAssign, std::declval<A&>() = std::declval<const B&>())
DETECT(CanEqual, std::declval<A&>() == std::declval<const B&>())
DETECT(CanDiffer, std::declval<A&>() != std::declval<const B&>())
DETECT(CanLess, std::declval<A&>() < std::declval<const B&>())
DETECT(CanGreater, std::declval<A&>() > std::declval<const B&>())
DETECT(CanAtMost, std::declval<A&>() <= std::declval<const B&>())
DETECT(CanAtLeast, std::declval<A&>() >= std::declval<const B&>())

template<typename A, typename B>
constexpr bool any_meeting = std::is_constructible_v<A, B> || std::is_convertible_v<B, A> || CanAssign<A, B>::value || CanAdd<A, B>::value || CanSubtract<A, B>::value
                             || CanMultiply<A, B>::value || CanDivide<A, B>::value || CanAddTo<A, B>::value || CanSubtractFrom<A, B>::value || CanEqual<A, B>::value
                             || CanDiffer<A, B>::value || CanLess<A, B>::value || CanGreater<A, B>::value || CanAtMost<A, B>::value || CanAtLeast<A, B>::value;
template<typename A, typename B>
constexpr bool every_meeting = std::is_constructible_v<A, B> && std::is_convertible_v<B, A> && CanAssign<A, B>::value && CanAdd<A, B>::value && CanSubtract<A, B>::value
                               && CanMultiply<A, B>::value && CanDivide<A, B>::value && CanAddTo<A, B>::value && CanSubtractFrom<A, B>::value && CanEqual<A, B>::value
                               && CanDiffer<A, B>::value && CanLess<A, B>::value && CanGreater<A, B>::value && CanAtMost<A, B>::value && CanAtLeast<A, B>::value;

template<typename A, typename... Bs>
constexpr int meetings = (0 + ... + (any_meeting<A, Bs> ? 1 : 0));
template<typename... As, typename... Bs>
constexpr bool only_with_one(List<As...>, List<Bs...>) { // every A meets exactly one of the Bs
    return ((meetings<As, Bs...> == 1) && ...);
}
template<typename A>
constexpr bool plain_numbers_stay_out = !std::is_convertible_v<float, A> && !std::is_convertible_v<int, A> && !std::is_convertible_v<A, float> && !CanAdd<A, float>::value
                                        && !CanAdd<A, int>::value && !CanSubtract<A, float>::value && !CanAddTo<A, float>::value && !CanEqual<A, float>::value
                                        && !CanLess<A, int>::value && !CanAssign<A, float>::value && !CanAssign<A, int>::value;
template<typename A>
constexpr bool numbers_scale = CanMultiply<A, float>::value && CanDivide<A, float>::value && CanMultiply<A, int>::value && CanDivide<A, int>::value;
template<typename... As>
constexpr bool all_stay_out(List<As...>) {
    return (plain_numbers_stay_out<As> && ...);
}
template<typename... As>
constexpr bool all_scale(List<As...>) {
    return (numbers_scale<As> && ...);
}
using Speed = CompoundUnit<meter, time_s>;
using Speed_kmh = CompoundUnit<meter_k, time_h>;
using Flow = CompoundUnit<litre, time_s>;
using Inverse = CompoundUnit<time_s, meter>;
using Moment = CompoundUnit<meter, newton>;

//@ control the vocabulary compiles
int main() { return 0; }
//@ accept a unit meets units of its own quantity and of no other
static_assert(only_with_one(Quantities{}, Quantities{}));
//@ accept a prefixed unit meets exactly the quantity it belongs to
static_assert(only_with_one(Prefixed{}, Quantities{}));
//@ accept units of one quantity convert, compare and compute
static_assert(every_meeting<meter, meter_k> && every_meeting<meter_k, meter> && every_meeting<time_s, time_h> && every_meeting<k_time_ms, k_time_d>);
static_assert(every_meeting<litre, cubic_metre> && every_meeting<lux, lux> && every_meeting<farad_p, farad> && every_meeting<kelvin, kelvin>);
//@ accept plain numbers do not pass for quantities
static_assert(all_stay_out(Quantities{}) && all_stay_out(Prefixed{}));
//@ accept quantities can be scaled by numbers
static_assert(all_scale(Quantities{}) && all_scale(Prefixed{}));
//@ accept kernel time is a whole number, real time is not
static_assert(k_time_us::is_integral() && k_time_ms::is_integral() && k_time_s::is_integral() && k_time_m::is_integral() && k_time_h::is_integral() && k_time_d::is_integral());
static_assert(!time_us::is_integral() && !time_s::is_integral() && !meter::is_integral() && sizeof(k_time_us::ValueType) >= 8);
//@ accept compounds of the same quantities convert
static_assert(std::is_convertible_v<Speed, Speed_kmh> && std::is_convertible_v<Speed_kmh, Speed> && CanAssign<Speed, Speed_kmh>::value && CanAddTo<Speed, Speed_kmh>::value && CanSubtractFrom<Speed, Speed_kmh>::value);
bool f(Speed a, Speed_kmh b) { return a == b && a != b && a < b && a > b && a <= b && a >= b && (a + b) == (a - b); }
//@ accept compounds of other quantities do not convert
static_assert(!std::is_constructible_v<Speed, Flow> && !std::is_constructible_v<Speed, Inverse> && !std::is_constructible_v<Speed, Moment> && !std::is_constructible_v<Moment, Speed>);
static_assert(!CanAssign<Speed, Flow>::value && !CanAddTo<Speed, Flow>::value && !CanSubtractFrom<Speed, Flow>::value && !CanAddTo<Speed, Inverse>::value && !CanAddTo<Speed, Moment>::value);
//@ reject adding compounds whose numerators differ
auto f(Speed a, Flow b) { return a + b; }
//@ reject subtracting compounds whose denominators differ
auto f(Speed a, Moment b) { return a - b; }
//@ reject comparing compounds whose numerators differ for equality
bool f(Speed a, Flow b) { return a == b; }
//@ reject comparing compounds whose denominators differ for inequality
bool f(Speed a, Moment b) { return a != b; }
//@ reject ordering compounds whose numerators differ (less)
bool f(Speed a, Flow b) { return a < b; }
//@ reject ordering compounds that are each other's inverse (greater)
bool f(Speed a, Inverse b) { return a > b; }
//@ reject ordering compounds whose denominators differ (at most)
bool f(Speed a, Moment b) { return a <= b; }
//@ reject ordering compounds whose numerators differ (at least)
bool f(Speed a, Flow b) { return a >= b; }
//@ reject a compound of something that is no unit
CompoundUnit<float, time_s> f;
//@ reject a compound over something that is no unit
CompoundUnit<meter, float> f;
//@ reject a compound of units that count differently
CompoundUnit<meter, k_time_s> f;
//@ reject a unit of something that is no number
spn::structure::units::Unit<spn::structure::units::TagLength, spn::structure::units::Base, const char*> f;
//@ reject passing a length for a duration
void wait(time_s);
void f() { wait(meter(3)); }
//@ reject passing real time for kernel time without saying how to round
void wait(k_time_s);
void f() { wait(time_s(3)); }
//@ reject passing a bare number for a duration
void wait(k_time_ms);
void f() { wait(100); }
//@ reject kelvin for celsius
void heat(celsius);
void f() { heat(kelvin(3)); }
