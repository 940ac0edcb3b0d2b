// Points: componentwise arithmetic, equality, length and normalization (C30)
#include "vf.h"
#include <cmath>
#include "spine/structure/point.hpp"
using namespace spn::structure;

static int any_int() {
    const int x = vf_nondet_int();
    vf_assume(x >= -10000 && x <= 10000);
    return x;
}
static float any_float() {
    const float x = vf_nondet_float();
    vf_assume(x >= -1000000.0f && x <= 1000000.0f);
    return x;
}

template<typename T>
static bool is(const XYZPoint<T>& p, T x, T y, T z) { return p.x == x && p.y == y && p.z == z; }
template<typename T>
static bool is(const XYPoint<T>& p, T x, T y) { return p.x == x && p.y == y; }

template<typename T>
static void three(T a, T b, T c, T d, T e, T f, T s) {
    using P = XYZPoint<T>;
    const P p(a, b, c), q(d, e, f);
    vf_check(is(P(), T(0), T(0), T(0)), "a point starts at the origin");
    vf_check(is(p, a, b, c), "a point is where it was put");
    vf_check(is(P(p + q), T(a + d), T(b + e), T(c + f)), "points add by component");
    vf_check(is(P(p - q), T(a - d), T(b - e), T(c - f)), "points subtract by component");
    P r(p);
    r.add(q);
    vf_check(is(r, T(a + d), T(b + e), T(c + f)), "a point can be added to");
    r.subtract(q);
    vf_check(is(r, a, b, c), "a point can be subtracted from");
    r.subtract(q);
    vf_check(is(r, T(a - d), T(b - e), T(c - f)), "a point can be subtracted from again");
    r = p;
    vf_check(r == p && !(r != p), "a point equals its copy");
    vf_check((p == q) == (a == d && b == e && c == f), "points are equal iff all components are");
    vf_check((p != q) == !(a == d && b == e && c == f), "points differ iff any component does");
    (void)s;
}
template<typename T>
static void two(T a, T b, T d, T e, T s) {
    using P = XYPoint<T>;
    const P p(a, b), q(d, e);
    vf_check(is(P(), T(0), T(0)), "a point starts at the origin");
    vf_check(is(p, a, b), "a point is where it was put");
    vf_check(is(P(p + q), T(a + d), T(b + e)), "points add by component");
    vf_check(is(P(p - q), T(a - d), T(b - e)), "points subtract by component");
    P r(p);
    r.add(q);
    vf_check(is(r, T(a + d), T(b + e)), "a point can be added to");
    r.subtract(q);
    vf_check(is(r, a, b), "a point can be subtracted from");
    r.subtract(q);
    vf_check(is(r, T(a - d), T(b - e)), "a point can be subtracted from again");
    r = p;
    vf_check(r == p && !(r != p), "a point equals its copy");
    vf_check((p == q) == (a == d && b == e), "points are equal iff all components are");
    vf_check((p != q) == !(a == d && b == e), "points differ iff any component does");
    (void)s;
}
extern "C" void vp_point3_int() {
    vf_option("split", 512);
    three<int>(any_int(), any_int(), any_int(), any_int(), any_int(), any_int(), any_int());
}
extern "C" void vp_point2_int() {
    vf_option("split", 512);
    two<int>(any_int(), any_int(), any_int(), any_int(), any_int());
}
extern "C" void vp_point3_float() {
    vf_option("fp_exact", 1);
    vf_option("split", 512);
    three<float>(any_float(), any_float(), any_float(), any_float(), any_float(), any_float(), any_float());
}
extern "C" void vp_point2_float() {
    vf_option("fp_exact", 1);
    vf_option("split", 512);
    two<float>(any_float(), any_float(), any_float(), any_float(), any_float());
}

// products: one operand any value, the other one of several
template<typename T>
static void some(T& x, T& y, T& z) {
    switch (vf_choose(4)) {
    case 0: x = 2, y = 3, z = 5; break;
    case 1: x = 7, y = -2, z = 1; break;
    case 2: x = -4, y = 1, z = -3; break;
    default: x = 1, y = 10, z = 2; break;
    }
}
template<typename T>
static void products3(T a, T b, T c) {
    using P = XYZPoint<T>;
    T x, y, z;
    some(x, y, z);
    const P p(a, b, c), q(x, y, z);
    vf_check(is(P(p * q), T(a * x), T(b * y), T(c * z)), "points multiply by component");
    vf_check(is(P(q * p), T(a * x), T(b * y), T(c * z)), "the factors can be exchanged");
    vf_check(is(P(p / q), T(a / x), T(b / y), T(c / z)), "points divide by component");
    vf_check(is(P(p.dot(q)), T(a * x), T(b * y), T(c * z)), "the products of the components");
    P r(p);
    r.scalar_multiplication(x);
    vf_check(is(r, T(a * x), T(b * x), T(c * x)), "a point can be scaled");
}
template<typename T>
static void products2(T a, T b) {
    using P = XYPoint<T>;
    T x, y, z;
    some(x, y, z);
    const P p(a, b), q(x, y);
    vf_check(is(P(p * q), T(a * x), T(b * y)), "points multiply by component");
    vf_check(is(P(q * p), T(a * x), T(b * y)), "the factors can be exchanged");
    vf_check(is(P(p / q), T(a / x), T(b / y)), "points divide by component");
    vf_check(is(P(p.dot(q)), T(a * x), T(b * y)), "the products of the components");
    P r(p);
    r.scalar_multiplication(x);
    vf_check(is(r, T(a * x), T(b * x)), "a point can be scaled");
}
extern "C" void vp_point3_products_int() {
    vf_option("split", 512);
    const int a = any_int(), b = any_int(), c = any_int();
    products3<int>(a, b, c);
    int x, y, z;
    some(x, y, z);
    const XYZPoint<int> p(a, b, c), q(x, y, z);
    vf_check(is<int>(p % q, a % x, b % y, c % z), "remainders are by component");
}
extern "C" void vp_point2_products_int() {
    vf_option("split", 512);
    const int a = any_int(), b = any_int();
    products2<int>(a, b);
    int x, y, z;
    some(x, y, z);
    const XYPoint<int> p(a, b), q(x, y);
    vf_check(is<int>(p % q, a % x, b % y), "remainders are by component");
}
extern "C" void vp_point3_products_float() {
    vf_option("fp_exact", 1);
    vf_option("split", 512);
    products3<float>(any_float(), any_float(), any_float());
}
extern "C" void vp_point2_products_float() {
    vf_option("fp_exact", 1);
    vf_option("split", 512);
    products2<float>(any_float(), any_float());
}

static bool near(double a, double b) { return a - b < 1e-4 && b - a < 1e-4; }
template<typename T>
static void length3(T x, T y, T z, T m) {
    XYZPoint<T> p(x, y, z);
    vf_check(near(p.mag(), m), "the length is the square root of the sum of the squares");
    vf_check(is(p, x, y, z), "taking the length changes nothing");
}
template<typename T>
static void length2(T x, T y, T m) {
    XYPoint<T> p(x, y);
    vf_check(near(p.mag(), m), "the length is the square root of the sum of the squares");
    vf_check(is(p, x, y), "taking the length changes nothing");
}
template<typename T>
static void lengths() {
    vf_option("split", 512);
    switch (vf_choose(8)) {
    case 0: length3<T>(1, 2, 2, 3); break;
    case 1: length3<T>(-2, 3, 6, 7); break;
    case 2: length3<T>(4, -4, 7, 9); break;
    case 3: length3<T>(0, 0, 0, 0); break;
    case 4: length3<T>(6, 2, -3, 7); break;
    case 5: length3<T>(0, 0, -5, 5); break;
    case 6: length3<T>(-3, 0, 0, 3); break;
    default: length3<T>(0, -8, 0, 8); break;
    }
    switch (vf_choose(6)) {
    case 0: length2<T>(3, -4, 5); break;
    case 1: length2<T>(-12, 5, 13); break;
    case 2: length2<T>(0, 0, 0); break;
    case 3: length2<T>(-6, 0, 6); break;
    case 4: length2<T>(0, -9, 9); break;
    default: length2<T>(0, 7, 7); break;
    }
}
extern "C" void vp_point_length_float() { lengths<float>(); }
extern "C" void vp_point_length_double() { lengths<double>(); }
extern "C" void vp_point_length_int() { lengths<int>(); }
template<typename T>
static void normalized() {
    vf_option("split", 512);
    {
        T x, y, z, m;
        switch (vf_choose(4)) {
        case 0: x = 1, y = 2, z = -2, m = 3; break;
        case 1: x = -2, y = 3, z = 6, m = 7; break;
        case 2: x = 0, y = 0.25f, z = 0, m = 0.25f; break;
        default: x = -6, y = 0, z = 8, m = 10; break;
        }
        XYZPoint<T> p(x, y, z);
        p.normalize();
        vf_check(near(p.x, x / m) && near(p.y, y / m) && near(p.z, z / m), "normalizing divides by the length");
    }
    {
        T x, y, m;
        switch (vf_choose(3)) {
        case 0: x = 3, y = -4, m = 5; break;
        case 1: x = 0, y = 9, m = 9; break;
        default: x = -0.5f, y = 0, m = 0.5f; break;
        }
        XYPoint<T> p(x, y);
        p.normalize();
        vf_check(near(p.x, x / m) && near(p.y, y / m), "normalizing divides by the length");
    }
}
extern "C" void vp_point_normalize_float() { normalized<float>(); }
extern "C" void vp_point_normalize_double() { normalized<double>(); }
