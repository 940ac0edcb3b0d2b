// Exact integer arithmetic of kernel time.
#include "vf.h"
#include "spine/structure/units/si.hpp"

static long any(long bound) {
    const long x = vf_nondet_long();
    vf_assume(x >= -bound && x <= bound);
    return x;
}
// FINE is N times smaller than COARSE
template<typename FINE, typename COARSE>
static void pair(const long n) {
    const long x = any((1l << 61) / n);
    switch (vf_choose(8)) {
    case 0: {
        vf_op("to the finer unit");
        vf_check(FINE(COARSE(x)).raw() == x * n, "converting to a finer unit multiplies exactly");
        vf_check(COARSE(FINE(COARSE(x))).raw() == x, "converting to a finer unit and back changes nothing");
        break;
    }
    case 1: {
        vf_op("to the coarser unit");
        const long y = any(1l << 61);
        const long q = COARSE(FINE(y)).raw();
        const long twice = 2 * (y - q * n);
        vf_check(twice >= -n && twice <= n, "converting to a coarser unit yields the nearest value");
        if (twice == n) vf_check(y < 0, "half a unit is rounded away from zero for positive times");
        if (twice == -n) vf_check(y > 0, "half a unit is rounded away from zero for negative times");
        break;
    }
    case 2: {
        vf_op("assignment");
        FINE f;
        f = COARSE(x);
        vf_check(f.raw() == x * n, "assigning to a finer unit multiplies exactly");
        COARSE c(5);
        c = f;
        vf_check(c.raw() == x, "assigning to a coarser unit divides");
        break;
    }
    case 3: {
        vf_op("sum");
        const long y = any(1l << 60);
        vf_assume(x <= (1l << 60) / n && x >= -(1l << 60) / n);
        vf_check((FINE(y) + COARSE(x)).raw() == y + x * n, "a sum of mixed units is exact in the finer unit");
        vf_check((FINE(y) - COARSE(x)).raw() == y - x * n, "a difference of mixed units is exact in the finer unit");
        break;
    }
    case 4: {
        vf_op("accumulate");
        const long y = any(1l << 60);
        vf_assume(x <= (1l << 60) / n && x >= -(1l << 60) / n);
        FINE f(y);
        f += COARSE(x);
        vf_check(f.raw() == y + x * n, "adding a coarser unit is exact");
        f -= COARSE(x);
        vf_check(f.raw() == y, "subtracting it again restores the time");
        break;
    }
    case 5: {
        vf_op("order");
        const long y = any(1l << 61);
        vf_check((FINE(y) < COARSE(x)) == (y < x * n), "mixed units compare as the times they stand for (less)");
        vf_check((FINE(y) > COARSE(x)) == (y > x * n), "mixed units compare as the times they stand for (greater)");
        break;
    }
    case 6: {
        vf_op("order or equal");
        const long y = any(1l << 61);
        vf_check((FINE(y) <= COARSE(x)) == (y <= x * n), "mixed units compare as the times they stand for (at most)");
        vf_check((FINE(y) >= COARSE(x)) == (y >= x * n), "mixed units compare as the times they stand for (at least)");
        break;
    }
    case 7: {
        vf_op("equality");
        const long y = any(1l << 61);
        vf_check((FINE(y) == COARSE(x)) == (y == x * n), "mixed units are equal iff the times are");
        vf_check((FINE(y) != COARSE(x)) == (y != x * n), "mixed units differ iff the times do");
        break;
    }
    }
}
extern "C" void vp_kerneltime_us_ms() { pair<k_time_us, k_time_ms>(1000); }
extern "C" void vp_kerneltime_us_s() { pair<k_time_us, k_time_s>(1000000); }
extern "C" void vp_kerneltime_us_m() { pair<k_time_us, k_time_m>(60000000); }
extern "C" void vp_kerneltime_us_h() { pair<k_time_us, k_time_h>(3600000000); }
extern "C" void vp_kerneltime_us_d() { pair<k_time_us, k_time_d>(86400000000); }
extern "C" void vp_kerneltime_ms_s() { pair<k_time_ms, k_time_s>(1000); }
extern "C" void vp_kerneltime_ms_m() { pair<k_time_ms, k_time_m>(60000); }
extern "C" void vp_kerneltime_ms_h() { pair<k_time_ms, k_time_h>(3600000); }
extern "C" void vp_kerneltime_ms_d() { pair<k_time_ms, k_time_d>(86400000); }
extern "C" void vp_kerneltime_s_m() { pair<k_time_s, k_time_m>(60); }
extern "C" void vp_kerneltime_s_h() { pair<k_time_s, k_time_h>(3600); }
extern "C" void vp_kerneltime_s_d() { pair<k_time_s, k_time_d>(86400); }
extern "C" void vp_kerneltime_m_h() { pair<k_time_m, k_time_h>(60); }
extern "C" void vp_kerneltime_m_d() { pair<k_time_m, k_time_d>(1440); }
extern "C" void vp_kerneltime_h_d() { pair<k_time_h, k_time_d>(24); }

template<typename U>
static void same() {
    const long x = any(1l << 61), y = any(1l << 61);
    vf_check(U(x).raw() == x && U(U(x)).raw() == x, "a time keeps its value");
    vf_check((U(x) + U(y)).raw() == x + y && (U(x) - U(y)).raw() == x - y && (-U(x)).raw() == -x, "sums and differences in one unit are exact");
    vf_check((U(x) < U(y)) == (x < y) && (U(x) <= U(y)) == (x <= y) && (U(x) > U(y)) == (x > y) && (U(x) >= U(y)) == (x >= y), "times in one unit compare exactly");
    vf_check((U(x) == U(y)) == (x == y) && (U(x) != U(y)) == (x != y), "times in one unit are equal iff their values are");
    vf_check(U(x).is_negative() == (x < 0), "a time is negative iff its value is");
    U z(x);
    z += U(y);
    vf_check(z.raw() == x + y, "adding in place is exact");
    z -= U(y);
    vf_check(z.raw() == x, "subtracting in place is exact");
    const long k = any(1000), w = any(1l << 50);
    vf_check((U(w) * 3).raw() == w * 3, "scaling by an integer is exact");
    if (k > 0) {
        const long q = (U(w) / 7).raw();
        vf_check(7 * q <= w + 6 && 7 * q >= w - 6, "dividing by an integer is exact up to the remainder");
    }
}
extern "C" void vp_kerneltime_same_us() { same<k_time_us>(); }
extern "C" void vp_kerneltime_same_ms() { same<k_time_ms>(); }
extern "C" void vp_kerneltime_same_s() { same<k_time_s>(); }
extern "C" void vp_kerneltime_same_m() { same<k_time_m>(); }
extern "C" void vp_kerneltime_same_h() { same<k_time_h>(); }
extern "C" void vp_kerneltime_same_d() { same<k_time_d>(); }

// whatever the values: comparing needs no room
template<typename U>
static void extremes() {
    const long x = vf_nondet_long(), y = vf_nondet_long();
    vf_check(U(x).raw() == x, "any value is kept");
    vf_check((U(x) < U(y)) == (x < y) && (U(x) <= U(y)) == (x <= y) && (U(x) > U(y)) == (x > y) && (U(x) >= U(y)) == (x >= y), "times in one unit compare exactly, however far apart");
    vf_check((U(x) == U(y)) == (x == y) && (U(x) != U(y)) == (x != y), "times in one unit are equal iff their values are, however far apart");
}
extern "C" void vp_kerneltime_extremes_us() { extremes<k_time_us>(); }
extern "C" void vp_kerneltime_extremes_s() { extremes<k_time_s>(); }
