// Day schedules of up to three arbitrary blocks, at any second of the day.
#include "vf.h"
#include "spine/structure/time/schedule.hpp"
using namespace spn::structure::time;

static constexpr long DAY = 24 * 3600;
struct Plan {
    long start[3], length[3];
    float value[3];
    Plan(int n) {
        long total = 0;
        for (int i = 0; i < n; ++i) {
            start[i] = vf_nondet_long();
            length[i] = vf_nondet_long();
            value[i] = vf_nondet_float();
            vf_assume(start[i] >= 0 && start[i] < DAY && length[i] > 0 && length[i] <= DAY);
            total += length[i];
        }
        vf_assume(total <= DAY);
    }
    Schedule::Block block(int i) const { return {k_time_s(start[i]), k_time_s(length[i]), value[i]}; }
};
static void query(const Schedule& s, const Plan& p, int n) {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t < DAY);
    int active = -1;
    for (int i = n - 1; i >= 0; --i) {
        const long end = p.start[i] + p.length[i];
        if ((t >= p.start[i] && t < end) || (end > DAY && t < end - DAY)) active = i;
    }
    const float v = s.value_at(k_time_s(t));
    if (active < 0) vf_check(v == 0.0f, "outside all blocks the value is zero");
    else vf_check(v == p.value[active], "within a block, from its start up to but not including its end and also past midnight, its value applies");
    long next = DAY;
    for (int i = 0; i < n; ++i)
        if (p.start[i] > t && p.start[i] < next) next = p.start[i];
    vf_check(s.start_of_next_block(k_time_s(t)).raw() == next, "the next block is the one that starts first after the given time, or the end of the day");
}
extern "C" void vp_schedule_1() {
    vf_option("leaks", 1);
    {
        const Plan p(1);
        query(Schedule({p.block(0)}), p, 1);
    }
    vf_leak_check();
}
extern "C" void vp_schedule_2() {
    const Plan p(2);
    if (vf_nondet_bool()) query(Schedule({p.block(0), p.block(1)}), p, 2);
    else query(Schedule(Schedule::Config{.blocks = {p.block(0), p.block(1)}}), p, 2);
}
extern "C" void vp_schedule_3() {
    vf_option("split", 8192);
    const Plan p(3);
    query(Schedule({p.block(0), p.block(1), p.block(2)}), p, 3);
}
