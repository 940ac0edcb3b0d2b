// The queue of future events: any delays, any passing of time, pushes and expiries in any order.
#include "vf.h"
#include "spine/eventsystem/pipeline.hpp"
using namespace spn::eventsystem;

static k_time_ms::ValueType any_time() {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 40));
    return t;
}
static long now() { return HAL::millis().raw(); }

template<int N, int STEPS>
static void pipeline(int first_pushes) {
    vf_option("split", 8192);
    HAL::delay_ms(k_time_ms(any_time()));
    Pipeline p(N);
    const Future* who[STEPS];
    long due[STEPS];
    bool pending[STEPS];
    int n = 0, count = 0; // futures pushed so far, futures pending
    vf_check(!p.contains_futures() && !p.contains_expired_futures() && p.time_until_next_future() == k_time_ms(0), "a new pipeline is empty");
    for (int step = 0; step < STEPS; ++step) {
        const int what = step < first_pushes ? 0 : vf_choose(2);
        if (what == 0) {
            if (count == N) return;
            vf_op("push");
            const long d = any_time();
            vf_assume(d > 0);
            auto f = std::make_shared<Future>(k_time_ms(d));
            HAL::delay_ms(k_time_ms(any_time())); // the delay counts from the moment of pushing
            who[n] = f.get();
            due[n] = now() + d;
            pending[n] = true;
            p.push(std::move(f));
            vf_check(who[n]->operator==(*who[n]) && const_cast<Future*>(who[n])->future().raw() == due[n], "a future is due its delay after it was pushed");
            ++n;
            ++count;
        } else {
            HAL::delay_ms(k_time_ms(any_time()));
            int next = -1; // earliest; among equals the one pushed first
            for (int i = 0; i < n; ++i)
                if (pending[i] && (next < 0 || due[i] < due[next])) next = i;
            const bool ready = next >= 0 && due[next] <= now();
            vf_check(p.contains_futures() == (count > 0), "the pipeline knows whether it holds futures");
            vf_check(p.contains_expired_futures() == ready, "a future is reported due iff the earliest one is");
            vf_check(p.time_until_next_future().raw() == (next < 0 || ready ? 0 : due[next] - now()), "the time until the next future is that of the earliest, never negative");
            vf_legal(ready);
            vf_op("expire");
            auto f = p.expire();
            vf_check((f != nullptr) == ready, "a future leaves the pipeline iff it is due");
            if (ready) {
                vf_check(f.get() == who[next], "futures leave in order of their time, equals in the order they were pushed");
                pending[next] = false;
                --count;
            }
            vf_check(p.pipe().size() == (size_t)count, "a future that is not due stays in the pipeline");
        }
    }
    vf_reach("sequence ends");
}
extern "C" void vp_pipeline_2() { pipeline<2, 4>(0); }
extern "C" void vp_pipeline_3() { pipeline<3, 5>(2); }
extern "C" void vp_pipeline_3_drain() { pipeline<3, 6>(3); }
// a future on its own, at any time, and two of them compared
extern "C" void vp_pipeline_future() {
    HAL::delay_ms(k_time_ms(any_time()));
    const long d = any_time(), e = any_time();
    Future a((k_time_ms(d)));
    long due = now() + d;
    HAL::delay_ms(k_time_ms(any_time()));
    Future b((k_time_ms(e)));
    const long other = now() + e;
    HAL::delay_ms(k_time_ms(any_time()));
    if (vf_nondet_bool()) {
        const long again = any_time();
        vf_assume(again > 0);
        a.reschedule(k_time_ms(again));
        due = now() + again;
    } else if (vf_nondet_bool()) {
        vf_assume(d > 0);
        a.reschedule();
        due = now() + d;
    }
    HAL::delay_ms(k_time_ms(any_time()));
    vf_check(a.future().raw() == due && b.future().raw() == other, "a future is due its delay after it was made or rescheduled");
    vf_check(a.time_until_future().raw() == due - now(), "the time until a future is that until it is due");
    vf_check(a.expired() == (due <= now()), "a future has expired from the time it is due");
    vf_check((a < b) == (due < other) && (b < a) == (other < due), "futures are ordered by when they are due");
    vf_check((a == b) == (due == other) && a == a && !(a < a), "futures are equal when they are due at the same time");
    vf_check(Future().future().raw() == now(), "a future is due at once unless told otherwise");
}
