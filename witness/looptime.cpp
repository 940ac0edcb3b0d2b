// How long the event loop sleeps.
#include "vf.h"
#include "spine/eventsystem/eventsystem.hpp"
using namespace spn::core;

static long any_time() {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 40));
    return t;
}
static long now() { return HAL::micros().raw(); }
struct Silent : EventHandler {
    using EventHandler::EventHandler;
    int n = 0;
    void handle_event(const Event&) override { ++n; }
};

extern "C" void vp_looptime() {
    vf_option("split", 8192);
    const long shortest = any_time(), longest = any_time();
    HAL::delay_ms(k_time_ms(any_time()));
    const bool sleeps = vf_nondet_bool();
    EventSystem s(EventSystem::Config{.events_count = 1, .events_cap = 2, .handler_cap = 1, .delay_between_ticks = sleeps,
                                      .min_delay_between_ticks = k_time_ms(shortest), .max_delay_between_ticks = k_time_ms(longest)});
    Silent h(&s);
    s.attach(0, &h);
    const int n = vf_choose(3);
    long next = -1;
    for (int i = 0; i < n; ++i) {
        const long d = any_time();
        vf_assume(d > 0);
        s.schedule(0, k_time_ms(d), Event::Data());
        if (next < 0 || d < next) next = d;
    }
    const long before = now();
    s.loop();
    const long slept = now() - before;
    if (!sleeps) vf_check(slept == 0, "a loop configured not to sleep does not sleep");
    else if (n > 0) {
        vf_check(slept <= next * 1000, "the loop never sleeps past the next event");
        vf_check(slept <= longest * 1000, "the loop never sleeps longer than the maximum");
        vf_check(slept == (next < longest ? next : longest) * 1000, "the loop sleeps as long as both allow");
        if (next <= longest) {
            s.loop();
            vf_check(h.n >= 1, "an event that became due while sleeping is delivered by the next loop");
        }
    } else vf_check(slept == shortest * 1000, "an idle loop sleeps the minimum");
}
