// The text of a pipeline: the times until its futures, the next one first.
#include "vf.h"
#include "spine/core/utils/time_repr.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include <string>
using namespace spn::eventsystem;

template<int N>
static void text(const long (&d)[3]) {
    vf_option("split", 4096);
    const long t = vf_nondet_long(), past = vf_choose(2) ? 2 : 0;
    vf_assume(t >= 0 && t <= (1l << 40));
    HAL::delay_ms(k_time_ms(t));
    Pipeline p(N + 1);
    std::string expect = "Pipeline: [";
    for (int i = N - 1; i >= 0; --i) p.push(std::make_shared<Future>(k_time_ms(d[i])));
    HAL::delay_ms(k_time_ms(past));
    for (int i = 0; i < N; ++i) {
        if (i) expect += ", ";
        expect += spn::core::utils::repr(k_time_ms(d[i] - past));
    }
    expect += "]";
    const std::string s = p.to_string();
    vf_check(s.size() == expect.size() && s == expect, "a pipeline prints the times until its futures in order, in brackets and separated by commas");
    vf_check(p.pipe().size() == N && p.to_string() == expect, "printing a pipeline changes nothing");
}
extern "C" void vp_pipelinetext_0() { text<0>({}); }
extern "C" void vp_pipelinetext_1() { text<1>({5}); }
extern "C" void vp_pipelinetext_2() { text<2>({1500, 90000}); }
extern "C" void vp_pipelinetext_3() { text<3>({2, 3600000, 123456789}); }
extern "C" void vp_pipelinetext_events() {
    using namespace spn::core;
    EventSystem s(EventSystem::Config{.events_count = 1, .events_cap = 2, .handler_cap = 1, .delay_between_ticks = false});
    EventHandler h(&s);
    s.attach(0, &h);
    vf_check(s.pipeline_as_string() == "Pipeline: []", "an event system without scheduled events prints an empty pipeline");
    s.schedule(0, k_time_ms(70));
    s.schedule(0, k_time_ms(30));
    vf_check(s.pipeline_as_string() == "Pipeline: [30ms, 70ms]", "an event system prints the pipeline of what it scheduled");
}
