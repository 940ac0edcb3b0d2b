// The event system: any events, delays, exhaustion of the store, handlers that schedule or trigger again.
#include "vf.h"
#include "spine/eventsystem/eventsystem.hpp"
using namespace spn::core;

static long any_time() {
    const long t = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 40));
    return t;
}
static long now() { return HAL::millis().raw(); }

struct Recorder : EventHandler {
    using EventHandler::EventHandler;
    static constexpr int MAX = 12;
    size_t id[MAX];
    uint32_t value[MAX];
    int order[MAX];
    int n = 0;
    int* clock;
    int nested = 0; // 1: schedule again, 2: trigger another event, once
    void handle_event(const Event& e) override {
        if (n < MAX) {
            id[n] = e.id();
            value[n] = e.data().has_value() ? e.data().unsigned_value() : 0;
            order[n] = (*clock)++;
            ++n;
        }
        if (nested == 1) {
            nested = 0;
            evsys()->schedule(1, k_time_ms(5), Event::Data(uint32_t(77)));
        } else if (nested == 2) {
            nested = 0;
            evsys()->trigger(1, Event::Data(uint32_t(88)));
        }
    }
};

static EventSystem::Config config(bool delay = false) {
    return EventSystem::Config{.events_count = 2, .events_cap = 2, .handler_cap = 2, .delay_between_ticks = delay};
}

// scheduled events reach every attached handler exactly once, in order of their time, not before it
extern "C" void vp_events_delivery() {
    vf_option("split", 8192);
    vf_option("leaks", 1);
    {
        HAL::delay_ms(k_time_ms(any_time()));
        EventSystem s(config());
        int clock = 0;
        Recorder a(&s), b(&s);
        a.clock = b.clock = &clock;
        s.attach(0, &a);
        s.attach(1, &a);
        s.attach(1, &b);
        size_t id[3];
        uint32_t value[3];
        long due[3];
        int n = 0;
        const int wanted = vf_choose(4);
        for (int i = 0; i < wanted; ++i) {
            id[n] = vf_choose(2);
            value[n] = vf_nondet_uint();
            const long d = any_time();
            vf_assume(d > 0);
            due[n] = now() + d;
            if (i < 2) {
                s.schedule(id[n], k_time_ms(d), Event::Data(value[n]));
                ++n;
            } else {
                vf_legal(false);
                vf_op("schedule beyond the store");
                vf_check(s.event(id[n], k_time_ms(d), Event::Data(value[n])) == nullptr, "no event is handed out beyond the store");
                s.schedule(id[n], k_time_ms(d), Event::Data(value[n]));
                vf_reach("an exhausted store is survived");
            }
        }
        HAL::delay_ms(k_time_ms(any_time()));
        vf_op("loop");
        s.loop();
        // what must have been delivered: in order of time, equals as scheduled
        int seq[2], m = 0;
        for (int i = 0; i < n; ++i)
            if (due[i] <= now()) seq[m++] = i;
        if (m == 2 && due[seq[1]] < due[seq[0]]) {
            const int t = seq[0];
            seq[0] = seq[1];
            seq[1] = t;
        }
        vf_check(a.n == m, "a handler gets every event that is due once, and no other");
        int k = 0;
        for (int i = 0; i < m; ++i) {
            vf_check(i < a.n && a.id[i] == id[seq[i]] && a.value[i] == value[seq[i]], "events arrive in order with their own data");
            if (id[seq[i]] == 1) {
                vf_check(k < b.n && b.id[k] == 1 && b.value[k] == value[seq[i]], "every handler of an event gets it");
                if (k < b.n && i < a.n) vf_check(a.order[i] < b.order[k], "handlers are called in the order they were attached");
                ++k;
            }
        }
        vf_check(b.n == k, "a handler gets only the events it is attached to");
        // what is not pending can be handed out again
        for (int i = 0; i < 2 - (n - m); ++i) {
            s.schedule(0, k_time_ms(1ul << 50), Event::Data());
        }
#ifndef VF_ASSERTIONS
        vf_check(s.event(0, k_time_ms(1), Event::Data()) == nullptr, "no event is handed out twice");
#endif
        const int before = a.n;
        s.loop();
        vf_check(a.n == before, "a delivered event is not delivered again");
    }
    vf_leak_check();
}

// an event in the hands of the user, triggered or scheduled
extern "C" void vp_events_direct() {
    vf_option("split", 8192);
    vf_option("leaks", 1);
    {
        EventSystem s(config());
        int clock = 0;
        Recorder a(&s), b(&s);
        a.clock = b.clock = &clock;
        s.attach(0, &a);
        s.attach(0, &b);
        s.attach(1, &b);
        const uint32_t v = vf_nondet_uint();
        // some events may be in use
        auto e1 = vf_nondet_bool() ? s.event(1, k_time_ms(9), Event::Data(uint32_t(1))) : nullptr;
        auto e2 = vf_nondet_bool() ? s.event(1, k_time_ms(9), Event::Data(uint32_t(2))) : nullptr;
        const int used = (e1 ? 1 : 0) + (e2 ? 1 : 0);
        switch (vf_choose(3)) {
        case 0: {
            vf_legal(used < 2);
            vf_op("trigger an event");
            auto e = s.event(0, k_time_ms(1), Event::Data(v));
            vf_check((e == nullptr) == (used == 2), "an event is handed out iff one is unused");
            if (e) {
                vf_check(e->id() == 0 && e->data().has_value() && e->data().unsigned_value() == v, "an event carries what it was made with");
                s.trigger(e);
            }
            break;
        }
        case 1:
            vf_legal(used < 2);
            vf_op("trigger by identity");
            s.trigger(0, Event::Data(v));
            break;
        case 2: {
            vf_legal(false);
            vf_op("trigger nothing");
            s.trigger(std::shared_ptr<Event>());
            s.schedule(std::shared_ptr<Event>());
            vf_check(a.n == 0 && b.n == 0, "no event reaches nobody");
            s.loop();
            vf_check(a.n == 0 && b.n == 0, "scheduling no event delivers nothing");
            return;
        }
        }
        const int want = used == 2 ? 0 : 1;
        vf_check(a.n == want && b.n == want, "a triggered event reaches each of its handlers at once and once");
        if (want) vf_check(a.id[0] == 0 && a.value[0] == v && b.value[0] == v && a.order[0] < b.order[0], "a triggered event arrives with its data, in order of attachment");
        if (e1) vf_check(e1->id() == 1 && e1->data().unsigned_value() == 1, "an event in use is left alone");
        e1.reset();
        e2.reset();
        auto x = s.event(0, k_time_ms(1), Event::Data()), y = s.event(0, k_time_ms(1), Event::Data());
        vf_check(x != nullptr && y != nullptr && x != y, "every event can be handed out again afterwards");
    }
    vf_leak_check();
}

// handlers that schedule or trigger while an event is handled, also when nothing is left to hand out
extern "C" void vp_events_nested() {
    vf_option("split", 8192);
    vf_option("leaks", 1);
    {
        EventSystem s(config());
        int clock = 0;
        Recorder a(&s), b(&s);
        a.clock = b.clock = &clock;
        s.attach(0, &a);
        s.attach(1, &b);
        a.nested = 1 + vf_choose(2);
        const int how = a.nested;
        const bool crowded = vf_nondet_bool();
        vf_legal(!crowded);
        const long d = any_time();
        vf_assume(d > 0);
        s.schedule(0, k_time_ms(d), Event::Data(uint32_t(1)));
        if (crowded) s.schedule(1, k_time_ms(d + (1l << 41)), Event::Data(uint32_t(2)));
        HAL::delay_ms(k_time_ms(d));
        s.loop();
        vf_check(a.n == 1 && a.value[0] == 1, "an event whose handler schedules again is delivered");
        if (how == 2) vf_check(b.n == (crowded ? 0 : 1), "a nested trigger is delivered at once if an event is left");
        else vf_check(b.n == 0, "a nested schedule is not delivered early");
        HAL::delay_ms(k_time_ms(5));
        s.loop();
        if (how == 1) {
            vf_check(b.n == (crowded ? 0 : 1), "a nested schedule is delivered when due if an event was left");
            if (!crowded) vf_check(b.value[0] == 77, "a nested event carries its own data");
        }
        HAL::delay_ms(k_time_ms(1l << 41));
        s.loop();
        vf_check(a.n == 1, "events are not repeated");
        vf_check(b.n == 1, "other events still arrive");
    }
    vf_leak_check();
}

// an event carries exactly the data it was made with, whatever the event object carried before
struct Keeper : EventHandler {
    using EventHandler::EventHandler;
    bool has = false;
    Event::Data last;
    int n = 0;
    void handle_event(const Event& e) override {
        ++n;
        last = e.data();
        has = last.has_value();
    }
};
struct Payload {
    int kind = vf_choose(5); // 0: none
    uint32_t u = vf_nondet_uint();
    uint64_t t = (uint64_t)vf_nondet_long();
    float f = vf_nondet_float();
    Event::Data data() const {
        switch (kind) {
        case 1: return Event::Data(u);
        case 2: return Event::Data(k_time_ms(t));
        case 3: return Event::Data(k_time_s(t));
        case 4: return Event::Data(f);
        default: return Event::Data();
        }
    }
    bool in(const Event::Data& d) const {
        if (d.has_value() != (kind != 0)) return false;
        switch (kind) {
        case 1: return d.unsigned_value() == u;
        case 2: return d.ms().raw() == t;
        case 3: return d.s().raw() == t;
        case 4: {
            const float g = d.value();
            return !(f < g) && !(g < f);
        }
        default: return true;
        }
    }
};
extern "C" void vp_events_data() {
    vf_option("split", 16384);
    EventSystem s(config());
    Keeper a(&s);
    s.attach(0, &a);
    for (int i = 0; i < 2; ++i) {
        const Payload p;
        switch (vf_choose(3)) {
        case 0:
            vf_op("trigger");
            p.kind == 0 && vf_nondet_bool() ? s.trigger(0) : s.trigger(0, p.data());
            break;
        case 1:
            vf_op("schedule");
            p.kind == 0 && vf_nondet_bool() ? s.schedule(0, k_time_ms(3)) : s.schedule(0, k_time_ms(3), p.data());
            HAL::delay_ms(k_time_ms(3));
            s.loop();
            break;
        case 2: {
            vf_op("make and schedule");
            auto e = s.event(0, k_time_ms(3), p.data());
            vf_check(e && p.in(e->data()), "an event carries the data it was made with");
            s.schedule(std::move(e));
            HAL::delay_ms(k_time_ms(3));
            s.loop();
            break;
        }
        }
        vf_check(a.n == i + 1, "the event is delivered");
        vf_check(a.has == (p.kind != 0), "an event made without data is delivered without, one made with data with it");
        vf_check(p.in(a.last), "the data that arrives is what was given");
    }
}
