// Misuse of the library in a debug build: every one of these is met by a failing assertion.
#include "vf.h"
#include "spine/controller/pid.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/structure/pool.hpp"
#include "spine/structure/result.hpp"
#include "spine/structure/ringbuffer.hpp"
#include "spine/structure/stack.hpp"
#include "spine/structure/time/schedule.hpp"
#include "spine/structure/time/timers.hpp"
#include "spine/structure/vector.hpp"
#include <memory>
#include <new>
using namespace spn::structure;

namespace {
bool expected = false;
struct Misuse : spn::core::ExceptionHandler {
    void handle_exception(const spn::core::Exception& e) override {
        const bool assertion = dynamic_cast<const spn::assertion_exception*>(&e) != nullptr;
        vf_check(assertion && expected, "misuse is met by an assertion, and nothing else is");
        vf_reach("an assertion fails");
        vf_assume(false);
    }
    static void* operator new(size_t) {
        static char room[64];
        return room;
    }
    static void operator delete(void*) {}
};
struct Install {
    Install() { spn::core::set_machine_exception_handler(std::make_unique<Misuse>()); }
} install;
// what follows is misuse, and is not survived
#define MISUSE(what, ...)                                                                                              \
    do {                                                                                                               \
        expected = true;                                                                                               \
        vf_op(what);                                                                                                   \
        __VA_ARGS__;                                                                                                   \
        vf_unreachable(what " trips an assertion");                                                                    \
        vf_assume(false);                                                                                              \
    } while (0)
} // namespace


// any legal history of a vector, then something there is no room or no element for
extern "C" void vp_debug_vector() {
    const size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    Vector<int> v(cap);
    while (vf_loop()) {
        const int x = vf_nondet_int();
        switch (vf_choose(4)) {
        case 0: if (!v.full()) v.push_back(x); break;
        case 1: if (!v.full()) v.push_front(x); break;
        case 2: if (!v.empty()) { [[maybe_unused]] int y = v.pop_back(); } break;
        case 3: if (!v.empty()) { [[maybe_unused]] int y = v.pop_front(); } break;
        }
    }
    const int x = vf_nondet_int();
    switch (vf_choose(11)) {
    case 0: vf_assume(v.full()); MISUSE("push_back on a full vector", v.push_back(x));
    case 1: vf_assume(v.full()); MISUSE("emplace_back on a full vector", v.emplace_back(int(x)));
    case 2: vf_assume(v.full()); MISUSE("push_front on a full vector", v.push_front(x));
    case 3: vf_assume(v.full()); MISUSE("insert into a full vector", v.insert(vf_nondet_size(), x));
    case 4: vf_assume(v.empty()); MISUSE("pop_back on an empty vector", [[maybe_unused]] int y = v.pop_back());
    case 5: vf_assume(v.empty()); MISUSE("pop_front on an empty vector", [[maybe_unused]] int y = v.pop_front());
    case 6: vf_assume(v.empty()); MISUSE("peek_back on an empty vector", [[maybe_unused]] int& y = v.peek_back());
    case 7: vf_assume(v.empty()); MISUSE("peek_front on an empty vector", [[maybe_unused]] int& y = v.peek_front());
    case 8: {
        const size_t i = vf_nondet_size();
        vf_assume(i >= v.size() && i <= (1ul << 33));
        MISUSE("an index of no element of a vector", [[maybe_unused]] int& y = v[i]);
    }
    case 9: {
        const size_t i = vf_nondet_size();
        vf_assume(i >= v.size() && i <= (1ul << 33));
        MISUSE("an index of no element of a constant vector", [[maybe_unused]] const int& y = static_cast<const Vector<int>&>(v)[i]);
    }
    case 10: {
        const size_t i = vf_nondet_size();
        vf_assume(i > v.size() && i <= (1ul << 33) && v.size() > 0);
        MISUSE("removing what is past the end of a vector", [[maybe_unused]] int y = v.remove(i));
    }
    }
}

extern "C" void vp_debug_array() {
    MISUSE("a ring buffer without room", RingBuffer<int> r(0));
}

extern "C" void vp_debug_pool() {
    Pool<int> p(2);
    p.populate(1);
    switch (vf_choose(5)) {
    case 0: p.populate(2); MISUSE("moving one too many into a pool", p.populate(3));
    case 1: p.populate(2); MISUSE("handing one too many to a pool", p.populate(new int(3)));
    case 2: p.populate(2); MISUSE("sharing one too many with a pool", p.populate(std::make_shared<int>(3)));
    case 3: MISUSE("acquiring from a pool that is not fully populated", p.acquire());
    case 4: p.depopulate(); MISUSE("depopulating an empty pool", p.depopulate());
    }
}

extern "C" void vp_debug_result() {
    struct Error { int e; };
    struct Half { int h; };
    using R = Result<int, Error, Half>;
    R ok(5), failed(Error{1}), half = R::intermediary(Half{2});
    switch (vf_choose(8)) {
    case 0: MISUSE("the value of a failure", failed.value());
    case 1: MISUSE("the value of an intermediary result", half.value());
    case 2: MISUSE("the error of a success", ok.error_value());
    case 3: MISUSE("the error of an intermediary result", half.error_value());
    case 4: MISUSE("the intermediary value of a success", ok.intermediary_value());
    case 5: MISUSE("the intermediary value of a failure", failed.intermediary_value());
    case 6: MISUSE("unwrapping a failure", failed.unwrap());
    case 7: MISUSE("unwrapping the error of a success", ok.unwrap_error_value());
    }
}

extern "C" void vp_debug_events() {
    using namespace spn::core;
    struct Handler : EventHandler {
        using EventHandler::EventHandler;
        void handle_event(const Event&) override {}
    };
    EventSystem s(EventSystem::Config{.events_count = 2, .events_cap = 1, .handler_cap = 1, .delay_between_ticks = false});
    Handler h(&s);
    s.attach(0, &h);
    switch (vf_choose(10)) {
    case 0: MISUSE("one handler too many for an event", s.attach(0, &h));
    case 1: MISUSE("attaching to an event that was not configured", s.attach(2, &h));
    case 2: MISUSE("attaching nobody", s.attach(1, (Handler*)nullptr));
    case 3: MISUSE("triggering an event nobody is attached to", s.trigger(1));
    case 4: MISUSE("triggering no event", s.trigger(std::shared_ptr<Event>()));
    case 5: s.schedule(0, k_time_ms(1)); MISUSE("scheduling more events than there are", s.schedule(0, k_time_ms(1)));
    case 6: MISUSE("attaching a handler to a second system", h.attach_event_system(&s));
    case 7: { Event::Data d(1.0f); MISUSE("reading a float as a number", d.unsigned_value()); }
    case 8: { Event::Data d(k_time_ms(1)); MISUSE("reading milliseconds as seconds", d.s()); }
    case 9: { Event::Data d; MISUSE("reading the value of no data", d.value()); }
    }
}

extern "C" void vp_debug_pipeline() {
    using namespace spn::eventsystem;
    Pipeline p(1);
    const long t = vf_nondet_long();
    vf_assume(t > 1 && t <= (1l << 40));
    switch (vf_choose(4)) {
    case 0: MISUSE("pushing a future that is not in the future", p.push(std::make_shared<Future>(k_time_ms(0))));
    case 1: MISUSE("expiring nothing", p.expire());
    case 2: p.push(std::make_shared<Future>(k_time_ms(t))); HAL::delay_ms(k_time_ms(t - 1)); MISUSE("expiring what is not due", p.expire());
    case 3: p.push(std::make_shared<Future>(k_time_ms(t))); MISUSE("pushing into a full pipeline", p.push(std::make_shared<Future>(k_time_ms(t))));
    }
}

namespace {
struct Line : spn::io::Stream {
    size_t n = 2;
    void initialize() override {}
    void flush() override {}
    using Stream::read;
    using Stream::write;
    size_t available() const override { return n; }
    bool read(uint8_t& value) override { value = --n ? 'x' : '\n'; return true; }
    size_t available_for_write() const override { return 0; }
    bool write(uint8_t) override { return false; }
};
} // namespace
extern "C" void vp_debug_transaction() {
    using namespace spn::io;
    BufferedStream s(std::make_shared<Line>(), BufferedStream::Config{4, 2, "\n"});
    s.pull_in_data();
    auto o = s.new_transaction();
    vf_assume(o.has_value());
    vf_reach("a transaction is started");
    Transaction& t = *o;
    switch (vf_choose(5)) {
    case 0: t.outgoing('a'); t.outgoing('b'); MISUSE("a byte for which a transaction has no room", t.outgoing('c'));
    case 1: MISUSE("text for which a transaction has no room", t.outgoing("abc"));
    case 2: t.commit(); MISUSE("adding to a finished transaction", t.outgoing('a'));
    case 3: t.abort(); MISUSE("committing an aborted transaction", t.commit());
    case 4: t.commit(); MISUSE("reading the line of a finished transaction", t.incoming());
    }
}

extern "C" void vp_debug_time() {
    using namespace spn::structure::time;
    const long t = vf_nondet_long(), d = vf_nondet_long();
    vf_assume(t >= 0 && t <= (1l << 40) && d >= 0 && d <= t);
    HAL::delay_ms(k_time_ms(t));
    const long half = 12 * 3600, more = vf_nondet_long();
    vf_assume(more > half && more <= 2 * half);
    switch (vf_choose(3)) {
    case 0: MISUSE("an alarm in the past", AlarmTimer a(k_time_ms(d), true));
    case 1: MISUSE("a block that takes no time", Schedule s({Schedule::Block{k_time_s(d), k_time_s(0), 1.0f}}));
    case 2: MISUSE("blocks longer than a day together", Schedule s({Schedule::Block{k_time_s(0), k_time_s(half), 1.0f}, Schedule::Block{k_time_s(half), k_time_s(more), 1.0f}}));
    }
}

extern "C" void vp_debug_filter() {
    const float x = vf_nondet_float();
    vf_assume(x < 0.0f || x > 1.0f);
    auto f = spn::filter::Invert<>::NormalizedInverter(0.0f, 1.0f);
    MISUSE("inverting what is outside of the range", f->value(x));
}
