// Exceptions: the handler is told, then the machine halts.
#include "vf.h"
#include <memory>
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
using namespace spn::core;

static int step, handled, halted, warned, alive;
static const Exception* seen;
static int by;

// logging is another property (C16)
namespace spn::logging {
bool is_loggable(LogLevel) { return true; }
void detail::print(LogLevel level, const char*, int, const char*, const char*, ...) {
    if (level == LogLevel::WARN || level == LogLevel::ERR) ++warned;
}
} // namespace spn::logging
// what halting comes down to
namespace spn::platform {
template<>
void Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART>::halt(const char* msg) {
    vf_check(msg != nullptr, "halting tells why");
    halted = ++step;
}
} // namespace spn::platform

struct Handler : ExceptionHandler {
    int id;
    explicit Handler(int i) : id(i) { ++alive; }
    ~Handler() override { --alive; }
    void handle_exception(const Exception& e) override {
        vf_check(handled == 0, "a handler is told once");
        handled = ++step;
        seen = &e;
        by = id;
    }
};
struct Own : Exception {
    using Exception::Exception;
    const char* error_type() const override { return "Own"; }
};
extern "C" void vp_exceptions() {
    vf_option("leaks", 1);
    static const char message[] = "message";
    int current = 0; // 0: none
    vf_check(machine_exception_handler() == nullptr, "there is no handler at first");
    for (int i = 1; i <= 3; ++i) {
        if (vf_nondet_bool()) {
            const bool none = vf_nondet_bool();
            auto* before = machine_exception_handler();
            std::unique_ptr<ExceptionHandler> h;
            if (!none) h = std::make_unique<Handler>(i);
            auto* now = h.get();
            auto old = set_machine_exception_handler(std::move(h));
            vf_check(old.get() == before && machine_exception_handler() == now, "setting a handler yields the one before");
            current = none ? 0 : i;
            old.reset();
            vf_check(alive == (none ? 0 : 1), "a handler that was replaced belongs to whoever replaced it");
        }
    }
    auto thrown = [&](const Exception& e) {
        spn::throw_exception(e);
        vf_check(e.what() == message, "an exception carries its message");
        vf_check((handled != 0) == (current != 0), "the handler is told iff there is one");
        if (current) vf_check(by == current && seen == &e, "the current handler is told about the exception");
        vf_check(halted != 0 && halted == step && step == (current ? 2 : 1), "the machine halts, once, after the handler was told");
        vf_check(warned == 1, "an exception that halts the machine is logged");
        if (!vf_nondet_bool()) return;
        handled = halted = warned = step = 0; // a machine that is not real goes on, and throws it again
        spn::throw_exception(e);
        vf_check((handled != 0) == (current != 0), "the handler is told each time");
        vf_check(halted != 0 && halted == step && warned == 1, "the machine halts each time");
    };
    switch (vf_choose(4)) {
    case 0: thrown(spn::runtime_exception(message)); break;
    case 1: thrown(spn::logic_exception(message)); break;
    case 2: thrown(spn::assertion_exception(message)); break;
    default: thrown(Own(message));
    }
}
