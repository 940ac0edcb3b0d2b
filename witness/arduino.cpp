// The Arduino platform against a recording stand-in for the Arduino core (C32)
#include "vf.h"
#include "spine/platform/hal.hpp"
using spn::core::LogicalState;
using spn::core::TriggerType;

// what the hardware was told
static int modes, writes, analogues, attaches, detaches, resolutions, delays;
static int mode_pin, mode, write_pin, write_value, analogue_pin, analogue_value, resolution, read_pin;
static int attach_id, attach_mode, detach_id;
static void (*attach_callback)();
static int digital, sample, shift;
static unsigned long ms, us, delayed_ms, baud;
static unsigned delayed_us;
extern "C" bool vf_kept; // interrupts are off: the machine may be kept forever
bool vf_kept;

extern "C" {
void pinMode(uint8_t pin, uint8_t m) {
    if (modes < 3) ++modes;
    mode_pin = pin;
    mode = m;
}
void digitalWrite(uint8_t pin, uint8_t value) {
    if (writes < 3) ++writes;
    write_pin = pin;
    write_value = value;
}
int digitalRead(uint8_t pin) {
    read_pin = pin;
    return digital;
}
int analogRead(uint8_t pin) {
    read_pin = pin;
    return sample;
}
void analogWrite(uint8_t pin, int value) {
    if (analogues < 3) ++analogues;
    analogue_pin = pin;
    analogue_value = value;
}
void analogWriteResolution(int bits) {
    if (resolutions < 3) ++resolutions;
    resolution = bits;
}
unsigned long millis() { return ms; }
unsigned long micros() { return us; }
void delay(unsigned long x) {
    if (delays < 3) ++delays;
    delayed_ms = x;
}
void delayMicroseconds(unsigned x) {
    if (delays < 3) ++delays;
    delayed_us = x;
}
int digitalPinToInterrupt(uint8_t pin) { return pin - shift; }
void attachInterrupt(uint8_t id, void (*c)(), int m) {
    if (attaches < 3) ++attaches;
    attach_id = id;
    attach_callback = c;
    attach_mode = m;
}
void detachInterrupt(uint8_t id) {
    if (detaches < 3) ++detaches;
    detach_id = id;
}
void noInterrupts() {
    vf_kept = true;
    vf_reach("halting turns interrupts off");
}
}
HardwareSerial Serial;
static int waiting, next, room, flushed, begun;
static unsigned long timeout;
static const void* moved_buffer;
static size_t moved_length, moved;
static int written, write_calls, read_calls;
static bool accepts;
static const char* printed;
static char start[5]; // how a text printed to the console starts
static int prints, printlns, flushed_before;
size_t Print::print(const char* s) {
    ++prints;
    printed = s;
    for (int i = 0; i < 5; ++i) {
        start[i] = s[i];
        if (!s[i]) break;
    }
    return 0;
}
size_t Print::println(const char* s) {
    ++printlns;
    flushed_before = flushed;
    printed = s;
    return 0;
}
void Stream::setTimeout(unsigned long x) { timeout = x; }
size_t Stream::readBytes(uint8_t* buffer, size_t length) {
    ++read_calls;
    moved_buffer = buffer;
    moved_length = length;
    return moved;
}
void HardwareSerial::begin(unsigned long x) {
    ++begun;
    baud = x;
}
int HardwareSerial::available() { return waiting; }
int HardwareSerial::read() {
    ++read_calls;
    return next;
}
int HardwareSerial::availableForWrite() { return room; }
void HardwareSerial::flush() { ++flushed; }
size_t HardwareSerial::write(uint8_t x) {
    ++write_calls;
    written = x;
    return accepts ? 1 : 0;
}
size_t HardwareSerial::write(const uint8_t* buffer, size_t length) {
    ++write_calls;
    moved_buffer = buffer;
    moved_length = length;
    return moved;
}

extern "C" void vp_arduino_digital_output() {
    modes = writes = 0;
    const uint8_t pin = vf_nondet_u8();
    const bool low = vf_nondet_bool(), on = vf_nondet_bool();
    HAL::DigitalOutput o(HAL::DigitalOutput::Config{.pin = pin, .active_on_low = low});
    vf_check(modes == 0 && writes == 0, "an output leaves the pin alone until it is initialized");
    o.initialize(on);
    vf_check(modes == 1 && mode_pin == pin && mode == OUTPUT, "initializing makes the pin an output");
    vf_check(writes == 1 && write_pin == pin && write_value == (on != low), "initializing drives the pin as asked");
    const bool next = vf_nondet_bool();
    writes = 0;
    switch (vf_choose(2)) {
    case 0: o.set_state(next); break;
    default: o.set_state(next ? LogicalState::ON : LogicalState::OFF); break;
    }
    vf_check(writes == 1 && write_pin == pin && write_value == (next != low), "a pin is high when on, unless it is active on low");
    vf_check(o.state() == (next ? LogicalState::ON : LogicalState::OFF), "an output has the state it was set to");
    o.flip();
    vf_check(write_pin == pin && write_value == (next == low), "flipping drives the pin the other way");
    vf_check(modes == 1, "setting does not change what the pin is for");
}
extern "C" void vp_arduino_digital_input() {
    modes = 0;
    const uint8_t pin = vf_nondet_u8();
    const bool up = vf_nondet_bool();
    HAL::DigitalInput i(HAL::DigitalInput::Config{.pin = pin, .pull_up = up});
    i.initialize();
    vf_check(mode_pin == pin && mode == (up ? INPUT_PULLUP : INPUT), "an input is pulled up iff asked for");
    digital = vf_nondet_bool();
    vf_check(i.state() == (digital == 1) && read_pin == pin, "an input has the state of its pin");
}
template<int bits>
static void analogue() {
    vf_option("fp_exact", 1);
    analogues = resolutions = 0;
    const uint8_t pin = vf_nondet_u8();
    const bool low = vf_nondet_bool();
    const int top = (1 << bits) - 1;
    HAL::AnalogueOutput o(HAL::AnalogueOutput::Config{.pin = pin, .active_on_low = low, .resolution = bits});
    o.initialize();
    vf_check(resolutions == 1 && resolution == bits, "initializing sets the resolution");
    vf_check(analogues == 1 && analogue_pin == pin && analogue_value == (low ? top : 0), "initializing turns the output off");
    const float v = vf_nondet_float();
    vf_assume(v >= 0.0f && v <= 1.0f);
    o.set_value(v);
    vf_check(analogue_pin == pin, "a value is written to the pin");
    vf_check(analogue_value >= 0 && analogue_value <= top, "a value never overflows the resolution");
    const float level = low ? 1.0f - v : v;
    vf_check(analogue_value <= level * top + 1.0f && analogue_value >= level * top - 1.0f, "a value is scaled to the resolution");
    vf_check(o.value() == v, "an output has the value it was set to");
    o.set_value(1.0f);
    vf_check(analogue_value == (low ? 0 : top), "full scale is full scale");
    o.set_value(0.0f);
    vf_check(analogue_value == (low ? top : 0), "nothing is nothing");
}
extern "C" void vp_arduino_analogue_output_8() { analogue<8>(); }
extern "C" void vp_arduino_analogue_output_10() { analogue<10>(); }
extern "C" void vp_arduino_analogue_output_12() { analogue<12>(); }
extern "C" void vp_arduino_analogue_input() {
    vf_option("fp_exact", 1);
    modes = 0;
    const uint8_t pin = vf_nondet_u8();
    const bool up = vf_nondet_bool();
    HAL::AnalogueInput i(HAL::AnalogueInput::Config{.pin = pin, .pull_up = up});
    i.initialize();
    vf_check(modes == (up ? 1 : 0), "an input is pulled up iff asked for");
    if (up) vf_check(mode_pin == pin && mode == INPUT_PULLUP, "an input's pin is pulled up");
    sample = vf_nondet_int();
    vf_assume(sample >= 0 && sample <= 1023);
    const float x = i.read();
    vf_check(read_pin == pin, "an input reads its pin");
    vf_check(x >= 0.0f && x <= 1.0f, "a reading is between zero and one");
    vf_check(x * 1023 >= sample - 1 && x * 1023 <= sample + 1, "a reading is the share of full scale");
}
static void ring() {}
static void buzz() {}
extern "C" void vp_arduino_interrupt() {
    modes = attaches = detaches = 0;
    shift = vf_choose(2) ? 2 : 0;
    const uint8_t pin = vf_nondet_u8();
    vf_assume(pin >= 2);
    const bool up = vf_nondet_bool();
    TriggerType trigger = TriggerType::UNDEFINED;
    int bits = 0;
    switch (vf_choose(3)) {
    case 0: trigger = TriggerType::RISING_AND_FALLING_EDGE, bits = 1; break;
    case 1: trigger = TriggerType::FALLING_EDGE, bits = 2; break;
    default: trigger = TriggerType::RISING_EDGE, bits = 3; break;
    }
    HAL::Interrupt i(HAL::Interrupt::Config{.pin = pin, .mode = trigger, .pull_up = up, .callback = ring});
    i.initialize();
    vf_check(mode_pin == pin && mode == (up ? INPUT_PULLUP : INPUT), "an interrupt's pin is pulled up iff asked for");
    vf_check(attaches == 0, "initializing does not attach");
    i.attach_interrupt();
    vf_check(attaches == 1 && attach_id == pin - shift && attach_callback == ring && attach_mode == bits, "an interrupt is attached as configured");
    if (vf_choose(2)) {
        vf_op("attach another");
        i.attach_interrupt(buzz, TriggerType::FALLING_EDGE);
        vf_check(attach_id == pin - shift && attach_callback == buzz && attach_mode == 2, "an interrupt is attached as asked");
        i.detach_interrupt();
        vf_check(detaches == 1 && detach_id == pin - shift, "an interrupt is detached from where it was attached");
        detaches = 0;
        i.attach_interrupt();
        vf_check(attach_id == pin - shift && attach_callback == buzz && attach_mode == 2, "an interrupt is attached again as it was last");
    }
    vf_check(detaches == 0, "attaching does not detach");
    i.detach_interrupt();
    vf_check(detaches == 1 && detach_id == pin - shift, "an interrupt is detached from where it was attached");
}
extern "C" void vp_arduino_uart() {
    const unsigned limit = vf_nondet_u16();
    HAL::UART u(HAL::UART::Config{.stream = &Serial, .timeout = k_time_ms(limit)});
    u.initialize();
    vf_check(timeout == limit, "initializing sets the timeout");
    uint8_t buffer[8];
    waiting = vf_nondet_u8();
    room = vf_nondet_u8();
    vf_check(u.available() == (size_t)waiting, "as much is available as the port has");
    vf_check(u.available_for_write() == (size_t)room, "there is as much room as the port has");
    read_calls = write_calls = flushed = 0;
    const size_t n = vf_nondet_size();
    moved = vf_nondet_size();
    vf_assume(n <= 8 && moved <= n);
    switch (vf_choose(5)) {
    case 0:
        vf_op("read a block");
        vf_check(u.read(buffer, n) == moved, "reading a block tells how much was read");
        vf_check(read_calls == 1 && moved_buffer == buffer && moved_length == n, "a block is read from the port");
        break;
    case 1: {
        vf_op("read a byte");
        uint8_t x = 0;
        next = vf_nondet_u8();
        if (vf_choose(2)) next = -1;
        const bool got = u.read(x);
        vf_check(got == (next >= 0), "reading a byte succeeds iff there is one");
        if (got) vf_check(x == next, "a byte is read as it came");
        vf_check(read_calls == 1, "a byte is read once");
        break;
    }
    case 2:
        vf_op("write a block");
        vf_check(u.write(buffer, n) == moved, "writing a block tells how much was written");
        vf_check(write_calls == 1 && moved_buffer == buffer && moved_length == n, "a block is written to the port");
        break;
    case 3: {
        vf_op("write a byte");
        accepts = vf_nondet_bool();
        const uint8_t x = vf_nondet_u8();
        vf_check(u.write(x) == accepts, "writing a byte succeeds iff the port takes it");
        vf_check(write_calls == 1 && written == x, "a byte is written once, as it is");
        break;
    }
    default:
        vf_op("flush");
        u.flush();
        vf_check(flushed == 1 && read_calls == 0 && write_calls == 0, "flushing flushes the port");
        break;
    }
}
extern "C" void vp_arduino_time() {
    ms = vf_nondet_uint();
    us = vf_nondet_uint();
    vf_check(HAL::millis().raw() == (long)ms, "milliseconds are the core's");
    vf_check(HAL::micros().raw() == (long)us, "microseconds are the core's");
    delays = 0;
    const unsigned x = vf_nondet_uint();
    switch (vf_choose(5)) {
    case 0: HAL::delay(k_time_ms(x)); vf_check(delays == 1 && delayed_ms == x, "a delay takes the milliseconds asked for"); break;
    case 1: HAL::delay_ms(k_time_ms(x)); vf_check(delays == 1 && delayed_ms == x, "a delay in milliseconds takes as many"); break;
    case 2: HAL::delay_ms((uint32_t)x); vf_check(delays == 1 && delayed_ms == x, "a delay in bare milliseconds takes as many"); break;
    case 3: HAL::delay_us(k_time_us(x)); vf_check(delays == 1 && delayed_us == x, "a delay in microseconds takes as many"); break;
    default: HAL::delay_us((uint32_t)x); vf_check(delays == 1 && delayed_us == x, "a delay in bare microseconds takes as many"); break;
    }
}
extern "C" void vp_arduino_console() {
    begun = prints = printlns = flushed = 0;
    const unsigned rate = vf_nondet_uint();
    HAL::initialize(HAL::Config{.baudrate = rate});
    vf_check(begun == (rate > 0 ? 1 : 0), "the console is opened iff it has a rate");
    if (rate > 0) vf_check(baud == rate, "the console has the rate asked for");
    const char* text = "text";
    const auto passed = [&]() -> const char* { return text; };
    switch (vf_choose(6)) {
    case 4:
        HAL::printf("%s", text);
        vf_check(prints == 1 && printlns == 0, "printing with a format prints once");
        vf_check(printed && printed != text && start[0] == 't' && start[1] == 'e' && start[4] == 0, "what is printed is what the format makes of the values");
        break;
    case 2: HAL::print(passed()); vf_check(prints == 1 && printlns == 0 && printed == text, "printing a value prints once"); break;
    case 3: HAL::println(passed()); vf_check(printlns == 1 && prints == 0 && printed == text, "printing a value in a line prints one once"); break;
    case 0: HAL::print(text); vf_check(prints == 1 && printlns == 0 && printed == text, "printing prints once"); break;
    case 1: HAL::println(text); vf_check(printlns == 1 && prints == 0 && printed == text, "printing a line prints one once"); break;
    default: HAL::printflush(); vf_check(flushed == 1, "flushing flushes the console"); break;
    }
}
extern "C" void vp_arduino_log() {
    prints = printlns = flushed = 0;
    spn::logging::detail::print(spn::logging::LogLevel::ERR, "f.cpp", 1, "f", "%d", vf_nondet_int());
    vf_check(printlns == 1 && prints == 0, "a message is printed as one line");
    vf_check(flushed > flushed_before, "a message is on its way when logging it returns");
}
extern "C" void vp_arduino_halt() {
    vf_kept = false;
    HAL::halt("done");
    vf_unreachable("a halted machine goes no further");
}
