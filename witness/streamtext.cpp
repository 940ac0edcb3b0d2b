// The text functions every stream has, over an implementation that records what it is told and answers anything; the status of a port.
#include "vf.h"
#include "spine/io/stream/stream.hpp"
#include "spine/platform/protocols/uart.hpp"
#include <string_view>
using namespace spn::io;

struct Recorder : Stream {
    int reads = 0, writes = 0, bytes = 0;
    const void* at = nullptr;
    size_t length = 0, answer = 0;
    uint8_t last = 0;
    bool ok = false;
    void initialize() override {}
    using Stream::read;
    using Stream::write;
    size_t read(uint8_t* buffer, size_t n) override {
        ++reads;
        at = buffer;
        length = n;
        return answer;
    }
    size_t write(const uint8_t* const buffer, size_t n) override {
        ++writes;
        at = buffer;
        length = n;
        return answer;
    }
    bool write(const uint8_t value) override {
        ++bytes;
        last = value;
        return ok;
    }
};
extern "C" void vp_streamtext_forward() {
    Recorder r;
    Stream& s = r;
    r.answer = vf_nondet_size();
    r.ok = vf_nondet_bool();
    char text[8];
    const size_t n = vf_nondet_size();
    switch (vf_choose(4)) {
    case 0:
        vf_op("read text");
        vf_check(s.read(text, n) == r.answer, "reading text yields what reading bytes yields");
        vf_check(r.reads == 1 && r.writes == 0 && r.bytes == 0 && r.at == text && r.length == n, "reading text reads that many bytes to there, once");
        break;
    case 1:
        vf_op("write text");
        vf_check(s.write((const char*)text, n) == r.answer, "writing text yields what writing bytes yields");
        vf_check(r.writes == 1 && r.reads == 0 && r.bytes == 0 && r.at == text && r.length == n, "writing text writes that many bytes from there, once");
        break;
    case 2:
        vf_op("write view");
        vf_check(s.write(std::string_view(text, n)) == r.answer, "writing a view yields what writing bytes yields");
        vf_check(r.writes == 1 && r.reads == 0 && r.bytes == 0 && r.at == text && r.length == n, "writing a view writes its bytes, once");
        break;
    default: {
        vf_op("write character");
        const char c = vf_nondet_char();
        vf_check(s.write(c) == r.ok, "writing a character yields what writing a byte yields");
        vf_check(r.bytes == 1 && r.writes == 0 && r.reads == 0 && r.last == (uint8_t)c, "writing a character writes its byte, once");
    }
    }
}

struct Port : spn::platform::UART<Port> {
    void initialize() override {}
    void change(Status s) { set_status(s); }
};
extern "C" void vp_streamtext_status() {
    Port p;
    vf_check(p.status() == Port::Status::OK, "a port is fine until something happens");
    while (vf_loop()) {
        const auto s = (Port::Status)vf_choose(5);
        p.change(s);
        vf_check(p.status() == s && p.status() == s, "a port has the status it was given last");
    }
}
