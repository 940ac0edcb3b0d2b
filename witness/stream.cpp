// Buffered streams over an arbitrary device: every call on the device may refuse, fail, deliver or accept.
#include "vf.h"
#include "spine/io/stream/buffered_stream.hpp"
using namespace spn::io;

// a device with arbitrary behaviour that records what passed
struct AnyDevice : Stream {
    static constexpr int MAX = 8;
    int in_limit = 0, out_limit = 0; // how often the device may still report work (bounds the analysis)
    uint8_t delivered[MAX], accepted[MAX];
    mutable int n_delivered = 0, n_accepted = 0;
    mutable size_t ready = 0, room = 0; // how much the device said it can deliver and accept
    mutable bool dry = false, failed = false, blocked = false, refused = false;
    bool reliable = false, any_byte = true;

    void initialize() override {}
    void flush() override {}
    using Stream::read;
    using Stream::write;
    size_t available() const override {
        const bool some = n_delivered < in_limit && vf_nondet_bool();
        dry = !some;
        ready = 0;
        if (!some) return 0;
        ready = vf_nondet_size();
        vf_assume(ready > 0);
        return ready;
    }
    bool read(uint8_t& value) override {
        vf_check(ready > 0, "only bytes that the device has are read");
        --ready;
        if (vf_nondet_bool()) {
            failed = true;
            return false;
        }
        value = any_byte ? vf_nondet_u8() : vf_nondet_bool() ? '\n' : 'a' + n_delivered;
        delivered[n_delivered++] = value;
        return true;
    }
    size_t available_for_write() const override {
        const bool some = n_accepted < out_limit && (reliable || vf_nondet_bool());
        blocked = !some;
        room = some ? 1 : 0;
        return room;
    }
    bool write(const uint8_t value) override {
        vf_check(room > 0, "nothing is written that the device has no room for");
        --room;
        if (!reliable && vf_nondet_bool()) {
            refused = true;
            return false;
        }
        accepted[n_accepted++] = value;
        return true;
    }
};

// ---- output: whatever the device refuses, no byte is lost, duplicated or reordered
template<int CAP>
static void output() {
    vf_option("split", 4096);
    auto dev = std::make_shared<AnyDevice>();
    AnyDevice& d = *dev;
    BufferedStream s(dev, BufferedStream::Config{1, CAP, "\n"});
    // move the start of the buffer
    const int shift = vf_choose(CAP);
    for (int i = 0; i < shift; ++i) {
        s.buffered_write('x');
        s.output_buffer_drop_first(1);
    }
    char c[CAP + 2];
    int n = 0;
    const int writes = vf_choose(CAP + 2);
    for (int i = 0; i < writes; ++i) {
        const char x = vf_nondet_char();
        const size_t ok = s.buffered_write((uint8_t)x);
        vf_check(ok == (n < CAP ? 1u : 0u), "writing succeeds iff there is room");
        if (ok) c[n++] = x;
    }
    vf_check(s.output_buffer_space_used() == (size_t)n && s.output_buffer_space_left() == (size_t)(CAP - n), "output room is accounted for");
    d.out_limit = CAP + 2;
    const size_t sent = s.push_out_data();
    vf_check(sent == (size_t)d.n_accepted, "flushing reports the number of bytes the device accepted");
    vf_check(s.output_buffer_space_used() == n - sent, "bytes the device did not accept stay in the buffer");
    vf_check(sent == (size_t)n || d.blocked || d.refused, "flushing goes on until the device blocks or refuses");
    vf_check(sent <= (size_t)n, "no more bytes leave than were written");
    d.reliable = true;
    const size_t rest = s.push_out_data();
    vf_check(rest == n - sent && s.output_buffer_space_used() == 0, "a later flush sends the rest");
    vf_check(d.n_accepted == n, "every byte is sent exactly once");
    for (int i = 0; i < n; ++i) vf_check(i < d.n_accepted && d.accepted[i] == (uint8_t)c[i], "bytes are sent in the order they were written");
}
extern "C" void vp_stream_output_1() { output<1>(); }
extern "C" void vp_stream_output_2() { output<2>(); }
extern "C" void vp_stream_output_3() { output<3>(); }

// ---- input
static bool delim(uint8_t c) { return c == '\n'; }

template<int CAP, int LIMIT, bool ANY>
static void input() {
    vf_option("split", 8192);
    auto dev = std::make_shared<AnyDevice>();
    AnyDevice& d = *dev;
    BufferedStream s(dev, BufferedStream::Config{CAP, 1, "\n"});
    d.in_limit = LIMIT;
    d.any_byte = ANY;
    size_t got = s.pull_in_data();
    if (vf_nondet_bool()) { // a second round, with whatever the first left behind
        vf_op("second pull");
        d.dry = d.failed = false;
        got += s.pull_in_data();
    }
    const int m = d.n_delivered;
    vf_check(got == (size_t)m, "pulling reports the number of bytes the device delivered");
    const int held = m < CAP ? m : CAP;
    vf_check(s.input_buffer_space_used() == (size_t)held && s.input_buffer_space_left() == (size_t)(CAP - held), "input is accounted for");
    bool line = false; // is there a complete line in the newest bytes
    int len = 0;
    for (int i = m - held; i < m; ++i)
        if (!line) {
            ++len;
            if (delim(d.delivered[i])) line = true;
        }
    vf_check(s.has_line() == line, "a line is available iff a complete one was received");
    vf_check(d.dry || d.failed || (held == CAP && line), "pulling goes on until the device has nothing, fails, or the buffer is full with a line");
    for (int i = CAP; i < m; ++i)
        for (int k = i - CAP; k < i; ++k) vf_check(!delim(d.delivered[k]), "a complete line is never overwritten by later input");
    if (line) {
        const auto v = s.get_next_line_view();
        vf_check(v.has_value() && v->size() == (size_t)(len - 1), "the line has the length that was received");
        if (v)
            for (int i = 0; i < len - 1; ++i) vf_check((uint8_t)(*v)[i] == d.delivered[m - held + i], "the line holds the bytes in the order they were received");
        vf_check(s.drop_next_line() && s.input_buffer_space_used() == (size_t)(held - len), "dropping the line leaves the bytes behind it");
    }
}
extern "C" void vp_stream_input_1() { input<1, 3, true>(); }
extern "C" void vp_stream_input_2() { input<2, 3, true>(); }
extern "C" void vp_stream_input_3() { input<3, 5, false>(); }
extern "C" void vp_stream_input_2_long() { input<2, 5, false>(); }

// ---- writes that ask for room, and blocks: what fits is taken in order; with rollover the oldest bytes give way
template<int CAP>
static void rolling() {
    vf_option("split", 8192);
    auto dev = std::make_shared<AnyDevice>();
    AnyDevice& d = *dev;
    BufferedStream s(dev, BufferedStream::Config{1, CAP, "\n"});
    const int shift = vf_choose(CAP);
    for (int i = 0; i < shift; ++i) {
        s.buffered_write('x');
        s.output_buffer_drop_first(1);
    }
    char c[3 * CAP + 3];
    int first = 0, n = 0; // c[first, n) is what must be held
    for (int w = 0; w < 2; ++w) {
        char block[CAP + 1];
        for (int i = 0; i <= CAP; ++i) block[i] = vf_nondet_char();
        const bool rollover = vf_nondet_bool();
        const int room = CAP - (n - first);
        size_t ok, want;
        int len = 1;
        switch (vf_choose(3)) {
        case 0:
            vf_op("write a byte");
            ok = s.buffered_write((uint8_t)block[0], rollover);
            want = rollover || room > 0 ? 1 : 0;
            break;
        case 1:
            vf_op("write a block");
            len = vf_choose(CAP + 2);
            ok = s.buffered_write(block, len, rollover);
            want = rollover || len <= room ? len : room;
            break;
        default:
            vf_op("write a view");
            len = vf_choose(CAP + 2);
            ok = s.buffered_write(std::string_view(block, len));
            want = len <= room ? len : room;
            break;
        }
        vf_check(ok == want, "a write takes what fits, everything if it may roll over");
        for (size_t i = 0; i < want; ++i) c[n++] = block[i];
        if (n - first > CAP) first = n - CAP;
        vf_check(s.output_buffer_space_used() == (size_t)(n - first), "what is held is accounted for");
    }
    d.out_limit = CAP + 1;
    d.reliable = true;
    vf_check(s.push_out_data() == (size_t)(n - first), "everything held is sent");
    for (int i = first; i < n; ++i) vf_check(i - first < d.n_accepted && d.accepted[i - first] == (uint8_t)c[i], "what is held is sent in the order it was written");
}
extern "C" void vp_stream_rolling_1() { rolling<1>(); }
extern "C" void vp_stream_rolling_2() { rolling<2>(); }
extern "C" void vp_stream_rolling_3() { rolling<3>(); }
