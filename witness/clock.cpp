// The mock platform: its clock and its stream.
#include "vf.h"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/platform/hal.hpp"
using namespace spn::io;

// ---- time: any sequence of delays adds up, in both units
extern "C" void vp_clock() {
    long total = 0; // microseconds
    vf_check(HAL::millis().raw() == 0 && HAL::micros().raw() == 0, "time starts at zero");
    while (vf_loop()) {
        vf_assume(total <= (1l << 50));
        const long x = vf_nondet_long();
        vf_assume(x >= 0 && x <= (1l << 30));
        const long us = HAL::micros().raw();
        switch (vf_choose(4)) {
        case 0:
            HAL::delay_us(k_time_us(x));
            total += x;
            break;
        case 1:
            HAL::delay_ms(k_time_ms(x));
            total += x * 1000;
            break;
        case 2:
            HAL::delay_us((uint32_t)x);
            total += x;
            break;
        case 3:
            HAL::delay(k_time_ms(x));
            total += x * 1000;
            break;
        }
        vf_check(HAL::micros().raw() == total, "the microseconds are the sum of all delays");
        vf_check(HAL::micros().raw() >= us, "time never runs backwards");
        const long ms = HAL::millis().raw();
        vf_check(ms * 1000 <= total && total < ms * 1000 + 1000, "the milliseconds are the whole milliseconds that passed");
        vf_check(HAL::millis().raw() == ms && HAL::micros().raw() == total, "looking at the time does not change it");
    }
}

// ---- the stream: what is injected is read, what is written is extracted
template<int IN, int OUT, int STEPS>
static void streams() {
    vf_option("split", 65536);
    vf_option("leaks", 1);
    {
        MockStream s(MockStream::Config{IN, OUT});
        uint8_t in[IN + 2], out[OUT + 2];
        int n_in = 0, n_out = 0;
        for (int step = 0; step < STEPS; ++step) {
            switch (vf_choose(5)) {
            case 0: {
                vf_op("inject");
                const int n = vf_choose(IN - n_in + 2); // also one more than there is room for
                std::vector<uint8_t> bytes;
                for (int i = 0; i < n; ++i) bytes.push_back(in[n_in + i] = vf_nondet_u8());
                s.inject_bytestream(bytes);
                n_in = n_in + n > IN ? IN : n_in + n;
                break;
            }
            case 1: {
                vf_op("extract");
                const auto got = s.extract_bytestream();
                vf_check(got.has_value() && got->size() == (size_t)n_out, "extracting yields as many bytes as were written");
                for (int i = 0; i < n_out; ++i) vf_check((*got)[i] == out[i], "extracting yields the bytes in the order they were written");
                n_out = 0;
                break;
            }
            case 2: {
                vf_op("read");
                uint8_t x = 0;
                const bool ok = s.read(x);
                vf_check(ok == (n_in > 0), "reading succeeds iff something was injected");
                if (ok) {
                    vf_check(x == in[0], "bytes are read in the order they were injected");
                    for (int i = 1; i < n_in; ++i) in[i - 1] = in[i];
                    --n_in;
                }
                break;
            }
            case 3: {
                vf_op("write");
                out[n_out] = vf_nondet_u8();
                vf_check(s.write(out[n_out]) == (n_out < OUT), "writing succeeds while there is room");
                if (n_out < OUT) ++n_out;
                break;
            }
            case 4: {
                vf_op("write many");
                const int n = vf_choose(OUT - n_out + 2), fit = n_out + n > OUT ? OUT - n_out : n;
                uint8_t bytes[OUT + 2];
                for (int i = 0; i < n; ++i) bytes[i] = out[n_out + i] = vf_nondet_u8();
                vf_check(s.write(bytes, n) == (size_t)fit, "writing many writes as far as there is room");
                n_out += fit;
                break;
            }
            }
            vf_check(s.available() == (size_t)n_in, "what was injected is available");
            vf_check(s.available_for_write() == (size_t)(OUT - n_out), "room for writing is what was not written");
        }
        uint8_t rest[IN + 1];
        const size_t got = s.read(rest, n_in);
        vf_check(got == (size_t)n_in, "reading many yields what is left");
        for (int i = 0; i < n_in; ++i) vf_check(rest[i] == in[i], "reading many keeps the order");
    }
    vf_leak_check();
}
extern "C" void vp_mockstream_1_2() { streams<1, 2, 4>(); }
extern "C" void vp_mockstream_2_1() { streams<2, 1, 4>(); }
extern "C" void vp_mockstream_2_2() { streams<2, 2, 3>(); }
