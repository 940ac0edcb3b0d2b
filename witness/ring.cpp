// Most general client of the ring buffer: any capacity, any sequence of operations, any arguments.
#include "vf.h"
#include "spine/structure/ringbuffer.hpp"
using namespace spn::structure;

static size_t any_capacity() {
    size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    return cap;
}
static size_t min_(size_t a, size_t b) { return a < b ? a : b; }

// one arbitrary operation
template<typename T>
static void any_op(RingBuffer<T>& rb) {
    switch (vf_choose(6)) {
    case 0: rb.push((T)vf_nondet_int()); break;
    case 1: rb.push((T)vf_nondet_int(), true); break;
    case 2: {
        T v;
        rb.pop(v);
        break;
    }
    case 3: rb.pop(); break;
    case 4: rb.drop_last(vf_nondet_size()); break;
    case 5: rb.drop_first(vf_nondet_size()); break;
    }
}

template<typename T>
static void accounting() {
    const size_t cap = any_capacity();
    RingBuffer<T> rb(cap);
    vf_check(rb.used_space() == 0 && rb.empty() && !rb.full(), "a new buffer is empty");
    while (vf_loop()) {
        const size_t u0 = rb.used_space(), o0 = rb.overrun_space();
        vf_check(rb.capacity() == cap, "capacity is constant");
        vf_check(u0 <= cap && u0 + rb.free_space() == cap, "used plus free equals capacity");
        vf_check(rb.empty() == (u0 == 0), "empty iff nothing is used");
        vf_check(rb.full() == (u0 == cap), "full iff everything is used");
        switch (vf_choose(8)) {
        case 0: {
            vf_op("push");
            const bool ok = rb.push((T)vf_nondet_int());
            vf_check(ok == (u0 < cap), "push succeeds iff there is room");
            vf_check(rb.used_space() == u0 + (ok ? 1 : 0), "push adds one element or none");
            vf_check(rb.overrun_space() == o0, "push without rollover never overruns");
            break;
        }
        case 1: {
            vf_op("push with rollover");
            const bool ok = rb.push((T)vf_nondet_int(), true);
            vf_check(ok, "push with rollover always succeeds");
            vf_check(rb.used_space() == min_(cap, u0 + 1), "push with rollover occupies one more element up to capacity");
            vf_check(rb.overrun_space() == o0 + (u0 == cap ? 1 : 0), "push with rollover counts each lost element");
            break;
        }
        case 2: {
            vf_op("pop into");
            T v;
            const bool ok = rb.pop(v);
            vf_check(ok == (u0 > 0), "pop succeeds iff not empty");
            vf_check(rb.used_space() == u0 - (ok ? 1 : 0), "pop removes one element or none");
            vf_check(rb.overrun_space() == (ok ? 0 : o0), "taking an element begins a new count of overruns");
            break;
        }
        case 3: {
            vf_op("pop");
            const bool ok = rb.pop();
            vf_check(ok == (u0 > 0), "discarding pop succeeds iff not empty");
            vf_check(rb.used_space() == u0 - (ok ? 1 : 0), "discarding pop removes one element or none");
            vf_check(rb.overrun_space() == (ok ? 0 : o0), "taking an element begins a new count of overruns");
            break;
        }
        case 4: {
            vf_op("drop_last");
            const size_t n = vf_nondet_size();
            const size_t d = rb.drop_last(n);
            if (n > 0) vf_check(d == min_(n, u0), "drop_last reports what it dropped");
            vf_check(d <= u0 && rb.used_space() == u0 - d, "drop_last removes exactly what it reports");
            vf_check(rb.overrun_space() <= o0, "drop_last never raises the overrun count");
            break;
        }
        case 5: {
            vf_op("drop_first");
            const size_t n = vf_nondet_size();
            const size_t d = rb.drop_first(n);
            if (n > 0) vf_check(d == min_(n, u0), "drop_first reports what it dropped");
            vf_check(d <= u0 && rb.used_space() == u0 - d, "drop_first removes exactly what it reports");
            vf_check(rb.overrun_space() <= o0, "drop_first never raises the overrun count");
            break;
        }
        case 6: {
            vf_op("clear");
            rb.clear();
            vf_check(rb.used_space() == 0, "clear empties");
            break;
        }
        case 7: {
            vf_op("peek");
            const size_t k = vf_nondet_size();
            T v;
            T* p = nullptr;
            vf_check(rb.peek_at(v, k) == (k < u0), "peek succeeds iff the index is occupied");
            vf_check(rb.peek_at(&p, k) == (k < u0), "pointer peek succeeds iff the index is occupied");
            vf_check(!rb.peek_at((T**)nullptr, k), "pointer peek refuses a null destination");
            vf_check(rb.used_space() == u0, "peek removes nothing");
            break;
        }
        }
    }
}
extern "C" void vp_ring_accounting_int() { accounting<int>(); }
extern "C" void vp_ring_accounting_byte() { accounting<unsigned char>(); }

// the block operations, from any reachable state
extern "C" void vp_ring_blocks_push() {
    const size_t cap = any_capacity();
    RingBuffer<int> rb(cap);
    while (vf_loop()) any_op(rb);
    const size_t u0 = rb.used_space(), o0 = rb.overrun_space();
    const size_t len = vf_nondet_size();
    vf_assume(len <= (1ul << 32));
    vf_term(cap - u0);
    const int* buf = (const int*)vf_unknown_bytes(len * sizeof(int));
    if (vf_nondet_bool()) {
        const size_t w = rb.push(buf, len);
        vf_check(w == min_(len, cap - u0), "block push writes what fits");
        vf_check(rb.used_space() == u0 + w, "block push occupies what it reports");
        vf_check(rb.overrun_space() == o0, "block push without rollover never overruns");
    } else {
        const size_t w = rb.push(buf, len, true);
        vf_check(w == len, "block push with rollover writes everything");
        vf_check(rb.used_space() == min_(cap, u0 + len), "block push with rollover occupies up to capacity");
    }
    vf_check(rb.used_space() + rb.free_space() == cap, "used plus free equals capacity after a block push");
}
extern "C" void vp_ring_blocks_pop() {
    const size_t cap = any_capacity();
    RingBuffer<int> rb(cap);
    while (vf_loop()) any_op(rb);
    const size_t u0 = rb.used_space(), o0 = rb.overrun_space();
    const size_t len = vf_nondet_size();
    vf_assume(len <= (1ul << 32));
    vf_term(u0);
    int* buf = (int*)vf_unknown_bytes(len * sizeof(int));
    const size_t r = rb.pop(buf, len);
    vf_check(r == (len <= u0 ? len : 0), "block pop is all or nothing");
    vf_check(rb.used_space() == u0 - r, "block pop removes what it reports");
    vf_check(rb.overrun_space() == (r > 0 ? 0 : o0), "taking a block begins a new count of overruns");
}
// how much a block overruns, for each few elements, lost ones and lengths
extern "C" void vp_ring_blocks_lost() {
    vf_option("split", 65536);
    vf_option("unroll", 64);
    const size_t cap = 1 + vf_choose(4);
    RingBuffer<int> rb(cap);
    const size_t skipped = vf_choose(cap);
    for (size_t i = 0; i < skipped; ++i) {
        rb.push(0);
        rb.pop();
    }
    const size_t before = vf_choose(cap + 3);
    for (size_t i = 0; i < before; ++i) rb.push(1, true);
    const size_t lost = before > cap ? before - cap : 0, used = before - lost;
    vf_check(rb.overrun_space() == lost, "push with rollover counts each lost element");
    const int block[9] = {};
    const size_t n = vf_choose(2 * cap + 2);
    vf_check(rb.push(block, n, true) == n, "block push with rollover writes everything");
    vf_check(rb.used_space() == min_(cap, used + n), "block push with rollover occupies up to capacity");
    vf_check(rb.overrun_space() == lost + (used + n > cap ? used + n - cap : 0), "block push with rollover counts each lost element");
}
