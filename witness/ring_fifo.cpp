// Contents of the ring buffer as a queue, observed at an arbitrary index before and after every operation.
#include "vf.h"
#include "spine/structure/ringbuffer.hpp"
using namespace spn::structure;

template<typename T>
static void fifo() {
    size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    RingBuffer<T> rb(cap);
    while (vf_loop()) {
        const size_t u0 = rb.used_space();
        const size_t k = vf_nondet_size();
        T old = 0, now = 0;
        const bool have = rb.peek_at(old, k);
        switch (vf_choose(7)) {
        case 0: {
            vf_op("push");
            const T x = (T)vf_nondet_int();
            if (rb.push(x)) vf_check(rb.peek_at(now, u0) && now == x, "a pushed element is the last");
            if (have) vf_check(rb.peek_at(now, k) && now == old, "push keeps the others in place");
            break;
        }
        case 1: {
            vf_op("push with rollover");
            const T x = (T)vf_nondet_int();
            const bool f0 = u0 == cap;
            rb.push(x, true);
            vf_check(rb.peek_at(now, f0 ? u0 - 1 : u0) && now == x, "an element pushed with rollover is the last");
            if (have && f0 && k > 0) vf_check(rb.peek_at(now, k - 1) && now == old, "rollover loses only the oldest");
            if (have && !f0) vf_check(rb.peek_at(now, k) && now == old, "rollover loses nothing while there is room");
            break;
        }
        case 2: {
            vf_op("pop");
            T v;
            const bool ok = rb.pop(v);
            if (ok && have && k == 0) vf_check(v == old, "pop yields the oldest");
            if (ok && have && k > 0) vf_check(rb.peek_at(now, k - 1) && now == old, "pop keeps the rest in order");
            break;
        }
        case 3: {
            vf_op("drop_last");
            const size_t d = rb.drop_last(vf_nondet_size());
            if (have && k < u0 - d) vf_check(rb.peek_at(now, k) && now == old, "drop_last removes only the newest");
            break;
        }
        case 4: {
            vf_op("drop_first");
            const size_t d = rb.drop_first(vf_nondet_size());
            if (have && k >= d) vf_check(rb.peek_at(now, k - d) && now == old, "drop_first removes only the oldest");
            break;
        }
        case 5: {
            vf_op("pointer peek");
            T* p = nullptr;
            if (rb.peek_at(&p, k) && have) vf_check(*p == old, "both ways to peek agree");
            break;
        }
        case 6: {
            vf_op("discarding pop");
            const bool ok = rb.pop();
            if (ok && have && k > 0) vf_check(rb.peek_at(now, k - 1) && now == old, "discarding pop keeps the rest in order");
            break;
        }
        }
    }
}
extern "C" void vp_ring_fifo_int() { fifo<int>(); }
extern "C" void vp_ring_fifo_char() { fifo<char>(); }

// Blocks of elements: any few elements lying anywhere in the storage, then a block more or less.
template<typename T>
struct Filled {
    Filled(size_t cap) : ring(cap) {
        const size_t skipped = vf_choose(cap);
        for (size_t i = 0; i < skipped; ++i) {
            ring.push(T());
            ring.pop();
        }
        used = vf_choose(cap + 1);
        for (size_t i = 0; i < used; ++i) {
            model[i] = (T)vf_nondet_int();
            ring.push(model[i]);
        }
    }
    void check() {
        vf_check(ring.used_space() == used, "a block changes the size by its length");
        for (size_t i = 0; i < used; ++i) {
            T v;
            vf_check(ring.peek_at(v, i) && v == model[i], "elements stay in the order they were pushed");
        }
        for (size_t i = 0; i < used; ++i) {
            T v;
            vf_check(ring.pop(v) && v == model[i], "elements leave in the order they were pushed");
        }
        vf_check(ring.empty(), "nothing else is left");
    }
    RingBuffer<T> ring;
    T model[16];
    size_t used;
};
template<typename T>
static void block_push(size_t cap) {
    vf_option("split", 65536);
    vf_option("unroll", 64);
    Filled<T> f(cap);
    T block[8];
    const size_t n = vf_choose(2 * cap + 1);
    for (size_t i = 0; i < n; ++i) block[i] = (T)vf_nondet_int();
    const bool rollover = vf_nondet_bool();
    const size_t took = f.ring.push(block, n, rollover);
    vf_check(took == (rollover || n < cap - f.used ? n : cap - f.used), "a block push takes what fits, or all of it");
    for (size_t i = 0; i < took; ++i) f.model[f.used++] = block[i];
    if (f.used > cap) {
        const size_t lost = f.used - cap;
        for (size_t i = 0; i < cap; ++i) f.model[i] = f.model[i + lost];
        f.used = cap;
    }
    f.check();
}
extern "C" void vp_ring_fifo_block_push() { block_push<int>(1 + vf_choose(4)); }
template<typename T>
static void block_pop(size_t cap) {
    vf_option("split", 65536);
    vf_option("unroll", 64);
    Filled<T> f(cap);
    T block[8];
    const size_t n = vf_choose(cap + 2);
    const size_t got = f.ring.pop(block, n);
    vf_check(got == (n <= f.used ? n : 0), "a block is popped entirely or not at all");
    for (size_t i = 0; i < got; ++i) vf_check(block[i] == f.model[i], "a block holds the oldest elements in order");
    for (size_t i = got; i < f.used; ++i) f.model[i - got] = f.model[i];
    f.used -= got;
    f.check();
}
extern "C" void vp_ring_fifo_block_pop() { block_pop<int>(1 + vf_choose(4)); }
extern "C" void vp_ring_fifo_block_pop_bytes() { block_pop<unsigned char>(1 + vf_choose(4)); }
