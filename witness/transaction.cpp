// Transactions on a buffered stream: whatever was in both buffers before, finishing a transaction in any way consumes exactly
// the line it was started for, and aborting takes back exactly what it queued.
#include "vf.h"
#include "spine/io/stream/buffered_stream.hpp"
using namespace spn::io;

struct Wire : Stream { // delivers prepared bytes, records what is sent
    char in[16], out[16];
    int n_in = 0, at = 0, n_out = 0;
    void initialize() override {}
    void flush() override {}
    using Stream::read;
    using Stream::write;
    size_t available() const override { return n_in - at; }
    bool read(uint8_t& value) override {
        value = in[at++];
        return true;
    }
    size_t available_for_write() const override { return 16 - n_out; }
    bool write(const uint8_t value) override {
        out[n_out++] = value;
        return true;
    }
};

static int make_line(Wire& w, char tag) { // an arbitrary short line; returns its length without delimiter
    const int len = vf_choose(3);
    for (int i = 0; i < len; ++i) w.in[w.n_in++] = tag + i;
    w.in[w.n_in++] = '\n';
    return len;
}

enum End { COMMIT, ABORT, DESTROY, MOVED_COMMIT, MOVED_ABORT, MOVED_DESTROY, ASSIGNED_COMMIT, ENDS };

static int queue(Transaction& t, BufferedStream& s, char* expect, int n) {
    const int k = vf_choose(4);
    for (int i = 0; i < k; ++i) {
        const size_t left = t.outgoing_space_left();
        const char x = vf_nondet_char();
        const size_t before = t.outgoing_space_used();
        vf_legal(left > 0);
        const size_t ok = t.outgoing(x);
        vf_check(ok == (left > 0 ? 1u : 0u), "a byte is queued iff there is room");
        vf_check(t.outgoing_space_used() == before + ok && t.outgoing_space_left() == left - ok, "queued bytes are accounted for");
        if (ok) expect[n++] = x;
    }
    if (vf_nondet_bool()) {
        const char text[3] = {vf_nondet_char(), vf_nondet_char(), vf_nondet_char()};
        const size_t left = t.outgoing_space_left();
        vf_legal(left >= 3);
        const size_t ok = t.outgoing(text, 3);
        vf_check(ok == (left < 3 ? left : 3), "text is queued as far as there is room");
        vf_check(t.outgoing_space_left() == left - ok, "queued text is accounted for");
        for (size_t i = 0; i < ok; ++i) expect[n++] = text[i];
    }
    return n;
}

static void transactions(int from, int to) {
    vf_option("split", 8192);
    auto wire = std::make_shared<Wire>();
    Wire& w = *wire;
    const int first = make_line(w, 'a'), second_at = w.n_in, second = make_line(w, 'p');
    BufferedStream s(wire, BufferedStream::Config{8, 4, "\n"});
    // what was queued before stays queued
    char expect[8];
    int n = vf_choose(3);
    for (int i = 0; i < n; ++i) {
        expect[i] = vf_nondet_char();
        s.buffered_write((uint8_t)expect[i]);
    }
    vf_check(!s.new_transaction().has_value(), "no transaction starts without a line");
    s.pull_in_data();
    const size_t received = s.input_buffer_space_used();
    int kept = n;
    const int end = from + vf_choose(to - from);
    {
        auto t = s.new_transaction();
        vf_check(t.has_value(), "a transaction starts when a line is there");
        if (!t) return;
        vf_check(!t->is_finalized(), "a new transaction is open");
        vf_check(t->incoming().size() == (size_t)first, "a transaction shows the line it was started for");
        for (int i = 0; i < first; ++i) vf_check(t->incoming()[i] == 'a' + i, "a transaction shows the bytes of its line");
        vf_check(s.input_buffer_space_used() == received, "an open transaction consumes nothing");
        const int m = queue(*t, s, expect, n);
        switch (end) {
        case COMMIT:
            vf_op("commit");
            t->commit();
            vf_check(t->is_finalized(), "commit ends the transaction");
            kept = m;
            break;
        case ABORT:
            vf_op("abort");
            t->abort();
            vf_check(t->is_finalized(), "abort ends the transaction");
            break;
        case DESTROY:
            vf_op("destroy");
            t.reset();
            kept = m;
            break;
        case MOVED_COMMIT: {
            vf_op("move then commit");
            Transaction u(std::move(*t));
            vf_check(t->is_finalized() && !u.is_finalized(), "moving a transaction hands over its duty");
            u.commit();
            kept = m;
            break;
        }
        case MOVED_ABORT: {
            vf_op("move then abort");
            Transaction u(std::move(*t));
            u.abort();
            break;
        }
        case MOVED_DESTROY: {
            vf_op("move then destroy");
            { Transaction u(std::move(*t)); }
            vf_check(s.input_buffer_space_used() == received - first - 1, "a destroyed transaction consumes its line");
            kept = m;
            break;
        }
        case ASSIGNED_COMMIT: {
            vf_op("assign over a finished transaction");
            auto other = std::make_shared<Wire>();
            other->in[other->n_in++] = 'z';
            other->in[other->n_in++] = '\n';
            BufferedStream o(other, BufferedStream::Config{4, 4, "\n"});
            o.pull_in_data();
            auto u = o.new_transaction();
            u->commit();
            *u = std::move(*t);
            vf_check(t->is_finalized() && !u->is_finalized(), "assigning a transaction hands over its duty");
            vf_check(u->outgoing_space_used() == (size_t)m - n, "assigning a transaction hands over what it queued");
            *t = std::move(*u);
            if (vf_nondet_bool()) {
                vf_op("assign to itself");
                Transaction& self = *t;
                self = std::move(*t);
            }
            vf_check(!t->is_finalized() && u->is_finalized(), "assigning a transaction hands over its duty");
            vf_check(t->incoming().size() == (size_t)first, "an assigned transaction shows its line");
            t->abort();
            break;
        }
        }
    }
    vf_check(s.input_buffer_space_used() == received - first - 1, "every ending consumes exactly one line");
    char line[8];
    const size_t len = s.get_next_line(line, 8);
    vf_check(len == (size_t)second, "the next line is the one received next");
    for (size_t i = 0; i < len; ++i) vf_check(line[i] == w.in[second_at + i], "the next line is intact");
    vf_check(s.output_buffer_space_used() == (size_t)kept, "abort takes back what was queued, any other ending keeps it");
    s.push_out_data();
    vf_check(w.n_out == kept, "what was kept is sent");
    for (int i = 0; i < kept; ++i) vf_check(w.out[i] == expect[i], "what is sent is what was queued, in order");
}
extern "C" void vp_transaction_direct() { transactions(COMMIT, DESTROY + 1); }
extern "C" void vp_transaction_moved() { transactions(MOVED_COMMIT, MOVED_DESTROY + 1); }
extern "C" void vp_transaction_assigned() { transactions(ASSIGNED_COMMIT, ENDS); }
