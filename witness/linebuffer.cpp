// Lines in a ring of characters: from every state (any position of the first character, any number of characters, unknown
// contents) at small capacities, each operation is compared with the characters that were in the buffer.
#include "vf.h"
#include "spine/structure/linebuffer.hpp"
using namespace spn::structure;

static bool delimits(const LineBuffer& b, char c) {
    for (size_t i = 0; i < b.delimiters().size(); ++i)
        if (b.delimiters()[i] == c) return true;
    return false;
}

template<int CAP>
struct Scene {
    LineBuffer b;
    size_t n = 0, len = 0; // characters present; length of the first line with its delimiter, or 0
    char c[CAP + 1];

    Scene() : b(CAP) {
        if (vf_nondet_bool()) b.set_delimiters(";");
        const int shift = vf_choose(CAP);
        for (int i = 0; i < shift; ++i) {
            b.push('x');
            b.pop();
        }
        n = vf_choose(CAP + 1);
        for (size_t i = 0; i < n; ++i) {
            c[i] = vf_nondet_char();
            b.RingBuffer<char>::push(c[i]);
        }
        for (size_t i = 0; i < n && len == 0; ++i)
            if (delimits(b, c[i])) len = i + 1;
    }
    // the buffer holds exactly the characters from the given position on
    void holds_from(size_t from, const char* id) {
        vf_check(b.used_space() == n - from, id);
        for (size_t i = from; i < n; ++i) {
            char v = 0;
            vf_check(b.peek_at(v, i - from) && v == c[i], id);
        }
    }
};

template<int CAP>
static void lines() {
    vf_option("split", 4096);
    Scene<CAP> s;
    LineBuffer& b = s.b;
    vf_check(b.has_line() == (s.len > 0), "a line is reported iff a delimiter is present");
    vf_check(b.length_of_next_line() == s.len, "the length of the next line counts its delimiter");
    const bool discovered = vf_nondet_bool(); // the caller may have asked for the length before
    std::optional<size_t> hint;
    if (discovered) hint = s.len;
    switch (vf_choose(3)) {
    case 0: {
        vf_op("view");
        const auto v = discovered ? b.get_next_line_view(hint) : b.get_next_line_view();
        vf_check(v.has_value() == (s.len > 0), "a view exists iff there is a line");
        if (v && s.len > 0) {
            vf_check(v->size() == s.len - 1, "a view spans the line without its delimiter");
            for (size_t i = 0; i + 1 < s.len; ++i) vf_check((*v)[i] == s.c[i], "a view shows the characters of the line");
        }
        s.holds_from(0, "viewing a line consumes nothing");
        break;
    }
    case 1: {
        vf_op("read");
        const size_t room = vf_choose(CAP + 2);
        char out[CAP + 2];
        for (int i = 0; i < CAP + 2; ++i) out[i] = '?';
        const size_t got = discovered ? b.get_next_line(out, room, hint) : b.get_next_line(out, room);
        if (s.len > 0 && s.len <= room) {
            vf_check(got == s.len - 1, "reading a line reports its length without the delimiter");
            for (size_t i = 0; i + 1 < s.len; ++i) vf_check(out[i] == s.c[i], "reading a line copies its characters");
            vf_check(out[s.len - 1] == 0, "a line that was read is terminated");
            s.holds_from(s.len, "reading a line consumes it and its delimiter only");
        } else {
            vf_check(got == 0, "no line, or one that does not fit, reads nothing");
            s.holds_from(0, "a line that does not fit stays in the buffer");
        }
        for (size_t i = room; i < CAP + 2; ++i) vf_check(out[i] == '?', "reading a line stays within the given room");
        break;
    }
    case 2: {
        vf_op("drop");
        const bool ok = discovered ? b.drop_next_line(hint) : b.drop_next_line();
        vf_check(ok == (s.len > 0), "dropping succeeds iff there is a line");
        s.holds_from(s.len, "dropping a line consumes it and its delimiter only");
        break;
    }
    }
    // whatever happened, the buffer goes on working
    const size_t used = b.used_space();
    const char x = vf_nondet_char();
    const bool pushed = b.RingBuffer<char>::push(x);
    vf_check(pushed == (used < CAP) && b.used_space() == used + (pushed ? 1 : 0), "the buffer accepts characters afterwards");
    char last = 0;
    if (pushed) vf_check(b.peek_at(last, used) && last == x, "new characters follow the remaining ones");
}
extern "C" void vp_linebuffer_2() { lines<2>(); }
extern "C" void vp_linebuffer_3() { lines<3>(); }
extern "C" void vp_linebuffer_4() { lines<4>(); }
extern "C" void vp_linebuffer_text() {
    vf_option("split", 4096);
    LineBuffer b(4);
    char text[3] = {vf_nondet_char(), vf_nondet_char(), vf_nondet_char()};
    const size_t before = vf_choose(5);
    for (size_t i = 0; i < before; ++i) b.push('x');
    const size_t n = vf_choose(4), room = 4 - before;
    const size_t put = b.push(std::string_view(text, n));
    vf_check(put == (n < room ? n : room), "pushing text stops when the buffer is full");
    vf_check(b.used_space() == before + put, "pushed text occupies the buffer");
    for (size_t i = 0; i < put; ++i) {
        char v = 0;
        vf_check(b.peek_at(v, before + i) && v == text[i], "pushed text follows what was there");
    }
}
