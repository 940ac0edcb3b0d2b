// Stack and Tuple (C31)
#include "vf.h"
#include "spine/structure/stack.hpp"
#include "spine/structure/tuple.hpp"
using namespace spn::structure;

static size_t any_capacity() {
    size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    return cap;
}

static void any_op(Stack<int>& s, size_t cap) {
    const bool room = s.size() < cap;
    int x = vf_nondet_int();
    switch (vf_choose(3)) {
    case 0: vf_legal(room); s.push(x); break;
    case 1: vf_legal(room); s.emplace(int(x)); break;
    default: vf_legal(!s.empty()); s.pop(); break;
    }
}

// the number of elements and what is on top after each operation
extern "C" void vp_stack_size() {
    const size_t cap = any_capacity();
    Stack<int> s(cap);
    vf_check(s.empty() && s.size() == 0, "a new stack is empty");
    while (vf_loop()) {
        const size_t n = s.size();
        vf_check(n <= cap, "never more elements than the capacity");
        vf_check(s.empty() == (n == 0), "empty iff no elements");
        int x = vf_nondet_int();
        const int was = x;
        switch (vf_choose(4)) {
        case 0:
            vf_legal(n < cap);
            vf_op("push");
            s.push(x);
            vf_check(x == was, "pushing leaves the variable alone");
            vf_check(s.size() == (n < cap ? n + 1 : n), "push adds one element unless full");
            if (n < cap) vf_check(s.top() == was, "push puts on top");
            break;
        case 1:
            vf_legal(n < cap);
            vf_op("emplace");
            s.emplace(int(x));
            vf_check(s.size() == (n < cap ? n + 1 : n), "emplace adds one element unless full");
            if (n < cap) vf_check(s.top() == was, "emplace puts on top");
            break;
        case 2:
            vf_legal(n > 0);
            vf_op("pop");
            s.pop();
            vf_check(s.size() == (n ? n - 1 : 0), "pop removes one element if any");
            break;
        default:
            if (n) {
                vf_op("top");
                const int y = s.top();
                vf_check(s.size() == n && s.top() == y, "looking at the top changes nothing");
                s.top() = x;
                vf_check(s.size() == n && s.top() == x, "top refers to the element on top");
            }
            break;
        }
    }
}

// after any history, elements come off in the opposite order they are put on, and what was there before is left
extern "C" void vp_stack_lifo() {
    vf_option("split", 4096);
    const size_t cap = any_capacity();
    Stack<int> s(cap);
    while (vf_loop()) any_op(s, cap);
    const size_t n = s.size();
    if (n == 0 || n + 3 > cap) return;
    const int old = s.top();
    int pushed[3];
    int height = 0;
    const auto step = [&] {
        if (vf_choose(2) && height < 3) {
            int x = vf_nondet_int();
            pushed[height++] = x;
            if (vf_choose(2)) s.push(x);
            else s.emplace(int(x));
        } else if (height > 0) {
            --height;
            s.pop();
        }
        vf_check(s.size() == n + height, "the elements that were put on are there");
        vf_check(s.top() == (height ? pushed[height - 1] : old), "the element pushed last of those that are left is on top");
    };
    step();
    step();
    step();
    step();
    step();
}
// a full stack keeps what it has
extern "C" void vp_stack_full() {
    const size_t cap = any_capacity();
    Stack<int> s(cap);
    while (vf_loop()) any_op(s, cap);
    if (s.size() != cap) return;
    const int old = s.top();
    int x = vf_nondet_int();
    vf_legal(false);
    if (vf_choose(2)) s.push(x);
    else s.emplace(int(x));
    vf_check(s.size() == cap && s.top() == old, "a full stack takes no more");
    s.pop();
    vf_check(s.size() == cap - 1, "pop removes one element");
    s.push(x);
    vf_check(s.size() == cap && s.top() == x, "there is room again");
}
extern "C" void vp_tuple() {
    const int a = vf_nondet_int();
    const long b = vf_nondet_long();
    const Tuple<int, long> t(a, b);
    vf_check(t.first() == a && t.second() == b, "a tuple holds what it was made of");
    const Tuple<int, long> u(t);
    vf_check(u.first() == a && u.second() == b, "a copy of a tuple holds the same");
    const int c = vf_nondet_int();
    const Tuple<int, int> v(a, c);
    vf_check(v.first() == a && v.second() == c, "first and second are not mixed up");
}
