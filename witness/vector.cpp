// Most general client of the vector: a bounded sequence observed at an arbitrary index.
#include "vf.h"
#include "spine/structure/vector.hpp"
using namespace spn::structure;

static size_t any_capacity() {
    size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    return cap;
}

template<typename T>
static void any_op(Vector<T>& v) {
    const T x = (T)vf_nondet_int();
    switch (vf_choose(9)) {
    case 0: vf_legal(!v.full()); v.push_back(x); break;
    case 1: vf_legal(!v.full()); v.emplace_back(T(x)); break;
    case 2: vf_legal(!v.full()); v.push_front(x); break;
    case 3: vf_legal(!v.full()); v.emplace_front(T(x)); break;
    case 4: { vf_legal(!v.empty()); [[maybe_unused]] T y = v.pop_back(); break; }
    case 5: { vf_legal(!v.empty()); [[maybe_unused]] T y = v.pop_front(); break; }
    case 6: vf_legal(!v.full()); v.insert(vf_nondet_size(), x); break;
    case 7: { const size_t i = vf_nondet_size(); vf_legal(i < v.size()); [[maybe_unused]] T y = v.remove(i); break; }
    case 8: v.clear(); break;
    }
}

// number of elements and bounds
template<typename T>
static void size_accounting() {
    const size_t cap = any_capacity();
    Vector<T> v(cap);
    vf_check(v.size() == 0 && v.empty() && v.max_size() == cap, "a new vector is empty");
    while (vf_loop()) {
        const size_t n = v.size();
        vf_check(n <= cap && v.max_size() == cap, "never more elements than the capacity");
        vf_check(v.empty() == (n == 0), "empty iff no elements");
        vf_check(v.full() == (n == cap), "full iff as many elements as the capacity");
        const size_t grown = n < cap ? n + 1 : n, shrunk = n > 0 ? n - 1 : 0;
        const T x = (T)vf_nondet_int();
        switch (vf_choose(9)) {
        case 0: vf_legal(!v.full()); vf_op("push_back"); v.push_back(x); vf_check(v.size() == grown, "push_back adds one element unless full"); break;
        case 1: vf_legal(!v.full()); vf_op("emplace_back"); v.emplace_back(T(x)); vf_check(v.size() == grown, "emplace_back adds one element unless full"); break;
        case 2: vf_legal(!v.full()); vf_op("push_front"); v.push_front(x); vf_check(v.size() == grown, "push_front adds one element unless full"); break;
        case 3: vf_legal(!v.full()); vf_op("emplace_front"); v.emplace_front(T(x)); vf_check(v.size() == grown, "emplace_front adds one element unless full"); break;
        case 4: { vf_legal(!v.empty()); vf_op("pop_back"); [[maybe_unused]] T y = v.pop_back(); vf_check(v.size() == shrunk, "pop_back removes one element if any"); break; }
        case 5: { vf_legal(!v.empty()); vf_op("pop_front"); [[maybe_unused]] T y = v.pop_front(); vf_check(v.size() == shrunk, "pop_front removes one element if any"); break; }
        case 6: vf_legal(!v.full()); vf_op("insert"); v.insert(vf_nondet_size(), x); vf_check(v.size() == grown, "insert adds one element unless full"); break;
        case 7: {
            vf_op("remove");
            const size_t i = vf_nondet_size();
            vf_legal(i < n);
            [[maybe_unused]] T y = v.remove(i);
            if (i < n) vf_check(v.size() == n - 1, "remove takes out one element");
            else vf_check(v.size() <= n && v.size() >= shrunk, "remove outside the elements takes out at most one");
            break;
        }
        case 8: vf_op("clear"); v.clear(); vf_check(v.size() == 0, "clear removes all elements"); break;
        }
    }
}
extern "C" void vp_vector_size_int() { size_accounting<int>(); }
extern "C" void vp_vector_size_byte() { size_accounting<unsigned char>(); }

// contents: the element at an arbitrary index, before and after one operation
template<typename T>
static void order_ends() {
    const size_t cap = any_capacity();
    Vector<T> v(cap);
    while (vf_loop()) {
        const size_t n = v.size(), k = vf_nondet_size();
        const bool have = k < n;
        [[maybe_unused]] const bool room_before = n > 0 && &v[0] > v.data(), room_behind = n > 0 && &v[n - 1] + 1 < v.data() + cap; // nothing has to move
        const T old = have ? v[k] : T{};
        const T x = (T)vf_nondet_int();
        if (have) {
            vf_check(v.at(k) == old, "both element accessors agree");
            if (k == 0) vf_check(v.peek_front() == old && v.front() == old, "front is the first element");
            if (k == n - 1) vf_check(v.peek_back() == old && v.back() == old, "back is the last element");
        }
        switch (vf_choose(6)) {
        case 0:
            vf_legal(n < cap);
            vf_op("push_back");
            v.push_back(x);
            if (n < cap) vf_check(v[n] == x, "push_back appends");
            if (have && (room_behind || n >= cap)) vf_check(v[k] == old, "push_back keeps the others");
            break;
        case 1:
            vf_legal(n < cap);
            vf_op("emplace_back");
            v.emplace_back(T(x));
            if (n < cap) vf_check(v[n] == x, "emplace_back appends");
            if (have && (room_behind || n >= cap)) vf_check(v[k] == old, "emplace_back keeps the others");
            break;
        case 2:
            vf_legal(n < cap);
            vf_op("push_front");
            v.push_front(x);
            if (n < cap) vf_check(v[0] == x, "push_front prepends");
            if (have && (room_before || n >= cap)) vf_check(v[n < cap ? k + 1 : k] == old, "push_front keeps the others");
            break;
        case 3:
            vf_legal(n < cap);
            vf_op("emplace_front");
            v.emplace_front(T(x));
            if (n < cap) vf_check(v[0] == x, "emplace_front prepends");
            if (have && (room_before || n >= cap)) vf_check(v[n < cap ? k + 1 : k] == old, "emplace_front keeps the others");
            break;
        case 4: {
            vf_legal(n > 0);
            vf_op("pop_back");
            const T y = v.pop_back();
            if (have && k == n - 1) vf_check(y == old, "pop_back yields the last element");
            if (have && k < n - 1) vf_check(v[k] == old, "pop_back keeps the others");
            break;
        }
        case 5: {
            vf_legal(n > 0);
            vf_op("pop_front");
            const T y = v.pop_front();
            if (have && k == 0) vf_check(y == old, "pop_front yields the first element");
            if (have && k > 0) vf_check(v[k - 1] == old, "pop_front keeps the others");
            break;
        }
        }
    }
}
extern "C" void vp_vector_order_ends_int() { order_ends<int>(); }
extern "C" void vp_vector_order_ends_byte() { order_ends<unsigned char>(); }

template<typename T>
static void order_middle() {
    const size_t cap = any_capacity();
    Vector<T> v(cap);
    while (vf_loop()) {
        const size_t n = v.size(), k = vf_nondet_size(), i = vf_nondet_size();
        const bool have = k < n;
        [[maybe_unused]] const bool room_before = n > 0 && &v[0] > v.data(), room_behind = n > 0 && &v[n - 1] + 1 < v.data() + cap; // nothing has to move
        const T old = have ? v[k] : T{};
        const T x = (T)vf_nondet_int();
        switch (vf_choose(6)) {
        case 0: vf_legal(!v.full()); v.push_back(x); break;
        case 1: vf_legal(!v.full()); v.push_front(x); break;
        case 2: { vf_legal(!v.empty()); [[maybe_unused]] T y = v.pop_back(); break; }
        case 3: { vf_legal(!v.empty()); [[maybe_unused]] T y = v.pop_front(); break; }
        case 4:
            vf_legal(n < cap);
            vf_op("insert");
            v.insert(i, x);
            if (n < cap) {
                const size_t at = i < n ? i : n;
                vf_check(v[at] == x, "insert places the element at the index");
                if (have && (at == n ? room_behind : at == 0 && room_before)) vf_check(v[k < at ? k : k + 1] == old, "insert at an end keeps the others in order");
            } else if (have) {
                vf_check(v[k] == old, "insert into a full vector changes nothing");
            }
            break;
        case 5: {
            vf_op("remove");
            vf_legal(i < v.size());
            const T y = v.remove(i);
            if (have && i < n) {
                if (k == i) vf_check(y == old, "remove yields the element at the index");
                else if (i == 0) vf_check(v[k - 1] == old, "remove at the start keeps the others in order");
            }
            break;
        }
        }
    }
}
extern "C" void vp_vector_order_middle_int() { order_middle<int>(); }
extern "C" void vp_vector_order_middle_byte() { order_middle<unsigned char>(); }

// elements that have to move: every position and fill level, every index, arbitrary contents
template<typename T>
static void order_shift(size_t largest) {
    vf_option("split", 64);
    const size_t cap = 1 + vf_choose(largest);
    Vector<T> v(cap);
    T want[8] = {};
    size_t n = 0;
    const size_t pushes = vf_choose(largest + 1), pops = vf_choose(largest);
    vf_assume(pushes <= cap && pops <= pushes);
    for (size_t i = 0; i < pushes; ++i) {
        const T x = (T)vf_nondet_int();
        v.push_back(x);
        if (i >= pops) want[n++] = x;
    }
    for (size_t i = 0; i < pops; ++i) (void)v.pop_front();
    const T x = (T)vf_nondet_int();
    size_t i = vf_choose(largest + 2);
    if (i > largest) {
        i = vf_nondet_size();
        vf_assume(i > largest);
    }
    const int op = vf_choose(6);
    if (op == 5) {
        vf_legal(i < n);
        vf_assume(i < n);
        vf_op("remove");
        const T y = v.remove(i);
        vf_check(y == want[i], "remove yields the element at the index, wherever it lies");
        for (size_t k = i; k + 1 < n; ++k) want[k] = T(want[k + 1]);
        --n;
    } else {
        vf_legal(n < cap);
        size_t at = n;
        switch (op) {
        case 0: vf_op("push_back"); v.push_back(x); break;
        case 1: vf_op("emplace_back"); v.emplace_back(T(x)); break;
        case 2: vf_op("push_front"); v.push_front(x); at = 0; break;
        case 3: vf_op("emplace_front"); v.emplace_front(T(x)); at = 0; break;
        case 4: vf_op("insert"); v.insert(i, x); at = i < n ? i : n; break;
        }
        if (n < cap) {
            for (size_t k = n; k > at; --k) want[k] = want[k - 1];
            want[at] = x;
            ++n;
        }
    }
    vf_check(v.size() == n, "the size follows every operation");
    for (size_t k = 0; k < n; ++k) vf_check(v[k] == want[k], "the elements keep their order when some have to move");
}
extern "C" void vp_vector_order_shift_int() { order_shift<int>(3); }
extern "C" void vp_vector_order_shift_byte() { order_shift<unsigned char>(3); }
extern "C" void vp_vector_order_shift_more() { order_shift<long>(5); }
struct Thing { // moved and copied by its own operations, one at a time
    long v = 0;
    Thing() = default;
    explicit Thing(int x) : v(x) {}
    Thing(const Thing& o) : v(o.v) {}
    Thing(Thing&& o) noexcept : v(o.v) { o.v = -1; }
    Thing& operator=(const Thing& o) { v = o.v; return *this; }
    Thing& operator=(Thing&& o) noexcept {
        v = o.v;
        o.v = -1;
        return *this;
    }
    ~Thing() { v = -2; }
    bool operator==(const Thing& o) const { return v == o.v; }
};
extern "C" void vp_vector_order_shift_thing() { order_shift<Thing>(5); }
extern "C" void vp_vector_order_shift_most() { order_shift<int>(7); }

// filling, whatever was there
extern "C" void vp_vector_fill() {
    const size_t cap = any_capacity();
    Vector<int> v(cap);
    while (vf_loop()) any_op(v);
    const int x = vf_nondet_int();
    v.fill(x);
    vf_check(v.size() == cap && v.full() && v.max_size() == cap, "filling occupies the whole vector, whatever was there");
}
extern "C" void vp_vector_fill_few() {
    vf_option("split", 64);
    const size_t cap = 1 + vf_choose(4);
    Vector<int> v(cap);
    for (int i = vf_choose(4); i > 0 && !v.full(); --i) v.push_back(i);
    for (int i = vf_choose(3); i > 0 && !v.empty(); --i) v.pop_front();
    const int x = vf_nondet_int();
    v.fill(x);
    const size_t k = vf_nondet_size();
    if (k < cap) vf_check(v[k] == x && v.at(k) == x, "filling sets every element, whatever was there");
    vf_check(v.pop_back() == x && v.size() == cap - 1, "a filled vector can be popped");
}

// initial contents
extern "C" void vp_vector_init() {
    const size_t cap = any_capacity();
    const int x = vf_nondet_int();
    Vector<int> v(cap, x);
    vf_check(v.size() == cap && v.full(), "an initial value fills the vector");
    const size_t k = vf_nondet_size();
    Vector<int> w = {1, 2, 3};
    vf_check(w.size() == 3 && w.max_size() == 3, "an initialiser list sets size and capacity");
    if (k < 3) vf_check(w[k] == (int)k + 1, "an initialiser list sets the elements in order");
    w = {4, 5};
    vf_check(w.size() == 2 && w.max_size() == 2, "assigning a list replaces size and capacity");
    if (k < 2) vf_check(w[k] == (int)k + 4, "assigning a list replaces the elements");
    int store[5];
    Vector<int> e(store);
    vf_check(e.size() == 0 && e.max_size() == 5, "an external store starts empty");
    e.push_back(x);
    vf_check(e.size() == 1 && e[0] == x && store[0] == x, "an external store receives the elements");
    e.fill(x);
    vf_check(e.size() == 5, "fill occupies the whole store");
    if (k < 5) vf_check(e[k] == x, "fill sets every element");
}

// an element of the vector itself is put into it again
template<typename T>
static void own_elements() {
    const size_t cap = any_capacity();
    Vector<T> v(cap);
    while (vf_loop()) {
        const size_t n = v.size(), j = vf_nondet_size(), i = vf_nondet_size();
        if (j >= n || n == cap) {
            any_op(v);
            continue;
        }
        const T x = v[j];
        switch (vf_choose(6)) {
        case 0: vf_op("push_back an own element"); v.push_back(v[j]); vf_check(v[n] == x, "an own element can be appended"); break;
        case 1: vf_op("emplace_back an own element"); v.emplace_back(std::move(v[j])); vf_check(v[n] == x, "an own element can be appended"); break;
        case 2: vf_op("push_front an own element"); v.push_front(v[j]); vf_check(v[0] == x, "an own element can be prepended"); break;
        case 3: vf_op("emplace_front an own element"); v.emplace_front(std::move(v[j])); vf_check(v[0] == x, "an own element can be prepended"); break;
        case 4: vf_op("insert an own element"); v.insert(i, v[j]); vf_check(v[i < n ? i : n] == x, "an own element can be inserted"); break;
        case 5: any_op(v); break;
        }
    }
}
extern "C" void vp_vector_own_int() { own_elements<int>(); }
extern "C" void vp_vector_own_byte() { own_elements<unsigned char>(); }
