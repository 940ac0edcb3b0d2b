// Traversal of arrays and vectors: each traversal visits exactly the elements, once, in order, whatever state the container is in.
#include "vf.h"
#include "spine/structure/vector.hpp"
using namespace spn::structure;

static size_t any_capacity() {
    const size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    return cap;
}

// traversals of a container holding n elements; the i-th position must be element i (forwards) or n-1-i (backwards)
template<typename C>
static void forwards(C& c, size_t n) {
    size_t i = 0;
    switch (vf_choose(4)) {
    case 0:
        vf_op("prefix");
        for (auto it = c.begin(); it != c.end(); ++it) {
            vf_check(i < n, "forward traversal stops after the last element");
            vf_check(&*it == &c[i], "forward traversal is in order");
            ++i;
        }
        break;
    case 1:
        vf_op("postfix");
        for (auto it = c.begin(); !(it == c.end());) {
            vf_check(i < n, "postfix traversal stops after the last element");
            const auto at = it++;
            vf_check(&*at == &c[i], "postfix increment yields the previous position");
            ++i;
        }
        break;
    case 2:
        vf_op("range for");
        for (auto& x : c) {
            vf_check(i < n, "range traversal stops after the last element");
            vf_check(&x == &c[i], "range traversal is in order");
            ++i;
        }
        break;
    case 3:
        vf_op("explicitly constant");
        for (auto it = c.cbegin(); it != c.cend(); ++it) {
            vf_check(i < n, "constant traversal stops after the last element");
            vf_check(&*it == &c[i], "constant traversal is in order");
            ++i;
        }
        break;
    }
    vf_check(i == n, "forward traversals reach every element");
}
template<typename C>
static void backwards(C& c, size_t n) {
    size_t i = 0;
    switch (vf_choose(4)) {
    case 0:
        vf_op("reverse prefix");
        for (auto it = c.rbegin(); it != c.rend(); ++it) {
            vf_check(i < n, "reverse traversal stops after the first element");
            vf_check(&*it == &c[n - 1 - i], "reverse traversal is in reverse order");
            ++i;
        }
        break;
    case 1:
        vf_op("reverse postfix");
        for (auto it = c.rbegin(); !(it == c.rend());) {
            vf_check(i < n, "reverse postfix traversal stops after the first element");
            const auto at = it++;
            vf_check(&*at == &c[n - 1 - i], "reverse postfix increment yields the previous position");
            ++i;
        }
        break;
    case 2:
        vf_op("reverse constant");
        for (auto it = c.crbegin(); it != c.crend(); ++it) {
            vf_check(i < n, "constant reverse traversal stops after the first element");
            vf_check(&*it == &c[n - 1 - i], "constant reverse traversal is in reverse order");
            ++i;
        }
        break;
    case 3:
        vf_op("decrement");
        if (n > 0) {
            auto it = c.end();
            --it;
            vf_check(&*it == &c[n - 1], "stepping back from the end reaches the last element");
            auto at = it--;
            vf_check(&*at == &c[n - 1], "postfix decrement yields the previous position");
            if (n > 1) vf_check(&*it == &c[n - 2], "postfix decrement steps back");
            auto r = c.rend();
            --r;
            vf_check(&*r == &c[0], "stepping back from the reverse end reaches the first element");
            auto was = r--;
            vf_check(&*was == &c[0], "reverse postfix decrement yields the previous position");
            if (n > 1) vf_check(&*r == &c[1], "reverse postfix decrement steps back");
        }
        return;
    }
    vf_check(i == n, "reverse traversals reach every element");
}

template<typename T>
static void any_history(Vector<T>& v) {
    while (vf_loop()) {
        const T x = (T)vf_nondet_int();
        switch (vf_choose(6)) {
        case 0: vf_legal(!v.full()); v.push_back(x); break;
        case 1: vf_legal(!v.full()); v.push_front(x); break;
        case 2: { vf_legal(!v.empty()); [[maybe_unused]] T y = v.pop_back(); break; }
        case 3: { vf_legal(!v.empty()); [[maybe_unused]] T y = v.pop_front(); break; }
        case 4: vf_legal(!v.full()); v.insert(vf_nondet_size(), x); break;
        case 5: { const size_t i = vf_nondet_size(); vf_legal(i < v.size()); [[maybe_unused]] T y = v.remove(i); break; }
        }
    }
}
extern "C" void vp_iterate_vector_forwards() {
    Vector<int> v(any_capacity());
    any_history(v);
    if (vf_nondet_bool()) forwards(v, v.size());
    else forwards(const_cast<const Vector<int>&>(v), v.size());
}
extern "C" void vp_iterate_vector_backwards() {
    Vector<int> v(any_capacity());
    any_history(v);
    if (vf_nondet_bool()) backwards(v, v.size());
    else backwards(const_cast<const Vector<int>&>(v), v.size());
}
extern "C" void vp_iterate_array() {
    const size_t cap = any_capacity();
    Array<int> a(cap);
    const Array<int>& c = a;
    switch (vf_choose(4)) {
    case 0: forwards(a, cap); break;
    case 1: forwards(c, cap); break;
    case 2: backwards(a, cap); break;
    case 3: backwards(c, cap); break;
    }
    const size_t k = vf_nondet_size();
    vf_assume(k < cap);
    vf_check(&a[k] == a.data() + k && &c[k] == &a[k] && &a.at(k) == &a[k], "array elements are contiguous and every accessor agrees");
    vf_check(&a.front() == &a[0] && &a.back() == &a[cap - 1], "front and back are the first and last element");
    vf_check(a.size() == cap && a.max_size() == cap && !a.empty(), "an array always has its full size");
}
