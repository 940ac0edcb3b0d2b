// Arrays: what each constructor leaves in them, and what writing, filling, swapping and referring to them does.
#include "vf.h"
#include "spine/structure/array.hpp"
#include <utility>
using namespace spn::structure;

struct Wide {
    long a;
    unsigned char b;
    bool operator==(const Wide& o) const { return a == o.a && b == o.b; }
};
template<typename T>
static T any() {
    if constexpr (sizeof(T) == 1) return (T)vf_nondet_u8();
    else if constexpr (sizeof(T) == 4) return (T)vf_nondet_int();
    else return T{vf_nondet_long(), vf_nondet_u8()};
}
template<typename T>
static void shape(Array<T>& a, size_t n) {
    const Array<T>& c = a;
    vf_check(a.size() == n && a.max_size() == n && a.empty() == (n == 0), "an array has as many elements as it was made for");
    vf_check(a.data() == c.data() && (n == 0 || (&a.front() == a.data() && &a.back() == a.data() + (n - 1))), "front and back are the first and the last element");
    const size_t k = vf_nondet_size();
    if (k < n) vf_check(&a[k] == a.data() + k && &a.at(k) == &a[k] && &c[k] == &a[k] && &c.at(k) == &a[k], "every way to an element leads to the same one");
}
// any capacity
template<typename T>
static void any_capacity() {
    vf_option("leaks", 1);
    {
        const size_t n = vf_nondet_size();
        vf_assume(n >= 1 && n <= (1ull << 32));
        Array<T> a(n);
        shape(a, n);
        const size_t i = vf_nondet_size(), k = vf_nondet_size();
        vf_assume(i < n && k < n);
        const T x = any<T>(), y = any<T>();
        a[i] = x;
        a.at(k) = y;
        vf_check(a[k] == y && (i == k || a[i] == x), "an element is what was written to it last");
        Array<T> view(a);
        shape(view, n);
        vf_check(view.data() == a.data(), "a copy refers to the elements of its source");
        view[i] = x;
        vf_check(a[i] == x, "what is written through a copy is written to its source");
        const T* at = a.data();
        Array<T> b(std::move(a));
        shape(b, n);
        vf_check(b.data() == at && a.size() == 0, "moving an array moves its elements");
    }
    vf_leak_check();
}
extern "C" void vp_array_any_int() { any_capacity<int>(); }
extern "C" void vp_array_any_byte() { any_capacity<unsigned char>(); }
extern "C" void vp_array_any_wide() { any_capacity<Wide>(); }

// contents of few elements
template<typename T>
static void contents() {
    vf_option("unroll", 64);
    vf_option("split", 4096);
    const size_t n = 1 + vf_choose(3);
    const T x = any<T>(), y = any<T>(), z = any<T>();
    switch (vf_choose(6)) {
    case 0: {
        vf_op("sized");
        Array<T> a(n);
        shape(a, n);
        for (size_t i = 0; i < n; ++i) vf_check(a[i] == T{}, "an array of a size starts with zeros");
        a.fill(x);
        for (size_t i = 0; i < n; ++i) vf_check(a[i] == x, "filling sets every element");
        vf_check(a.size() == n, "filling keeps the size");
        break;
    }
    case 1: {
        vf_op("initial value");
        Array<T> a(n, x);
        shape(a, n);
        for (size_t i = 0; i < n; ++i) vf_check(a[i] == x, "an initial value is that of every element");
        break;
    }
    case 2: {
        vf_op("list");
        Array<T> a = {x, y, z};
        shape(a, 3);
        vf_check(a[0] == x && a[1] == y && a[2] == z, "a list gives the elements in its order");
        a = {z, x};
        shape(a, 2);
        vf_check(a[0] == z && a[1] == x, "assigning a list replaces the elements");
        a = {x, y, x};
        shape(a, 3);
        a.fill(x);
        for (size_t i = 0; i < 3; ++i) vf_check(a[i] == x, "filling sets every element, whatever was there");
        break;
    }
    case 3: {
        vf_op("store");
        T store[3] = {x, y, z};
        {
            Array<T> a(store);
            shape(a, 3);
            vf_check(a.data() == store && a[0] == x && a[1] == y && a[2] == z, "an array over a store shows what is in it");
            a[1] = x;
        }
        vf_check(store[0] == x && store[1] == x && store[2] == z, "what is written to an array over a store is in the store, and stays there");
        break;
    }
    case 4: {
        vf_op("buffer");
        alignas(T) uint8_t buffer[3 * sizeof(T) + 3];
        const size_t bytes = vf_choose(2) ? n * sizeof(T) + vf_choose(sizeof(T) == 1 ? 1 : 3) : n * sizeof(T);
        buffer[bytes] = 0x5a;
        Array<T> a(buffer, bytes);
        shape(a, n);
        vf_check((void*)a.data() == buffer, "an array over a buffer uses the buffer");
        for (size_t i = 0; i < n; ++i) vf_check(a[i] == T{}, "an array over a buffer starts with zeros");
        a.fill(x);
        for (size_t i = 0; i < n; ++i) vf_check(a[i] == x, "filling an array over a buffer sets every element");
        vf_check(buffer[bytes] == 0x5a, "what is behind the buffer stays as it is");
        break;
    }
    default: {
        vf_op("swap");
        const size_t m = 1 + vf_choose(3);
        Array<T> a(n, x), b(m, y);
        if (vf_choose(2)) a.swap(b);
        else std::swap(a, b);
        shape(a, m);
        shape(b, n);
        for (size_t i = 0; i < m; ++i) vf_check(a[i] == y, "swapping exchanges the elements");
        for (size_t i = 0; i < n; ++i) vf_check(b[i] == x, "swapping exchanges the elements");
    }
    }
}
extern "C" void vp_array_contents_int() { contents<int>(); }
extern "C" void vp_array_contents_byte() { contents<unsigned char>(); }
extern "C" void vp_array_contents_wide() { contents<Wide>(); }

// objects that are not made of zeros
struct Seven {
    int v = 7;
    long w = 3;
};
extern "C" void vp_array_objects() {
    vf_option("leaks", 1);
    vf_option("unroll", 64);
    vf_option("split", 64);
    {
        const size_t n = 1 + vf_choose(3);
        Array<Seven> a(n);
        for (size_t i = 0; i < n; ++i) vf_check(a[i].v == 7 && a[i].w == 3, "an array of a size starts with objects as they are made");
        const int x = vf_nondet_int();
        a[n - 1].v = x;
        vf_check(a.back().v == x && a.back().w == 3, "an object is what was written to it last");
    }
    vf_leak_check();
}
