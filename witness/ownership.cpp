// Ownership of element storage: every sequence of up to three copies, moves, swaps and assignments between containers
// that own their storage, view someone else's, or use the caller's; afterwards everything is destroyed and nothing may be
// left, released twice or touched after release.
#include "vf.h"
#include "spine/structure/vector.hpp"
#include "spine/structure/ringbuffer.hpp"
using namespace spn::structure;

static size_t any_capacity() {
    const size_t cap = vf_nondet_size();
    vf_assume(cap >= 1 && cap <= (1ul << 32));
    return cap;
}

template<typename C>
static void one_op(C& a, C& b) {
    switch (vf_choose(6)) {
    case 0: {
        vf_op("copy assignment");
        const size_t n = b.max_size(), k = b.size();
        a = b;
        vf_check(a.max_size() == n && a.size() == k, "a copy has the size and capacity of its source");
        vf_check(a.data() == b.data(), "a copy views the elements of its source");
        break;
    }
    case 1: {
        vf_op("move assignment");
        const size_t n = b.max_size(), k = b.size();
        const auto* p = b.data();
        a = std::move(b);
        vf_check(a.data() == p && a.max_size() == n && a.size() == k, "a move hands over the elements and their number");
        break;
    }
    case 2: {
        vf_op("swap");
        const size_t n = b.max_size(), m = a.max_size(), k = a.size(), l = b.size();
        const auto *p = b.data(), *q = a.data();
        a.swap(b);
        vf_check(a.data() == p && a.max_size() == n && a.size() == l && b.data() == q && b.max_size() == m && b.size() == k,
                 "a swap exchanges elements and sizes");
        break;
    }
    case 3: {
        vf_op("copy construction");
        C c(b);
        vf_check(c.data() == b.data() && c.max_size() == b.max_size() && c.size() == b.size(), "a copy-constructed container views its source");
        break;
    }
    case 4: {
        vf_op("move construction");
        const size_t n = b.max_size(), k = b.size();
        const auto* p = b.data();
        C c(std::move(b));
        vf_check(c.data() == p && c.max_size() == n && c.size() == k, "move construction hands over the elements");
        a = std::move(c);
        vf_check(a.data() == p && a.max_size() == n && a.size() == k, "handing over twice reaches the target");
        break;
    }
    case 5:
        vf_op("list assignment");
        a = {1, 2};
        vf_check(a.max_size() == 2 && a.size() == 2 && a[0] == 1 && a[1] == 2, "assigning a list holds exactly the list");
        break;
    }
}

template<typename C>
static void any_pair(C* (&all)[3]) {
    const int a = vf_choose(3), b = vf_choose(3);
    if (a != b) one_op(*all[a], *all[b]);
}

template<typename C>
static void sequences() {
    {
        int mine[3] = {7, 8, 9};
        const size_t cap = any_capacity();
        C own(cap), ext(mine), view(own);
        vf_check(view.data() == own.data() && ext.data() == mine, "views and external storage refer to the given elements");
        C* all[3] = {&own, &ext, &view};
        any_pair(all);
        any_pair(all);
        vf_check(mine[1] == 8, "the caller's memory stays with the caller");
    }
    vf_leak_check();
}
extern "C" void vp_ownership_array() { vf_option("leaks", 1); sequences<Array<int>>(); }
extern "C" void vp_ownership_vector() { vf_option("leaks", 1); sequences<Vector<int>>(); }

// writing through an owner is seen by its views, and an owner keeps its elements when a view goes away
extern "C" void vp_ownership_views() {
    vf_option("leaks", 1);
    {
        const size_t cap = any_capacity(), k = vf_nondet_size();
        const int x = vf_nondet_int();
        vf_assume(k < cap && x < 1000);
        Array<int> own(cap);
        own[k] = x;
        {
            Array<int> view(own);
            vf_check(view[k] == x, "a view shows the elements");
            view[k] = x + 1;
        }
        vf_check(own[k] == x + 1, "a view shares the elements and leaves them alive");
        Array<int> next(std::move(own));
        vf_check(next[k] == x + 1, "moved elements stay alive");
        own = next;
        vf_check(own[k] == x + 1, "a moved-from container can view again");
        Array<int> self(cap);
        self[k] = x;
        Array<int>& alias = self;
        self = alias;
        self = std::move(alias);
        vf_check(self[k] == x, "assigning a container to itself changes nothing");
    }
    vf_leak_check();
}

// construction and destruction of everything built on owned storage
extern "C" void vp_ownership_lifetimes() {
    vf_option("leaks", 1);
    {
        const size_t cap = any_capacity();
        switch (vf_choose(4)) {
        case 0: { RingBuffer<int> r(cap); r.push(1); break; }
        case 1: { Vector<int> v(cap); v.push_back(1); break; }
        case 2: { Array<int> a = {1, 2, 3}; break; }
        case 3: { Vector<int> v(cap, 5); (void)v.pop_back(); v.clear(); break; }
        }
        vf_reach("lifetimes end");
    }
    vf_leak_check();
}

// Elements that only work once they are constructed: whatever is assigned to, or destroyed, was made before and is
// destroyed once.
namespace {
int g_living = 0;
struct Built {
    static constexpr unsigned made = 0x600D;
    unsigned state = made;
    int value = 7;
    Built() { ++g_living; }
    explicit Built(int v) : value(v) { ++g_living; }
    Built(const Built& o) : value(o.value) { vf_check(o.state == made, "an element that is copied was made before"); ++g_living; }
    Built(Built&& o) noexcept : value(o.value) { vf_check(o.state == made, "an element that is moved was made before"); ++g_living; }
    Built& operator=(const Built& o) {
        vf_check(state == made && o.state == made, "an element that is assigned to was made before");
        value = o.value;
        return *this;
    }
    Built& operator=(Built&& o) noexcept {
        vf_check(state == made && o.state == made, "an element that is moved to was made before");
        value = o.value;
        return *this;
    }
    ~Built() {
        vf_check(state == made, "an element that is destroyed was made before and not destroyed yet");
        state = 0;
        --g_living;
    }
};
} // namespace

extern "C" void vp_ownership_elements() {
    vf_option("leaks", 1);
    const int x = vf_nondet_int(), y = vf_nondet_int();
    {
        const size_t cap = 1 + vf_choose(3);
        switch (vf_choose(8)) {
        case 0: {
            Array<Built> a(cap);
            const size_t i = vf_choose(3);
            vf_assume(i < cap);
            vf_check(a[i].state == Built::made && a[i].value == 7, "an array starts with elements as they are made");
            a[i] = Built(x);
            vf_check(a[i].value == x, "an element can be given a value");
            Array<Built> b(std::move(a));
            vf_check(b[i].value == x, "moved elements keep their values");
            Array<Built> c(cap);
            c = std::move(b);
            vf_check(c[i].value == x, "moved elements keep their values");
            break;
        }
        case 1: {
            Array<Built> a(cap, Built(x));
            vf_check(a[cap - 1].value == x, "an array can be filled with a value");
            a.fill(Built(y));
            vf_check(a[0].value == y, "an array can be filled again");
            break;
        }
        case 2: {
            Array<Built> a{Built(x), Built(y)};
            vf_check(a[0].value == x && a[1].value == y, "an array holds its list");
            a = {Built(y)};
            vf_check(a.size() == 1 && a[0].value == y, "an array holds the list it is assigned");
            break;
        }
        case 3: {
            Vector<Built> v(cap);
            v.push_back(Built(x));
            vf_check(v[0].value == x, "a vector holds what was added to it");
            if (cap > 1) v.emplace_front(Built(y));
            (void)v.pop_back();
            v.clear();
            v.push_back(Built(y));
            vf_check(v[0].value == y, "a vector can be used again after it was cleared");
            break;
        }
        case 4: {
            Vector<Built> v(3);
            v.push_back(Built(x));
            v.insert(0, Built(y));
            v.insert(1, Built(3));
            vf_check(v.size() == 3 && v[0].value == y && v[1].value == 3 && v[2].value == x, "elements are inserted where they belong");
            Vector<Built> w(std::move(v));
            (void)w.remove(1);
            vf_check(w.size() == 2 && w[1].value == x, "elements can be removed");
            break;
        }
        case 5: {
            Vector<Built> v{Built(x), Built(y)};
            vf_check(v.size() == 2 && v[1].value == y, "a vector holds its list");
            Vector<Built> w(cap, Built(x));
            w.swap(v);
            vf_check(v.size() == cap && v[cap - 1].value == x, "vectors swap their elements");
            break;
        }
        case 6: {
            RingBuffer<Built> r(2);
            r.push(Built(x));
            r.push(Built(y));
            r.push(Built(3), true);
            Built out;
            vf_check(r.pop(out) && out.value == y, "a ring holds what was added to it");
            break;
        }
        case 7: {
            Array<Built> a(cap);
            Array<Built> view(a);
            view[0] = Built(x);
            vf_check(a[0].value == x, "a view refers to the elements of its source");
            break;
        }
        }
    }
    vf_check(g_living == 0, "every element that was made is destroyed");
    vf_leak_check();
}
