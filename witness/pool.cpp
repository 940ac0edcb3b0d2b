// Pools of reusable objects: any history of acquiring and releasing, and the lifetime of every object.
#include "vf.h"
#include "spine/structure/pool.hpp"
using namespace spn::structure;

static int alive = 0;
struct Obj {
    int id;
    explicit Obj(int i) : id(i) { ++alive; }
    Obj(Obj&& o) : id(o.id) { ++alive; }
    Obj(const Obj& o) : id(o.id) { ++alive; }
    ~Obj() { --alive; }
};

template<int N>
static void populate(Pool<Obj>& p) {
    for (int i = 0; i < N; ++i) {
        switch (vf_choose(3)) {
        case 0: p.populate(new Obj(i)); break;
        case 1: p.populate(Obj(i)); break;
        case 2: p.populate(std::make_shared<Obj>(i)); break;
        }
    }
}

// which objects are held, and through how many handles, is kept; the pool must hand out one that is not, or none iff all are
template<int N, int H>
static void history() {
    vf_option("split", 4096);
    Pool<Obj> p(N);
    vf_check(p.size() == 0 && (N == 0 || !p.is_fully_populated()), "a new pool is empty");
    for (int i = 0; i < N; ++i) {
        p.populate(Obj(i));
        vf_check(p.size() == (size_t)(i + 1), "populating adds one object");
    }
    vf_check(p.is_fully_populated(), "a pool is fully populated when it holds as many objects as its size");
    vf_check(alive == N, "the pool keeps exactly its objects alive");
    std::shared_ptr<Obj> held[N][H];
    while (vf_loop()) {
        int n_held = 0;
        for (int i = 0; i < N; ++i) n_held += held[i][0] ? 1 : 0;
        if (vf_nondet_bool()) {
            vf_op("acquire");
            auto o = p.acquire();
            vf_check((o == nullptr) == (n_held == N), "nothing is handed out iff every object is in use");
            if (o) {
                const int id = o->id;
                vf_check(id >= 0 && id < N && !held[id][0], "only an object nobody uses is handed out");
                vf_check(o.use_count() == 2, "an object that was handed out is shared with the pool only");
                if (id >= 0 && id < N && vf_nondet_bool()) {
                    for (int h = vf_choose(H); h > 0; --h) held[id][h] = o;
                    held[id][0] = std::move(o);
                }
            }
        } else {
            vf_op("release");
            const int id = vf_choose(N);
            int last = H - 1;
            while (last > 0 && !held[id][last]) --last;
            held[id][last].reset();
        }
        vf_check(p.size() == N && alive == N, "acquiring and releasing neither creates nor destroys objects");
        for (int i = 0; i < N; ++i)
            for (int h = 0; h < H; ++h) vf_key(i * H + h, held[i][h] ? 1 : 0);
    }
}
extern "C" void vp_pool_history_1() { history<1, 3>(); }
extern "C" void vp_pool_history_2() { history<2, 3>(); }
extern "C" void vp_pool_history_3() { history<3, 2>(); }
extern "C" void vp_pool_history_3_handles() { history<3, 3>(); }

// removal and destruction
template<int N>
static void lifetimes() {
    vf_option("split", 4096);
    vf_option("leaks", 1);
    {
        std::shared_ptr<Obj> mine;
        {
            Pool<Obj> p(N);
            populate<N>(p);
            vf_check(alive == N, "populating keeps exactly the given objects alive");
            if (vf_nondet_bool()) mine = p.acquire();
            const int out = vf_choose(N + 1);
            for (int i = 0; i < out; ++i) {
                vf_op("depopulate");
                std::shared_ptr<Obj> o = p.depopulate();
                vf_check(o && o->id == i, "objects leave the pool in the order they were added");
                vf_check(p.size() == (size_t)(N - i - 1), "depopulating removes one object");
            }
            vf_check(alive == N - out + (mine && mine->id < out ? 1 : 0), "an object that left the pool lives as long as someone holds it");
        }
        vf_check(alive == (mine ? 1 : 0), "destroying a pool releases every object nobody holds");
        if (mine) vf_check(mine.use_count() == 1 && mine->id >= 0, "an object still held survives its pool");
    }
    vf_check(alive == 0, "every object is destroyed exactly once");
    vf_leak_check();
}
extern "C" void vp_pool_lifetimes_1() { lifetimes<1>(); }
extern "C" void vp_pool_lifetimes_2() { lifetimes<2>(); }
extern "C" void vp_pool_lifetimes_3() { lifetimes<3>(); }

extern "C" void vp_pool_move() {
    vf_option("split", 4096);
    vf_option("leaks", 1);
    {
        Pool<Obj> a(2), b(2);
        populate<2>(a);
        populate<2>(b);
        a = std::move(b);
        vf_check(a.size() == 2 && a.is_fully_populated(), "moving a pool hands over its objects");
        vf_check(alive == 2, "moving into a pool releases what it held");
        Pool<Obj>& self = a;
        switch (vf_choose(3)) {
        case 0: self = std::move(a); break;
        case 1: self = a; break;
        default: break;
        }
        vf_check(a.size() == 2 && alive == 2, "assigning a pool to itself changes nothing");
        auto o = a.acquire();
        vf_check(o != nullptr, "a pool that was moved into can be used");
    }
    vf_check(alive == 0, "every object of moved pools is destroyed exactly once");
    vf_leak_check();
}

// elements of owning containers
extern "C" void vp_pool_elements() {
    vf_option("split", 4096);
    vf_option("leaks", 1);
    {
        Vector<std::shared_ptr<Obj>> v(3);
        const int n = vf_choose(4);
        for (int i = 0; i < n; ++i) {
            switch (vf_choose(3)) {
            case 0: v.push_back(std::make_shared<Obj>(i)); break;
            case 1: v.push_front(std::make_shared<Obj>(i)); break;
            case 2: v.insert(1, std::make_shared<Obj>(i)); break;
            }
        }
        vf_check(alive == n, "a container keeps its elements alive");
        int left = n;
        switch (vf_choose(5)) {
        case 0: v.clear(); left = 0; break;
        case 1: if (n) { auto x = v.pop_front(); --left; } break;
        case 2: if (n) { auto x = v.pop_back(); --left; } break;
        case 3: if (n) { auto x = v.remove(n / 2); --left; } break;
        case 4: { Vector<std::shared_ptr<Obj>> w(1); v = std::move(w); left = 0; break; }
        }
        vf_check(alive == left, "an element lives exactly as long as it is in the container");
    }
    vf_check(alive == 0, "destroying a container destroys its elements");
    vf_leak_check();
}
// every sequence of steps on a vector of owners: the objects, their order and their lives
template<size_t CAP, int FIRST, int STEPS>
static void sequence() {
    vf_option("split", 65536);
    vf_option("leaks", 1);
    {
        Vector<std::shared_ptr<Obj>> v(CAP);
        int id[CAP + 1], next = 0;
        size_t n = 0;
        const auto add = [&](size_t at) {
            for (size_t i = n; i > at; --i) id[i] = id[i - 1];
            id[at] = next++;
            ++n;
        };
        const auto drop = [&](size_t at) {
            const int was = id[at];
            --n;
            for (size_t i = at; i < n; ++i) id[i] = id[i + 1];
            return was;
        };
        for (int s = 0; s < FIRST + STEPS; ++s) {
            const int what = s < FIRST ? 0 : vf_choose(8);
            if (what < 5 && n == CAP) break;
            if (what >= 5 && n == 0) break;
            switch (what) {
            case 0: v.push_back(std::make_shared<Obj>(next)); add(n); break;
            case 1: v.emplace_back(std::make_shared<Obj>(next)); add(n); break;
            case 2: v.push_front(std::make_shared<Obj>(next)); add(0); break;
            case 3: v.emplace_front(std::make_shared<Obj>(next)); add(0); break;
            case 4: { const size_t at = vf_choose(n + 1); v.insert(at, std::make_shared<Obj>(next)); add(at); break; }
            case 5: { const auto x = v.pop_back(); vf_check(x && x->id == drop(n - 1), "taking the last element yields it"); break; }
            case 6: { const auto x = v.pop_front(); vf_check(x && x->id == drop(0), "taking the first element yields it"); break; }
            case 7: { const size_t at = vf_choose(n); const auto x = v.remove(at); vf_check(x && x->id == drop(at), "removing an element yields it"); break; }
            }
            vf_check(v.size() == n && alive == (int)n, "an object lives exactly as long as it is an element");
            for (size_t i = 0; i < n; ++i) vf_check(v[i] && v[i]->id == id[i] && v[i].use_count() == 1, "elements keep their order, and are held once");
        }
    }
    vf_check(alive == 0, "destroying a container destroys its elements");
    vf_leak_check();
}
extern "C" void vp_pool_sequence_2() { sequence<2, 0, 3>(); }
extern "C" void vp_pool_sequence_2_long() { sequence<2, 0, 4>(); }
extern "C" void vp_pool_sequence_3() { sequence<3, 2, 2>(); }
extern "C" void vp_pool_sequence_3_long() { sequence<3, 2, 3>(); }
extern "C" void vp_pool_sequence_4() { sequence<4, 3, 2>(); }
extern "C" void vp_pool_sequence_4_full() { sequence<4, 4, 3>(); }
extern "C" void vp_pool_sequence_3_longer() { sequence<3, 2, 4>(); }
