// Results: whatever state one is in, every operation sees that state and that value.
#include "vf.h"
#include "spine/structure/result.hpp"
#include <memory>
#include <utility>
using namespace spn::structure;

enum Kind { NOTHING, SUCCESS, INTERMEDIARY, FAILURE };

template<typename R>
struct Parts;
template<typename T_, typename E_, typename I_>
struct Parts<Result<T_, E_, I_>> {
    using T = T_;
    using E = E_;
    using I = I_;
};

template<typename R>
static void is(const R& r, int kind, int x, const char* id) {
    vf_check(r.is_success() == (kind == SUCCESS), id);
    vf_check(r.is_intermediary() == (kind == INTERMEDIARY), id);
    vf_check(r.is_failed() == (kind == FAILURE), id);
    vf_check((bool)r == (kind == SUCCESS), id);
    if (kind == SUCCESS && r.is_success()) {
        vf_check(r.value() == typename Parts<R>::T(x), id);
        vf_check(*r == typename Parts<R>::T(x), id);
        vf_check(r.operator->() == &r.value(), id);
    }
    if (kind == INTERMEDIARY && r.is_intermediary()) vf_check(r.intermediary_value() == typename Parts<R>::I(x), id);
    if (kind == FAILURE && r.is_failed()) vf_check(r.error_value() == typename Parts<R>::E(x), id);
}
template<typename R>
static R make(int kind, int x) {
    using P = Parts<R>;
    if (kind == NOTHING) return R();
    if (kind == SUCCESS) {
        typename P::T v(x);
        if (vf_nondet_bool()) return R(v); // from something with a name
        if (vf_nondet_bool()) return R(std::as_const(v));
        return R(std::move(v));
    }
    if (kind == INTERMEDIARY) {
        typename P::I v(x);
        if (vf_nondet_bool()) return R::intermediary(v);
        return R::intermediary(std::move(v));
    }
    typename P::E v(x);
    if (vf_nondet_bool()) return R::failed(v);
    return R::failed(std::move(v));
}

template<typename R>
static void states() {
    vf_option("split", 8192);
    vf_option("leaks", 1);
    {
        using P = Parts<R>;
        using T = typename P::T;
        using E = typename P::E;
        using I = typename P::I;
        const int kind = vf_choose(4), x = vf_nondet_int();
        vf_assume(x >= 0 && x < 100);
        R r = make<R>(kind, x);
        is(r, kind, x, "a result is in the state it was made in");
        switch (vf_choose(11)) {
        case 0: {
            vf_op("copy");
            R c(r);
            is(c, kind, x, "a copy equals its source");
            is(r, kind, x, "copying changes nothing");
            R d(std::as_const(r));
            is(d, kind, x, "a copy equals its source");
            R e(std::move(r));
            is(e, kind, x, "moving keeps state and value");
            break;
        }
        case 1: {
            vf_op("assign");
            const int other = vf_choose(4);
            R c = make<R>(other, 7);
            c = r;
            is(c, kind, x, "assignment takes over state and value");
            R d = make<R>(other, 7);
            d = std::move(r);
            is(d, kind, x, "assignment takes over state and value");
            break;
        }
        case 2: {
            vf_op("chain");
            int calls = 0;
            const int next = vf_choose(4);
            R c = r.chain([&](I& v) {
                ++calls;
                vf_check(v == I(x), "chaining passes on the intermediary value");
                return make<R>(next, 5);
            });
            vf_check(calls == (kind == INTERMEDIARY ? 1 : 0), "chaining calls the function iff there is an intermediary value");
            if (kind == INTERMEDIARY) is(c, next, 5, "chaining yields what the function returned");
            else {
                is(c, kind, x, "chaining passes everything else through");
                is(r, kind, x, "chaining leaves what it passes through");
            }
            break;
        }
        case 3: {
            vf_op("map");
            int calls = 0;
            auto c = r.map([&](const T& v) {
                ++calls;
                vf_check(v == T(x), "mapping passes on the value");
                return T(8);
            });
            vf_check(calls == (kind == SUCCESS ? 1 : 0), "mapping calls the function iff there is a value");
            is(c, kind, kind == SUCCESS ? 8 : x, "mapping replaces the value and passes everything else through");
            break;
        }
        case 4: {
            vf_op("map error");
            int calls = 0;
            auto c = r.map_error([&](const E& v) {
                ++calls;
                vf_check(v == E(x), "mapping errors passes on the error");
                return E(8);
            });
            vf_check(calls == (kind == FAILURE ? 1 : 0), "mapping errors calls the function iff there is an error");
            is(c, kind, kind == FAILURE ? 8 : x, "mapping errors replaces the error and passes everything else through");
            break;
        }
        case 5: {
            vf_op("map intermediary");
            int calls = 0;
            auto c = r.map_intermediary([&](const I& v) {
                ++calls;
                vf_check(v == I(x), "mapping intermediaries passes on the value");
                return I(8);
            });
            vf_check(calls == (kind == INTERMEDIARY ? 1 : 0), "mapping intermediaries calls the function iff there is one");
            is(c, kind, kind == INTERMEDIARY ? 8 : x, "mapping intermediaries replaces it and passes everything else through");
            break;
        }
        case 6: {
            vf_op("and then");
            int calls = 0;
            const int next = vf_choose(4);
            auto c = r.and_then([&](const T& v) {
                ++calls;
                vf_check(v == T(x), "continuing passes on the value");
                return make<R>(next, 5);
            });
            vf_check(calls == (kind == SUCCESS ? 1 : 0), "continuing calls the function iff there is a value");
            if (kind == SUCCESS) is(c, next, 5, "continuing yields what the function returned");
            else is(c, kind, x, "continuing passes everything else through");
            break;
        }
        case 7: {
            vf_op("or else");
            int calls = 0;
            const int next = vf_choose(4);
            auto c = r.or_else([&](const E& v) {
                ++calls;
                vf_check(v == E(x), "recovering passes on the error");
                return make<R>(next, 5);
            });
            vf_check(calls == (kind == FAILURE ? 1 : 0), "recovering calls the function iff there is an error");
            if (kind == FAILURE) is(c, next, 5, "recovering yields what the function returned");
            else is(c, kind, x, "recovering passes everything else through");
            break;
        }
        case 8: {
            vf_op("match");
            if (kind == NOTHING) break;
            const int which = r.match([&](const T& v) { return v == T(x) ? 1 : 0; }, [&](const E& v) { return v == E(x) ? 3 : 0; },
                                      [&](const I& v) { return v == I(x) ? 2 : 0; });
            vf_check(which == kind, "matching calls the function for the state there is with its value");
            break;
        }
        case 9: {
            vf_op("defaults");
            vf_check(r.value_or(T(9)) == (kind == SUCCESS ? T(x) : T(9)), "a default is used iff there is no value");
            vf_check(r.error_or(E(9)) == (kind == FAILURE ? E(x) : E(9)), "a default is used iff there is no error");
            int calls = 0;
            vf_check(r.unwrap_or_else([&] {
                ++calls;
                return T(9);
            }) == (kind == SUCCESS ? T(x) : T(9)), "a fallback is used iff there is no value");
            vf_check(calls == (kind == SUCCESS ? 0 : 1), "a fallback is called iff there is no value");
            break;
        }
        case 10: {
            vf_op("unwrap");
            if (kind == SUCCESS) vf_check(r.unwrap() == T(x), "unwrapping yields the value");
            if (kind == FAILURE) vf_check(r.unwrap_error_value() == E(x), "unwrapping yields the error");
            if (kind == INTERMEDIARY) vf_check(r.unwrap_intermediary_value() == I(x), "unwrapping yields the intermediary value");
            break;
        }
        }
    }
    vf_leak_check();
}

template<int N>
struct Own { // a value with a type and an allocation of its own
    std::shared_ptr<int> p;
    explicit Own(int x) : p(std::make_shared<int>(x)) {}
    bool operator==(const Own& o) const { return p && o.p && *p == *o.p; }
};
extern "C" void vp_result_same() { states<Result<int>>(); }
extern "C" void vp_result_numbers() { states<Result<int, long, short>>(); }
extern "C" void vp_result_error_of_other_type() { states<Result<float, int>>(); }
extern "C" void vp_result_objects() { states<Result<Own<0>, Own<1>, Own<2>>>(); }
