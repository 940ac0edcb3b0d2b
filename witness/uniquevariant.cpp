// Wrapped values: what a variant of wrapped types holds is what was wrapped.
#include "vf.h"
#include "spine/core/meta/unique_type_variant.hpp"
#include <memory>
namespace uv = spn::core::meta::unique_variant;

extern "C" void vp_uniquevariant_wrapper() {
    const int x = vf_nondet_int();
    uv::Wrapper<int> w(x);
    vf_check(w.value == x, "a wrapper holds what was wrapped");
    int& r = w;
    const auto& c = w;
    const int& k = c;
    vf_check(&r == &w.value && &k == &w.value, "a wrapper refers to what it holds");
    int y = vf_nondet_int();
    uv::Wrapper<int> m(std::move(y));
    vf_check(m.value == y, "a wrapper holds what was moved into it");
    auto o = std::make_shared<int>(x);
    uv::Wrapper<std::shared_ptr<int>> p(std::move(o));
    vf_check(!o && p.value && *p.value == x, "wrapping what is moved moves it");
    uv::Wrapper<std::shared_ptr<int>> q = std::move(p);
    vf_check(!p.value && q.value && *q.value == x, "moving a wrapper moves what it holds");
    uv::Wrapper<std::shared_ptr<int>> h(q.value);
    vf_check(q.value && h.value == q.value, "wrapping what stays copies it");
    vf_option("leaks", 1);
}
extern "C" void vp_uniquevariant_variant() {
    using I = uv::Wrapper<int>;
    using L = uv::Wrapper<long>;
    using Value = uv::ToVariant<uv::Unique<I, L, I>>::type;
    const int x = vf_nondet_int();
    const long y = vf_nondet_long();
    Value v = I(x);
    vf_check(std::holds_alternative<I>(v) && std::get<I>(v).value == x, "a variant holds what was put into it");
    v = L(y);
    vf_check(std::holds_alternative<L>(v) && std::get<L>(v).value == y, "a variant holds what was put into it last");
}
