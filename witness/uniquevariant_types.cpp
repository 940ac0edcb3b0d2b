// Variants of distinct types, made from lists that may name a type more than once.
#include "spine/core/meta/unique_type_variant.hpp"
#include <memory>
#include <type_traits>
#include <utility>
namespace uv = spn::core::meta::unique_variant;

struct A {};
struct B {};
struct C {};
template<typename... Ts>
using Made = typename uv::ToVariant<uv::Unique<Ts...>>::type;

// how often a type is among others
template<typename T, typename... Ts>
constexpr int times = (0 + ... + (std::is_same_v<T, Ts> ? 1 : 0));
// where a type is last among others
template<typename T, typename... Ts>
constexpr int last() {
    int at = -1, i = 0;
    ((at = std::is_same_v<T, Ts> ? i : at, ++i), ...);
    return at;
}
template<typename Variant>
struct Of;
template<typename... Us>
struct Of<std::variant<Us...>> {
    template<typename T>
    static constexpr int count = times<T, Us...>;
    template<typename T>
    static constexpr int at = last<T, Us...>();
    static constexpr int size = sizeof...(Us);
};
template<typename T, typename... Ts>
constexpr bool once = Of<Made<Ts...>>::template count<T> == (times<T, Ts...> > 0 ? 1 : 0);
// those that are named only once, or in one order only, keep their order
template<typename T, typename U, typename... Ts>
constexpr bool ordered = times<T, Ts...> == 0 || times<U, Ts...> == 0 || (times<T, Ts...> > 1 || times<U, Ts...> > 1)
                         || (last<T, Ts...>() < last<U, Ts...>()) == (Of<Made<Ts...>>::template at<T> < Of<Made<Ts...>>::template at<U>);
template<typename... Ts>
constexpr bool good = once<A, Ts...> && once<B, Ts...> && once<C, Ts...>
                      && Of<Made<Ts...>>::size == (times<A, Ts...> > 0) + (times<B, Ts...> > 0) + (times<C, Ts...> > 0) && ordered<A, B, Ts...>
                      && ordered<A, C, Ts...> && ordered<B, C, Ts...>;
// every list of up to N types
template<int N, typename... Ts>
constexpr bool every() {
    if constexpr (sizeof...(Ts) > 0)
        if (!good<Ts...>) return false;
    if constexpr (N == 0) return true;
    else return every<N - 1, Ts..., A>() && every<N - 1, Ts..., B>() && every<N - 1, Ts..., C>();
}
//@ control prelude
static_assert(times<A, A, B, A> == 2 && last<A, A, B, A>() == 2 && last<C, A>() == -1);
//@ accept a variant of every list of up to two types has each of them once, in their order
static_assert(every<2>());
//@ accept a variant of every list of three types has each of them once, in their order
static_assert(every<3>());
//@ accept a variant of every list of four types has each of them once, in their order
static_assert(every<4>());
//@ accept a list contains exactly the types it names
static_assert(uv::Contains_v<uv::TypeList<A, B>, A> && uv::Contains_v<uv::TypeList<A, B>, B> && !uv::Contains_v<uv::TypeList<A, B>, C> && !uv::Contains_v<uv::TypeList<>, A>);
//@ accept a wrapped type differs from the type and from the wrappers of others
static_assert(!std::is_same_v<uv::Wrapper<int>, int> && !std::is_same_v<uv::Wrapper<int>, uv::Wrapper<long>> && std::is_same_v<uv::Wrapper<int>, uv::Wrapper<int>>);
//@ accept a wrapped type converts from and to the type
static_assert(std::is_convertible_v<int, uv::Wrapper<int>> && std::is_convertible_v<uv::Wrapper<int>&, int&> && std::is_convertible_v<const uv::Wrapper<int>&, const int&>);
//@ accept what can only be moved can be wrapped, and wrappers of it moved
uv::Wrapper<std::unique_ptr<int>> p(std::make_unique<int>(1)), q(std::move(p));
//@ accept variants of wrapped types hold each of them once
static_assert(std::is_same_v<Made<uv::Wrapper<int>, uv::Wrapper<int>, uv::Wrapper<long>>, std::variant<uv::Wrapper<int>, uv::Wrapper<long>>>);
//@ reject a wrapped type in a variant that does not name it
std::variant<uv::Wrapper<int>> v = uv::Wrapper<A>(A{});
