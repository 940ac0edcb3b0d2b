// Texts joined at compile time.
#include "spine/core/utils/concatenate.hpp"
#include "spine/core/meta/enum.hpp"
using namespace spn::core::utils;

template<size_t N>
constexpr bool same(const std::array<char, N>& a, const char (&b)[N]) {
    for (size_t i = 0; i < N; ++i)
        if (a[i] != b[i]) return false;
    return true;
}
//@ control prelude
static_assert(same(std::array<char, 3>{'a', 'b', 0}, "ab"));
//@ accept two literals join at compile time
constexpr auto s = concat("ab", "cde");
static_assert(same(s, "abcde"));
//@ accept literals join at compile time in their order, the empty one included
constexpr auto s = concat("ab", "", "c", "def");
static_assert(same(s, "abcdef"));
//@ accept one literal, and none, join at compile time
constexpr auto s = concat("ab");
constexpr auto t = concat();
static_assert(same(s, "ab") && same(t, ""));
//@ accept joined literals join again at compile time
constexpr auto s = concat("/", concat("ab", "c"), "/");
static_assert(same(s, "/abc/"));
//@ accept the length of a text is that of its characters
static_assert(string_length<decltype("abc"), decltype("")>() == 3);
//@ accept the index of an enumerator is known at compile time
enum class E { A, B = 7 };
static_assert(spn::core::meta::ENUM_IDX(E::A) == 0 && spn::core::meta::ENUM_IDX(E::B) == 7);
