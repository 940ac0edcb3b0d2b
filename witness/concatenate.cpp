// Texts joined at compile time are joined by the same code at any time: any characters, every combination of lengths.
#include "vf.h"
#include "spine/core/utils/concatenate.hpp"
#include "spine/core/meta/enum.hpp"
using namespace spn::core::utils;

template<size_t N>
struct Text { // N characters and a terminator
    char c[N + 1];
    Text() {
        for (size_t i = 0; i < N; ++i) c[i] = vf_nondet_char();
        c[N] = 0;
    }
};
template<size_t A, size_t B>
static void two() {
    const Text<A> a;
    const Text<B> b;
    const auto s = concat(a.c, b.c);
    vf_check(s.size() == A + B + 1, "joined texts are as long as both, and a terminator");
    const size_t i = vf_nondet_size();
    if (i < A) vf_check(s[i] == a.c[i], "joined texts begin with the first");
    else if (i < A + B) vf_check(s[i] == b.c[i - A], "joined texts end with the second");
    vf_check(s[A + B] == 0, "joined texts are terminated");
}
template<size_t A, size_t B, size_t C>
static void three() {
    const Text<A> a;
    const Text<B> b;
    const Text<C> c;
    const auto s = concat(a.c, b.c, c.c);
    vf_check(s.size() == A + B + C + 1, "three joined texts are as long as all of them, and a terminator");
    for (size_t i = 0; i < A + B + C; ++i)
        vf_check(s[i] == (i < A ? a.c[i] : i < A + B ? b.c[i - A] : c.c[i - A - B]), "three texts are joined in their order");
    vf_check(s[A + B + C] == 0, "three joined texts are terminated");
}
extern "C" void vp_concatenate_two() {
    vf_option("split", 64);
    switch (vf_choose(6)) {
    case 0: two<0, 0>(); break;
    case 1: two<0, 2>(); break;
    case 2: two<2, 0>(); break;
    case 3: two<1, 1>(); break;
    case 4: two<3, 2>(); break;
    case 5: two<1, 4>(); break;
    }
}
extern "C" void vp_concatenate_three() {
    switch (vf_choose(5)) {
    case 0: three<1, 2, 3>(); break;
    case 1: three<0, 1, 0>(); break;
    case 2: three<2, 0, 1>(); break;
    case 3: three<3, 1, 0>(); break;
    case 4: three<0, 0, 2>(); break;
    }
}
extern "C" void vp_concatenate_few() {
    const Text<3> a;
    const auto one = concat(a.c);
    vf_check(one.size() == 4 && one[0] == a.c[0] && one[1] == a.c[1] && one[2] == a.c[2] && one[3] == 0, "a single text joins to itself");
    const auto none = concat();
    vf_check(none.size() == 1 && none[0] == 0, "no texts join to the empty text");
    const auto again = concat(concat(a.c, "/"), a.c);
    vf_check(again.size() == 8 && again[2] == a.c[2] && again[3] == '/' && again[4] == a.c[0] && again[6] == a.c[2] && again[7] == 0, "a joined text can be joined again");
    const auto texts = concat("ab", "c", "");
    vf_check(sizeof(texts) == 4 && texts[0] == 'a' && texts[2] == 'c' && texts[3] == 0, "literals join like other texts");
}
enum class Small : unsigned char { NONE, ONE, MANY = 200 };
extern "C" void vp_concatenate_enum() {
    const auto e = (Small)vf_nondet_u8();
    vf_check(spn::core::meta::ENUM_IDX(e) == (int)(unsigned char)e, "the index of an enumerator is its value");
    vf_check(spn::core::meta::ENUM_IDX(Small::MANY) == 200 && spn::core::meta::ENUM_IDX(Small::NONE) == 0, "the index of a named enumerator is its value");
}
