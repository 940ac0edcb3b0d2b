// Included before everything: makes clang instantiate std::string's members, so that their code is analysed too.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
