/* Templates of libstdc++ are instantiated here instead of being taken from libstdc++.so. */
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
