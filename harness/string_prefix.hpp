// std::string members are instantiated in the IR (instead of being called in libstdc++.so),
// so that strings with symbolic characters can be executed
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
