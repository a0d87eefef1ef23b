// forced first include of every unit: have the member functions of std::string instantiated here (so that they are verified code, not assumed externals)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
