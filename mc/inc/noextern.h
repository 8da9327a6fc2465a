// instantiate the standard library's stream and string templates in the program itself, so that they are instrumented like the rest
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
