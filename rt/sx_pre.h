// Force-included when compiling to IR: the library templates libstdc++ keeps in its binary (basic_string,
// streams, ...) are instantiated from the headers, so that they are part of the IR.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
