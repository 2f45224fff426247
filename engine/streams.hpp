#pragma once
// number parsing and file streams are compiled into the unit instead of taken
// from the library, so that they are executed symbolically
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
