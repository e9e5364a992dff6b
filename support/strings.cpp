// Bodies for std::string members that the C++ runtime keeps out of line.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <vector>
template class std::basic_string<char>;
