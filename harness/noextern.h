// Forced ahead of everything else when the IR is made: members of the string classes are
// then instantiated in the translation unit (they'd be calls into the library otherwise).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
