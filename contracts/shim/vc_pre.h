// with VC_STRINGS the members of std::string are instantiated in the verified code instead of being external
#if defined(VC_STRINGS) && defined(VC_IR)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
