// With VB_POLY the library sees no standard concepts and uses its own.
#ifdef VB_POLY
#include <bits/stdc++.h>
#undef __cpp_lib_concepts
#define __cpp_lib_concepts 0
#endif
