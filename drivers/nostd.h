#include <new>
#include <initializer_list>
#include <estd/internal/feature/std.h>
#undef FEATURE_STD_ALGORITHM
#undef FEATURE_STD_CSTDDEF
#undef FEATURE_STD_CERRNO
#undef FEATURE_STD_CSTDINT
#undef FEATURE_STD_CASSERT
#undef FEATURE_STD_CHRONO
#undef FEATURE_STD_FUNCTIONAL
#undef FEATURE_STD_INITIALIZER_LIST
#undef FEATURE_STD_MUTEX
#undef FEATURE_STD_RATIO
#undef FEATURE_STD_THREAD
#undef FEATURE_STD_TYPE_TRAITS
#undef FEATURE_STD_MEMORY
#undef FEATURE_STD_OSTREAM
