/* include guard around the repository's cligen_custom.h (it has none, and harness and source both include it) */
#ifndef VH_WRAP_CUSTOM
#define VH_WRAP_CUSTOM
#include_next <cligen_custom.h>
#endif
