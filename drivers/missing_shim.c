/* flag values of the replacement header */
#include <u/missing/fnmatch.h>
const int m_flags[5] = { FNM_NOESCAPE, FNM_PATHNAME, FNM_PERIOD, FNM_CASEFOLD, FNM_LEADING_DIR };
