#ifndef VERIF_COMPAT_DC_UTILS_H_
#define VERIF_COMPAT_DC_UTILS_H_
#include "double-conversion/double-to-string.h"
#endif
