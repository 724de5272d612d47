#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include LACE_HEADER
#include "mc.h"
#include <string.h>
/* Ghost state: not seen by the explorer as shared accesses (bookkeeping of the harness only). */
#endif
