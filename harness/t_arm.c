/* the branch of the atomics for processors without inline assembly, compiled for this one */
#include "zpl.h"
#include <x86intrin.h>
#undef ZPL_CPU_X86
#define ZPL_CPU_ARM 1
#include "source/threading/fence.c"
#include "source/threading/atomic.c"
