/* the code under test for the scheduler harnesses: compiled with -fsanitize=thread, linked against tsched.h's own runtime */
void z_trap(void);
#define ZPL_DEBUG_TRAP() z_trap()
#define ZPL_IMPLEMENTATION
#include "zpl.h"
