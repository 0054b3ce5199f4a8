/* z.h - the code under test: the single-header library from /repo, implementation included */
#ifndef Z_H
#define Z_H
#include "mc.h"
/* a failed ZPL_ASSERT of the library: expected inside Z_TRAPS, a violation anywhere else */
static jmp_buf z_trap_jmp; static int z_trap_ok;
static void z_trap(void) { if (z_trap_ok) { z_trap_ok = 0; longjmp(z_trap_jmp, 1); } mc_fail("an assertion of the library failed"); }
#define ZPL_DEBUG_TRAP() z_trap()
/* runs the statement; true when it was refused by an assertion */
#define Z_TRAPS(stmt) (setjmp(z_trap_jmp) ? 1 : ({ z_trap_ok = 1; stmt; z_trap_ok = 0; 0; }))
#define ZPL_IMPLEMENTATION
#include "zpl.h"
#endif
