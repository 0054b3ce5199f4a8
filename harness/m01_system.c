/* M01 - environment, commands, shared libraries, processors, assertions and bit helpers */
#define _GNU_SOURCE 1
#include "z.h"
#include <dlfcn.h>
/* ---- environment */
static const char *NAME[] = { "ZPLT_A", "ZPLT_AB", "ZPLT_" };
static char LONG[70001];
static const char *VAL[] = { "", "x", "a=b;c", "\xc3\xa9 \xe2\x82\xac", LONG };
static const char *cur[3];
static void env_check(void) {
    for (int i = 0; i < 3; i++) {
        const char *b = zpl_get_env_buf(NAME[i]), *c = zpl_get_env(NAME[i]); zpl_string s = zpl_get_env_str(NAME[i]); mc_trans(3);
        if (!cur[i]) { MC_CHECK(!b && !c && !s, "%s is not set but found", NAME[i]); continue; }
        MC_CHECK(b && c && s, "%s is set but not found", NAME[i]); MC_CHECK(!strcmp(b, cur[i]), "%s reads as \"%.20s\" instead of \"%.20s\"", NAME[i], b, cur[i]); MC_CHECK(!strcmp(c, cur[i]), "the copy of %s differs", NAME[i]);
        MC_CHECK(zpl_string_length(s) == (zpl_isize)strlen(cur[i]) && !strcmp(s, cur[i]), "the string of %s differs", NAME[i]); MC_CHECK(c != b && (char *)s != b, "the copy of %s is no copy", NAME[i]);
        ((char *)c)[0] ^= 0; zpl_mfree((void *)c); zpl_string_free(s);
    }
    MC_CHECK(!zpl_get_env_buf("ZPLT_ABC") && !zpl_get_env_buf("ZPLT"), "a variable that was never set is found");
}
static void s_env(void) {
    for (int i = 0; i < 3; i++) { unsetenv(NAME[i]); cur[i] = NULL; } if (!LONG[0]) memset(LONG, 'y', 70000);
    int n = mc_thorough ? 4 : 3; const char *kept = NULL, *want = NULL;
    for (int k = 0; k < n; k++) {
        int i = mc_choose(3), o = mc_choose(6);
        if (o == 5) { mc_log("unset %s\n", NAME[i]); zpl_unset_env(NAME[i]); cur[i] = NULL; } else { mc_log("set %s = %.20s\n", NAME[i], VAL[o]); zpl_set_env(NAME[i], VAL[o]); cur[i] = VAL[o]; if (!kept) { kept = zpl_get_env(NAME[i]); want = VAL[o]; } }
        env_check(); MC_CHECK(!kept || !strcmp(kept, want), "a copy changed with the environment"); MC_CHECK(getenv(NAME[i]) ? cur[i] && !strcmp(getenv(NAME[i]), cur[i]) : !cur[i], "the process environment differs");
        uint64_t h = 0; for (int j = 0; j < 3; j++) h = mc_hash_u(h, (uint64_t)(uintptr_t)cur[j]); mc_state(h);
    }
    if (kept) zpl_mfree((void *)kept);
    for (int i = 0; i < 3; i++) unsetenv(NAME[i]);
}
static void s_env_oom(void) {
    setenv("ZPLT_A", VAL[mc_choose(4)], 1); int w = mc_choose(2), at = mc_choose(2), fail = !at; mc_malloc_n = 0; mc_malloc_fail_at = at; mc_trans(1);
    if (!w) { const char *c = zpl_get_env("ZPLT_A"); long n = mc_malloc_n; mc_malloc_fail_at = -1; MC_CHECK(n <= at ? c != NULL : c == NULL || !strcmp(c, getenv("ZPLT_A")), "out of memory: %p", (void *)c); if (c) zpl_mfree((void *)c); }
    else { zpl_string s = zpl_get_env_str("ZPLT_A"); long n = mc_malloc_n; mc_malloc_fail_at = -1; MC_CHECK(n <= at ? s != NULL : s == NULL || !strcmp(s, getenv("ZPLT_A")), "out of memory: %p", (void *)s); if (s) zpl_string_free(s); }
    (void)fail; unsetenv("ZPLT_A");
}
/* ---- commands: the stand-in for popen delivers any bytes, in any portions */
static volatile int opens, closes, no_popen, chunk; static unsigned char out[8]; static volatile int nout, at; static char asked[64]; static volatile int real_;
static ssize_t cread(void *c, char *b, size_t n) { (void)c; size_t k = (size_t)(nout - at); if (k > n) k = n; if (chunk && k > (size_t)chunk) k = (size_t)chunk; memcpy(b, out + at, k); at += (int)k; return (ssize_t)k; }
FILE *__real_popen(const char *c, const char *m); int __real_pclose(FILE *f);
FILE *__wrap_popen(const char *c, const char *m) { if (real_) return __real_popen(c, m); MC_CHECK(m && m[0] == 'r', "popen mode %s", m); if (no_popen) { errno = EMFILE; return NULL; } opens++; at = 0; snprintf(asked, sizeof asked, "%s", c); cookie_io_functions_t io = { cread }; return fopencookie(NULL, "r", io); }
int __wrap_pclose(FILE *f) { if (real_) return __real_pclose(f); closes++; return fclose(f); }
static void s_cmd(void) {
    static const unsigned char B[] = { 'a', 0, '\n', 0xff }; nout = mc_choose(mc_thorough ? 8 : 6); opens = closes = 0; asked[0] = 0; no_popen = mc_choose(2) == 1; real_ = 0; if (no_popen && nout) mc_prune();
    for (int i = 0; i < nout; i++) out[i] = B[mc_choose(4)]; chunk = mc_choose(2);
    int len = mc_choose(10); unsigned char *b = malloc(len ? len : 1); memset(b, 0x5a, len); zpl_u32 r = zpl_system_command("do it", (zpl_usize)len, (char *)b); mc_trans(1);
    if (no_popen) { MC_CHECK(!r, "a command that could not be started is reported as run"); for (int i = 0; i < len; i++) MC_CHECK(b[i] == 0x5a, "the buffer was written"); }
    else { MC_CHECK(r == 1, "returns %u", r); MC_CHECK(!strcmp(asked, "do it"), "another command is run"); MC_CHECK(opens == 1 && closes == 1, "%d opened, %d closed", opens, closes); int n = nout < len ? nout : len; MC_CHECK(!memcmp(b, out, n), "%d bytes of output into %d: another text arrives", nout, len);
        for (int i = n; i < len; i++) MC_CHECK(b[i] == 0x5a || !b[i], "byte %d behind %d bytes of output was written", i, nout); }
    free(b);
    opens = closes = 0; zpl_string s = zpl_system_command_str("do it", zpl_heap_allocator()); mc_trans(1);
    if (no_popen) MC_CHECK(!s, "a command that could not be started gives a string");
    else { MC_CHECK(s, "no string"); MC_CHECK(opens == 1 && closes == 1, "%d opened, %d closed", opens, closes); MC_CHECK(zpl_string_length(s) == nout && !memcmp(s, out, nout) && !s[nout], "%d bytes of output give %ld", nout, (long)zpl_string_length(s)); zpl_string_free(s); }
    mc_state(mc_hash(mc_hash_u((uint64_t)len, (uint64_t)no_popen), out, nout));
}
static void s_cmd_oom(void) {
    nout = mc_choose(8); for (int i = 0; i < nout; i++) out[i] = 'a'; chunk = 0; real_ = no_popen = opens = closes = 0; int f = mc_choose(4); mc_malloc_n = 0; mc_malloc_fail_at = f; zpl_string s = zpl_system_command_str("do it", zpl_heap_allocator()); long n = mc_malloc_n; mc_malloc_fail_at = -1; mc_trans(1);
    MC_CHECK(opens == closes, "the command's stream is left open"); if (n <= f) MC_CHECK(s && zpl_string_length(s) == nout, "wrong output"); if (s) { MC_CHECK(zpl_string_length(s) == nout && !memcmp(s, out, nout), "out of memory gives part of the output"); zpl_string_free(s); }
}
static void s_cmd_real(void) {
    static const struct { const char *c; int n; } C[] = { { "printf abc", 3 }, { "printf abc; exit 3", 3 }, { "exit 0", 0 }, { "head -c 100000 /dev/zero | tr '\\000' x", 100000 }, { "exec 2>/dev/null; /nonexistent/command", 0 }, { "printf 'a\\000b'", 3 } };
    int k = mc_choose(6), len = (int[]){ 0, 1, 3, 4, 65536, 100001 }[mc_choose(6)]; real_ = 1; char *b = malloc(len ? len : 1); memset(b, 0x5a, len); zpl_u32 r = zpl_system_command(C[k].c, (zpl_usize)len, b); mc_trans(1); MC_CHECK(r == 1, "%s: returns %u", C[k].c, r); int n = C[k].n < len ? C[k].n : len;
    for (int i = 0; i < n; i++) MC_CHECK(b[i] == (k == 3 ? 'x' : k == 5 ? "a\0b"[i] : "abc"[i]), "%s: byte %d differs", C[k].c, i); for (int i = n; i < len; i++) MC_CHECK(b[i] == 0x5a || !b[i], "%s: byte %d was written", C[k].c, i); free(b);
    zpl_string s = zpl_system_command_str(C[k].c, zpl_heap_allocator()); MC_CHECK(s && zpl_string_length(s) == C[k].n, "%s: %ld bytes instead of %d", C[k].c, s ? (long)zpl_string_length(s) : -1L, C[k].n); zpl_string_free(s);
    MC_CHECK(waitpid(-1, NULL, WNOHANG) == -1 && errno == ECHILD, "%s: a child process is left behind", C[k].c); real_ = 0;
}
/* ---- shared libraries */
static const char *LIBS[] = { "libanl.so.1", "libBrokenLocale.so.1", "/nonexistent/lib.so", "" };
static int loaded(const char *n) { void *h = dlopen(n, RTLD_LAZY | RTLD_NOLOAD); if (h) dlclose(h); return h != NULL; }
static void s_dll(void) {
    zpl_dll_handle h[2][4]; int n[2] = { 0, 0 };
    if (loaded(LIBS[0]) || loaded(LIBS[1])) mc_prune();
    for (int k = 0; k < 4; k++) {
        int l = mc_choose(2); mc_trans(1);
        if (n[l] && mc_choose(2)) { mc_log("unload %s\n", LIBS[l]); zpl_dll_unload(h[l][--n[l]]); }
        else { mc_log("load %s\n", LIBS[l]); zpl_dll_handle x = zpl_dll_load(LIBS[l]); if (!x) { void *d = dlopen(LIBS[l], RTLD_LAZY); MC_CHECK(!d, "%s is not loaded", LIBS[l]); mc_prune(); } h[l][n[l]++] = x; }
        for (int i = 0; i < 2; i++) MC_CHECK(loaded(LIBS[i]) == (n[i] > 0), "%s is %sloaded after %d more loads than unloads", LIBS[i], loaded(LIBS[i]) ? "" : "not ", n[i]);
    }
    for (int l = 0; l < 2; l++) { while (n[l]) zpl_dll_unload(h[l][--n[l]]); MC_CHECK(!loaded(LIBS[l]), "%s is still loaded after every load was undone", LIBS[l]); }
}
static void s_dll_names(void) {
    MC_CHECK(!zpl_dll_load(LIBS[2]), "a library that does not exist is loaded"); zpl_dll_handle c = zpl_dll_load("libc.so.6"); if (!c) mc_prune(); static const char *S[] = { "strtol", "qsort", "no_such_function_here", "" }; int k = mc_choose(4); zpl_dll_proc p = zpl_dll_proc_address(c, S[k]); mc_trans(1);
    MC_CHECK((void *)p == dlsym(c, S[k]) && !!p == (k < 2), "%s is found at %p", S[k], (void *)p); if (k == 0) { long (*f)(const char *, char **, int) = (long (*)(const char *, char **, int))p; MC_CHECK(f("-77", NULL, 10) == -77, "another function is called"); } zpl_dll_unload(c);
}
/* ---- processors */
static volatile long nproc = -2; static volatile int asked_proc;
long __real_sysconf(int n); long __wrap_sysconf(int n) { if (n != _SC_NPROCESSORS_ONLN || nproc == -2) return __real_sysconf(n); asked_proc = 1; return nproc; }
static void s_cores(void) {
    static const long N[] = { -1, 0, 1, 2, 3, 8, 64, 1024 }; nproc = N[mc_choose(8)]; zpl_affinity a; memset(&a, 0x5a, sizeof a); zpl_affinity_init(&a); long n = nproc; nproc = -2; mc_trans(1); MC_CHECK(!!a.is_accurate == (n > 0), "%ld processors: accurate %d", n, a.is_accurate); MC_CHECK(a.core_count == (n > 0 ? n : 1), "%ld processors: %ld cores", n, (long)a.core_count);
    long t = 0; for (long i = 0; i < a.core_count; i++) { zpl_isize k = zpl_affinity_thread_count_for_core(&a, i); MC_CHECK(k >= 1, "core %ld has %ld threads", i, (long)k); for (long j = 0; j < k; j++) MC_CHECK(zpl_affinity_set(&a, i, j), "a core that exists is refused"); t += k; } MC_CHECK(t == a.thread_count, "%ld threads in %ld", t, (long)a.thread_count);
    MC_CHECK(Z_TRAPS(zpl_affinity_thread_count_for_core(&a, a.core_count)) && Z_TRAPS(zpl_affinity_thread_count_for_core(&a, -1)), "a core that does not exist has threads"); zpl_affinity_destroy(&a);
}
/* ---- assertions and exit */
static int caught(char *b, int cap, void (*f)(int), int arg, int *status) {
    int p[2]; if (pipe(p)) mc_fail("pipe"); fflush(NULL); pid_t k = fork(); if (!k) { dup2(p[1], 2); dup2(p[1], 1); close(p[0]); close(p[1]); f(arg); _exit(77); }
    close(p[1]); int n = 0, r; while (n < cap - 1 && (r = (int)read(p[0], b + n, cap - 1 - n)) > 0) n += r; b[n] = 0; close(p[0]); waitpid(k, status, 0); return n;
}
static void f_assert(int k) { if (k == 0) zpl_assert_handler("a < b", "dir/file.c", 12, "value %d of %s", 5, "x"); if (k == 1) zpl_assert_handler("a < b", "dir/file.c", 2147483647, NULL); if (k == 2) zpl_assert_handler(NULL, "f", 0, "m"); if (k == 3) zpl_assert_handler(NULL, "f", 1, NULL); if (k == 4) zpl_assert_handler("100%d", "f", 3, "%s", "%n"); _exit(0); }
static void s_assert(void) {
    static const char *E[] = { "dir/file.c:(12): Assert Failure: `a < b` value 5 of x\n", "dir/file.c:(2147483647): Assert Failure: `a < b` \n", "f:(0): Assert Failure: m\n", "f:(1): Assert Failure: \n", "f:(3): Assert Failure: `100%d` %n\n" };
    char b[300]; int st, k = mc_choose(5); caught(b, 300, f_assert, k, &st); mc_trans(1); MC_CHECK(!strcmp(b, E[k]), "reported as \"%s\", expected \"%s\"", b, E[k]);
}
static void f_exit(int k) { zpl_exit((zpl_u32)k); }
static void s_exit(void) { int k = mc_choose(256), st; char b[99]; caught(b, 99, f_exit, k, &st); mc_trans(1); MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == k, "exit code %d gives status %d", k, st); }
/* ---- bits */
static void s_swap(void) {
    uint32_t hi = mc_choose(256); for (uint32_t lo = 0; lo < 256; lo++) { uint16_t v = (uint16_t)(hi << 8 | lo), r = zpl_endian_swap16(v); if (r != (uint16_t)(lo << 8 | hi)) mc_fail("swap16 of %x gives %x", v, r); }
    for (int sh = 0; sh < 64; sh += 8) for (uint32_t lo = 0; lo < 256; lo++) for (int s2 = 0; s2 < 64; s2 += 8) { uint64_t v = (uint64_t)hi << sh | (uint64_t)lo << s2, e = 0; for (int i = 0; i < 8; i++) e |= (v >> (8 * i) & 255) << (56 - 8 * i); uint64_t r = zpl_endian_swap64(v); if (r != e || zpl_endian_swap64(r) != v) mc_fail("swap64 of %llx gives %llx", (unsigned long long)v, (unsigned long long)r);
        if (sh < 32 && s2 < 32) { uint32_t r4 = zpl_endian_swap32((uint32_t)v); if (r4 != (uint32_t)(e >> 32)) mc_fail("swap32 of %llx gives %x", (unsigned long long)v, r4); }
        zpl_isize c = zpl_count_set_bits(v), ec = __builtin_popcountll(v); if (c != ec) mc_fail("%llx has %ld bits set", (unsigned long long)v, (long)c); if (zpl_count_set_bits(~v) != 64 - ec) mc_fail("%llx has another number of bits", (unsigned long long)~v); }
    mc_trans(256 * 64 * 4);
}
static void s_bits(void) {
    uint32_t bit = mc_choose(32), k = mc_choose(256); for (uint32_t j = 0; j < 256; j++) for (int f = 0; f < 4; f++) { uint32_t v = f == 0 ? k << 24 | j : f == 1 ? k << 8 | j << 16 : f == 2 ? ~(k << 24 | j) : k * 0x01010101u ^ j * 0x01000193u, x = v; int was = v >> bit & 1;
        if (!!zpl_bit_get(v, bit) != was) mc_fail("bit %u of %x is reported as %d", bit, v, !was); zpl_bit_set(&x, bit); if (x != (v | 1u << bit)) mc_fail("setting bit %u of %x gives %x", bit, v, x); x = v; zpl_bit_reset(&x, bit); if (x != (v & ~(1u << bit))) mc_fail("resetting bit %u of %x gives %x", bit, v, x); } mc_trans(3072);
}
static void s_pow2(void) {
    uint32_t k = mc_choose(1024); uint64_t n = 1u << 20; for (uint64_t i = 0; i < n; i++) { uint64_t v = (uint64_t)k * n + i; if (!v) continue; if (v > (1u << 30)) break; uint32_t e = v == 1 ? 1 : 1u << (32 - __builtin_clz((uint32_t)v - 1)); zpl_i32 r = zpl_next_pow2((zpl_i32)v); if ((uint32_t)r != e) mc_fail("the power of two from %llu on is %d", (unsigned long long)v, r); } mc_trans(n); mc_beat();
    if (k == 1023) MC_CHECK(zpl_next_pow2(1 << 30) == 1 << 30, "2^30 is a power of two");
}
static void s_macros(void) {
    int a = (int)mc_choose(13) - 6, b = (int)mc_choose(13) - 6; for (int c = -6; c <= 6; c++) { int lo = b < c ? b : c, hi = b < c ? c : b; MC_CHECK(zpl_min(a, b) == (a < b ? a : b) && zpl_max(a, b) == (a < b ? b : a), "min/max"); MC_CHECK(zpl_min3(a, b, c) == (a < lo ? a : lo) && zpl_max3(a, b, c) == (a > hi ? a : hi), "min3/max3 of %d %d %d", a, b, c);
        MC_CHECK(zpl_clamp(a, lo, hi) == (a < lo ? lo : a > hi ? hi : a), "clamp"); MC_CHECK(zpl_clamp01(a) == (a < 0 ? 0 : a > 1 ? 1 : a), "clamp01"); MC_CHECK(!!zpl_is_between(a, lo, hi) == (a >= lo && a <= hi) && !!zpl_is_between_limit(a, lo, hi) == (a >= lo && a < hi), "between %d %d %d", a, lo, hi); MC_CHECK(zpl_abs(a) == (a < 0 ? -a : a), "abs"); if (c > 0 && a >= 0) MC_CHECK(zpl_step(a, c) == a - a % c, "step"); }
    int x = a, y = b; zpl_swap(int, x, y); MC_CHECK(x == b && y == a, "swap"); unsigned m = (unsigned)a; ZPL_MASK_SET(m, 1, (unsigned)b); MC_CHECK(m == ((unsigned)a | (unsigned)b), "mask set"); m = (unsigned)a; ZPL_MASK_SET(m, 0, (unsigned)b); MC_CHECK(m == ((unsigned)a & ~(unsigned)b), "mask reset"); unsigned char one[2] = { 1, 0 }; unsigned short le; memcpy(&le, one, 2); MC_CHECK(!!ZPL_IS_LITTLE_ENDIAN == (le == 1) && !!ZPL_IS_BIG_ENDIAN == (le != 1), "byte order"); mc_trans(13 * 8);
}
mc_suite mc_suites[] = { { "environment", s_env }, { "environment_oom", s_env_oom }, { "command", s_cmd }, { "command_oom", s_cmd_oom }, { "command_real", s_cmd_real }, { "libraries", s_dll }, { "library_names", s_dll_names }, { "processors", s_cores }, { "assertions", s_assert }, { "exit", s_exit }, { "byte_order", s_swap }, { "bits", s_bits }, { "pow2", s_pow2 }, { "macros", s_macros }, { 0 } };
