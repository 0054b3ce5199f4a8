/* S05 - formatted printing against the C library, for every buffer size */
#include "z.h"
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
static char full[600]; static long fn;             /* expected unbounded text */
static void sized(long size, const char *fmt, va_list va) {
    char *b = (char *)malloc((size_t)(size + 1)); b[size] = '#'; memset(b, '#', (size_t)size + 1);
    va_list v; va_copy(v, va); zpl_isize r = zpl_snprintf_va(b, size, fmt, v); va_end(v); mc_trans(1);
    MC_CHECK(b[size] == '#', "wrote behind a buffer of %ld", size);
    if (size > 0) { long k = fn < size - 1 ? fn : size - 1;
        MC_CHECK(!memcmp(b, full, (size_t)k), "\"%s\" into %ld bytes: \"%.*s\", expected \"%.*s\"", fmt, size, (int)k, b, (int)k, full); MC_CHECK(b[k] == 0, "\"%s\" into %ld bytes: \"%.*s\" is not terminated at %ld", fmt, size, (int)size, b, k); 
        if (fn + 1 < size) MC_CHECK(r == fn + 1, "\"%s\" into %ld bytes returned %ld for %ld characters", fmt, size, (long)r, fn); else if (fn >= size) MC_CHECK(r < 0, "\"%s\" cut to %ld bytes returned %ld", fmt, size, (long)r); else MC_CHECK(r < 0 || r == fn + 1, "\"%s\" filling %ld bytes returned %ld", fmt, size, (long)r); }
    free(b);
}
static void put(const char *fmt, ...) {
    va_list va; va_start(va, fmt); mc_log("\"%s\" -> \"%s\"\n", fmt, full); mc_state(mc_hash(mc_hash(5, fmt, strlen(fmt)), full, (size_t)fn));
    for (long s = fn + 3; s >= 0; s--) { if (s > 12 && s < fn - 6) { s = 12; } sized(s, fmt, va); }
    va_end(va);
}
#define REF(...) (fn = snprintf(full, sizeof full, __VA_ARGS__))
#define BOTH(...) do { REF(__VA_ARGS__); put(__VA_ARGS__); } while (0)
static const char *WID[] = { "", "1", "5", "12", "*" }, *PRE[] = { "", ".0", ".1", ".3", ".10", ".*" };
static int spec(char *f, int flags, int w, int p, const char *mc) { int k = 0; f[k++] = '%'; if (flags & 1) f[k++] = '-'; if (flags & 2) f[k++] = '+'; if (flags & 4) f[k++] = ' '; if (flags & 8) f[k++] = '0'; return k + sprintf(f + k, "%s%s%s", WID[w], PRE[p], mc); }
#define STARS(...) do { static const int SW[] = { 7, -7, 1 }; int sw = w == 4 ? SW[mc_choose(3)] : 0, spv = p == 5 ? ((int[]){ 4, -1, 0 })[mc_choose(3)] : 0; \
    if (w == 4 && p == 5) BOTH(f, sw, spv, __VA_ARGS__); else if (w == 4) BOTH(f, sw, __VA_ARGS__); else if (p == 5) BOTH(f, spv, __VA_ARGS__); else BOTH(f, __VA_ARGS__); } while (0)
static const long long VAL[] = { 0, 1, -1, 7, -42, 127, 128, -128, 255, 256, 32767, 32768, 65535, 123456789, 2147483647LL, -2147483647LL - 1, 4294967295LL, 0x7fffffffffffffffLL, -0x7fffffffffffffffLL - 1, 0x123456789abcdefLL };
static void s_int(void) {
    static const char *MOD[] = { "", "hh", "h", "l", "ll", "z", "t" }, CV[] = "diuxXo";
    int flags = mc_choose(16), w = mc_choose(5), p = mc_choose(6), m = mc_choose(7), c = mc_choose(6); long long v = VAL[mc_choose(20)];
    if ((flags & 8) && !w) mc_prune();           /* a zero flag without a width is zpl's zero width, see extensions */
    char f[40], mc[8]; sprintf(mc, "%s%c", MOD[m], CV[c]); if (m == 5 && c < 2) { } spec(f, flags, w, p, mc);
    long long shown = v; if (m == 0) shown = c < 2 ? (int)v : (long long)(unsigned)v; else if (m == 1) shown = c < 2 ? (signed char)v : (unsigned char)v; else if (m == 2) shown = c < 2 ? (short)v : (unsigned short)v;
    if (shown == 0 && p) mc_prune();               /* precision 0 and value 0: zpl prints 0 */
    if (m < 3) STARS((int)v); else STARS(v);
}
static void s_str(void) {
    static const char *V[] = { "", "a", "abc", "hello world, this is longer than the width", "\xff\x80 x%d" }; int flags = mc_choose(2), w = mc_choose(5), p = mc_choose(6), c = mc_choose(2); char f[40];
    if (!c) { spec(f, flags, w, p, "s"); const char *v = V[mc_choose(5)]; STARS(v); } else { if (p) mc_prune(); spec(f, flags, w, p, "c"); int v = "aZ%\n\xff"[mc_choose(5)]; STARS(v); }
}
/* a string without terminator is read up to the precision only */
static void s_unterminated(void) { int n = mc_choose(20), w = mc_choose(3) * 11; char *s = (char *)malloc((size_t)(n ? n : 1)); memset(s, 'k', (size_t)(n ? n : 1)); char f[40]; sprintf(f, w ? "%%%d.*s|" : "%%.*s|", w); BOTH(f, n, s); free(s); }
/* reals: shape exact, cut after the last digit printed, where the digits past the 15th count as noise */
static void s_real(void) {
    static const double V[] = { 1, -1, 0.5, -0.25, 0.125, 1.5, 2.75, 99.999, -0.001, 3.14159265358979, 123456789.125, -4294967296.5, 1e15, 0.1, 0.3, 1e-7, 9007199254740993.0, 18446744073709549568.0, 0, 18446744073709551616.0, -1e20, 1e300, 1.7976931348623157e308, 5.42, 999.9999999, 2e-6 };
    int flags = mc_choose(16), w = mc_choose(5), p = mc_choose(6); double v = V[mc_choose(26)]; if ((flags & 8) && !w) mc_prune(); char f[40], g[40]; spec(f, flags, w, p, "f"); int sw = w == 4 ? ((int[]){ 7, -7, 24 })[mc_choose(3)] : 0, spv = p == 5 ? ((int[]){ 4, -1, 0 })[mc_choose(3)] : 0;
    int prec = p == 5 ? (spv < 0 ? 6 : spv) : ((int[]){ 6, 0, 1, 3, 10 })[p];
    char t[500]; zpl_isize r = w == 4 && p == 5 ? zpl_snprintf(t, 500, f, sw, spv, v) : w == 4 ? zpl_snprintf(t, 500, f, sw, v) : p == 5 ? zpl_snprintf(t, 500, f, spv, v) : zpl_snprintf(t, 500, f, v);
    mc_log("%s %.17g -> \"%s\"\n", f, v, t); long n = (long)strlen(t); MC_CHECK(r == n + 1, "return %ld for \"%s\"", (long)r, t);
    /* the same digits with the library's sign and padding rules: print the digits as an already formatted integer-like text */
    char *q = t; while (*q == ' ') q++; char num[500]; int k = 0; char *b = q; if (*b == '-' || *b == '+') b++; while (*b && *b != ' ') num[k++] = *b++; num[k] = 0;
    char *dot = strchr(num, '.'); int want = v == 0 ? 0 : prec; MC_CHECK(want ? dot && (int)strlen(dot + 1) == want : !dot, "%s of %g printed \"%s\": %d decimals expected", f, v, t, want);
    for (char *x = num; *x; x++) MC_CHECK((*x >= '0' && *x <= '9') || *x == '.', "%s of %g printed \"%s\"", f, v, t);
    long double d = strtold(num, NULL), a = v < 0 ? -(long double)v : v, u = 1; for (int i = 0; i < want; i++) u /= 10; 
    int acc = 15; for (long double z = a; z >= 1 && acc > 0; z /= 10) acc--; long double half = 0.5L; for (int i = 0; i < acc; i++) half /= 10; long double lo = floorl((a + half * 0.99L) / u) * u, hi = floorl((a + half * 1.01L) / u) * u, tol = u * 1e-3L;
    MC_CHECK(want < acc ? (d > lo - tol && d < hi + tol) : (d <= a * (1 + 1e-15L) && d > a - u - a * 1e-15L), "%s of %.17g printed \"%s\"", f, v, t);
    /* sign, width, zero padding: rebuild from the significant digits */
    char *sig = num; while (sig[0] == '0' && sig[1] >= '0' && sig[1] <= '9') sig++; char e[500]; const char *sgn = v < 0 ? "-" : flags & 2 ? "+" : flags & 4 ? " " : ""; int width = w == 4 ? (sw < 0 ? -sw : sw) : ((int[]){ 0, 1, 5, 12 })[w], left = (flags & 1) || (w == 4 && sw < 0), len = (int)(strlen(sgn) + strlen(sig)), pad = width > len ? width - len : 0;
    if (left) snprintf(e, 500, "%s%s%*s", sgn, sig, pad, ""); else if (flags & 8) { int z = snprintf(e, 500, "%s", sgn); memset(e + z, '0', (size_t)pad); strcpy(e + z + pad, sig); } else snprintf(e, 500, "%*s%s%s", pad, "", sgn, sig);
    MC_CHECK(!strcmp(t, e), "%s of %g printed \"%s\", expected \"%s\"", f, v, t, e);
    strcpy(full, t); fn = n; sprintf(g, "%s", f); if (w == 4 && p == 5) put(g, sw, spv, v); else if (w == 4) put(g, sw, v); else if (p == 5) put(g, spv, v); else put(g, v);
}
/* several directives and plain text; every directive takes exactly its own argument */
static void s_mix(void) {
    static const char *D[] = { "%d", "%lld", "%s", "%c", "%u", "%%", "x%5d", "%-4s|", "%hhd", "%x", "%.2s", "text", "%zu", "" }; static const int TY[] = { 0, 1, 2, 0, 0, 3, 0, 2, 0, 0, 2, 3, 1, 3 };
    int n = mc_thorough ? 4 : 3; char f[64] = ""; int ty[4]; for (int i = 0; i < n; i++) { int k = mc_choose(14); strcat(f, D[k]); ty[i] = TY[k]; }
    /* the System V ABI passes int, long long and pointers alike: one register-sized slot each */
    long long a[4]; int m = 0; for (int i = 0; i < n; i++) if (ty[i] == 0) a[m] = 65 + m, m++; else if (ty[i] == 1) a[m] = 0x100000007LL * (m + 1), m++; else if (ty[i] == 2) { a[m] = (long long)(intptr_t)((const char *[]){ "one", "", "threee", "q" })[m]; m++; }
    for (int i = m; i < 4; i++) a[i] = 0; BOTH(f, a[0], a[1], a[2], a[3]);
}
static void s_ext(void) { int w = mc_choose(14), n = w > 0 ? w : 1; char f[16]; if (w) sprintf(f, "%%%dr|", w); else strcpy(f, "%r|"); memset(full, '=', (size_t)n); strcpy(full + n, "|"); fn = n + 1; put(f, '='); strcpy(full, "(null)"); fn = 6; put("%s", (char *)NULL); strcpy(full, "  (null)"); fn = 8; put("%8s", (char *)NULL); full[0] = 0; fn = 0; put("%0*d", 0, 5); put("%*d", 0, 5); put("%0d", 5); }
/* the standard streams, redirected to a pipe or a file for the moment */
static int to(int err, const char *fmt, ...) { va_list v; va_start(v, fmt); zpl_isize r = err ? zpl_printf_err_va(fmt, v) : zpl_printf_va(fmt, v); va_end(v); return (int)r; }
static void s_standard(void) {
    static const int LEN[] = { 0, 1, 7, 63, 4095, 4096, 40000 }; int err = mc_choose(2), pipe_ = mc_choose(2), n = 1 + mc_choose(2), pre = mc_choose(2); int fd[2], own = dup(1 + err); char *e = malloc(100000), *g = malloc(100000); long en = 0; int r[2], L[2];
    if (pipe_) { MC_CHECK(pipe(fd) == 0, "harness: pipe"); } else { fd[0] = fd[1] = memfd_create("out", 0); }
    fflush(stdout); fflush(stderr); if (pre) { if (write(fd[1], "pre", 3) != 3) mc_fail("harness: write"); memcpy(e, "pre", 3); en = 3; }
    dup2(fd[1], 1 + err);
    for (int i = 0; i < n; i++) { L[i] = LEN[mc_choose(7)]; if (L[i] == 40000 && pipe_ && i) L[i] = 4097; char *b = malloc((size_t)L[i] + 1); memset(b, 'p' + i, (size_t)L[i]); b[L[i]] = 0; int va = mc_choose(2); r[i] = va ? to(err, "%s%d", b, i) : err ? (int)zpl_printf_err("%s%d", b, i) : (int)zpl_printf("%s%d", b, i); memcpy(e + en, b, (size_t)L[i]); en += L[i]; e[en++] = '0' + i; free(b); mc_trans(1); }
    dup2(own, 1 + err); close(own); long gn = 0, k; if (pipe_) close(fd[1]); else lseek(fd[0], 0, SEEK_SET);
    while ((k = read(fd[0], g + gn, 100000 - (size_t)gn)) > 0) gn += k;
    close(fd[0]); for (int i = 0; i < n; i++) MC_CHECK(r[i] == L[i] + 2, "printing %d characters returned %d", L[i] + 1, r[i]);
    MC_CHECK(gn == en && !memcmp(g, e, (size_t)en), "%s to a %s: %ld bytes arrived, expected %ld (or they differ)", err ? "printf_err" : "printf", pipe_ ? "pipe" : "file", gn, en); free(e); free(g);
}
/* the other front ends */
static char *bva(const char *fmt, ...) { va_list v; va_start(v, fmt); char *r = zpl_bprintf_va(fmt, v); va_end(v); return r; }
static zpl_isize ava(char **t, const char *fmt, ...) { va_list v; va_start(v, fmt); zpl_isize r = zpl_asprintf_va(zpl_heap_allocator(), t, fmt, v); va_end(v); return r; }
static zpl_isize fva(zpl_file *f, const char *fmt, ...) { va_list v; va_start(v, fmt); zpl_isize r = zpl_fprintf_va(f, fmt, v); va_end(v); return r; }
static void s_front(void) {
    int L = ((int[]){ 0, 1, 100, 65534, 65535, 65536, 66000 })[mc_choose(7)], k = mc_choose(4), va = k < 3 ? mc_choose(2) : 0; char *b = (char *)malloc((size_t)L + 1); memset(b, 'f', (size_t)L); b[L] = 0; mc_trans(1); long keep = L < 65535 ? L : 65535;
    if (k == 0) { char *t = va ? bva("%s", b) : zpl_bprintf("%s", b); MC_CHECK((long)strlen(t) == keep && !memcmp(t, b, (size_t)keep), "bprintf of %d characters gives %ld", L, (long)strlen(t)); }
    else if (k == 1) { char *t = NULL; zpl_isize r = va ? ava(&t, "%s", b) : zpl_asprintf(zpl_heap_allocator(), &t, "%s", b); MC_CHECK(t && (long)strlen(t) == keep, "asprintf of %d characters", L); if (L < 65535) MC_CHECK(r == L + 1, "asprintf returned %ld", (long)r); zpl_free(zpl_heap_allocator(), t); }
    else if (k == 2) { zpl_file f; MC_CHECK(zpl_file_stream_new(&f, zpl_heap_allocator()), "stream"); zpl_isize r = va ? fva(&f, "%s", b) : zpl_fprintf(&f, "%s", b); zpl_isize n; zpl_u8 *p = zpl_file_stream_buf(&f, &n); MC_CHECK(n == keep && !memcmp(p, b, (size_t)keep), "fprintf of %d characters wrote %ld", L, (long)n); if (L < 65535) MC_CHECK(r == L + 1, "fprintf returned %ld", (long)r); zpl_file_close(&f); }
    else { zpl_string s = zpl_string_sprintf_buf(zpl_heap_allocator(), "%s", b); MC_CHECK(s && zpl_string_length(s) == keep, "string_sprintf_buf"); zpl_string_free(s); }
    free(b);
}
/* wide fields, long strings and many digits */
static void cmp_big(long size, char *want, long n, const char *fmt, ...) {
    char *b = (char *)malloc((size_t)size); memset(b, '#', (size_t)size); va_list v; va_start(v, fmt); zpl_isize r = zpl_snprintf_va(b, size, fmt, v); va_end(v); mc_trans(1); long k = n < size - 1 ? n : size - 1;
    for (long i = 0; i < k; i++) MC_CHECK(b[i] == want[i], "\"%s\" into %ld bytes: character %ld is %02x, expected %02x", fmt, size, i, b[i], want[i]); MC_CHECK(!b[k], "\"%s\" into %ld bytes is not terminated at %ld", fmt, size, k); if (n + 1 < size) MC_CHECK(r == n + 1, "\"%s\" into %ld bytes returned %ld for %ld characters", fmt, size, (long)r, n); else if (n >= size) MC_CHECK(r < 0, "\"%s\" cut to %ld bytes returned %ld", fmt, size, (long)r); free(b);
}
#define BIG(...) do { long n_ = snprintf(NULL, 0, __VA_ARGS__); char *w_ = (char *)malloc((size_t)n_ + 1); snprintf(w_, (size_t)n_ + 1, __VA_ARGS__); for (long s_ = n_ - 2; s_ <= n_ + 3; s_++) if (s_ > 0) cmp_big(s_, w_, n_, __VA_ARGS__); cmp_big(n_ / 2 + 1, w_, n_, __VA_ARGS__); cmp_big(n_ + 5000, w_, n_, __VA_ARGS__); free(w_); } while (0)
static void s_long(void) {
    static const int D[] = { 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 131, 255, 256, 257, 639, 640, 641, 1000, 4095, 4097, 32768, 65535, 65536, 70000, 140000 }; int n = D[mc_choose(25)], k = mc_choose(12), star = mc_choose(2); mc_claim(); char f[64]; mc_state(mc_hash_u((uint64_t)n, (uint64_t)(k * 2 + star)));
    static const char *F[] = { "a%*db", "a%-*db", "a%0*db", "a%.*db", "a%.*xb", "a%*sb", "a%-*sb", "a%.*sb", "%s|%*d|", "%*s%*s", "a%+0*ib%%", "%*c|" }; const char *q = F[k]; char *o = f; for (; *q; q++) if (*q == '*' && !star) o += sprintf(o, "%d", n); else *o++ = *q; *o = 0;
    char *t = (char *)malloc((size_t)n + 1); for (int i = 0; i < n; i++) t[i] = (char)('a' + (i * 7 + i / 26) % 26); t[n] = 0;
    if (k < 5 || k == 10) { static const int V[] = { 0, 7, -42, 2147483647, -2147483647 - 1 }; for (int i = k == 3 || k == 4; i < 5; i++) if (star) BIG(f, n, V[i]); else BIG(f, V[i]); }
    else if (k < 8) { const char *v[] = { "", "x", t, "tail of it" }; for (int i = 0; i < 4; i++) if (star) BIG(f, n, v[i]); else BIG(f, v[i]); if (k == 7) { char *u = (char *)malloc((size_t)n); memcpy(u, t, (size_t)n); if (star) BIG(f, n, u); else BIG(f, u); free(u); } }
    else if (k == 8) { if (star) BIG(f, t, n, 5); else BIG(f, t, 5); } else if (k == 9) { if (star) BIG(f, n, "l", n, t); else BIG(f, "l", t); } else { if (star) BIG(f, n, 'c'); else BIG(f, 'c'); }
    free(t);
}
mc_suite mc_suites[] = { { "long", s_long }, { "integers", s_int }, { "strings", s_str }, { "unterminated", s_unterminated }, { "reals", s_real }, { "mixed", s_mix }, { "extensions", s_ext }, { "front_ends", s_front }, { "standard_streams", s_standard }, { 0 } };
