/* A04: raw memory primitives against byte-wise definitions; exactly placed operands, guard bytes on both sides. */
#include "z.h"
#define BIG 640
static unsigned char X[BIG], Y[BIG], R[BIG]; static uint32_t seed;
static void rnd(unsigned char *p, int n) { for (int i = 0; i < n; i++) { seed = seed * 1664525u + 1013904223u; p[i] = (unsigned char)(seed >> 24); } }
static int lens(void) { int k = mc_choose(mc_thorough ? 270 : 113); if (mc_thorough) return k < 260 ? k : (int[]){ 300, 301, 319, 383, 384, 385, 399, 400, 411, 415 }[k - 260]; return k < 97 ? k : (int[]){ 100, 120, 127, 128, 129, 150, 200, 248, 255, 256, 257, 258, 263, 264, 300, 384 }[k - 97]; }
/* heap block with exact bounds so that any access outside is reported */
static void s_set(void) {
    int n = lens(), off = mc_choose(16); static const unsigned char vals[] = { 0, 1, 0x7f, 0x80, 0xff, 0xa5 }; unsigned char v = vals[mc_choose(6)]; mc_log("set %d bytes at offset %d to %d\n", n, off, v);
    rnd(X, BIG); memcpy(R, X, BIG); memset(R + 32 + off, v, n); void *r = zpl_memset(X + 32 + off, v, n); mc_trans(1); mc_state(n * 256 + off * 8 + v % 7);
    MC_CHECK(r == X + 32 + off, "memset returned another address"); for (int i = 0; i < BIG; i++) MC_CHECK(X[i] == R[i], "memset: byte %d", i - 32 - off);
    rnd(X, BIG); memcpy(R, X, BIG); memset(R + 32 + off, 0, n); zpl_zero_size(X + 32 + off, n); MC_CHECK(!memcmp(X, R, BIG), "zero_size");
}
static void s_copy(void) {
    int n = lens(), so = mc_choose(16), dof = mc_choose(16); mc_log("copy %d from offset %d to %d\n", n, so, dof); rnd(X, BIG); rnd(Y, BIG); memcpy(R, Y, BIG); memcpy(R + 32 + dof, X + 32 + so, n); mc_trans(1); mc_state(n * 256 + so * 16 + dof);
    void *r = zpl_memcopy(Y + 32 + dof, X + 32 + so, n); MC_CHECK(r == Y + 32 + dof && !memcmp(Y, R, BIG), "memcopy");
    rnd(Y, BIG); memcpy(R, Y, BIG); memcpy(R + 32 + dof, X + 32 + so, n); r = zpl_memmove(Y + 32 + dof, X + 32 + so, n); MC_CHECK(r == Y + 32 + dof && !memcmp(Y, R, BIG), "memmove of separate blocks");
}
static void s_move(void) {      /* all overlaps */
    int n = lens(), so = mc_choose(8); int d = mc_choose(2 * 40 + 1) - 40; if (so + 48 + d < 0) mc_prune(); mc_log("move %d from %d by %d\n", n, so, d);
    rnd(X, BIG); memcpy(R, X, BIG); memmove(R + 64 + so + d, R + 64 + so, n); void *r = zpl_memmove(X + 64 + so + d, X + 64 + so, n); mc_trans(1); mc_state(n * 1024 + so * 100 + d);
    MC_CHECK(r == X + 64 + so + d, "memmove returned another address"); for (int i = 0; i < BIG; i++) MC_CHECK(X[i] == R[i], "memmove: byte %d", i - 64 - so - d);
}
static int sgn(int a) { return a < 0 ? -1 : a > 0; }
static void s_cmp(void) {
    int n = mc_choose(20), pos = mc_choose(n + 1); static const unsigned char v[] = { 0, 1, 0x7f, 0x80, 0xff }; unsigned char a = v[mc_choose(5)], b = v[mc_choose(5)]; unsigned char *p = malloc(n + 1), *q = malloc(n + 1); p++; q++; p--, q--;
    unsigned char *P = malloc(n ? n : 1), *Q = malloc(n ? n : 1); memset(P, 9, n); memset(Q, 9, n); if (pos < n) { P[pos] = a; Q[pos] = b; if (pos + 1 < n) Q[pos + 1] = 77; } mc_trans(1); mc_state(n * 1000 + pos * 25 + a % 5 * 5 + b % 5);
    int e = n ? memcmp(P, Q, n) : 0, g = zpl_memcompare(P, Q, n); mc_log("n %d pos %d %d %d\n", n, pos, a, b); MC_CHECK(sgn(e) == sgn(g), "memcompare: %d, expected sign of %d", g, e); free(P); free(Q); free(p); free(q);
}
static void s_swap(void) {
    int n = lens(), o = mc_choose(8); if (mc_choose(2)) { n += 256; if (n > 560) mc_prune(); } rnd(X, BIG); rnd(Y, BIG); unsigned char RX[BIG], RY[BIG]; memcpy(RX, X, BIG); memcpy(RY, Y, BIG); memcpy(RX + o + 16, Y + 24, n); memcpy(RY + 24, X + o + 16, n);
    mc_log("swap %d\n", n); zpl_memswap(X + o + 16, Y + 24, n); mc_trans(1); mc_state(n * 8 + o); MC_CHECK(!memcmp(X, RX, BIG) && !memcmp(Y, RY, BIG), "memswap of %d bytes", n);
    memcpy(R, X, BIG); zpl_memswap(X + 16, X + 16, n); MC_CHECK(!memcmp(X, R, BIG), "memswap with itself");
}
static void s_chr(void) {      /* any content: every position of hit, hits in front and behind ignored */
    int n = mc_choose(mc_thorough ? 80 : 50), o = mc_choose(8), pos = mc_choose(n + 2); static const unsigned char v[] = { 0, 1, 0x7f, 0x80, 0x81, 0xff, 'a' }, w[] = { 0, 1, 2, 0x7e, 0x80, 0xfe, 0xff }; unsigned char c = v[mc_choose(7)], f = w[mc_choose(7)]; if (f == c) mc_prune();
    unsigned char *raw = malloc(n + 8 + 8), *b = (unsigned char *)(((uintptr_t)raw + 7) & ~7ul) + o; 
    unsigned char *blk = malloc(o + n ? o + n : 1); memset(blk, f, o + n); (void)b; unsigned char *p = blk + o; if (o) memset(blk, c, o);
    if (pos < n) p[pos] = c; if (pos + 3 < n) p[pos + 3] = c; mc_trans(1); mc_state(n * 4096 + o * 512 + pos * 7 + c % 7); mc_log("search %d in %d bytes, hit at %d, offset %d\n", c, n, pos, o);
    const void *r = zpl_memchr(p, c, n), *e = n ? memchr(p, c, n) : NULL; MC_CHECK(r == e, "memchr: index %ld, expected %ld", r ? (long)((unsigned char *)r - p) : -1, e ? (long)((unsigned char *)e - p) : -1);
    const void *r2 = zpl_memrchr(p, c, n); const unsigned char *e2 = NULL; for (int i = 0; i < n; i++) if (p[i] == c) e2 = p + i; MC_CHECK(r2 == e2, "memrchr"); free(blk); free(raw);
}
static void s_bounds(void) {    /* exact heap blocks: nothing outside the ranges is touched */
    int n = lens(), o = mc_choose(8); unsigned char *a = malloc(o + n ? o + n : 1), *b = malloc(n ? n : 1); memset(a, 3, o + n); memset(b, 4, n); mc_trans(1); mc_state(n * 8 + o); mc_log("blocks of %d, offset %d\n", n, o);
    zpl_memset(a + o, 5, n); zpl_memcopy(b, a + o, n); zpl_memmove(a + o, b, n); MC_CHECK(zpl_memcompare(a + o, b, n) == 0, "compare"); zpl_memchr(a + o, 77, n); zpl_memrchr(a + o, 77, n); zpl_memswap(a + o, b, n); if (n > 3) { zpl_memmove(a + o, a + o + 3, n - 3); zpl_memmove(a + o + 3, a + o, n - 3); zpl_memmove(a + o, a + o + 1, n - 1); zpl_memmove(a + o + 1, a + o, n - 1); }
    for (int i = 0; i < o; i++) MC_CHECK(a[i] == 3, "in front of the range"); free(a); free(b);
}
static void s_align(void) {
    int k = mc_choose(13); long al = 1L << k; long base = (long[]){ 0, 4096, 0x7ffffff0L, 0x100000000L, 0x7fffffffff00L }[mc_choose(5)]; int d = mc_choose(300); long v = base + d, e = v; while (e % al) e++; mc_trans(1); mc_state(v * 16 + k);
    MC_CHECK((long)zpl_align_forward((void *)v, al) == e, "align_forward(%ld, %ld)", v, al); MC_CHECK(zpl_align_forward_i64(v, al) == e, "align_forward_i64(%ld, %ld)", v, al); MC_CHECK(zpl_align_forward_u64(v, al) == (unsigned long)e, "align_forward_u64");
    long odd = (long[]){ 3, 5, 12, 24, 100 }[d % 5]; e = v; while (e % odd) e++; MC_CHECK(zpl_align_forward_i64(v, odd) == e, "align_forward_i64(%ld, %ld)", v, odd);
    int p2 = v > 0 && (v & (v - 1)) == 0; MC_CHECK(zpl_is_power_of_two(v) == p2, "is_power_of_two(%ld)", v); MC_CHECK(!zpl_is_power_of_two(-v), "is_power_of_two of a negative number");
    MC_CHECK(zpl_pointer_add((void *)v, d) == (void *)(v + d) && zpl_pointer_sub((void *)(v + d), d) == (void *)v && zpl_pointer_diff((void *)v, (void *)(v + d)) == d && zpl_pointer_diff((void *)(v + d), (void *)v) == -d, "pointer arithmetic");
}
/* typed helper macros: computed counts and addresses, and variables whose names a macro body could also use */
static void s_typed(void) {
    typedef struct { int a; char b[7]; } item; int n = mc_choose(6), i = mc_choose(3), one = (volatile int){ 1 }; item *x = malloc(sizeof(item) * 12), *y = malloc(sizeof(item) * 12), *r = malloc(sizeof(item) * 12); mc_trans(1); mc_state(n * 3 + i); mc_log("%d items from %d\n", n, i);
    rnd((void *)x, sizeof(item) * 12); rnd((void *)y, sizeof(item) * 12); memcpy(r, y, sizeof(item) * 12); memcpy(r + i, x + i + 1, sizeof(item) * n);
    zpl_memcopy_array(y + i, x + i + one, n - one + one); MC_CHECK(!memcmp(y, r, sizeof(item) * 12), "memcopy_array");
    memmove(r + i + 1, r + i, sizeof(item) * n); zpl_memmove_array(y + i + one, y + i, n - one + one); MC_CHECK(!memcmp(y, r, sizeof(item) * 12), "memmove_array");
    memset(r + i + 1, 0, sizeof(item) * n); zpl_zero_array(y + i + one, n - one + one); MC_CHECK(!memcmp(y, r, sizeof(item) * 12), "zero_array");
    memset(r + i, 0, sizeof(item)); zpl_zero_item(y + i); MC_CHECK(!memcmp(y, r, sizeof(item) * 12), "zero_item");
    item tmp = x[i], temp = x[n], a = x[0], b = x[1]; zpl_swap(item, tmp, temp); MC_CHECK(!memcmp(&tmp, x + n, sizeof(item)) && !memcmp(&temp, x + i, sizeof(item)), "swap of variables tmp and temp"); zpl_swap(item, b, a); MC_CHECK(!memcmp(&a, x + 1, sizeof(item)) && !memcmp(&b, x, sizeof(item)), "swap");
    int j = i, k = n + 3; item u = x[j], v = x[k]; zpl_swap(item, x[j], *(x + k)); MC_CHECK(!memcmp(&u, x + k, sizeof u) && !memcmp(&v, x + j, sizeof v), "swap of array elements");
    MC_CHECK(zpl_pointer_add_const(x, n) == (char *)x + n && zpl_pointer_sub_const((char *)x + n, n) == x, "pointer_add_const / pointer_sub_const");
    MC_CHECK(zpl_kilobytes(n + one) == (n + 1) * 1024ll && zpl_megabytes(n + one) == (n + 1) * 1048576ll && zpl_gigabytes(n + one) == (n + 1) * 1073741824ll && zpl_terabytes(n + one) == (n + 1) * 1099511627776ll, "byte sizes");
    MC_CHECK(zpl_offset_of(item, b) == offsetof(item, b) && zpl_size_of(item) == sizeof(item) && zpl_align_of(item) == _Alignof(item), "size, offset and alignment of a type");
    item arr[5]; MC_CHECK(zpl_count_of(arr) == 5 && zpl_count_of("abc") == 4, "count_of");
    free(x); free(y); free(r);
}
/* lengths past every byte-sized and word-sized count, exact heap blocks */
static void s_large(void) {
    static const int L[] = { 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000, 1 << 20 }; int n = L[mc_choose(14)], o = mc_choose(9), w = mc_choose(6); unsigned char *a = malloc((size_t)n + o), *b = malloc((size_t)n), *r = malloc((size_t)n + o), *q = malloc((size_t)n); rnd(a, n + o); rnd(b, n); memcpy(r, a, (size_t)n + o); memcpy(q, b, (size_t)n); mc_trans(1); mc_state(mc_hash_u(mc_hash_u(n, o), w)); mc_log("%d bytes at offset %d, operation %d\n", n, o, w);
    switch (w) {
    case 0: zpl_memset(a + o, 0xA5, n); memset(r + o, 0xA5, (size_t)n); break;
    case 1: zpl_memcopy(a + o, b, n); memcpy(r + o, b, (size_t)n); break;
    case 2: { int d = (int[]){ 1, 3, 8, 64, 255, 256, 400 }[mc_choose(7)], up = mc_choose(2); zpl_memmove(up ? a + d : a, up ? a : a + d, n + o - d); memmove(up ? r + d : r, up ? r : r + d, (size_t)(n + o - d)); break; }
    case 3: zpl_memswap(a + o, b, n); memcpy(q, r + o, (size_t)n); for (int i = 0; i < n; i++) { MC_CHECK(b[i] == q[i], "swapping %d bytes: byte %d", n, i); } for (int i = 0; i < o; i++) MC_CHECK(a[i] == r[i], "in front of the range"); memcpy(r, a, (size_t)n + o); memcpy(q, b, (size_t)n); zpl_memswap(a + o, b, n); for (int i = 0; i < n; i++) MC_CHECK(b[i] == r[o + i] && a[o + i] == q[i], "swapping %d bytes twice: byte %d", n, i); memcpy(r, a, (size_t)n + o); break;
    case 4: { int at = (int[]){ 0, n / 2, n - 1 }[mc_choose(3)]; memcpy(b, a + o, (size_t)n); MC_CHECK(zpl_memcompare(a + o, b, n) == 0, "equal blocks of %d bytes compare as different", n); b[at] ^= 0x80; int e = a[o + at] < b[at] ? -1 : 1; MC_CHECK(sgn(zpl_memcompare(a + o, b, n)) == e, "blocks of %d bytes that differ at %d", n, at); break; }
    default: { int at = (int[]){ 0, n / 2, n - 1, n }[mc_choose(4)]; memset(a, 7, (size_t)n + o); if (at < n) a[o + at] = 9; MC_CHECK(zpl_memchr(a + o, 9, n) == (at < n ? a + o + at : NULL) && zpl_memrchr(a + o, 9, n) == (at < n ? a + o + at : NULL), "searching %d bytes, hit at %d", n, at); memcpy(r, a, (size_t)n + o); break; }
    }
    MC_CHECK(!memcmp(a, r, (size_t)n + o), "operation %d on %d bytes gives wrong bytes", w, n); free(a); free(b); free(r); free(q);
}
/* lengths beyond 32 bits: the same two megabytes mapped over and over, then a tail of its own */
#include <sys/mman.h>
static unsigned char *far_map(long *len, int big) {
    const long S = 2 << 20; long n = (big ? 1l << 32 : 1l << 31) / S; unsigned char *v = mmap(NULL, (size_t)(n + 1) * S, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); MC_CHECK(v != MAP_FAILED, "harness: address space"); int f = memfd_create("far", 0); MC_CHECK(f >= 0 && ftruncate(f, 2 * S) == 0, "harness: memory file");
    for (long i = 0; i <= n; i++) MC_CHECK(mmap(v + i * S, (size_t)S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, f, i == n ? S : 0) != MAP_FAILED, "harness: map"); close(f); *len = n * S + 100; return v;
}
static void s_far(void) {
    int big = mc_choose(2), w = mc_choose(5); long n; mc_claim(); unsigned char *a = far_map(&n, big), *b = w == 1 || w == 2 ? far_map(&n, big) : NULL; unsigned char *t = a + n - 100; mc_trans(1); mc_state((uint64_t)(n + w)); mc_log("%ld bytes, operation %d\n", n, w); mc_beat();
    switch (w) {
    case 0: zpl_memset(a, 0x5A, n); for (int i = 0; i < 100; i++) MC_CHECK(t[i] == 0x5A, "byte %ld was not set", n - 100 + i); MC_CHECK(a[0] == 0x5A && a[12345] == 0x5A && t[100] == 0, "setting %ld bytes", n); break;
    case 1: for (int i = 0; i < 100; i++) b[n - 100 + i] = (unsigned char)(i + 1); b[77] = 3; zpl_memcopy(a, b, n); for (int i = 0; i < 100; i++) MC_CHECK(t[i] == i + 1, "byte %ld was not copied", n - 100 + i); MC_CHECK(a[77] == 3 && t[100] == 0, "copying %ld bytes", n); break;
    case 2: MC_CHECK(zpl_memcompare(a, b, n) == 0, "equal blocks of %ld bytes differ", n); mc_beat(); t[99] = 1; MC_CHECK(zpl_memcompare(a, b, n) > 0, "blocks of %ld bytes that differ in the last one are equal", n); break;
    case 3: t[50] = 9; MC_CHECK(zpl_memchr(a, 9, n) == t + 50, "searching %ld bytes", n); break;
    default: t[99] = 9; MC_CHECK(zpl_memrchr(a, 9, n) == t + 99, "searching %ld bytes backwards", n); mc_beat(); a[5] = 8; MC_CHECK(zpl_memrchr(a + (n - 100 - (2 << 20)), 8, (2 << 20) + 100) == a + (n - 100 - (2 << 20)) + 5, "searching backwards"); break;
    }
    munmap(a, (size_t)(n - 100 + (2 << 20))); if (b) munmap(b, (size_t)(n - 100 + (2 << 20)));
}
#ifdef FAR
mc_suite mc_suites[] = { { "far", s_far }, { 0 } };
#else
mc_suite mc_suites[] = { { "large", s_large }, { "memset", s_set }, { "memcopy", s_copy }, { "memmove", s_move }, { "memcompare", s_cmp }, { "memswap", s_swap }, { "memchr", s_chr }, { "bounds", s_bounds }, { "align", s_align }, { "typed", s_typed }, { 0 } };
#endif
