/* C05 - shuffling permutes, whatever the raw random generator returns (it is replaced by a choice point) */
#pragma weak zpl_random_gen_u32
#include "z.h"
unsigned mc_gen_u32(void);
static int wide, calls;
static const unsigned RAW[] = { 0, 1, 2, 3, 0xffffffffu, 0x80000000u, 0x7fffffffu, 5, 0xfffffffeu };
unsigned mc_raw(void) { calls++; return RAW[mc_choose(wide ? 9 : 4)]; }
static void small(void) {       /* every raw answer */
    int n = mc_choose(5), sz = (int[]){ 1, 4, 12, 17 }[mc_choose(4)]; wide = 0; calls = 0; unsigned char *b = (unsigned char *)malloc((size_t)(n * sz) + (n == 0)); for (int i = 0; i < n * sz; i++) b[i] = (unsigned char)(i / sz * 16 + i % sz % 16);
    wide = n <= 3; if (sz == 4 && n > 1) { int (*q)[1] = (int (*)[1])b; zpl_shuffle_array(q + 1 - 1, n - 1 + 1); } else zpl_shuffle(b, n, sz); mc_trans((uint64_t)calls); int seen = 0;
    for (int i = 0; i < n; i++) { int k = b[i * sz] >> 4; MC_CHECK(k < n && !(seen & 1 << k), "element %d of %d is not one of the input or there twice", i, n); seen |= 1 << k; for (int j = 0; j < sz; j++) MC_CHECK(b[i * sz + j] == (unsigned char)(k * 16 + j % 16), "element %d was torn", i); mc_state(mc_hash(n * 40 + sz, b, (size_t)(n * sz))); }
    free(b);
}
static uint64_t st; static int mode;
static void large(void) { /* long arrays under structured raw sequences */
    int n = mc_choose(200), sz = (int[]){ 2, 8, 300 }[mc_choose(3)]; mode = 1 + mc_choose(5); st = (uint64_t)n; unsigned char *b = (unsigned char *)malloc((size_t)(n * sz) + (n == 0)); for (int i = 0; i < n * sz; i++) b[i] = (unsigned char)(i / sz + i % sz * 7);
    zpl_shuffle(b, n, sz); mode = 0; mc_trans((uint64_t)n); char seen[200] = { 0 };
    for (int i = 0; i < n; i++) { int k = b[i * sz]; MC_CHECK(k < n && !seen[k], "element %d of %d is not one of the input or there twice", i, n); seen[k] = 1; for (int j = 0; j < sz; j++) MC_CHECK(b[i * sz + j] == (unsigned char)(k + j * 7), "element %d was torn", i); }
    free(b);
}
/* every order can come out: all sequences of answers below a bound, until all orders were seen */
static int dig[10], nd, base_;
static void reach(void) {
    int n = 2 + mc_choose(3), sz = (int[]){ 1, 4, 12 }[mc_choose(3)], B = (int[]){ 2, 6, 12 }[n - 2], K = n == 4 ? 6 : 8, want = (int[]){ 2, 6, 24 }[n - 2], got = 0; unsigned char *b = (unsigned char *)malloc((size_t)(n * sz)); char seen[256] = { 0 }; memset(dig, 0, sizeof dig); mode = 9; base_ = K;
    for (long run = 0; got < want; run++) { nd = 0; for (int i = 0; i < n * sz; i++) b[i] = (unsigned char)(i / sz); zpl_shuffle(b, n, sz); mc_trans(1); if (!(run & 1023)) mc_beat(); int id = 0; for (int i = 0; i < n; i++) { MC_CHECK(b[i * sz] < n, "an element that was not there"); id = id * 4 + b[i * sz]; } if (!seen[id]) { seen[id] = 1; got++; mc_state(mc_hash_u((uint64_t)id, (uint64_t)(n * 100 + sz))); }
        int k = 0; while (k < K && ++dig[k] == B) dig[k++] = 0; if (k == K) break; }
    mode = 0; free(b); MC_CHECK(got == want, "only %d of the %d orders of %d elements can come out of a shuffle", got, want, n);
}
zpl_u32 zpl_random_gen_u32_replacement(void) { if (!mode) return mc_raw(); if (mode == 9) return nd < base_ ? (unsigned)dig[nd++] : 0; st = st * 6364136223846793005ULL + 1442695040888963407ULL; return mode == 1 ? 0 : mode == 2 ? 0xffffffffu : mode == 3 ? (unsigned)(st >> 33) : mode == 4 ? 0x80000000u : (unsigned)++calls; }
mc_suite mc_suites[] = { { "orders", reach }, { "shuffle", small }, { "shuffle_long", large }, { 0 } };
