#include "z.h"
/* comparators in the harness also check that only elements of the array (or the key) are handed to them */
static char *lo, *hi; static int esz; static const void *keyp;
static void inside(const void *p) { if (p == keyp && p) return; MC_CHECK((char *)p >= lo && (char *)p < hi && ((char *)p - lo) % esz == 0, "comparator called on memory outside the array (offset %ld)", (long)((char *)p - lo)); }
static int cmp_first(void const *a, void const *b) { inside(a); inside(b); return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b; }
static void mkelem(char *p, int key, int sz) { p[0] = (char)key; for (int i = 1; i < sz; i++) p[i] = (char)(key * 31 + i * 7); }
static void sort_one(const unsigned char *key, int n, int sz) {
    char *b = (char *)malloc(n * sz + (n == 0)); int cnt[256] = { 0 }; lo = b; hi = b + n * sz; esz = sz; keyp = NULL;
    for (int i = 0; i < n; i++) { mkelem(b + i * sz, key[i], sz); cnt[key[i]]++; }
    zpl_sort(b, n, sz, cmp_first); mc_trans(1);
    for (int i = 0; i < n; i++) {
        int k = (unsigned char)b[i * sz]; char e[600]; mkelem(e, k, sz); cnt[k]--;
        MC_CHECK(!memcmp(e, b + i * sz, sz), "sort: element %d was corrupted", i);
        if (i) MC_CHECK((unsigned char)b[(i - 1) * sz] <= k, "sort: not ordered at %d of %d", i, n);
    }
    for (int i = 0; i < 256; i++) MC_CHECK(cnt[i] == 0, "sort: not a permutation of its input");
    free(b);
}
static void sort_words(void) {      /* every sequence over a k-letter alphabet */
    int k = 2 + mc_choose(3); int maxn = mc_thorough ? (int[]){ 20, 13, 10 }[k - 2] : (int[]){ 17, 11, 8 }[k - 2];
    int n = mc_choose(maxn + 1), sz = (int[]){ 1, 4, 12 }[mc_choose(3)]; unsigned char a[32];
    for (int i = 0; i < n; i++) { a[i] = (unsigned char)mc_choose(k); mc_log("%d ", a[i]); }
    sort_one(a, n, sz); mc_state(mc_hash(sz, a, n));
}
static void sort_perm(void) {       /* every permutation */
    int n = mc_choose((mc_thorough ? 10 : 9) + 1); unsigned char a[16], u[16] = { 0 };
    for (int i = 0; i < n; i++) { int c = mc_choose(n - i), j; for (j = 0;; j++) if (!u[j] && c-- == 0) break; u[j] = 1; a[i] = (unsigned char)j; }
    sort_one(a, n, 8); mc_state(mc_hash(1000, a, n));
}
static int shape(int s, int i, int n) { switch (s) { case 0: return i; case 1: return n - i; case 2: return 7; case 3: return i < n / 2 ? i : n - i; case 4: return i % 2; case 5: return i % 5; case 6: return (i * 97) % 251; case 7: return (i & 1) ? i : n - i; case 8: return i == n - 1 ? 0 : i + 1; case 9: return i == 0 ? n : i; case 10: return (i * i) % 13; default: return (int)(mc_mix(i * 7919 + n) % 200); } }
static void sort_shapes(void) {
    int n = mc_choose(256), s = mc_choose(12), sz = (int[]){ 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 255, 256, 257, 300, 513 }[mc_choose(15)]; unsigned char a[256];
    for (int i = 0; i < n; i++) a[i] = (unsigned char)shape(s, i, n);
    mc_log("n %d shape %d size %d\n", n, s, sz); sort_one(a, n, sz); mc_state(mc_hash_u(mc_hash_u(n, s), sz + 5000));
}
/* library comparators: ordering and offset, every pair of boundary values */
#define CMPT(T, F, ...) { static const T v[] = { __VA_ARGS__ }; struct { int pad; T f; } x, y; int m = sizeof v / sizeof *v; int i = mc_choose(m), j = mc_choose(m); int off = mc_choose(2); \
    zpl_compare_proc *p = F(off ? zpl_offset_of(typeof(x), f) : 0); x.f = v[i]; y.f = v[j]; int r = off ? p(&x, &y) : p(&v[i], &v[j]); int e = v[i] < v[j] ? -1 : v[i] > v[j]; \
    MC_CHECK((r > 0) - (r < 0) == e, #F " orders %d,%d as %d", i, j, r); mc_state(mc_hash_u(mc_hash_u(i, j), off + 100 * __LINE__)); mc_trans(1); break; }
static void comparators(void) {
    switch (mc_choose(8)) {
    case 0: CMPT(zpl_u8, zpl_u8_cmp, 0, 1, 127, 128, 255)
    case 1: CMPT(zpl_i16, zpl_i16_cmp, 0, 1, -1, 32767, -32768, 255)
    case 2: CMPT(zpl_i32, zpl_i32_cmp, 0, 1, -1, 2147483647, -2147483647 - 1, 65536)
    case 3: CMPT(zpl_i64, zpl_i64_cmp, 0, 1, -1, ZPL_I64_MAX, ZPL_I64_MIN, 1ll << 32, -(1ll << 32))
    case 4: CMPT(zpl_isize, zpl_isize_cmp, 0, 1, -1, ZPL_I64_MAX, ZPL_I64_MIN, 1ll << 32)
    case 5: CMPT(zpl_f32, zpl_f32_cmp, 0.f, 1.f, -1.f, 1e30f, -1e30f, 1e-30f, 0.5f)
    case 6: CMPT(zpl_f64, zpl_f64_cmp, 0., 1., -1., 1e300, -1e300, 1e-300, 0.5)
    case 7: { static const char *v[] = { "", "a", "b", "ab", "aa", "\x7f", "\xff", "abc" }; struct { int p; const char *f; } x, y; int i = mc_choose(8), j = mc_choose(8); x.f = v[i]; y.f = v[j];
        zpl_compare_proc *p = zpl_str_cmp(zpl_offset_of(typeof(x), f)); int r = p(&x, &y), e = strcmp(v[i], v[j]); MC_CHECK((r > 0) - (r < 0) == (e > 0) - (e < 0), "str_cmp %d %d", i, j); mc_trans(1); break; }
    }
}
static void sort_typed(void) {      /* library comparator + sort on records, keyed at an offset */
    typedef struct { char tag; zpl_i32 key; zpl_i64 big; } R; int n = mc_choose(7); int which = mc_choose(2); R *a = (R *)malloc(sizeof(R) * n + (n == 0)); 
    static const zpl_i64 vals[] = { -5, 0, 3, 70000 };
    for (int i = 0; i < n; i++) { int c = mc_choose(4); memset(&a[i], 0, sizeof(R)); a[i].tag = (char)i; a[i].key = (zpl_i32)vals[c]; a[i].big = -vals[c] * 0x100000000ll; }
    int seen = 0; zpl_sort_array(a, n, which ? zpl_i64_cmp(zpl_offset_of(R, big)) : zpl_i32_cmp(zpl_offset_of(R, key))); mc_trans(1);
    for (int i = 0; i < n; i++) { seen |= 1 << a[i].tag; MC_CHECK(a[i].big == -(zpl_i64)a[i].key * 0x100000000ll, "record torn"); if (i) MC_CHECK(which ? a[i-1].big <= a[i].big : a[i-1].key <= a[i].key, "records not ordered"); }
    MC_CHECK(seen == (1 << n) - 1, "records lost"); free(a); mc_state(mc_hash_u(n, which + 90000));
}
#define RADIX(T, NM) static void NM(void) { \
    static const zpl_u64 dig[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xff00, 0x10000, 0x01020304, 0xffffffff, 0x100000000ull, 0xff000000000000ffull, 0x8000000000000000ull, ~0ull }; \
    int nd = 0; T d[16]; for (int i = 0; i < 14; i++) if ((zpl_u64)(T)dig[i] == dig[i] || i >= 12) d[nd++] = (T)dig[i]; \
    int n = mc_choose((mc_thorough ? 6 : 5) + 1); T *a = (T *)malloc(sizeof(T) * n + 1), *t = (T *)malloc(sizeof(T) * n + 1); zpl_u64 x = 0, s = 0; \
    for (int i = 0; i < n; i++) { a[i] = d[mc_choose(nd)]; x ^= mc_mix(a[i]); s += mc_mix(a[i] + 1); mc_log("%llx ", (unsigned long long)a[i]); } \
    zpl_radix_sort_##T##_(a, t, n); mc_trans(1); \
    for (int i = 0; i < n; i++) { x ^= mc_mix(a[i]); s -= mc_mix(a[i] + 1); if (i) MC_CHECK(a[i-1] <= a[i], "radix sort: not ordered at %d", i); } \
    MC_CHECK(x == 0 && s == 0, "radix sort: not a permutation of its input"); free(a); free(t); mc_state(mc_hash_u(n, sizeof(T))); } \
    static void NM##_sweep(void) { int n = mc_choose(600), sh = mc_choose(12); T *a = (T *)malloc(sizeof(T) * n + 1), *t = (T *)malloc(sizeof(T) * n + 1); zpl_u64 s = 0; \
    for (int i = 0; i < n; i++) { a[i] = (T)((zpl_u64)shape(sh, i, n) * (i % 3 ? 0x0101010101010101ull : 0x10000000000003ull)); s += mc_mix(a[i]); } \
    zpl_radix_sort_##T##_(a, t, n); mc_trans(1); for (int i = 0; i < n; i++) { s -= mc_mix(a[i]); if (i) MC_CHECK(a[i-1] <= a[i], "radix sort: not ordered at %d of %d", i, n); } MC_CHECK(s == 0, "radix sort: not a permutation"); \
    free(a); free(t); mc_state(mc_hash_u(mc_hash_u(n, sh), sizeof(T))); }
#define zpl_radix_sort_zpl_u8_ zpl_radix_sort_u8
#define zpl_radix_sort_zpl_u16_ zpl_radix_sort_u16
#define zpl_radix_sort_zpl_u32_ zpl_radix_sort_u32
#define zpl_radix_sort_zpl_u64_ zpl_radix_sort_u64
RADIX(zpl_u8, radix8) RADIX(zpl_u16, radix16) RADIX(zpl_u32, radix32) RADIX(zpl_u64, radix64)
static void bsearch_(void) {        /* every sorted sequence, every key including absent ones */
    int k = 5, n = mc_choose((mc_thorough ? 10 : 8) + 1), sz = mc_choose(2) ? 12 : 1; char *b = (char *)malloc(n * sz + 1); int prev = 0, key = mc_choose(2 * k + 1);
    for (int i = 0; i < n; i++) { prev += mc_choose(k - prev); mkelem(b + i * sz, prev * 2 + 1, sz); }
    lo = b; hi = b + n * sz; esz = sz; char kb[16]; mkelem(kb, key, sz); keyp = kb; int there = 0; for (int i = 0; i < n; i++) there |= b[i * sz] == key;
    zpl_isize r = zpl_binary_search(b, n, sz, kb, cmp_first); mc_trans(1);
    MC_CHECK(there ? (r >= 0 && r < n && b[r * sz] == key) : r == -1, "binary search for %d in %d sorted elements returned %ld (%s)", key, n, (long)r, there ? "present" : "absent");
    free(b); mc_state(mc_hash_u(mc_hash_u(n, key), prev + 700));
}
static void bsearch_large(void) {
    int n = mc_choose(300), key = mc_choose(303) - 1; zpl_i32 *b = (zpl_i32 *)malloc(sizeof(zpl_i32) * n + 1); for (int i = 0; i < n; i++) b[i] = i * 3; mc_beat();
    for (int dlt = -1; dlt <= 1; dlt++) { zpl_i32 kk = key * 3 + dlt; zpl_isize r = zpl_binary_search_array(b, n, &kk, zpl_i32_cmp(0)); mc_trans(1); int there = dlt == 0 && key >= 0 && key < n; MC_CHECK(there ? r == key : r == -1, "binary search %d in 0..%d step 3 returned %ld", kk, n * 3, (long)r); }
    free(b);
}
static void reverse_(void) {
    int n = mc_choose(40), sz = (int[]){ 1, 2, 3, 4, 8, 12, 300 }[mc_choose(7)]; char *b = (char *)malloc(n * sz + (n == 0)), e[400]; for (int i = 0; i < n; i++) mkelem(b + i * sz, i, sz);
    mc_log("n %d size %d\n", n, sz); if (sz == 8) { double *q = (double *)b; zpl_reverse_array(q + 1 - 1, n - 1 + 1); } else zpl_reverse(b, n, sz); mc_trans(1); for (int i = 0; i < n; i++) { mkelem(e, n - 1 - i, sz); MC_CHECK(!memcmp(e, b + i * sz, sz), "reverse: element %d of %d", i, n); } free(b); mc_state(mc_hash_u(n, sz + 800));
}
/* McIlroy's adversary answers comparisons so that every partition is as uneven as possible; the keys it settles on are then sorted for real */
static int av[6000], asolid, acand, agas;
static ZPL_COMPARE_PROC(adv_cmp) { int x = *(int *)a, y = *(int *)b; if (av[x] == agas && av[y] == agas) { if (x == acand) av[x] = asolid++; else av[y] = asolid++; } if (av[x] == agas) acand = x; else if (av[y] == agas) acand = y; return av[x] < av[y] ? -1 : av[x] > av[y]; }
static ZPL_COMPARE_PROC(int_cmp) { int x = *(int *)a, y = *(int *)b; return x < y ? -1 : x > y; }
static void sort_adversary(void) {
    int n = ((int[]){ 9, 17, 64, 255, 300, 500, 1000, 2000, 4000, 6000 })[mc_choose(mc_thorough ? 10 : 9)], dir = mc_choose(3), *p = (int *)malloc(sizeof(int) * (size_t)n); agas = n - 1; asolid = acand = 0;
    for (int i = 0; i < n; i++) { p[i] = i; av[i] = agas; } mc_beat(); zpl_sort(p, n, sizeof(int), adv_cmp); mc_beat(); mc_trans((uint64_t)n);
    for (int i = 0; i < n; i++) p[i] = dir == 2 ? -av[i] : dir ? av[n - 1 - i] : av[i]; zpl_sort(p, n, sizeof(int), int_cmp);
    for (int i = 1; i < n; i++) MC_CHECK(p[i - 1] <= p[i], "adversarial input of %d: element %d out of order", n, i);
    free(p);
}
/* lengths past every byte-sized and word-sized count */
static const int BIG[] = { 257, 600, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 140000 };
static zpl_u64 big_key(int sh, int i, int n) { switch (sh) { case 0: return (zpl_u64)i; case 1: return (zpl_u64)(n - i); case 2: return 7; case 3: return (zpl_u64)(i < n / 2 ? i : n - i); case 4: return mc_mix((zpl_u64)i) % 1000; default: return mc_mix((zpl_u64)i * 77 + 1); } }
#define BIGR(T) { T *a = malloc(sizeof(T) * (size_t)n), *t = malloc(sizeof(T) * (size_t)n); zpl_u64 x = 0; for (int i = 0; i < n; i++) { a[i] = (T)big_key(sh, i, n); x += mc_mix(a[i]); } if (way == 0) { zpl_radix_sort_##T##_(a, t, n); } else zpl_sort(a, n, sizeof(T), cmp_##T); for (int i = 0; i < n; i++) { x -= mc_mix(a[i]); if (i) MC_CHECK(a[i - 1] <= a[i], "%d elements: not ordered at %d", n, i); } MC_CHECK(x == 0, "%d elements: not a permutation", n); zpl_reverse(a, n, sizeof(T)); for (int i = 0; i < n; i++) { x += mc_mix(a[i]); if (i) MC_CHECK(a[i - 1] >= a[i], "%d elements reversed: not mirrored at %d", n, i); } \
    zpl_reverse(a, n, sizeof(T)); if (way) for (int k = 0; k < 40; k++) { T key = a[(zpl_i64)k * (n - 1) / 39]; zpl_isize r = zpl_binary_search(a, n, sizeof(T), &key, cmp_##T); MC_CHECK(r >= 0 && r < n && a[r] == key, "%d elements: a present element is not found", n); } free(a); free(t); break; }
#define BIGC(T) static ZPL_COMPARE_PROC(cmp_##T) { T x = *(T const *)a, y = *(T const *)b; return x < y ? -1 : x > y; }
BIGC(zpl_u8) BIGC(zpl_u16) BIGC(zpl_u32) BIGC(zpl_u64)
static void sort_big(void) {
    int n = BIG[mc_choose(11)], sh = mc_choose(6), way = mc_choose(2); mc_claim(); mc_log("%d elements, shape %d\n", n, sh); mc_beat(); mc_trans(1); mc_state(mc_hash_u(mc_hash_u(n, sh), way));
    switch (mc_choose(4)) { case 0: BIGR(zpl_u8) case 1: BIGR(zpl_u16) case 2: BIGR(zpl_u32) default: BIGR(zpl_u64) }
}
mc_suite mc_suites[] = { { "sort_big", sort_big }, { "sort_adversary", sort_adversary }, { "sort_words", sort_words }, { "sort_permutations", sort_perm }, { "sort_shapes", sort_shapes }, { "sort_records", sort_typed }, { "comparators", comparators },
    { "radix_u8", radix8 }, { "radix_u16", radix16 }, { "radix_u32", radix32 }, { "radix_u64", radix64 }, { "radix_u8_sweep", radix8_sweep }, { "radix_u16_sweep", radix16_sweep }, { "radix_u32_sweep", radix32_sweep }, { "radix_u64_sweep", radix64_sweep },
    { "binary_search", bsearch_ }, { "binary_search_large", bsearch_large }, { "reverse", reverse_ }, { 0 } };
