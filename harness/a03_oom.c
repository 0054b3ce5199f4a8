/* A03: every allocation failure point of every short operation sequence. */
#include "z.h"
static long live, left = -1, nalloc; static void *held[256]; static int nheld;
static ZPL_ALLOCATOR_PROC(fa_proc) {
    (void)allocator_data; (void)flags;
    if (type == ZPL_ALLOCATION_ALLOC) { nalloc++; if (left == 0) return NULL; if (left > 0) left--; if (size > 1L << 40) return NULL; void *p = malloc(size ? size : 1); memset(p, flags & 1 ? 0 : 0xA5, size); live++; held[nheld++] = p; return p; }
    if (type == ZPL_ALLOCATION_FREE) { if (!old_memory) return NULL; int i; for (i = 0; i < nheld && held[i] != old_memory; i++); MC_CHECK(i < nheld, "a block that is not allocated was freed"); held[i] = held[--nheld]; live--; free(old_memory); return NULL; }
    if (type == ZPL_ALLOCATION_RESIZE) { zpl_allocator a = { fa_proc, NULL }; return zpl_default_resize_align(a, old_memory, old_size, size, alignment); }
    return NULL;
}
static zpl_allocator FA = { fa_proc, NULL };
static void start(void) { live = 0; nheld = 0; left = -1; nalloc = 0; }
/* the k-th allocation from here on fails, and with all set every later one too */
static void arm(void) { left = mc_choose(4); mc_log("allocation %ld from now fails\n", left); }
static void end(void) { left = -1; MC_CHECK(live == 0, "%ld block(s) remain allocated after releasing everything", live); }
/* ---- arrays */
static int *A, ref[512], nref, tickv;
static void acheck(const char *w) { MC_CHECK(A, "%s: array pointer lost", w); MC_CHECK(zpl_array_count(A) == nref, "%s: count is %ld, expected %d", w, (long)zpl_array_count(A), nref); MC_CHECK(zpl_array_capacity(A) >= nref, "%s: capacity", w); for (int i = 0; i < nref; i++) MC_CHECK(A[i] == ref[i], "%s: element %d changed", w, i); 
    int *p = A; long cap = zpl_array_capacity(A); for (long i = nref; i < cap; i++) p[i] = 7; }
static void aop(int armed) {
    int o = mc_choose(9), i, k, t[40], ok = 1, save = nref, pre[512]; memcpy(pre, ref, sizeof pre); mc_trans(1); long left0 = left;
    switch (o) {
    case 0: t[0] = ++tickv; mc_log("append\n"); ok = zpl_array_append(A, t[0]); ref[nref++] = t[0]; break;
    case 1: t[0] = ++tickv; i = mc_choose(2); mc_log("append_at %d\n", i); ok = zpl_array_append_at(A, t[0], i); if (i > nref) i = nref; memmove(ref + i + 1, ref + i, sizeof(int) * (nref - i)); ref[i] = t[0]; nref++; break;
    case 2: k = (int[]){ 1, 9, 30 }[mc_choose(3)]; for (i = 0; i < k; i++) t[i] = ++tickv; mc_log("appendv %d\n", k); ok = zpl_array_appendv(A, t, k); for (i = 0; i < k; i++) ref[nref++] = t[i]; break;
    case 3: k = (int[]){ 1, 30 }[mc_choose(2)]; for (i = 0; i < k; i++) t[i] = ++tickv; mc_log("appendv_at %d at 0\n", k); ok = zpl_array_appendv_at(A, t, k, 0); memmove(ref + k, ref, sizeof(int) * nref); memcpy(ref, t, sizeof(int) * k); nref += k; break;
    case 4: k = (int[]){ 0, 1, 3, 50 }[mc_choose(4)]; mc_log("set_capacity %d\n", k); ok = zpl_array_set_capacity(A, k); if (nref > k) nref = k; if (ok) MC_CHECK(zpl_array_capacity(A) == k, "set_capacity"); break;
    case 5: k = (int[]){ 3, 60 }[mc_choose(2)]; mc_log("reserve %d\n", k); ok = zpl_array_reserve(A, k); if (ok) MC_CHECK(zpl_array_capacity(A) >= k, "reserve"); break;
    case 6: k = (int[]){ 0, 2, 40 }[mc_choose(3)]; mc_log("resize %d\n", k); { long c = nref; ok = zpl_array_resize(A, k); if (ok) for (i = c; i < k; i++) A[i] = ref[i] = ++tickv; nref = k; } break;
    case 7: mc_log("grow\n"); ok = zpl_array_grow(A, nref + 1); break;
    case 8: { int *B = NULL; mc_log("copy_init\n"); ok = zpl_array_copy_init(B, A); if (ok) { MC_CHECK(B && zpl_array_count(B) == nref, "copy"); for (i = 0; i < nref; i++) MC_CHECK(B[i] == ref[i], "copy differs"); zpl_array_free(B); } else MC_CHECK(B == NULL, "copy target set although the copy failed"); break; }
    }
    if (!ok) { nref = save; memcpy(ref, pre, sizeof pre); mc_log("  -> failed\n"); MC_CHECK(left == 0, "failure reported although no allocation failed"); }
    if (ok && armed) MC_CHECK(!(left0 == 0 && 0), "x");
    acheck(ok ? "success" : "after a failed operation");
}
static void s_array(void) {
    start(); nref = 0; A = NULL; int cap = (int[]){ 0, 1, 8 }[mc_choose(3)]; int first = mc_choose(2);
    if (first == 1) { arm(); }
    int ok = zpl_array_init_reserve(A, FA, cap);
    if (!ok) { MC_CHECK(A == NULL && first && left == 0, "init failed"); left = -1; end(); mc_state(1); return; }
    int n = mc_thorough ? 3 : 2, at = first ? n : mc_choose(n);
    for (int d = 0; d < n; d++) { if (d == at) arm(); aop(d >= at); mc_state(mc_hash_u(mc_hash_u(nref, zpl_array_capacity(A)), left)); }
    left = -1; t: if (zpl_array_append(A, 5)) { ref[nref++] = 5; acheck("append once memory is back"); } else mc_fail("append fails once memory is back");
    (void)&&t; zpl_array_free(A); end();
}
/* ---- dynamic strings */
static zpl_string S; static char sref[1024]; static int slen;
static void scheck(const char *w) { MC_CHECK(S && zpl_string_length(S) == slen && !memcmp(S, sref, slen) && S[slen] == 0, "%s: string is not the reference sequence", w); MC_CHECK(zpl_string_capacity(S) >= slen, "%s: capacity below length", w); memset(S + slen + 0, 0, 1); }
static void sop(void) {
    static const char *txt[] = { "", "x", "hello", "a somewhat longer text that needs room" }; int o = mc_choose(8), k; char pre[1024]; int pl = slen; memcpy(pre, sref, sizeof pre); mc_trans(1); zpl_string r = S; int made = 0;
    switch (o) {
    case 0: k = mc_choose(4); mc_log("appendc\n"); r = zpl_string_appendc(S, txt[k]); memcpy(sref + slen, txt[k], strlen(txt[k])); slen += strlen(txt[k]); break;
    case 1: k = mc_choose(4); mc_log("append_length\n"); r = zpl_string_append_length(S, txt[3], k * 3); memcpy(sref + slen, txt[3], k * 3); slen += k * 3; break;
    case 2: k = mc_choose(4); mc_log("set\n"); r = zpl_string_set(S, txt[k]); strcpy(sref, txt[k]); slen = strlen(txt[k]); break;
    case 3: k = mc_choose(2) * 70; mc_log("make_space_for %d\n", k); r = zpl_string_make_space_for(S, k); if (r) MC_CHECK(zpl_string_available_space(r) >= k, "space"); break;
    case 4: mc_log("append_rune\n"); r = zpl_string_append_rune(S, 0x20AC); memcpy(sref + slen, "\xE2\x82\xAC", 3); slen += 3; break;
    case 5: mc_log("append_fmt\n"); r = zpl_string_append_fmt(S, "%d-%s", 42, "q"); memcpy(sref + slen, "42-q", 4); slen += 4; break;
    case 6: { mc_log("duplicate\n"); zpl_string d = zpl_string_duplicate(FA, S); if (d) { MC_CHECK(zpl_string_are_equal(d, S) && d != S, "duplicate differs"); zpl_string_free(d); } else { MC_CHECK(left == 0, "duplicate failed"); } made = 1; break; }
    case 7: { const char *p[3] = { "ab", "", "cde" }; mc_log("join\n"); zpl_string d = zpl_string_join(FA, p, 3, ", "); if (d) { MC_CHECK(zpl_string_length(d) == 9 && !strcmp(d, "ab, , cde"), "join"); zpl_string_free(d); } else MC_CHECK(left == 0, "join failed"); made = 1; break; }
    }
    (void)made;
    if (!r) { mc_log("  -> failed\n"); MC_CHECK(left == 0, "failure reported although no allocation failed"); slen = pl; memcpy(sref, pre, sizeof pre); } else S = r;
    scheck(r ? "success" : "after a failed operation");
}
static void s_string(void) {
    start(); slen = 0; int n = mc_thorough ? 3 : 2, at = mc_choose(n + 1), form = mc_choose(4);
    if (at == n) arm();
    if (form == 0) { S = zpl_string_make(FA, "seed"); strcpy(sref, "seed"); slen = 4; } else if (form == 1) { S = zpl_string_make(FA, ""); sref[0] = 0; } else if (form == 2) { S = zpl_string_make_reserve(FA, 20); } else { S = zpl_string_make_length(FA, "seedling", 6); memcpy(sref, "seedli", 6); slen = 6; }
    if (!S) { MC_CHECK(at == n && left == 0, "make failed"); end(); mc_state(2); return; }
    for (int d = 0; d < n; d++) { if (d == at) arm(); sop(); mc_state(mc_hash_u(mc_hash_u(slen, zpl_string_capacity(S)), left + 9)); }
    left = -1; zpl_string_free(S); end();
}
/* ---- memory files */
static void s_stream(void) {
    start(); zpl_file f; memset(&f, 0x33, sizeof f); unsigned char ref[400]; long len = 0, cur = 0; unsigned char seed[20]; for (int i = 0; i < 20; i++) seed[i] = i + 1; int form = mc_choose(2), n = 3, at = mc_choose(n + 1); 
    if (at == n) arm();
    int ok = form ? zpl_file_stream_open(&f, FA, seed, 20, ZPL_FILE_STREAM_CLONE_WRITABLE) : zpl_file_stream_new(&f, FA);
    if (form) { memcpy(ref, seed, 20); len = 20; }
    if (!ok) { MC_CHECK(left == 0, "opening failed"); end(); mc_state(3); return; }
    for (int d = 0; d < n; d++) {
        if (d == at) arm();
        int k = (int[]){ 1, 7, 60 }[mc_choose(3)]; unsigned char b[64]; for (int i = 0; i < k; i++) b[i] = d * 50 + i; mc_trans(1);
        zpl_isize w = -7; int r = zpl_file_write_at_check(&f, b, k, cur, &w); mc_log("write %d at %ld: %d\n", k, cur, r);
        if (r) { MC_CHECK(w == k, "write count"); memcpy(ref + cur, b, k); if (cur + k > len) len = cur + k; cur += k; } else MC_CHECK(left == 0, "write failed although memory was available");
        zpl_isize sz; unsigned char *p = zpl_file_stream_buf(&f, &sz); MC_CHECK(sz == len && !memcmp(p, ref, len), "contents differ after a %s write", r ? "successful" : "failed");
        mc_state(mc_hash_u(len, left + 9));
    }
    zpl_file_close(&f); end();
}
/* ---- copied blocks and strings */
static void s_copy(void) {
    start(); static const char src[] = "source text"; int o = mc_choose(7); int fail = mc_choose(4) ; left = fail == 3 ? -1 : fail; long want = left; void *p = NULL; mc_trans(1); (void)want;
    mc_log("operation %d, allocation %ld fails\n", o, left);
    switch (o) {
    case 0: p = zpl_alloc_copy(FA, src, sizeof src); if (p) MC_CHECK(!memcmp(p, src, sizeof src), "copy"); break;
    case 1: p = zpl_alloc_copy_align(FA, src, sizeof src, 8); if (p) MC_CHECK(!memcmp(p, src, sizeof src), "copy"); break;
    case 2: p = zpl_alloc_str(FA, src); if (p) MC_CHECK(!strcmp(p, src), "copy"); break;
    case 3: p = zpl_alloc_str_len(FA, src, 4); if (p) MC_CHECK(!strcmp(p, "sour"), "copy"); break;
    case 4: p = zpl_strdup(FA, (char *)src, sizeof src); if (p) MC_CHECK(!strcmp(p, src), "copy"); break;
    case 5: { char t[] = "a\nbb\n\nc"; char **l = zpl_str_split_lines(FA, t, false); if (l) { MC_CHECK(zpl_array_count(l) == 4 && !strcmp(l[3], "c"), "lines"); zpl_array_free(l); p = NULL; left = left == 0 ? 0 : -1; MC_CHECK(live == 0, "lines not released"); end(); mc_state(40); return; } break; }
    case 6: { char t[200]; for (int i = 0; i < 60; i++) { t[3 * i] = 'x'; t[3 * i + 1] = 'y'; t[3 * i + 2] = '\n'; } t[180] = 0; char **l = zpl_str_split_lines(FA, t, true); if (l) { MC_CHECK(zpl_array_count(l) == 60, "lines lost: %ld", (long)zpl_array_count(l)); zpl_array_free(l); end(); mc_state(41); return; } break; }
    }
    MC_CHECK(p || left == 0, "failure reported although no allocation failed"); MC_CHECK(!(p && fail == 0), "success reported although the allocation failed");
    mc_state(mc_hash_u(o, p != NULL)); zpl_free(FA, p); end();
}
/* ---- sizes no memory can hold: the operation fails and changes nothing */
typedef struct { char b[24]; } e24;
static void s_huge(void) {
    static const long N[] = { INT64_MAX, INT64_MAX - 1, INT64_MAX - 15, INT64_MAX - 47, INT64_MAX - 65536, 1L << 62, (1L << 62) + 1, (1L << 61) + 1, 1L << 60, (1L << 60) + 1, 0x0AAAAAAAAAAAAAABL, 0x1555555555555556L };
    start(); int al = mc_choose(3), kind = mc_choose(9); long n = N[mc_choose(12)]; static char mem[4096] __attribute__((aligned(16))); zpl_arena R; zpl_arena_init_from_memory(&R, mem, sizeof mem); zpl_allocator a = al == 0 ? zpl_heap_allocator() : al == 1 ? zpl_arena_allocator(&R) : FA; int ok = 0; mc_trans(1); mc_log("operation %d, size %ld, allocator %d\n", kind, n, al);
    /* the counting allocator would have to refuse by itself */ left = al == 2 ? 8 : -1; if (al == 2 && n < 1L << 61) mc_prune();
    if (kind < 5) { long long *A8 = NULL; e24 *E = NULL; char *C = NULL; int es = mc_choose(3); if (kind == 0) { ok = es == 0 ? zpl_array_init_reserve(A8, a, n) : es == 1 ? zpl_array_init_reserve(E, a, n) : zpl_array_init_reserve(C, a, n); MC_CHECK(!ok && !A8 && !E && !C, "an array of %ld elements is made", n); end(); mc_state((uint64_t)n); return; }
        MC_CHECK(es == 0 ? zpl_array_init_reserve(A8, a, 2) : es == 1 ? zpl_array_init_reserve(E, a, 2) : zpl_array_init_reserve(C, a, 2), "init"); for (int i = 0; i < 2; i++) { e24 t = { { (char)(65 + i) } }; if (es == 0) zpl_array_append(A8, 7 + i); else if (es == 1) zpl_array_append(E, t); else zpl_array_append(C, (char)(97 + i)); }
        void **x = es == 0 ? (void **)&A8 : es == 1 ? (void **)&E : (void **)&C; ok = kind == 1 ? zpl__array_set_capacity(x, n) : kind == 2 ? zpl__array_reserve(x, n) : kind == 3 ? zpl__array_resize(x, n) : zpl__array_grow(x, n); MC_CHECK(!ok, "an array is enlarged to %ld elements", n);
        zpl_array_header *h = ZPL_ARRAY_HEADER(*x); MC_CHECK(h->count == 2 && h->capacity == 2, "the array changed: count %ld, capacity %ld", (long)h->count, (long)h->capacity); if (es == 0) MC_CHECK(A8[0] == 7 && A8[1] == 8, "contents"); else if (es == 1) MC_CHECK(E[0].b[0] == 65 && E[1].b[0] == 66, "contents"); else MC_CHECK(C[0] == 97 && C[1] == 98, "contents");
        if (es == 0) { MC_CHECK(zpl_array_append(A8, 9) && A8[2] == 9, "append afterwards"); zpl_array_free(A8); } else if (es == 1) { e24 t = { { 67 } }; MC_CHECK(zpl_array_append(E, t) && E[2].b[0] == 67, "append afterwards"); zpl_array_free(E); } else { MC_CHECK(zpl_array_append(C, 'c') && C[2] == 'c', "append afterwards"); zpl_array_free(C); } }
    else if (kind < 7) { if (kind == 5) { S = zpl_string_make_reserve(a, n); MC_CHECK(!S, "a string with room for %ld characters is made", n); end(); mc_state((uint64_t)n + 5); return; }
        S = zpl_string_make(a, "hello"); MC_CHECK(S != NULL, "make"); slen = 5; strcpy(sref, "hello"); zpl_string r = zpl_string_make_space_for(S, n); MC_CHECK(!r, "a string gets room for %ld more characters", n); scheck("after the refusal"); r = zpl_string_appendc(S, " again"); MC_CHECK(r != NULL, "append afterwards"); S = r; slen = 11; strcpy(sref, "hello again"); scheck("append afterwards"); zpl_string_free(S); }
    else { zpl_file f; memset(&f, 0x33, sizeof f); MC_CHECK(zpl_file_stream_new(&f, a), "stream"); MC_CHECK(zpl_file_write(&f, "abc", 3), "write"); zpl_isize w = -7; ok = kind == 7 ? zpl_file_write_at_check(&f, "xyz", 3, n, &w) : zpl_file_write_at_check(&f, "xyz", 3, n - 3, &w); MC_CHECK(!ok && w == 0, "a write at offset %ld of a memory file reports %ld bytes", n, (long)w);
        zpl_isize sz; unsigned char *p = zpl_file_stream_buf(&f, &sz); MC_CHECK(sz == 3 && !memcmp(p, "abc", 3), "contents changed"); MC_CHECK(zpl_file_write_at(&f, "def", 3, 3), "write afterwards"); p = zpl_file_stream_buf(&f, &sz); MC_CHECK(sz == 6 && !memcmp(p, "abcdef", 6), "contents"); zpl_file_close(&f); }
    mc_state(mc_hash_u((uint64_t)n, kind)); end();
}
mc_suite mc_suites[] = { { "huge", s_huge }, { "array", s_array }, { "string", s_string }, { "stream", s_stream }, { "copy", s_copy }, { 0 } };
