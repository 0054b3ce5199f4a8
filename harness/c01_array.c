#include "z.h"
#ifndef MOST
#define MOST 1000000   /* populations beyond this are left out */
#endif
static volatile int one_ = 1;
#define one one_
typedef struct { int a, b; short c; } tri;     /* 12 bytes */
static tri mk_tri(int v) { tri t; memset(&t, 0, sizeof t); t.a = v; t.b = -v; t.c = (short)(v * 7); return t; }
#define T zpl_u8
#define N(x) u8_##x
#define MK(v) ((zpl_u8)(v))
#define EQ(a,b) ((a)==(b))
enum { u8_DQ = 3, u8_DT = 4, tri_DQ = 4, tri_DT = 5, i64_DQ = 3, i64_DT = 4 };
#include "c01_array.inc"
#undef T
#undef N
#undef MK
#undef EQ
#define T tri
#define N(x) tri_##x
#define MK(v) mk_tri(v)
#define EQ(p,q) ((p).a==(q).a && (p).b==(q).b && (p).c==(q).c)
#include "c01_array.inc"
#undef T
#undef N
#undef MK
#undef EQ
#define T zpl_i64
#define N(x) i64_##x
#define MK(v) ((zpl_i64)(v) * 0x100000001ll)
#define EQ(a,b) ((a)==(b))
#include "c01_array.inc"
/* large populations and batches, past every byte-sized and word-sized count, and large elements */
typedef struct { unsigned char d[300]; } wide;
static wide mk_wide(int v) { wide w; for (int i = 0; i < 300; i++) w.d[i] = (unsigned char)(v * 31 + i * 7 + (v >> 8)); return w; }
#define LARGE(NM, T, MK, NL, ...) static void NM(void) { \
    static const int L[] = { __VA_ARGS__ }; int n = L[mc_choose(NL)], how = mc_choose(4), k = 0, o = mc_choose(9); if (n > MOST) mc_prune(); mc_claim(); T *x, *r = (T *)malloc(sizeof(T) * (size_t)(n + 1200)); zpl_array_init(x, zpl_heap()); mc_log("population %d built %d op %d\n", n, how, o); mc_beat(); \
    for (int i = 0; i < n; i++) r[i] = MK(i); \
    if (how == 0) for (; k < n; k++) { MC_CHECK(zpl_array_append(x, r[k]), "append fails"); MC_CHECK(zpl_array_capacity(x) >= k + 1, "the capacity is below the count"); } \
    else if (how == 1) MC_CHECK(zpl_array_appendv(x, r, n), "appending all fails"); \
    else if (how == 2) { for (; k < n; k += 257) MC_CHECK(zpl_array_appendv(x, r + k, n - k < 257 ? n - k : 257), "appending a batch fails"); } \
    else { MC_CHECK(zpl_array_resize(x, n), "resizing fails"); for (int i = 0; i < n; i++) x[i] = r[i]; } \
    MC_CHECK(zpl_array_count(x) == n && zpl_array_capacity(x) >= n && !memcmp(x, r, sizeof(T) * (size_t)n), "%d elements were not kept", n); mc_beat(); \
    int at = (int[]){ 0, n / 2, n - 1, n }[mc_choose(4)]; T y = MK(n + 7); mc_trans(2); \
    switch (o) { \
    case 0: zpl_array_append_at(x, y, at); memmove(r + at + 1, r + at, sizeof(T) * (size_t)(n - at)); r[at] = y; if (at == n) { } n++; break; \
    case 1: { int b = (int[]){ 1, 255, 256, 1000 }[mc_choose(4)]; T *v = (T *)malloc(sizeof(T) * (size_t)b); for (int i = 0; i < b; i++) v[i] = MK(i + 50); zpl_array_appendv_at(x, v, b, at); memmove(r + at + b, r + at, sizeof(T) * (size_t)(n - at)); memcpy(r + at, v, sizeof(T) * (size_t)b); n += b; free(v); break; } \
    case 2: if (at == n) at--; zpl_array_remove_at(x, at); memmove(r + at, r + at + 1, sizeof(T) * (size_t)(n - at - 1)); n--; break; \
    case 3: MC_CHECK(zpl_array_set_capacity(x, at), "set_capacity fails"); MC_CHECK(zpl_array_capacity(x) == at, "set_capacity"); n = at; break; \
    case 4: { MC_CHECK(zpl_array_set_capacity(x, n + at), "set_capacity fails"); MC_CHECK(zpl_array_capacity(x) == n + at, "set_capacity"); break; } \
    case 5: { T *c; MC_CHECK(zpl_array_copy_init(c, x), "copy fails"); memset(x, 0xEE, sizeof(T) * (size_t)n); zpl_array_free(x); x = c; break; } \
    case 6: zpl_array_fill(x, at / 2, at, y); for (int i = at / 2; i < at; i++) r[i] = y; break; \
    case 7: MC_CHECK(zpl_array_reserve(x, n + at + 1), "reserve fails"); MC_CHECK(zpl_array_capacity(x) >= n + at + 1, "reserve"); break; \
    default: while (n > at) { MC_CHECK(!memcmp(&zpl_array_back(x), r + n - 1, sizeof(T)), "back"); zpl_array_pop(x); n--; } break; \
    } \
    MC_CHECK(zpl_array_count(x) == n && zpl_array_capacity(x) >= n, "%d counted (capacity %d), expected %d", (int)zpl_array_count(x), (int)zpl_array_capacity(x), n); for (int i = 0; i < n; i++) MC_CHECK(!memcmp(x + i, r + i, sizeof(T)), "element %d of %d is wrong", i, n); \
    mc_state(mc_hash_u(mc_hash_u(n, o), sizeof(T))); zpl_array_free(x); free(r); }
#define MK32(v) ((zpl_u32)(v) * 0x9E3779B1u)
LARGE(large_u32, zpl_u32, MK32, 10, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 70000)
LARGE(large_wide, wide, mk_wide, 6, 1, 13, 127, 256, 300, 1000)
LARGE(large_u8, zpl_u8, (zpl_u8), 5, 255, 256, 65535, 65536, 70000)
/* declaring and making in one step; the allocator a buffer and an array remember */
static void s_make(void) {
    char store[4096]; zpl_arena ar; zpl_arena_init_from_memory(&ar, store, sizeof store); zpl_allocator al = mc_choose(2) ? zpl_arena_allocator(&ar) : zpl_heap_allocator(); int n = mc_choose(20); mc_trans(1);
    zpl_array_make(tri, a, al); zpl_buffer_make(tri, b, al, n); zpl_buffer(tri) c; zpl_array(tri) d; MC_CHECK(a && b && zpl_array_count(a) == 0 && zpl_buffer_count(b) == 0 && zpl_buffer_capacity(b) == n, "making an array and a buffer");
    MC_CHECK(zpl_array_allocator(a).proc == al.proc && zpl_array_allocator(a).data == al.data && zpl_buffer_allocator(b).proc == al.proc && zpl_buffer_allocator(b).data == al.data, "the allocator is forgotten");
    for (int i = 0; i < n; i++) { MC_CHECK(zpl_array_append(a, mk_tri(i)), "append"); zpl_buffer_append(b, mk_tri(i)); } zpl_buffer_copy_init(c, b); MC_CHECK(zpl_array_copy_init(d, a), "copy"); MC_CHECK(zpl_buffer_allocator(c).data == al.data && zpl_array_allocator(d).data == al.data && zpl_buffer_allocator(c).proc == al.proc && zpl_array_allocator(d).proc == al.proc, "a copy lives elsewhere");
    for (int i = 0; i < n; i++) MC_CHECK(a[i].a == i && b[i].a == i && c[i].a == i && d[i].a == i && d[i].b == -i && c[i].b == -i, "element %d", i); zpl_array_free(a); zpl_array_free(d); zpl_buffer_free(b); zpl_buffer_free(c); mc_state(n);
}
mc_suite mc_suites[] = { { "made", s_make }, { "large_u32", large_u32 }, { "large_wide", large_wide }, { "large_u8", large_u8 },
    { "array_u8", u8_seq }, { "array_struct12", tri_seq }, { "array_i64", i64_seq },
    { "array_sweep_u8", u8_sweep }, { "array_sweep_struct12", tri_sweep },
    { "buffer_u8", u8_buffer }, { "buffer_struct12", tri_buffer }, { 0 } };
