#include "z.h"
typedef struct { zpl_u16 a; zpl_u32 b; zpl_u8 c; } rec;
ZPL_RING_DECLARE(static, ring_, zpl_u32); ZPL_RING_DEFINE(ring_, zpl_u32);
ZPL_RING_DECLARE(static, rring_, rec); ZPL_RING_DEFINE(rring_, rec);
static int same(rec x, rec y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
static rec mk(int t) { rec r; memset(&r, 0, sizeof r); r.a = (zpl_u16)(t * 257); r.b = (zpl_u32)t * 0x01010101u; r.c = (zpl_u8)~t; return r; }
#define BODY(NAME, T, P, MK, EQ, DQ, DT) \
static void NAME(int cap, int depth, int pre) { \
    ZPL_JOIN2(P, T) r; T q[512]; int h = 0, n = 0, tick = 0; \
    ZPL_JOIN2(P, init)(&r, zpl_heap_allocator(), cap); \
    for (int i = 0; i < pre; i++) { T v = MK(++tick); ZPL_JOIN2(P, append)(&r, v); if (n == cap) { memmove(q, q + 1, sizeof(T) * (n - 1)); n--; } q[n++] = v; } \
    for (int s = 0; s <= depth; s++) { \
        MC_CHECK(!!ZPL_JOIN2(P, empty)(&r) == (n == 0), "empty() wrong with %d of %d queued", n, cap); \
        MC_CHECK(!!ZPL_JOIN2(P, full)(&r) == (n == cap), "full() wrong with %d of %d queued", n, cap); \
        mc_state(mc_hash_u(mc_hash_u(mc_hash_u(cap, n), r.head), sizeof(T))); if (s == depth) break; \
        int o = mc_choose(4); mc_trans(1); \
        if (o == 0) { T v = MK(++tick); mc_log("append %d\n", tick); ZPL_JOIN2(P, append)(&r, v); if (n == cap) { memmove(q, q + 1, sizeof(T) * (n - 1)); n--; } q[n++] = v; } \
        else if (o == 1) { T *p = ZPL_JOIN2(P, get)(&r); mc_log("get\n"); MC_CHECK((p == NULL) == (n == 0), "get returned %s with %d queued", p ? "an element" : "NULL", n); \
            if (n) { MC_CHECK(EQ(*p, q[0]), "get did not return the oldest element"); memmove(q, q + 1, sizeof(T) * (n - 1)); n--; } } \
        else if (o == 2) { int k = mc_choose(cap + 2); mc_log("append_array of %d\n", k); zpl_array(T) a; zpl_array_init(a, zpl_heap_allocator()); \
            for (int i = 0; i < k; i++) { T v = MK(++tick); zpl_array_append(a, v); if (n == cap) { memmove(q, q + 1, sizeof(T) * (n - 1)); n--; } q[n++] = v; } \
            ZPL_JOIN2(P, append_array)(&r, a); zpl_array_free(a); } \
        else { int k = mc_choose(cap + 2); mc_log("get_array max %d\n", k); zpl_array(T) a = ZPL_JOIN2(P, get_array)(&r, k, zpl_heap_allocator()); int e = k < n ? k : n; \
            MC_CHECK(a != NULL, "get_array NULL"); \
            MC_CHECK(zpl_array_count(a) == e, "get_array(max=%d) with %d queued returned %ld elements", k, n, (long)zpl_array_count(a)); \
            for (int i = 0; i < e; i++) MC_CHECK(EQ(a[i], q[i]), "get_array element %d is not the %d-th oldest", i, i); \
            memmove(q, q + e, sizeof(T) * (n - e)); n -= e; zpl_array_free(a); } \
    } \
    /* drain: what is left must come out in order */ \
    for (int i = 0; i < n; i++) { T *p = ZPL_JOIN2(P, get)(&r); MC_CHECK(p && EQ(*p, q[i]), "drain: element %d", i); } \
    MC_CHECK(ZPL_JOIN2(P, get)(&r) == NULL, "drain: extra element"); \
    ZPL_JOIN2(P, free)(&r); (void)h; \
}
#define SEQ(a,b) ((a)==(b))
#define MKU(t) ((zpl_u32)(t) * 0x9E3779B1u)
BODY(run_u32, zpl_u32, ring_, MKU, SEQ, 7, 9)
BODY(run_rec, rec, rring_, mk, same, 6, 8)
static void s_u32(void) { int c = mc_choose(4) + 1; run_u32(c, mc_thorough ? 7 : 6, 0); }
static void s_rec(void) { int c = mc_choose(3) + 1; run_rec(c, mc_thorough ? 8 : 6, 0); }
static void s_sweep(void) { int c = mc_choose(34) + 1, pre = mc_choose(3 * c + 2); run_u32(c, 2, pre); }
/* capacities, fills and batches past every byte-sized and word-sized count */
static void s_large(void) {
    static const int C[] = { 126, 127, 128, 254, 255, 256, 257, 1000, 32767, 65534, 65535, 65536, 70000 }; int cap = C[mc_choose(13)], bulk = mc_choose(2), round = mc_choose(3); mc_claim(); ring_zpl_u32 r; zpl_u32 in = 0, out = 0; ring_init(&r, zpl_heap(), cap); mc_log("capacity %d\n", cap); mc_beat();
    for (int k = 0; k < 3; k++) {
        int n = (int[]){ cap - 1, cap, cap + 1, cap / 2, 2 * cap + 3 }[mc_choose(5)]; if (bulk) { zpl_array(zpl_u32) a; zpl_array_init_reserve(a, zpl_heap(), n); for (int i = 0; i < n; i++) zpl_array_append(a, MKU(in + i)); ring_append_array(&r, a); zpl_array_free(a); } else for (int i = 0; i < n; i++) ring_append(&r, MKU(in + i));
        in += (zpl_u32)n; if (in - out > (zpl_u32)cap) out = in - (zpl_u32)cap; mc_trans(1); MC_CHECK(!!ring_full(&r) == (in - out == (zpl_u32)cap) && !!ring_empty(&r) == (in == out), "full or empty wrong with %u of %d queued", in - out, cap); int have = (int)(in - out), t = round == 0 ? have : round == 1 ? have / 2 : k;
        if (bulk) { zpl_array(zpl_u32) a = ring_get_array(&r, t, zpl_heap()); MC_CHECK(a && zpl_array_count(a) == t, "%d of %d elements were taken", (int)zpl_array_count(a), t); for (int i = 0; i < t; i++) MC_CHECK(a[i] == MKU(out + i), "element %d of %d is not the oldest", i, t); zpl_array_free(a); } else for (int i = 0; i < t; i++) { zpl_u32 *q = ring_get(&r); MC_CHECK(q && *q == MKU(out + i), "element %d of %d is not the oldest", i, t); } out += (zpl_u32)t;
    }
    while (out < in) { zpl_u32 *q = ring_get(&r); MC_CHECK(q && *q == MKU(out), "an element was lost"); out++; } MC_CHECK(!ring_get(&r) && ring_empty(&r), "an element too many"); mc_state(mc_hash_u(cap, in)); ring_free(&r);
}
mc_suite mc_suites[] = { { "ring_large", s_large }, { "ring_u32", s_u32 }, { "ring_struct", s_rec }, { "ring_sweep", s_sweep }, { 0 } };
