#include "z.h"
#ifndef MOST
#define MOST 1000000   /* populations beyond this are left out */
#endif
typedef struct { zpl_u64 x; zpl_u8 y; } val;
ZPL_TABLE(static, tab, tab_, val);
#define NK 6
static const zpl_u64 keyset[3][NK] = { { 1, 9, 17, 2, 0, ~0ull }, { 0, 8, 16, 24, 32, 40 }, { 5, 1ull << 32, (1ull << 32) + 5, 0x8000000000000000ull, 13, 0x123456789abcdefull } };
static const zpl_u64 *K; static int mp_n; static zpl_u64 mp_k[1024]; static val mp_v[1024];
static void on_map(zpl_u64 k, val v) { if (mp_n < 1024) { mp_k[mp_n] = k; mp_v[mp_n] = v; } mp_n++; }
static void on_mut(zpl_u64 k, val *v) { v->x += 1000; v->y ^= 1; (void)k; mp_n++; }
static int in[NK]; static val ref[NK]; static int tick;
static val fresh(void) { val v; memset(&v, 0, sizeof v); v.x = (zpl_u64)++tick * 0x100000001ull; v.y = (zpl_u8)tick; return v; }
static int veq(val a, val b) { return a.x == b.x && a.y == b.y; }
static void check(tab *t, const char *op) {
    int n = 0; uint64_t h = 0;
    for (int i = 0; i < NK; i++) {
        val *p = tab_get(t, K[i]); n += in[i];
        MC_CHECK((p != NULL) == in[i], "%s: key #%d is %s", op, i, in[i] ? "lost" : "present but was never set or was removed");
        if (p) MC_CHECK(veq(*p, ref[i]), "%s: key #%d has a stale or foreign value", op, i);
        zpl_isize s = tab_slot(t, K[i]); MC_CHECK((s >= 0) == in[i], "%s: slot of key #%d", op, i);
        if (s >= 0) MC_CHECK(s < zpl_array_count(t->entries) && t->entries[s].key == K[i] && veq(t->entries[s].value, ref[i]), "%s: slot content", op);
        h = mc_hash_u(h, (uint64_t)s);
    }
    MC_CHECK(tab_get(t, 777) == NULL && tab_get(t, 8 * 777 + 1) == NULL, "%s: found a key never set", op);
    MC_CHECK(zpl_array_count(t->entries) == n, "%s: %ld entries, expected %d", op, (long)zpl_array_count(t->entries), n);
    mp_n = 0; tab_map(t, on_map); MC_CHECK(mp_n == n, "%s: map visited %d of %d", op, mp_n, n);
    for (int i = 0; i < NK; i++) { int c = 0; for (int j = 0; j < mp_n; j++) if (mp_k[j] == K[i]) { c++; MC_CHECK(veq(mp_v[j], ref[i]), "%s: map value", op); } MC_CHECK(c == in[i], "%s: map visited key #%d %d times", op, i, c); }
    mc_state(mc_hash_u(h, zpl_array_count(t->hashes)));
}
static void seq(void) {
    K = keyset[mc_choose(3)]; tab t; memset(&t, 0, sizeof t); memset(in, 0, sizeof in); tick = 0;
    tab_init(&t, zpl_heap_allocator());
    int d = mc_thorough ? 6 : 5; check(&t, "init");
    for (int s = 0; s < d; s++) {
        int o = mc_choose(NK * 2 + 9), i; mc_trans(1); const char *op = "";
        if (o < NK) { i = o; ref[i] = fresh(); in[i] = 1; tab_set(&t, K[i], ref[i]); op = "set"; mc_log("set #%d\n", i); }
        else if (o < 2 * NK) { i = o - NK; tab_remove(&t, K[i]); in[i] = 0; op = "remove"; mc_log("remove #%d\n", i); }
        else switch (o - 2 * NK) {
        case 0: tab_grow(&t); op = "grow"; mc_log("grow\n"); break;
        case 1: tab_rehash(&t, 1); op = "rehash(1)"; mc_log("rehash 1\n"); break;
        case 2: tab_rehash(&t, 3); op = "rehash(3)"; mc_log("rehash 3\n"); break;
        case 3: tab_rehash(&t, 64); op = "rehash(64)"; mc_log("rehash 64\n"); break;
        case 4: tab_rehash_fast(&t); op = "rehash_fast"; mc_log("rehash_fast\n"); break;
        case 5: tab_clear(&t); memset(in, 0, sizeof in); op = "clear"; mc_log("clear\n"); break;
        case 6: mp_n = 0; tab_map_mut(&t, on_mut); op = "map_mut"; mc_log("map_mut\n"); for (i = 0; i < NK; i++) if (in[i]) { ref[i].x += 1000; ref[i].y ^= 1; } break;
        case 7: { i = mc_choose(NK); if (!in[i]) mc_prune(); zpl_isize sl = tab_slot(&t, K[i]); MC_CHECK(sl >= 0, "slot"); tab_remove_entry(&t, sl); tab_rehash_fast(&t); in[i] = 0; op = "remove_entry+rehash_fast"; mc_log("remove_entry #%d\n", i); } break;
        case 8: { i = mc_choose(NK); val *p = tab_get(&t, K[i]); if (!in[i]) mc_prune(); MC_CHECK(p, "get"); *p = fresh(); ref[i] = *p; op = "write through get"; mc_log("*get #%d = \n", i); } break;
        }
        check(&t, op);
    }
    tab_destroy(&t);
}
/* growth through every population up to 160 under several key patterns, then removal of every second key, then re-insertion */
static zpl_u64 pat(int p, int i) { switch (p) { case 0: return i; case 1: return (zpl_u64)i * 8; case 2: return (zpl_u64)i * 0x9E3779B97F4A7C15ull; case 3: return (zpl_u64)i << 32; case 4: return ~(zpl_u64)i; default: return (zpl_u64)(i ^ (i >> 1)) * 24; } }
static void sweep(void) {
    int p = mc_choose(6), n = mc_choose(161), m = mc_choose(4); tab t; memset(&t, 0, sizeof t); tab_init(&t, zpl_heap_allocator()); tick = 0;
    static int have[161]; static val rv[161]; memset(have, 0, sizeof have);
    mc_log("pattern %d n %d mode %d\n", p, n, m);
    for (int i = 0; i < n; i++) { rv[i] = fresh(); have[i] = 1; tab_set(&t, pat(p, i), rv[i]); mc_trans(1); }
    if (m == 1) for (int i = 0; i < n; i += 2) { tab_remove(&t, pat(p, i)); have[i] = 0; }
    if (m == 2) { for (int i = n - 1; i >= 0; i--) if (i % 3) { tab_remove(&t, pat(p, i)); have[i] = 0; } for (int i = 0; i < n; i += 4) { rv[i] = fresh(); tab_set(&t, pat(p, i), rv[i]); have[i] = 1; } }
    if (m == 3) { tab_clear(&t); memset(have, 0, sizeof have); for (int i = n / 2; i < n; i++) { rv[i] = fresh(); tab_set(&t, pat(p, i), rv[i]); have[i] = 1; } }
    int c = 0;
    for (int i = 0; i < 161; i++) { val *q = tab_get(&t, pat(p, i)); MC_CHECK((q != NULL) == have[i], "population %d: key %d %s", n, i, have[i] ? "lost" : "phantom"); if (q) MC_CHECK(veq(*q, rv[i]), "population %d: value of key %d", n, i); c += have[i]; }
    mp_n = 0; tab_map(&t, on_map); MC_CHECK(mp_n == c, "map visited %d of %d", mp_n, c);
    mc_state(mc_hash_u(mc_hash_u(c, n), zpl_array_count(t.hashes)));
    tab_destroy(&t);
}
/* populations past every byte-sized and word-sized count */
static uint64_t big_x; static int big_n; static void on_big(zpl_u64 k, val v) { big_n++; big_x += mc_mix(k ^ mc_mix(v.x)); }
static void s_large(void) {
    static const int L[] = { 250, 255, 256, 257, 300, 1000, 5000, 33000, 66000 }; int nl = mc_thorough ? 9 : 8, n = L[mc_choose(nl)], p = mc_choose(6), m = mc_choose(4); if (n > MOST) mc_prune(); mc_claim(); tab t; memset(&t, 0, sizeof t); tab_init(&t, zpl_heap()); tick = 0; mc_log("pattern %d, %d keys, edit %d\n", p, n, m); mc_beat(); if (n > 5000 && (p == 1 || m == 1)) mc_prune();
    val *rv = calloc((size_t)n, sizeof(val)); char *have = calloc((size_t)n, 1);
    for (int i = 0; i < n; i++) { rv[i] = fresh(); have[i] = 1; tab_set(&t, pat(p, i), rv[i]); if (!(i & 1023)) mc_beat(); } mc_trans((uint64_t)n);
    if (m == 1) for (int i = 0; i < n; i += n > 300 ? n / 40 : 3) { tab_remove(&t, pat(p, i)); have[i] = 0; mc_beat(); }
    if (m == 2) { tab_rehash(&t, n * 2 + 1); for (int i = 0; i < n; i += 2) { rv[i] = fresh(); tab_set(&t, pat(p, i), rv[i]); } }
    if (m == 3) { tab_rehash_fast(&t); for (int i = 0; i < n; i += 7) { val *q = tab_get(&t, pat(p, i)); MC_CHECK(q, "key %d of %d lost", i, n); q->x = rv[i].x = (zpl_u64)i; } }
    uint64_t x = 0; int c = 0; for (int i = 0; i < n; i++) { val *q = tab_get(&t, pat(p, i)); MC_CHECK((q != NULL) == have[i], "%d keys: key %d is %s", n, i, have[i] ? "lost" : "still there"); if (q) { MC_CHECK(veq(*q, rv[i]), "%d keys: the value of key %d is wrong", n, i); x += mc_mix(pat(p, i) ^ mc_mix(rv[i].x)); c++; } if (!(i & 1023)) mc_beat(); }
    MC_CHECK(!tab_get(&t, pat(p, n)) && !tab_get(&t, pat(p, n + 65536)), "a key that was never set is found"); big_x = 0; big_n = 0; tab_map(&t, on_big); MC_CHECK(big_n == c && big_x == x, "the pairs visited differ from those stored (%d of %d)", big_n, c);
    if (m == 0) { tab_clear(&t); for (int i = 0; i < n; i++) MC_CHECK(!tab_get(&t, pat(p, i)), "a key survives clearing"); }
    mc_state(mc_hash_u(mc_hash_u(c, n), p)); tab_destroy(&t); free(rv); free(have);
}
/* every explicit number of buckets, for every small population */
static void s_buckets(void) {
    int n = mc_choose(mc_thorough ? 40 : 24), p = mc_choose(6), f = mc_choose(2), c = mc_choose(mc_thorough ? 300 : 70); tab t; memset(&t, 0, sizeof t); tab_init(&t, zpl_heap()); tick = 0; val rv[48]; char have[48] = { 0 }; mc_log("%d keys of pattern %d, %d buckets\n", n, p, c);
    for (int i = 0; i < n; i++) { rv[i] = fresh(); have[i] = 1; tab_set(&t, pat(p, i), rv[i]); } mc_trans((uint64_t)n + 1); if (f && n) { tab_remove(&t, pat(p, n / 2)); have[n / 2] = 0; }
    tab_rehash(&t, c); for (int r = 0; r < 2; r++) { int live = 0; for (int i = 0; i < 48; i++) { val *q = tab_get(&t, pat(p, i)); MC_CHECK((q != NULL) == have[i], "%d keys in %d buckets%s: key %d is %s", n, c, r ? ", then one more" : "", i, have[i] ? "lost" : "present"); if (q) MC_CHECK(veq(*q, rv[i]), "%d keys in %d buckets: the value of key %d", n, c, i); live += have[i]; }
        mp_n = 0; tab_map(&t, on_map); MC_CHECK(mp_n == live && zpl_array_count(t.entries) == live, "%d pairs visited, %d stored", mp_n, live); if (!r) { rv[n] = fresh(); have[n] = 1; tab_set(&t, pat(p, n), rv[n]); } }
    mc_state(mc_hash_u(mc_hash_u((uint64_t)c, (uint64_t)n), (uint64_t)(p * 2 + f))); tab_destroy(&t);
}
mc_suite mc_suites[] = { { "buckets", s_buckets }, { "table_large", s_large }, { "table_seq", seq }, { "table_sweep", sweep }, { 0 } };
