/* A01 (PROP 1): disjoint, aligned, in-bounds, contents kept.  A02 (PROP 2): reclaim, account, exhaustion.
 * One driver runs every request history within the bound on each allocator. */
#include "z.h"
#if PROP == 1
#define CK1(c, ...) MC_CHECK(c, __VA_ARGS__)
#define CK2(c, ...) ((void)0)
#else
#define CK1(c, ...) ((void)0)
#define CK2(c, ...) MC_CHECK(c, __VA_ARGS__)
#endif
typedef struct { unsigned char *p; long n, al, res; unsigned char pat; } blk;
static blk L[64]; static int nL; static unsigned char tick;
static unsigned char *reg_lo, *reg_hi;              /* managed memory, when known */
static int zeroing;
static unsigned char *regbase; static int guard0;
#define GUARD 64
static void fill(blk *b) { b->pat = (unsigned char)(++tick * 37 | 1); for (long i = 0; i < b->n; i++) b->p[i] = (unsigned char)(b->pat + i * 7); }
static void contents(const char *op) {
    for (int i = 0; i < nL; i++) for (long k = 0; k < L[i].n; k++) CK1(L[i].p[k] == (unsigned char)(L[i].pat + k * 7), "%s: byte %ld of live block %d changed", op, k, i);
}
static void guards(const char *op) { if (regbase) for (int i = 0; i < GUARD; i++) { CK1(regbase[i] == 0x5C, "%s: wrote in front of the managed memory", op); CK1(reg_hi[i] == 0x5C, "%s: wrote behind the managed memory", op); } }
static void fresh(const char *op, blk *b) {
    CK1(((uintptr_t)b->p & (uintptr_t)(b->al - 1)) == 0, "%s: block is not aligned to %ld", op, b->al);
    if (reg_lo) CK1(b->p >= reg_lo && b->p + b->n <= reg_hi, "%s: block of %ld lies outside the managed memory", op, b->n);
    for (int i = 0; i < nL; i++) if (L + i != b) CK1(b->p + b->n <= L[i].p || L[i].p + L[i].n <= b->p, "%s: block overlaps live block %d", op, i);
}
/* allocate, verify, fill; 0 when refused */
static int do_alloc(zpl_allocator a, long n, long al) {
    void *volatile p = NULL;
    int trapped = Z_TRAPS(p = zpl_alloc_align(a, n, al));
    mc_trans(1);
    mc_log("alloc %ld align %ld -> %s\n", n, al, trapped ? "assert" : p ? "ok" : "NULL");
    if (trapped || !p) { contents("refused alloc"); guards("refused alloc"); return 0; }
    blk *b = &L[nL]; b->p = p; b->n = n; b->al = al; nL++;
    fresh("alloc", b);
    if (zeroing) for (long i = 0; i < n; i++) CK1(b->p[i] == 0, "alloc: byte %ld of a fresh block is not zero", i);
    fill(b); contents("alloc"); guards("alloc");
    return 1;
}
static void drop(int i) { memmove(L + i, L + i + 1, sizeof(blk) * (nL - i - 1)); nL--; }
static void do_free(zpl_allocator a, int i) { mc_log("free block %d\n", i); mc_trans(1); unsigned char *p = L[i].p; drop(i); zpl_free(a, p); contents("free"); guards("free"); }
static int do_resize(zpl_allocator a, int i, long n, long al) {
    mc_trans(1); long o = L[i].n; blk old = L[i];
    void *p = al == ZPL_DEFAULT_MEMORY_ALIGNMENT ? zpl_resize(a, L[i].p, o, n) : zpl_resize_align(a, L[i].p, o, n, al); mc_log("resize block %d %ld -> %ld align %ld: %s\n", i, o, n, al, p ? "ok" : "NULL");
    if (n == 0) { drop(i); CK1(p == NULL, "resize to zero returned a block"); contents("resize 0"); return 1; }
    if (!p) { contents("refused resize"); guards("refused resize"); return 0; }
    L[i].p = p; L[i].n = n < o ? n : o; 
    for (long k = 0; k < L[i].n; k++) CK1(L[i].p[k] == (unsigned char)(old.pat + k * 7), "resize: byte %ld was not kept", k);
    L[i].n = n; long oal = L[i].al; if (p != old.p) L[i].al = al; else (void)oal;
    fresh("resize", &L[i]); fill(&L[i]); contents("resize"); guards("resize"); return 1;
}
static void region(long size, int off) {        /* guarded managed memory at a chosen offset from a 64-byte boundary */
    regbase = NULL; unsigned char *raw = malloc(size + 2 * GUARD + 256); unsigned char *al = (unsigned char *)(((uintptr_t)raw + 127) & ~(uintptr_t)63);
    guard0 = 0; memset(raw, 0x5C, size + 2 * GUARD + 256); reg_lo = al + off + GUARD; reg_hi = reg_lo + size; regbase = reg_lo - GUARD; memset(reg_lo, 0xE7, size);
    *(void **)(regbase - 8 - ((uintptr_t)(regbase) & 7)) = raw; 
}
static void region_free(void) { void *raw = *(void **)(regbase - 8 - ((uintptr_t)(regbase) & 7)); free(raw); regbase = NULL; reg_lo = reg_hi = NULL; }
static int rec_live;
static void reset(void) { nL = 0; rec_live = 0; reg_lo = reg_hi = NULL; regbase = NULL; zeroing = 1; }
static uint64_t shape(uint64_t h) { for (int i = 0; i < nL; i++) { h = mc_hash_u(h, L[i].n); if (reg_lo) h = mc_hash_u(h, L[i].p - reg_lo); } return h; }
static long live_bytes(void) { long s = 0; for (int i = 0; i < nL; i++) s += L[i].res; return s; }

static ZPL_ALLOCATOR_PROC(det_proc) {        /* backing memory with deterministic alignment */
    (void)allocator_data; (void)flags;
    if (type == ZPL_ALLOCATION_ALLOC) { void *p = aligned_alloc(64, (size_t)((size + 63) & ~63L)); if (p) memset(p, 0, size); return p; }
    if (type == ZPL_ALLOCATION_FREE) { free(old_memory); return NULL; }
    if (type == ZPL_ALLOCATION_RESIZE) { zpl_allocator a = { det_proc, NULL }; return zpl_default_resize_align(a, old_memory, old_size, size, alignment); }
    return NULL;
}
static zpl_allocator det(void) { zpl_allocator a = { det_proc, NULL }; return a; }
/* ---- heap ------------------------------------------------------------------------------------- */
static void stats(void) {
#ifdef ZPL_HEAP_ANALYSIS
    CK2(zpl_heap_stats_alloc_count() == nL, "heap statistics: count %ld, live %d", (long)zpl_heap_stats_alloc_count(), nL);
    CK2(zpl_heap_stats_used_memory() == live_bytes(), "heap statistics: %ld bytes, live %ld", (long)zpl_heap_stats_used_memory(), live_bytes());
#endif
}
static void s_heap(void) {
    static const long sz[] = { 0, 1, 8, 33, 200 }, al[] = { 0, 1, 2, 4, 8, 16, 32, 64, 128, 256 };
    reset(); zpl_allocator a = zpl_heap_allocator(); int depth = mc_thorough ? 5 : 4;
#ifdef ZPL_HEAP_ANALYSIS
    zpl_heap_stats_init(); int na = 7; static const long al2[] = { 1, 4, 8, 16, 32, 64, 256 }; const long *A = al2;
#else
    int na = 6; static const long al2[] = { 1, 8, 16, 32, 64, 256 }; const long *A = al2;
#endif
    (void)al;
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(nL ? 3 : 1);
        if (o == 0) { int sel = mc_choose(5); long n = sz[sel], g = A[mc_choose(d < 2 ? na : 2) % na]; 
            long before = live_bytes(); (void)before;
            int ok = do_alloc(a, n, g); CK2(ok, "a heap allocation failed although memory is available"); if (ok) L[nL-1].res = n; }
        else if (o == 1) do_free(a, mc_choose(nL));
        else { int i = mc_choose(nL); long n = (long[]){ 0, 1, 16, 60 }[mc_choose(4)]; long old = L[i].n, g = L[i].al; 
            int was = nL; long res = L[i].res; int ok = do_resize(a, i, n, g); CK2(ok, "a heap resize failed although memory is available");
            if (nL == was && ok) L[i].res = n > old ? n : res; }
        stats();
        mc_state(shape(mc_hash_u(1, d)));
    }
    while (nL) { do_free(a, 0); stats(); }
#ifdef ZPL_HEAP_ANALYSIS
    zpl_heap_stats_check();
    CK2(mc_live == mc_live0, "freed heap blocks remain allocated underneath");
#endif
}
/* ---- arena ------------------------------------------------------------------------------------ */
static void s_arena(void) {
    static const long asz[] = { 1, 5, 8, 24, 40 }, aal[] = { 1, 4, 8, 16, 32 };
    static const int off[] = { 0, 1, 8, 24 }; static const long tot[] = { 48, 96, 131 };
    reset(); int src = mc_choose(3); zpl_arena A, P; int depth = mc_thorough ? 5 : 4; long total = tot[mc_choose(3)];
    if (src == 0) { region(total, off[mc_choose(4)]); zpl_arena_init_from_memory(&A, reg_lo, total); }
    else if (src == 1) { zpl_arena_init_from_allocator(&A, det(), total); reg_lo = A.physical_start; reg_hi = reg_lo + total; memset(reg_lo, 0xE7, total); }
    else { region(256, off[mc_choose(2)]); zpl_arena_init_from_memory(&P, reg_lo, 256); zpl_arena_init_sub(&A, &P, total); CK2(A.physical_start != NULL, "a sub-arena that fits was refused"); unsigned char *keep = regbase; (void)keep; memset(A.physical_start, 0xE7, total); }
    zpl_allocator a = zpl_arena_allocator(&A); zpl_arena_snapshot sn[8]; int snL[8], ns = 0; long cap0 = zpl_arena_size_remaining(&A, 1), snrem[8];
    CK2(cap0 == total, "a fresh arena does not offer its whole size");
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(5);
        if (o == 0) { long n = asz[mc_choose(5)], g = d < 2 ? aal[mc_choose(5)] : (long[]){ 1, 8, 32 }[mc_choose(3)]; long rem = zpl_arena_size_remaining(&A, 1), remg = zpl_arena_size_remaining(&A, g);
            CK2(remg <= rem && remg > rem - g, "size_remaining(%ld) is %ld with %ld bytes left", g, remg, rem);
            int ok = do_alloc(a, n, g); long after = zpl_arena_size_remaining(&A, 1);
            if (ok) { CK2(after <= rem - n && after > rem - n - 2 * g, "allocating %ld (align %ld) changed the remaining size from %ld to %ld", n, g, rem, after); CK2(n <= remg && after >= 0, "a request beyond the remaining size was granted"); }
            else { CK2(after == rem, "a refused request changed the arena"); CK2(((n + g - 1) & ~(g - 1)) > remg, "a request that fits (%ld, %ld remain) was refused", n, remg); } }
        else if (o == 1) { zpl_free_all(a); if (ns) mc_prune(); nL = 0; mc_log("free_all\n"); CK2(zpl_arena_size_remaining(&A, 1) == cap0, "free_all did not restore the capacity"); }
        else if (o == 2) { if (ns == 8) mc_prune(); snrem[ns] = zpl_arena_size_remaining(&A, 1); snL[ns] = nL; sn[ns++] = zpl_arena_snapshot_begin(&A); mc_log("snapshot\n"); }
        else if (o == 3) { if (!ns) mc_prune(); zpl_arena_snapshot_end(sn[--ns]); nL = snL[ns]; mc_log("snapshot end\n"); CK2(zpl_arena_size_remaining(&A, 1) == snrem[ns], "ending a snapshot did not restore the capacity"); contents("snapshot end"); }
        else { if (!nL) mc_prune(); int i = mc_choose(nL); long n = L[i].n + (long[]){ 0, 1, 9 }[mc_choose(3)]; long rem = zpl_arena_size_remaining(&A, L[i].al), g = L[i].al; int ok = do_resize(a, i, n, g);
            if (!ok) CK2(((n + g - 1) & ~(g - 1)) > rem, "a resize that fits was refused"); 
            /* a block re-allocated inside a snapshot disappears with it */
            if (ns) { int base = snL[ns-1]; if (i < base) mc_prune(); } }
        mc_state(shape(mc_hash_u(2, A.total_allocated)));
    }
    while (ns) { zpl_arena_snapshot_end(sn[--ns]); CK2(zpl_arena_size_remaining(&A, 1) == snrem[ns], "ending a snapshot did not restore the capacity"); }
    zpl_arena_check(&A);
    if (src) zpl_arena_free(&A);
    if (src != 1) { if (src == 0) {} region_free(); }
}
/* ---- pool ------------------------------------------------------------------------------------- */
static unsigned char *rec_p; static long rec_n;
static ZPL_ALLOCATOR_PROC(rec_proc) {        /* backing allocator that hands out guarded blocks and remembers them */
    (void)allocator_data; (void)old_size; (void)flags;
    if (type == ZPL_ALLOCATION_ALLOC) { region(size, 0); while ((uintptr_t)reg_lo & (alignment - 1)) { mc_fail("harness: backing alignment"); } rec_p = reg_lo; rec_n = size; rec_live++; return rec_p; }
    if (type == ZPL_ALLOCATION_FREE) { MC_CHECK(old_memory == rec_p, "a foreign pointer was returned to the backing allocator"); rec_live--; region_free(); return NULL; }
    return NULL;
}
static void s_pool(void) {
    static const long bs[] = { 1, 4, 8, 12, 16, 24, 40 }, ba[] = { 4, 8, 16, 32, 64 };
    reset(); int nb = 1 + mc_choose(4); long n = bs[mc_choose(7)], g = ba[mc_choose(5)]; zpl_pool P; zpl_allocator back = { rec_proc, NULL };
    if (g == 16 && mc_choose(2)) zpl_pool_init(&P, back, nb, n); else zpl_pool_init_align(&P, back, nb, n, g);
    zpl_allocator a = zpl_pool_allocator(&P); int depth = mc_thorough ? 12 : 9;
    mc_log("pool of %d blocks of %ld aligned %ld\n", nb, n, g);
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(nL ? 2 + (d < 5) : 1);
        if (o == 0) { int ok = do_alloc(a, n, g); CK2(ok == (nL <= nb && (nL - ok) < nb), "pool with %d of %d blocks in use %s a block", nL - ok, nb, ok ? "handed out" : "refused"); CK2(ok || nL == nb, "pool refused a block although one is free"); }
        else if (o == 1) do_free(a, mc_choose(nL));
        else { zpl_free_all(a); nL = 0; mc_log("free_all\n"); guards("free_all"); }
        CK2(P.total_size == nL * n, "pool reports %ld bytes in use, %ld are", (long)P.total_size, nL * n);
        mc_state(shape(mc_hash_u(mc_hash_u(3, nb), n * 64 + g)));
    }
    for (int k = nL; k < nb; k++) CK2(do_alloc(a, n, g), "only %d of %d blocks could be handed out", k, nb);
    if (PROP == 2) CK2(!do_alloc(a, n, g), "the pool handed out more blocks than it has");
    zpl_pool_free(&P); CK2(rec_live == 0, "the pool kept its memory"); 
}
/* ---- scratch ring ----------------------------------------------------------------------------- */
static void s_scratch(void) {
    static const long ssz[] = { 1, 8, 20, 40 }, sal[] = { 4, 8, 16, 32 };
    static const long tot[] = { 64, 88, 100, 128, 160 };
    reset(); long total = tot[mc_choose(5)]; int off = (int[]){ 0, 4, 8 }[mc_choose(3)]; region(total, off); zpl_scratch_memory S; zpl_scratch_memory_init(&S, reg_lo, total); zpl_allocator a = zpl_scratch_allocator(&S);
    int depth = mc_thorough ? 6 : 5; int na = 2; 
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(nL ? 3 : 1);
        if (d > 3 && o == 2) mc_prune();
        if (o == 0) { long n = ssz[mc_choose(4)], g = d < 2 ? sal[mc_choose(4)] : sal[1 + mc_choose(na)]; int empty = nL == 0;
            zpl_scratch_memory before = S; unsigned char img[256]; memcpy(img, reg_lo, total);
            int ok = do_alloc(a, n, g);
            if (!ok) { CK2(before.free_point == S.free_point && !memcmp(&before, &S, sizeof S) && !memcmp(img, reg_lo, total), "a refused request changed the ring"); }
            if (empty && !ok) { /* as good as new: a fresh ring over the same memory refuses it too */
                zpl_scratch_memory T; memcpy(img, reg_lo, total); zpl_scratch_memory_init(&T, reg_lo, total); int ok2 = do_alloc(zpl_scratch_allocator(&T), n, g);
                CK2(!ok2, "an empty ring refused a request that a fresh one grants"); if (ok2) nL--; memcpy(reg_lo, img, total); }
            if (ok) CK2(zpl_scratch_memory_is_in_use(&S, L[nL-1].p), "a live block is reported as not in use"); }
        else if (o == 1) { int i = mc_choose(nL); unsigned char *p = L[i].p; (void)p; do_free(a, i); for (int k = 0; k < nL; k++) CK2(zpl_scratch_memory_is_in_use(&S, L[k].p), "a live block is reported as not in use");
            if (!nL) CK2(!zpl_scratch_memory_is_in_use(&S, p), "an empty ring reports a block in use"); }
        else if (mc_choose(2)) { zpl_free_all(a); nL = 0; mc_log("free_all\n"); }
        else { int i = mc_choose(nL); do_resize(a, i, L[i].n + 12, 8); }
        mc_state(shape(mc_hash_u(mc_hash_u(4, total), (unsigned char *)S.free_point - reg_lo)));
    }
    /* freed in order, the ring is empty again */
    int fifo = mc_choose(2); while (nL) do_free(a, fifo ? 0 : nL - 1);
    { zpl_scratch_memory T; unsigned char img[256]; memcpy(img, reg_lo, total); zpl_scratch_memory_init(&T, reg_lo, total); 
      long big = 0; for (long n = 8; n <= total; n += 8) { int ok = do_alloc(zpl_scratch_allocator(&T), n, 8); if (ok) { big = n; nL = 0; zpl_free_all(zpl_scratch_allocator(&T)); } }
      memcpy(reg_lo, img, total);
      if (big) CK2(do_alloc(a, big, 8), "a fully freed ring cannot serve %ld bytes, a fresh one can", big); }
    region_free();
}
/* ---- stack ------------------------------------------------------------------------------------ */
static void s_stack(void) {
    static const long ssz[] = { 0, 1, 8, 20, 40 }, sal[] = { 1, 4, 8, 16, 32 }; static const long tot[] = { 64, 100, 160 };
    reset(); zeroing = 0; int src = mc_choose(2); long total = tot[mc_choose(3)]; zpl_stack_memory S; long al0[64]; 
    if (src == 0) { region(total, (int[]){ 0, 1, 8, 24 }[mc_choose(4)]); memset(&S, 0x77, sizeof S); zpl_stack_memory_init_from_memory(&S, reg_lo, total); }
    else { zpl_stack_memory_init(&S, det(), total); reg_lo = S.physical_start; reg_hi = reg_lo + total; }
    zpl_allocator a = zpl_stack_allocator(&S); int depth = mc_thorough ? 5 : 4;
    for (int d = 0; d < depth; d++) {
        int o = mc_choose(nL ? 3 : 1);
        if (o == 0) { long n = ssz[mc_choose(5)], g = sal[mc_choose(5)], was = S.allocated;
            if (src == 1 && S.allocated + 8 + n + g + 8 > total) mc_prune();       /* growing is the subject of the kf_stack_growth and stack_growth suites */
            int ok = do_alloc(a, n, g); if (ok) al0[nL - 1] = was;
            if (!ok) { CK2(S.allocated == was, "a refused request changed the stack"); CK2(was + n + g + 16 > total, "a request that fits was refused"); } 
            else { CK2(S.allocated >= was + n && S.allocated <= total, "allocated counter"); if (n) CK2(zpl_stack_memory_is_in_use(&S, L[nL-1].p), "a live block is reported as not in use"); } }
        else if (o == 1) { long want = al0[nL-1]; do_free(a, nL - 1); CK2(S.allocated == want, "popping did not restore the earlier fill level"); }
        else { zpl_free_all(a); nL = 0; mc_log("free_all\n"); CK2(S.allocated == 0 && !zpl_stack_memory_is_in_use(&S, reg_lo + 8), "free_all left the stack in use"); }
        mc_state(shape(mc_hash_u(5, S.allocated)));
    }
    if (src) zpl_stack_memory_free(&S); else region_free();
}
/* growing through the backing allocator with no live block is fine; pops restore levels after growth */
static void s_stack_growth(void) {
    reset(); zeroing = 0; zpl_stack_memory S; long total = (long[]){ 16, 64 }[mc_choose(2)]; zpl_stack_memory_init(&S, zpl_heap_allocator(), total); zpl_allocator a = zpl_stack_allocator(&S);
    static const long ssz[] = { 8, 50, 300 }; 
    for (int d = 0; d < 4; d++) {
        long n = ssz[mc_choose(3)], g = (long[]){ 8, 16, 64 }[mc_choose(3)];
        unsigned char *before = S.physical_start; reg_lo = NULL;
        int ok = do_alloc(a, n, g); CK2(ok, "a stack with a backing allocator refused a request"); if (!ok) break;
        reg_lo = S.physical_start; reg_hi = reg_lo + S.total_size; CK1(L[nL-1].p >= reg_lo && L[nL-1].p + n <= reg_hi, "a block after growing lies outside the managed memory"); (void)before;
        mc_state(shape(mc_hash_u(6, S.total_size)));
        do_free(a, nL - 1); CK2(S.allocated == 0, "popping the only block left the stack in use");
    }
    zpl_stack_memory_free(&S);
}
/* known finding: growing moves live blocks */
static void s_kf_stack_growth(void) {
    reset(); zeroing = 0; zpl_stack_memory S; zpl_stack_memory_init(&S, zpl_heap_allocator(), 64); zpl_allocator a = zpl_stack_allocator(&S);
    unsigned char *p = zpl_alloc(a, 16); memset(p, 7, 16); zpl_alloc(a, 200); mc_state(1);
    if (PROP == 1) MC_CHECK(p >= (unsigned char *)S.physical_start && p + 16 <= (unsigned char *)S.physical_start + S.total_size, "growing the stack moved a live block");
    zpl_stack_memory_free(&S);
}
/* ---- virtual memory --------------------------------------------------------------------------- */
static int mapped(void *p) { unsigned char v; return mincore(p, 4096, &v) == 0; }
static void s_vm(void) {
    long pg = zpl_virtual_memory_page_size(NULL); MC_CHECK(pg == sysconf(_SC_PAGESIZE), "page size"); zpl_isize al = 7, pg2 = zpl_virtual_memory_page_size(&al); CK2(pg2 == pg && al == pg, "page size and alignment"); long np = 1 + mc_choose(4);
    zpl_virtual_memory v = zpl_vm_alloc(NULL, np * pg); MC_CHECK(v.data && v.size == np * pg, "vm_alloc");
    unsigned char *b = v.data; for (long i = 0; i < np * pg; i += 64) { CK1(b[i] == 0, "fresh pages are not zero"); b[i] = (unsigned char)(1 + i / pg); }
    long lo = 0, hi = np;
    for (int d = 0; d < 3; d++) { 
        int o = mc_choose(3); mc_trans(1); if (hi == lo) break;
        if (o == 0) { long l = mc_choose(hi - lo), n = 1 + mc_choose(hi - lo - l); mc_log("trim lead %ld keep %ld of %ld\n", l, n, hi - lo);
            v = zpl_vm_trim(v, l * pg, n * pg); lo += l; hi = lo + n; MC_CHECK(v.data == b + lo * pg && v.size == n * pg, "trim returned the wrong region"); }
        else if (o == 1) { zpl_b32 r = zpl_vm_purge(v); mc_log("purge\n"); CK2(r, "purge reported failure"); for (long i = lo * pg; i < hi * pg; i += 64) { if (PROP == 2) MC_CHECK(b[i] == 0, "purged pages keep their contents"); b[i] = (unsigned char)(1 + i / pg); } }
        else { mc_log("free\n"); CK2(zpl_vm_free(v), "free reported failure"); hi = lo; }
        for (long i = 0; i < np; i++) { int in = i >= lo && i < hi; CK1(mapped(b + i * pg) >= in, "a kept page was released"); CK2(mapped(b + i * pg) == in, "page %ld is %s", i, in ? "gone" : "still mapped"); }
        for (long i = lo * pg; i < hi * pg; i += 64) CK1(b[i] == (unsigned char)(1 + i / pg), "a kept page lost its contents");
        mc_state(lo * 8 + hi + 64 * np);
    }
    if (hi > lo) zpl_vm_free(v);
    if (PROP == 2) { zpl_virtual_memory w = zpl_vm_alloc(NULL, (zpl_isize)1 << 60); MC_CHECK(w.data == NULL, "an impossible request did not yield NULL"); }
}
/* ---- the memory of an allocator cannot be had ------------------------------------------------------ */
static long none_calls; static ZPL_ALLOCATOR_PROC(none_proc) { (void)allocator_data; (void)old_size; (void)flags; (void)size; (void)alignment; (void)old_memory; if (type == ZPL_ALLOCATION_FREE && old_memory) mc_fail("memory that was never handed out is returned"); none_calls++; return NULL; }
static void s_no_backing(void) {
    static const long sz[] = { 1, 8, 24, 64, 200, 4096 }; reset(); zpl_allocator none = { none_proc, NULL }; int kind = mc_choose(4); long want = sz[mc_choose(6)], n = sz[mc_choose(6)], g = (long[]){ 4, 16, 64 }[mc_choose(3)]; void *volatile p = NULL; int t = 0; mc_trans(2);
    if (kind == 0) { zpl_arena A; zpl_arena_init_from_allocator(&A, none, want); t = Z_TRAPS(p = zpl_alloc_align(zpl_arena_allocator(&A), n, g)); CK2(zpl_arena_size_remaining(&A, 16) <= 0, "an arena without memory has %ld bytes left", (long)zpl_arena_size_remaining(&A, 16)); MC_CHECK(!p, "an arena without memory hands out %ld bytes at %p", n, p); zpl_arena_free(&A); }
    else if (kind == 1) { zpl_arena P, A; region(100, 0); zpl_arena_init_from_memory(&P, reg_lo, 100); void *first = zpl_arena_allocator(&P).proc ? zpl_alloc(zpl_arena_allocator(&P), 40) : NULL; CK2(first, "the parent arena refuses what it has"); zpl_arena_init_sub(&A, &P, want); t = Z_TRAPS(p = zpl_alloc_align(zpl_arena_allocator(&A), n, g)); if (p) MC_CHECK((unsigned char *)p >= reg_lo + 40 && (unsigned char *)p + n <= reg_hi, "a part of an arena hands out %ld bytes at %p, outside its parent", n, p); guards("sub arena"); region_free(); }
    else if (kind == 2) { zpl_stack_memory S; zpl_stack_memory_init(&S, none, want); t = Z_TRAPS(p = zpl_alloc_align(zpl_stack_allocator(&S), n, g)); MC_CHECK(!p, "a stack without memory hands out %ld bytes at %p", n, p); zpl_stack_memory_free(&S); }
    else { zpl_pool P; int nb = 1 + mc_choose(3); zpl_pool_init_align(&P, none, nb, n, g); zpl_allocator a = zpl_pool_allocator(&P); if (mc_choose(2)) zpl_free_all(a); t = Z_TRAPS(p = zpl_alloc_align(a, n, g)); MC_CHECK(!p, "a pool without memory hands out a block"); zpl_pool_free(&P); }
    (void)t;
}
/* ---- requests no memory can serve, and memory beyond 32 bits ---------------------------------------- */
static const long HUGE_[] = { 0x7FFFFFFFL, 0x80000000L, 0xFFFFFFF0L, 0x100000000L, 0x100000018L, 1L << 40, 1L << 62, INT64_MAX - 65536, INT64_MAX - 63, INT64_MAX - 15, INT64_MAX - 7, INT64_MAX };
static void must(int ok, const char *what) { (void)what; CK2(ok, "%s", what); if (!ok) mc_prune(); }
static void s_huge(void) {
    reset(); int kind = mc_choose(4), pre = mc_choose(3); long n = HUGE_[mc_choose(12)], g = (long[]){ 4, 8, 16, 64, 4096 }[mc_choose(5)]; unsigned flags = (unsigned)mc_choose(2); zpl_allocator a; zpl_arena A; zpl_scratch_memory S; zpl_stack_memory T; void *volatile p = NULL;
    if (kind != 3) region(200, (int[]){ 0, 8 }[mc_choose(2)]);
    if (kind == 0) { zpl_arena_init_from_memory(&A, reg_lo, 200); a = zpl_arena_allocator(&A); } else if (kind == 1) { zpl_scratch_memory_init(&S, reg_lo, 200); a = zpl_scratch_allocator(&S); } else if (kind == 2) { zpl_stack_memory_init_from_memory(&T, reg_lo, 200); a = zpl_stack_allocator(&T); zeroing = 0; } else { a = zpl_heap_allocator(); if (n < 1L << 62) mc_prune(); }
    for (int i = 0; i < pre; i++) must(do_alloc(a, 24, 8), "a request of 24 bytes is refused"); if (kind == 1 && pre == 2 && mc_choose(2)) { do_free(a, 0); must(do_alloc(a, 16, 8), "a request of 16 bytes is refused"); }
    long rem = kind == 0 ? zpl_arena_size_remaining(&A, 1) : 0; mc_log("request of %ld bytes, align %ld, with %d blocks live\n", n, g, nL); mc_trans(1);
    int t = Z_TRAPS(p = a.proc(a.data, ZPL_ALLOCATION_ALLOC, n, g, NULL, 0, flags)); MC_CHECK(!p, "a request of %ld bytes (align %ld) is granted", n, g); contents("impossible request"); guards("impossible request"); (void)t;
    if (kind == 0) CK2(zpl_arena_size_remaining(&A, 1) == rem, "a refused request changed the arena"); must(do_alloc(a, 16, 8), "after a refused request the memory left is not served"); 
    if (nL && kind != 2 && mc_choose(2)) { blk b = L[0]; p = NULL; t = Z_TRAPS(p = a.proc(a.data, ZPL_ALLOCATION_RESIZE, n, g, b.p, b.n, flags)); MC_CHECK(!p, "a resize to %ld bytes is granted", n); contents("impossible resize"); }
    mc_state(mc_hash_u(mc_hash_u((uint64_t)n, (uint64_t)g), kind * 8 + nL)); if (kind == 3) while (nL) do_free(a, 0); else region_free();
}
static unsigned char *far_lo, *far_end;
static ZPL_ALLOCATOR_PROC(far_proc) { (void)allocator_data; (void)old_memory; (void)old_size; (void)flags; (void)alignment; if (type == ZPL_ALLOCATION_ALLOC) return size <= far_end - far_lo ? far_lo : NULL; if (type == ZPL_ALLOCATION_FREE) return NULL; mc_fail("the backing allocator is asked to resize"); return NULL; }
static void mark(blk *b) { b->pat = (unsigned char)(++tick * 37 | 1); for (int i = 0; i < 8; i++) b->p[i] = b->p[b->n - 1 - i] = b->p[b->n / 2 - i] = b->pat; }
static void marks(void) { for (int i = 0; i < nL; i++) for (int k = 0; k < 8; k++) CK1(L[i].p[k] == L[i].pat && L[i].p[L[i].n - 1 - k] == L[i].pat && L[i].p[L[i].n / 2 - k] == L[i].pat, "live block %d of %ld bytes changed", i, L[i].n); }
static void s_far(void) {
    static const long sz[] = { 64, 0x7FFFFFF8L, 0x80000000L, 0xFFFFFFF0L, 0x100000008L, 5000000000L }; reset(); zeroing = 0; long total = (long[]){ 0x80000000L, 0x100000000L, 10000000000L, 20000000000L }[mc_choose(4)]; int kind = mc_choose(4); mc_claim();
    unsigned char *m = mmap(NULL, (size_t)total + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) mc_prune(); reg_lo = far_lo = m + 4096; reg_hi = far_end = reg_lo + total; zpl_allocator back = { far_proc, NULL };
    zpl_arena A; zpl_scratch_memory S; zpl_stack_memory T; zpl_pool P; zpl_allocator a; long bs = 0; int nb = 0;
    if (kind == 0) { if (total & 1) zpl_arena_init_from_memory(&A, reg_lo, total); else zpl_arena_init_from_allocator(&A, back, total); a = zpl_arena_allocator(&A); } else if (kind == 1) { zpl_scratch_memory_init(&S, reg_lo, total); a = zpl_scratch_allocator(&S); } else if (kind == 2) { zpl_stack_memory_init_from_memory(&T, reg_lo, total); a = zpl_stack_allocator(&T); }
    else { bs = sz[mc_choose(6)]; nb = 1 + mc_choose(5); if ((bs + 64) * nb > total) { munmap(m, (size_t)total + 8192); mc_prune(); } zpl_pool_init(&P, back, nb, bs); a = zpl_pool_allocator(&P); }
    long used = 0; for (int d = 0; d < 5; d++) {
        int o = nL ? mc_choose(2) : 0; mc_trans(1);
        if (o == 0) { long n = kind == 3 ? bs : sz[mc_choose(6)], rem = kind == 0 ? zpl_arena_size_remaining(&A, 16) : kind == 2 ? total - (long)T.allocated : total - used; if (kind == 3 && nL == nb) continue; void *volatile p = NULL; Z_TRAPS(p = a.proc(a.data, ZPL_ALLOCATION_ALLOC, n, 16, NULL, 0, 0)); mc_log("request of %ld bytes: %s\n", n, p ? "ok" : "refused");
            if (!p) { marks(); CK2(kind != 3, "a pool with a free block refuses it"); if (kind == 0) CK2(((n + 15) & ~15L) > rem, "a request of %ld bytes is refused with %ld left", n, rem); else if (kind == 2 || !used) CK2(n + 64 > rem, "a request of %ld bytes is refused with %ld left", n, rem); continue; }
            blk *b = &L[nL++]; b->p = p; b->n = n; b->al = 16; fresh("alloc", b); mark(b); used += n; if (kind == 0) CK2(zpl_arena_size_remaining(&A, 16) <= rem - n && zpl_arena_size_remaining(&A, 16) > rem - n - 32, "allocating %ld changed the remaining size from %ld to %ld", n, rem, (long)zpl_arena_size_remaining(&A, 16)); }
        else if (kind == 0) { zpl_free_all(a); nL = 0; used = 0; CK2(zpl_arena_size_remaining(&A, 1) == total, "free_all did not restore the capacity"); }
        else { int i = kind == 2 ? nL - 1 : kind == 1 ? 0 : mc_choose(nL); mc_log("free block %d\n", i); used -= L[i].n; unsigned char *p = L[i].p; drop(i); zpl_free(a, p); if (kind == 2 && !nL) CK2(T.allocated == 0, "popping all blocks left the stack in use"); }
        marks(); mc_state(mc_hash_u(shape((uint64_t)total), kind));
    }
    CK1(!m[4095], "written in front of the managed memory"); munmap(m, (size_t)total + 8192);
}
mc_suite mc_suites[] = {
#ifdef ZPL_HEAP_ANALYSIS
    { "heap_analysis", s_heap },
#else
    { "heap", s_heap }, { "arena", s_arena }, { "pool", s_pool }, { "scratch", s_scratch }, { "stack", s_stack }, { "stack_growth", s_stack_growth }, { "vm", s_vm }, { "no_backing", s_no_backing }, { "huge", s_huge }, { "far", s_far },
#if PROP == 1
    { "kf_stack_growth", s_kf_stack_growth },
#endif
#endif
    { 0 } };
