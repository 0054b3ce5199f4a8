/* instantiated with T, N(x), MK(v), EQ(a,b). The macros get their operands as unparenthesised expressions (an array behind a
   pointer, a computed index), and the names of the surrounding variables are ones a macro body could also use. */
#define X_(e) (e) - one + one
typedef struct { T v[700]; int n; } N(ref);
static void N(check)(T *a, N(ref) *r, const char *op) { T **pa = &a;
    MC_CHECK(a != NULL, "%s: array pointer is NULL", op);
    MC_CHECK(zpl_array_count(*pa) == r->n, "%s: count %ld, expected %d", op, (long)zpl_array_count(*pa), r->n);
    MC_CHECK(zpl_array_capacity(*pa) >= r->n, "%s: capacity %ld below count %d", op, (long)zpl_array_capacity(*pa), r->n);
    MC_CHECK(zpl_array_elem_size(*pa) == (zpl_isize)sizeof(T), "%s: element size changed", op);
    MC_CHECK(zpl_array_allocator(*pa).proc == zpl_heap_allocator_proc, "%s: allocator changed", op);
    for (int i = 0; i < r->n; i++) MC_CHECK(EQ(a[i], r->v[i]), "%s: element %d differs from the reference sequence", op, i);
    if (r->n) { MC_CHECK(EQ(zpl_array_front(*pa), r->v[0]), "%s: front", op); MC_CHECK(EQ(zpl_array_back(*pa), r->v[r->n-1]), "%s: back", op); MC_CHECK(zpl_array_end(*pa) == a + r->n - 1, "%s: end", op); }
    mc_state(mc_hash_u(mc_hash_u(mc_hash_u(0, r->n), zpl_array_capacity(*pa)), sizeof(T)));
}
static int N(tick);
static T N(fresh)(void) { return MK(++N(tick)); }
/* one operation; its arguments are chosen by the explorer */
static T *N(op)(T *a, N(ref) *r) {
    static const char *nm[] = { "append", "pop", "append_at", "appendv", "appendv_at", "remove_at", "clear", "resize", "reserve", "set_capacity", "grow", "fill", "copy_init" };
    int o = mc_choose(13); const char *op = nm[o]; int i, k; T t[40]; zpl_b8 ok = true; T **pa = &a; mc_trans(1);
    switch (o) {
    case 0: t[0] = N(fresh)(); ok = zpl_array_append(*pa, t[0]); r->v[r->n++] = t[0]; mc_log("append\n"); break;
    case 1: if (!r->n) mc_prune(); zpl_array_pop(*pa); r->n--; mc_log("pop\n"); break;
    case 2: i = mc_choose(r->n < 4 ? r->n + 2 : 6); if (r->n >= 4) i = (int[]){ 0, 1, r->n / 2, r->n - 1, r->n, r->n + 1 }[i];
        t[0] = N(fresh)(); mc_log("append_at %d\n", i); ok = zpl_array_append_at(*pa, t[0], X_(i)); 
        if (i < r->n) { memmove(r->v + i + 1, r->v + i, sizeof(T) * (r->n - i)); r->v[i] = t[0]; r->n++; }
        else {   /* index at or past the end: the element goes to the end */
            r->v[r->n] = t[0]; T last = r->v[r->n ? r->n - 1 : 0]; r->n++;
            MC_CHECK(zpl_array_count(*pa) == r->n, "append_at(count): count");
            MC_CHECK(EQ(a[r->n-1], t[0]), "append_at(count): new element is not at index count"); 
            MC_CHECK(r->n < 2 || EQ(a[r->n-2], last), "append_at(count): an existing element was lost");
        }
        break;
    case 3: k = (int[]){ 0, 1, 2, 3, 33 }[mc_choose(5)]; for (i = 0; i < k; i++) t[i] = N(fresh)(); mc_log("appendv %d\n", k); ok = zpl_array_appendv(*pa, t, X_(k)); for (i = 0; i < k; i++) r->v[r->n++] = t[i]; break;
    case 4: k = (int[]){ 1, 2, 3, 33 }[mc_choose(4)]; i = mc_choose(r->n < 4 ? r->n + 2 : 6); if (i == 5) i = r->n; else if (i == 4) i = r->n - 1;
        for (int q = 0; q < k; q++) t[q] = N(fresh)(); mc_log("appendv_at %d items at %d\n", k, i);
        ok = zpl_array_appendv_at(*pa, t + one - one, X_(k), X_(i)); if (i > r->n) i = r->n;
        memmove(r->v + i + k, r->v + i, sizeof(T) * (r->n - i)); memcpy(r->v + i, t, sizeof(T) * k); r->n += k; break;
    case 5: if (!r->n) mc_prune(); i = mc_choose(r->n < 4 ? r->n : 4); if (i == 3) i = r->n - 1; mc_log("remove_at %d\n", i);
        zpl_array_remove_at(*pa, X_(i)); memmove(r->v + i, r->v + i + 1, sizeof(T) * (r->n - i - 1)); r->n--; break;
    case 6: zpl_array_clear(*pa); r->n = 0; mc_log("clear\n"); break;
    case 7: k = (int[]){0, 1, 3, 7, r->n + 1, (int)zpl_array_capacity(*pa) + 1}[mc_choose(6)]; mc_log("resize %d\n", k); ok = zpl_array_resize(*pa, X_(k));
        MC_CHECK(!ok || zpl_array_count(*pa) == k, "resize: count"); MC_CHECK(!ok || zpl_array_capacity(*pa) >= k, "resize: capacity"); while (r->n < k) { r->v[r->n] = N(fresh)(); a[r->n] = r->v[r->n]; r->n++; } r->n = k; break;
    case 8: k = (int[]){0, 2, 9, r->n, (int)zpl_array_capacity(*pa) + 1}[mc_choose(5)]; mc_log("reserve %d\n", k); ok = zpl_array_reserve(*pa, X_(k));
        MC_CHECK(!ok || zpl_array_capacity(*pa) >= k, "reserve: capacity"); break;
    case 9: k = (int[]){0, 1, 4, r->n, r->n + 1, r->n ? r->n - 1 : 0}[mc_choose(6)]; mc_log("set_capacity %d\n", k); ok = zpl_array_set_capacity(*pa, X_(k)); if (k < r->n) r->n = k;
        MC_CHECK(!ok || zpl_array_capacity(*pa) == k, "set_capacity: capacity %ld, expected %d", (long)zpl_array_capacity(*pa), k); break;
    case 10: k = (int[]){0, (int)zpl_array_capacity(*pa) * 2 + 20}[mc_choose(2)]; mc_log("grow %d\n", k); { long c = zpl_array_capacity(*pa); ok = zpl_array_grow(*pa, X_(k));
        MC_CHECK(!ok || (zpl_array_capacity(*pa) > c && zpl_array_capacity(*pa) >= k), "grow: capacity"); } break;
    case 11: { int b = mc_choose(r->n < 3 ? r->n + 1 : 3), e = b + mc_choose(r->n - b < 3 ? r->n - b + 1 : 3); t[0] = N(fresh)(); mc_log("fill %d..%d\n", b, e); i = 0; zpl_array_fill(*pa, X_(b), X_(e), t[i]); for (i = b; i < e; i++) r->v[i] = t[0]; } break;
    case 12: { T *y = NULL, **py = &y; mc_log("copy_init\n"); ok = zpl_array_copy_init(*py, *pa); MC_CHECK(ok && y != a, "copy_init"); N(check)(a, r, "copy_init(source)"); N(check)(y, r, "copy_init(copy)");
        if (r->n) { T keep = y[0]; a[0] = N(fresh)(); MC_CHECK(EQ(y[0], keep), "copy_init: the copy shares storage with its source"); }
        zpl_array_free(*pa); a = y; } break;
    }
    MC_CHECK(ok, "%s reported failure", op);
    N(check)(a, r, op); return a;
}
static T *N(start)(void) {
    T *a = NULL, **pa = &a; int c = mc_choose(4); N(tick) = 0; zpl_b8 ok;
    if (c == 3) ok = zpl_array_init(*pa, zpl_heap_allocator()); else ok = zpl_array_init_reserve(*pa, zpl_heap_allocator(), X_(c));
    mc_log("init_reserve %d\n", c); MC_CHECK(ok, "init"); return a;
}
static void N(seq)(void) {
    N(ref) r; r.n = 0; T *a = N(start)(), **pa = &a; N(check)(a, &r, "init");
    int d = mc_thorough ? N(DT) : N(DQ);
    for (int i = 0; i < d; i++) a = N(op)(a, &r);
    zpl_array_free(*pa);
}
/* every population 0..70, then every pair of operations */
static void N(sweep)(void) {
    T **pa;
    N(ref) r; r.n = 0; int n = mc_choose(71); T *a = N(start)(); pa = &a;
    for (int i = 0; i < n; i++) { T t = N(fresh)(); MC_CHECK(zpl_array_append(*pa, t), "append"); r.v[r.n++] = t; }
    N(check)(a, &r, "population"); a = N(op)(a, &r); a = N(op)(a, &r);
    zpl_array_free(*pa);
}
/* fixed-capacity buffer */
static void N(buffer)(void) {
    int cap = mc_choose(5), d = mc_thorough ? 8 : 6; N(ref) r; r.n = 0; T *b = NULL, **pb = &b; N(tick) = 0;
    zpl_buffer_init(*pb, zpl_heap_allocator(), X_(cap)); MC_CHECK(b && zpl_buffer_count(*pb) == 0 && zpl_buffer_capacity(*pb) == cap, "buffer_init");
    for (int s = 0; s < d; s++) {
        T t[4]; int k; mc_trans(1);
        switch (mc_choose(5)) {
        case 0: if (r.n == cap) mc_prune(); t[0] = N(fresh)(); zpl_buffer_append(*pb, *t); r.v[r.n++] = t[0]; mc_log("append\n"); break;
        case 1: if (!r.n) mc_prune(); zpl_buffer_pop(*pb); r.n--; mc_log("pop\n"); break;
        case 2: k = mc_choose((cap - r.n > 3 ? 3 : cap - r.n) + 1); for (int i = 0; i < k; i++) t[i] = N(fresh)(); zpl_buffer_appendv(*pb, t + one - one, X_(k)); for (int i = 0; i < k; i++) r.v[r.n++] = t[i]; mc_log("appendv %d\n", k); break;
        case 3: zpl_buffer_clear(*pb); r.n = 0; mc_log("clear\n"); break;
        case 4: { T *y = NULL, **py = &y; mc_log("copy\n"); zpl_buffer_copy_init(*py, *pb); MC_CHECK(y && y != b, "copy_init"); if (r.n) { T keep = b[0]; y[0] = b[0]; b[0] = N(fresh)(); MC_CHECK(EQ(y[0], keep), "buffer copy shares storage"); } zpl_buffer_free(*pb); b = y; } break;
        }
        MC_CHECK(zpl_buffer_count(*pb) == r.n && zpl_buffer_capacity(*pb) == cap, "buffer count %ld/%d capacity %ld/%d", (long)zpl_buffer_count(*pb), r.n, (long)zpl_buffer_capacity(*pb), cap);
        for (int i = 0; i < r.n; i++) MC_CHECK(EQ(b[i], r.v[i]), "buffer element %d", i);
        if (r.n) MC_CHECK(zpl_buffer_end(*pb) == b + r.n - 1, "buffer end");
        mc_state(mc_hash_u(mc_hash_u(cap, r.n), sizeof(T)));
    }
    zpl_buffer_free(*pb);
}
#undef X_
