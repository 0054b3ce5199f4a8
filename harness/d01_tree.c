/* D01: data trees under all short edit sequences, against a reference tree */
#include "z.h"
typedef struct mn { int type, id; const char *name; long long iv; double rv; const char *sv; struct mn *par, *ch[48]; int n; } mn;
static mn pool[160]; static int np; static mn *R[2]; static zpl_adt_node root[2]; static int ctr;
static const char *NAMES[] = { "a", "b", "c", "dd" };
static const char *STRS[] = { "x", "7", "", "yy" };
static long long INTS[] = { 7, -3, 0, 12 };
static int inobj(mn *c) { return c->type == ZPL_ADT_TYPE_OBJECT; }
static int iscont(mn *c) { return c->type == ZPL_ADT_TYPE_OBJECT || c->type == ZPL_ADT_TYPE_ARRAY; }
static mn *mknode(int type) { MC_CHECK(np < 160, "harness: pool"); mn *m = &pool[np++]; memset(m, 0, sizeof *m); m->type = type; m->id = np; return m; }
static void mins(mn *c, int idx, mn *m) { MC_CHECK(c->n < 48, "harness: width"); memmove(c->ch + idx + 1, c->ch + idx, sizeof(mn *) * (c->n - idx)); c->ch[idx] = m; c->n++; m->par = c; }
static int midx(mn *m) { for (int i = 0; i < m->par->n; i++) if (m->par->ch[i] == m) return i; return -1; }
static void mdel(mn *m) { mn *c = m->par; int i = midx(m); memmove(c->ch + i, c->ch + i + 1, sizeof(mn *) * (c->n - i - 1)); c->n--; m->par = 0; }
static zpl_adt_node *real_of(mn *m) { if (m == R[0]) return &root[0]; if (m == R[1]) return &root[1]; return real_of(m->par)->nodes + midx(m); }
static mn *all[160]; static int nall;
static void collect(mn *m) { all[nall++] = m; for (int i = 0; i < m->n; i++) collect(m->ch[i]); }
static void collect_all(void) { nall = 0; collect(R[0]); collect(R[1]); }
static int within(mn *m, mn *anc) { for (; m; m = m->par) if (m == anc) return 1; return 0; }
static uint64_t cmp(mn *m, zpl_adt_node *r, uint64_t h, const char *op) {
    MC_CHECK(r->type == m->type, "%s: a node changed its type", op);
    MC_CHECK((r->name == NULL) == (m->name == NULL) && (!m->name || !strcmp(r->name, m->name)), "%s: a node changed its name", op);
    h = mc_hash_u(h, m->type * 8 + m->n);
    switch (m->type) {
    case ZPL_ADT_TYPE_INTEGER: MC_CHECK(r->integer == m->iv, "%s: an integer changed", op); break;
    case ZPL_ADT_TYPE_REAL: MC_CHECK(r->real == m->rv, "%s: a real changed", op); break;
    case ZPL_ADT_TYPE_STRING: MC_CHECK(!strcmp(r->string, m->sv), "%s: a string changed", op); break;
    default:
        MC_CHECK(r->nodes != NULL, "%s: a container lost its children", op);
        MC_CHECK(zpl_array_count(r->nodes) == m->n, "%s: a container has %d children, expected %d", op, (int)zpl_array_count(r->nodes), m->n);
        for (int i = 0; i < m->n; i++) {
            MC_CHECK(r->nodes[i].parent == r, "%s: child %d of a container does not know its parent", op, i);
            h = cmp(m->ch[i], r->nodes + i, h, op);
        }
    }
    return h;
}
static void check(const char *op) { uint64_t h = cmp(R[0], &root[0], 1, op); h = cmp(R[1], &root[1], h, op); mc_state(h); }
static mn *mfind(mn *m, const char *name, int deep) {
    if (m->type != ZPL_ADT_TYPE_OBJECT) return 0;
    for (int i = 0; i < m->n; i++) if (m->ch[i]->name && !strcmp(m->ch[i]->name, name)) return m->ch[i];
    if (deep) for (int i = 0; i < m->n; i++) { mn *r = mfind(m->ch[i], name, 1); if (r) return r; }
    return 0;
}
static void look(void) {
    static const char *want[] = { "a", "b", "c", "dd", "zz", "" };
    collect_all();
    for (int i = 0; i < nall; i++) {
        mn *m = all[i]; zpl_adt_node *r = real_of(m);
        if (inobj(m)) for (int w = 0; w < 6; w++) for (int deep = 0; deep < 2; deep++) {
            mn *e = mfind(m, want[w], deep); zpl_adt_node *g = zpl_adt_find(r, want[w], deep);
            MC_CHECK(g == (e ? real_of(e) : NULL), "find(\"%s\", deep=%d) returns the wrong node", want[w], deep);
        }
        if (m->type == ZPL_ADT_TYPE_ARRAY) {
            char b[32];
            for (int k = 0; k < m->n + 2; k++) { sprintf(b, "%d", k); MC_CHECK(zpl_adt_query(r, b) == (k < m->n ? r->nodes + k : NULL), "query(\"%d\") on an array of %d", k, m->n); }
            MC_CHECK(zpl_adt_query(r, "zz") == NULL && zpl_adt_query(r, "-1") == NULL && zpl_adt_query(r, "0x") == NULL, "a path that is no index selected an element");
            /* first element of a value, first object with a field of a value */
            static const char *vals[] = { "7", "-3", "x", "nope" };
            for (int v = 0; v < 4; v++) {
                mn *e = 0; for (int k = 0; k < m->n && !e; k++) { mn *c = m->ch[k]; char t[32] = "\1"; if (c->type == ZPL_ADT_TYPE_INTEGER) sprintf(t, "%lld", c->iv); if (c->type == ZPL_ADT_TYPE_STRING) strcpy(t, c->sv); if (!strcmp(t, vals[v])) e = c; }
                sprintf(b, "[%s]", vals[v]); MC_CHECK(zpl_adt_query(r, b) == (e ? real_of(e) : NULL), "query(\"%s\") on an array", b);
                e = 0; for (int k = 0; k < m->n && !e; k++) { mn *c = m->ch[k]; if (!inobj(c)) continue; for (int q = 0; q < c->n && !e; q++) { mn *f = c->ch[q]; if (!f->name || strcmp(f->name, "b")) continue; char t[32] = "\1"; if (f->type == ZPL_ADT_TYPE_INTEGER) sprintf(t, "%lld", f->iv); if (f->type == ZPL_ADT_TYPE_STRING) strcpy(t, f->sv); if (!strcmp(t, vals[v])) e = c; } }
                sprintf(b, "[b=%s]", vals[v]); MC_CHECK(zpl_adt_query(r, b) == (e ? real_of(e) : NULL), "query(\"%s\") on an array", b);
            }
        }
        /* path from the root: found when every step is the first of its name */
        char path[256] = ""; mn *st[16]; int d = 0, uniq = 1, root_i;
        for (mn *x = m; x->par; x = x->par) st[d++] = x;
        root_i = d ? (within(m, R[0]) ? 0 : 1) : -1;
        if (root_i < 0) continue;
        for (int k = d - 1; k >= 0; k--) {
            if (inobj(st[k]->par)) { if (!st[k]->name || mfind(st[k]->par, st[k]->name, 0) != st[k]) { uniq = 0; break; } strcat(path, st[k]->name); }
            else sprintf(path + strlen(path), "%d", midx(st[k]));
            if (k) strcat(path, "/");
        }
        if (uniq) {
            MC_CHECK(zpl_adt_query(&root[root_i], path) == r, "query(\"%s\") does not return the node of that path", path);
            char p2[260]; sprintf(p2, "/%s", path); MC_CHECK(zpl_adt_query(&root[root_i], p2) == r, "query(\"%s\") does not return the node of that path", p2);
            sprintf(p2, "%s/zz", path); MC_CHECK(zpl_adt_query(&root[root_i], p2) == NULL, "query(\"%s\") returns a node", p2);
        }
    }
    MC_CHECK(zpl_adt_query(&root[0], "") == &root[0] && zpl_adt_query(&root[1], "/") == &root[1], "an empty path does not denote the node itself");
}
static void start(void) {
    np = 0; ctr = 0; R[0] = mknode(ZPL_ADT_TYPE_OBJECT); R[1] = mknode(ZPL_ADT_TYPE_ARRAY); memset(root, 0, sizeof root);
    MC_CHECK(zpl_adt_set_obj(&root[0], NULL, zpl_heap()) == 0, "set_obj fails"); MC_CHECK(zpl_adt_set_arr(&root[1], NULL, zpl_heap()) == 0, "set_arr fails");
}
static void fill(mn *m, zpl_adt_node *r, int kind, int k) {
    switch (kind) {
    case 0: m->type = ZPL_ADT_TYPE_INTEGER; m->iv = INTS[k % 4]; break;
    case 1: m->type = ZPL_ADT_TYPE_STRING; m->sv = STRS[k % 4]; break;
    case 2: m->type = ZPL_ADT_TYPE_REAL; m->rv = k + 0.5; break;
    case 3: m->type = ZPL_ADT_TYPE_OBJECT; break;
    case 4: m->type = ZPL_ADT_TYPE_ARRAY; break;
    }
    if (!r) return;
    switch (kind) {
    case 0: zpl_adt_set_int(r, m->name, m->iv); break;
    case 1: zpl_adt_set_str(r, m->name, m->sv); break;
    case 2: zpl_adt_set_flt(r, m->name, m->rv); break;
    case 3: MC_CHECK(zpl_adt_set_obj(r, m->name, zpl_heap()) == 0, "set_obj fails"); break;
    case 4: MC_CHECK(zpl_adt_set_arr(r, m->name, zpl_heap()) == 0, "set_arr fails"); break;
    }
}
static mn *append(mn *c, int kind) {
    mn *m = mknode(0); int k = ctr++; m->name = inobj(c) ? NAMES[k % 4] : NULL; fill(m, NULL, kind, k);
    zpl_adt_node *rc = real_of(c), *g = 0;
    switch (kind) {
    case 0: g = k % 3 == 0 ? zpl_adt_append_int(rc, m->name, m->iv) : zpl_adt_append(rc, m->name, m->iv); break;
    case 1: g = k % 3 == 0 ? zpl_adt_append_str(rc, m->name, m->sv) : k % 3 == 1 ? zpl_adt_append(rc, m->name, m->sv) : zpl_adt_append(rc, m->name, (char *)m->sv); break;
    case 2: g = k % 3 == 0 ? zpl_adt_append_flt(rc, m->name, m->rv) : k % 3 == 1 ? zpl_adt_append(rc, m->name, m->rv) : zpl_adt_append(rc, m->name, (float)m->rv); break;
    case 3: g = zpl_adt_append_obj(rc, m->name); break;
    case 4: g = zpl_adt_append_arr(rc, m->name); break;
    }
    mins(c, c->n, m); MC_CHECK(g == rc->nodes + c->n - 1, "append does not return the new last child");
    return m;
}
static mn *pick(int what) { /* 0 any container, 1 any node that is not a root */
    collect_all(); mn *l[160]; int n = 0; for (int i = 0; i < nall; i++) if (what ? all[i]->par != NULL : iscont(all[i])) l[n++] = all[i];
    if (!n) mc_prune();
    return l[mc_choose(n)];
}
static void step(void) {
    mc_trans(1);
    switch (mc_choose(7)) {
    case 0: { mn *c = pick(0); int kind = mc_choose(3); kind = kind == 0 ? (ctr & 1) : kind + 2; mc_log("append kind %d to node %d\n", kind, c->id); append(c, kind); check("append"); } break;
    case 1: { mn *c = pick(0); if (!c->n) mc_prune(); int at = mc_choose(c->n); int kind = mc_choose(2) ? 3 : 0; mc_log("alloc_at %d in node %d kind %d\n", at, c->id, kind);
        zpl_adt_node *rc = real_of(c), *g = zpl_adt_alloc_at(rc, at); MC_CHECK(g == rc->nodes + at, "alloc_at does not return the child at its index"); MC_CHECK(g->parent == rc, "a fresh child does not know its parent");
        mn *m = mknode(0); m->name = inobj(c) ? NAMES[ctr % 4] : NULL; fill(m, g, kind, ctr++); mins(c, at, m); check("alloc_at"); } break;
    case 2: { mn *m = pick(1); zpl_adt_node *r = real_of(m); mc_log("destroy and remove node %d\n", m->id); zpl_adt_destroy_branch(r); zpl_adt_remove_node(r); mdel(m); check("remove"); } break;
    case 3: { mn *m = pick(1), *c = pick(0); if (within(c, m)) mc_prune(); int at = mc_choose(c->n + 1); mc_log("move node %d to node %d at %d\n", m->id, c->id, at);
        zpl_adt_node *g = zpl_adt_move_node_at(real_of(m), real_of(c), at);
        if (m->par == c) { int o = midx(m); mdel(m); mins(c, o < at ? at - 1 : at, m); } else { mdel(m); mins(c, at, m); }
        MC_CHECK(g == real_of(m), "move does not return the moved node"); check("move_node_at"); } break;
    case 4: { mn *m = pick(1), *c = pick(0); if (within(c, m)) mc_prune(); mc_log("move node %d to the end of node %d\n", m->id, c->id);
        zpl_adt_node *g = zpl_adt_move_node(real_of(m), real_of(c)); mdel(m); mins(c, c->n, m); MC_CHECK(g == real_of(m), "move does not return the moved node"); check("move_node"); } break;
    case 5: { mn *a = pick(1), *b = pick(1); if (within(a, b) || within(b, a)) mc_prune(); mc_log("swap nodes %d and %d\n", a->id, b->id);
        zpl_adt_swap_nodes(real_of(a), real_of(b)); mn *pa = a->par, *pb = b->par; int ia = midx(a), ib = midx(b); pa->ch[ia] = b; pb->ch[ib] = a; a->par = pb; b->par = pa; check("swap"); } break;
    case 6: { mn *m = pick(1); int kind = mc_choose(2) ? 4 : 2; mc_log("set node %d to kind %d\n", m->id, kind); zpl_adt_node *r = real_of(m); if (iscont(m)) { zpl_adt_destroy_branch(r); m->n = 0; }
        m->name = NAMES[3]; fill(m, r, kind, ctr++); check("set"); } break;
    }
}
static void finish(void) { look(); zpl_adt_destroy_branch(&root[0]); zpl_adt_destroy_branch(&root[1]); }
static void shapes(int w) {
    if (w == 0) { mn *o = append(R[0], 3); append(o, 0); append(o, 1); append(R[0], 0); }
    if (w == 1) { mn *a = append(R[0], 4); mn *o = append(a, 3); append(o, 0); mn *o2 = append(a, 3); append(o2, 1); append(R[1], 0); append(R[1], 1); }
    if (w == 2) { mn *o = append(R[1], 3); mn *a = append(o, 4); append(a, 0); append(a, 1); append(R[1], 3); }
}
static void edits(void) { int d = mc_thorough ? 3 : 2; start(); shapes(mc_choose(3)); check("build"); for (int s = 0; s < d; s++) step(); finish(); }
static void scratchy(void) { int d = 5; start(); for (int s = 0; s < d; s++) step(); finish(); }
/* growth: containers filled up to n children (with grandchildren), then every edit */
static void growth(void) {
    start(); int n = mc_choose(mc_thorough ? 34 : 20), w = mc_choose(2), nest = mc_choose(2);
    mn *c = R[w]; if (nest) { append(c, 0); c = append(c, 3); }
    for (int i = 0; i < n; i++) { mn *m = append(c, i % 3 == 0 ? 3 : i % 3 == 1 ? 0 : 4); if (iscont(m) && i % 2 == 0) append(m, 1); check("grow"); }
    step(); finish();
}
/* failing memory: append and move report it and change nothing */
static void oom(void) {
    start(); shapes(mc_choose(3)); int n = mc_choose(9); mn *c = mc_choose(2) ? R[1] : R[0];
    for (int i = 0; i < n; i++) append(c, 0);
    int op = mc_choose(7); zpl_adt_node *rc = real_of(c), *g = rc; mn *mv = NULL;
    if (op == 6) { collect_all(); for (int i = 0; i < nall; i++) if (all[i]->par && !within(c, all[i]) && all[i]->par != c) mv = all[i]; if (!mv) { finish(); return; } }
    int at = mc_choose(3);
    mc_malloc_fail_at = mc_malloc_n + at; long before = mc_malloc_n;
    switch (op) {
    case 0: g = zpl_adt_append_int(rc, "n", 1); break;
    case 1: g = zpl_adt_append_str(rc, "n", "s"); break;
    case 2: g = zpl_adt_append_flt(rc, "n", 1); break;
    case 3: g = zpl_adt_append_obj(rc, "n"); break;
    case 4: g = zpl_adt_append_arr(rc, "n"); break;
    case 5: g = zpl_adt_alloc_at(rc, 0); break;
    case 6: g = zpl_adt_move_node(real_of(mv), rc); break;
    }
    int hit = mc_malloc_n - before > at; mc_malloc_fail_at = -1; mc_trans(1);
    mc_log("op %d, allocation %d fails (%s), result %p\n", op, at, hit ? "reached" : "not reached", (void *)g);
    if (hit) { MC_CHECK(g == NULL, "a failed allocation is not reported"); check("failed edit"); }
    else { MC_CHECK(g != NULL, "an edit failed although memory was available");
        mn *m; if (op == 6) { mdel(mv); mins(c, c->n, mv); } else { m = mknode(0); m->name = op == 5 ? NULL : "n"; m->iv = 1; m->rv = 1; m->sv = "s"; static int ty[] = { ZPL_ADT_TYPE_INTEGER, ZPL_ADT_TYPE_STRING, ZPL_ADT_TYPE_REAL, ZPL_ADT_TYPE_OBJECT, ZPL_ADT_TYPE_ARRAY, ZPL_ADT_TYPE_INTEGER }; m->type = ty[op]; if (op == 5) { zpl_adt_set_int(g, NULL, 1); } mins(c, op == 5 ? 0 : c->n, m); }
        check("edit"); }
    finish();
}
/* every path of up to three steps over small documents, against an interpreter of the documented syntax */
static mn *put(mn *c, const char *name, int kind, int k) {
    mn *m = mknode(0); m->name = name; fill(m, NULL, kind, k); zpl_adt_node *rc = real_of(c), *g = NULL;
    switch (kind) { case 0: g = zpl_adt_append_int(rc, name, m->iv); break; case 1: g = zpl_adt_append_str(rc, name, m->sv); break; case 3: g = zpl_adt_append_obj(rc, name); break; case 4: g = zpl_adt_append_arr(rc, name); break; }
    MC_CHECK(g, "append fails"); mins(c, c->n, m); return m;
}
static void element(mn *c, int e) {
    switch (e) {
    case 0: put(c, NULL, 0, 0); break;
    case 1: put(c, NULL, 1, 0); break;
    case 2: { mn *o = put(c, NULL, 3, 0); put(o, "a", 0, 0); put(o, "b", 1, 0); } break;
    case 3: { mn *o = put(c, NULL, 3, 0); put(o, "a", 1, 0); mn *b = put(o, "b", 4, 0); put(b, NULL, 0, 0); } break;
    case 4: { mn *o = put(c, NULL, 3, 0); put(o, "b", 0, 0); put(o, "b", 1, 1); put(o, "a", 0, 1); } break;      /* a name twice */
    case 5: { mn *a = put(c, NULL, 4, 0); put(a, NULL, 1, 0); mn *o = put(a, NULL, 3, 0); put(o, "a", 0, 0); } break;
    case 6: put(c, NULL, 1, 2); break;
    case 7: put(c, NULL, 1, 1); break;
    }
}
static int has_value(mn *m, const char *v) { char b[32]; if (m->type == ZPL_ADT_TYPE_INTEGER) { sprintf(b, "%lld", m->iv); return !strcmp(b, v); } return m->type == ZPL_ADT_TYPE_STRING && !strcmp(m->sv, v); }
static int has_field(mn *m, const char *f, const char *v) { for (int i = 0; i < m->n; i++) if (!strcmp(m->ch[i]->name, f) && has_value(m->ch[i], v)) return 1; return 0; }
static mn *walk1(mn *m, const char *s) {
    if (!m || !iscont(m)) return NULL;
    if (*s == '[') {
        char b[32]; strcpy(b, s + 1); b[strlen(b) - 1] = 0; char *q = strchr(b, '=');
        if (!q) { for (int i = 0; i < m->n; i++) if (has_value(m->ch[i], b)) return m->ch[i]; return NULL; }
        *q++ = 0; if (inobj(m)) return has_field(m, b, q) ? m : NULL;
        for (int i = 0; i < m->n; i++) if (inobj(m->ch[i]) && has_field(m->ch[i], b, q)) return m->ch[i];
        return NULL;
    }
    if (inobj(m)) return mfind(m, s, 0);
    char *e; long k = strtol(s, &e, 10); return *e || k < 0 || k >= m->n ? NULL : m->ch[k];
}
static void queries(void) {
    static const char *SEG[] = { "a", "b", "c", "dd", "0", "1", "2", "7", "-1", "1x", "[a=7]", "[a=x]", "[b=7]", "[b=x]", "[a=]", "[7]", "[x]", "[]", "[zz=7]", "[dd=x]", "x" }; enum { NS = 21 };
    start(); int w = mc_choose(3), n = mc_choose(mc_thorough ? 5 : 4); mn *c = R[1]; if (w) { put(R[0], "a", 0, w == 1 ? 0 : 1); c = put(R[0], w == 1 ? "c" : "0", 4, 0); put(R[0], "dd", 1, 0); }
    for (int i = 0; i < n; i++) element(c, mc_choose(n == 3 && !mc_thorough ? 6 : 8));
    check("build"); mn *top = w ? R[0] : R[1]; zpl_adt_node *rt = w ? &root[0] : &root[1]; char b[64];
    for (int i = 0; i < NS; i++) { mn *x = walk1(top, SEG[i]); if (inobj(top) && SEG[i][0] == '[' && !strchr(SEG[i], '=')) continue;
        for (int j = -1; j < NS; j++) { if (j < 0) { for (int s = 0; s < 2; s++) { sprintf(b, "%s%s", s ? "/" : "", SEG[i]); MC_CHECK(zpl_adt_query(rt, b) == (x ? real_of(x) : NULL), "query(\"%s\") returns the wrong node", b); mc_trans(1); } continue; }
            if (x && inobj(x) && SEG[j][0] == '[' && !strchr(SEG[j], '=')) continue; mn *y = walk1(x, SEG[j]);
            sprintf(b, "%s/%s", SEG[i], SEG[j]); MC_CHECK(zpl_adt_query(rt, b) == (y ? real_of(y) : NULL), "query(\"%s\") returns the wrong node", b); mc_trans(1);
            for (int k = 0; y && k < NS; k++) { if (inobj(y) && SEG[k][0] == '[' && !strchr(SEG[k], '=')) continue; mn *z = walk1(y, SEG[k]); sprintf(b, "%s/%s/%s", SEG[i], SEG[j], SEG[k]); MC_CHECK(zpl_adt_query(rt, b) == (z ? real_of(z) : NULL), "query(\"%s\") returns the wrong node", b); mc_trans(1); } } }
    check("queries"); finish();
}
/* the type-generic setters store what they are given, for every type of value */
#define TV_(v, ty, field, want) do { if (mc_choose(2)) { zpl_adt_set(&nd, nm, v); g = &nd; } else g = zpl_adt_append(&r, nm, v); mc_trans(1); MC_CHECK(g && g->type == ty && g->field == (want), "a value is stored as a node of type %d", g ? g->type : -1); } while (0)
static void s_typed(void) {
    zpl_adt_node r, nd = { 0 }, *g = NULL; char nm[] = "nm", txt[] = "text"; const char *ct = txt; MC_CHECK(zpl_adt_set_obj(&r, NULL, zpl_heap()) == 0, "set_obj fails");
    zpl_i64 v = (zpl_i64[]){ 0, 1, -1, 100, -128, 127 }[mc_choose(6)];
    switch (mc_choose(12)) {
    case 0: TV_((zpl_i8)v, ZPL_ADT_TYPE_INTEGER, integer, v); break;
    case 1: TV_((zpl_i16)v, ZPL_ADT_TYPE_INTEGER, integer, v); break;
    case 2: TV_((zpl_i32)v, ZPL_ADT_TYPE_INTEGER, integer, v); break;
    case 3: TV_((zpl_i64)v, ZPL_ADT_TYPE_INTEGER, integer, v); break;
    case 4: TV_((zpl_u8)v, ZPL_ADT_TYPE_INTEGER, integer, (zpl_i64)(zpl_u8)v); break;
    case 5: TV_((zpl_u16)v, ZPL_ADT_TYPE_INTEGER, integer, (zpl_i64)(zpl_u16)v); break;
    case 6: TV_((zpl_u32)v, ZPL_ADT_TYPE_INTEGER, integer, (zpl_i64)(zpl_u32)v); break;
    case 7: TV_((zpl_f64)v + 0.25, ZPL_ADT_TYPE_REAL, real, (double)v + 0.25); break;
    case 8: TV_((zpl_f32)v + 0.25f, ZPL_ADT_TYPE_REAL, real, (double)v + 0.25); break;
    case 9: TV_(txt, ZPL_ADT_TYPE_STRING, string, txt); break;
    case 10: TV_(ct, ZPL_ADT_TYPE_STRING, string, txt); break;
    default: TV_((int)v, ZPL_ADT_TYPE_INTEGER, integer, v); break;
    }
    MC_CHECK(g->name == nm, "the name is lost"); zpl_adt_destroy_branch(&r);
}
/* containers past every byte-sized and word-sized count, and long paths */
static char *wname(int i) { static char *all_[70100]; if (!all_[i]) { char b[16]; sprintf(b, "n%d", i); int live = mc_live; all_[i] = strdup(b); mc_live = live; } return all_[i]; }
static void wide_is(zpl_adt_node *c, const int *v, int n, int obj, const char *op) {
    MC_CHECK(zpl_array_count(c->nodes) == n, "%s: %d children, expected %d", op, (int)zpl_array_count(c->nodes), n);
    for (int i = 0; i < n; i++) { zpl_adt_node *g = c->nodes + i; MC_CHECK(g->parent == c, "%s: child %d of %d does not know its parent", op, i, n); MC_CHECK(!obj || (g->name && atoi(g->name + 1) == v[i]), "%s: child %d of %d has another name", op, i, n);
        if (v[i] % 5 == 3) { MC_CHECK(g->type == ZPL_ADT_TYPE_ARRAY && zpl_array_count(g->nodes) == 1 && g->nodes[0].integer == v[i] && g->nodes[0].parent == g, "%s: the branch at %d of %d", op, i, n); } else MC_CHECK(g->type == ZPL_ADT_TYPE_INTEGER && g->integer == v[i], "%s: child %d of %d is another one", op, i, n); }
}
static void s_wide(void) {
    static const int L[] = { 127, 128, 255, 256, 257, 1000, 65535, 65536, 70000 }; int n = L[mc_choose(9)], obj = mc_choose(2), o = mc_choose(7); if (n > 1000 && o == 6 && !obj) mc_prune(); mc_claim(); mc_log("%d children, object %d, edit %d\n", n, obj, o); mc_beat(); mc_trans(1); int *v = malloc(sizeof(int) * (size_t)(n + 8)); zpl_adt_node r, q; memset(&r, 0, sizeof r); memset(&q, 0, sizeof q); if (obj) zpl_adt_set_obj(&r, NULL, zpl_heap()); else zpl_adt_set_arr(&r, NULL, zpl_heap()); zpl_adt_set_arr(&q, NULL, zpl_heap());
    for (int i = 0; i < n; i++) { v[i] = i; if (i % 5 == 3) { zpl_adt_node *a = zpl_adt_append_arr(&r, obj ? wname(i) : NULL); MC_CHECK(a && zpl_adt_append_int(a, NULL, i), "append"); } else MC_CHECK(zpl_adt_append_int(&r, obj ? wname(i) : NULL, i), "append"); }
    wide_is(&r, v, n, obj, "build"); mc_beat(); int at = (int[]){ 0, n / 2, n - 1, 3 }[mc_choose(4)]; if (o) mc_state(mc_hash_u(mc_hash_u(n, o), at));
    switch (o) {
    case 0: { zpl_adt_node *g = zpl_adt_alloc_at(&r, at); MC_CHECK(g == r.nodes + at, "alloc_at"); zpl_adt_set_int(g, obj ? wname(70001) : NULL, 70001); memmove(v + at + 1, v + at, sizeof(int) * (size_t)(n - at)); v[at] = 70001; n++; break; }
    case 1: zpl_adt_destroy_branch(r.nodes + at); zpl_adt_remove_node(r.nodes + at); memmove(v + at, v + at + 1, sizeof(int) * (size_t)(n - at - 1)); n--; break;
    case 2: { zpl_adt_node *g = zpl_adt_move_node(r.nodes + at, &q); int w = v[at]; memmove(v + at, v + at + 1, sizeof(int) * (size_t)(n - at - 1)); n--; MC_CHECK(g == q.nodes, "move"); wide_is(&q, &w, 1, obj, "the moved node"); break; }
    case 3: { int to = (int[]){ 0, n / 2, n }[mc_choose(3)], w = v[at]; zpl_adt_move_node_at(r.nodes + at, &r, to); memmove(v + at, v + at + 1, sizeof(int) * (size_t)(n - at - 1)); if (at < to) to--; memmove(v + to + 1, v + to, sizeof(int) * (size_t)(n - 1 - to)); v[to] = w; break; }
    case 4: { int b = n - 1 - at / 2; if (b == at) break; zpl_adt_swap_nodes(r.nodes + at, r.nodes + b); int w = v[at]; v[at] = v[b]; v[b] = w; break; }
    case 5: { char b[24]; if (obj) { MC_CHECK(zpl_adt_find(&r, wname(at), 0) == r.nodes + at && zpl_adt_query(&r, wname(at)) == r.nodes + at, "finding child %d of %d", at, n); MC_CHECK(!zpl_adt_find(&r, "n70002", 1), "a child that is not there is found"); } else { sprintf(b, "%d", at); MC_CHECK(zpl_adt_query(&r, b) == r.nodes + at, "child %d of %d by index", at, n); sprintf(b, "%d", n); MC_CHECK(!zpl_adt_query(&r, b), "a child past the end"); sprintf(b, "%d/0", at); MC_CHECK(zpl_adt_query(&r, b) == (at % 5 == 3 ? r.nodes[at].nodes : NULL), "query %s", b); } break; }
    default: if (obj) { /* a value deep inside is found by name, the first one in order */ zpl_adt_node *a = zpl_adt_append_obj(&r, wname(70003)), *z = zpl_adt_append_int(a, "deep", 5); MC_CHECK(zpl_adt_find(&r, "deep", 1) == z && !zpl_adt_find(&r, "deep", 0), "deep search in %d children", n); zpl_adt_destroy_branch(a); zpl_adt_remove_node(a); } else { char b[24]; int w = at % 5 == 3 ? at - 1 : at; sprintf(b, "[%d]", w); MC_CHECK(zpl_adt_query(&r, b) == r.nodes + w, "query %s", b); } break;
    }
    wide_is(&r, v, n, obj, "edit"); zpl_adt_destroy_branch(&r); zpl_adt_destroy_branch(&q); free(v);
}
static void s_deep(void) { /* chains of containers */
    static const int L[] = { 15, 16, 17, 64, 255, 256, 300, 1000 }; int n = L[mc_choose(8)], mix = mc_choose(3); zpl_adt_node r; memset(&r, 0, sizeof r); zpl_adt_set_obj(&r, NULL, zpl_heap()); zpl_adt_node *c = &r, *first = NULL; char *path = malloc((size_t)n * 6 + 8), *e = path; mc_beat(); mc_trans(1); mc_state((uint64_t)n * 3 + mix);
    for (int i = 0; i < n; i++) { int arr = mix == 1 && (i & 1) == 0, in_obj = c->type == ZPL_ADT_TYPE_OBJECT; e += sprintf(e, in_obj ? "/d%d" : "/0", i % 7); char *nm = in_obj ? wname(0) : NULL; static const char *D[] = { "d0", "d1", "d2", "d3", "d4", "d5", "d6" }; (void)nm; c = arr ? zpl_adt_append_arr(c, in_obj ? D[i % 7] : NULL) : zpl_adt_append_obj(c, in_obj ? D[i % 7] : NULL); MC_CHECK(c, "append"); if (i == 0) first = c; }
    zpl_adt_node *leaf = c->type == ZPL_ADT_TYPE_OBJECT ? zpl_adt_append_int(c, "leaf", 7) : zpl_adt_append_int(c, NULL, 7); mc_log("%d levels\n", n); MC_CHECK(zpl_adt_query(&r, path) == leaf->parent, "the path through %d levels", n); strcpy(e, c->type == ZPL_ADT_TYPE_OBJECT ? "/leaf" : "/0"); MC_CHECK(zpl_adt_query(&r, path) == leaf && zpl_adt_query(&r, path + 1) == leaf, "the path through %d levels to the value", n); strcpy(e, "/zz"); MC_CHECK(!zpl_adt_query(&r, path), "a path that leads nowhere");
    if (mix != 1) MC_CHECK(zpl_adt_find(&r, "leaf", 1) == leaf && !zpl_adt_find(&r, "leaf", 0) && !zpl_adt_find(&r, "zz", 1), "deep search through %d levels", n);
    if (mix == 2) { zpl_adt_node q; memset(&q, 0, sizeof q); zpl_adt_set_arr(&q, NULL, zpl_heap()); zpl_adt_move_node(first, &q); MC_CHECK(zpl_array_count(r.nodes) == 0 && zpl_adt_find(q.nodes, "leaf", 1), "moving a chain of %d", n); for (zpl_adt_node *p = zpl_adt_find(q.nodes, "leaf", 1); p != &q; p = p->parent) { MC_CHECK(p->parent && p >= p->parent->nodes && p < p->parent->nodes + zpl_array_count(p->parent->nodes), "a parent link of a moved chain"); } zpl_adt_destroy_branch(&q); }
    zpl_adt_destroy_branch(&r); free(path);
}
/* the older names do what the newer ones do */
static void s_older(void) {
    zpl_adt_node a, b; int n = mc_choose(5); MC_CHECK(!zpl_adt_make_branch(&a, zpl_heap_allocator(), "r", 0) && !zpl_adt_make_branch(&b, zpl_heap_allocator(), "r", 0), "making a branch"); zpl_adt_node *pa = &a, *pb = &b; static const char *V[] = { "text", "12", "-3.5", "0x1f", "" };
    for (int i = 0; i < n; i++) { static char names[8][8]; char *name = names[i]; sprintf(name, "n%d", i); int k = mc_choose(5); const char *v = V[(i + k) % 5]; zpl_adt_node *x, *y; mc_trans(1);
        switch (k) { case 0: x = zpl_adt_inset_int(pa, name, i - 2); y = zpl_adt_append_int(pb, name, i - 2); break; case 1: x = zpl_adt_inset_flt(pa, name, i * 0.5); y = zpl_adt_append_flt(pb, name, i * 0.5); break; case 2: x = zpl_adt_inset_str(pa, name, v); y = zpl_adt_append_str(pb, name, v); break; case 3: x = zpl_adt_inset_obj(pa, name); y = zpl_adt_append_obj(pb, name); break; default: x = zpl_adt_inset_arr(pa, name); y = zpl_adt_append_arr(pb, name); }
        MC_CHECK(x && y && x->type == y->type && !strcmp(x->name, name) && x->parent == pa, "the older name %d appends something else", k); if (k == 0) MC_CHECK(x->integer == i - 2, "integer"); if (k == 1) MC_CHECK(x->real == i * 0.5, "real"); if (k == 2) { MC_CHECK(!strcmp(x->string, v), "string"); char t1[8], t2[8]; strcpy(t1, v); strcpy(t2, v); zpl_adt_node u1, u2; memset(&u1, 0, sizeof u1); memset(&u2, 0, sizeof u2); u1.type = u2.type = ZPL_ADT_TYPE_STRING; u1.string = t1; u2.string = t2; zpl_adt_str_to_flt(&u1); zpl_adt_str_to_number(&u2); MC_CHECK(u1.type == u2.type && (u1.type != ZPL_ADT_TYPE_INTEGER || u1.integer == u2.integer) && (u1.type != ZPL_ADT_TYPE_REAL || u1.real == u2.real), "\"%s\" is read differently", v); }
        zpl_adt_node *r = zpl_adt_get(pa, name); MC_CHECK(r == zpl_adt_query(pa, name), "the older name finds something else"); if (k >= 3) { pa = x; pb = y; } }
    zpl_adt_destroy_branch(&a); zpl_adt_destroy_branch(&b);
}
mc_suite mc_suites[] = { { "wide", s_wide }, { "deep", s_deep }, { "typed_values", s_typed }, { "tree_edits", edits }, { "tree_from_empty", scratchy }, { "tree_growth", growth }, { "tree_oom", oom }, { "queries", queries }, { "older_names", s_older }, { 0 } };
