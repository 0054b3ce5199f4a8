#include "z.h"
#define M 5
static zpl_list nd[M], junk; static int ord[M], n, inited[M];
static void check(const char *op) {
    zpl_list *p = &nd[ord[0]]; zpl_list *last = NULL; int i = 0; uint64_t h = 0;
    MC_CHECK(p->prev == NULL, "%s: the head has a predecessor", op);
    for (; p; p = p->next, i++) {
        MC_CHECK(i < n, "%s: walking forward finds more elements than were added", op);
        MC_CHECK(p == &nd[ord[i]], "%s: forward walk visits the wrong node at position %d", op, i);
        MC_CHECK(p->ptr == (void *)(intptr_t)(100 + ord[i]), "%s: payload changed", op);
        MC_CHECK(p->prev == last, "%s: back link at position %d does not point at the previous element", op, i);
        last = p; h = mc_hash_u(h, ord[i]);
    }
    MC_CHECK(i == n, "%s: forward walk visits %d of %d elements", op, i, n);
    mc_state(h);
}
static void seq(void) {
    int d = mc_thorough ? 8 : 7; memset(nd, 0, sizeof nd); memset(inited, 0, sizeof inited); inited[0] = 1;
    for (int i = 0; i < M; i++) zpl_list_init(&nd[i], (void *)(intptr_t)(100 + i));
    n = 1; ord[0] = 0; check("init");
    for (int s = 0; s < d; s++) {
        int o = mc_choose(2); mc_trans(1);
        if (o == 0) {
            if (n == M) mc_prune(); int free_[M], f = 0; for (int i = 0; i < M; i++) { int u = 0; for (int j = 0; j < n; j++) u |= ord[j] == i; if (!u) free_[f++] = i; }
            int it = free_[mc_choose(f)], at = mc_choose(n); int raw = 0; if (!inited[it]) raw = mc_choose(2);   /* an item that was never prepared: init is optional, add sets the links */
            mc_log("add node %d%s after position %d\n", it, raw ? " (links never prepared)" : "", at); if (raw) { nd[it].next = nd[it].prev = (zpl_list *)&junk; } inited[it] = 1;
            zpl_list *r = zpl_list_add(&nd[ord[at]], &nd[it]); MC_CHECK(r == &nd[it], "add does not return the new node");
            memmove(ord + at + 2, ord + at + 1, sizeof(int) * (n - at - 1)); ord[at + 1] = it; n++; check("add");
        } else {
            if (n < 2) mc_prune(); int at = mc_choose(n); mc_log("remove position %d\n", at); zpl_list *r = zpl_list_remove(&nd[ord[at]]);
            MC_CHECK(r == (at + 1 < n ? &nd[ord[at + 1]] : NULL), "remove does not return the following node");
            int was = ord[at]; memmove(ord + at, ord + at + 1, sizeof(int) * (n - at - 1)); n--;
            if (at == 0 || mc_choose(2)) { mc_log("  init node %d\n", was); zpl_list_init(&nd[was], (void *)(intptr_t)(100 + was)); }   /* else: added again as it is */
            check("remove");
        }
    }
}
static void s_long(void) { /* long chains */
    static zpl_list q[70001]; int n = (int[]){ 255, 256, 257, 65536, 70000 }[mc_choose(5)], back = mc_choose(2), rm = mc_choose(3); mc_claim(); mc_log("chain of %d\n", n); mc_beat(); for (int i = 0; i <= n; i++) zpl_list_init(&q[i], (void *)(intptr_t)(i + 1));
    for (int i = 1; i <= n; i++) zpl_list_add(back ? &q[0] : &q[i - 1], &q[i]); mc_trans((uint64_t)n);
    int step = rm == 0 ? 0 : rm == 1 ? 2 : 3; if (step) for (int i = 1; i <= n; i++) if (i % step == 0) { zpl_list *w = back ? (i > 1 && (i - 1) % step ? &q[i - 1] : step == 1 ? NULL : i == 1 ? NULL : &q[i - 1]) : i < n ? &q[i + 1] : NULL; zpl_list *g = zpl_list_remove(&q[i]); MC_CHECK(g == w, "removing node %d of %d does not return the next one", i, n); }
    zpl_list *p = &q[0], *last = NULL; for (int k = 0; k <= n; k++) { int i = k == 0 ? 0 : back ? n + 1 - k : k; if (i && step && i % step == 0) continue; MC_CHECK(p == &q[i] && p->prev == last && p->ptr == (void *)(intptr_t)(i + 1), "position of node %d of %d", i, n); last = p; p = p->next; } MC_CHECK(!p, "the chain does not end"); mc_state((uint64_t)n);
}
mc_suite mc_suites[] = { { "list_long", s_long }, { "list_seq", seq }, { 0 } };
