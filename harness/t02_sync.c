/* T02: merge points (zpl_sync) under every schedule up to the preemption bound */
#include "tsched.h"
#define PB(q, t) (mc_thorough ? (t) : (q))
#define MAXR 3
static zpl_sync sy; static zpl_thread th[4]; static zpl_semaphore go[4];
static volatile int arrived[MAXR], target[MAXR], passed[MAXR], isset[MAXR], released[MAXR]; static volatile int cur;
static int rounds, mode[4], nw, seen[MAXR][8];
static void init(void) { memset(&sy, 0xAB, sizeof sy); memset(th, 0, sizeof th); memset(go, 0, sizeof go); memset((void *)arrived, 0, sizeof arrived); memset((void *)target, 0, sizeof target); memset((void *)passed, 0, sizeof passed); memset((void *)isset, 0, sizeof isset); memset((void *)released, 0, sizeof released); memset(seen, 0, sizeof seen); cur = 0; }
/* one arrival; mode: 0 wait, 1 only count */
static void arrive(int r, int m, const char *who) {
    arrived[r]++;
    if (m) { zpl_i32 n = zpl_sync_reach(&sy); MC_CHECK(n >= 1 && n <= target[r], "%s: arrival %d of %d", who, n, target[r]); MC_CHECK(!seen[r][n], "%s: two arrivals got number %d", who, n); seen[r][n] = 1; }
    else { zpl_sync_reach_and_wait(&sy); MC_CHECK(arrived[r] == target[r] || released[r], "round %d: %s was let go after %d of %d arrivals", r, who, arrived[r], target[r]); passed[r]++; }
}
static zpl_isize worker(struct zpl_thread *t) { int me = (int)(t - th); for (int r = 0; r < rounds; r++) { zpl_semaphore_wait(&go[me]); arrive(r, mode[me] >> r & 1, "a worker"); } return 0; }
/* the intended use: set the target, wake the workers, arrive too; again and again with the same object */
static void s_rounds(void) {
    init(); nw = 1 + (int)mc_choose(3); rounds = 1 + (int)mc_choose(nw == 3 ? PB(1, 2) : MAXR); for (int i = 0; i < nw; i++) mode[i] = (int)mc_choose(1u << (rounds > 2 ? 2 : rounds)); int mm = (int)mc_choose(2); int pb = PB(nw == 1 ? 3 - (rounds > 1) : nw == 2 ? 2 - (rounds > 1) : 1, nw == 1 ? 5 - rounds : nw == 2 ? 3 - (rounds > 1) : 2 - (rounds > 1)); ts_begin(0);
    zpl_sync_init(&sy); for (int i = 0; i < nw; i++) { zpl_semaphore_init(&go[i]); zpl_thread_init_nowait(&th[i]); zpl_thread_start(&th[i], worker, 0); }
    ts_budget = pb;
    for (int r = 0; r < rounds; r++) { int tg = nw + 1; target[r] = tg; zpl_sync_set_target(&sy, tg); for (int i = 0; i < nw; i++) zpl_semaphore_release(&go[i]); arrive(r, mm, "the caller"); if (!mm) MC_CHECK(arrived[r] == tg, "round %d ended after %d of %d arrivals", r, arrived[r], tg); }
    for (int i = 0; i < nw; i++) zpl_thread_destroy(&th[i]);
    for (int r = 0; r < rounds; r++) { int want = !mm; for (int i = 0; i < nw; i++) want += !(mode[i] >> r & 1); MC_CHECK(passed[r] == want, "round %d: %d of %d waiters passed", r, passed[r], want); }
    zpl_sync_set_target(&sy, 1); zpl_sync_reach(&sy);          /* usable afterwards */
    zpl_sync_destroy(&sy); for (int i = 0; i < nw; i++) zpl_semaphore_destroy(&go[i]); ts_end();
}
/* the caller only sets the next target: it may not start before everyone has left the last round */
static zpl_isize w2(struct zpl_thread *t) { int me = (int)(t - th); for (int r = 0; r < rounds; r++) { zpl_semaphore_wait(&go[me]); MC_CHECK(cur == r, "a worker is sent into round %d during round %d", cur, r); arrive(r, mode[me], "a worker"); } return 0; }
static void s_set(void) {
    init(); nw = 2 + (int)mc_choose(2); rounds = 2 + (nw == 2 && mc_choose(2)); for (int i = 0; i < nw; i++) mode[i] = (int)mc_choose(2); int pb = PB(nw == 2 ? 2 : 1, nw == 2 ? 3 - (rounds > 2) : 2); ts_begin(0);
    zpl_sync_init(&sy); for (int i = 0; i < nw; i++) { zpl_semaphore_init(&go[i]); zpl_thread_init_nowait(&th[i]); zpl_thread_start(&th[i], w2, 0); }
    ts_budget = pb;
    for (int r = 0; r < rounds; r++) { int waits = 0; zpl_sync_set_target(&sy, nw); if (r) { for (int i = 0; i < nw; i++) waits += !mode[i]; MC_CHECK(arrived[r - 1] == nw, "a new target was accepted after %d of %d arrivals", arrived[r - 1], nw); } target[r] = nw; cur = r; for (int i = 0; i < nw; i++) zpl_semaphore_release(&go[i]); }
    for (int i = 0; i < nw; i++) zpl_thread_destroy(&th[i]); for (int r = 0; r < rounds; r++) { int w = 0; for (int i = 0; i < nw; i++) w += !mode[i]; MC_CHECK(arrived[r] == nw && passed[r] == w, "round %d: %d arrivals and %d of %d waiters passed", r, arrived[r], passed[r], w); }
    zpl_sync_destroy(&sy); for (int i = 0; i < nw; i++) zpl_semaphore_destroy(&go[i]); ts_end();
}
/* released before the target is reached */
static zpl_isize w3(struct zpl_thread *t) { (void)t; arrived[0]++; zpl_sync_reach_and_wait(&sy); MC_CHECK(released[0] || arrived[0] == target[0], "let go after %d of %d arrivals and no release", arrived[0], target[0]); passed[0]++; return 0; }
static void s_release(void) {
    init(); nw = 1 + (int)mc_choose(2); ts_begin(PB(nw == 1 ? 4 : 3, nw == 1 ? 5 : 4)); zpl_sync_init(&sy); target[0] = nw + 1; zpl_sync_set_target(&sy, nw + 1); for (int i = 0; i < nw; i++) { zpl_thread_init_nowait(&th[i]); zpl_thread_start(&th[i], w3, 0); }
    for (;;) { zpl_mutex_lock(&sy.mutex); int w = sy.waiting; zpl_mutex_unlock(&sy.mutex); if (w == nw) break; ts_yield(); }
    released[0] = 1; zpl_mutex_lock(&sy.mutex); zpl_sync_release(&sy); zpl_mutex_unlock(&sy.mutex);
    for (int i = 0; i < nw; i++) zpl_thread_destroy(&th[i]); MC_CHECK(passed[0] == nw, "%d of %d waiters passed", passed[0], nw);
    zpl_sync_set_target(&sy, 1); zpl_sync_reach_and_wait(&sy); zpl_sync_set_target(&sy, 1); zpl_sync_release(&sy); zpl_sync_destroy(&sy); ts_end();
}
/* everything one thread can do with it */
static void s_single(void) {
    init(); ts_begin(0); zpl_sync_init(&sy); int n = 1 + (int)mc_choose(4); for (int r = 0; r < n; r++) { int t = 1 + (int)mc_choose(3); zpl_sync_set_target(&sy, t); int rel = (int)mc_choose(2); for (int i = 1; i <= t; i++) { if (i == t && rel) { zpl_sync_reach_and_wait(&sy); break; } zpl_i32 k = zpl_sync_reach(&sy); MC_CHECK(k == i, "arrival %d of %d is number %d", i, t, k); } } zpl_sync_destroy(&sy); ts_end();
}
mc_suite mc_suites[] = { { "rounds", s_rounds }, { "set_target", s_set }, { "release", s_release }, { "single", s_single }, { 0 } };
