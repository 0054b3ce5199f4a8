/* T03: threads, mutexes and semaphores under every schedule up to the preemption bound */
#include "tsched.h"
#define PB(q, t) (mc_thorough ? (t) : (q))
static volatile int runs[4], done[4], order; static zpl_thread th[3];
static zpl_isize proc(struct zpl_thread *t) { int k = (int)(t - th); MC_CHECK(t->user_data == &runs[k], "thread %d got other data", k); MC_CHECK(zpl_thread_is_running(t), "a running thread is not running"); runs[k]++; ts_point("thread body"); done[k] = ++order; return 40 + k; }
static void zero(void) { memset((void *)runs, 0, sizeof runs); memset((void *)done, 0, sizeof done); order = 0; memset(th, 0xAB, sizeof th); }
/* start, join, restart, destroy */
static void s_start(void) {
    zero(); int nt = 1 + (int)mc_choose(2), nowait = (int)mc_choose(2), rounds = 1 + (int)mc_choose(2), join = (int)mc_choose(2), stack = (int)mc_choose(3); if (!join) rounds = 1; ts_begin(PB(nt == 1 ? 3 : 2, nt == 1 ? 5 : 3));
    for (int i = 0; i < nt; i++) { if (nowait) zpl_thread_init_nowait(&th[i]); else zpl_thread_init(&th[i]); MC_CHECK(!zpl_thread_is_running(&th[i]), "a new thread is running"); }
    for (int r = 1; r <= rounds; r++) {
        for (int i = 0; i < nt; i++) { zpl_b32 ok = stack ? zpl_thread_start_with_stack(&th[i], proc, (void *)&runs[i], stack == 1 ? 65536 : 1) : zpl_thread_start(&th[i], proc, (void *)&runs[i]); MC_CHECK(ok, "starting a thread fails"); if (stack == 1) MC_CHECK(ts_f[ts_n - 1].stack == 65536, "the stack size was not passed on"); }
        if (join) for (int i = 0; i < nt; i++) { zpl_thread_join(&th[i]); MC_CHECK(runs[i] == r && done[i], "joined thread %d ran %d times, expected %d", i, runs[i], r); MC_CHECK(th[i].return_value == 40 + i, "thread %d returned %d", i, (int)th[i].return_value); MC_CHECK(!zpl_thread_is_running(&th[i]), "a joined thread is still running"); }
    }
    for (int i = 0; i < nt; i++) { zpl_thread_destroy(&th[i]); MC_CHECK(runs[i] == rounds && done[i], "destroyed thread %d ran %d times, expected %d", i, runs[i], rounds); MC_CHECK(th[i].return_value == 40 + i, "thread %d returned %d", i, (int)th[i].return_value); }
    ts_end();
}
/* when the start handshake is on, the thread exists and runs once start has returned */
static volatile int reached; static zpl_isize hproc(struct zpl_thread *t) { (void)t; reached = 1; return 0; }
static void s_handshake(void) { zero(); reached = 0; ts_begin(PB(3, 5)); ts_eintr = 1; zpl_thread_init(&th[0]); MC_CHECK(zpl_thread_start(&th[0], hproc, 0), "start"); MC_CHECK(zpl_thread_is_running(&th[0]) || reached, "start returned before the thread ran"); zpl_thread_join(&th[0]); MC_CHECK(reached, "joined before it ran"); zpl_thread_destroy(&th[0]); ts_end(); }
/* thread creation fails */
static void s_fail(void) {
    zero(); int nt = 1 + (int)mc_choose(2), nowait = (int)mc_choose(2), again = (int)mc_choose(2), at = (int)mc_choose((uint32_t)nt); ts_begin(PB(2, 3)); ts_fail_at = at;
    for (int i = 0; i < nt; i++) { if (nowait) zpl_thread_init_nowait(&th[i]); else zpl_thread_init(&th[i]); }
    for (int i = 0; i < nt; i++) { zpl_b32 ok = zpl_thread_start(&th[i], proc, (void *)&runs[i]); MC_CHECK(!!ok == (i != at), "starting thread %d %s although its creation %s", i, ok ? "succeeds" : "fails", i == at ? "failed" : "succeeded"); if (!ok) { MC_CHECK(!zpl_thread_is_running(&th[i]), "a thread that was never created is running"); if (again) { ok = zpl_thread_start(&th[i], proc, (void *)&runs[i]); MC_CHECK(ok, "starting again fails"); } } }
    for (int i = 0; i < nt; i++) { zpl_thread_destroy(&th[i]); MC_CHECK(runs[i] == (i != at || again), "thread %d ran %d times", i, runs[i]); } ts_end();
}
/* ---- mutexes ---- */
static zpl_mutex m; static volatile int in, got[3], tries[3]; static int prog[3];
static void crit(int me) { MC_CHECK(in == 0, "two threads hold the mutex"); in = 1; ts_point("critical section"); ts_point("critical section"); in = 0; got[me]++; }
static void mstep(int me, int op) { if (op == 0) { zpl_mutex_lock(&m); crit(me); zpl_mutex_unlock(&m); } else { tries[me]++; zpl_b32 r = zpl_mutex_try_lock(&m); if (r) { crit(me); zpl_mutex_unlock(&m); } } }
static zpl_isize mproc(struct zpl_thread *t) { int me = (int)(t - th); mstep(me, prog[me] & 1); if (prog[me] & 2) mstep(me, prog[me] >> 2 & 1); return 0; }
static void s_mutex(void) {
    zero(); in = 0; memset((void *)got, 0, sizeof got); memset((void *)tries, 0, sizeof tries); int nt = 2 + (int)mc_choose(2); for (int i = 0; i < nt; i++) prog[i] = (int)mc_choose(nt == 2 ? 8 : 2); ts_begin(PB(nt == 2 ? 3 : 2, nt == 2 ? 5 : 3)); zpl_mutex_init(&m);
    for (int i = 1; i < nt; i++) { zpl_thread_init_nowait(&th[i]); MC_CHECK(zpl_thread_start(&th[i], mproc, 0), "start"); }
    th[0].user_data = 0; mproc(&th[0]); for (int i = 1; i < nt; i++) { zpl_thread_destroy(&th[i]); }
    for (int i = 0; i < nt; i++) { int want = !(prog[i] & 1) + ((prog[i] & 2) && !(prog[i] & 4)), tr = (prog[i] & 1) + ((prog[i] & 2) && (prog[i] & 4)); MC_CHECK(tries[i] == tr, "harness"); MC_CHECK(got[i] >= want && got[i] <= want + tries[i], "thread %d held the mutex %d times, expected %d", i, got[i], want); }
    zpl_b32 f = zpl_mutex_try_lock(&m); MC_CHECK(f, "a free mutex cannot be taken"); MC_CHECK(!zpl_mutex_try_lock(&m), "a held mutex can be taken"); zpl_mutex_unlock(&m); MC_CHECK(zpl_mutex_destroy(&m), "destroying a free mutex fails"); ts_end();
}
/* try-lock tells exactly whether it took the mutex, seen by a thread that tries while another holds it */
static volatile int held, told; static zpl_isize tproc(struct zpl_thread *t) { (void)t; int h0 = held == 1; zpl_b32 r = zpl_mutex_try_lock(&m); int h1 = held == 1; if (h0 && h1) MC_CHECK(!r, "the mutex was taken while it was held"); if (r) { MC_CHECK(held != 1, "two holders"); zpl_mutex_unlock(&m); } told = 1 + !!r; return 0; }
static void s_try(void) {
    zero(); held = told = 0; ts_begin(PB(4, 6)); MC_CHECK(zpl_mutex_init(&m), "initialising a mutex fails"); int first = (int)mc_choose(2); if (first) { zpl_mutex_lock(&m); held = 1; } zpl_thread_init_nowait(&th[0]); zpl_thread_start(&th[0], tproc, 0); if (!first) { zpl_mutex_lock(&m); held = 1; } ts_point("holding"); held = 2; zpl_mutex_unlock(&m); zpl_thread_destroy(&th[0]); MC_CHECK(told, "did not run"); zpl_mutex_destroy(&m); ts_end();
}
/* ---- semaphores: posts and waits balance ---- */
static zpl_semaphore se; static volatile int posted, passed, tryok; static int sprog[3];
static void sstep(int op) {
    if (op == 0) { zpl_semaphore_wait(&se); passed++; MC_CHECK(passed + tryok <= posted, "%d waits passed %d posts", passed + tryok, posted); }
    else if (op == 1) { posted++; zpl_semaphore_release(&se); }
    else if (op == 2) { posted += 2; zpl_semaphore_post(&se, 2); }
    else { zpl_i32 r = zpl_semaphore_trywait(&se); if (r == 0) { tryok++; MC_CHECK(passed + tryok <= posted, "%d waits passed %d posts", passed + tryok, posted); } }
}
static zpl_isize sproc(struct zpl_thread *t) { int me = (int)(t - th); sstep(sprog[me] & 3); sstep(sprog[me] >> 2); return 0; }
/* can this program, run on an ideal counter, get stuck? */
static int stuck(int nt, int *pc, int c) { int any = 0, live = 0; for (int i = 0; i < nt; i++) if (pc[i] < 2) { live = 1; int o = pc[i] ? sprog[i] >> 2 : sprog[i] & 3; if (o == 0 && c == 0) continue; any = 1; int d = o == 0 ? -1 : o == 3 ? -(c > 0) : o; pc[i]++; int r = stuck(nt, pc, c + d); pc[i]--; if (r) return 1; } return live && !any; }
static void s_sem(void) {
    zero(); posted = passed = tryok = 0; int nt = 2 + (int)mc_choose(2), p = 0, w = 0, tr = 0; for (int i = 0; i < nt; i++) { sprog[i] = (int)mc_choose(16); for (int k = 0; k < 2; k++) { int o = k ? sprog[i] >> 2 : sprog[i] & 3; if (o == 0) w++; else if (o == 3) tr++; else p += o; } }
    if (w > p) mc_prune();
    if (nt == 3 && !mc_thorough && (sprog[0] > sprog[1] || sprog[1] > sprog[2])) mc_prune();
    int pc[3] = { 0 }; if (stuck(nt, pc, 0)) mc_prune();       /* can wait forever by its own fault */
    ts_begin(PB(nt == 2 ? 3 : 2, nt == 2 ? 5 : 3)); ts_eintr = nt == 2; zpl_semaphore_init(&se);
    for (int i = 1; i < nt; i++) { zpl_thread_init_nowait(&th[i]); MC_CHECK(zpl_thread_start(&th[i], sproc, 0), "start"); }
    sproc(&th[0]); for (int i = 1; i < nt; i++) zpl_thread_destroy(&th[i]);
    int left = 0; while (zpl_semaphore_trywait(&se) == 0) left++; MC_CHECK(passed == w && left == p - w - tryok, "%d posts, %d waits and %d successful tries leave %d", p, passed, tryok, left); zpl_semaphore_destroy(&se); ts_end();
}
/* producer and consumer: nothing passes before it was posted, nobody is left waiting */
static volatile int box[4], nb; static zpl_isize cproc(struct zpl_thread *t) { for (int i = 0; i < 2; i++) { zpl_semaphore_wait(&se); zpl_mutex_lock(&m); MC_CHECK(nb > 0, "a wait passed without a post"); nb--; got[t - th]++; zpl_mutex_unlock(&m); } return 0; }
static void s_prodcons(void) {
    zero(); nb = 0; memset((void *)got, 0, sizeof got); int nc = 1 + (int)mc_choose(2), batch = (int)mc_choose(2); ts_begin(PB(nc == 1 ? 4 : 3, nc == 1 ? 6 : 4)); zpl_semaphore_init(&se); zpl_mutex_init(&m); for (int i = 1; i <= nc; i++) { zpl_thread_init(&th[i]); zpl_thread_start(&th[i], cproc, 0); }
    for (int i = 0; i < 2 * nc; i += 1 + batch) { zpl_mutex_lock(&m); nb += 1 + batch; zpl_mutex_unlock(&m); zpl_semaphore_post(&se, 1 + batch); }
    for (int i = 1; i <= nc; i++) { zpl_thread_join(&th[i]); MC_CHECK(got[i] == 2, "consumer %d got %d of 2", i, got[i]); zpl_thread_destroy(&th[i]); } zpl_semaphore_destroy(&se); zpl_mutex_destroy(&m); ts_end();
}
mc_suite mc_suites[] = { { "start", s_start }, { "handshake", s_handshake }, { "create_fails", s_fail }, { "mutex", s_mutex }, { "try_lock", s_try }, { "semaphore", s_sem }, { "producer_consumer", s_prodcons }, { 0 } };
