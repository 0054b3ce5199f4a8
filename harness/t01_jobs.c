/* T01: the job queue under every schedule up to the preemption bound */
#include "tsched.h"
#define PB(q, t) (mc_thorough ? (t) : (q))
static zpl_jobs_system js; typedef struct { volatile int ran, running, prio, accepted; } job; static job J[16]; static int one, last[8]; static volatile int freed, total, busy[TS_MAX];
static void work(void *d) { job *j = (job *)d; int k = (int)(j - J); MC_CHECK(k >= 0 && k < 16 && d == &J[k], "a job ran with other data"); MC_CHECK(j->accepted, "job %d ran although it was not accepted", k); MC_CHECK(!freed, "job %d runs after the queue was freed", k); MC_CHECK(!j->ran && !j->running, "job %d runs twice", k); MC_CHECK(ts_cur != 0, "job %d runs on the caller's thread", k); MC_CHECK(!busy[ts_cur], "a worker runs two jobs at once"); busy[ts_cur] = 1; j->running = 1; if (one) { MC_CHECK(last[j->prio] < k, "job %d of priority %d starts after a later one", k, j->prio); last[j->prio] = k; } mc_log("job %d starts\n", k); ts_point("job"); j->running = 0; busy[ts_cur] = 0; j->ran = 1; total++; }
static void zero(void) { one = 0; for (int i = 0; i < 8; i++) last[i] = -1; memset(&js, 0xAB, sizeof js); memset((void *)J, 0, sizeof J); freed = total = 0; memset((void *)busy, 0, sizeof busy); }
static void add(int k, int prio) { J[k].prio = prio; J[k].accepted = 1; zpl_b32 ok = prio == ZPL_JOBS_PRIORITY_NORMAL && (k & 1) ? zpl_jobs_enqueue(&js, work, &J[k]) : zpl_jobs_enqueue_with_priority(&js, work, &J[k], (zpl_jobs_priority)prio); MC_CHECK(ok, "job %d was not accepted although there is room", k); MC_CHECK(!zpl_jobs_empty(&js, (zpl_jobs_priority)prio), "a queue is empty right after a job was accepted"); }
static void drain(int n) { while (!zpl_jobs_done(&js)) { zpl_jobs_process(&js); ts_yield(); } MC_CHECK(total == n, "the queue is done after %d of %d jobs", total, n); for (int i = 0; i < n; i++) MC_CHECK(J[i].ran, "job %d never ran", i); MC_CHECK(zpl_jobs_empty_all(&js), "the queue is done but not empty"); MC_CHECK(!zpl_jobs_process(&js), "there is something to do in an empty queue"); }
static const int PR[] = { ZPL_JOBS_PRIORITY_NORMAL, ZPL_JOBS_PRIORITY_REALTIME, ZPL_JOBS_PRIORITY_IDLE };
/* batches of jobs, each drained */
static void s_batch(void) {
    zero(); int nw = 1 + (int)mc_choose(2), nj = 1 + (int)mc_choose(nw == 1 ? 2 : 3), nb = (nw == 2 && nj == 3 && !mc_thorough) ? 1 : 1 + (int)mc_choose(2), pb = PB(nw == 1 && nb == 1 ? 2 : 1, nw == 1 && nb == 1 ? 3 : nj < 3 ? 2 : 1), pr[3]; for (int i = 0; i < nj; i++) pr[i] = PR[mc_choose(nb == 1 ? 3 : 2)]; int early = (int)mc_choose(2); one = nw == 1; ts_begin(0); zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), (zpl_u32)nw, 4); MC_CHECK(zpl_jobs_empty_all(&js) && zpl_jobs_done(&js), "a new queue is not empty"); ts_budget = pb; int n = 0;
    for (int b = 0; b < nb; b++) { for (int i = 0; i < nj; i++) { add(n++, pr[i]); if (early) zpl_jobs_process(&js); } drain(n); }
    ts_budget = ts_budget > 1 ? 1 : ts_budget; zpl_jobs_free(&js); freed = 1; MC_CHECK(total == n, "%d jobs ran, expected %d", total, n); ts_end();
}
/* freed at any moment: always completes, and nothing runs twice or afterwards */
static void s_shutdown(void) {
    zero(); int nw = 1 + (int)mc_choose(2), nj = (int)mc_choose(3), np = (int)mc_choose(3), pb = PB(2, nw == 1 ? 4 : 3); ts_begin(0); zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), (zpl_u32)nw, 2); ts_budget = pb;
    for (int i = 0; i < nj; i++) add(i, ZPL_JOBS_PRIORITY_NORMAL); for (int i = 0; i < np; i++) zpl_jobs_process(&js); if (np == 2 && mc_choose(2)) ts_yield(); zpl_jobs_free(&js); freed = 1; for (int i = 0; i < nj; i++) MC_CHECK(!J[i].running, "job %d is still running after the queue was freed", i); ts_end();
}
/* capacity and priority queries tell the truth after every step */
static int cnt[ZPL_JOBS_MAX_PRIORITIES];
static void truth(int lim) { int e = 1, f = 1; for (int p = 0; p < ZPL_JOBS_MAX_PRIORITIES; p++) { MC_CHECK(!!zpl_jobs_empty(&js, (zpl_jobs_priority)p) == (cnt[p] == 0), "priority %d with %d jobs is %sempty", p, cnt[p], cnt[p] ? "" : "not "); MC_CHECK(!!zpl_jobs_full(&js, (zpl_jobs_priority)p) == (cnt[p] == lim), "priority %d with %d of %d jobs is %sfull", p, cnt[p], lim, cnt[p] == lim ? "not " : ""); e &= cnt[p] == 0; f &= cnt[p] == lim; } MC_CHECK(!!zpl_jobs_empty_all(&js) == e, "empty_all"); MC_CHECK(!!zpl_jobs_full_all(&js) == f, "full_all"); if (!e) MC_CHECK(!zpl_jobs_done(&js), "done with jobs waiting"); }
static void s_capacity(void) {
    zero(); memset(cnt, 0, sizeof cnt); int lim = 1 + (int)mc_choose(3), n = 0, D = PB(5, 7), np = lim == 1 ? 3 : 2; static const int Q[] = { 0, 4, 2 }; ts_begin(0); zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), 1, (zpl_u32)lim); truth(lim);
    for (int i = 0; i < D; i++) { int k = (int)mc_choose((uint32_t)np + 1); if (k < np) { int p = Q[k]; J[n].accepted = 1; zpl_b32 ok = zpl_jobs_enqueue_with_priority(&js, work, &J[n], (zpl_jobs_priority)p); MC_CHECK(!!ok == (cnt[p] < lim), "a job is %s by a queue with %d of %d jobs", ok ? "accepted" : "refused", cnt[p], lim); J[n].accepted = ok; if (ok) cnt[p]++; n++; } else { int all = 0; for (int p = 0; p < 5; p++) all += cnt[p]; zpl_b32 r = zpl_jobs_process(&js); MC_CHECK(!!r == (all > 0), "processing a queue of %d jobs returns %d", all, r); int now = 0, c2[5]; for (int p = 0; p < 5; p++) { c2[p] = cnt[p]; if (cnt[p] && zpl_jobs_empty(&js, (zpl_jobs_priority)p)) c2[p] = 0; else if (cnt[p] == lim && !zpl_jobs_full(&js, (zpl_jobs_priority)p)) c2[p] = cnt[p] - 1; now += c2[p]; } MC_CHECK(all - now <= 1, "one worker took %d jobs", all - now); if (all - now == 0 && lim == 3) { /* a queue of two may have become one: unseen from outside */ break; } memcpy(cnt, c2, sizeof cnt); ts_yield(); } if (lim < 3) truth(lim); }
    int acc = 0; for (int i = 0; i < n; i++) acc += J[i].accepted; while (!zpl_jobs_done(&js)) { zpl_jobs_process(&js); ts_yield(); } MC_CHECK(total == acc, "%d jobs ran, %d were accepted", total, acc); memset(cnt, 0, sizeof cnt); truth(lim); for (int i = 0; i < lim; i++) { J[n].accepted = 1; MC_CHECK(zpl_jobs_enqueue(&js, work, &J[n]), "job %d of %d refused after draining", i + 1, lim); n++; acc++; } MC_CHECK(!zpl_jobs_enqueue(&js, work, &J[15]), "one job too many accepted"); while (!zpl_jobs_done(&js)) { zpl_jobs_process(&js); ts_yield(); } MC_CHECK(total == acc, "%d jobs ran, %d were accepted", total, acc);
    zpl_jobs_free(&js); freed = 1; ts_end();
}
/* every way of filling the five queues, before anything is processed; then everything runs */
static void s_filled(void) {
    int lim = 1 + (int)mc_choose(2), c[5], n = 0; for (int p = 0; p < 5; p++) c[p] = (int)mc_choose((uint32_t)lim + 1); int rev = (int)mc_choose(2); zero(); memset(cnt, 0, sizeof cnt); ts_begin(0); ts_limit = 200000; zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), 1, (zpl_u32)lim); truth(lim);
    for (int k = 0; k < 5; k++) { int p = rev ? 4 - k : k; for (int i = 0; i < c[p]; i++) { add(n++, p); cnt[p]++; truth(lim); } if (c[p] == lim) { MC_CHECK(!zpl_jobs_enqueue_with_priority(&js, work, &J[15], (zpl_jobs_priority)p), "a full queue of priority %d accepts a job", p); truth(lim); } } drain(n); memset(cnt, 0, sizeof cnt); truth(lim); zpl_jobs_free(&js); freed = 1; ts_end(); ts_limit = 40000;
}
/* every mix of priorities and counts drains, whatever the counter, in bounded time */
static void s_mix(void) {
    zero(); int nw = 1 + (int)mc_choose(3), n = 0, c[5], first = (int)mc_choose(3); for (int p = 0; p < 5; p++) c[p] = (int)mc_choose(3); one = nw == 1; ts_begin(0); ts_limit = 200000; zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), (zpl_u32)nw, 4); 
    for (int i = 0; i < first; i++) { add(n++, 2); drain(n); } for (int p = 0; p < 5; p++) for (int i = 0; i < c[p]; i++) add(n++, p); drain(n); zpl_jobs_free(&js); freed = 1; ts_end(); ts_limit = 40000;
}
/* the system refuses some of the threads: what was accepted runs on the others */
static void s_fail(void) {
    zero(); int nw = 1 + (int)mc_choose(3), at = (int)mc_choose((uint32_t)nw), nj = (int)mc_choose(3); if (nw == 1) nj = 0; ts_begin(0); ts_fail_at = at; zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), (zpl_u32)nw, 3); ts_budget = PB(1, 2); if (at > 0 || nj == 0) { for (int i = 0; i < nj; i++) add(i, ZPL_JOBS_PRIORITY_NORMAL); drain(nj); } zpl_jobs_free(&js); freed = 1; ts_end();
}
/* the default capacity, used to its end and around it */
static int ran2[256]; static void work2(void *d) { int k = (int)((int *)d - ran2); MC_CHECK(!ran2[k], "job %d runs twice", k); ran2[k] = 1; total++; }
static void s_default(void) {
    zero(); memset(ran2, 0, sizeof ran2); static const int N[] = { 0, 1, 63, 64, 99, 100 }; int nw = 1 + (int)mc_choose(3), a = N[mc_choose(6)], b = mc_choose(2) ? ZPL_JOBS_MAX_QUEUE : 3, pr = (int)mc_choose(5), n = 0; ts_begin(0); ts_limit = 2000000; zpl_jobs_init(&js, zpl_heap_allocator(), (zpl_u32)nw);
    for (int r = 0; r < 2; r++) { int m = r ? b : a; for (int i = 0; i < m; i++, n++) MC_CHECK(zpl_jobs_enqueue_with_priority(&js, work2, &ran2[n], (zpl_jobs_priority)pr), "job %d of %d was not accepted although there is room", i + 1, m); if (m == ZPL_JOBS_MAX_QUEUE) { MC_CHECK(zpl_jobs_full(&js, (zpl_jobs_priority)pr), "a queue with all its jobs is not full"); MC_CHECK(!zpl_jobs_enqueue_with_priority(&js, work2, &ran2[255], (zpl_jobs_priority)pr), "one job too many accepted"); }
        while (!zpl_jobs_done(&js)) { zpl_jobs_process(&js); ts_yield(); } MC_CHECK(total == n, "%d jobs ran, %d were accepted", total, n); }
    for (int i = 0; i < n; i++) MC_CHECK(ran2[i], "job %d never ran", i); zpl_jobs_free(&js); freed = 1; ts_end(); ts_limit = 40000;
}
/* jobs keep arriving: whichever priorities are kept supplied, the next job of each of them starts before long */
static int came[5]; static void work3(void *d) { came[(int)((int *)d - came)]++; total++; }
static void s_supplied(void) {
    zero(); memset(came, 0, sizeof came); int nw = 1 + (int)mc_choose(2), set = 1 + (int)mc_choose(31), probe = (int)mc_choose(5), warm = (int)mc_choose(mc_thorough ? 210 : 26), done = 0, put = 0; if (!(set >> probe & 1)) mc_prune(); ts_begin(0); ts_limit = 2000000; zpl_jobs_init_with_limit(&js, zpl_heap_allocator(), (zpl_u32)nw, 4);
    int w = warm % 2 ? 4 : 2; for (int i = 0; i < warm; i++) { while (zpl_jobs_empty(&js, (zpl_jobs_priority)w)) { MC_CHECK(zpl_jobs_enqueue_with_priority(&js, work3, &came[w], (zpl_jobs_priority)w), "no room"); put++; } zpl_jobs_process(&js); ts_yield(); } while (!zpl_jobs_done(&js)) { zpl_jobs_process(&js); ts_yield(); } MC_CHECK(total == put, "%d jobs ran, %d were accepted", total, put); memset(came, 0, sizeof came);
    for (int r = 0; r < 400 && !came[probe]; r++) { for (int p = 0; p < 5; p++) if (set >> p & 1) while (!zpl_jobs_full(&js, (zpl_jobs_priority)p)) { MC_CHECK(zpl_jobs_enqueue_with_priority(&js, work3, &came[p], (zpl_jobs_priority)p), "no room"); put++; } zpl_jobs_process(&js); ts_yield(); done = r; }
    mc_log("priorities %x supplied, %d workers, after %d rounds: %d of priority %d in %d rounds\n", set, nw, warm, came[probe], probe, done + 1); MC_CHECK(came[probe], "no job of priority %d starts in %d rounds while the priorities %x are kept supplied", probe, done + 1, set); while (!zpl_jobs_done(&js)) { zpl_jobs_process(&js); ts_yield(); } MC_CHECK(total == put, "%d jobs ran, %d were accepted", total, put); zpl_jobs_free(&js); freed = 1; ts_end(); ts_limit = 40000;
}
mc_suite mc_suites[] = { { "supplied", s_supplied }, { "filled", s_filled }, { "batches", s_batch }, { "shutdown", s_shutdown }, { "capacity", s_capacity }, { "mix", s_mix }, { "create_fails", s_fail }, { "default_capacity", s_default }, { 0 } };
