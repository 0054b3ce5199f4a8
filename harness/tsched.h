/* tsched.h - controlled scheduler: every interleaving of the real threading code up to a preemption bound.
 *
 * The threads of the code under test are fibers of one OS thread.  The library
 * is compiled with -fsanitize=thread, but linked against the runtime below
 * instead of libtsan: every memory access outside the own stack, every atomic
 * operation and every function entry (in front of inline assembly) is a
 * scheduling point, as is every call of a pthread, semaphore or yield function
 * (replaced at link time).  At a point the explorer either goes on or, while
 * preemptions are left, switches to any other thread that can run; when a
 * thread blocks, every runnable thread is tried.  A yielding thread hands over
 * in round-robin order, so polling loops terminate under every explored
 * schedule of terminating code.  Sequentially consistent memory.
 */
#ifndef TSCHED_H
#define TSCHED_H
#include "mc.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#define ZPL_DEBUG_TRAP() z_trap()
void z_trap(void);
#include "zpl.h"
void z_trap(void) { mc_fail("an assertion of the library failed"); }

#define TS_MAX 6
#define TS_STK (256 * 1024)
enum { TS_RUN, TS_YIELD, TS_BLOCK, TS_DONE };
enum { TS_MUTEX = 1, TS_SEM };
typedef struct { void *addr; int kind, n, owner, live; } ts_obj;
typedef struct { void *sp; int st, why, target; void *(*proc)(void *); void *arg, *ret; int joined; size_t stack; ts_obj *on; } ts_fib;
static char ts_stk[TS_MAX][TS_STK] __attribute__((aligned(64)));
static ts_fib ts_f[TS_MAX]; static int ts_n, ts_cur, ts_on, ts_budget, ts_pts, ts_run, ts_limit = 40000, ts_attrs, ts_creates, ts_fail_at = -1, ts_eintr; static char *ts_base;
static ts_obj ts_o[64]; static int ts_no;

__asm__(".text\n.type ts_switch,@function\nts_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size ts_switch,.-ts_switch\n");
void ts_switch(void **save, void *to);

static int ts_can(int i) { ts_fib *f = &ts_f[i]; return f->st == TS_RUN || f->st == TS_YIELD; }
static void ts_to(int i) { if (i == ts_cur) return; int o = ts_cur; ts_cur = i; ts_run = 0; mc_log("  -> thread %d (point %d)\n", i, ts_pts); int e = errno; ts_switch(&ts_f[o].sp, ts_f[i].sp); errno = e; if (ts_f[ts_cur].st == TS_YIELD) ts_f[ts_cur].st = TS_RUN; }
static int ts_next(int from) { for (int k = 1; k <= ts_n; k++) { int i = (from + k) % ts_n; if (i != from && ts_can(i)) return i; } return -1; }
static void ts_count(void) { if (++ts_pts > ts_limit) mc_fail("no progress: still running after %d steps", ts_limit); mc_beat(); mc_me->trans[mc_me->suite]++; }
/* a point where the running thread could be preempted */
static void ts_point(const char *what) {
    if (!ts_on) return;
    (void)what; ts_count(); int o[TS_MAX], n = 0;
    if (++ts_run > 600) { int i = ts_next(ts_cur); if (i >= 0) { ts_to(i); return; } ts_run = 0; }   /* spins: fairness */
    if (ts_budget <= 0) return;
    for (int i = 0; i < ts_n; i++) if (i != ts_cur && ts_can(i)) o[n++] = i;
    if (!n) return;
    uint32_t k = mc_choose((uint32_t)n + 1); if (!k) return;
    ts_budget--; mc_log("preempted at %s\n", what); ts_to(o[k - 1]);
}
static void ts_yield(void) {
    if (!ts_on) return;
    ts_count(); int i = ts_next(ts_cur); if (i < 0) return; ts_f[ts_cur].st = TS_YIELD;
    if (ts_budget > 0) { int o[TS_MAX], n = 0; for (int k = 0; k < ts_n; k++) if (k != i && ts_can(k)) o[n++] = k; uint32_t k = mc_choose((uint32_t)n + 1); if (k) { ts_budget--; i = o[k - 1]; } }
    if (i == ts_cur) { ts_f[i].st = TS_RUN; return; } ts_to(i);
}
/* the running thread cannot go on: any other may */
static void ts_block(const char *what) {
    int o[TS_MAX], n = 0; for (int i = 0; i < ts_n; i++) if (i != ts_cur && ts_can(i)) o[n++] = i;
    ts_count();
    if (!n) { char b[400]; int p = 0; for (int i = 0; i < ts_n; i++) p += snprintf(b + p, sizeof b - p, " thread %d %s;", i, ts_f[i].st == TS_DONE ? "is done" : ts_f[i].why == TS_MUTEX ? "waits for a mutex" : ts_f[i].why == TS_SEM ? "waits for a semaphore" : "waits for a thread"); mc_fail("deadlock (%s):%s", what, b); }
    mc_log("blocks: %s\n", what); ts_to(o[mc_choose((uint32_t)n)]);
}
static void ts_wake(ts_obj *x) { for (int i = 0; i < ts_n; i++) if (ts_f[i].st == TS_BLOCK && ts_f[i].on == x) ts_f[i].st = TS_RUN; }
static ts_obj *ts_get(void *a, int kind, int make) {
    for (int i = 0; i < ts_no; i++) if (ts_o[i].addr == a && ts_o[i].kind == kind) { if (!ts_o[i].live && !make) mc_fail("%s is used after it was destroyed", kind == TS_MUTEX ? "a mutex" : "a semaphore"); return &ts_o[i]; }
    if (!make && kind == TS_SEM) mc_fail("a semaphore is used that was never initialised");
    if (ts_no == 64) mc_fail("harness: too many objects");
    ts_obj *x = &ts_o[ts_no++]; memset(x, 0, sizeof *x); x->addr = a; x->kind = kind; x->live = make ? 0 : 2; x->owner = -1; return x;
}
static void ts_entry(void) { ts_fib *f = &ts_f[ts_cur]; if (f->st == TS_YIELD) f->st = TS_RUN; f->ret = f->proc(f->arg); f->st = TS_DONE; for (int i = 0; i < ts_n; i++) if (ts_f[i].st == TS_BLOCK && ts_f[i].target == ts_cur + 1) ts_f[i].st = TS_RUN; mc_log("thread %d ends\n", ts_cur); ts_block("end"); mc_fail("harness: a finished thread ran"); }
static int ts_spawn(void *(*p)(void *), void *arg) {
    if (ts_n == TS_MAX) mc_fail("harness: too many threads");
    int i = ts_n++; ts_fib *f = &ts_f[i]; memset(f, 0, sizeof *f); f->proc = p; f->arg = arg; void **s = (void **)(ts_stk[i] + TS_STK - 64); *--s = 0; *--s = (void *)ts_entry; for (int k = 0; k < 6; k++) *--s = 0; f->sp = s; return i;
}
/* starts exploring: the caller becomes thread 0 */
#define ts_begin(b) ts_begin_(b, (char *)__builtin_frame_address(0))
static void ts_begin_(int budget, char *base) { memset(ts_f, 0, sizeof ts_f[0]); ts_n = 1; ts_cur = 0; ts_no = 0; ts_pts = ts_run = 0; ts_budget = budget; ts_attrs = ts_creates = 0; ts_fail_at = -1; ts_eintr = 0; ts_base = base; ts_on = 1; }
/* all threads have been joined and all objects destroyed */
static void ts_end(void) { ts_on = 0; for (int i = 1; i < ts_n; i++) { if (ts_f[i].st != TS_DONE) mc_fail("thread %d is still running", i); if (!ts_f[i].joined) mc_fail("thread %d was never joined", i); } for (int i = 0; i < ts_no; i++) if (ts_o[i].live == 1) mc_fail("%s was never destroyed", ts_o[i].kind == TS_MUTEX ? "a mutex" : "a semaphore"); if (ts_attrs) mc_fail("%d thread attribute objects were never destroyed", ts_attrs); }

/* ---- pthread, semaphores, yield ---- */
int __wrap_pthread_attr_init(pthread_attr_t *a) { memset(a, 0x11, sizeof *a); ts_attrs++; return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { (void)a; ts_attrs--; return 0; }
static size_t ts_stack; static int ts_detached;
int __wrap_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { (void)a; ts_detached = s != PTHREAD_CREATE_JOINABLE; return 0; }
int __wrap_pthread_attr_setstacksize(pthread_attr_t *a, size_t z) { (void)a; if (z < 16384) return EINVAL; ts_stack = z; return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*p)(void *), void *arg) {
    ts_point("pthread_create"); int k = ts_creates++; if (k == ts_fail_at) { *t = (pthread_t)0x5a5a5a5a5a5aULL; mc_log("pthread_create fails\n"); return EAGAIN; }
    int i = ts_spawn(p, arg); ts_f[i].stack = a ? ts_stack : 0; ts_stack = 0; *t = (pthread_t)(i + 1); mc_log("thread %d created\n", i); ts_point("pthread_create (after)"); return 0;
}
int __wrap_pthread_join(pthread_t t, void **r) {
    ts_point("pthread_join"); int i = (int)t - 1; if (t == 0 || t > (pthread_t)ts_n) mc_fail("joins a thread that does not exist"); if (ts_f[i].joined) mc_fail("joins a thread twice"); if (i == ts_cur) mc_fail("joins itself");
    while (ts_f[i].st != TS_DONE) { ts_f[ts_cur].st = TS_BLOCK; ts_f[ts_cur].why = 3; ts_f[ts_cur].on = 0; ts_f[ts_cur].target = i + 1; ts_block("join"); ts_f[ts_cur].target = 0; }
    ts_f[i].joined = 1; if (r) *r = ts_f[i].ret; return 0;
}
int __wrap_pthread_detach(pthread_t t) { ts_f[(int)t - 1].joined = 1; return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(ts_cur + 1); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; ts_obj *x = ts_get(m, TS_MUTEX, 1); if (x->live == 1) mc_fail("a mutex is initialised twice"); x->live = 1; x->owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { ts_obj *x = ts_get(m, TS_MUTEX, 0); if (x->owner >= 0) return EBUSY; x->live = 0; return 0; }
static int ts_lock(pthread_mutex_t *m, int try_) {
    ts_point("mutex lock"); ts_obj *x = ts_get(m, TS_MUTEX, 0); if (x->owner >= 0 && try_) return EBUSY;
    while (x->owner >= 0) { ts_f[ts_cur].st = TS_BLOCK; ts_f[ts_cur].why = TS_MUTEX; ts_f[ts_cur].on = x; ts_block("mutex"); } x->owner = ts_cur; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return ts_lock(m, 0); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return ts_lock(m, 1); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { ts_point("mutex unlock"); ts_obj *x = ts_get(m, TS_MUTEX, 0); if (x->owner < 0) mc_fail("a mutex is unlocked that nobody holds"); x->owner = -1; ts_wake(x); return 0; }
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; ts_obj *x = ts_get(s, TS_SEM, 1); if (x->live == 1) mc_fail("a semaphore is initialised twice"); x->live = 1; x->n = (int)v; return 0; }
int __wrap_sem_destroy(sem_t *s) { ts_obj *x = ts_get(s, TS_SEM, 0); for (int i = 0; i < ts_n; i++) if (ts_f[i].st == TS_BLOCK && ts_f[i].on == x) mc_fail("a semaphore is destroyed under a waiting thread"); x->live = 0; return 0; }
int __wrap_sem_post(sem_t *s) { ts_point("sem_post"); ts_obj *x = ts_get(s, TS_SEM, 0); x->n++; ts_wake(x); return 0; }
int __wrap_sem_wait(sem_t *s) {
    ts_point("sem_wait"); ts_obj *x = ts_get(s, TS_SEM, 0); if (ts_eintr > 0 && mc_choose(2)) { ts_eintr--; mc_log("sem_wait is interrupted\n"); errno = EINTR; return -1; }
    while (x->n <= 0) { ts_f[ts_cur].st = TS_BLOCK; ts_f[ts_cur].why = TS_SEM; ts_f[ts_cur].on = x; ts_block("semaphore"); } x->n--; return 0;
}
int __wrap_sem_trywait(sem_t *s) { ts_point("sem_trywait"); ts_obj *x = ts_get(s, TS_SEM, 0); if (x->n <= 0) { errno = EAGAIN; return -1; } x->n--; return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { ts_point("sem_getvalue"); *v = ts_get(s, TS_SEM, 0)->n; return 0; }
int __wrap_sched_yield(void) { ts_yield(); return 0; }
int __wrap_usleep(useconds_t u) { (void)u; ts_yield(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; ts_yield(); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; (void)a; (void)b; ts_yield(); return 0; }

/* ---- runtime of -fsanitize=thread: accesses are scheduling points ---- */
static inline void ts_acc(void *p, const char *what) {
    if (!ts_on) return; char *a = (char *)p, *lo, *hi; if (ts_cur) { lo = ts_stk[ts_cur]; hi = lo + TS_STK; } else { lo = (char *)__builtin_frame_address(0); hi = ts_base; }
    if (a >= lo && a < hi) return;
    ts_point(what);
}
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; ts_point("function entry"); }
void __tsan_func_exit(void) {}
#define TS_RW(n) void __tsan_read##n(void *p) { ts_acc(p, "read"); } void __tsan_write##n(void *p) { ts_acc(p, "write"); } void __tsan_unaligned_read##n(void *p) { ts_acc(p, "read"); } void __tsan_unaligned_write##n(void *p) { ts_acc(p, "write"); } void __tsan_volatile_read##n(void *p) { ts_acc(p, "read"); } void __tsan_volatile_write##n(void *p) { ts_acc(p, "write"); } void __tsan_read_write##n(void *p) { ts_acc(p, "update"); } void __tsan_unaligned_read_write##n(void *p) { ts_acc(p, "update"); }
TS_RW(1) TS_RW(2) TS_RW(4) TS_RW(8) TS_RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) ts_acc(p, "read"); }
void __tsan_write_range(void *p, unsigned long n) { if (n) ts_acc(p, "write"); }
#define TS_AT(B, T) T __tsan_atomic##B##_load(const volatile T *a, int m) { (void)m; ts_acc((void *)a, "atomic load"); return *a; } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic store"); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic exchange"); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic add"); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic sub"); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic and"); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic or"); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { (void)m; ts_acc((void *)a, "atomic xor"); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; ts_acc((void *)a, "compare exchange"); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, m, f); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, m, f); return e; }
TS_AT(8, uint8_t) TS_AT(16, uint16_t) TS_AT(32, uint32_t) TS_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; } void __tsan_atomic_signal_fence(int m) { (void)m; }
#endif
