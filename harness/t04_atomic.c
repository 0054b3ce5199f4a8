/* T04: atomics and spin locks under every interleaving of machine instructions.
 *
 * The atomic lives on a page of its own that nobody may touch.  The threads are
 * contexts of one OS thread: an instruction about to access the page faults, the
 * explorer chooses which thread performs its access next, opens the page, steps
 * that one instruction and closes the page again.  A read-modify-write instruction
 * without a lock prefix is taken apart: other threads may run between its read and
 * its write.  Every history is checked for a linearization, real-time order included. */
#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <ucontext.h>
#ifdef INLINED
#define ZPL_IMPLEMENTATION
#endif
#include "zpl.h"

#define NF 3
#define STK (64 * 1024)
enum { FRESH, PENDING, TORN, DONE };
typedef struct { gregset_t g; struct _libc_fpstate fp; int st, rmw, size, spin, quiet, asleep; char *addr; unsigned char v[8]; void (*fn)(int); } fib;
static fib f[NF + 1]; static int nf, cur, stepping, asked, accesses; static volatile int active; static unsigned char *page; static unsigned char shadow[256]; static char stk[NF][STK] __attribute__((aligned(64))), alt[256 * 1024];
static struct sigaction old_segv, old_trap;
static void prot(int p) { mprotect(page, 4096, p); }
static void load(ucontext_t *u, int k) { memcpy(u->uc_mcontext.gregs, f[k].g, sizeof(gregset_t)); memcpy(u->uc_mcontext.fpregs, &f[k].fp, sizeof f[k].fp); }
static void save(ucontext_t *u, int k) { memcpy(f[k].g, u->uc_mcontext.gregs, sizeof(gregset_t)); memcpy(&f[k].fp, u->uc_mcontext.fpregs, sizeof f[k].fp); }
/* does the instruction read and write memory without being indivisible? */
static int divisible(const unsigned char *p, int *size) {
    int lock = 0, w = 0, o16 = 0;
    for (;; p++) { if (*p == 0xF0) lock = 1; else if (*p == 0x66) o16 = 1; else if (*p == 0xF2 || *p == 0xF3 || *p == 0x2E || *p == 0x36 || *p == 0x3E || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x67) ; else if ((*p & 0xF0) == 0x40) w = *p >> 3 & 1; else break; }
    int two = *p == 0x0F, op = two ? p[1] : *p; *size = !(op & 1) && !(two && op == 0xC7) ? 1 : w ? 8 : o16 ? 2 : 4; if (two && op == 0xC7) *size = 8;
    if (lock) return 0;
    if (two) return !(op == 0x11 || op == 0x13 || op == 0x17 || op == 0x29 || op == 0x2B || op == 0x7F || op == 0x7E || op == 0xD6 || op == 0xC3 || op == 0xE7 || (op >= 0x90 && op <= 0x9F));
    return !(op == 0x88 || op == 0x89 || op == 0x8C || op == 0xC6 || op == 0xC7 || op == 0xA2 || op == 0xA3 || op == 0x86 || op == 0x87 || op == 0xAA || op == 0xAB || op == 0xA4 || op == 0xA5 || op == 0x8F);
}
static void step(ucontext_t *u, int k) { cur = k; load(u, k); prot(PROT_READ | PROT_WRITE); stepping = 1; u->uc_mcontext.gregs[REG_EFL] |= 0x100; }
static void schedule(ucontext_t *u) {
    for (;;) {
        int c[NF], n = 0, left = 0; for (int i = 0; i < nf; i++) if (f[i].st != DONE) { left++; if (!f[i].asleep) c[n++] = i; }
        if (!left) { active = 0; load(u, NF); return; }
        if (!n) mc_fail("a thread waits forever for a lock that nobody will release");
        if (++accesses > 400) mc_fail("no progress after 400 accesses");
        int k = c[mc_choose((uint32_t)n)]; mc_trans(1);
        if (f[k].st == FRESH) { mc_log("thread %d starts\n", k); cur = k; f[k].st = PENDING; save(u, k); f[k].g[REG_RIP] = (greg_t)f[k].fn; f[k].g[REG_RSP] = (greg_t)(stk[k] + STK - 72); f[k].g[REG_RDI] = k; f[k].g[REG_EFL] &= ~0x500; load(u, k); return; }
        if (f[k].st == PENDING && f[k].rmw) { mc_log("thread %d reads (in the middle of an instruction)\n", k); prot(PROT_READ | PROT_WRITE); memcpy(f[k].v, f[k].addr, 8); prot(PROT_NONE); f[k].st = TORN; continue; }
        mc_log("thread %d %s %+d\n", k, f[k].st == TORN ? "writes" : "accesses", (int)(f[k].addr - (char *)page)); 
        if (f[k].st == TORN) { prot(PROT_READ | PROT_WRITE); memcpy(f[k].addr, f[k].v, (size_t)f[k].size); f[k].st = PENDING; }
        step(u, k); return;
    }
}
static void on_segv(int s, siginfo_t *si, void *c) {
    ucontext_t *u = (ucontext_t *)c; char *a = (char *)si->si_addr;
    if (!active || a < (char *)page || a >= (char *)page + 4096) { active = 0; if (old_segv.sa_flags & SA_SIGINFO) old_segv.sa_sigaction(s, si, c); else if (old_segv.sa_handler != SIG_DFL && old_segv.sa_handler != SIG_IGN) old_segv.sa_handler(s); signal(s, SIG_DFL); return; }
    save(u, cur); f[cur].addr = a; f[cur].rmw = (u->uc_mcontext.gregs[REG_ERR] & 2) && divisible((unsigned char *)u->uc_mcontext.gregs[REG_RIP], &f[cur].size); schedule(u);
}
static void on_trap(int s, siginfo_t *si, void *c) {
    (void)s; (void)si; ucontext_t *u = (ucontext_t *)c;
    if (stepping) {
        stepping = 0; u->uc_mcontext.gregs[REG_EFL] &= ~0x100; int ch = memcmp(page + 1024, shadow, 256) != 0; memcpy(shadow, page + 1024, 256); prot(PROT_NONE);
        if (ch) for (int i = 0; i < nf; i++) f[i].asleep = f[i].quiet = 0; else if (f[cur].spin && ++f[cur].quiet >= (mc_thorough ? 4 : 2)) f[cur].asleep = 1;
        return;
    }
    if (asked == 1) { save(u, NF); active = 1; prot(PROT_NONE); } else f[cur].st = DONE;
    asked = 0; schedule(u);
}
#define ASK(n) do { asked = (n); __asm__ volatile("int3" ::: "memory"); } while (0)
static void go(int n) { nf = n; accesses = stepping = 0; memcpy(shadow, page + 1024, 256); ASK(1); active = 0; prot(PROT_READ | PROT_WRITE); }
static void setup(void) {
    if (!page) { page = (unsigned char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stack_t st = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&st, 0); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO; sa.sa_sigaction = on_segv; sigaction(SIGSEGV, &sa, &old_segv); sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, &old_trap); }
    active = 0; stepping = 0; prot(PROT_READ | PROT_WRITE); memset(page, 0xC7, 4096); memset(f, 0, sizeof f);
}
static void canaries(int sz) { for (int i = 0; i < 4096; i++) if (!(i >= 1024 && i < 1024 + sz) && !(i >= 1088 && i < 1096)) MC_CHECK(page[i] == 0xC7, "a byte %d bytes from the object was changed", i - 1024); }

/* ---- operations ---- */
enum { LOAD, STORE, XCHG, CAS, ADD, AND, OR, SPIN, TRY, UNLOCK };
static const char *NAME[] = { "load", "store", "exchange", "compare_exchange", "fetch_add", "fetch_and", "fetch_or", "spin_lock", "try_acquire_lock", "spin_unlock" };
#define OPS(P, O, T, C) static int64_t op_##P(int op, int64_t x, int64_t y) { O *a = (O *)(page + 1024); switch (op) { \
    case LOAD: return (int64_t)zpl_##P##_load(a); case STORE: zpl_##P##_store(a, (T)(C)x); return 0; case XCHG: return (int64_t)zpl_##P##_exchange(a, (T)(C)x); case CAS: return (int64_t)zpl_##P##_compare_exchange(a, (T)(C)x, (T)(C)y); \
    case ADD: return (int64_t)zpl_##P##_fetch_add(a, (T)(C)x); case AND: return (int64_t)zpl_##P##_fetch_and(a, (T)(C)x); case OR: return (int64_t)zpl_##P##_fetch_or(a, (T)(C)x); case SPIN: return !!zpl_##P##_spin_lock(a, (zpl_isize)x); case TRY: return !!zpl_##P##_try_acquire_lock(a); default: zpl_##P##_spin_unlock(a); return 0; } }
OPS(atomic32, zpl_atomic32, zpl_i32, zpl_i32) OPS(atomic64, zpl_atomic64, zpl_i64, zpl_i64) OPS(atomic_ptr, zpl_atomic_ptr, void *, zpl_intptr)
static int width; static int64_t run(int op, int64_t x, int64_t y) { return width == 0 ? op_atomic32(op, x, y) : width == 1 ? op_atomic64(op, x, y) : op_atomic_ptr(op, x, y); }
static int size(void) { return width == 0 ? 4 : 8; }
static int64_t norm(int64_t v) { return width == 0 ? (int32_t)v : v; }
static void put(int64_t v) { memcpy(page + 1024, &v, (size_t)size()); }
static int64_t get(void) { if (width == 0) { int32_t v; memcpy(&v, page + 1024, 4); return v; } int64_t v; memcpy(&v, page + 1024, 8); return v; }
/* the definition; returns whether the result is right and sets the new value */
static int def(int op, int64_t x, int64_t y, int64_t r, int64_t *v) {
    int64_t o = *v; switch (op) { case LOAD: break; case STORE: *v = norm(x); return 1; case XCHG: *v = norm(x); break; case CAS: if (o == norm(x)) *v = norm(y); break; case ADD: *v = norm((int64_t)((uint64_t)o + (uint64_t)x)); break; case AND: *v = norm(o & x); break; case OR: *v = norm(o | x); break;
    case SPIN: case TRY: if (r) { *v = 1; return o == 0; } return o == 1; default: *v = 0; return o == 1; }
    return r == o;
}
typedef struct { int op, fib; int64_t x, y, r; volatile int b, e; } rec;
static rec R[16]; static int nr; static volatile int clk;
#define BAR __asm__ volatile("" ::: "memory")
static int lin(unsigned done, int64_t v, int64_t fin) {
    if (done == (1u << nr) - 1) return v == fin;
    for (int i = 0; i < nr; i++) if (!(done >> i & 1)) { int ok = 1; for (int j = 0; j < nr; j++) if (j != i && !(done >> j & 1) && R[j].e < R[i].b) ok = 0; if (!ok) continue; int64_t w = v; if (def(R[i].op, R[i].x, R[i].y, R[i].r, &w) && lin(done | 1u << i, w, fin)) return 1; }
    return 0;
}
static void explain(int64_t init, int64_t fin, const char *what) { char b[900]; int p = 0; for (int i = 0; i < nr; i++) p += snprintf(b + p, sizeof b - (size_t)p, " [thread %d %s(%lld,%lld) -> %lld at %d..%d]", R[i].fib, NAME[R[i].op], (long long)R[i].x, (long long)R[i].y, (long long)R[i].r, R[i].b, R[i].e); mc_fail("%s: no order of indivisible operations explains width %d, initial %lld, final %lld:%s", what, size() * 8, (long long)init, (long long)fin, b); }
static void body(int k) { for (int i = 0; i < nr; i++) if (R[i].fib == k) { R[i].b = ++clk; BAR; R[i].r = run(R[i].op, R[i].x, R[i].y); BAR; R[i].e = ++clk; } ASK(2); }

#define S32 0x0000000500000005ll
static const int64_t INIT[] = { 0, -1, 0x7FFFFFFF7FFFFFFFll }; static int64_t init0;
static void pick(rec *r, int k) {
    static const struct { int op; int64_t x, y; } T[] = { { ADD, 0x100000001ll, 0 }, { CAS, 0, 0x700000007ll }, { XCHG, S32, 0 }, { AND, 0x00FF00FF00FF00F8ll, 0 }, { STORE, S32, 0 }, { LOAD, 0, 0 }, { OR, 0x1010101010101010ll, 0 }, { CAS, S32, 0x900000009ll }, { ADD, (int64_t)0x80000000FFFFFFFFull, 0 } };
    r->op = T[k].op; r->x = T[k].x; r->y = T[k].y; if (k == 1) r->x = init0; r->x = norm(r->x); r->y = norm(r->y);
}
static void conc(int n, const int *cnt) {
    setup(); width = (int)mc_choose(3); init0 = norm(INIT[mc_choose(3)]); nr = 0; clk = 0; for (int i = 0; i < n; i++) for (int j = 0; j < cnt[i]; j++) { R[nr].fib = i; pick(&R[nr], (int)mc_choose(mc_thorough || n < 3 ? 9 : 5)); nr++; } put(init0);
    for (int i = 0; i < n; i++) f[i].fn = body; go(n); canaries(size()); int64_t fin = get(); if (!lin(0, init0, fin)) explain(init0, fin, "atomic operations");
}
static void s_pair(void) { int c[2] = { 2, mc_thorough ? 2 : 1 }; conc(2, c); }
static void s_three(void) { int c[3] = { 1, 1, 1 }; conc(3, c); }
/* one thread, all boundary operands */
static void s_single(void) {
    static const int64_t V[] = { 0, 1, -1, 0x7FFFFFFF, (int64_t)0x80000000u, 0x7FFFFFFFFFFFFFFFll, INT64_MIN, 0x1234567889ABCDEFll, 0xFFFFFFFFll, 0x100000000ll }; setup(); width = (int)mc_choose(3); int64_t v = norm(V[mc_choose(10)]); put(v);
    for (int i = 0; i < 2; i++) { int op = (int)mc_choose(7); int64_t x = op == LOAD ? 0 : norm(V[mc_choose(10)]), y = op == CAS ? norm(V[mc_choose(10)]) : 0, o = v, r = run(op, x, y); MC_CHECK(def(op, x, y, r, &v), "%s(%lld,%lld) of %lld returns %lld", NAME[op], (long long)x, (long long)y, (long long)o, (long long)r); MC_CHECK(get() == v, "%s(%lld,%lld) of %lld leaves %lld, expected %lld", NAME[op], (long long)x, (long long)y, (long long)o, (long long)get(), (long long)v); canaries(size()); }
}
/* ---- spin locks ---- */
static rec L[NF][8]; static volatile int nl[NF]; static int rounds[NF], how[NF][3]; static volatile int inside;
static const int64_t TO[] = { -1, 0, 2, 1 };
static void lockbody(int k) {
    volatile int *in = (volatile int *)(page + 1088);
    for (int i = 0; i < rounds[k]; i++) {
        int h = how[k][i]; rec *r = &L[k][nl[k]++]; r->fib = k; r->op = h < 4 ? SPIN : TRY; r->x = h < 4 ? TO[h] : 0; r->y = 0; r->b = ++clk; r->e = 1 << 20; f[k].spin = h == 0; f[k].quiet = 0; BAR; r->r = run(r->op, r->x, 0); BAR; f[k].spin = 0; r->e = ++clk;
        if (!r->r) { if (h == 0) mc_fail("a lock without a time limit gives up"); continue; }
        if (inside) mc_fail("two threads hold the lock"); inside = 1; BAR; (void)*in; BAR; inside = 0;
        r = &L[k][nl[k]++]; r->fib = k; r->op = UNLOCK; r->x = r->y = r->r = 0; r->b = ++clk; r->e = 1 << 20; BAR; run(UNLOCK, 0, 0); BAR; r->e = ++clk;
    }
    ASK(2);
}
static void after(void) {
    MC_CHECK(run(TRY, 0, 0), "a free lock cannot be acquired"); MC_CHECK(!run(TRY, 0, 0), "a held lock is acquired again"); for (int t = 0; t < 4; t++) MC_CHECK(!run(SPIN, t, 0), "a held lock is acquired again, time limit %d", t); run(UNLOCK, 0, 0); MC_CHECK(run(SPIN, 0, 0), "a free lock cannot be acquired at once"); MC_CHECK(!run(TRY, 0, 0) && !run(SPIN, 0, 0), "a held lock is acquired again"); run(UNLOCK, 0, 0); MC_CHECK(run(SPIN, -1, 0), "a free lock cannot be acquired"); MC_CHECK(!run(SPIN, 2, 0), "a held lock is acquired again"); run(UNLOCK, 0, 0);
}
static void s_locks(void) {
    setup(); width = (int)mc_choose(3); memset(L, 0, sizeof L); memset((void *)nl, 0, sizeof nl); clk = 0; inside = 0; int n = 2 + (int)mc_choose(2); for (int i = 0; i < n; i++) { rounds[i] = n == 2 ? (i == 0 && !mc_thorough ? 1 : 2) : 1; for (int j = 0; j < rounds[i]; j++) { static const int H3[] = { 0, 4, 2 }; how[i][j] = !mc_thorough ? H3[mc_choose(n == 3 ? 2 : 3)] : (int)mc_choose(5); } }
    put(0); *(volatile int *)(page + 1088) = 0; memset(page + 1092, 0xC7, 4); for (int i = 0; i < n; i++) f[i].fn = lockbody; go(n); canaries(size()); nr = 0; for (int i = 0; i < n; i++) for (int j = 0; j < nl[i]; j++) R[nr++] = L[i][j]; int64_t z = 0; if (!lin(0, 0, 0)) explain(z, z, "locking"); after(); canaries(size());
}
mc_suite mc_suites[] = { { "single", s_single }, { "pair", s_pair }, { "three", s_three }, { "locks", s_locks }, { 0 } };
