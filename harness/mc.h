/* mc.h - stateless bounded-exhaustive explorer used by every harness in /verif.
 *
 * A suite is a C function body().  Each time it runs it asks mc_choose(n) for
 * every nondeterministic decision (operation, operand, input byte, fault
 * point, ...).  The explorer runs the body once per distinct choice vector, in
 * depth-first order, until the whole choice tree is exhausted.  Executions run
 * in forked children (one per shard of the tree), so a crash, a sanitizer
 * report or a hang is attributed to exactly one choice vector and exploration
 * continues behind it.
 *
 * Output: a JSON summary (argv: -o FILE).  Exit status is always 0 when the
 * exploration completed; run.py turns the summary into a verdict.
 */
#ifndef MC_H
#define MC_H
#define _GNU_SOURCE 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>

#define MC_MAXD    4096            /* choice points per execution */
#define MC_MAXSH   16
#define MC_MSG     1024
#define MC_SETBITS 22
#define MC_MAXSUITES 64

typedef struct { uint32_t v, n; } mc_pt;

typedef struct {
    volatile int      suite;            /* current suite */
    volatile uint64_t beat;             /* progress counter */
    volatile int      depth;            /* recorded choice points */
    volatile int      pos;              /* position inside current execution */
    volatile int      failed;           /* msg is valid */
    volatile int      running;          /* inside an execution */
    volatile int      done;
    volatile int      known_skip;
    char              msg[MC_MSG];
    mc_pt             pt[MC_MAXD];
    uint64_t          execs[MC_MAXSUITES], trans[MC_MAXSUITES], aux[MC_MAXSUITES];
    uint64_t          viol[MC_MAXSUITES];
    mc_pt             sample[2][64]; int sample_d[2]; int sample_s[2];
} mc_shard;

typedef struct {
    mc_shard sh[MC_MAXSH];
    volatile uint64_t nstates[MC_MAXSUITES];
    volatile int saturated;
    volatile uint64_t set[1u << MC_SETBITS];
} mc_shared;

typedef struct { const char *name; void (*body)(void); uint64_t cap; } mc_suite;

extern mc_suite mc_suites[];            /* NULL-terminated, defined by harness */

static mc_shared *mc_S;
static mc_shard  *mc_me;
static int  mc_nsh = 8, mc_shard_id, mc_verbose, mc_replaying;
static int  mc_thorough;
static char mc_out[4096];
static double mc_hang_s = 12;
static double mc_budget_s = 1e9;        /* wall-clock budget for the whole exploration */
static jmp_buf mc_jmp;
static uint64_t mc_pfx, mc_pfxprod; static int mc_pfxopen;
static int  mc_fixed[MC_MAXD], mc_nfixed;
static const char *mc_arg_suite;
static long mc_live;                    /* live wrapped mallocs */
static long mc_live0;
static long mc_malloc_n, mc_malloc_fail_at = -1;   /* malloc fault injection */
static int  mc_leakcheck = 1;
static char mc_scratch[256];

static void mc_logv(const char *f, va_list ap) { if (mc_verbose) { vprintf(f, ap); fflush(stdout); } }
__attribute__((format(printf,1,2))) static inline void mc_log(const char *f, ...) {
    if (!mc_verbose) return; va_list ap; va_start(ap, f); mc_logv(f, ap); va_end(ap);
}
__attribute__((format(printf,1,2),noreturn)) static void mc_fail(const char *f, ...) {
    va_list ap; va_start(ap, f); vsnprintf(mc_me->msg, MC_MSG, f, ap); va_end(ap);
    mc_me->failed = 1;
    if (mc_verbose) { printf("FAIL: %s\n", mc_me->msg); fflush(stdout); }
    _exit(42);
}
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)

static inline void mc_trans(uint64_t n) { mc_me->trans[mc_me->suite] += n; }
static inline void mc_beat(void) { mc_me->beat++; }

static inline uint64_t mc_mix(uint64_t x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; return x ^ (x >> 33);
}
static inline uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p; h ^= 0x9e3779b97f4a7c15ULL + n;
    while (n--) { h ^= *c++; h *= 0x100000001b3ULL; } return mc_mix(h);
}
static inline uint64_t mc_hash_u(uint64_t h, uint64_t v) { return mc_mix(h * 31 + v + 0x9e3779b97f4a7c15ULL); }
/* records a visited abstract state; returns 1 if new */
static int mc_state(uint64_t h) {
    h = mc_mix(h + 0x1234567ULL * (uint64_t)(mc_me->suite + 1)); if (!h) h = 1;
    uint64_t i = h & ((1u << MC_SETBITS) - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & ((1u << MC_SETBITS) - 1)) {
        uint64_t c = mc_S->set[i];
        if (c == h) return 0;
        if (c == 0) {
            if (__sync_bool_compare_and_swap(&mc_S->set[i], 0, h)) { __sync_fetch_and_add(&mc_S->nstates[mc_me->suite], 1); return 1; }
            if (mc_S->set[i] == h) return 0;
        }
    }
    mc_S->saturated = 1; return 0;
}

static uint32_t mc_choose(uint32_t n) {
    mc_shard *m = mc_me; int p = m->pos;
    if (n == 0) n = 1;
    if (p >= MC_MAXD) mc_fail("harness: too many choice points");
    if (mc_replaying) {
        uint32_t v = p < mc_nfixed ? (uint32_t)mc_fixed[p] : 0; m->pos++; return v < n ? v : n - 1;
    }
    uint32_t v;
    if (p < m->depth) {
        v = m->pt[p].v; 
        if (m->pt[p].n != n) {  mc_fail("harness: nondeterministic replay at choice %d (arity %u then %u)", p, m->pt[p].n, n); }
    } else { v = 0; m->pt[p].v = 0; m->pt[p].n = n; m->depth = p + 1; }
    m->pos = p + 1;
    if (mc_pfxopen) {
        mc_pfx = mc_pfx * n + v; mc_pfxprod *= n;
        if (mc_pfxprod >= (uint64_t)mc_nsh * 64) {
            mc_pfxopen = 0;
            if ((int)(mc_mix(mc_pfx + 77) % (uint64_t)mc_nsh) != mc_shard_id) longjmp(mc_jmp, 2);
        }
    }
    return v;
}
/* what follows is expensive: from here on only one shard continues (call before anything is allocated) */
__attribute__((unused)) static void mc_claim(void) { if (!mc_pfxopen) return; mc_pfxopen = 0; if ((int)(mc_mix(mc_pfx + 77) % (uint64_t)mc_nsh) != mc_shard_id) longjmp(mc_jmp, 2); }
/* abandon this execution as outside the domain (not counted) */
__attribute__((noreturn)) static inline void mc_prune(void) { longjmp(mc_jmp, 3); }

static int mc_advance(void) {           /* next choice vector; 0 when exhausted */
    mc_shard *m = mc_me; int d = m->pos;   /* only points reached this time */
    if (d > m->depth) d = m->depth;
    while (d > 0 && m->pt[d-1].v + 1 >= m->pt[d-1].n) d--;
    m->depth = d;
    if (d == 0) return 0;
    m->pt[d-1].v++; return 1;
}

/* ---------------- wrapped malloc: accounting and fault injection ---------- */
#ifdef MC_WRAP_MALLOC
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
static int mc_malloc_should_fail(void) { long k = mc_malloc_n++; return mc_malloc_fail_at >= 0 && k == mc_malloc_fail_at; }
void *__wrap_malloc(size_t n) { if (mc_malloc_should_fail()) return NULL; void *p = __real_malloc(n); if (p) mc_live++; return p; }
void __wrap_free(void *p) { if (p) mc_live--; __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) { if (mc_malloc_should_fail()) return NULL; void *p = __real_calloc(a, b); if (p) mc_live++; return p; }
void *__wrap_realloc(void *o, size_t n) { if (mc_malloc_should_fail()) return NULL; void *p = __real_realloc(o, n); if (p && !o) mc_live++; return p; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (mc_malloc_should_fail()) return NULL; void *p = __real_aligned_alloc(a, n); if (p) { mc_live++; memset(p, 0xA5, n); } return p; }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { if (mc_malloc_should_fail()) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (!r) { mc_live++; memset(*o, 0xA5, n); } return r; }
#endif

static void mc_on_sig(int s) {
    if (mc_me && !mc_me->failed) { snprintf(mc_me->msg, MC_MSG, "signal %d", s); mc_me->failed = 1; }
    if (mc_verbose) { printf("FAIL: signal %d\n", s); fflush(stdout); }
    _exit(43);
}
#if defined(__SANITIZE_ADDRESS__)
extern void __asan_set_error_report_callback(void (*)(const char *));
static void mc_on_asan(const char *rep) {
    if (mc_me && !mc_me->failed) {
        const char *p = strstr(rep, "AddressSanitizer: "); char k[80] = "report"; int i = 0;
        if (p) { p += 18; while (*p && *p != ' ' && *p != '\n' && i < 79) k[i++] = *p++; k[i] = 0; }
        snprintf(mc_me->msg, MC_MSG, "AddressSanitizer: %s", k); mc_me->failed = 1;
    }
    if (mc_verbose) { printf("%s\n", rep); fflush(stdout); }
}
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=44:allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3000:handle_abort=0:symbolize=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=2:allow_user_segv_handler=1"; }
#endif

static void mc_install(void) {
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_error_report_callback(mc_on_asan);
#endif
    stack_t ss; static char alt[65536]; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = mc_on_sig; sa.sa_flags = SA_ONSTACK;
    int sg[] = { SIGABRT, SIGILL, SIGTRAP, SIGFPE, SIGBUS, SIGSEGV, SIGPIPE };
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) {
#if defined(__SANITIZE_ADDRESS__)
        if (sg[i] == SIGSEGV || sg[i] == SIGBUS || sg[i] == SIGFPE) continue;   /* ASan reports these */
#endif
        sigaction(sg[i], &sa, NULL);
    }
}

static void mc_take_sample(int which) {
    mc_shard *m = mc_me; int d = m->pos > 64 ? 64 : m->pos;
    for (int i = 0; i < d; i++) m->sample[which][i] = m->pt[i];
    m->sample_d[which] = d; m->sample_s[which] = m->suite;
}

static void mc_one(void) {
    mc_shard *m = mc_me;
    m->pos = 0; mc_pfx = 0; mc_pfxprod = 1; mc_pfxopen = !mc_replaying;
    mc_malloc_n = 0; mc_malloc_fail_at = -1;
    m->running = 1;
    int r = setjmp(mc_jmp);
    if (r == 0) {
        mc_live0 = mc_live; mc_leakcheck = 1;
        mc_suites[m->suite].body();
        mc_malloc_fail_at = -1;
        if (mc_leakcheck && mc_live != mc_live0) mc_fail("leak: %ld heap block(s) still allocated at the end", mc_live - mc_live0);
        if (mc_pfxopen && (int)(mc_mix(mc_pfx + 77) % (uint64_t)mc_nsh) != mc_shard_id) r = 2;
        else {
            uint64_t e = ++m->execs[m->suite];
            if (e == 3) mc_take_sample(0); else if ((e & (e - 1)) == 0 && (e > 1000)) mc_take_sample(1);
        }
    }
    m->running = 0; m->beat++;
}

static void mc_child(int shard, int start_suite, int resume) {
    mc_shard_id = shard; mc_me = &mc_S->sh[shard];
    { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); close(dn); }
    mc_install();
    for (int s = start_suite; mc_suites[s].name; s++) {
        if (mc_arg_suite && strcmp(mc_arg_suite, mc_suites[s].name)) continue;
        if (!resume) { mc_me->suite = s; mc_me->depth = 0; mc_me->pos = 0; }
        else { resume = 0; if (!mc_advance()) continue; }
        if (mc_me->viol[s] >= 25) continue;
        do { mc_one(); } while (mc_advance());
    }
    mc_me->done = 1;
    _exit(0);
}

static double mc_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double mc_cpu(pid_t p) {
    char b[512], f[64]; snprintf(f, sizeof f, "/proc/%d/stat", (int)p); FILE *fp = fopen(f, "r"); if (!fp) return 0;
    size_t n = fread(b, 1, sizeof b - 1, fp); fclose(fp); b[n] = 0; char *q = strrchr(b, ')'); if (!q) return 0;
    unsigned long u = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &st);
    return (double)(u + st) / sysconf(_SC_CLK_TCK);
}
static void mc_jstr(FILE *f, const char *s) {
    fputc('"', f); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f);
}
static void mc_vec(char *o, size_t n, mc_pt *p, int d) { size_t k = 0; o[0] = 0; for (int i = 0; i < d && k + 12 < n; i++) k += (size_t)snprintf(o + k, n - k, "%s%u", i ? "," : "", p[i].v); }
/* run one vector verbosely in a child and capture its log */
static int mc_capture(int suite, const char *vec, char *buf, size_t n, int timeout) {
    int pf[2]; if (pipe(pf)) return -1;
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        dup2(pf[1], 1); dup2(pf[1], 2); close(pf[0]);
        mc_verbose = 1; mc_replaying = 1; mc_me = &mc_S->sh[MC_MAXSH-1]; mc_me->suite = suite; mc_me->failed = 0; mc_install();
        mc_nfixed = 0; char *t = strdup(vec); for (char *q = strtok(t, ","); q && mc_nfixed < MC_MAXD; q = strtok(NULL, ",")) mc_fixed[mc_nfixed++] = (int)strtoul(q, 0, 10);
        free(t); mc_one(); printf("(held)\n"); fflush(stdout); _exit(0);
    }
    close(pf[1]); size_t k = 0; double t0 = mc_now(); fcntl(pf[0], F_SETFL, O_NONBLOCK);
    for (;;) {
        char tmp[4096]; ssize_t r = read(pf[0], tmp, sizeof tmp);
        if (r == 0) break;
        if (r > 0) { for (ssize_t i = 0; i < r && k + 1 < n; i++) buf[k++] = tmp[i]; }
        else { if (mc_now() - t0 > timeout) { kill(p, SIGKILL); break; } usleep(2000); }
    }
    buf[k] = 0; close(pf[0]); int st = 0; waitpid(p, &st, 0); return st;
}

typedef struct { int suite; char msg[MC_MSG]; char vec[4096]; char *log; int reproduced; uint64_t count; } mc_viol;
static mc_viol mc_v[512]; static int mc_nv; static uint64_t mc_dup[MC_MAXSUITES];

static void mc_norm(const char *a, char *o, size_t n) { size_t k = 0; for (; *a && k + 1 < n; a++) { if (*a >= '0' && *a <= '9') { if (k && o[k-1] == '#') continue; o[k++] = '#'; } else o[k++] = *a; } o[k] = 0; }

static void mc_record(int shard, const char *msg) {
    mc_shard *m = &mc_S->sh[shard]; char vec[4096]; int d = m->pos < m->depth ? m->pos : m->depth;
    mc_vec(vec, sizeof vec, m->pt, d);
    m->viol[m->suite]++;
    for (int i = 0; i < mc_nv; i++) if (mc_v[i].suite == m->suite && !strcmp(mc_v[i].vec, vec)) { mc_dup[m->suite]++; return; }   /* tiny trees are walked by every shard */
    if (mc_nv < 512) {
        mc_viol *v = &mc_v[mc_nv++]; v->suite = m->suite; snprintf(v->msg, MC_MSG, "%s", msg); snprintf(v->vec, sizeof v->vec, "%s", vec); v->count = 1;
        int hang = !strncmp(msg, "hang", 4);
        if (hang) m->viol[m->suite] += 12;
        v->log = (char *)malloc(16384); int st = mc_capture(m->suite, vec, v->log, 16384, hang ? (int)(mc_hang_s * 2) : 30); v->reproduced = (st != 0);
        if (hang && !v->reproduced) { free(v->log); mc_nv--; }      /* slow machine, not a hang */
    }
}

int main(int argc, char **argv) {
    const char *replay = NULL; int only = -1; mc_thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    if (getenv("MC_HANG")) mc_hang_s = atof(getenv("MC_HANG"));
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-o")) snprintf(mc_out, sizeof mc_out, "%s", argv[++i]);
        else if (!strcmp(argv[i], "-j")) mc_nsh = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-s")) mc_arg_suite = argv[++i];
        else if (!strcmp(argv[i], "-r")) replay = argv[++i];
        else if (!strcmp(argv[i], "-T")) mc_budget_s = atof(argv[++i]);
        else if (!strcmp(argv[i], "-t")) mc_thorough = !strcmp(argv[++i], "thorough");
    }
    if (mc_nsh < 1) mc_nsh = 1; if (mc_nsh > MC_MAXSH - 1) mc_nsh = MC_MAXSH - 1;
    mc_S = (mc_shared *)mmap(NULL, sizeof *mc_S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mc_S == MAP_FAILED) { perror("mmap"); return 3; }
    const char *sd = getenv("MC_SCRATCH"); snprintf(mc_scratch, sizeof mc_scratch, "%s", sd ? sd : "/tmp");
    for (int s = 0; mc_suites[s].name; s++) if (mc_arg_suite && !strcmp(mc_arg_suite, mc_suites[s].name)) only = s;
    if (mc_arg_suite && only < 0) { fprintf(stderr, "no suite %s\n", mc_arg_suite); return 3; }
    if (replay) {
        static char buf[1 << 20]; int st = mc_capture(only < 0 ? 0 : only, replay, buf, sizeof buf, 60); fputs(buf, stdout); printf("status=%d\n", st); return st != 0;
    }
    pid_t pid[MC_MAXSH]; double last[MC_MAXSH], cpu0[MC_MAXSH]; uint64_t beat[MC_MAXSH]; int alive = 0; double t0 = mc_now();
    fflush(NULL);
    for (int i = 0; i < mc_nsh; i++) { pid[i] = fork(); if (pid[i] == 0) mc_child(i, 0, 0); last[i] = mc_now(); beat[i] = 0; cpu0[i] = 0; alive++; }
    int budget_hit = 0;
    while (alive > 0) {
        if (mc_now() - t0 > mc_budget_s) { budget_hit = 1; for (int i = 0; i < mc_nsh; i++) if (pid[i] > 0) { kill(pid[i], SIGKILL); waitpid(pid[i], NULL, 0); } break; }
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            usleep(5000);
            for (int i = 0; i < mc_nsh; i++) if (pid[i] > 0) {
                double now = mc_now();
                if (now - last[i] < 1.0) continue;
                if (mc_S->sh[i].beat != beat[i]) { beat[i] = mc_S->sh[i].beat; last[i] = now; cpu0[i] = mc_cpu(pid[i]); }
                else if (now - last[i] > mc_hang_s && (mc_cpu(pid[i]) - cpu0[i] > mc_hang_s * 0.6 || now - last[i] > 6 * mc_hang_s)) {
                    snprintf(mc_S->sh[i].msg, MC_MSG, "hang: execution does not terminate"); mc_S->sh[i].failed = 1; kill(pid[i], SIGKILL); last[i] = now;
                }
            }
            continue;
        }
        int i; for (i = 0; i < mc_nsh; i++) if (pid[i] == p) break;
        if (i == mc_nsh) continue;
        mc_shard *m = &mc_S->sh[i];
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && m->done) { pid[i] = 0; alive--; continue; }
        char msg[MC_MSG];
        if (mc_now() - t0 > mc_budget_s) break;
        if (m->failed) snprintf(msg, sizeof msg, "%s", m->msg);
        else if (WIFSIGNALED(st)) snprintf(msg, sizeof msg, "killed by signal %d", WTERMSIG(st));
        else snprintf(msg, sizeof msg, "exited with status %d", WEXITSTATUS(st));
        mc_record(i, msg);
        m->failed = 0; m->running = 0;
        pid_t q = fork(); if (q == 0) mc_child(i, m->suite, 1); pid[i] = q; last[i] = mc_now(); beat[i] = m->beat; cpu0[i] = 0;
    }
    FILE *f = mc_out[0] ? fopen(mc_out, "w") : stdout; if (!f) { perror(mc_out); return 3; }
    fprintf(f, "{\"wall_s\": %.3f, \"tier\": \"%s\", \"budget_hit\": %s, \"states_saturated\": %s, \"suites\": [", mc_now() - t0, mc_thorough ? "thorough" : "quick", budget_hit ? "true" : "false", mc_S->saturated ? "true" : "false");
    int first = 1;
    for (int s = 0; mc_suites[s].name; s++) {
        if (mc_arg_suite && strcmp(mc_arg_suite, mc_suites[s].name)) continue;
        uint64_t e = 0, t = 0, v = 0; int trunc = 0; for (int i = 0; i < mc_nsh; i++) { e += mc_S->sh[i].execs[s]; t += mc_S->sh[i].trans[s]; v += mc_S->sh[i].viol[s]; if (mc_S->sh[i].viol[s] >= 25 || budget_hit) trunc = 1; }
        fprintf(f, "%s\n {\"name\": \"%s\", \"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"failures\": %llu, \"truncated\": %s}", first ? "" : ",", mc_suites[s].name, (unsigned long long)e, (unsigned long long)t, (unsigned long long)mc_S->nstates[s], (unsigned long long)(v - mc_dup[s]), trunc ? "true" : "false"); first = 0;
    }
    fprintf(f, "],\n \"samples\": ["); first = 1; int got[MC_MAXSUITES] = {0};
    for (int w = 1; w >= 0; w--) for (int i = 0; i < mc_nsh; i++) { mc_shard *m = &mc_S->sh[i]; if (!m->sample_d[w] || got[m->sample_s[w]] >= 2) continue; got[m->sample_s[w]]++;
        char vec[4096]; mc_vec(vec, sizeof vec, m->sample[w], m->sample_d[w]); static char lg[2048]; mc_capture(m->sample_s[w], vec, lg, sizeof lg, 20);
        fprintf(f, "%s\n  {\"suite\": \"%s\", \"choices\": \"%s\", \"log\": ", first ? "" : ",", mc_suites[m->sample_s[w]].name, vec); lg[900] = 0; mc_jstr(f, lg); fprintf(f, "}"); first = 0; }
    fprintf(f, "],\n \"failures\": ["); first = 1;
    for (int i = 0; i < mc_nv; i++) { fprintf(f, "%s\n  {\"suite\": \"%s\", \"msg\": ", first ? "" : ",", mc_suites[mc_v[i].suite].name); mc_jstr(f, mc_v[i].msg); fprintf(f, ", \"choices\": \"%s\", \"reproduced\": %s, \"log\": ", mc_v[i].vec, mc_v[i].reproduced ? "true" : "false"); mc_jstr(f, mc_v[i].log); fprintf(f, "}"); first = 0; }
    fprintf(f, "]}\n"); if (f != stdout) fclose(f);
    return 0;
}
#endif
