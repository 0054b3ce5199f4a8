/* X03 - time queries and sleeping under every clock answer */
#include "z.h"
#include <sys/time.h>
static volatile uint64_t mono, real_, slept; static volatile int armed, calls;   /* volatile: the wrapped functions are declared leaf */
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { uint64_t n = c == 0 ? real_ : mono; t->tv_sec = (time_t)(n / 1000000000u); t->tv_nsec = (long)(n % 1000000000u); return 0; }
int __wrap_nanosleep(const struct timespec *q, struct timespec *rem) {
    MC_CHECK(q->tv_nsec >= 0 && q->tv_nsec < 1000000000 && q->tv_sec >= 0, "nanosleep given %ld s %ld ns", (long)q->tv_sec, q->tv_nsec); uint64_t n = (uint64_t)q->tv_sec * 1000000000u + (uint64_t)q->tv_nsec; if (++calls > 100) mc_fail("sleeping never ends");
    if (armed && calls <= 4) { int k = mc_choose(4); if (k) { uint64_t part = k == 1 ? 0 : k == 2 ? n / 3 : n - (n > 0); slept += part; n -= part; if (rem) { rem->tv_sec = (time_t)(n / 1000000000u); rem->tv_nsec = (long)(n % 1000000000u); } errno = EINTR; return -1; } }
    slept += n; if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *q, struct timespec *rem) { if (fl) mc_fail("absolute sleep is not modelled"); return __wrap_nanosleep(q, rem) ? EINTR : 0; }
static const uint64_t BASE = 5000000000000ULL;
static const uint64_t STEP[] = { 0, 1, 999999, 1000000, 999999999, 1000000000, 86400000000000ULL, 4294967296000000ULL };
static void s_rel(void) {
    mono = BASE; zpl_time_rel_ms(); mono += mc_choose(2) * 250000000ULL; uint64_t start = BASE / 1000000, prev = 0, n = mc_thorough ? 6 : 5;
    for (uint64_t i = 0; i < n; i++) { mono += STEP[mc_choose(8)]; uint64_t ms = zpl_time_rel_ms(); double s = zpl_time_rel(); mc_trans(2); mc_log("clock %llu ns -> %llu ms %.9f s\n", (unsigned long long)mono, (unsigned long long)ms, s);
        uint64_t e = mono / 1000000 - start; MC_CHECK(ms + 1 >= e && ms <= e + 1, "%llu ms after the start reported as %llu", (unsigned long long)e, (unsigned long long)ms); MC_CHECK(ms >= prev, "relative time ran backwards from %llu to %llu", (unsigned long long)prev, (unsigned long long)ms); prev = ms;
        double d = s - (double)ms * 1e-3; MC_CHECK(d < 1e-6 * (1 + s) && d > -1e-6 * (1 + s), "%.9f seconds but %llu ms", s, (unsigned long long)ms); mc_state(mc_hash_u(ms, mono)); }
}
/* the very first query of a process, including a clock that starts at zero */
static void s_first(void) {
    int p[2]; if (pipe(p)) mc_fail("pipe"); uint64_t a = ((uint64_t[]){ 0, 999999, 1000000, 77777000000ULL })[mc_choose(4)], b = STEP[mc_choose(6)], c = STEP[mc_choose(6)]; fflush(NULL); pid_t k = fork();
    if (!k) { uint64_t r[3]; mono = a; r[0] = zpl_time_rel_ms(); mono += b; r[1] = zpl_time_rel_ms(); mono += c; r[2] = zpl_time_rel_ms(); if (write(p[1], r, sizeof r)) { } _exit(0); }
    uint64_t r[3] = { 9, 9, 9 }; close(p[1]); if (read(p[0], r, sizeof r) != sizeof r) mc_fail("no answer"); close(p[0]); int st; waitpid(k, &st, 0); mc_trans(3);
    uint64_t e1 = (a + b) / 1000000 - a / 1000000, e2 = (a + b + c) / 1000000 - a / 1000000; MC_CHECK(r[0] == 0, "the first query returns %llu", (unsigned long long)r[0]); MC_CHECK(r[1] <= r[2], "ran backwards from %llu to %llu", (unsigned long long)r[1], (unsigned long long)r[2]); MC_CHECK(r[1] + 1 >= e1 && r[1] <= e1 + 1 && r[2] + 1 >= e2 && r[2] <= e2 + 1, "clock %llu +%llu +%llu ns: reported %llu and %llu ms", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)r[1], (unsigned long long)r[2]);
}
static const uint64_t WHEN[] = { 0, 1, 999999999, 1000000000, 951782400, 1700000000, 1720000000, 1735689599, 1735689600, 2147483647, 2147483648ULL, 4294967296ULL, 1712415600, 1712415599, 1728144000, 253402300799ULL };
static const char *TZS[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "<+0545>-5:45", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-1130>11:30", "<+14>-14", "IST-1GMT0,M10.5.0,M3.5.0/1" };
static void s_utc(void) {
    real_ = WHEN[mc_choose(16)]; uint64_t sec = real_; static const uint64_t NS[] = { 0, 1, 999999, 1000000, 500000000, 998999999, 999000000, 999500000 }; uint64_t ns = NS[mc_choose(8)]; real_ = real_ * 1000000000u + ns; if (sec > 18000000000ULL) { mc_prune(); }
    uint64_t ms = zpl_time_utc_ms(), e = sec * 1000 + ns / 1000000 + 11644473600000ULL; double s = zpl_time_utc(); mc_trans(2); MC_CHECK(ms == e, "second %llu + %llu ns: utc %llu ms, expected %llu", (unsigned long long)sec, (unsigned long long)ns, (unsigned long long)ms, (unsigned long long)e); double d = s - (double)ms * 1e-3; MC_CHECK(d < 1e-3 && d > -1e-3, "%.6f seconds but %llu ms", s, (unsigned long long)ms);
    MC_CHECK(zpl_time_win32_to_unix(ms) == ms - 11644473600000ULL && zpl_time_unix_to_win32(zpl_time_win32_to_unix(ms)) == ms, "epoch conversion");
}
static void s_tz(void) {
    const char *tz = TZS[mc_choose(10)]; uint64_t sec = WHEN[mc_choose(16)]; if (sec > 9000000000ULL) mc_prune(); sec += ((uint64_t[]){ 86400, 3599, 7200, 0 })[mc_choose(4)]; uint64_t ns = ((uint64_t[]){ 0, 123000000, 999000000 })[mc_choose(3)]; real_ = sec * 1000000000u + ns; setenv("TZ", tz, 1); tzset();
    time_t tt = (time_t)sec; struct tm t; localtime_r(&tt, &t); int64_t e = ((int64_t)sec + t.tm_gmtoff) * 1000 + (int64_t)(ns / 1000000) + 11644473600000LL; uint64_t ms = zpl_time_tz_ms(); double s = zpl_time_tz(); mc_trans(2); mc_log("TZ %s, %llu s: %llu, offset %ld dst %d\n", tz, (unsigned long long)sec, (unsigned long long)ms, t.tm_gmtoff, t.tm_isdst);
    MC_CHECK((int64_t)ms == e, "TZ %s at %llu s: local time is %lld ms off", tz, (unsigned long long)sec, (long long)((int64_t)ms - e)); double d = s - (double)ms * 1e-3; MC_CHECK(d < 1e-3 && d > -1e-3, "%.6f seconds but %llu ms", s, (unsigned long long)ms); mc_state(mc_hash_u(ms, (uint64_t)t.tm_gmtoff));
    unsetenv("TZ"); tzset();
}
static void s_sleep(void) {
    static const unsigned MS[] = { 0, 1, 2, 999, 1000, 1001, 29000, 4294967295u, 4294967000u, 60000, 3, 333 }; unsigned ms = MS[mc_choose(12)]; armed = 1; slept = 0; calls = 0; zpl_sleep_ms(ms); armed = 0; mc_trans((uint64_t)calls); mc_log("%u ms: %d calls, %llu ns\n", ms, calls, (unsigned long long)slept);
    MC_CHECK(slept >= (uint64_t)ms * 1000000u, "asked for %u ms, slept %llu ns in %d calls", ms, (unsigned long long)slept, calls); MC_CHECK(slept <= (uint64_t)ms * 1000000u + 5, "asked for %u ms, slept %llu ns", ms, (unsigned long long)slept); mc_state(mc_hash_u(ms, slept + (uint64_t)calls));
}
static void s_sleep_all(void) { /* the split into seconds and nanoseconds, every thousandth value and its neighbours */
    uint32_t k = mc_choose(4295), lim = 4294967; armed = 0; for (uint32_t j = 0; j < 1000; j++) { uint64_t q = (uint64_t)k * 1000 + j; if (q > lim) break; for (int d = -1; d <= 1; d++) { int64_t v = (int64_t)q * 1000 + d; if (v < 0 || v > 4294967295LL) continue; slept = 0; calls = 0; zpl_sleep_ms((zpl_u32)v); if (slept != (uint64_t)v * 1000000u) mc_fail("asked for %lld ms, slept %llu ns", (long long)v, (unsigned long long)slept); } } mc_trans(3000);
}
/* seconds as a real number, and the older names of the queries */
static void s_seconds(void) {
    uint32_t k = mc_choose(mc_thorough ? 4000 : 400); armed = 0; mc_trans(50); for (uint32_t j = 0; j < 50; j++) { uint32_t ms = (k * 50 + j) * (k < 300 ? 1u : 97u); slept = 0; calls = 0; zpl_sleep((zpl_f32)ms / 1000.0f); double tol = 1e6 + (double)ms * 0.12; MC_CHECK((double)slept >= (double)ms * 1e6 - tol && (double)slept <= (double)ms * 1e6 + tol, "asked for %.3f s, slept %llu ns", ms / 1000.0, (unsigned long long)slept); }
    mono = BASE + (uint64_t)k * 1234567891u; real_ = BASE * 300 + (uint64_t)k * 7654321987u; MC_CHECK(zpl_time_now() == zpl_time_rel() && zpl_utc_time_now() == zpl_time_utc(), "the older names of the time queries answer differently"); zpl_u64 t0 = zpl_rdtsc(), t1 = zpl_rdtsc(); MC_CHECK(t1 >= t0 && t0, "the time stamp counter ran from %llu to %llu", (unsigned long long)t0, (unsigned long long)t1); mc_state(k);
}
mc_suite mc_suites[] = { { "first_query", s_first }, { "relative", s_rel }, { "utc", s_utc }, { "local", s_tz }, { "sleep", s_sleep }, { "sleep_split", s_sleep_all }, { "seconds", s_seconds }, { 0 } };
