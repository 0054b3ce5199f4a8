/* X01 - ranges under every boundary answer of the raw generator; reproducibility, uniqueness and start-up of the real one */
#ifdef RAW
#pragma weak zpl_random_gen_u32
#endif
#include <float.h>
#include "z.h"
static volatile uint64_t now_ns; static volatile int ticks, mode_clock;
#ifdef RAW
static const unsigned R[] = { 0, 1, 2, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 3 };
static int fixed; static unsigned fx[2]; static int fxi;
zpl_u32 zpl_random_gen_u32_replacement(void) { if (fixed) return fx[fxi++ & 1]; return R[mc_choose(8)]; }
static const zpl_i64 B[] = { INT64_MIN, INT64_MIN + 1, -0x100000001LL, -0x80000000LL, -1000, -1, 0, 1, 2, 7, 255, 0xffffffffLL, 0x100000000LL, 0x4000000000000001LL, INT64_MAX - 1, INT64_MAX };
static void s_range(void) {
    zpl_i64 lo = B[mc_choose(16)], hi = B[mc_choose(16)]; if (lo > hi) mc_prune(); zpl_random r; memset(&r, 0, sizeof r); fixed = 0; int k = mc_choose(2); mc_log("range [%lld, %lld]\n", (long long)lo, (long long)hi);
    zpl_i64 v = k ? zpl_random_range_isize(&r, lo, hi) : zpl_random_range_i64(&r, lo, hi); mc_trans(1); MC_CHECK(v >= lo && v <= hi, "%lld is outside [%lld, %lld]", (long long)v, (long long)lo, (long long)hi); mc_state(mc_hash_u(mc_hash_u((uint64_t)lo, (uint64_t)hi), (uint64_t)v));
}
/* each value of a small range is produced by some raw answer */
static void s_reach(void) {
    zpl_i64 lo = B[mc_choose(16)]; int span = 1 + mc_choose(20), k = mc_choose(2); if (lo > INT64_MAX - span) mc_prune(); char seen[20] = { 0 }; zpl_random r; memset(&r, 0, sizeof r); fixed = 1;
    for (unsigned a = 0; a < 64; a++) for (unsigned b = 0; b < 64; b++) { fx[0] = a; fx[1] = b; fxi = 0; zpl_i64 v = k ? zpl_random_range_isize(&r, lo, lo + span - 1) : zpl_random_range_i64(&r, lo, lo + span - 1); MC_CHECK(v >= lo && v < lo + span, "%lld outside [%lld, +%d)", (long long)v, (long long)lo, span); seen[v - lo] = 1; }
    mc_trans(4096); for (int i = 0; i < span; i++) MC_CHECK(seen[i], "offset %d of a range of %d from %lld never occurs", i, span, (long long)lo);
}
static void s_real(void) {
    static const double D[] = { -DBL_MAX, -1e300, -1e16, -3.5, -1, -0.1, -DBL_MIN, 0, DBL_MIN, 0.1, 0.3, 1, 2.5, 1e16, 1e300, DBL_MAX }; double lo = D[mc_choose(16)], hi = D[mc_choose(16)]; if (lo > hi) mc_prune(); zpl_random r; memset(&r, 0, sizeof r); fixed = 0;
    double v = zpl_random_range_f64(&r, lo, hi); mc_trans(1); MC_CHECK(v >= lo && v <= hi, "%.17g is outside [%.17g, %.17g]", v, lo, hi); mc_state(mc_hash(mc_hash_u((uint64_t)(hi * 10), 5), &v, 8));
}
mc_suite mc_suites[] = { { "ranges", s_range }, { "reach", s_reach }, { "real_ranges", s_real }, { 0 } };
#else
static const unsigned O[] = { 0, 1, 0x7fffffffu, 0xfffffffau, 0xfffffffbu, 0xffffffffu, 0x5bf03635u, 12345 };
static void mk(zpl_random *r) { int a = mc_choose(8), b = mc_choose(8); memset(r, 0, sizeof *r); for (int i = 0; i < zpl_count_of(r->offsets); i++) r->offsets[i] = O[(a + i * (b + 1)) % 8] + (unsigned)(i * b); r->value = O[mc_choose(8)]; }
static uint64_t draw(zpl_random *r, int k) { switch (k) { case 0: return zpl_random_gen_u32(r); case 1: return zpl_random_gen_u32_unique(r); case 2: return zpl_random_gen_u64(r); case 3: return (uint64_t)zpl_random_gen_isize(r); case 4: return (uint64_t)zpl_random_range_i64(r, -5, 1000); case 5: return (uint64_t)zpl_random_range_isize(r, -5, 1000); } double d = zpl_random_range_f64(r, -1, 1); uint64_t u; memcpy(&u, &d, 8); return u; }
/* a copied state continues identically, whatever else runs in between */
static void s_repro(void) {
    zpl_random a, b, c; mk(&a); b = a; c = a; int k1 = mc_choose(7), k2 = mc_choose(7); uint64_t t[40]; for (int i = 0; i < 40; i++) t[i] = draw(&a, i & 1 ? k1 : k2); c.value ^= 77; for (int i = 0; i < 10; i++) draw(&c, i % 7);
    for (int i = 0; i < 40; i++) { uint64_t u = draw(&b, i & 1 ? k1 : k2); MC_CHECK(u == t[i], "draw %d (kinds %d/%d) differs between two copies of one state", i, k1, k2); } MC_CHECK(!memcmp(&a, &b, sizeof a), "the states differ after equal draws"); mc_trans(80); mc_state(mc_hash(3, t, sizeof t));
}
static void s_unique(void) {
    static unsigned char *bits; if (!bits) bits = (unsigned char *)mmap(NULL, 1u << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); zpl_random r; mk(&r); zpl_random save = r; unsigned n = mc_thorough ? 1u << 22 : 1u << 17;
    for (unsigned i = 0; i < n; i++) { if (!(i & 0xffff)) mc_beat(); unsigned v = zpl_random_gen_u32_unique(&r); MC_CHECK(!(bits[v >> 3] & 1 << (v & 7)), "unique value %08x repeats within %u draws", v, i + 1); bits[v >> 3] |= (unsigned char)(1 << (v & 7)); }
    r = save; for (unsigned i = 0; i < n; i++) { unsigned v = zpl_random_gen_u32_unique(&r); bits[v >> 3] = 0; } mc_trans(n); mc_state(mc_hash(4, &save, sizeof save));
}
static void s_unique_full(void) { if (!mc_thorough) mc_prune(); zpl_random r; memset(&r, 0, sizeof r); int k = mc_choose(2); for (int i = 0; i < 8; i++) r.offsets[i] = O[i] * (unsigned)(k + 1); unsigned char *bits = (unsigned char *)mmap(NULL, 1u << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); unsigned i = 0;
    do { if (!(i & 0xfffff)) mc_beat(); unsigned v = zpl_random_gen_u32_unique(&r); MC_CHECK(!(bits[v >> 3] & 1 << (v & 7)), "unique value %08x repeats at draw %u", v, i); bits[v >> 3] |= (unsigned char)(1 << (v & 7)); } while (++i); munmap(bits, 1u << 29); mc_trans(1u << 30); }
/* two generators never share their stream by accident of the clock: start-up ends and differs for each generator, whatever the clocks answer */
static uint64_t step(void) { static const uint64_t S[] = { 0, 1000000, 999000000, 1000000000, 999999999, 3600000000000ULL, 400000 }; if (mode_clock) { if (++ticks > 5000) mc_fail("the generator is still reading the clock after 5000 readings"); return ticks <= (mc_thorough ? 7 : 6) ? S[mc_choose(7)] : mode_clock == 1 ? 1000000 : 0; } return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { now_ns += step(); uint64_t n = now_ns; if (c == 0) n += 1700000000000000000ULL; t->tv_sec = (time_t)(n / 1000000000u); t->tv_nsec = (long)(n % 1000000000u); return 0; }
static void s_init(void) {
    now_ns = 5000000000000ULL; mode_clock = 0; zpl_time_rel_ms(); static const uint64_t OFF[] = { 0, 1000000, 500000000, 998000000, 999000000, 999900000 }; now_ns += 7000000000ULL + OFF[mc_choose(6)];
    mode_clock = 1 + mc_choose(2); ticks = 0; zpl_random r, q; zpl_random_init(&r); mode_clock = 0; zpl_random_init(&q); mc_trans((uint64_t)ticks);
    int same = 1; for (int i = 0; i < 8; i++) same &= zpl_random_gen_u64(&r) == zpl_random_gen_u64(&q); MC_CHECK(!same, "two generators produce the same stream");
}
mc_suite mc_suites[] = { { "reproducible", s_repro }, { "unique", s_unique }, { "unique_period", s_unique_full }, { "init_clock", s_init }, { 0 } };
#endif
