/* S04 - integers and reals from and to text */
#include "z.h"
static const int BASES[] = { 2, 3, 7, 8, 9, 10, 16 };
#define DIG "0123456789ABCDEF"
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static void fmt(unsigned long long v, int neg, int b, char *o) { char t[80]; int n = 0; do { t[n++] = DIG[v % (unsigned)b]; v /= (unsigned)b; } while (v); int k = 0; if (neg) o[k++] = '-'; while (n) o[k++] = t[--n]; o[k] = 0; }
static void one(long long v, int b) {
    char e[80]; fmt(v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0, b, e); size_t n = strlen(e); char *s = (char *)malloc(n + 1); mc_trans(1);
    zpl_i64_to_str(v, s, b); MC_CHECK(!strcmp(s, e), "i64_to_str(%lld, base %d) = %s", v, b, s);
    char *end = NULL; zpl_i64 r = zpl_str_to_i64(s, &end, b); MC_CHECK(r == v && end == s + n, "str_to_i64(\"%s\", base %d) = %lld, stops at %ld", s, b, (long long)r, (long)(end - s));
    MC_CHECK(zpl_str_to_i64(s, NULL, b) == v, "str_to_i64 without end pointer"); if (b == 10) MC_CHECK(zpl_str_to_i64(s, NULL, 0) == v, "str_to_i64 base 0"); free(s);
    unsigned long long u = (unsigned long long)v; fmt(u, 0, b, e); n = strlen(e); s = (char *)malloc(n + 1); zpl_u64_to_str(u, s, b); MC_CHECK(!strcmp(s, e), "u64_to_str(%llu, base %d) = %s", u, b, s);
    zpl_u64 x = zpl_str_to_u64(s, &end, b); MC_CHECK(x == u && end == s + n, "str_to_u64(\"%s\", base %d) = %llu, stops at %ld", s, b, (unsigned long long)x, (long)(end - s)); free(s);
}
static void s_small(void) { int b = BASES[mc_choose(7)]; long base = ((long)mc_choose(257) - 128) * 256; for (long v = base; v < base + 256; v++) one(v, b); mc_beat(); mc_state((uint64_t)(base * 32 + b)); }
static void s_edge(void) { int b = 2 + (int)mc_choose(10); if (b == 11) b = 16; int sh = mc_choose(64), d = (int)mc_choose(9) - 4, m = mc_choose(4);
    unsigned long long u = (1ULL << sh) + (unsigned long long)(long long)d; if (m == 1) u = 0ULL - u; else if (m == 2) u = ~0ULL / 3 + u; else if (m == 3) { u = 1; for (int i = 0; i < sh && u <= ~0ULL / (unsigned)b; i++) u *= (unsigned)b; u += (unsigned long long)(long long)d; } one((long long)u, b); }
/* the grammar: an optional minus (signed only), an optional 0x in base 16, then digits of the base */
static void s_gram(void) {
    static const char AL[] = "-01279afAFxg. "; int b = ((int[]){ 2, 8, 10, 16, 0 })[mc_choose(5)], n = mc_choose(mc_thorough ? 7 : 6); char t[16]; for (int i = 0; i < n; i++) t[i] = AL[mc_choose(sizeof AL - 1)]; t[n] = 0; mc_trans(1); mc_log("\"%s\" base %d\n", t, b);
    char *s = (char *)malloc((size_t)n + 1); memcpy(s, t, (size_t)n + 1);
    for (int sg = 0; sg < 2; sg++) { int p = 0, neg = 0, bb = b; long long v = 0; if (sg && t[p] == '-') neg = 1, p++;
        if (!bb) bb = !strncmp(t + p, "0x", 2) && strlen(t + p) > 2 ? 16 : 10; if (bb == 16 && !strncmp(t + p, "0x", 2)) p += 2;
        while (dig(t[p]) < bb) v = v * bb + dig(t[p++]); if (neg) v = -v; char *e = NULL; long long r = sg ? zpl_str_to_i64(s, &e, b) : (long long)zpl_str_to_u64(s, &e, b);
        MC_CHECK(r == v && e == s + p, "%s(\"%s\", base %d) = %lld stopping at %ld, expected %lld at %d", sg ? "str_to_i64" : "str_to_u64", t, b, r, (long)(e - s), v, p); }
    free(s);
}
static int close_(double a, double b) { if (a == b) return 1; double d = a > b ? a - b : b - a, m = b < 0 ? -b : b; return d <= m * 4e-15 || d <= 1e-320; }
static void real(const char *t) {
    size_t n = strlen(t); char *s = (char *)malloc(n + 1), *e = NULL; memcpy(s, t, n + 1); double r = zpl_str_to_f64(s, &e), v = strtod(s, NULL); mc_trans(1); mc_log("%s -> %.17g (%.17g)\n", s, r, v);
    MC_CHECK(close_(r, v), "str_to_f64(\"%s\") = %.17g", t, r); size_t k = n; while (k && t[k - 1] == ';') k--; MC_CHECK(e == s + k, "str_to_f64(\"%s\") stops at %ld", t, (long)(e - s)); MC_CHECK(zpl_str_to_f64(s, NULL) == r, "without end pointer");
    MC_CHECK(zpl_str_to_f32(s, NULL) == (float)r || r != r, "str_to_f32(\"%s\")", t); free(s);
}
static void s_real(void) {
    static const char *SG[] = { "", "-", "+", " ", "\t\n-" }, *IN[] = { "0", "1", "9", "00", "123456789", "9007199254740993", "18446744073709551616", "100000000000000000000" }, *FR[] = { "", ".0", ".5", ".25", ".125", ".1", ".999999999999", ".000001", ".12345678901234567" }, *EX[] = { "", "e0", "E1", "e+2", "e-3", "e10", "e-20", "e49", "e50", "e-51", "e+100", "e-150" }, *TL[] = { "", ";" };
    int big = mc_choose(2); char t[96]; snprintf(t, 96, "%s%s%s%s%s", SG[mc_choose(5)], IN[mc_choose(8)], FR[mc_choose(9)], big ? "" : EX[mc_choose(12)], TL[mc_choose(2)]); real(t);
}
static void s_exp(void) { static const char *IN[] = { "1", "-2", "0", "9.5", "0.001", "123" }; char t[64]; snprintf(t, 64, "%se%d%s", IN[mc_choose(6)], (int)mc_choose(mc_thorough ? 1401 : 701) - (mc_thorough ? 700 : 350), mc_choose(2) ? ";" : ""); real(t); }
static void s_frac(void) { int n = mc_choose(6) + 1; char t[32] = "0"; int p = 1; t[0] = (char)('0' + mc_choose(10)); t[p++] = '.'; for (int i = 0; i < n; i++) t[p++] = "0159"[mc_choose(4)]; t[p] = 0; real(t); }
mc_suite mc_suites[] = { { "small", s_small }, { "edges", s_edge }, { "grammar", s_gram }, { "reals", s_real }, { "exponents", s_exp }, { "fractions", s_frac }, { 0 } };
