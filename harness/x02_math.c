/* X02 - scalar, vector, matrix, quaternion, half-float and box maths against their definitions in double precision */
#include "z.h"
#include <math.h>
#include <float.h>
#define N(a) ((int)(sizeof(a) / sizeof(*(a))))
extern void zpl_mat2_copy(zpl_mat2 *, zpl_mat2 *); extern void zpl_mat3_copy(zpl_mat3 *, zpl_mat3 *);
extern const char *ops_check(const float *a, const float *b, float s);      /* x02_ops.cpp */
/* |a - b| within a few single precision roundings of the sum of the magnitudes of the terms */
static int near_(double a, double b, double scale) { if (isinf(a) || isinf(b) || isinf(scale)) return a == b || (isinf(scale) && !isinf(b)); return fabs(a - b) <= 4e-6 * (fabs(scale) + fabs(b)) + 1e-37; }
#define NEAR(a, b, scale, ...) do { double a_ = (a), b_ = (b); if (!near_(a_, b_, scale)) { mc_log("%.9g instead of %.9g\n", a_, b_); mc_fail(__VA_ARGS__); } } while (0)
#define EQ(a, b, ...) do { double a_ = (a), b_ = (b); if (!(a_ == b_)) { mc_log("%.9g instead of %.9g\n", a_, b_); mc_fail(__VA_ARGS__); } } while (0)
static float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }

/* ---- every single-precision number ---- */
static double HV[0x7c02];
static void hv_init(void) { if (HV[1]) return; for (int i = 0; i <= 0x7c00; i++) { int e = i >> 10, m = i & 1023; HV[i] = e ? ldexp(1024 + m, e - 25) : ldexp(m, -24); } HV[0x7c01] = INFINITY; }
static void s_floats(void) {
    hv_init(); uint32_t k = mc_choose(2048), k2 = k * 2097152u; mc_trans(4 * 2097152);
    for (uint32_t j = 0; j < 2097152u; j++) {
        uint32_t u = k2 + j; float x = bitsf(u);
        if ((u & 0x7fffffff) <= 0x7f800000) {
            float f = zpl_floor(x), c = zpl_ceil(x), r = zpl_round(x), ax = fabsf(x);
            if (ax >= 8388608.0f) { if (f != x || c != x || r != x) mc_fail("%.9g is integral: floor %.9g ceil %.9g round %.9g", x, f, c, r); }
            else { int fi = (int)f, ci = (int)c, ri = (int)r; double d = x; /* |x| < 2^23: the results fit */
                if (!((float)fi == f && f <= x && d < (double)f + 1)) mc_fail("floor(%.9g) = %.9g", x, f);
                if (!((float)ci == c && c >= x && d > (double)c - 1)) mc_fail("ceil(%.9g) = %.9g", x, c);
                double a = fabs((double)r - d); if (!((float)ri == r && (a < 0.5 || (a == 0.5 && fabsf(r) > ax)))) mc_fail("round(%.9g) = %.9g", x, r); }
            uint16_t h = (uint16_t)zpl_float_to_half(x); uint32_t mag = h & 0x7fff; if (mag > 0x7c00 || (h >> 15) != (u >> 31)) mc_fail("%.9g to half: %04x", x, h);
            double ad = ax, dv = mag == 0x7c00 ? 65536 : HV[mag]; if (mag == 0x7c00) { if (ad < 65520) mc_fail("%.9g to half: infinity", x); }
            else { double err = fabs(ad - dv); if (fabs(ad - (mag == 0x7bff ? 65536.0 : HV[mag + 1])) < err || (mag && fabs(ad - HV[mag - 1]) < err)) mc_fail("%.9g to half: %04x is not the nearest", x, h); }
        } else { uint16_t h = (uint16_t)zpl_float_to_half(x); if ((h & 0x7fff) <= 0x7c00) mc_fail("a NaN (%08x) to half: %04x", u, h); float f = zpl_floor(x), c = zpl_ceil(x), r = zpl_round(x); if (f == f || c == c || r == r) mc_fail("floor, ceil or round of a NaN: %g %g %g", f, c, r); }
    }
}
static void s_halves(void) {
    hv_init(); uint32_t k = mc_choose(64); mc_trans(2048);
    for (uint32_t j = 0; j < 1024; j++) { uint16_t h = (uint16_t)(k * 1024 + j); float f = zpl_half_to_float((zpl_half)h); uint32_t mag = h & 0x7fff;
        if (mag < 0x7c00) MC_CHECK((double)fabsf(f) == HV[mag] && (fbits(f) >> 31) == (h >> 15), "half %04x is %.9g", h, f); else if (mag == 0x7c00) MC_CHECK(isinf(f) && (f < 0) == (h >> 15), "half %04x is %.9g", h, f); else MC_CHECK(f != f, "half %04x is %.9g", h, f);
        uint16_t b = (uint16_t)zpl_float_to_half(f); MC_CHECK(b == h, "half %04x comes back as %04x", h, b); }
}
static void s_doubles(void) {
    uint64_t e = mc_choose(2047); uint64_t M[140]; int n = 0; for (int i = 0; i < 52; i++) { M[n++] = 1ULL << i; M[n++] = (1ULL << 52) - (1ULL << i); } M[n++] = 0; M[n++] = 1; M[n++] = 0x5555555555555ULL; M[n++] = 0xAAAAAAAAAAAAAULL; M[n++] = 0xFFFFFFFFFFFFEULL; M[n++] = 0xFEDCBA9876543ULL; mc_trans((uint64_t)n * 8);
    for (int i = 0; i < n; i++) for (uint64_t s = 0; s < 2; s++) { uint64_t u = s << 63 | e << 52 | (M[i] & ((1ULL << 52) - 1)); double x; memcpy(&x, &u, 8);
        EQ(zpl_floor64(x), floor(x), "floor64(%.17g)", x); EQ(zpl_ceil64(x), ceil(x), "ceil64(%.17g)", x); EQ(zpl_round64(x), round(x), "round64(%.17g)", x); EQ(zpl_abs64(x), fabs(x), "abs64(%.17g)", x);
        EQ(zpl_sign64(x), x < 0 ? -1.0 : 1.0, "sign64(%.17g)", x); double y = zpl_copy_sign64(3.5, x); EQ(y, s ? -3.5 : 3.5, "copy_sign64(3.5, %.17g)", x); EQ(zpl_copy_sign64(x, -1.0), -fabs(x), "copy_sign64(%.17g, -1)", x); EQ(zpl_copy_sign64(x, 1.0), fabs(x), "copy_sign64(%.17g, 1)", x); }
}
/* operands on a quarter lattice: every intermediate result is exact */
static void s_mod(void) {
    int k = (int)mc_choose(161) - 80; double x = k * 0.25; mc_trans(161 * 6);
    for (int l = -80; l <= 80; l++) { double y = l * 0.25; EQ(zpl_copy_sign((float)x, (float)y), copysign(x, y), "copy_sign(%g, %g)", x, y);
        double df = zpl_angle_diff((float)x, (float)y), w = remainder(y - x, 2 * M_PI); if (fabs(fabs(w) - M_PI) > 1e-4) MC_CHECK(fabs(df - w) < 5e-5, "the turn from angle %g to %g is %.9g, not %.9g", x, y, w, df); MC_CHECK(fabs(df) <= M_PI + 1e-5, "turn of %.9g", df);
        if (!l) continue; float m = zpl_mod((float)x, (float)y); double m64 = zpl_mod64(x, y), want = fmod(x, y);
        EQ(m, want, "mod(%g, %g)", x, y); EQ(m64, want, "mod64(%g, %g)", x, y);
        float r = zpl_remainder((float)x, (float)y); double r64 = zpl_remainder64(x, y), q = (x - r) / y, q64 = (x - r64) / y; MC_CHECK(fabs(r) <= fabs(y) / 2 && q == nearbyint(q), "remainder(%g, %g) = %g", x, y, r); MC_CHECK(fabs(r64) <= fabs(y) / 2 && q64 == nearbyint(q64), "remainder64(%g, %g) = %g", x, y, r64); }
}
static void s_mod_any(void) { /* operands that round: the remainder is within rounding of a multiple, never out of range */
    static const double V[] = { 0.1, 0.3, 1.0 / 3, 0.7, 1.1, 2.9999, 3.1415926, 6.2831855, 10.01, 99.9, 1000.3, 1e-3, 1e-6, 123456.7, 16777215, 5e-7 }; double x = V[mc_choose(16)] * (mc_choose(2) ? -1 : 1), y = V[mc_choose(16)] * (mc_choose(2) ? -1 : 1); mc_trans(2);
    float fx = (float)x, fy = (float)y; if (fabs(x / y) > 1e6) mc_prune(); float m = zpl_mod(fx, fy); double tol = 4e-7 * fabs(x) + 1e-12, w = fmod(fx, fy), d = fabs(m - w); if (fabs(d - fabs(fy)) < d) d = fabs(d - fabs(fy)); MC_CHECK(d <= tol, "mod(%.9g, %.9g) = %.9g, not %.9g", fx, fy, m, w); MC_CHECK(fabs(m) <= fabs(fy) * (1 + 1e-6), "mod(%.9g, %.9g) = %.9g", fx, fy, m); MC_CHECK(m == 0 || fabs(m) <= tol || (m < 0) == (fx < 0), "mod(%.9g, %.9g) = %.9g has the other sign", fx, fy, m);
    double m64 = zpl_mod64(x, y), w64 = fmod(x, y); d = fabs(m64 - w64); if (fabs(d - fabs(y)) < d) d = fabs(d - fabs(y)); MC_CHECK(d <= 1e-15 * fabs(x) * 4 + 1e-22, "mod64(%.17g, %.17g) = %.17g, not %.17g", x, y, m64, w64);
}
static void s_scalar(void) {
    int k = (int)mc_choose(801) - 400; float x = (float)(k * 0.01); double d = x; mc_trans(30); mc_log("x = %g\n", d);
    NEAR(zpl_sin(x), sin(d), 1, "sin"); NEAR(zpl_cos(x), cos(d), 1, "cos"); if (fabs(cos(d)) > 0.05) NEAR(zpl_tan(x), tan(d), 40, "tan"); NEAR(zpl_arctan(x), atan(d), 1, "arctan"); NEAR(zpl_exp(x), exp(d), 0, "exp"); NEAR(zpl_exp2(x), exp2(d), 0, "exp2");
    if (fabs(d) <= 1) { NEAR(zpl_arcsin(x), asin(d), 1, "arcsin"); NEAR(zpl_arccos(x), acos(d), 1, "arccos"); MC_CHECK(fabs(zpl_fast_exp(x) - exp(d)) < 3e-3, "fast_exp(%g) = %g", d, zpl_fast_exp(x)); MC_CHECK(fabs(zpl_fast_exp2(x) - exp2(d)) < 1e-3, "fast_exp2(%g) = %g", d, zpl_fast_exp2(x)); }
    if (d > 0) { NEAR(zpl_sqrt(x), sqrt(d), 0, "sqrt"); NEAR(zpl_rsqrt(x), 1 / sqrt(d), 0, "rsqrt"); MC_CHECK(fabs(zpl_quake_rsqrt(x) * sqrt(d) - 1) < 1e-5, "quake_rsqrt(%g) = %g", d, zpl_quake_rsqrt(x)); NEAR(zpl_log(x), log(d), 1, "log"); NEAR(zpl_log2(x), log2(d), 1, "log2"); }
    for (int l = -20; l <= 20; l++) { float y = (float)(l * 0.37); NEAR(zpl_hypot(x, y), hypot(d, y), 0, "hypot(%g, %g)", d, y); NEAR(zpl_arctan2(x, y), atan2(d, y), 3, "arctan2(%g, %g)", d, y); if (d > 0) NEAR(zpl_pow(x, y), pow(d, y), 0, "pow(%g, %g)", d, y); MC_CHECK(zpl_copy_sign(x, y) == copysignf(x, y), "copy_sign"); }
    NEAR(zpl_to_radians((float)k), k * M_PI / 180, 0, "to_radians(%d)", k); NEAR(zpl_to_degrees(x), d * 180 / M_PI, 0, "to_degrees"); EQ(zpl_sign(x), x >= 0 ? 1 : -1, "sign"); EQ(zpl_sign0(x), (x > 0) - (x < 0), "sign0"); { volatile int t = 1; EQ(zpl_sign0(t ? x : 2 * x), (x > 0) - (x < 0), "sign0 of a conditional expression"); EQ(zpl_sign(t ? x : 2 * x), x >= 0 ? 1 : -1, "sign of a conditional expression"); EQ(zpl_square(x - t), (x - t) * (x - t), "square of a difference"); EQ(zpl_cube(x - t), (x - t) * (x - t) * (x - t), "cube of a difference"); } EQ(zpl_square(x), x * x, "square"); EQ(zpl_cube(x), x * x * x, "cube");
    for (int l = -6; l <= 6; l++) for (int m = -6; m <= 6; m++) { float a = (float)l, b = (float)m * 1.5f; NEAR(zpl_lerp(a, b, x), a + (b - (double)a) * d, fabs(a) * (1 + fabs(d)) + fabs(b * d), "lerp(%g, %g, %g)", a, b, d); if (a == b) continue; double t = (d - a) / (b - (double)a); NEAR(zpl_unlerp(x, a, b), t, fabs(t) + 4, "unlerp(%g, %g, %g)", d, a, b);
            if (t >= 0 && t <= 1) { MC_CHECK(fabs(zpl_smooth_step(a, b, x) - t * t * (3 - 2 * t)) < 2e-5, "smooth_step(%g, %g, %g)", a, b, d); MC_CHECK(fabs(zpl_smoother_step(a, b, x) - t * t * t * (t * (6 * t - 15) + 10)) < 5e-5, "smoother_step(%g, %g, %g)", a, b, d); } }
    if (k == -400) { NEAR(ZPL_TAU, 2 * M_PI, 0, "ZPL_TAU"); NEAR(ZPL_PI, M_PI, 0, "ZPL_PI"); NEAR(ZPL_ONE_OVER_TAU, 0.5 / M_PI, 0, "ZPL_ONE_OVER_TAU"); NEAR(ZPL_ONE_OVER_PI, 1 / M_PI, 0, "ZPL_ONE_OVER_PI"); NEAR(ZPL_TAU_OVER_2, M_PI, 0, "ZPL_TAU_OVER_2"); NEAR(ZPL_TAU_OVER_4, M_PI / 2, 0, "ZPL_TAU_OVER_4"); NEAR(ZPL_TAU_OVER_8, M_PI / 4, 0, "ZPL_TAU_OVER_8");
        NEAR(ZPL_E, M_E, 0, "ZPL_E"); NEAR(ZPL_SQRT_TWO, sqrt(2), 0, "ZPL_SQRT_TWO"); NEAR(ZPL_SQRT_THREE, sqrt(3), 0, "ZPL_SQRT_THREE"); NEAR(ZPL_SQRT_FIVE, sqrt(5), 0, "ZPL_SQRT_FIVE"); NEAR(ZPL_LOG_TWO, log(2), 0, "ZPL_LOG_TWO"); NEAR(ZPL_LOG_TEN, log(10), 0, "ZPL_LOG_TEN"); NEAR(ZPL_TWO_THIRDS, 2.0 / 3, 0, "ZPL_TWO_THIRDS"); EQ(ZPL_EPSILON, FLT_EPSILON, "ZPL_EPSILON"); }
}

/* ---- vectors ---- */
static const float LV[] = { 0, 1, -1, 2, -3, 0.5f, 0.1f, -7.3f };
static void vload(float *v, int n, int nv) { for (int i = 0; i < n; i++) v[i] = LV[mc_choose((uint32_t)nv)]; }
static double dotd(const float *a, const float *b, int n) { double r = 0; for (int i = 0; i < n; i++) r += (double)a[i] * b[i]; return r; }
static double dota(const float *a, const float *b, int n) { double r = 0; for (int i = 0; i < n; i++) r += fabs((double)a[i] * b[i]); return r; }
#define VSUITE(D, NV1) static void s_vec##D(void) { \
    float a[D], b[D]; vload(a, D, NV1); float sv[] = { 1, -2, 0.5f, 3.3f }; zpl_vec##D va = zpl_vec##D##fv(a), vz = zpl_vec##D##f_zero(); for (int i = 0; i < D; i++) { EQ(va.e[i], a[i], "vec" #D "fv"); EQ(vz.e[i], 0, "vec" #D "f_zero"); } \
    int tot = 1; for (int i = 0; i < D; i++) tot *= NV1; for (int c = 0; c < tot; c++) { int q = c; for (int i = 0; i < D; i++) { b[i] = LV[q % NV1]; q /= NV1; } zpl_vec##D vb = zpl_vec##D##fv(b), r, s; mc_trans(24); \
        NEAR(zpl_vec##D##_dot(va, vb), dotd(a, b, D), dota(a, b, D), "vec" #D "_dot"); \
        zpl_vec##D##_add(&r, va, vb); s = va; zpl_vec##D##_addeq(&s, vb); for (int i = 0; i < D; i++) { EQ(r.e[i], a[i] + b[i], "vec" #D "_add"); EQ(s.e[i], a[i] + b[i], "vec" #D "_addeq"); } \
        zpl_vec##D##_sub(&r, va, vb); s = va; zpl_vec##D##_subeq(&s, vb); for (int i = 0; i < D; i++) { EQ(r.e[i], a[i] - b[i], "vec" #D "_sub"); EQ(s.e[i], a[i] - b[i], "vec" #D "_subeq"); } \
        s = va; zpl_vec##D##_add(&s, s, vb); r = vb; zpl_vec##D##_sub(&r, va, r); for (int i = 0; i < D; i++) { EQ(s.e[i], a[i] + b[i], "vec" #D "_add in place"); EQ(r.e[i], a[i] - b[i], "vec" #D "_sub in place"); } s = va; zpl_vec##D##_addeq(&s, s); for (int i = 0; i < D; i++) EQ(s.e[i], a[i] + a[i], "vec" #D "_addeq itself"); \
        float t = sv[c & 3] * b[0]; if (t) { zpl_vec##D##_mul(&r, va, t); s = va; zpl_vec##D##_muleq(&s, t); for (int i = 0; i < D; i++) { NEAR(r.e[i], (double)a[i] * t, 0, "vec" #D "_mul"); EQ(s.e[i], r.e[i], "vec" #D "_muleq"); } zpl_vec##D##_div(&r, va, t); s = va; zpl_vec##D##_diveq(&s, t); for (int i = 0; i < D; i++) { NEAR(r.e[i], (double)a[i] / t, 0, "vec" #D "_div"); EQ(s.e[i], r.e[i], "vec" #D "_diveq"); } \
            s = va; zpl_vec##D##_diveq(&s, t); for (int i = 0; i < D; i++) NEAR(s.e[i], (double)a[i] / t, 0, "vec" #D "_diveq"); \
            zpl_vec##D##_lerp(&r, va, vb, t); s = va; zpl_vec##D##_lerp(&s, s, vb, t); for (int i = 0; i < D; i++) { NEAR(r.e[i], a[i] + ((double)b[i] - a[i]) * t, fabs(a[i]) + fabs(((double)b[i] - a[i]) * t), "vec" #D "_lerp"); EQ(s.e[i], r.e[i], "vec" #D "_lerp in place"); } } \
        double m2 = dotd(b, b, D), mag = sqrt(m2); NEAR(zpl_vec##D##_mag2(vb), m2, m2, "vec" #D "_mag2"); NEAR(zpl_vec##D##_mag(vb), mag, mag, "vec" #D "_mag"); \
        if (mag > 0) { zpl_vec##D##_norm(&r, vb); zpl_vec##D##_norm0(&s, vb); for (int i = 0; i < D; i++) { NEAR(r.e[i], b[i] / mag, 1, "vec" #D "_norm"); NEAR(s.e[i], b[i] / mag, 1, "vec" #D "_norm0"); } r = vb; zpl_vec##D##_norm(&r, r); for (int i = 0; i < D; i++) NEAR(r.e[i], b[i] / mag, 1, "vec" #D "_norm in place"); } else { zpl_vec##D##_norm0(&s, vb); for (int i = 0; i < D; i++) EQ(s.e[i], 0, "vec" #D "_norm0 of zero"); } \
        vec##D##_more(va, vb, a, b); } }
static void vec2_more(zpl_vec2 a, zpl_vec2 b, const float *x, const float *y) {
    float c; zpl_vec2_cross(&c, a, b); NEAR(c, (double)x[0] * y[1] - (double)y[0] * x[1], fabs(x[0] * y[1]) + fabs(y[0] * x[1]), "vec2_cross"); EQ(zpl_vec2_max(a), fmax(x[0], x[1]), "vec2_max"); zpl_vec2 f = zpl_vec2f(x[0], y[1]); MC_CHECK(f.x == x[0] && f.y == y[1], "vec2f");
    for (int i = 0; i < 3; i++) { zpl_vec2 p = zpl_vec2f(LV[i], LV[i + 3]); double w = ((double)x[0] - p.x) * ((double)y[1] - p.y) - ((double)y[0] - p.x) * ((double)x[1] - p.y); NEAR(zpl_vec2_side(p, a, b), w, 120, "vec2_side"); }
    if (b.y >= 0.0001f) NEAR(zpl_vec2_aspect_ratio(b), (double)y[0] / y[1], 0, "vec2_aspect_ratio"); else if (b.y <= 0) EQ(zpl_vec2_aspect_ratio(b), 0, "vec2_aspect_ratio");
    double m = hypot(y[0], y[1]); if (m > 0) { zpl_vec2 n, r, e; zpl_vec2_norm(&n, b); zpl_vec2_reflect(&r, a, n); double k = 2 * (x[0] * y[0] + (double)x[1] * y[1]) / m / m; for (int i = 0; i < 2; i++) NEAR(r.e[i], x[i] - k * y[i], 60, "vec2_reflect"); double mi = hypot(x[0], x[1]);
        if (mi > 0) for (int q = 0; q < 4; q++) { zpl_vec2 in; zpl_vec2_norm(&in, a); double eta = ((double[]){ 1, 0.5, 1.5, 0.75 })[q], dv = (x[0] * y[0] + (double)x[1] * y[1]) / m / mi, kk = 1 - eta * eta * (1 - dv * dv); if (fabs(kk) < 1e-4) continue; zpl_vec2_refract(&e, in, n, (float)eta); for (int i = 0; i < 2; i++) { double w = kk < 0 ? 0 : eta * x[i] / mi - (eta * dv + sqrt(kk)) * y[i] / m; MC_CHECK(fabs(e.e[i] - w) < 3e-4, "refracting (%g, %g) at normal (%g, %g) with ratio %g: component %d is %.7g, not %.7g", x[0] / mi, x[1] / mi, y[0] / m, y[1] / m, eta, i, e.e[i], w); } } }
}
static void vec3_more(zpl_vec3 a, zpl_vec3 b, const float *x, const float *y) {
    zpl_vec3 c, d = a, e = b; zpl_vec3_cross(&c, a, b); for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; NEAR(c.e[i], (double)x[j] * y[k] - (double)x[k] * y[j], fabs(x[j] * y[k]) + fabs(x[k] * y[j]), "vec3_cross"); } zpl_vec3_cross(&d, d, b); zpl_vec3_cross(&e, a, e); for (int i = 0; i < 3; i++) { EQ(d.e[i], c.e[i], "vec3_cross in place"); EQ(e.e[i], c.e[i], "vec3_cross in place"); }
    EQ(zpl_vec3_max(a), fmax(fmax(x[0], x[1]), x[2]), "vec3_max"); c = zpl_vec3f(x[0], y[1], x[2]); MC_CHECK(c.x == x[0] && c.y == y[1] && c.z == x[2] && c.e[2] == c.b && c.xy.y == y[1], "vec3f");
    double m = sqrt(dotd(y, y, 3)), mi = sqrt(dotd(x, x, 3)); if (m > 0) { zpl_vec3 n, r; zpl_vec3_norm(&n, b); zpl_vec3_reflect(&r, a, n); double k = 2 * dotd(x, y, 3) / m / m; for (int i = 0; i < 3; i++) NEAR(r.e[i], x[i] - k * y[i], 60, "vec3_reflect");
        if (mi > 0) for (int q = 0; q < 4; q++) { zpl_vec3 in; zpl_vec3_norm(&in, a); double eta = ((double[]){ 1, 0.5, 1.5, 0.75 })[q], dv = dotd(x, y, 3) / m / mi, kk = 1 - eta * eta * (1 - dv * dv); if (fabs(kk) < 1e-4) continue; zpl_vec3_refract(&r, in, n, (float)eta); for (int i = 0; i < 3; i++) { double w = kk < 0 ? 0 : eta * x[i] / mi - (eta * dv + sqrt(kk)) * y[i] / m; MC_CHECK(fabs(r.e[i] - w) < 3e-4, "refracting (%g, %g, %g) at (%g, %g, %g) with ratio %g: component %d is %.7g, not %.7g", x[0] / mi, x[1] / mi, x[2] / mi, y[0] / m, y[1] / m, y[2] / m, eta, i, r.e[i], w); } } }
    if (y[0] == 1) { for (int l = 0; l <= 4; l++) { double t = l * 0.25, t2 = t * t, t3 = t2 * t; zpl_vec3 v0 = zpl_vec3f(2, -1, 0.5f), v1 = zpl_vec3f(-3, 1, 4), r, dr; zpl_vec2 r2, d2; zpl_vec3_cslerp(&r, a, v0, b, v1, (float)t); zpl_vec3_dcslerp(&dr, a, v0, b, v1, (float)t); zpl_vec2_cslerp(&r2, a.xy, v0.xy, b.xy, v1.xy, (float)t); zpl_vec2_dcslerp(&d2, a.xy, v0.xy, b.xy, v1.xy, (float)t);
            for (int i = 0; i < 3; i++) { double w = (2 * t3 - 3 * t2 + 1) * x[i] + (t3 - 2 * t2 + t) * v0.e[i] + (3 * t2 - 2 * t3) * y[i] + (t3 - t2) * v1.e[i], dw = (6 * t2 - 6 * t) * x[i] + (3 * t2 - 4 * t + 1) * v0.e[i] + (6 * t - 6 * t2) * y[i] + (3 * t2 - 2 * t) * v1.e[i]; NEAR(r.e[i], w, 30, "vec3_cslerp at %g", t); NEAR(dr.e[i], dw, 60, "vec3_dcslerp at %g", t); if (i < 2) { NEAR(r2.e[i], w, 30, "vec2_cslerp at %g", t); NEAR(d2.e[i], dw, 60, "vec2_dcslerp at %g", t); } } } }
}
static void vec4_more(zpl_vec4 a, zpl_vec4 b, const float *x, const float *y) { zpl_vec4 c = zpl_vec4f(x[0], y[1], x[2], y[3]); MC_CHECK(c.x == x[0] && c.y == y[1] && c.z == x[2] && c.w == y[3] && c.xyz.z == x[2] && c.zw.y == y[3], "vec4f"); }
VSUITE(2, 8)
VSUITE(3, 6)
VSUITE(4, 4)

/* ---- matrices: column vectors, m[column][row] ---- */
static void ref_mul(int n, const float *a, const float *b, double *o, double *sc) { for (int c = 0; c < n; c++) for (int r = 0; r < n; r++) { double s = 0, m = 0; for (int k = 0; k < n; k++) { double p = (double)a[k * n + r] * b[c * n + k]; s += p; m += fabs(p); } o[c * n + r] = s; sc[c * n + r] = m; } }
static double ref_det(int n, const double *m) { double a[16], d = 1; memcpy(a, m, sizeof(double) * (size_t)(n * n)); for (int c = 0; c < n; c++) { int p = c; for (int r = c + 1; r < n; r++) if (fabs(a[c * n + r]) > fabs(a[c * n + p])) p = r; if (fabs(a[c * n + p]) < 1e-12) return 0; if (p != c) { d = -d; for (int k = 0; k < n; k++) { double t = a[k * n + c]; a[k * n + c] = a[k * n + p]; a[k * n + p] = t; } } d *= a[c * n + c]; for (int r = c + 1; r < n; r++) { double f = a[c * n + r] / a[c * n + c]; for (int k = c; k < n; k++) a[k * n + r] -= f * a[k * n + c]; } } return d; }
typedef struct { int n; void (*id)(void *), (*tr)(void *), (*mul)(void *, void *, void *), (*mv)(void *, void *, const float *), (*inv)(void *, void *), (*copy)(void *, void *); float (*det)(void *); } mops;
#define MOPS(D) static void id##D(void *m) { zpl_mat##D##_identity(m); } static void tr##D(void *m) { zpl_mat##D##_transpose(m); } static void mul##D(void *o, void *a, void *b) { zpl_mat##D##_mul(o, a, b); } static void mv##D(void *o, void *m, const float *v) { zpl_mat##D##_mul_vec##D(o, m, zpl_vec##D##fv((float *)v)); } static void inv##D(void *o, void *m) { zpl_mat##D##_inverse(o, m); } static void cp##D(void *o, void *m) { zpl_mat##D##_copy(o, m); }
MOPS(2) MOPS(3) MOPS(4)
static float det2(void *m) { return zpl_mat2_determinate(m); } static float det3(void *m) { return zpl_mat3_determinate(m); }
static const mops MO[3] = { { 2, id2, tr2, mul2, mv2, inv2, cp2, det2 }, { 3, id3, tr3, mul3, mv3, inv3, cp3, det3 }, { 4, id4, tr4, mul4, mv4, inv4, cp4, NULL } };
static char *mtext(int n, const float *m) { static char b[2][400]; static int w; w ^= 1; int l = 0; for (int i = 0; i < n * n; i++) l += snprintf(b[w] + l, sizeof b[w] - (size_t)l, "%s%g", i ? i % n ? "," : " | " : "", m[i]); return b[w]; }
#define G 77.25f
static void one_matrix(const mops *o, const float *src) {
    int n = o->n, nn = n * n; float a[20], r[20], s[20], v[4] = { 1, -2, 3, 0.5f }; for (int i = 0; i < 20; i++) a[i] = r[i] = s[i] = G; memcpy(a, src, sizeof(float) * (size_t)nn); mc_trans(6);
    o->copy(r, a); for (int i = 0; i < nn; i++) EQ(r[i], a[i], "mat%d_copy", n); for (int i = nn; i < 20; i++) EQ(r[i], G, "mat%d_copy writes past the matrix", n);
    o->tr(r); for (int i = 0; i < nn; i++) EQ(r[i], a[(i % n) * n + i / n], "mat%d_transpose of %s", n, mtext(n, a)); for (int i = nn; i < 20; i++) EQ(r[i], G, "mat%d_transpose writes past the matrix", n);
    o->mv(s, a, v); for (int i = 0; i < n; i++) { double w = 0, sc = 0; for (int k = 0; k < n; k++) { w += (double)a[k * n + i] * v[k]; sc += fabs((double)a[k * n + i] * v[k]); } NEAR(s[i], w, sc, "mat%d_mul_vec of %s, component %d", n, mtext(n, a), i); } for (int i = n; i < 20; i++) EQ(s[i], G, "mat%d_mul_vec writes past the vector", n);
    double d[16], big = 0; for (int i = 0; i < nn; i++) { d[i] = a[i]; if (fabs(d[i]) > big) big = fabs(d[i]); } double det = ref_det(n, d), sc = pow(big, n) * 24; if (o->det) NEAR(o->det(a), det, sc, "mat%d_determinate of %s", n, mtext(n, a));
    if (fabs(det) < sc * 1e-3 || det == 0) return; for (int i = 0; i < 20; i++) r[i] = s[i] = G; o->inv(r, a); for (int i = nn; i < 20; i++) EQ(r[i], G, "mat%d_inverse writes past the matrix", n); double p[16], ps[16]; for (int k = 0; k < 2; k++) { if (k) ref_mul(n, r, a, p, ps); else ref_mul(n, a, r, p, ps); for (int i = 0; i < nn; i++) if (!(fabs(p[i] - (i % (n + 1) == 0)) <= 3e-5 * (ps[i] + 1))) { mc_log("inverse %s\n", mtext(n, r)); mc_fail("%s %s is not the identity: element %d is %.7g", mtext(n, a), k ? "multiplied by its inverse from the left" : "times its inverse", i, p[i]); } }
    memcpy(s, a, sizeof s); o->inv(s, s); for (int i = 0; i < nn; i++) EQ(s[i], r[i], "inverting %s in place differs from inverting into another matrix", mtext(n, a));
}
static void two_matrices(const mops *o, const float *a0, const float *b0) {
    int n = o->n, nn = n * n; float a[20], b[20], r[20]; for (int i = 0; i < 20; i++) a[i] = b[i] = r[i] = G; memcpy(a, a0, sizeof(float) * (size_t)nn); memcpy(b, b0, sizeof(float) * (size_t)nn); double w[16], sc[16]; ref_mul(n, a, b, w, sc); mc_trans(4);
    o->mul(r, a, b); for (int i = 0; i < nn; i++) NEAR(r[i], w[i], sc[i], "mat%d_mul of %s by %s, element %d", n, mtext(n, a), mtext(n, b), i); for (int i = nn; i < 20; i++) EQ(r[i], G, "mat%d_mul writes past the matrix", n); for (int i = 0; i < nn; i++) { EQ(a[i], a0[i], "mat%d_mul changes its operand", n); EQ(b[i], b0[i], "mat%d_mul changes its operand", n); }
    float x[20]; memcpy(x, a, sizeof x); o->mul(x, x, b); for (int i = 0; i < nn; i++) EQ(x[i], r[i], "mat%d_mul into its left operand", n); memcpy(x, b, sizeof x); o->mul(x, a, x); for (int i = 0; i < nn; i++) EQ(x[i], r[i], "mat%d_mul into its right operand", n);
    ref_mul(n, a, a, w, sc); memcpy(x, a, sizeof x); o->mul(x, x, x); for (int i = 0; i < nn; i++) NEAR(x[i], w[i], sc[i], "mat%d_mul of a matrix by itself in place", n); o->mul(x, a, a); for (int i = 0; i < nn; i++) NEAR(x[i], w[i], sc[i], "mat%d_mul of a matrix by itself", n);
}
static const float MV[] = { 0, 1, -1, 2, 0.3f, -5.7f };
static void mat_tail(const mops *o, float *m, int from, int nv) { int nn = o->n * o->n, tot = 1; for (int i = from; i < nn; i++) tot *= nv; for (int c = 0; c < tot; c++) { int q = c; for (int i = from; i < nn; i++) { m[i] = MV[q % nv]; q /= nv; } one_matrix(o, m); } }
static void s_mat2(void) { float m[4]; for (int i = 0; i < 2; i++) m[i] = MV[mc_choose(6)]; mat_tail(&MO[0], m, 2, 6); }
static void s_mat3(void) { float m[9]; int nv = mc_thorough ? 4 : 3; for (int i = 0; i < 4; i++) m[i] = MV[mc_choose((uint32_t)nv)]; mat_tail(&MO[1], m, 4, nv); }
static void s_mat4(void) { float m[16]; int nv = mc_thorough ? 3 : 2; static const float W[] = { 0, 1, -1 }; for (int i = 0; i < 7; i++) m[i] = W[mc_choose((uint32_t)nv)]; mat_tail(&MO[2], m, 7, nv); }
/* a fixed set of matrices with every kind of entry: all units, permutations, triangular and dense ones */
static int mset(int n, float (*o)[16]) { int nn = n * n, k = 0; for (int i = 0; i < nn; i++) { memset(o[k], 0, 64); o[k++][i] = 1; } for (int v = 0; v < 12; v++) { unsigned h = 12345u + 977u * (unsigned)v; for (int i = 0; i < nn; i++) { h = h * 1664525u + 1013904223u; o[k][i] = v < 4 ? (float)((int)(h >> 24) % 7 - 3) : v < 8 ? (float)((int)(h >> 16) % 2000 - 1000) * 0.0137f : (i % n >= i / n ? 1 : 0) * (float)(1 + (h >> 29)); } for (int i = 0; i < n; i++) if (v >= 4) o[k][i * n + i] += 17; k++; } return k; }
static void s_pairs(void) { const mops *o = &MO[mc_choose(3)]; float st[30][16]; int k = mset(o->n, st); int i = (int)mc_choose((uint32_t)k); one_matrix(o, st[i]); for (int j = 0; j < k; j++) two_matrices(o, st[i], st[j]);
    float e[20]; for (int q = 0; q < 20; q++) e[q] = G; o->id(e); for (int q = 0; q < 20; q++) EQ(e[q], q >= o->n * o->n ? G : q % (o->n + 1) == 0, "mat%d_identity", o->n);
    float a[16]; memcpy(a, st[i], 64); MC_CHECK((void *)zpl_mat2_f((zpl_float2 *)a) == a && (void *)zpl_mat3_f((zpl_float3 *)a) == a && (void *)zpl_mat4_f((zpl_float4 *)a) == a && (void *)zpl_float22_4(a) == a && (void *)zpl_float33_9(a) == a && (void *)zpl_float44_16(a) == a && (void *)zpl_mat2_v((zpl_vec2 *)a) == a && (void *)zpl_mat3_v((zpl_vec3 *)a) == a && (void *)zpl_mat4_v((zpl_vec4 *)a) == a && (void *)zpl_float22_v((zpl_vec2 *)a) == a && (void *)zpl_float33_v((zpl_vec3 *)a) == a && (void *)zpl_float44_v((zpl_vec4 *)a) == a, "the views of a matrix"); }
/* the whole product table on small lattices: 2x2 exhaustively, 3x3 and 4x4 over 0/1 entries of the left operand against the set */
static void s_prod(void) { int w = (int)mc_choose(3); const mops *o = &MO[w]; float a[16], st[30][16]; int k = mset(o->n, st); if (w == 0) { for (int i = 0; i < 4; i++) a[i] = MV[mc_choose(5)]; float b[4]; for (int c = 0; c < 625; c++) { int q = c; for (int i = 0; i < 4; i++) { b[i] = MV[q % 5]; q /= 5; } two_matrices(o, a, b); } } else { int nn = w == 1 ? 9 : 16; uint32_t hi = mc_choose(w == 1 ? 8 : 256); int lo = w == 1 ? 64 : mc_thorough ? 256 : 16; for (int l = 0; l < lo; l++) { uint32_t bits = w == 1 ? hi * 64 + (uint32_t)l : (uint32_t)(l * 16 + l) % 256 + hi * 256; for (int i = 0; i < nn; i++) a[i] = (float)(bits >> i & 1); for (int j = 0; j < k; j += w == 1 ? 1 : 3) two_matrices(o, a, st[j]); } } }

/* ---- transforms ---- */
static const float AX[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 1, 1, 0 }, { 0, -1, 1 }, { 1, 2, 3 }, { -2, 0.5f, 1 }, { 3, -3, 3 }, { 0.1f, 0.2f, -0.1f } };
static const double AN[] = { 0, 0.001, 0.3, 0.785398163, 1, 1.57079633, 2, 2.5, 3.0, 3.14159265, 4, 5.5, 6.2, -0.4, -1.57079633, -3, 7.3 };
static void ref_rot(const float *ax, double an, const double *v, double *o) { double l = sqrt(dotd(ax, ax, 3)), k[3], c = cos(an), s = sin(an), kv = 0; for (int i = 0; i < 3; i++) { k[i] = ax[i] / l; kv += k[i] * v[i]; } for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, q = (i + 2) % 3; o[i] = v[i] * c + (k[j] * v[q] - k[q] * v[j]) * s + k[i] * kv * (1 - c); } }
static void apply(zpl_mat4 *m, const double *v, double w, double *o) { for (int r = 0; r < 4; r++) { o[r] = m->col[3].e[r] * w; for (int c = 0; c < 3; c++) o[r] += m->col[c].e[r] * v[c]; } }
static void s_xform(void) {
    static const double P[][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, -2, 3 } }; const float *ax = AX[mc_choose(10)]; double an = AN[mc_choose(17)]; zpl_vec3 av = zpl_vec3f(ax[0], ax[1], ax[2]); zpl_mat4 m[6], base, t; mc_trans(14); mc_log("axis (%g,%g,%g) angle %g\n", ax[0], ax[1], ax[2], an);
    memset(m, 0x7f, sizeof m); zpl_mat4_axis_angle(&m[0], av, (float)an); zpl_mat4_to_rotate(&m[1], av, (float)an); zpl_mat4_to_translate(&m[2], av); zpl_mat4_to_scale(&m[3], av); zpl_mat4_to_scalef(&m[4], (float)an); zpl_quat q = zpl_quat_axis_angle(av, (float)an); zpl_mat4_from_quat(&m[5], q);
    for (int p = 0; p < 5; p++) for (int k = 0; k < 6; k++) { double o[4], w[4]; apply(&m[k], P[p], 1, o); w[3] = 1; if (k < 2 || k == 5) ref_rot(ax, an, P[p], w); else for (int i = 0; i < 3; i++) w[i] = k == 2 ? P[p][i] + ax[i] : k == 3 ? P[p][i] * ax[i] : P[p][i] * an; for (int i = 0; i < 4; i++) NEAR(o[i], w[i], 8, "%s: component %d", ((const char *[]){ "mat4_axis_angle", "mat4_to_rotate", "mat4_to_translate", "mat4_to_scale", "mat4_to_scalef", "mat4_from_quat" })[k], i); }
    float st[30][16]; int n = mset(4, st); for (int j = 0; j < n; j += 2) { memcpy(&base, st[j], 64); for (int k = 0; k < 4; k++) { double w[16], sc[16]; ref_mul(4, st[j], (float *)&m[k ? k + 1 : 0], w, sc); t = base; if (k == 0) zpl_mat4_rotate(&t, av, (float)an); else if (k == 1) zpl_mat4_translate(&t, av); else if (k == 2) zpl_mat4_scale(&t, av); else zpl_mat4_scalef(&t, (float)an); for (int i = 0; i < 16; i++) NEAR(t.e[i], w[i], sc[i], "%s in place", ((const char *[]){ "mat4_rotate", "mat4_translate", "mat4_scale", "mat4_scalef" })[k]); } }
    zpl_vec3 rv; for (int p = 0; p < 5; p++) { double w[3]; ref_rot(ax, an, P[p], w); zpl_quat_rotate_vec3(&rv, q, zpl_vec3f((float)P[p][0], (float)P[p][1], (float)P[p][2])); for (int i = 0; i < 3; i++) NEAR(rv.e[i], w[i], 8, "quat_rotate_vec3"); }
    zpl_quat b; zpl_quat_from_mat4(&b, &m[0]); double dd = fabs(dotd(b.e, q.e, 4)); MC_CHECK(fabs(dd - 1) < 1e-5, "the quaternion of a rotation matrix is another rotation: (%g,%g,%g,%g) for (%g,%g,%g,%g)", b.x, b.y, b.z, b.w, q.x, q.y, q.z, q.w);
    for (int k = 0; k < 2; k++) { float scl = k ? 2.5f : 1; zpl_quat qs; zpl_quat_mulf(&qs, q, scl); double a = zpl_quat_angle(qs), ha = fabs(remainder(an, 4 * M_PI)); MC_CHECK(fabs(a - ha) < 1.5e-3, "the angle of a rotation by %g is %g", an, a); if (fabs(sin(an / 2)) > 0.1) { zpl_vec3 x; zpl_quat_axis(&x, qs); double l = sqrt(dotd(ax, ax, 3)), sg = sin(an / 2) < 0 ? -1 : 1; for (int i = 0; i < 3; i++) MC_CHECK(fabs(x.e[i] - sg * ax[i] / l) < 1e-4, "the axis of a rotation about (%g,%g,%g) of a quaternion of length %g has component %g", ax[0], ax[1], ax[2], scl, x.e[i]); } }
    mc_state(mc_hash(mc_hash(0, &m[0], 64), &m[5], 64));
}
static void s_proj(void) {
    static const double L[][2] = { { -1, 1 }, { 0, 800 }, { 600, 0 }, { -3, 5 }, { 2, 2.5 } }, Z[][2] = { { 0.1, 100 }, { 1, 2 }, { 0.5, 50 }, { 2, 1000 }, { 3, 4.5 } }, F[] = { 0.3, 0.785, 1.0, 1.5, 2.4 }, A[] = { 1, 0.5, 1.7777 };
    int dx = (int)mc_choose(2), kind = (int)mc_choose(4); double lo = dx ? 0 : -1; zpl_mat4 m; memset(&m, 0x7f, sizeof m); mc_trans(1); const double *z = Z[mc_choose(5)], *lr, *bt; double l, r, b, t, near = z[0], far = z[1];
    if (kind < 2) { lr = L[mc_choose(5)]; bt = L[mc_choose(5)]; l = lr[0], r = lr[1], b = bt[0], t = bt[1]; if (kind == 0) { (dx ? zpl_mat4_ortho2d_dx : zpl_mat4_ortho2d)(&m, (float)l, (float)r, (float)b, (float)t); near = dx ? 0 : -1; far = 1; } else (dx ? zpl_mat4_ortho3d_dx : zpl_mat4_ortho3d)(&m, (float)l, (float)r, (float)b, (float)t, (float)near, (float)far); mc_log("box %g %g %g %g %g %g\n", l, r, b, t, near, far);
        for (int c = 0; c < 27; c++) { double u = c % 3 * 0.5, v = c / 3 % 3 * 0.5, w = c / 9 * 0.5, p[3] = { l + (r - l) * u, b + (t - b) * v, -(near + (far - near) * w) }, o[4]; apply(&m, p, 1, o); NEAR(o[0], 2 * u - 1, 20, "x of the orthographic projection"); NEAR(o[1], 2 * v - 1, 20, "y of the orthographic projection"); NEAR(o[2], lo + (1 - lo) * w, 10, "depth %g of %g..%g is projected to %g", -p[2], near, far, o[2]); NEAR(o[3], 1, 0, "w of the orthographic projection"); } }
    else { double fov = F[mc_choose(5)], as = A[mc_choose(3)]; if (kind == 2) (dx ? zpl_mat4_perspective_dx : zpl_mat4_perspective)(&m, (float)fov, (float)as, (float)near, (float)far); else { (dx ? zpl_mat4_infinite_perspective_dx : zpl_mat4_infinite_perspective)(&m, (float)fov, (float)as, (float)near); far = 1e7; } double th = tan(fov / 2); mc_log("fov %g aspect %g %g..%g\n", fov, as, near, far);
        for (int c = 0; c < 45; c++) { double u = c % 3 - 1, v = c / 3 % 3 - 1, w = (double[]){ 0, 0.25, 0.5, 0.75, 1 }[c / 9], d = near + (far - near) * w, p[3] = { u * d * th * as, v * d * th, -d }, o[4]; apply(&m, p, 1, o); MC_CHECK(o[3] > 0, "w is %g", o[3]); double zz = o[2] / o[3]; NEAR(o[0] / o[3], u, 10, "x of the perspective projection"); NEAR(o[1] / o[3], v, 10, "y of the perspective projection"); MC_CHECK(zz >= lo - 1e-3 && zz <= 1 + 1e-3, "depth %g of %g..%g is projected to %g", d, near, far, zz); if (w == 0) MC_CHECK(fabs(zz - lo) < 1e-3, "the near plane (%g) is projected to depth %g", near, zz); if (w == 1) MC_CHECK(fabs(zz - 1) < 1e-3, "the far plane (%g) is projected to depth %g", far, zz);
            double n2 = near + (far - near) * 0.5; double want = kind == 2 ? lo + (1 - lo) * (far / (far - near)) * (1 - near / d) : lo + (1 - lo) * (1 - near / d); MC_CHECK(fabs(zz - want) < 1e-3, "depth %g is projected to %g, not %g", d, zz, want); (void)n2; } }
}
static void s_look(void) {
    static const float E[][3] = { { 0, 0, 0 }, { 1, 2, 3 }, { -4, 0, 2 }, { 0, 10, 0.5f } }; const float *e = E[mc_choose(4)], *dir = AX[mc_choose(10)], *up = AX[mc_choose(10)]; int lh = (int)mc_choose(2); double cr[3]; for (int i = 0; i < 3; i++) cr[i] = (double)dir[(i + 1) % 3] * up[(i + 2) % 3] - (double)dir[(i + 2) % 3] * up[(i + 1) % 3]; if (cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2] < 1e-4) mc_prune();
    zpl_vec3 ev = zpl_vec3f(e[0], e[1], e[2]), cv = zpl_vec3f(e[0] + dir[0], e[1] + dir[1], e[2] + dir[2]), uv = zpl_vec3f(up[0], up[1], up[2]); zpl_mat4 m; memset(&m, 0x7f, sizeof m); (lh ? zpl_mat4_look_at_lh : zpl_mat4_look_at)(&m, ev, cv, uv); mc_trans(1); double o[4], p[3] = { e[0], e[1], e[2] }, c[3] = { cv.x, cv.y, cv.z }, len = sqrt(dotd(dir, dir, 3)), u[3] = { up[0], up[1], up[2] };
    mc_log("eye (%g,%g,%g) direction (%g,%g,%g) up (%g,%g,%g)%s\n", e[0], e[1], e[2], dir[0], dir[1], dir[2], up[0], up[1], up[2], lh ? " left-handed" : ""); apply(&m, p, 1, o); for (int i = 0; i < 3; i++) MC_CHECK(fabs(o[i]) < 1e-4, "the eye is not at the origin: component %d is %g", i, o[i]); apply(&m, c, 1, o); MC_CHECK(fabs(o[0]) < 1e-4 && fabs(o[1]) < 1e-4 && fabs(o[2] - (lh ? len : -len)) < 1e-4, "the centre is seen at (%g,%g,%g)", o[0], o[1], o[2]); apply(&m, u, 0, o); MC_CHECK(fabs(o[0]) < 1e-4 && o[1] > 0, "up is seen as (%g,%g,%g)", o[0], o[1], o[2]);
    double d[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { d[i * 3 + j] = m.col[i].e[j]; double s = 0; for (int k = 0; k < 3; k++) s += (double)m.col[i].e[k] * m.col[j].e[k]; MC_CHECK(fabs(s - (i == j)) < 1e-5, "the view is not a rotation"); } MC_CHECK(fabs(ref_det(3, d) - 1) < 1e-4, "the view mirrors"); for (int i = 0; i < 4; i++) EQ(m.col[i].w, i == 3, "last row of the view");
}

/* ---- quaternions ---- */
static void hamilton(const float *a, const float *b, double *o) { o[0] = (double)a[3] * b[0] + (double)a[0] * b[3] + (double)a[1] * b[2] - (double)a[2] * b[1]; o[1] = (double)a[3] * b[1] - (double)a[0] * b[2] + (double)a[1] * b[3] + (double)a[2] * b[0]; o[2] = (double)a[3] * b[2] + (double)a[0] * b[1] - (double)a[1] * b[0] + (double)a[2] * b[3]; o[3] = (double)a[3] * b[3] - (double)a[0] * b[0] - (double)a[1] * b[1] - (double)a[2] * b[2]; }
static void s_quat(void) {
    float a[4], b[4]; vload(a, 4, 5); zpl_quat qa = zpl_quatfv(a), r, s, t; zpl_quat id = zpl_quat_identity(); MC_CHECK(id.x == 0 && id.y == 0 && id.z == 0 && id.w == 1, "quat_identity"); t = zpl_quatf(a[3], a[2], a[1], a[0]); for (int i = 0; i < 4; i++) EQ(t.e[i], a[3 - i], "quatf");
    for (int c = 0; c < 625; c++) { int q = c; for (int i = 0; i < 4; i++) { b[i] = LV[q % 5]; q /= 5; } zpl_quat qb = zpl_quatfv(b); double w[4], n2 = dotd(b, b, 4), sc = 40; mc_trans(16); hamilton(a, b, w);
        zpl_quat_mul(&r, qa, qb); s = qa; zpl_quat_muleq(&s, qb); t = qb; zpl_quat_mul(&t, qa, t); for (int i = 0; i < 4; i++) { NEAR(r.e[i], w[i], sc, "quat_mul"); EQ(s.e[i], r.e[i], "quat_muleq"); EQ(t.e[i], r.e[i], "quat_mul into its operand"); } t = qa; zpl_quat_muleq(&t, t); hamilton(a, a, w); for (int i = 0; i < 4; i++) NEAR(t.e[i], w[i], sc, "quat_muleq by itself");
        zpl_quat_add(&r, qa, qb); s = qa; zpl_quat_addeq(&s, qb); for (int i = 0; i < 4; i++) { EQ(r.e[i], a[i] + b[i], "quat_add"); EQ(s.e[i], a[i] + b[i], "quat_addeq"); } zpl_quat_sub(&r, qa, qb); s = qa; zpl_quat_subeq(&s, qb); for (int i = 0; i < 4; i++) { EQ(r.e[i], a[i] - b[i], "quat_sub"); EQ(s.e[i], a[i] - b[i], "quat_subeq"); }
        NEAR(zpl_quat_dot(qa, qb), dotd(a, b, 4), dota(a, b, 4), "quat_dot"); NEAR(zpl_quat_mag(qb), sqrt(n2), 0, "quat_mag"); zpl_quat_conj(&r, qb); s = qb; zpl_quat_conj(&s, s); for (int i = 0; i < 4; i++) { EQ(r.e[i], i < 3 ? -b[i] : b[i], "quat_conj"); EQ(s.e[i], r.e[i], "quat_conj in place"); } float f = b[0] * 1.7f; if (f) { zpl_quat_mulf(&r, qa, f); s = qa; zpl_quat_muleqf(&s, f); for (int i = 0; i < 4; i++) { NEAR(r.e[i], (double)a[i] * f, 0, "quat_mulf"); EQ(s.e[i], r.e[i], "quat_muleqf"); } zpl_quat_divf(&r, qa, f); s = qa; zpl_quat_diveqf(&s, f); for (int i = 0; i < 4; i++) { NEAR(r.e[i], (double)a[i] / f, 0, "quat_divf"); EQ(s.e[i], r.e[i], "quat_diveqf"); } }
        if (n2 > 0) { zpl_quat_norm(&r, qb); s = qb; zpl_quat_norm(&s, s); for (int i = 0; i < 4; i++) { NEAR(r.e[i], b[i] / sqrt(n2), 1, "quat_norm"); EQ(s.e[i], r.e[i], "quat_norm in place"); } zpl_quat_inverse(&r, qb); s = qb; zpl_quat_inverse(&s, s); float iv[4]; for (int i = 0; i < 4; i++) { double e = (i < 3 ? -b[i] : b[i]) / n2; iv[i] = (float)e; NEAR(r.e[i], e, 0, "quat_inverse"); EQ(s.e[i], r.e[i], "quat_inverse in place"); } hamilton(a, iv, w); zpl_quat_div(&r, qa, qb); s = qa; zpl_quat_diveq(&s, qb); for (int i = 0; i < 4; i++) { NEAR(r.e[i], w[i], 20, "quat_div"); EQ(s.e[i], r.e[i], "quat_diveq"); } t = qb; zpl_quat_diveq(&t, t); for (int i = 0; i < 4; i++) NEAR(t.e[i], i == 3, 4, "a quaternion divided by itself"); } }
}
static void s_euler(void) {
    double p = ((double[]){ -3, -2.2, -1.5, -0.7, -0.1, 0, 0.2, 0.9, 1.4, 1.9, 2.8 })[mc_choose(11)], y = ((double[]){ -1.5, -1.2, -0.8, -0.3, 0, 0.25, 0.6, 1.1, 1.5 })[mc_choose(9)], r = ((double[]){ -3, -2.2, -1.5, -0.7, -0.1, 0, 0.2, 0.9, 1.4, 1.9, 2.8 })[mc_choose(11)]; mc_trans(6); mc_log("pitch %g yaw %g roll %g\n", p, y, r); static const float X[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
    zpl_quat q = zpl_quat_euler_angles((float)p, (float)y, (float)r); for (int k = 0; k < 3; k++) { double v[3] = { k == 0, k == 1, k == 2 }, a[3], b[3], c[3]; ref_rot(X[2], r, v, a); ref_rot(X[0], p, a, b); ref_rot(X[1], y, b, c); zpl_vec3 o; zpl_quat_rotate_vec3(&o, q, zpl_vec3f((float)v[0], (float)v[1], (float)v[2])); for (int i = 0; i < 3; i++) NEAR(o.e[i], c[i], 4, "quat_euler_angles turns axis %d", k); }
    /* pitch, yaw and roll of rotations about one axis, and of the composition roll after yaw after pitch */
    zpl_quat qx = zpl_quat_axis_angle(zpl_vec3f(1, 0, 0), (float)p), qy = zpl_quat_axis_angle(zpl_vec3f(0, 1, 0), (float)y), qz = zpl_quat_axis_angle(zpl_vec3f(0, 0, 1), (float)r), t; zpl_quat_mul(&t, qz, qy); zpl_quat_mul(&t, t, qx);
    MC_CHECK(fabs(zpl_quat_pitch(qx) - p) < 1e-4 && fabs(zpl_quat_yaw(qx)) < 1e-3, "pitch of a pitch by %g is %g, its yaw is %g", p, zpl_quat_pitch(qx), zpl_quat_yaw(qx)); MC_CHECK(fabs(zpl_quat_yaw(qy) - y) < 1e-3, "yaw of a yaw by %g is %g", y, zpl_quat_yaw(qy)); MC_CHECK(fabs(zpl_quat_roll(qz) - r) < 1e-4, "roll of a roll by %g is %g", r, zpl_quat_roll(qz));
    if (fabs(cos(y)) > 0.05) MC_CHECK(fabs(zpl_quat_pitch(t) - p) < 1e-3 && fabs(zpl_quat_yaw(t) - y) < 2e-3 && fabs(zpl_quat_roll(t) - r) < 1e-3, "pitch %g yaw %g roll %g come back as %g, %g and %g", p, y, r, zpl_quat_pitch(t), zpl_quat_yaw(t), zpl_quat_roll(t));
}
static void ref_slerp(const double *a, const double *b, double t, double *o) { double c = 0, sg = 1; for (int i = 0; i < 4; i++) c += a[i] * b[i]; if (c < 0) { c = -c; sg = -1; } double th = c >= 1 ? 0 : acos(c), s = sin(th), k0 = s < 1e-7 ? 1 - t : sin((1 - t) * th) / s, k1 = s < 1e-7 ? t : sin(t * th) / s; for (int i = 0; i < 4; i++) o[i] = k0 * a[i] + k1 * sg * b[i]; }
static void ref_nlerp(const double *a, const double *b, double t, double *o) { double n = 0; for (int i = 0; i < 4; i++) { o[i] = a[i] + (b[i] - a[i]) * t; n += o[i] * o[i]; } n = sqrt(n); for (int i = 0; i < 4; i++) o[i] /= n; }
static void qd(zpl_quat q, double *o) { for (int i = 0; i < 4; i++) o[i] = q.e[i]; }
static void s_slerp(void) {
    const float *ax = AX[mc_choose(10)], *bx = AX[mc_choose(10)]; double a1 = AN[mc_choose(17)], a2 = AN[mc_choose(17)]; zpl_quat a = zpl_quat_axis_angle(zpl_vec3f(ax[0], ax[1], ax[2]), (float)a1), b = zpl_quat_axis_angle(zpl_vec3f(bx[0], bx[1], bx[2]), (float)a2), r, s; double da[4], db[4], w[4]; qd(a, da); qd(b, db); double c = dotd(a.e, b.e, 4); mc_log("from (%g,%g,%g,%g) to (%g,%g,%g,%g), dot %g\n", a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w, c);
    for (int k = 0; k <= 4; k++) { double t = k * 0.25; mc_trans(5); zpl_quat_slerp(&r, a, b, (float)t); s = a; zpl_quat_slerp(&s, s, b, (float)t); ref_slerp(da, db, t, w); for (int i = 0; i < 4; i++) { MC_CHECK(fabs(r.e[i] - w[i]) < (fabs(c) < 1e-3 ? 2.1 : 2e-3) && r.e[i] == r.e[i], "slerp at %g: component %d is %g, not %g", t, i, r.e[i], w[i]); EQ(s.e[i], r.e[i], "slerp in place"); } MC_CHECK(fabs(zpl_quat_mag(r) - 1) < 1e-3, "slerp of unit quaternions has length %g", zpl_quat_mag(r));
        zpl_quat_lerp(&r, a, b, (float)t); for (int i = 0; i < 4; i++) NEAR(r.e[i], a.e[i] + ((double)b.e[i] - a.e[i]) * t, 2, "quat_lerp"); if (c > -0.9) { zpl_quat_nlerp(&r, a, b, (float)t); ref_nlerp(da, db, t, w); for (int i = 0; i < 4; i++) NEAR(r.e[i], w[i], 10, "quat_nlerp"); }
        if (c >= 0) { zpl_quat_slerp_approx(&r, a, b, (float)t); ref_slerp(da, db, t, w); for (int i = 0; i < 4; i++) MC_CHECK(fabs(r.e[i] - w[i]) < 0.03, "slerp_approx at %g: component %d is %g, not %g", t, i, r.e[i], w[i]); } }
    mc_state(mc_hash(mc_hash(1, &a, 16), &b, 16));
}
static void s_squad(void) {
    static const float Q[][4] = { { 0, 0, 0, 1 }, { 0.6f, 0, 0, 0.8f }, { 0, 0.28f, 0, 0.96f }, { 0.5f, 0.5f, 0.5f, 0.5f }, { 0, 0, -0.6f, 0.8f } }; zpl_quat v[4], r; double d[4][4], x[4], y[4], w[4]; for (int i = 0; i < 4; i++) { v[i] = zpl_quatfv((float *)Q[mc_choose(5)]); qd(v[i], d[i]); } mc_trans(15);
    for (int k = 0; k <= 4; k++) { double t = k * 0.25, u = 2 * t * (1 - t); zpl_quat_squad(&r, v[0], v[1], v[2], v[3], (float)t); ref_slerp(d[0], d[3], t, x); ref_slerp(d[1], d[2], t, y); ref_slerp(x, y, u, w); for (int i = 0; i < 4; i++) MC_CHECK(fabs(r.e[i] - w[i]) < 3e-3, "squad at %g: component %d is %g, not %g", t, i, r.e[i], w[i]); zpl_quat_squad_approx(&r, v[0], v[1], v[2], v[3], (float)t); for (int i = 0; i < 4; i++) MC_CHECK(fabs(r.e[i] - w[i]) < 0.04, "squad_approx at %g: component %d is %g, not %g", t, i, r.e[i], w[i]);
        zpl_quat_nquad(&r, v[0], v[1], v[2], v[3], (float)t); ref_nlerp(d[0], d[3], t, x); ref_nlerp(d[1], d[2], t, y); ref_nlerp(x, y, u, w); for (int i = 0; i < 4; i++) MC_CHECK(fabs(r.e[i] - w[i]) < 1e-4, "nquad at %g: component %d is %g, not %g", t, i, r.e[i], w[i]); }
}

/* ---- frustum ---- */
static void s_frustum(void) {
    int persp = (int)mc_choose(2), lh = 0; static const float E[][3] = { { 0, 0, 0 }, { 1, 2, 3 }, { -4, 1, 2 } }; const float *e = E[mc_choose(3)], *dir = AX[mc_choose(10)]; zpl_vec3 up = (dir[0] == 0 && dir[2] == 0) ? zpl_vec3f(0, 0, 1) : zpl_vec3f(0, 1, 0); zpl_mat4 view, proj, both; (void)lh;
    zpl_mat4_look_at(&view, zpl_vec3f(e[0], e[1], e[2]), zpl_vec3f(e[0] + dir[0], e[1] + dir[1], e[2] + dir[2]), up); if (persp) zpl_mat4_perspective(&proj, 1.0f, 1.5f, 0.5f, 20); else zpl_mat4_ortho3d(&proj, -3, 2, -1, 4, 1, 12); zpl_frustum f; memset(&f, 0x7f, sizeof f); zpl_frustum_create(&f, &view, &proj); double p[16], sc[16]; ref_mul(4, (float *)&proj, (float *)&view, p, sc); for (int i = 0; i < 16; i++) both.e[i] = (float)p[i];
    zpl_plane *pl = &f.x1; for (int i = 0; i < 6; i++) MC_CHECK(fabs(pl[i].a * (double)pl[i].a + pl[i].b * (double)pl[i].b + pl[i].c * (double)pl[i].c - 1) < 1e-5, "plane %d is not normalised", i);
    zpl_mat4 inv; zpl_mat4_inverse(&inv, &both); int in = 0, out = 0;
    for (int c = 0; c < 125; c++) { static const double T[] = { -1.4, -0.9, 0.05, 0.9, 1.4 }; double q[3] = { T[c % 5], T[c / 5 % 5], T[c / 25] }, o[4], w[3]; if (persp && q[2] > 1.1) q[2] = 1.02; apply(&inv, q, 1, o); if (fabs(o[3]) < 1e-3) continue; for (int i = 0; i < 3; i++) w[i] = o[i] / o[3]; double cl[4]; apply(&both, w, 1, cl); if (cl[3] <= 0) continue; mc_trans(1); int want = 1; for (int i = 0; i < 3; i++) if (fabs(cl[i]) > cl[3]) want = 0; int got = zpl_frustum_point_inside(&f, zpl_vec3f((float)w[0], (float)w[1], (float)w[2])); if (want) in++; else out++; MC_CHECK(got == want, "the point (%g,%g,%g), projected to (%g,%g,%g), is %s the frustum", w[0], w[1], w[2], q[0], q[1], q[2], got ? "said to be inside" : "said to be outside");
        for (int i = 0; i < 6; i++) { double dd = pl[i].a * w[0] + pl[i].b * w[1] + pl[i].c * w[2] + pl[i].d; NEAR(zpl_plane_distance(&pl[i], zpl_vec3f((float)w[0], (float)w[1], (float)w[2])), dd, 60, "plane_distance"); }
        double far = 1e30; for (int i = 0; i < 6; i++) { double dd = pl[i].a * w[0] + pl[i].b * w[1] + pl[i].c * w[2] + pl[i].d; if (dd < far) far = dd; } /* spheres: outside when wholly behind one plane, inside when the centre is */
        for (int k = 0; k < 3; k++) { double rad = (double[]){ 0.25, 1, 5 }[k]; if (fabs(far + rad) < 1e-3) continue; int g = zpl_frustum_sphere_inside(&f, zpl_vec3f((float)w[0], (float)w[1], (float)w[2]), (float)rad); MC_CHECK(g == (far > -rad), "a sphere of radius %g whose centre is %g inside the nearest plane is %s", rad, far, g ? "inside" : "outside"); }
        /* boxes about the point: overlap is never missed, a box wholly behind one plane is outside */
        for (int k = 0; k < 5; k++) { static const double B[5][3] = { { 0.2, 0.2, 0.2 }, { 50, 50, 50 }, { 30, 0.1, 0.1 }, { 0.1, 0.1, 30 }, { 3, 3, 0.5 } }; zpl_aabb3 bx = zpl_aabb3f((float)(w[0] - B[k][0]), (float)(w[1] - B[k][1]), (float)(w[2] - B[k][2]), (float)(w[0] + B[k][0]), (float)(w[1] + B[k][1]), (float)(w[2] + B[k][2])); int g = zpl_frustum_box_inside(&f, bx), behind = 0, near = 0; for (int i = 0; i < 6; i++) { double dd = pl[i].a * w[0] + pl[i].b * w[1] + pl[i].c * w[2] + pl[i].d, rr = fabs(pl[i].a) * B[k][0] + fabs(pl[i].b) * B[k][1] + fabs(pl[i].c) * B[k][2]; if (dd + rr < -1e-3) behind = 1; else if (dd + rr < 1e-3) near = 1; } mc_trans(1);
            if (want && far > 1e-3) MC_CHECK(g, "a box of half size (%g,%g,%g) about (%g,%g,%g), which is inside the frustum, is said to be outside", B[k][0], B[k][1], B[k][2], w[0], w[1], w[2]); if (behind && !near) MC_CHECK(!g, "a box wholly behind a plane of the frustum is said to be inside"); } }
    MC_CHECK(in >= 9 && out >= 20, "only %d points inside and %d outside were tried", in, out);
}

/* ---- rectangles and boxes ---- */
static double mn(double a, double b) { return a < b ? a : b; } static double mx(double a, double b) { return a > b ? a : b; }
static const float PX[] = { -3, -1, 0, 1, 2.5f }, DX[] = { -4, -1, 0, 2, 3.5f };
static void s_rect(void) {
    zpl_rect2 a = zpl_rect2f(zpl_vec2f(PX[mc_choose(5)], PX[mc_choose(5)]), zpl_vec2f(DX[mc_choose(5)], DX[mc_choose(5)])); double ax0 = mn(a.pos.x, a.pos.x + a.dim.x), ax1 = mx(a.pos.x, a.pos.x + a.dim.x), ay0 = mn(a.pos.y, a.pos.y + a.dim.y), ay1 = mx(a.pos.y, a.pos.y + a.dim.y);
    for (int c = 0; c < 625; c++) { zpl_rect2 b = zpl_rect2f(zpl_vec2f(PX[c % 5], PX[c / 5 % 5]), zpl_vec2f(DX[c / 25 % 5], DX[c / 125])), r = { { { 9, 9 } }, { { 9, 9 } } }; double bx0 = mn(b.pos.x, b.pos.x + b.dim.x), bx1 = mx(b.pos.x, b.pos.x + b.dim.x), by0 = mn(b.pos.y, b.pos.y + b.dim.y), by1 = mx(b.pos.y, b.pos.y + b.dim.y), x0 = mx(ax0, bx0), x1 = mn(ax1, bx1), y0 = mx(ay0, by0), y1 = mn(ay1, by1); int want = x0 < x1 && y0 < y1; mc_trans(2);
        int g = zpl_rect2_intersection_result(a, b, &r); MC_CHECK(!!g == want && !!zpl_rect2_intersects(a, b) == want, "[%g,%g]x[%g,%g] and [%g,%g]x[%g,%g] %s", ax0, ax1, ay0, ay1, bx0, bx1, by0, by1, want ? "overlap" : "do not overlap"); if (want) MC_CHECK(r.pos.x == x0 && r.pos.y == y0 && r.dim.x == x1 - x0 && r.dim.y == y1 - y0, "the intersection is (%g,%g) sized (%g,%g)", r.pos.x, r.pos.y, r.dim.x, r.dim.y); else MC_CHECK(r.pos.x == 0 && r.pos.y == 0 && r.dim.x == 0 && r.dim.y == 0, "no intersection, but (%g,%g) sized (%g,%g)", r.pos.x, r.pos.y, r.dim.x, r.dim.y); }
    for (int i = -14; i <= 14; i++) for (int j = -14; j <= 14; j++) { float x = (float)i * 0.5f, y = (float)j * 0.5f; int want = x >= ax0 && x < ax1 && y >= ay0 && y < ay1; MC_CHECK(!!zpl_rect2_contains(a, x, y) == want && !!zpl_rect2_contains_vec2(a, zpl_vec2f(x, y)) == want, "[%g,%g)x[%g,%g) contains (%g,%g)?", ax0, ax1, ay0, ay1, x, y); zpl_aabb2 bb = zpl_aabb2f((float)ax0, (float)ay0, (float)ax1, (float)ay1); MC_CHECK(!!zpl_aabb2_contains(bb, x, y) == want, "box [%g,%g)x[%g,%g) contains (%g,%g)?", ax0, ax1, ay0, ay1, x, y); }
    zpl_aabb2 q = zpl_aabb2_rect2(a); MC_CHECK(q.min.x == a.pos.x && q.min.y == a.pos.y && q.max.x == a.pos.x + a.dim.x && q.max.y == a.pos.y + a.dim.y, "aabb2_rect2"); zpl_rect2 back = zpl_rect2_aabb2(q); MC_CHECK(back.pos.x == a.pos.x && back.pos.y == a.pos.y && back.dim.x == a.dim.x && back.dim.y == a.dim.y, "rect2_aabb2"); mc_trans(900);
}
#define SAME(r, x0, y0, x1, y1, ...) MC_CHECK((r).min.x == (float)(x0) && (r).min.y == (float)(y0) && (r).max.x == (float)(x1) && (r).max.y == (float)(y1), __VA_ARGS__)
static void s_aabb(void) {
    float x0 = PX[mc_choose(5)], y0 = PX[mc_choose(5)], w = ((float[]){ 0, 1, 2, 3.5f })[mc_choose(4)], h = ((float[]){ 0, 1, 2, 3.5f })[mc_choose(4)], x1 = x0 + w, y1 = y0 + h, b = ((float[]){ 0, 0.5f, 1, 1.75f, 2, 5 })[mc_choose(6)]; const zpl_aabb2 a = zpl_aabb2f(x0, y0, x1, y1); SAME(a, x0, y0, x1, y1, "aabb2f"); mc_trans(20); mc_log("box [%g,%g]x[%g,%g] by %g\n", x0, x1, y0, y1, b);
    double lx = mn(x1, x0 + b), rx = mx(x0, x1 - b), ty = mn(y1, y0 + b), by = mx(y0, y1 - b); zpl_aabb2 c, r;
    c = a; r = zpl_aabb2_cut_left(&c, b); SAME(r, x0, y0, lx, y1, "cut_left returns the wrong part"); SAME(c, lx, y0, x1, y1, "cut_left leaves the wrong part"); r = zpl_aabb2_get_left(&a, b); SAME(r, x0, y0, lx, y1, "get_left");
    c = a; r = zpl_aabb2_cut_right(&c, b); SAME(r, rx, y0, x1, y1, "cut_right returns the wrong part"); SAME(c, x0, y0, rx, y1, "cut_right leaves the wrong part"); r = zpl_aabb2_get_right(&a, b); SAME(r, rx, y0, x1, y1, "get_right");
    c = a; r = zpl_aabb2_cut_top(&c, b); SAME(r, x0, y0, x1, ty, "cut_top returns the wrong part"); SAME(c, x0, ty, x1, y1, "cut_top leaves the wrong part"); r = zpl_aabb2_get_top(&a, b); SAME(r, x0, y0, x1, ty, "get_top");
    c = a; r = zpl_aabb2_cut_bottom(&c, b); SAME(r, x0, by, x1, y1, "cut_bottom returns the wrong part"); SAME(c, x0, y0, x1, by, "cut_bottom leaves the wrong part"); r = zpl_aabb2_get_bottom(&a, b); SAME(r, x0, by, x1, y1, "get_bottom");
    r = zpl_aabb2_add_left(&a, b); SAME(r, x0 - b, y0, x0, y1, "add_left"); r = zpl_aabb2_add_right(&a, b); SAME(r, x1, y0, x1 + b, y1, "add_right"); r = zpl_aabb2_add_top(&a, b); SAME(r, x0, y0 - b, x1, y0, "add_top"); r = zpl_aabb2_add_bottom(&a, b); SAME(r, x0, y1, x1, y1 + b, "add_bottom");
    r = zpl_aabb2_expand(&a, b); SAME(r, x0 - b, y0 - b, x1 + b, y1 + b, "expanding [%g,%g]x[%g,%g] by %g gives [%g,%g]x[%g,%g]", x0, x1, y0, y1, b, r.min.x, r.max.x, r.min.y, r.max.y); r = zpl_aabb2_contract(&a, b); if (w >= 2 * b && h >= 2 * b) SAME(r, x0 + b, y0 + b, x1 - b, y1 - b, "contracting [%g,%g]x[%g,%g] by %g gives [%g,%g]x[%g,%g]", x0, x1, y0, y1, b, r.min.x, r.max.x, r.min.y, r.max.y); else SAME(r, 0, 0, 0, 0, "contracting [%g,%g]x[%g,%g] by %g gives [%g,%g]x[%g,%g]", x0, x1, y0, y1, b, r.min.x, r.max.x, r.min.y, r.max.y);
    float z0 = PX[mc_choose(5)], d = 1.5f; zpl_aabb3 q = zpl_aabb3f(x0, y0, z0, x1, y1, z0 + d); for (int i = 0; i < 343; i++) { float x = (float)(i % 7 - 3), y = (float)(i / 7 % 7 - 3) * 1.25f, z = (float)(i / 49 - 3); MC_CHECK(!!zpl_aabb3_contains(q, x, y, z) == (x >= x0 && x < x1 && y >= y0 && y < y1 && z >= z0 && z < z0 + d), "a box contains (%g,%g,%g)?", x, y, z); }
    zpl_rect3 r3 = zpl_rect3_aabb3(q); MC_CHECK(r3.pos.x == x0 && r3.pos.y == y0 && r3.pos.z == z0 && r3.dim.x == w && r3.dim.y == h && r3.dim.z == d, "rect3_aabb3"); zpl_aabb3 q3 = zpl_aabb3_rect3(r3); MC_CHECK(!memcmp(&q3, &q, sizeof q), "aabb3_rect3"); zpl_rect3 r4 = zpl_rect3f(zpl_vec3f(x0, y0, z0), zpl_vec3f(w, h, d)); MC_CHECK(!memcmp(&r3, &r4, sizeof r3), "rect3f");
}
/* the C++ operators: same results as the component-wise formulas */
static void s_ops(void) { float st[30][16]; int n = mset(4, st), i = (int)mc_choose((uint32_t)n), j = (int)mc_choose((uint32_t)n); float s = ((float[]){ 1, -2, 0.5f, 3 })[mc_choose(4)]; const char *e = ops_check(st[i], st[j], s); mc_trans(60); if (e) mc_fail("operator %s on %s and %s with %g", e, mtext(4, st[i]), mtext(4, st[j]), s); }
mc_suite mc_suites[] = { { "every_float", s_floats }, { "every_half", s_halves }, { "doubles", s_doubles }, { "mod", s_mod }, { "mod_rounding", s_mod_any }, { "scalar", s_scalar }, { "vec2", s_vec2 }, { "vec3", s_vec3 }, { "vec4", s_vec4 }, { "mat2", s_mat2 }, { "mat3", s_mat3 }, { "mat4", s_mat4 }, { "matrix_pairs", s_pairs }, { "products", s_prod }, { "transforms", s_xform }, { "projections", s_proj }, { "look_at", s_look }, { "quat", s_quat }, { "euler", s_euler }, { "slerp", s_slerp }, { "squad", s_squad }, { "frustum", s_frustum }, { "rect", s_rect }, { "aabb", s_aabb }, { "operators", s_ops }, { 0 } };
