// the operators the header offers to C++ code, against component-wise formulas
#include "zpl.h"
#include <cmath>
static bool ok(double a, double b, double sc = 0) { if (std::isinf(a) || std::isinf(b)) return a == b; return fabs(a - b) <= 4e-6 * (fabs(b) + sc) + 1e-30; }
#define ALL(n, cond) do { for (int i = 0; i < (n); i++) if (!(cond)) return #cond; } while (0)
template <class V, int N> static const char *vec(const float *x, const float *y, float s) {
    V a, b, r; for (int i = 0; i < N; i++) { a.e[i] = x[i]; b.e[i] = y[i]; } bool same = true; for (int i = 0; i < N; i++) same = same && x[i] == y[i];
    if ((a == b) != same || (a != b) == same || !(a == a)) return "== or !="; for (int k = 0; k < N; k++) { V c = a; c.e[k] += 1; if (c == a || !(c != a)) return "== ignores a component"; }
    r = +a; ALL(N, r.e[i] == x[i]); r = -a; ALL(N, r.e[i] == -x[i]); r = a + b; ALL(N, r.e[i] == x[i] + y[i]); r = a - b; ALL(N, r.e[i] == x[i] - y[i]); r = a * s; ALL(N, ok(r.e[i], (double)x[i] * s)); r = s * a; ALL(N, ok(r.e[i], (double)x[i] * s)); r = a / s; ALL(N, ok(r.e[i], (double)x[i] / s)); r = a * b; ALL(N, ok(r.e[i], (double)x[i] * y[i]));
    bool nz = true; for (int i = 0; i < N; i++) nz = nz && y[i]; if (nz) { r = a / b; ALL(N, ok(r.e[i], (double)x[i] / y[i])); }
    r = a; r += b; ALL(N, r.e[i] == x[i] + y[i]); r = a; r -= b; ALL(N, r.e[i] == x[i] - y[i]); r = a; r *= s; ALL(N, ok(r.e[i], (double)x[i] * s)); r = a; r /= s; ALL(N, ok(r.e[i], (double)x[i] / s));
    return 0;
}
template <class M, class V, int N> static const char *mat(const float *x, const float *y, float s) {
    M a, b, r; V v, w; for (int i = 0; i < N * N; i++) { a.e[i] = x[i]; b.e[i] = y[i]; } for (int i = 0; i < N; i++) v.e[i] = y[i + 1]; double p[16], ps[16]; for (int c = 0; c < N; c++) for (int q = 0; q < N; q++) { p[c * N + q] = ps[c * N + q] = 0; for (int k = 0; k < N; k++) { double t = (double)x[k * N + q] * y[c * N + k]; p[c * N + q] += t; ps[c * N + q] += fabs(t); } }
    r = a + b; ALL(N * N, r.e[i] == x[i] + y[i]); r = a - b; ALL(N * N, r.e[i] == x[i] - y[i]); r = a * s; ALL(N * N, ok(r.e[i], (double)x[i] * s)); r = s * a; ALL(N * N, ok(r.e[i], (double)x[i] * s)); r = a / s; ALL(N * N, ok(r.e[i], (double)x[i] / s)); r = a * b; ALL(N * N, ok(r.e[i], p[i], ps[i])); r = a; r += b; ALL(N * N, r.e[i] == x[i] + y[i]); r = a; r -= b; ALL(N * N, r.e[i] == x[i] - y[i]); r = a; r *= b; ALL(N * N, ok(r.e[i], p[i], ps[i]));
    w = a * v; for (int q = 0; q < N; q++) { double t = 0, ts = 0; for (int k = 0; k < N; k++) { t += (double)x[k * N + q] * v.e[k]; ts += fabs((double)x[k * N + q] * v.e[k]); } if (!ok(w.e[q], t, ts)) return "matrix times vector"; }
    return 0;
}
static const char *quat(const float *x, const float *y, float s) {
    zpl_quat a = zpl_quatf(x[0], x[1], x[2], x[3]), b = zpl_quatf(y[0], y[1], y[2], y[3]), r, m; zpl_quat_mul(&m, a, b); bool same = true; for (int i = 0; i < 4; i++) same = same && x[i] == y[i]; if ((a == b) != same || (a != b) == same) return "quaternion ==";
    r = +a; ALL(4, r.e[i] == x[i]); r = -a; ALL(4, r.e[i] == -x[i]); r = a + b; ALL(4, r.e[i] == x[i] + y[i]); r = a - b; ALL(4, r.e[i] == x[i] - y[i]); r = a * b; ALL(4, r.e[i] == m.e[i]); r = a * s; ALL(4, ok(r.e[i], (double)x[i] * s)); r = s * a; ALL(4, ok(r.e[i], (double)x[i] * s)); r = a / s; ALL(4, ok(r.e[i], (double)x[i] / s));
    r = a; r += b; ALL(4, r.e[i] == x[i] + y[i]); r = a; r -= b; ALL(4, r.e[i] == x[i] - y[i]); r = a; r *= b; ALL(4, r.e[i] == m.e[i]); r = a; r *= s; ALL(4, ok(r.e[i], (double)x[i] * s)); r = a; r /= s; ALL(4, ok(r.e[i], (double)x[i] / s)); if (zpl_quat_dot(b, b) != 0) { zpl_quat_div(&m, a, b); r = a; r /= b; ALL(4, r.e[i] == m.e[i]); }
    zpl_vec3 v = zpl_vec3f(y[0], y[1], y[2]), w = a * v, e; zpl_quat_rotate_vec3(&e, a, v); for (int i = 0; i < 3; i++) if (w.e[i] != e.e[i]) return "quaternion times vector"; return 0;
}
extern "C" const char *ops_check(const float *a, const float *b, float s) {
    const char *e; if ((e = vec<zpl_vec2, 2>(a, b, s)) || (e = vec<zpl_vec3, 3>(a, b, s)) || (e = vec<zpl_vec4, 4>(a, b, s)) || (e = mat<zpl_mat2, zpl_vec2, 2>(a, b, s)) || (e = mat<zpl_mat3, zpl_vec3, 3>(a, b, s)) || (e = mat<zpl_mat4, zpl_vec4, 4>(a, b, s)) || (e = quat(a, b, s)) || (e = vec<zpl_vec4, 4>(a + 8, b + 4, s)) || (e = quat(a + 4, b + 10, s))) return e; return 0;
}
