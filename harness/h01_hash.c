/* H01 - checksums, hashes, base64 against bit-by-bit reference definitions */
#include "z.h"
typedef uint32_t u32; typedef uint64_t u64; typedef unsigned char u8;
static u32 r_adler(const u8 *p, long n) { u32 a = 1, b = 0; for (long i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
static u32 r_crc32(const u8 *p, long n) { u32 c = ~0u; for (long i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; } return ~c; }
static u64 r_crc64(const u8 *p, long n) { u64 c = 0; for (long i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x95ac9329ac4bc9b5ULL : c >> 1; } return c; }
static u32 r_fnv32(const u8 *p, long n, int a) { u32 h = 2166136261u; for (long i = 0; i < n; i++) { if (a) h = (h ^ p[i]) * 16777619u; else h = h * 16777619u ^ p[i]; } return h; }
static u64 r_fnv64(const u8 *p, long n, int a) { u64 h = 14695981039346656037ULL; for (long i = 0; i < n; i++) { if (a) h = (h ^ p[i]) * 1099511628211ULL; else h = h * 1099511628211ULL ^ p[i]; } return h; }
static u32 rot(u32 v, int r) { return v << r | v >> (32 - r); }
static u32 r_mur32(const u8 *p, long n, u32 h) {
    long b = n / 4; for (long i = 0; i < b; i++) { u32 k = (u32)p[4*i] | (u32)p[4*i+1] << 8 | (u32)p[4*i+2] << 16 | (u32)p[4*i+3] << 24; k *= 0xcc9e2d51u; k = rot(k, 15); k *= 0x1b873593u; h ^= k; h = rot(h, 13) * 5 + 0xe6546b64u; }
    u32 k = 0; for (long i = n & 3; i-- > 0;) k = k << 8 | p[4*b+i]; if (n & 3) { k *= 0xcc9e2d51u; k = rot(k, 15); k *= 0x1b873593u; h ^= k; }
    h ^= (u32)n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16;
}
/* MurmurHash64A; head: the tail bytes are taken from the start of the data (zpl's variant, pinned by its tests) */
static u64 r_mur64(const u8 *p, long n, u64 seed, int head) {
    const u64 m = 0xc6a4a7935bd1e995ULL; u64 h = seed ^ (u64)n * m; long b = n / 8;
    for (long i = 0; i < b; i++) { u64 k = 0; for (int j = 7; j >= 0; j--) k = k << 8 | p[8*i+j]; k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; }
    const u8 *t = head ? p : p + 8 * b; u64 k = 0; for (long i = n & 7; i-- > 0;) k = k << 8 | t[i]; if (n & 7) { h ^= k; h *= m; } h ^= h >> 47; h *= m; return h ^ h >> 47;
}
static const u64 SEED[] = { 0x9747b28cULL, 0, 1, 0xdeadbeefcafebabeULL, ~0ULL };
static void all(const u8 *p, long n) {
    mc_trans(1);
#define EQ(name, a, b) do { u64 x_ = (u64)(a), y_ = (u64)(b); if (x_ != y_) mc_fail("%s of %ld bytes: %llx, expected %llx", name, n, (unsigned long long)x_, (unsigned long long)y_); } while (0)
    EQ("adler32", zpl_adler32(p, n), r_adler(p, n)); EQ("crc32", zpl_crc32(p, n), r_crc32(p, n)); EQ("crc64", zpl_crc64(p, n), r_crc64(p, n));
    EQ("fnv32", zpl_fnv32(p, n), r_fnv32(p, n, 0)); EQ("fnv64", zpl_fnv64(p, n), r_fnv64(p, n, 0)); EQ("fnv32a", zpl_fnv32a(p, n), r_fnv32(p, n, 1)); EQ("fnv64a", zpl_fnv64a(p, n), r_fnv64(p, n, 1));
    EQ("murmur32", zpl_murmur32(p, n), r_mur32(p, n, 0x9747b28cu));
    for (int s = 0; s < 5; s++) { EQ("murmur32_seed", zpl_murmur32_seed(p, n, (u32)SEED[s]), r_mur32(p, n, (u32)SEED[s])); u64 h = zpl_murmur64_seed(p, n, SEED[s]); if (h != r_mur64(p, n, SEED[s], 1)) EQ("murmur64_seed", h, r_mur64(p, n, SEED[s], 0)); }
    EQ("murmur64", zpl_murmur64(p, n), zpl_murmur64_seed(p, n, 0x9747b28cu));
}
static void s_short(void) { int n = mc_choose(4), hi = n == 3 ? mc_choose(64) : 0; u8 *b = (u8 *)malloc((size_t)(n ? n : 1)); long N = n == 0 ? 1 : n == 1 ? 256 : 65536;
    int part = n >= 2 ? mc_choose(16) : 0; long lo = n >= 2 ? part * 4096 : 0, e = n >= 2 ? lo + 4096 : N;
    for (long v = lo; v < e; v++) { if (n) b[0] = (u8)v; if (n > 1) b[1] = (u8)(v >> 8); if (n > 2) b[2] = (u8)(hi * 4 + 3); all(b, n); if (n < 3) mc_state((u64)v * 4 + n + 1); } mc_beat(); free(b); }
static void pat(u8 *b, long n, int k) { for (long i = 0; i < n; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (u8)i : k == 3 ? (u8)(i * 37 + (i >> 3)) : (u8)(255 - i * i); }
static void s_len(void) { long n = mc_choose(mc_thorough ? 1025 : 300); int off = mc_choose(8), k = mc_choose(5); u8 *b = (u8 *)malloc((size_t)(n + off ? n + off : 1)); pat(b + off, n, k); all(b + off, n); mc_state((u64)(n * 64 + off * 8 + k + 1)); free(b); }
static void s_block(void) { static const long B[] = { 5552, 11104, 16656, 65521, 65536 }; long n = B[mc_choose(5)] + (long)mc_choose(21) - 10; int k = mc_choose(5); u8 *b = (u8 *)malloc((size_t)n); pat(b, n, k); all(b, n); free(b); }
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void b64(const u8 *p, long n) {
    static char e[1 << 18]; long k = 0; for (long i = 0; i < n; i += 3) { u32 v = (u32)p[i] << 16 | (i + 1 < n ? (u32)p[i+1] << 8 : 0) | (i + 2 < n ? p[i+2] : 0); e[k++] = B64[v >> 18]; e[k++] = B64[v >> 12 & 63]; e[k++] = i + 1 < n ? B64[v >> 6 & 63] : '='; e[k++] = i + 2 < n ? B64[v & 63] : '='; } e[k] = 0;
    mc_trans(1); char *x = (char *)zpl_base64_encode(zpl_heap_allocator(), p, n); if (!n) { MC_CHECK(x == NULL || !*x, "encoding nothing"); if (x) zpl_free(zpl_heap_allocator(), x); return; }
    MC_CHECK(x && !strcmp(x, e), "base64 of %ld bytes is \"%s\", expected \"%s\"", n, x ? x : "(null)", e);
    char *t = (char *)malloc((size_t)k); memcpy(t, e, (size_t)k); u8 *y = zpl_base64_decode(zpl_heap_allocator(), t, k);
    MC_CHECK(y && !memcmp(y, p, (size_t)n) && y[n] == 0, "decoding \"%s\" does not give the bytes back", e); free(t); zpl_free(zpl_heap_allocator(), x); zpl_free(zpl_heap_allocator(), y);
}
static void s_b64(void) { int n = mc_choose(4), hi = n == 3 ? mc_choose(256) : 0; u8 *b = (u8 *)malloc((size_t)(n ? n : 1)); long N = n == 0 ? 1 : n == 1 ? 256 : 65536; if (n == 3 && !mc_thorough) N = 256 * 16;
    for (long v = 0; v < N; v++) { if (n) b[0] = (u8)v; if (n > 1) b[1] = n == 3 && !mc_thorough ? (u8)((v >> 8) * 17) : (u8)(v >> 8); if (n > 2) b[2] = (u8)hi; b64(b, n); if (!(v & 255)) mc_beat(); } free(b); }
static void s_b64len(void) { long n = mc_choose(400); int k = mc_choose(5); u8 *b = (u8 *)malloc((size_t)(n ? n : 1)); pat(b, n, k); b64(b, n); free(b); }
/* any text: rejected, or decoded to what it denotes, and never read or written outside */
static int val(char c) { const char *q = c ? strchr(B64, c) : 0; return q ? (int)(q - B64) : -1; }
static void s_bad(void) {
    static const char AL[] = { 'A', 'b', '/', '+', '9', '=', '-', ' ', 0, (char)0xe9 }; int n = mc_choose(mc_thorough ? 8 : 7); char t[9]; for (int i = 0; i < n; i++) t[i] = AL[mc_choose(mc_thorough ? 8 : i < 4 ? 10 : 6)]; t[n] = 0; mc_trans(1);
    int ok = n % 4 == 0, pad = 0; for (int i = 0; i < n && ok; i++) { if (t[i] == '=') { pad++; if (i < n - 2) ok = 0; } else if (val(t[i]) < 0 || pad) ok = 0; }
    char *s = (char *)malloc((size_t)n + 1); memcpy(s, t, (size_t)n + 1); u8 *y = zpl_base64_decode(zpl_heap_allocator(), s, n); long m = ok ? n / 4 * 3 - pad : 0;
    MC_CHECK((y != NULL) == ok, "decoding \"%s\" (%d characters) was %s", t, n, ok ? "refused" : "accepted"); if (ok) { u8 r[16]; long k = 0; for (int i = 0; i < n; i += 4) { u32 v = 0; for (int j = 0; j < 4; j++) v = v << 6 | (t[i+j] == '=' ? 0 : (u32)val(t[i+j])); r[k++] = v >> 16; r[k++] = v >> 8; r[k++] = v; } MC_CHECK(!memcmp(y, r, (size_t)m) && y[m] == 0, "decoding \"%s\"", t); zpl_free(zpl_heap_allocator(), y); }
    free(s);
}
static void kf_mur(void) { long n = 8 + (long)mc_choose(24); if (n % 8 == 0) mc_prune(); u8 b[32]; pat(b, n, 3); u64 h = zpl_murmur64(b, n); MC_CHECK(h == r_mur64(b, n, 0x9747b28cu, 0), "murmur64 of more than 8 bytes with a tail differs from MurmurHash64A"); }
/* data around every power of two and the sizes at which a checksum has to be reduced */
static void s_large(void) {
    static const long D[] = { 1024, 4096, 8192, 16384, 32768, 65536, 131072, 262144 }; long n = D[mc_choose(8)] + (long)mc_choose(9) - 4; int k = mc_choose(5), off = mc_choose(2); mc_claim(); u8 *b = (u8 *)malloc((size_t)(n + off)); pat(b + off, n, k); all(b + off, n); if (n < 190000) b64(b + off, n); mc_state((u64)(n * 16 + k * 2 + off)); free(b);
}
#ifdef FAR
/* more data than 31 and 32 bits count: zeros with a few other bytes, the reference runs over the zeros by repeated squaring */
static u64 gf_apply(const u64 *m, u64 v) { u64 r = 0; for (int i = 0; v; i++, v >>= 1) if (v & 1) r ^= m[i]; return r; }
static u64 crc_zeros(u64 c, u64 poly, int bits, u64 n) { u64 m[64], q[64]; for (int i = 0; i < bits; i++) { u64 v = 1ULL << i; for (int k = 0; k < 8; k++) v = v & 1 ? v >> 1 ^ poly : v >> 1; m[i] = v; } for (; n; n >>= 1) { if (n & 1) c = gf_apply(m, c); for (int i = 0; i < bits; i++) q[i] = gf_apply(m, m[i]); memcpy(m, q, sizeof m); } return c; }
static u64 pw(u64 b, u64 e) { u64 r = 1; for (; e; e >>= 1, b *= b) if (e & 1) r *= b; return r; }
static volatile int ticks; static void tick(int g) { (void)g; if (ticks-- > 0) mc_beat(); } /* a minute of computing is no hang */
static void s_far(void) {
    static const long N[] = { 0x80000009L, 0x10000000DL, 0x7FFFFFFFL, 0x80000000L, 0x100000000L }; long n = N[mc_choose(mc_thorough ? 5 : 2)]; int f = mc_choose(9), k; mc_claim(); u8 *p = mmap(NULL, (size_t)n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) mc_prune(); mc_trans(1); mc_state(mc_hash_u((u64)n, (u64)f));
    u8 H[16], T[16]; for (k = 0; k < 16; k++) { H[k] = (u8)(k * 31 + 7); T[k] = (u8)(k * 57 + 3); } memcpy(p, H, 16); memcpy(p + n - 16, T, 16); u64 z = (u64)n - 32, w, g; p[n] = 0xA7; ticks = 60; signal(SIGALRM, tick); setitimer(ITIMER_REAL, &(struct itimerval){ { 1, 0 }, { 1, 0 } }, NULL);
#define BYTES(B, stmt) for (k = 0; k < 16; k++) { u8 x = B[k]; stmt; }
    if (f == 0) { u64 a = 1, b = 0; BYTES(H, a = (a + x) % 65521; b = (b + a) % 65521) b = (b + z % 65521 * a) % 65521; BYTES(T, a = (a + x) % 65521; b = (b + a) % 65521) w = b << 16 | a; g = zpl_adler32(p, n); }
#define CRC(B, poly) BYTES(B, c ^= x; for (int j = 0; j < 8; j++) c = c & 1 ? c >> 1 ^ poly : c >> 1)
    else if (f == 1) { u64 c = 0xffffffffu; CRC(H, 0xedb88320u) c = crc_zeros(c, 0xedb88320u, 32, z); CRC(T, 0xedb88320u) w = (u32)~c; g = zpl_crc32(p, n); }
    else if (f == 2) { u64 c = 0; CRC(H, 0x95ac9329ac4bc9b5ULL) c = crc_zeros(c, 0x95ac9329ac4bc9b5ULL, 64, z); CRC(T, 0x95ac9329ac4bc9b5ULL) w = c; g = zpl_crc64(p, n); }
    else if (f == 3 || f == 4) { u32 h = 2166136261u, m = 16777619u; if (f == 3) { BYTES(H, h = h * m ^ x) } else { BYTES(H, h = (h ^ x) * m) } h *= (u32)pw(m, z); if (f == 3) { BYTES(T, h = h * m ^ x) } else { BYTES(T, h = (h ^ x) * m) } w = h; g = f == 3 ? zpl_fnv32(p, n) : zpl_fnv32a(p, n); }
    else if (f == 5 || f == 6) { u64 h = 14695981039346656037ULL, m = 1099511628211ULL; if (f == 5) { BYTES(H, h = h * m ^ x) } else { BYTES(H, h = (h ^ x) * m) } h *= pw(m, z); if (f == 5) { BYTES(T, h = h * m ^ x) } else { BYTES(T, h = (h ^ x) * m) } w = h; g = f == 5 ? zpl_fnv64(p, n) : zpl_fnv64a(p, n); }
    else if (f == 7) { w = r_mur32(p, n, 0x9747b28cu); g = zpl_murmur32(p, n); } else { w = r_mur64(p, n, 0x9747b28cu, 1); g = zpl_murmur64(p, n); if (g != w) w = r_mur64(p, n, 0x9747b28cu, 0); }
    setitimer(ITIMER_REAL, &(struct itimerval){ { 0, 0 }, { 0, 0 } }, NULL); munmap(p, (size_t)n + 4096); static const char *nm[] = { "adler32", "crc32", "crc64", "fnv32", "fnv32a", "fnv64", "fnv64a", "murmur32", "murmur64" }; EQ(nm[f], g, w);
}
mc_suite mc_suites[] = { { "far", s_far }, { 0 } };
#else
mc_suite mc_suites[] = { { "large", s_large }, { "short", s_short }, { "lengths", s_len }, { "blocks", s_block }, { "base64", s_b64 }, { "base64_lengths", s_b64len }, { "base64_malformed", s_bad }, { "kf_murmur64_tail", kf_mur }, { 0 } };
#endif
