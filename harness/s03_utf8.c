/* S03 - UTF-8 / UCS-2: every code point, every byte sequence to length 3, boundary sequences of 4, all truncations */
#include "z.h"
/* the standard's table of well-formed sequences; width 0 = malformed */
static int ref(const unsigned char *s, long n, long *cp) {
    if (n < 1) return 0; int a = s[0];
    if (a < 0x80) { *cp = a; return 1; }
    int w = a >= 0xc2 && a <= 0xdf ? 2 : a >= 0xe0 && a <= 0xef ? 3 : a >= 0xf0 && a <= 0xf4 ? 4 : 0; if (!w || n < w) return 0;
    int lo = a == 0xe0 ? 0xa0 : a == 0xf0 ? 0x90 : 0x80, hi = a == 0xed ? 0x9f : a == 0xf4 ? 0x8f : 0xbf;
    if (s[1] < lo || s[1] > hi) return 0; for (int i = 2; i < w; i++) if (s[i] < 0x80 || s[i] > 0xbf) return 0;
    long c = a & (0x7f >> w); for (int i = 1; i < w; i++) c = c << 6 | (s[i] & 63); *cp = c; return w;
}
static long enc(unsigned char *o, long r) {
    if (r < 0x80) { o[0] = r; return 1; } if (r < 0x800) { o[0] = 0xc0 | r >> 6; o[1] = 0x80 | (r & 63); return 2; }
    if (r < 0x10000) { o[0] = 0xe0 | r >> 12; o[1] = 0x80 | (r >> 6 & 63); o[2] = 0x80 | (r & 63); return 3; }
    o[0] = 0xf0 | r >> 18; o[1] = 0x80 | (r >> 12 & 63); o[2] = 0x80 | (r >> 6 & 63); o[3] = 0x80 | (r & 63); return 4;
}
static unsigned char *ex[6];                     /* ex[n]: a heap block of exactly n bytes */
static void blocks(void) { for (int i = 1; i < 6; i++) ex[i] = (unsigned char *)malloc((size_t)i); }
static void unblocks(void) { for (int i = 1; i < 6; i++) free(ex[i]); }
static void dec(const unsigned char *s, long n) {
    unsigned char *b = ex[n]; memcpy(b, s, (size_t)n); long cp = 0; int w = ref(b, n, &cp); zpl_rune r = 12345;
    zpl_isize k = zpl_utf8_decode(b, n, &r);
    if (w) MC_CHECK(k == w && r == cp, "decode %02x %02x.. (%ld bytes): U+%x width %ld, expected U+%lx width %d", b[0], n > 1 ? b[1] : 0, n, r, (long)k, cp, w);
    else MC_CHECK(k == 1 && r == ZPL_RUNE_INVALID, "decode of malformed %02x %02x %02x %02x (%ld bytes) gives U+%x width %ld", b[0], n > 1 ? b[1] : 0, n > 2 ? b[2] : 0, n > 3 ? b[3] : 0, n, r, (long)k);
    MC_CHECK(zpl_utf8_decode(b, n, NULL) == k, "decode without a result pointer");
}
static void s_code(void) {                       /* every code point, 4096 per execution, and beyond the range */
    blocks(); long base = (long)mc_choose(0x112) * 4096;
    for (long c = base; c < base + 4096; c++) {
        unsigned char o[8], e[4]; memset(o, 0x77, 8); mc_trans(1); if ((c & 255) == 0) mc_beat();
        zpl_isize k = zpl_utf8_encode_rune(ex[4], (zpl_rune)c); long x = c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff) ? 0xfffd : c; long n = enc(e, x);
        MC_CHECK(k == n && !memcmp(ex[4], e, (size_t)n), "encode U+%lx", c);
        dec(e, n); for (long t = 1; t < n; t++) dec(e, t);
        memcpy(ex[5], e, (size_t)n); ex[5][n] = 0;
        if (c) { MC_CHECK(zpl_utf8_codepoint_size(ex[5], n) == n, "codepoint_size U+%lx is %ld", c, (long)zpl_utf8_codepoint_size(ex[5], n)); MC_CHECK(zpl_utf8_strlen(ex[5]) == 1, "strlen U+%lx", c); MC_CHECK(zpl_utf8_strnlen(ex[5], n) == 1, "strnlen U+%lx", c); }
        mc_state((uint64_t)c + 1);
    }
    zpl_isize k = zpl_utf8_encode_rune(ex[4], -1 - (zpl_rune)base); MC_CHECK(k == 3 && !memcmp(ex[4], "\xef\xbf\xbd", 3), "encode of a negative code point");
    unblocks();
}
static void s_bytes(void) {                      /* all sequences of 1..3 bytes */
    blocks(); int a = mc_choose(256), b = mc_choose(256); unsigned char s[4] = { (unsigned char)a, (unsigned char)b, 0, 0 };
    if (b == 0) dec(s, 1); dec(s, 2); for (int c = 0; c < 256; c++) { s[2] = (unsigned char)c; dec(s, 3); mc_trans(1); } unblocks();
}
static const unsigned char BB[] = { 0, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff };
static void s_four(void) { blocks(); int a = mc_choose(256), n = mc_thorough ? 256 : (int)sizeof BB, bi = mc_choose((uint32_t)n); unsigned char s[4] = { (unsigned char)a, mc_thorough ? (unsigned char)bi : BB[bi] };
    for (unsigned c = 0; c < sizeof BB; c++) for (unsigned d = 0; d < sizeof BB; d++) { s[2] = BB[c]; s[3] = BB[d]; dec(s, 4); mc_trans(1); } unblocks(); }
static const long CP[] = { 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x10ffff };
#define NCP ((int)(sizeof CP / sizeof *CP))
static void s_text(void) {                       /* texts of up to 4 code points: lengths, round trip, every capacity */
    int n = mc_choose(mc_thorough ? 6 : 5); unsigned char t[32]; unsigned short w[16]; long cp[8]; int tn = 0, wn = 0;
    for (int i = 0; i < n; i++) { cp[i] = CP[mc_choose((uint32_t)NCP)]; tn += (int)enc(t + tn, cp[i]); if (cp[i] < 0x10000) w[wn++] = (unsigned short)cp[i]; else { w[wn++] = (unsigned short)(0xd800 + ((cp[i] - 0x10000) >> 10)); w[wn++] = (unsigned short)(0xdc00 + ((cp[i] - 0x10000) & 0x3ff)); } }
    t[tn] = 0; w[wn] = 0; mc_trans(1);
    unsigned char *T = (unsigned char *)malloc((size_t)tn + 1); memcpy(T, t, (size_t)tn + 1); unsigned short *W = (unsigned short *)malloc((size_t)(wn + 1) * 2); memcpy(W, w, (size_t)(wn + 1) * 2);
    MC_CHECK(zpl_utf8_strlen(T) == n, "utf8_strlen %ld, expected %d", (long)zpl_utf8_strlen(T), n);
    for (int l = 0; l <= tn + 1; l++) { int e = 0, b = 0; for (int i = 0; i < n && b < l; i++) { unsigned char x[4]; b += (int)enc(x, cp[i]); e++; } MC_CHECK(zpl_utf8_strnlen(T, l) == e, "utf8_strnlen limit %d is %ld, expected %d", l, (long)zpl_utf8_strnlen(T, l), e); }
    { unsigned char *p = T; for (int i = 0; i < n; i++) { zpl_rune r; zpl_isize k = zpl_utf8_decode(p, T + tn - p, &r); MC_CHECK(r == cp[i], "decoding the text at %d", i); MC_CHECK(zpl_utf8_codepoint_size(p, T + tn - p) == k, "codepoint_size and decode disagree at %d", i); p += k; } }
    if (tn) { unsigned char *U = (unsigned char *)malloc((size_t)tn), *p = U; memcpy(U, t, (size_t)tn);   /* counted text without a terminator */
        MC_CHECK(zpl_utf8_strnlen(U, tn) == n, "utf8_strnlen of unterminated text"); 
        for (int i = 0; i < n; i++) { unsigned char x[4]; long k = enc(x, cp[i]); MC_CHECK(zpl_utf8_codepoint_size(p, U + tn - p) == k, "codepoint_size in unterminated text"); MC_CHECK(zpl_utf8_decode(p, U + tn - p, NULL) == k, "decode in unterminated text"); p += k; } free(U); }
    for (int c = 1; c <= wn + 2; c++) { unsigned short *d = (unsigned short *)malloc((size_t)c * 2); zpl_u16 *r = zpl_utf8_to_ucs2(d, c, T);
        if (c > wn) { MC_CHECK(r == d && !memcmp(d, W, (size_t)(wn + 1) * 2), "utf8_to_ucs2 with room for %d of %d units", c, wn + 1); } else MC_CHECK(r == NULL, "utf8_to_ucs2 claims that %d units fit %d", wn + 1, c); free(d); }
    for (int c = 1; c <= tn + 2; c++) { unsigned char *d = (unsigned char *)malloc((size_t)c); zpl_u8 *r = zpl_ucs2_to_utf8(d, c, W);
        if (c > tn) { MC_CHECK(r == d && !memcmp(d, T, (size_t)tn + 1), "ucs2_to_utf8 with room for %d of %d bytes", c, tn + 1); } else MC_CHECK(r == NULL, "ucs2_to_utf8 claims that %d bytes fit %d", tn + 1, c); free(d); }
    MC_CHECK(!memcmp(zpl_utf8_to_ucs2_buf(T), W, (size_t)(wn + 1) * 2), "utf8_to_ucs2_buf"); MC_CHECK(!memcmp(zpl_ucs2_to_utf8_buf(W), T, (size_t)tn + 1), "ucs2_to_utf8_buf");
    free(T); free(W);
}
/* malformed text is refused by the conversions, whatever surrounds it */
static void s_bad(void) {
    int n = mc_choose(4) + 1; unsigned char t[8]; for (int i = 0; i < n; i++) t[i] = BB[1 + mc_choose(sizeof BB - 1)]; t[n] = 0; mc_trans(1);
    unsigned char *T = (unsigned char *)malloc((size_t)n + 1); memcpy(T, t, (size_t)n + 1); int ok = 1; long cp; for (int i = 0; i < n && ok;) { int w = ref(T + i, n - i, &cp); if (!w) ok = 0; i += w; }
    unsigned short *d = (unsigned short *)malloc(32); MC_CHECK((zpl_utf8_to_ucs2(d, 16, T) != NULL) == ok, "utf8_to_ucs2 %s %02x %02x %02x %02x", ok ? "refused well-formed" : "accepted malformed", t[0], t[1], n > 2 ? t[2] : 0, n > 3 ? t[3] : 0); free(d); free(T);
}
static const unsigned short WB[] = { 0x41, 0x80, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff };
static void s_badw(void) {
    int n = mc_choose(5) + 1; unsigned short t[8]; for (int i = 0; i < n; i++) t[i] = WB[mc_choose(10)]; t[n] = 0; mc_trans(1); int ok = 1;
    for (int i = 0; i < n && ok; i++) { if (t[i] >= 0xd800 && t[i] < 0xdc00) { if (t[i + 1] >= 0xdc00 && t[i + 1] < 0xe000) i++; else ok = 0; } else if (t[i] >= 0xdc00 && t[i] < 0xe000) ok = 0; }
    unsigned short *T = (unsigned short *)malloc((size_t)(n + 1) * 2); memcpy(T, t, (size_t)(n + 1) * 2); unsigned char *d = (unsigned char *)malloc(64);
    MC_CHECK((zpl_ucs2_to_utf8(d, 64, T) != NULL) == ok, "ucs2_to_utf8 %s", ok ? "refused well-formed text" : "accepted unpaired surrogates"); free(d); free(T);
}
/* long texts: lengths around powers of two, of one width or of all, with every kind of limit, and a defect at any place */
static void s_long(void) {
    static const int D[] = { 16, 63, 127, 255, 256, 1023, 4094, 4095, 4096, 32767, 65534, 65535, 65536, 70000, 140000 };
    int n = D[mc_choose(15)], kind = mc_choose(6), bad = mc_choose(5); mc_claim(); unsigned char *T = (unsigned char *)malloc((size_t)n * 4 + 4); unsigned short *W = (unsigned short *)malloc((size_t)(n * 2 + 2) * 2); long tn = 0, wn = 0; long *pos = (long *)malloc((size_t)(n + 1) * sizeof(long)); mc_state(mc_hash_u((uint64_t)n, (uint64_t)(kind * 5 + bad))); mc_trans(1);
    for (int i = 0; i < n; i++) { long c = kind == 0 ? 'a' + i % 26 : kind == 1 ? 0x80 + i % 0x780 : kind == 2 ? 0x800 + i % 0xd000 : kind == 3 ? 0x10000 + i % 0x100000 : kind == 4 ? CP[i % NCP] : i == n - 1 ? 0x1F600 : 'z'; pos[i] = tn; tn += enc(T + tn, c); if (c < 0x10000) W[wn++] = (unsigned short)c; else { W[wn++] = (unsigned short)(0xd800 + ((c - 0x10000) >> 10)); W[wn++] = (unsigned short)(0xdc00 + ((c - 0x10000) & 0x3ff)); } }
    pos[n] = tn; T[tn] = 0; W[wn] = 0; unsigned char *X = (unsigned char *)malloc((size_t)tn + 1); memcpy(X, T, (size_t)tn + 1); unsigned short *Y = (unsigned short *)malloc((size_t)(wn + 1) * 2); memcpy(Y, W, (size_t)(wn + 1) * 2);
    if (!bad) {
        MC_CHECK(zpl_utf8_strlen(X) == n && zpl_utf8_strnlen(X, tn) == n && zpl_utf8_strnlen(X, tn + 1) == n && zpl_utf8_strnlen(X, 1L << 40) == n, "the length of a text of %d code points", n); for (int i = 1; i <= n; i += i < 3 ? 1 : i == n ? 1 : i * 2 > n ? n - i : i) MC_CHECK(zpl_utf8_strnlen(X, pos[i]) == i, "the length of a text cut after %d code points", i);
        unsigned char *U = (unsigned char *)malloc((size_t)tn); memcpy(U, X, (size_t)tn); MC_CHECK(zpl_utf8_strnlen(U, tn) == n, "the length of %d unterminated code points", n); free(U);
        for (long c = wn - 2; c <= wn + 3; c++) { unsigned short *d = (unsigned short *)malloc((size_t)c * 2); zpl_u16 *r = zpl_utf8_to_ucs2(d, c, X); if (c > wn) MC_CHECK(r == d && !memcmp(d, W, (size_t)(wn + 1) * 2), "utf8_to_ucs2 of %ld units with room for %ld", wn + 1, c); else MC_CHECK(!r, "utf8_to_ucs2 claims that %ld units fit %ld", wn + 1, c); free(d); }
        for (long c = tn - 4; c <= tn + 3; c++) { unsigned char *d = (unsigned char *)malloc((size_t)c); zpl_u8 *r = zpl_ucs2_to_utf8(d, c, Y); if (c > tn) MC_CHECK(r == d && !memcmp(d, T, (size_t)tn + 1), "ucs2_to_utf8 of %ld bytes with room for %ld", tn + 1, c); else MC_CHECK(!r, "ucs2_to_utf8 claims that %ld bytes fit %ld", tn + 1, c); free(d); }
        zpl_u16 *w = zpl_utf8_to_ucs2_buf(X); MC_CHECK(wn < 4096 ? w && !memcmp(w, W, (size_t)(wn + 1) * 2) : !w || !memcmp(w, W, (size_t)(wn + 1) * 2), "utf8_to_ucs2_buf of %ld units", wn); zpl_u8 *t = zpl_ucs2_to_utf8_buf(Y); MC_CHECK(tn < 4096 ? t && !memcmp(t, T, (size_t)tn + 1) : !t || !memcmp(t, T, (size_t)tn + 1), "ucs2_to_utf8_buf of %ld bytes", tn);
    } else { /* one defect anywhere: a stray byte, a lone surrogate */
        long at = ((long[]){ 0, 0, n / 2, n - 2, n - 1 })[bad], b = pos[at]; X[b] = 0xff; unsigned short *d = (unsigned short *)malloc((size_t)(wn + 1) * 2); MC_CHECK(!zpl_utf8_to_ucs2(d, wn + 1, X), "a stray byte at %ld of %ld is accepted", b, tn); free(d);
        long wp = wn * at / n; Y[wp] = 0xdc00; if (wp) Y[wp - 1] = 'x'; unsigned char *e = (unsigned char *)malloc((size_t)tn + 4); MC_CHECK(!zpl_ucs2_to_utf8(e, tn + 4, Y), "a lone surrogate at %ld of %ld is accepted", wp, wn); free(e);
    }
    free(T); free(W); free(X); free(Y); free(pos);
}
mc_suite mc_suites[] = { { "long", s_long }, { "code_points", s_code }, { "bytes3", s_bytes }, { "bytes4", s_four }, { "texts", s_text }, { "malformed", s_bad }, { "surrogates", s_badw }, { 0 } };
