/* S01 - dynamic strings against a byte-sequence reference */
#include "z.h"
#define NB 4096
typedef struct { zpl_string s; unsigned char r[NB]; long n; } S;
static S A[2];
/* operands: pointer and length; some contain zero bytes, some reach growth boundaries */
static unsigned char big[600];
static struct { const void *p; long n; } OPS[] = { { "", 0 }, { "a", 1 }, { "b c", 3 }, { " x ", 3 }, { "\0z", 2 }, { "\xff\x80", 2 }, { big, 8 }, { big, 33 } };
static const char *CSTR[] = { "", "a", " b", "xyzw", "aaaaaaaaaaaaaaaa", "\t q \n" };
static const char *CUT[] = { "", "a", " ", "ab ", "xyzw\t\n " };
static void init(void) { for (int i = 0; i < 600; i++) big[i] = (unsigned char)('A' + i % 57); memset(A, 0, sizeof A); }
static void chk(S *s, const char *w) {
    MC_CHECK(s->s != NULL, "%s returned NULL", w);
    MC_CHECK(zpl_string_length(s->s) == s->n, "%s: length %ld, expected %ld", w, (long)zpl_string_length(s->s), s->n);
    MC_CHECK(!memcmp(s->s, s->r, (size_t)s->n), "%s: bytes differ", w);
    MC_CHECK(s->s[s->n] == 0, "%s: not terminated", w);
    zpl_isize cap = zpl_string_capacity(s->s), av = zpl_string_available_space(s->s); { zpl_isize z = zpl_string_allocation_size(s->s); MC_CHECK(z >= zpl_size_of(zpl_string_header) + cap && z <= zpl_size_of(zpl_string_header) + cap + 1, "the string says it takes %d bytes with a capacity of %d", (int)z, (int)cap); }
    MC_CHECK(cap >= s->n, "%s: capacity %ld below length %ld", w, (long)cap, s->n);
    MC_CHECK(av == cap - s->n, "%s: available space %ld with capacity %ld and length %ld", w, (long)av, (long)cap, s->n);
    for (long i = s->n + 1; i <= cap; i++) s->s[i] = (char)0xEE;        /* the capacity is really there (AddressSanitizer) */
}
static void fresh(int i) {
    S *s = &A[i]; int k = mc_choose(6); s->n = 0;
    if (k == 0) s->s = zpl_string_make(zpl_heap_allocator(), "");
    else if (k == 1) s->s = zpl_string_make(zpl_heap_allocator(), NULL);
    else if (k == 2) { s->s = zpl_string_make(zpl_heap_allocator(), "hello "); memcpy(s->r, "hello ", 6); s->n = 6; }
    else if (k == 3) { s->s = zpl_string_make_reserve(zpl_heap_allocator(), 5); MC_CHECK(s->s && zpl_string_capacity(s->s) >= 5, "reserve"); }
    else if (k == 4) { s->s = zpl_string_make_length(zpl_heap_allocator(), "\0a\0b", 4); memcpy(s->r, "\0a\0b", 4); s->n = 4; }
    else { s->s = zpl_string_make_length(zpl_heap_allocator(), NULL, 3); memset(s->r, 0, 3); s->n = 3; }
    mc_log("make %d\n", k); chk(s, "make");
}
static void app(S *s, const void *p, long n) { memcpy(s->r + s->n, p, (size_t)n); s->n += n; }
static int has(const char *c, int ch) { for (; *c; c++) if ((unsigned char)*c == ch) return 1; return 0; }
static void trim(S *s, const char *cut) {
    long a = 0, b = s->n; while (a < b && has(cut, s->r[a])) a++; while (b > a && has(cut, s->r[b - 1])) b--;
    memmove(s->r, s->r + a, (size_t)(b - a)); s->n = b - a;
}
static int nonul(S *s) { return !memchr(s->r, 0, (size_t)s->n); }
static const zpl_rune RUNES[] = { 'A', 0x7ff, 0x800, 0xffff, 0x10ffff, 0xe9, 0, 0x10000 };
static long enc(unsigned char *o, long r) {
    if (r < 0x80) { o[0] = r; return 1; } if (r < 0x800) { o[0] = 0xc0 | r >> 6; o[1] = 0x80 | (r & 63); return 2; }
    if (r < 0x10000) { o[0] = 0xe0 | r >> 12; o[1] = 0x80 | (r >> 6 & 63); o[2] = 0x80 | (r & 63); return 3; }
    o[0] = 0xf0 | r >> 18; o[1] = 0x80 | (r >> 12 & 63); o[2] = 0x80 | (r >> 6 & 63); o[3] = 0x80 | (r & 63); return 4;
}
static void step(int two) {
    int i = two ? mc_choose(2) : 0; S *s = &A[i], *o = &A[!i]; mc_trans(1);
    int k = mc_choose(two ? 10 : 8);
    switch (k) {
    case 0: { int a = mc_choose(8); mc_log("append_length %d\n", a); app(s, OPS[a].p, OPS[a].n); s->s = zpl_string_append_length(s->s, OPS[a].p, OPS[a].n); chk(s, "append_length"); } break;
    case 1: { int a = mc_choose(6); mc_log("appendc %d\n", a); app(s, CSTR[a], (long)strlen(CSTR[a])); s->s = zpl_string_appendc(s->s, CSTR[a]); chk(s, "appendc"); } break;
    case 2: { int a = mc_choose(6); mc_log("set %d\n", a); s->n = 0; app(s, CSTR[a], (long)strlen(CSTR[a])); s->s = zpl_string_set(s->s, CSTR[a]); chk(s, "set"); } break;
    case 3: mc_log("clear\n"); s->n = 0; zpl_string_clear(s->s); chk(s, "clear"); break;
    case 4: { int a = mc_choose(6); if (!nonul(s)) mc_prune(); mc_log("trim %d\n", a); if (a < 5) { trim(s, CUT[a]); s->s = zpl_string_trim(s->s, CUT[a]); } else { trim(s, " \t\r\n\v\f"); s->s = zpl_string_trim_space(s->s); } chk(s, "trim"); } break;
    case 5: { int a = mc_choose(4); static const int L[] = { 0, 1, 7, 40 }; mc_log("make_space_for %d\n", L[a]); s->s = zpl_string_make_space_for(s->s, L[a]); chk(s, "make_space_for"); MC_CHECK(zpl_string_available_space(s->s) >= L[a], "make_space_for left %ld of %d", (long)zpl_string_available_space(s->s), L[a]); } break;
    case 6: { int a = mc_choose(8); unsigned char b[4]; mc_log("append_rune %x\n", RUNES[a]); app(s, b, enc(b, RUNES[a])); s->s = zpl_string_append_rune(s->s, RUNES[a]); chk(s, "append_rune"); } break;
    case 7: { int a = mc_choose(3); mc_log("append_fmt %d\n", a); char b[64]; int n = a == 0 ? sprintf(b, "%d/%s", -7, "ab") : a == 1 ? 0 : sprintf(b, "%5x|", 0xbee); app(s, b, n);
        s->s = a == 0 ? zpl_string_append_fmt(s->s, "%d/%s", -7, "ab") : a == 1 ? zpl_string_append_fmt(s->s, "%s", "") : zpl_string_append_fmt(s->s, "%5x|", 0xbee); chk(s, "append_fmt"); } break;
    case 8: mc_log("append other\n"); app(s, o->r, o->n); s->s = zpl_string_append(s->s, o->s); chk(s, "append"); break;
    case 9: mc_log("duplicate\n"); zpl_string_free(s->s); s->n = 0; app(s, o->r, o->n); s->s = zpl_string_duplicate(zpl_heap_allocator(), o->s); chk(s, "duplicate"); break;
    }
    MC_CHECK(zpl_string_length(s->s) <= NB / 2, "harness: too long");
    if (two) { chk(o, "the other string"); int eq = s->n == o->n && !memcmp(s->r, o->r, (size_t)s->n);
        MC_CHECK(!!zpl_string_are_equal(s->s, o->s) == eq, "are_equal wrong (%d expected)", eq); MC_CHECK(!!zpl_string_are_equal(o->s, s->s) == eq, "are_equal wrong (%d expected)", eq); }
    mc_state(mc_hash_u(mc_hash(mc_hash_u(7, (uint64_t)zpl_string_capacity(s->s)), s->r, (size_t)s->n), two ? mc_hash(3, o->r, (size_t)o->n) : 1));
}
static void s_one(void) { init(); fresh(0); for (int d = mc_thorough ? 5 : 4; d--;) step(0); zpl_string_free(A[0].s); }
static void s_two(void) { init(); fresh(0); fresh(1); for (int d = mc_thorough ? 4 : 3; d--;) step(1); zpl_string_free(A[0].s); zpl_string_free(A[1].s); }
static void s_join(void) {
    init(); const char *parts[4]; int n = mc_choose(5); const char *glue = ((const char *[]){ "", ",", "--" })[mc_choose(3)]; S *s = &A[0]; s->n = 0;
    for (int i = 0; i < n; i++) { parts[i] = CSTR[mc_choose(6)]; app(s, parts[i], (long)strlen(parts[i])); if (i + 1 < n) app(s, glue, (long)strlen(glue)); }
    s->s = zpl_string_join(zpl_heap_allocator(), parts, n, glue); chk(s, "join"); mc_trans(1); zpl_string_free(s->s);
}
/* printed strings, all lengths up to and over the internal buffer */
static void s_fmt(void) {
    init(); static const int L[] = { 0, 1, 63, 64, 4000, 65533, 65534, 65535, 65536, 65537, 70000 };
    int n = L[mc_choose(11)], k = mc_choose(3); char *b = (char *)malloc((size_t)n + 1); memset(b, 'q', (size_t)n); b[n] = 0; zpl_string s; mc_trans(1);
    if (k == 0) s = zpl_string_sprintf_buf(zpl_heap_allocator(), "%s", b);
    else if (k == 1) { char *t = (char *)malloc((size_t)n + 1); s = zpl_string_sprintf(zpl_heap_allocator(), t, n + 1, "%s", b); free(t); }
    else { s = zpl_string_make(zpl_heap_allocator(), ""); s = zpl_string_append_fmt(s, "%s", b); }
    MC_CHECK(s != NULL, "NULL"); zpl_isize l = zpl_string_length(s);
    MC_CHECK(n <= 65000 || k == 1 ? l == n : (l >= 65000 && l <= n), "%d characters printed, %ld kept", n, (long)l);
    MC_CHECK(!memcmp(s, b, (size_t)l) && s[l] == 0, "printed text differs"); zpl_string_free(s); free(b);
}
/* long strings: lengths around powers of two reached by every kind of growth */
static void s_long(void) {
    static const long D[] = { 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 32767, 65535, 65536, 70000, 140000, 300000 }; long n = D[mc_choose(16)] + (long)mc_choose(3) - 1; int from = mc_choose(4), more = mc_choose(7); mc_claim(); mc_trans(2); unsigned char *r = malloc((size_t)n * 2 + 600); long m = 0; zpl_string s; init(); mc_state(mc_hash_u((uint64_t)n, (uint64_t)(from * 8 + more)));
    for (long i = 0; i < n; i++) r[i] = (unsigned char)('a' + (i * 7 + i / 26) % 26); r[n] = 0;
    if (from == 0) s = zpl_string_make_length(zpl_heap_allocator(), r, n); else if (from == 1) s = zpl_string_make(zpl_heap_allocator(), (char *)r); else if (from == 2) { s = zpl_string_make_reserve(zpl_heap_allocator(), n); MC_CHECK(s && zpl_string_capacity(s) >= n, "reserving %ld", n); s = zpl_string_append_length(s, r, n); } else { s = zpl_string_make(zpl_heap_allocator(), ""); for (long i = 0; i < n; i += 97) s = zpl_string_append_length(s, r + i, n - i < 97 ? n - i : 97); }
    m = n;
#define IS(w) do { MC_CHECK(s && zpl_string_length(s) == m, "%s: length %ld, expected %ld", w, s ? (long)zpl_string_length(s) : -1, m); MC_CHECK(!memcmp(s, r, (size_t)m) && !s[m], "%s: the bytes of a string of %ld differ", w, m); zpl_isize c_ = zpl_string_capacity(s); MC_CHECK(c_ >= m && zpl_string_available_space(s) == c_ - m, "%s: capacity %ld of a string of %ld", w, (long)c_, m); for (long i_ = m + 1; i_ <= c_; i_++) s[i_] = (char)0xEE; } while (0)
    IS("made"); 
    if (more == 0) { s = zpl_string_append_length(s, big, 500); memcpy(r + m, big, 500); m += 500; } else if (more == 1) { zpl_string o = zpl_string_duplicate(zpl_heap_allocator(), s); MC_CHECK(o && zpl_string_are_equal(o, s), "a duplicate of %ld bytes", n); o[n - 1] ^= 1; MC_CHECK(!zpl_string_are_equal(o, s), "strings that differ in byte %ld are equal", n - 1); s = zpl_string_append(s, o); memcpy(r + m, r, (size_t)m); r[2 * m - 1] ^= 1; m *= 2; zpl_string_free(o); }
    else if (more == 2) { s = zpl_string_make_space_for(s, n); MC_CHECK(zpl_string_available_space(s) >= n, "space"); } else if (more == 3) { s = zpl_string_append_rune(s, 0x20AC); memcpy(r + m, "\xE2\x82\xAC", 3); m += 3; } else if (more == 4) { zpl_string_clear(s); m = 0; } else if (more == 5) { for (long i = 0; i < n / 2 - 1; i++) s[i] = r[i] = ' '; for (long i = n - n / 3; i < n; i++) s[i] = r[i] = '\n'; s = zpl_string_trim_space(s); m = n - n / 3 - (n / 2 - 1); memmove(r, r + n / 2 - 1, (size_t)m); }
    else { r[0] = '#'; s = zpl_string_set(s, (char *)r); }
    IS("changed"); s = zpl_string_appendc(s, "tail"); memcpy(r + m, "tail", 4); m += 4; IS("appended to"); zpl_string_free(s);
    const char *parts[3] = { (char *)r, "x", (char *)r }; r[m] = 0; if (more == 0) { s = zpl_string_join(zpl_heap_allocator(), parts, 3, ";"); MC_CHECK(s && zpl_string_length(s) == 2 * m + 3 && !memcmp(s, r, (size_t)m) && !memcmp(s + m, ";x;", 3) && !memcmp(s + m + 3, r, (size_t)m), "joining %ld bytes", m); zpl_string_free(s); }
    free(r);
}
mc_suite mc_suites[] = { { "long", s_long }, { "one_string", s_one }, { "two_strings", s_two }, { "join", s_join }, { "printed", s_fmt }, { 0 } };
