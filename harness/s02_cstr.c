/* S02 - C-string helpers on exactly sized buffers against plain definitions */
#include "z.h"
static void *pool[256]; static int np;
static char *xs(const char *s, long n) { char *p = (char *)malloc((size_t)n + 1); memcpy(p, s, (size_t)n); p[n] = 0; pool[np++] = p; return p; }   /* exactly n + 1 bytes */
static char *xb(long n) { char *p = (char *)malloc((size_t)(n > 0 ? n : 1)); memset(p, '#', (size_t)(n > 0 ? n : 1)); pool[np++] = p; return p; }  /* destination of exactly n bytes */
static void done(void) { while (np) free(pool[--np]); }
/* a string of up to max letters of the alphabet */
static char *str(const char *al, int max, long *n) { char b[64]; int l = mc_choose((uint32_t)max + 1); for (int i = 0; i < l; i++) b[i] = al[mc_choose((uint32_t)strlen(al))]; if (n) *n = l; return xs(b, l); }
static int sgn(long v) { return v < 0 ? -1 : v > 0; }
#define INB(s, l) mc_log("%s=\"%s\"\n", #s, s)
static int T(int a, int b) { return mc_thorough ? b : a; }

static void s_cmp(void) {
    np = 0; long n, m; char *a = str("ab\xe9", T(6, 7), &n), *b = str("ab\xe9", T(6, 7), &m); mc_trans(1); INB(a, n); INB(b, m);
    MC_CHECK(zpl_strlen(a) == n, "strlen");
    MC_CHECK(sgn(zpl_strcmp(a, b)) == sgn(strcmp(a, b)), "strcmp gives %d", zpl_strcmp(a, b));
    for (int l = 0; l <= 9; l++) {
        MC_CHECK(sgn(zpl_strncmp(a, b, l)) == sgn(strncmp(a, b, (size_t)l)), "strncmp limit %d gives %d", l, zpl_strncmp(a, b, l));
        MC_CHECK(zpl_strnlen(a, l) == (long)strnlen(a, (size_t)l), "strnlen limit %d", l);
    }
    MC_CHECK(!!zpl_str_has_prefix(a, b) == !strncmp(a, b, (size_t)m), "has_prefix");
    MC_CHECK(!!zpl_str_has_suffix(a, b) == (m <= n && !strcmp(a + n - m, b)), "has_suffix");
    /* bounded comparison and length of unterminated data */
    char *u = (char *)malloc((size_t)(n ? n : 1)); memcpy(u, a, (size_t)n); pool[np++] = u;
    MC_CHECK(zpl_strnlen(u, n) == n, "strnlen of unterminated data");
    MC_CHECK(sgn(zpl_strncmp(u, b, n)) == sgn(strncmp(a, b, (size_t)n)), "strncmp of unterminated data");
    done();
}
static void s_copy(void) {
    np = 0; long n, m; char *a = str("abc", T(8, 9), &n), *b = str("ab", 3, &m); mc_trans(1); INB(a, n); INB(b, m);
    char *d = xb(n + 1); MC_CHECK(zpl_strcpy(d, a) == d, "strcpy return"); MC_CHECK(!memcmp(d, a, (size_t)n + 1), "strcpy result");
    d = xb(n + m + 1); memcpy(d, a, (size_t)n + 1); MC_CHECK(zpl_strcat(d, b) == d, "strcat return"); MC_CHECK(!memcmp(d, a, (size_t)n) && !memcmp(d + n, b, (size_t)m + 1), "strcat result");
    for (int l = 0; l <= 11; l++) {
        char *e = xb(l); MC_CHECK(zpl_strncpy(e, a, l) == e, "strncpy return"); char r[16]; memset(r, '#', 16); strncpy(r, a, (size_t)l);
        MC_CHECK(!memcmp(e, r, (size_t)l), "strncpy limit %d", l); if (!l) MC_CHECK(e[0] == '#', "strncpy limit 0 wrote");
        e = xb(l); zpl_isize k = zpl_strlcpy(e, a, l); if (l) { long c = n < l - 1 ? n : l - 1; MC_CHECK(!memcmp(e, a, (size_t)c) && e[c] == 0, "strlcpy size %d: not the terminated prefix", l); MC_CHECK(k == c || k == n, "strlcpy size %d returned %ld", l, (long)k); } else MC_CHECK(e[0] == '#', "strlcpy size 0 wrote");
    }
    for (int l = 0; l <= 11; l++) { char *q = zpl_strdup(zpl_heap_allocator(), a, l); MC_CHECK(q, "strdup NULL"); zpl_isize k = zpl_strlen(q);
        MC_CHECK(!memcmp(q, a, (size_t)k) && (k == (n < l ? n : l) || k == (n < l ? n : (l ? l - 1 : 0))), "strdup max %d of %ld gives length %ld", l, n, (long)k); zpl_free(zpl_heap_allocator(), q); }
    d = xb(n + m + 1); zpl_str_concat(d, n + m + 1, a, n, b, m); MC_CHECK(!memcmp(d, a, (size_t)n) && !memcmp(d + n, b, (size_t)m + 1), "str_concat");
    char *r = zpl_alloc_str(zpl_heap_allocator(), a); MC_CHECK(r && !strcmp(r, a), "alloc_str"); zpl_free(zpl_heap_allocator(), r);
    r = zpl_alloc_str_len(zpl_heap_allocator(), a, n / 2); MC_CHECK(r && !memcmp(r, a, (size_t)(n / 2)) && !r[n / 2], "alloc_str_len"); zpl_free(zpl_heap_allocator(), r);
    r = xs(a, n); zpl_strrev(r); for (long i = 0; i < n; i++) MC_CHECK(r[i] == a[n - 1 - i], "strrev"); MC_CHECK(r[n] == 0, "strrev terminator");
    done();
}
static void s_search(void) {
    np = 0; long n; char *a = str("ab,;", T(8, 9), &n); char c = "ab,;x"[mc_choose(5)]; mc_trans(1); INB(a, n); mc_log("c=%c\n", c);
    MC_CHECK(zpl_char_first_occurence(a, c) == strchr(a, c), "char_first_occurence"); MC_CHECK(zpl_char_last_occurence(a, c) == strrchr(a, c), "char_last_occurence");
    MC_CHECK(zpl_char_first_occurence(a, 0) == a + n && zpl_char_last_occurence(a, 0) == a + n, "occurence of the terminator");
    const char *e = strchr(a, c); MC_CHECK(zpl_str_skip(a, c) == (e ? e : a + n), "str_skip");
    const char *sets[] = { "", ",", ",;", "xb", "x" }; for (int i = 0; i < 5; i++) MC_CHECK(zpl_str_skip_any(a, sets[i]) == a + strcspn(a, sets[i]), "str_skip_any \"%s\"", sets[i]);
    done();
}
static void s_tok(void) {
    np = 0; long n; char *a = str("ab,;", T(8, 9), &n); const char *dl = ((const char *[]){ ",", ",;", "", "a" })[mc_choose(4)]; mc_trans(1); INB(a, n); mc_log("delim=\"%s\"\n", dl);
    const char *p = a; int k = 0;
    for (;;) { long t = (long)strcspn(p, dl); char *o = xb(t + 1); const char *q = zpl_strtok(o, p, dl);
        MC_CHECK(!memcmp(o, p, (size_t)t) && o[t] == 0, "strtok token at %ld", (long)(p - a)); MC_CHECK(q == p + t + (p[t] != 0), "strtok next position");
        for (int l = 1; l <= 5; l++) { char *b = xb(l); const char *q2 = zpl_strntok(b, l, p, dl); long c = t < l - 1 ? t : l - 1;
            MC_CHECK(!memcmp(b, p, (size_t)c) && b[c] == 0, "strntok size %d at %ld: not the terminated prefix of the token", l, (long)(p - a)); if (c == t) MC_CHECK(q2 == q, "strntok next position"); else MC_CHECK(q2 > p && q2 <= a + n, "strntok left the text"); }
        p = q; if (!*p || ++k > 9) break; }
    done();
}
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void s_trim(void) {
    np = 0; long n; char *a = str(" \n\tx", T(8, 9), &n); mc_trans(1); INB(a, n);
    long i = 0; while (i < n && sp(a[i])) i++; MC_CHECK(zpl_str_trim(a, false) == a + i, "str_trim");
    i = 0; while (i < n && sp(a[i]) && a[i] != '\n') i++; MC_CHECK(zpl_str_trim(a, true) == a + i, "str_trim stopping at newlines");
    done();
}
/* position of the first unescaped c, where a backslash escapes the next character */
static long lit(const char *a, char c) { long i = 0; while (a[i] && a[i] != c) { if (a[i] == '\\' && a[i + 1]) i++; i++; } return i; }
static void s_quote(void) {
    np = 0; long n; char *a = str("a\\\"n", T(8, 9), &n); char c = mc_choose(2) ? '"' : 'n'; mc_trans(1); INB(a, n); mc_log("c=%c\n", c);
    MC_CHECK(zpl_str_skip_literal(a, c) == a + lit(a, c), "str_skip_literal stops at %ld, expected %ld", (long)(zpl_str_skip_literal(a, c) - a), lit(a, c));
    MC_CHECK(zpl_str_control_skip(a, c) == a + lit(a, c), "str_control_skip stops at %ld, expected %ld", (long)(zpl_str_control_skip(a, c) - a), lit(a, c));
    /* a character that has no escape form ends the text even behind a backslash */
    long i = (long)strcspn(a, "a"); MC_CHECK(zpl_str_control_skip(a, 'a') <= a + n, "left the text"); (void)i;
    done();
}
static void s_lines(void) {
    np = 0; long n; char *a = str("a\n\r ", T(9, 10), &n), strip = (char)mc_choose(2); mc_trans(1); INB(a, n);
    /* lines end at a newline; one carriage return in front of it is dropped; a last line needs no newline */
    char *src = xs(a, n); char **L = zpl_str_split_lines(zpl_heap_allocator(), src, strip); MC_CHECK(L, "NULL"); long k = 0, p = 0;
    while (p < n) { char *nl = (char *)memchr(a + p, '\n', (size_t)(n - p)); long e = nl ? nl - a : n, l = e - p; int skip = strip && l == 0; 
        if (l && a[e - 1] == '\r') l--;
        if (!skip) { MC_CHECK(k < zpl_array_count(L), "only %ld lines", (long)zpl_array_count(L)); MC_CHECK((long)strlen(L[k]) == l && !memcmp(L[k], a + p, (size_t)l), "line %ld differs: \"%s\"", k, L[k]); MC_CHECK(L[k] >= src && L[k] <= src + n, "line outside the text"); k++; }
        p = e + 1; }
    MC_CHECK(zpl_array_count(L) == k, "%ld lines, expected %ld", (long)zpl_array_count(L), k);
    zpl_array_free(L); done();
}
static void s_chars(void) {
    int c = (int)mc_choose(256); char h = (char)c; mc_trans(1); char b[3] = { h, 0, 0 };
    MC_CHECK(zpl_char_to_lower(h) == (c >= 'A' && c <= 'Z' ? (char)(c + 32) : h), "to_lower %d", c); MC_CHECK(zpl_char_to_upper(h) == (c >= 'a' && c <= 'z' ? (char)(c - 32) : h), "to_upper %d", c);
    MC_CHECK(!!zpl_char_is_space(h) == sp(h), "is_space %d", c); int dg = c >= '0' && c <= '9', al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), hx = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    MC_CHECK(!!zpl_char_is_digit(h) == dg, "is_digit %d", c); MC_CHECK(!!zpl_char_is_alpha(h) == al, "is_alpha %d", c); MC_CHECK(!!zpl_char_is_alphanumeric(h) == (al || dg), "is_alphanumeric %d", c); MC_CHECK(!!zpl_char_is_hex_digit(h) == hx, "is_hex_digit %d", c);
    int v = dg ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10;
    if (hx) { MC_CHECK(zpl_hex_digit_to_int(h) == v, "hex_digit_to_int %d", c); MC_CHECK(zpl_char_to_hex_digit(h) == v, "char_to_hex_digit %d", c); }
    if (dg) MC_CHECK(zpl_digit_to_int(h) == v, "digit_to_int %d", c);
    if (c) MC_CHECK(!!zpl_char_is_control(h) == !!strchr("\"\\/bfnrt", c), "is_control %d", c);
    zpl_str_to_lower(b); MC_CHECK(b[0] == zpl_char_to_lower(h) && !b[1], "str_to_lower"); b[0] = h; zpl_str_to_upper(b); MC_CHECK(b[0] == zpl_char_to_upper(h) && !b[1], "str_to_upper");
    mc_state((uint64_t)c + 1);
}
static void s_case(void) { np = 0; long n; char *a = str("aZ@[", 6, &n), *b = xs(a, n), *d = xs(a, n); zpl_str_to_lower(b); zpl_str_to_upper(d); mc_trans(1);
    for (long i = 0; i <= n; i++) MC_CHECK(b[i] == (a[i] == 'Z' ? 'z' : a[i]) && d[i] == (a[i] == 'a' ? 'A' : a[i]), "case conversion at %ld", i); done(); }
/* the same helpers on long texts: every length around a power of two, with the character that matters anywhere */
static void s_long(void) {
    static const long D[] = { 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 140000 };
    long n = D[mc_choose(34)]; int k = mc_choose(9), ch = mc_choose(3); long at = (long[]){ 0, 1, 2, 7, 8, n / 2, n - 2, n - 1, -1 }[k]; mc_claim(); np = 0; mc_trans(1); char x = ",\n\xe9"[ch]; mc_state(mc_hash_u((uint64_t)n, (uint64_t)(k * 4 + ch)));
    char *f = malloc((size_t)n + 1); for (long i = 0; i < n; i++) f[i] = (char)('a' + (i * 7 + i / 26) % 26); f[n] = 0; char *a = xs(f, n), *b = xs(f, n); if (at >= 0) b[at] = x; char *u = xb(n); memcpy(u, b, (size_t)n); free(f);
    MC_CHECK(zpl_strlen(b) == n && zpl_utf8_strlen((zpl_u8 *)a) == n, "the length of %ld characters", n); MC_CHECK(zpl_strnlen(u, n) == n && zpl_strnlen(b, n - 1) == n - 1 && zpl_strnlen(b, n + 1) == n && zpl_strnlen(b, 1L << 40) == n, "the bounded length of %ld characters", n);
    MC_CHECK(sgn(zpl_strcmp(a, b)) == sgn(strcmp(a, b)) && sgn(zpl_strcmp(b, a)) == -sgn(strcmp(a, b)), "comparing %ld characters that differ at %ld", n, at); for (long l = at < 0 ? n - 1 : at; l <= (at < 0 ? n + 1 : at + 1); l++) MC_CHECK(sgn(zpl_strncmp(a, b, l)) == sgn(strncmp(a, b, (size_t)l)), "comparing %ld of %ld characters that differ at %ld", l, n, at); MC_CHECK(sgn(zpl_strncmp(a, u, n)) == sgn(strncmp(a, b, (size_t)n)), "comparing with unterminated data");
    MC_CHECK(zpl_char_first_occurence(b, x) == strchr(b, x) && zpl_char_last_occurence(b, x) == strrchr(b, x), "finding a character at %ld of %ld", at, n); MC_CHECK(zpl_char_first_occurence(a, 'q') == strchr(a, 'q') && zpl_char_last_occurence(a, 'q') == strrchr(a, 'q') && zpl_char_last_occurence(a, 'a') == strrchr(a, 'a'), "finding a character in %ld", n); const char *e = strchr(b, x); if (!e) e = b + n; MC_CHECK(zpl_str_skip(b, x) == e, "skipping to %ld of %ld", at, n); char set[4] = { '!', x, 0 }; MC_CHECK(zpl_str_skip_any(b, set) == e, "skipping to %ld of %ld", at, n); MC_CHECK(zpl_str_skip_literal(b, x) == e, "skipping a literal that ends at %ld of %ld", at, n); 
    MC_CHECK(zpl_str_has_prefix(b, b) && zpl_str_has_suffix(b, b) && !!zpl_str_has_prefix(a, b) == (at < 0) && !!zpl_str_has_suffix(a, b) == (at < 0), "prefix and suffix of %ld characters", n); if (n > 1) MC_CHECK(zpl_str_has_suffix(b, b + 1) && zpl_str_has_suffix(b, b + n - 1) && !zpl_str_has_prefix(b + 1, b), "suffixes of %ld characters", n);
    char *d = xb(n + 1); MC_CHECK(zpl_strcpy(d, b) == d && !memcmp(d, b, (size_t)n + 1), "copying %ld characters", n); d = xb(2 * n + 1); memcpy(d, a, (size_t)n + 1); MC_CHECK(zpl_strcat(d, b) == d && !memcmp(d, a, (size_t)n) && !memcmp(d + n, b, (size_t)n + 1), "appending %ld characters", n); d = xb(2 * n + 1); zpl_str_concat(d, 2 * n + 1, a, n, b, n); MC_CHECK(!memcmp(d, a, (size_t)n) && !memcmp(d + n, b, (size_t)n + 1), "joining %ld characters", n);
    for (long l = n - 1; l <= n + 9; l += l == n + 1 ? 8 : 1) { d = xb(l); zpl_strncpy(d, b, l); long c = l < n ? l : n; MC_CHECK(!memcmp(d, b, (size_t)c), "copying %ld of %ld characters", l, n); for (long i = c; i < l; i++) MC_CHECK(!d[i], "the copy of %ld characters is not filled up to %ld", n, l); d = xb(l); zpl_isize r = zpl_strlcpy(d, b, l); c = n < l - 1 ? n : l - 1; MC_CHECK(!memcmp(d, b, (size_t)c) && !d[c] && (r == c || r == n), "copying %ld characters into %ld bytes", n, l); }
    if (n < 5000) for (long l = n; l < 9000; l += 1 + l / 3) { d = xb(l + 1); zpl_strncpy(d, b, l + 1); MC_CHECK(!memcmp(d, b, (size_t)n), "copying %ld characters into %ld bytes", n, l + 1); for (long i = n; i <= l; i++) MC_CHECK(!d[i], "the copy of %ld characters is not filled up to %ld", n, l + 1); d = xb(l + 1); zpl_isize r = zpl_strlcpy(d, b, l + 1); MC_CHECK(r == n && !memcmp(d, b, (size_t)n + 1), "copying %ld characters into %ld bytes", n, l + 1); }
    { char *sx = xs(a, n); for (long i = 0; i < n; i++) sx[i] = (char)(i % 2 ? '!' : '?'); if (at >= 0) sx[at] = x; char *one = xs("_", 1); one[0] = x; char tx[4] = { 'a', x, 'b', 0 }; long w = at >= 0; MC_CHECK(zpl_str_skip_any(tx, sx) == tx + (w ? 1 : 3), "skipping to any of %ld characters", n); d = xb(4); const char *nx = zpl_strtok(d, tx, sx); MC_CHECK(!strcmp(d, w ? "a" : tx) && nx == tx + (w ? 2 : 3), "a token ended by any of %ld characters", n); }
    char *q = zpl_strdup(zpl_heap_allocator(), b, n + 1); MC_CHECK(q && !strcmp(q, b), "duplicating %ld characters", n); zpl_free(zpl_heap_allocator(), q); q = zpl_alloc_str(zpl_heap_allocator(), b); MC_CHECK(q && !strcmp(q, b), "duplicating %ld characters", n); zpl_free(zpl_heap_allocator(), q);
    d = xs(b, n); zpl_strrev(d); for (long i = 0; i < n; i++) MC_CHECK(d[i] == b[n - 1 - i], "reversing %ld characters: position %ld", n, i); d = xs(b, n); zpl_str_to_upper(d); for (long i = 0; i < n; i++) MC_CHECK(d[i] == (b[i] >= 'a' && b[i] <= 'z' ? b[i] - 32 : b[i]), "upper case of %ld characters: position %ld", n, i); zpl_str_to_lower(d); MC_CHECK(!memcmp(d, b, (size_t)n + 1), "lower case of %ld characters", n);
    d = xb(n + 1); const char *nx = zpl_strtok(d, b, set); long t = e - b; MC_CHECK(!memcmp(d, b, (size_t)t) && !d[t] && nx == e + (*e != 0), "a token of %ld characters", t); if (t > 1) { d = xb(t); zpl_strntok(d, t, b, set); MC_CHECK(!memcmp(d, b, (size_t)t - 1) && !d[t - 1], "a token of %ld characters cut to %ld", t, t - 1); }
    memset(b, ' ', (size_t)n); if (at >= 0) b[at] = 'v'; MC_CHECK(zpl_str_trim(b, false) == (at < 0 ? b + n : b + at), "trimming in front of %ld", at); memset(b, '\n', (size_t)n); if (at >= 0) b[at] = 'v'; char **L = zpl_str_split_lines(zpl_heap_allocator(), b, ch == 0); long lines = ch == 0 ? at >= 0 : at == n - 1 ? n : n - (at >= 0); MC_CHECK(L && zpl_array_count(L) == lines, "%ld lines, expected %ld", (long)zpl_array_count(L), lines); for (long i = 0; i < lines; i++) MC_CHECK(!strcmp(L[i], (ch == 0 ? at >= 0 : i == at) ? "v" : ""), "line %ld is \"%s\"", i, L[i]); zpl_array_free(L);
    done();
}
mc_suite mc_suites[] = { { "long", s_long }, { "compare", s_cmp }, { "copy", s_copy }, { "search", s_search }, { "token", s_tok }, { "trim", s_trim }, { "quoted", s_quote }, { "lines", s_lines }, { "chars", s_chars }, { "case", s_case }, { 0 } };
