/* J01: the JSON parser on every text; J02: meaning and round trip. -DPROP=1 / -DPROP=2 */
#include "z.h"
#include <math.h>
#ifndef PROP
#define PROP 2
#endif
/* ------------------------------------------------------------------ reference parser */
typedef struct rn { int type, con; const char *name; int nlen; const char *str; int slen; double rv; long long iv; struct rn *ch[64]; int n; } rn;
static rn rp[512]; static int rnp; static int r_strict;
static rn *r_new(void) { if (rnp == 512) mc_fail("harness: reference pool"); rn *x = &rp[rnp++]; x->n = 0; x->con = 0; x->name = x->str = NULL; x->type = 0; return x; }
static int sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static const char *ws(const char *p, int stopnl) {
    for (;;) {
        if (!r_strict && p[0] == '/' && p[1] == '/') { while (*p && *p != '\n') p++; }
        else if (!r_strict && p[0] == '/' && p[1] == '*') { const char *q = strstr(p + 2, "*/"); p = q ? q + 2 : p + strlen(p); }
        else if (*p == '\n' && stopnl) return p;
        else if (sp(*p)) p++;
        else return p;
    }
}
static int dig(char c) { return c >= '0' && c <= '9'; }
static int hex(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int alp(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int idc(char c) { return alp(c) || dig(c) || c == '_' || c == '$'; }
/* end of the number at p or NULL; fills the node */
static const char *r_number(rn *x, const char *p) {
    const char *b = p; int neg = 0, ip = 0, fp = 0, real = 0, nd = 0, fd = 0; if (*p == '+' || *p == '-') neg = *p++ == '-';
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && hex(p[2])) {
        p += 2; unsigned long long v = 0; while (hex(*p)) { v = v * 16 + (unsigned)(dig(*p) ? *p - '0' : (*p | 32) - 'a' + 10); p++; }
        if (*p == '.') return NULL; x->type = ZPL_ADT_TYPE_INTEGER; x->iv = (long long)(neg ? 0 - v : v); return p;
    }
    while (dig(*p)) p++, ip++; nd = ip;
    if (*p == '.') { real = 1; p++; while (dig(*p)) p++, fd++; fp = fd; }
    if (ip + fp == 0) return NULL;
    int ex = 0; long e10 = 0; if (*p == 'e' || *p == 'E') { const char *q = p + 1; int en = 0; if (*q == '+' || *q == '-') en = *q++ == '-'; if (dig(*q)) { ex = 1; e10 = strtol(q, NULL, 10); if (e10 > 5000) e10 = 5000; if (en) { e10 = -e10; real = 1; } while (dig(*q)) q++; p = q; } }
    if (*p == '.') return NULL;
    char t[600]; int n = (int)(p - b); if (n > 598) n = 598; memcpy(t, b, n); t[n] = 0; if (*t == '+') memmove(t, t + 1, n);
    if (!real) { errno = 0; long long v = strtoll(t, NULL, 10); int over = errno != 0; if (ex) for (long k = 0; k < e10 && v && !over; k++) { unsigned long long m = v < 0 ? 0 - (unsigned long long)v : (unsigned long long)v; if (m > 9223372036854775807ull / 10) over = 1; else v *= 10; } if (!over) { x->type = ZPL_ADT_TYPE_INTEGER; x->iv = v; return p; } }
    x->type = ZPL_ADT_TYPE_REAL; x->rv = strtod(t, NULL); (void)nd; return p;
}
static int s_number_ok(const char *b, const char *e) { /* JSON number grammar */
    if (*b == '-') b++; if (b >= e || !dig(*b)) return 0; if (*b == '0' && dig(b[1])) return 0; while (dig(*b)) b++;
    if (b < e && *b == '.') { b++; if (!dig(*b)) return 0; while (dig(*b)) b++; }
    if (b < e && (*b == 'e' || *b == 'E')) { b++; if (*b == '+' || *b == '-') b++; if (!dig(*b)) return 0; while (dig(*b)) b++; }
    return b == e;
}
static const char *r_obj(rn *x, const char *p, int root);
static const char *r_arr(rn *x, const char *p);
static const char *r_value(rn *x, const char *p) {
    static const struct { const char *w; int con; double v; } K[] = { { "true", ZPL_ADT_PROPS_TRUE, 1 }, { "false", ZPL_ADT_PROPS_FALSE, 0 }, { "null", ZPL_ADT_PROPS_NULL, 0 }, { "Infinity", ZPL_ADT_PROPS_INFINITY, INFINITY }, { "-Infinity", ZPL_ADT_PROPS_INFINITY_NEG, -INFINITY }, { "NaN", ZPL_ADT_PROPS_NAN, NAN }, { "-NaN", ZPL_ADT_PROPS_NAN_NEG, NAN } };
    if (*p == '{') return r_obj(x, p, 0);
    if (*p == '[') return r_arr(x, p);
    if (*p == '"' || (!r_strict && (*p == '\'' || *p == '`'))) {
        char c = *p++; x->type = c == '`' ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING; x->str = p;
        while (*p && *p != c) { if (r_strict && (unsigned char)*p < 32) return NULL; if (*p == '\\') { if (r_strict && p[1] == 'u') { if (!hex(p[2]) || !hex(p[3]) || !hex(p[4]) || !hex(p[5])) return NULL; } else if (r_strict && (!p[1] || !strchr("\"\\/bfnrt", p[1]))) return NULL; if (p[1]) p++; } p++; }
        if (!*p) return NULL; x->slen = (int)(p - x->str); return p + 1;
    }
    for (int i = 0; i < (r_strict ? 3 : 7); i++) { size_t n = strlen(K[i].w); if (!strncmp(p, K[i].w, n)) { x->type = ZPL_ADT_TYPE_REAL; x->con = K[i].con; x->rv = K[i].v; return p + n; } }
    const char *e = r_number(x, p); if (!e) return NULL; if (r_strict && !s_number_ok(p, e)) return NULL; return e;
}
static const char *r_arr(rn *x, const char *p) {
    x->type = ZPL_ADT_TYPE_ARRAY; p = ws(p + 1, 0); if (*p == ']') return p + 1;
    for (;;) {
        rn *c = r_new(); p = r_value(c, p); if (!p) return NULL; x->ch[x->n++] = c; p = ws(p, 0);
        if (*p == ']') return p + 1; if (*p != ',') return NULL; p = ws(p + 1, 0); if (*p == ']' && !r_strict) return p + 1;
    }
}
static const char *r_name(rn *c, const char *p) {
    if (*p == '"' || (*p == '\'' && !r_strict)) {
        char q = *p++; c->name = p;
        while (*p && *p != q) { if (r_strict && (unsigned char)*p < 32) return NULL; if (*p == '\\') { if (r_strict && p[1] == 'u') { if (!hex(p[2]) || !hex(p[3]) || !hex(p[4]) || !hex(p[5])) return NULL; } else if (r_strict && (!p[1] || !strchr("\"\\/bfnrt", p[1]))) return NULL; if (p[1] && (p[1] != q || q == '"')) p++; } p++; }
        if (!*p) return NULL; c->nlen = (int)(p - c->name); return p + 1;
    }
    if (r_strict || !(alp(*p) || *p == '_' || *p == '$')) return NULL;
    c->name = p; while (idc(*p)) p++; c->nlen = (int)(p - c->name); return p;
}
static const char *r_obj(rn *x, const char *p, int root) {
    int open = *p == '{'; if (!open && !root) return NULL; x->type = ZPL_ADT_TYPE_OBJECT; if (open) p++;
    p = ws(p, 0);
    for (;;) {
        if (*p == '}') return open && !(r_strict && x->n) ? p + 1 : NULL;
        if (!*p) return !open && x->n ? p : NULL;
        rn *c = r_new(); p = r_name(c, p); if (!p) return NULL; p = ws(p, 0);
        if (!*p || !strchr(r_strict ? ":" : ":=|", *p)) return NULL; p = ws(p + 1, 0);
        p = r_value(c, p); if (!p) return NULL; x->ch[x->n++] = c;
        const char *e = p; p = ws(p, 0);
        if (r_strict) { if (*p == '}') return p + 1; if (*p != ',') return NULL; p = ws(p + 1, 0); if (*p == '}') return NULL; continue; }
        const char *nl = ws(e, 1);
        if (*p == ',' || *p == '|') p++; else if (*nl == '\n') p = nl + 1; else if (e == p && *p && *p != '}') return NULL;
        p = ws(p, 0);
    }
}
static rn *r_parse(const char *t, int strict) {
    r_strict = strict; rnp = 0; rn *x = r_new(); const char *p = ws(t, 0), *e;
    e = *p == '[' ? r_arr(x, p) : strict && *p != '{' ? NULL : r_obj(x, p, 1);
    if (e && strict && *ws(e, 0)) e = NULL;
    return e ? x : NULL;
}
static int namebad(rn *x) { if (x->name) for (int i = 0; i < x->nlen; i++) if (x->name[i] == '\\') return 1; for (int i = 0; i < x->n; i++) if (namebad(x->ch[i])) return 1; return 0; }
/* ------------------------------------------------------------------ comparison */
static int close_(double a, double b) { if (a == b) return 1; if (isnan(a) && isnan(b)) return 1; if (isinf(a) || isinf(b)) return 0; return fabs(a - b) <= 8e-15 * fabs(b) || fabs(a - b) < 1e-306; }
static void cmp(rn *x, zpl_adt_node *r, const char *what) {
    MC_CHECK(r->type == x->type, "%s: a node has type %d, expected %d", what, r->type, x->type);
    if (x->name) MC_CHECK(r->name && (int)strlen(r->name) == x->nlen && !memcmp(r->name, x->name, x->nlen), "%s: name is \"%s\", expected \"%.*s\"", what, r->name ? r->name : "(null)", x->nlen, x->name);
    else MC_CHECK(!r->name, "%s: a nameless node is named \"%s\"", what, r->name);
    switch (x->type) {
    case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: MC_CHECK((int)strlen(r->string) == x->slen && !memcmp(r->string, x->str, x->slen), "%s: string is \"%s\", expected \"%.*s\"", what, r->string, x->slen, x->str); break;
    case ZPL_ADT_TYPE_INTEGER: MC_CHECK(r->integer == x->iv, "%s: integer is %lld, expected %lld", what, (long long)r->integer, x->iv); break;
    case ZPL_ADT_TYPE_REAL: MC_CHECK(close_(r->real, x->rv), "%s: real is %.17g, expected %.17g", what, r->real, x->rv); MC_CHECK(!x->con || r->props == x->con, "%s: constant has kind %d, expected %d", what, r->props, x->con); break;
    default: MC_CHECK(r->nodes && zpl_array_count(r->nodes) == x->n, "%s: a container has %d children, expected %d", what, r->nodes ? (int)zpl_array_count(r->nodes) : -1, x->n);
        for (int i = 0; i < x->n; i++) { MC_CHECK(r->nodes[i].parent == r, "%s: a child does not know its parent", what); cmp(x->ch[i], r->nodes + i, what); }
    }
}
/* strings are compared without the escaping of quotes, which writing may add */
static int strq(const char *a, const char *b, char q) { for (;;) { if (*a == '\\' && a[1] == q) a++; if (*b == '\\' && b[1] == q) b++; if (*a != *b) return 0; if (!*a) return 1; if (*a == '\\' && a[1]) { if (a[1] != b[1]) return 0; a++, b++; } a++, b++; } }
#ifdef ZPL_PARSER_DISABLE_ANALYSIS      /* the digits are not kept: reals are written with six decimals */
#define NEAR_(x, y) (close_(x, y) || ((x) - (y) < 1.01e-6 && (y) - (x) < 1.01e-6))
#define STYLE_(n, s) ((void)(s))
#else
#define NEAR_ close_
#define STYLE_(n, s) ((n)->name_style = (zpl_u8)(s))
#endif
static void same(zpl_adt_node *a, zpl_adt_node *b, int top) {
    if (a->type == ZPL_ADT_TYPE_REAL && !a->props && NEAR_(a->real, 0) && b->type == ZPL_ADT_TYPE_INTEGER && b->integer == 0) { MC_CHECK((a->name == NULL) == (b->name == NULL) && (!a->name || strq(a->name, b->name, '"')), "written and parsed again, a node lost its name"); return; } /* a real zero is written "0" */
    MC_CHECK(a->type == b->type, "written and parsed again, a node has type %d instead of %d", b->type, a->type);
    if (!top) MC_CHECK((a->name == NULL) == (b->name == NULL) && (!a->name || strq(a->name, b->name, '"')), "written and parsed again, a node is named \"%s\" instead of \"%s\"", b->name, a->name);
    switch (a->type) {
    case ZPL_ADT_TYPE_STRING: MC_CHECK(strq(a->string, b->string, '"'), "written and parsed again, a string is \"%s\" instead of \"%s\"", b->string, a->string); break;
    case ZPL_ADT_TYPE_MULTISTRING: MC_CHECK(strq(a->string, b->string, '`'), "written and parsed again, a string is \"%s\" instead of \"%s\"", b->string, a->string); break;
    case ZPL_ADT_TYPE_INTEGER: MC_CHECK(a->integer == b->integer, "written and parsed again, an integer is %lld instead of %lld", (long long)b->integer, (long long)a->integer); break;
    case ZPL_ADT_TYPE_REAL: MC_CHECK(NEAR_(a->real, b->real), "written and parsed again, a real is %.17g instead of %.17g", b->real, a->real);
        MC_CHECK((a->props >= ZPL_ADT_PROPS_NAN && a->props <= ZPL_ADT_PROPS_NULL) == (b->props >= ZPL_ADT_PROPS_NAN && b->props <= ZPL_ADT_PROPS_NULL), "written and parsed again, a number became a constant or the reverse");
        if (a->props >= ZPL_ADT_PROPS_NAN && a->props <= ZPL_ADT_PROPS_NULL) MC_CHECK(a->props == b->props, "written and parsed again, constant %d became %d", a->props, b->props); break;
    default: MC_CHECK(zpl_array_count(a->nodes) == zpl_array_count(b->nodes), "written and parsed again, a container has %d children instead of %d", (int)zpl_array_count(b->nodes), (int)zpl_array_count(a->nodes));
        for (int i = 0; i < zpl_array_count(a->nodes); i++) same(a->nodes + i, b->nodes + i, 0);
    }
}
static void roundtrip(zpl_adt_node *r) {
    static const zpl_isize ind[] = { 0, 4, ZPL_JSON_INDENT_STYLE_COMPACT };
    for (int k = 0; k < 3; k++) {
        zpl_string s = zpl_json_write_string(zpl_heap(), r, ind[k]); MC_CHECK(s != NULL, "writing fails"); mc_trans(1);
        int n = (int)zpl_string_length(s); char *t = malloc(n + 1); memcpy(t, s, n + 1); mc_log("--- written (indent %d):\n%s\n---\n", (int)ind[k], t);
        zpl_adt_node q; zpl_u8 e = zpl_json_parse(&q, t, zpl_heap()); MC_CHECK(e == 0, "written text is refused with error %d", e);
        same(r, &q, 1); zpl_json_free(&q); free(t); zpl_string_free(s);
    }
}
/* every string the tree refers to must lie in the text it was parsed from */
static int walk(zpl_adt_node *r, const char *t, int n, int depth) {
    MC_CHECK(r->type >= ZPL_ADT_TYPE_ARRAY && r->type <= ZPL_ADT_TYPE_REAL, "an accepted document holds an uninitialised node"); int c = 1;
    if (r->name) { MC_CHECK(r->name > t && r->name <= t + n || (r->name == t), "a name lies outside of the text"); c += (int)strlen(r->name); }
    if (r->type == ZPL_ADT_TYPE_STRING || r->type == ZPL_ADT_TYPE_MULTISTRING) { MC_CHECK(r->string > t && r->string <= t + n, "a string lies outside of the text"); c += (int)strlen(r->string); }
    if (r->type == ZPL_ADT_TYPE_ARRAY || r->type == ZPL_ADT_TYPE_OBJECT) { MC_CHECK(r->nodes != NULL, "an accepted container has no child array"); for (int i = 0; i < zpl_array_count(r->nodes); i++) { MC_CHECK(r->nodes[i].parent == r, "a child does not know its parent"); c += walk(r->nodes + i, t, n, depth + 1); } }
    return c;
}
static void one_safe(const char *src, int n, int wr) {
    char *t = malloc(n + 1); memcpy(t, src, n); t[n] = 0; mc_trans(1); mc_log("text: <%s>\n", t);
    zpl_adt_node r; zpl_u8 e = zpl_json_parse(&r, t, zpl_heap()); MC_CHECK(e <= ZPL_JSON_ERROR_OUT_OF_MEMORY, "unknown error code %d", e); mc_log("error %d\n", e);
    if (e == 0) { walk(&r, t, n, 0); if (wr) { zpl_string s = zpl_json_write_string(zpl_heap(), &r, 0); MC_CHECK(s != NULL, "writing an accepted document fails"); zpl_string_free(s); } }
    zpl_json_free(&r); free(t);
}
/* judged by the reference parsers */
static void one_meaning(const char *src) {
    int n = (int)strlen(src); char *t = malloc(n + 1); memcpy(t, src, n + 1); mc_trans(1); mc_log("text: <%s>\n", t);
    rn *st = r_parse(src, 1); int strict = st != NULL; rn *x = r_parse(src, 0);
    if (strict && !x) mc_fail("harness: the two reference grammars disagree");
    int nb = x && namebad(x); if (strict && (st = r_parse(src, 1))) x = st;
    zpl_adt_node r; zpl_u8 e = zpl_json_parse(&r, t, zpl_heap()); mc_log("error %d, reference %s\n", e, strict ? "accepts (JSON)" : x ? "accepts (extended)" : "refuses");
    if (strict) MC_CHECK(e == 0, "a valid JSON document is refused with error %d", e);
    else if (!x) MC_CHECK(e != 0, "a malformed document is accepted");
    else if (!nb) MC_CHECK(e == 0, "a document of the extended grammar is refused with error %d", e);
    if (e == 0) { cmp(x, &r, "parsed"); mc_state(mc_hash(rnp, src, n)); }
    zpl_json_free(&r); free(t);
}
static const char *TOK[] = { "{", "}", "[", "]", ":", ",", "\"a\"", "b", "1", " ", "\n", "\"", "'", "true", "-", ".", "/", "*", "=", "|", "\\", "0x", "e", "`" };
static int toks(char *o, const char **tk, int nt, int len) { int n = 0; for (int i = 0; i < len; i++) { const char *s = tk[mc_choose(nt)]; int k = (int)strlen(s); memcpy(o + n, s, k); n += k; } o[n] = 0; return n; }
static const char *CORPUS[] = {
    "{\"a\":1}", "[1,2.5e-3,.5,-0x1F]", "{ \"n\\\"x\" : \"v\\\\\" , 'q':'it\\'s', u_1:`m\n\"x\"` }", "a=1\nb = [true,false,null]\n// c\nc|-.5|\nd: {}",
    "{/*x*/\"k\"/*y*/:/*z*/[[],[{}],{\"a\":[NaN,-Infinity]}]// end\n,\"l\":\"\\u00e9\"}", "{\"x\":1e5,\"y\":123456789012345678901234567890,\"z\":1.2.3}", "[\"\",\"a\\\"\",'\\\\']\n", "\n { \"a\" : { \"b\" : { \"c\" : [ 1 , 2 ] } } , }\n" };
#define NC (int)(sizeof CORPUS / sizeof *CORPUS)
/* every kind of value behind every kind of lead-in: cut anywhere, or followed by any byte, at the very end of the text or not */
static int value_text(char *t) {
    static const char *PRE[] = { "a:", "[", "{a:", "{\"a\":[1,", "x=1\na|", "[{b:1},", "a:/**/", "a:1,b:" };
    static const char *VAL[] = { "true", "false", "null", "Infinity", "-Infinity", "NaN", "-NaN", "\"s\\\"\"", "'s\\n'", "`m\nm`", "0x1F", "-0xaB", "12", "-1.5e-3", ".5", "+7", "1e+2", "[]", "{}", "[1]", "{k:1}", "/*c*/1", "//c\n1" };
    int n = sprintf(t, "%s", PRE[mc_choose(8)]); const char *v = VAL[mc_choose(sizeof VAL / sizeof *VAL)]; int l = (int)strlen(v), m = mc_choose(l + 1);
    if (m < l) { memcpy(t + n, v, m + 1); n += m + 1; if (m + 1 == l) { int b = mc_choose(256); if (b) t[n++] = (char)b; } }
    else { memcpy(t + n, v, l); n += l; static const char *E[] = { "]", "}", ",", "\n", ",]", "]}", ",b:2}", "\n}", "|\n}", "//", "/*" }; n += sprintf(t + n, "%s", E[mc_choose(11)]); }
    t[n] = 0; return n;
}
#if PROP == 1
static void s_values(void) { char t[128]; int n = value_text(t); one_safe(t, n, 1); }
static void s_tokens(void) { char t[64]; int n = toks(t, TOK, 24, mc_choose(mc_thorough ? 7 : 6)); one_safe(t, n, 1); }
static void s_bytes(void) { char t[8]; int len = mc_choose(4), n = 0; for (int i = 0; i < len; i++) { static const unsigned char B[] = "{}[]:,\"'`aeEnNItf019.+-xX/*\\= |\n\t_$#&\x80\xff"; t[n++] = (char)(len < 3 ? 1 + mc_choose(255) : B[mc_choose(sizeof B - 1)]); } one_safe(t, n, 1); }
static void s_trunc(void) { const char *d = CORPUS[mc_choose(NC)]; int n = (int)strlen(d), cut = mc_choose(160); if (cut > n) mc_prune(); one_safe(d, cut, 1); }
static void s_mutate(void) { const char *d = CORPUS[mc_choose(NC)]; int n = (int)strlen(d), at = mc_choose(110); if (at >= n) mc_prune(); char t[200]; memcpy(t, d, n + 1); for (int b = 1; b < 256; b++) { t[at] = (char)b; one_safe(t, n, 1); } }
static void s_delete(void) { const char *d = CORPUS[mc_choose(NC)]; int n = (int)strlen(d), at = mc_choose(110), k = 1 + mc_choose(4); if (at + k > n) mc_prune(); char t[200]; memcpy(t, d, at); memcpy(t + at, d + at + k, n - at - k); one_safe(t, n - k, 1); }
static void s_insert(void) { const char *d = CORPUS[mc_choose(NC)]; int n = (int)strlen(d), at = mc_choose(110); const char *k = TOK[mc_choose(24)]; if (at > n) mc_prune(); char t[260]; memcpy(t, d, at); strcpy(t + at, k); strcat(t, d + at); one_safe(t, (int)strlen(t), 1); }
static void s_nest(void) { int dep = 1 + mc_choose(400), w = mc_choose(4), cut = mc_choose(3); char t[4096]; int n = 0; for (int i = 0; i < dep; i++) n += sprintf(t + n, "%s", w == 0 ? "[" : w == 1 ? "{a:" : w == 2 ? (i & 1 ? "[" : "{\"k\":") : "[1,"); if (w != 2 || (dep & 1)) if (w == 1 || w == 2) n += sprintf(t + n, "1"); for (int i = dep; i-- && cut != 1;) n += sprintf(t + n, "%s", w == 1 || (w == 2 && !(i & 1)) ? "}" : "]"); if (cut == 2) n--; t[n] = 0; one_safe(t, n, 1); }
static void s_numbers(void) { char t[64] = "["; static const char *N[] = { "0", "9", ".", "e", "E", "+", "-", "x", "a", "f" }; toks(t + 1, N, 10, 1 + mc_choose(mc_thorough ? 6 : 5)); int w = mc_choose(3); if (w) strcat(t, w == 1 ? "]" : ","); one_safe(t, (int)strlen(t), 1); }
static void s_longnum(void) { char t[700]; int n = 0, k = mc_choose(8), len = mc_choose(300); static const char *pre[] = { "", ".", "1e", "0x", "-", "1.", "1e-", "0." }; n = sprintf(t, "[%s", pre[k]); char c = "019"[mc_choose(3)]; for (int i = 0; i < len; i++) t[n++] = c; n += sprintf(t + n, "%s", mc_choose(2) ? "]" : "e9]"); one_safe(t, n, 1); }
static void s_oom(void) {
    const char *d = CORPUS[mc_choose(NC)]; int at = mc_choose(40), n = (int)strlen(d); char *t = malloc(n + 1); memcpy(t, d, n + 1); zpl_adt_node r; long before = mc_malloc_n;
    mc_malloc_fail_at = before + at; zpl_u8 e = zpl_json_parse(&r, t, zpl_heap()); int hit = mc_malloc_n - before > at; mc_malloc_fail_at = -1; mc_trans(1);
    if (hit) MC_CHECK(e == ZPL_JSON_ERROR_OUT_OF_MEMORY, "a failed allocation is reported as %d", e);
    zpl_json_free(&r); if (!hit) { free(t); return; }
    /* the text can be parsed again once there is memory */
    char *u = malloc(n + 1); memcpy(u, d, n + 1); zpl_adt_node q; zpl_u8 e1 = zpl_json_parse(&r, t, zpl_heap()), e2 = zpl_json_parse(&q, u, zpl_heap()); MC_CHECK(e1 == e2, "after a failed parse the text is parsed differently"); zpl_json_free(&r); zpl_json_free(&q); free(t); free(u);
}
static void s_oom_write(void) {
    const char *d = CORPUS[mc_choose(NC)]; int at = mc_choose(20), n = (int)strlen(d); char *t = malloc(n + 1); memcpy(t, d, n + 1); zpl_adt_node r; zpl_u8 e = zpl_json_parse(&r, t, zpl_heap());
    if (e == 0) { long before = mc_malloc_n; mc_malloc_fail_at = before + at; zpl_string s = zpl_json_write_string(zpl_heap(), &r, 4); int hit = mc_malloc_n - before > at; mc_malloc_fail_at = -1; mc_trans(1); MC_CHECK((s == NULL) == hit, "writing %s although memory was %s", s ? "succeeds" : "fails", hit ? "short" : "there"); if (s) zpl_string_free(s); }
    zpl_json_free(&r); free(t);
}
static void kf_deep(void) { int n = 300000; char *t = malloc(n + 1); memset(t, "[{"[mc_choose(1)], n); t[n] = 0; zpl_adt_node r; zpl_json_parse(&r, t, zpl_heap()); zpl_json_free(&r); free(t); }
mc_suite mc_suites[] = { { "tokens", s_tokens }, { "bytes", s_bytes }, { "truncations", s_trunc }, { "mutations", s_mutate }, { "deletions", s_delete }, { "insertions", s_insert }, { "nesting", s_nest }, { "numbers", s_numbers }, { "long_numbers", s_longnum }, { "oom_parse", s_oom }, { "oom_write", s_oom_write }, { "values", s_values }, { "kf_deep_nesting", kf_deep }, { 0 } };
#else
static const char *MT[] = { "{", "}", "[", "]", ":", ",", "\"a\"", "'b'", "c", "1", "-2.5e1", "true", " ", "\n", "\"", "/*x*/", "//x\n", "=", "|", ".5" };
static void s_texts(void) { char t[128]; toks(t, MT, 20, 1 + mc_choose(5)); one_meaning(t); }
static void s_values(void) { char t[128]; value_text(t); one_meaning(t); }
static void s_inside(void) {
    static const char *PRE[] = { "{\"k\":1", "[", "{a:[", "x=1", "{\"a\":{\"b\":2}", "[[1]," }, *SUF[] = { "", "}", "]", "]}" }; char t[160];
    strcpy(t, PRE[mc_choose(6)]); toks(t + strlen(t), MT, 20, 1 + mc_choose(4)); strcat(t, SUF[mc_choose(4)]); one_meaning(t);
}
/* strict documents from the grammar, every layout, with the round trip */
static char *gp; static int g_ws;
static void g_w(void) { static const char *W[] = { "", " ", "\n", "\r\n\t" }; gp += sprintf(gp, "%s", W[g_ws]); }
static void g_val(int d) {
    static const char *LEAF[] = { "0", "-1", "1.5", "\"\"", "\"x\\\"y\\\\\"", "true", "null", "2.5e-3", "false", "\"\\u00e9\\n/\"", "1e3", "-0.0625", "9223372036854775807", "-9223372036854775808", "1E+2", "0.1", "\"{[,:]}//\"" };
    int k = mc_choose(d > 0 ? 8 : 5);
    if (d > 0 && k >= 5) {
        if (k == 5) { int n = mc_choose(3); *gp++ = '['; g_w(); for (int i = 0; i < n; i++) { if (i) { *gp++ = ','; g_w(); } g_val(d - 1); g_w(); } *gp++ = ']'; }
        else { int n = k == 6 ? 1 : 2; *gp++ = '{'; g_w(); for (int i = 0; i < n; i++) { if (i) { *gp++ = ','; g_w(); } gp += sprintf(gp, "\"k%d\"", i); g_w(); *gp++ = ':'; g_w(); g_val(d - 1); g_w(); } *gp++ = '}'; }
    } else gp += sprintf(gp, "%s", LEAF[d == 2 ? k : d == 1 ? k + 5 : k + 10]);
}
static void doc_check(const char *t, int must) {
    int n = (int)strlen(t); rn *x = r_parse(t, must); if (!x) { if (must) mc_fail("harness: generated text is not in the grammar: %s", t); mc_prune(); }
    char *u = malloc(n + 1); memcpy(u, t, n + 1); zpl_adt_node r; mc_log("text: <%s>\n", t); zpl_u8 e = zpl_json_parse(&r, u, zpl_heap()); mc_trans(1);
    MC_CHECK(e == 0, "a valid document is refused with error %d", e); cmp(x, &r, "parsed"); roundtrip(&r); zpl_json_free(&r); free(u);
}
static void s_docs(void) { static char t[8192]; gp = t; g_ws = mc_choose(4); g_w(); int w = mc_choose(3); static const int D = 2; if (w == 0) { *gp++ = '['; g_w(); g_val(D); g_w(); *gp++ = ']'; } else { int n = w; *gp++ = '{'; g_w(); for (int i = 0; i < n; i++) { if (i) { *gp++ = ','; g_w(); } gp += sprintf(gp, "\"%s\"", i ? "q\\\"z" : ""); g_w(); *gp++ = ':'; g_w(); g_val(i || w == 2 ? (mc_thorough ? 2 : 1) : D); g_w(); } *gp++ = '}'; } g_w(); *gp = 0; doc_check(t, 1); }
/* names, separators and comments of the extended grammar */
static void s_extended(void) {
    static const char *NM[] = { "\"a\"", "'a'", "a", "$a", "_a1", "'it'", "\"a b\"", "'q\"d'", "\"it's\"", "\"a\\\"b\"", "\"\\u00e9\"", "\"\"" }, *AS[] = { ":", "=", "|", " : ", " = ", "/**/:" }, *VL[] = { "1", "\"s\"", "'s'", "'a\"b'", "`m\n\"m\"`", ".5", "5.", "+3", "0xFf", "-0x10", "NaN", "-Infinity", "[1,]", "{}", "{b:1}", "'it\\'s'", "`a\\`b`" }, *DL[] = { ",", "\n", " , ", "|", "|\n", "\n,", "//c\n", "/*c*/,", " " };
    char t[512]; int br = mc_choose(2), n = 1 + mc_choose(2), tail = mc_choose(2); *t = 0; if (br) strcat(t, "{"); int v = 0;
    for (int i = 0; i < n; i++) {
        int small = !mc_thorough && n == 2; strcat(t, NM[small ? (i ? 2 : (int)mc_choose(3)) : (int)mc_choose(i ? 3 : 12)]); strcat(t, AS[mc_choose(i || small ? 3 : 6)]);
        if (small) v = ((int[]){ 0, 3, 4, 5, 9, 10, 13, 14, 15, 16 })[mc_choose(10)]; else v = mc_choose(17);
        strcat(t, VL[v]); if (i + 1 < n || tail) strcat(t, DL[mc_choose(9)]);
    }
    if (br) strcat(t, "}"); doc_check(t, 0);
}
/* every number-like text, through the parser and through the conversions of string nodes */
static void s_numbers(void) {
    static const char *N[] = { "0", "1", "9", ".", "e", "E", "+", "-", "x", "a" }; char t[64] = "["; int len = 1 + mc_choose(mc_thorough ? 7 : 6); toks(t + 1, N, 10, len); char num[32]; strcpy(num, t + 1); strcat(t, "]");
    one_meaning(t);
    char *h = malloc(strlen(num) + 1); strcpy(h, num); rn x; memset(&x, 0, sizeof x); const char *e = r_number(&x, num);
    zpl_adt_node n = { 0 }; zpl_adt_set_str(&n, "nm", h); zpl_adt_error er = zpl_adt_str_to_number_strict(&n); MC_CHECK(er == ZPL_ADT_ERROR_NONE, "converting a string node returns %d", er);
    x.name = "nm"; x.nlen = 2;
    if (e && !*e) cmp(&x, &n, "strict conversion"); else MC_CHECK(n.type == ZPL_ADT_TYPE_STRING && n.string == h, "text that is no number as a whole was converted");
    zpl_adt_set_str(&n, "nm", h); zpl_adt_str_to_number(&n); if (e) cmp(&x, &n, "conversion"); else MC_CHECK(n.type == ZPL_ADT_TYPE_STRING && n.string == h, "text that starts with no number was converted");
    zpl_adt_node d, d0; memset(&d, 0, sizeof d); d.name = "nm"; d.type = ZPL_ADT_TYPE_UNINITIALISED; d0 = d; char *g = zpl_adt_parse_number(&d, h); if (e) { MC_CHECK(g == h + (e - num), "a number of %d characters was taken to have %d", (int)(e - num), (int)(g - h)); cmp(&x, &d, "parsed number"); } else MC_CHECK(d.type == d0.type, "text that starts with no number was parsed");
    d = d0; g = zpl_adt_parse_number_strict(&d, h); if (e && !*e) { MC_CHECK(g == h + strlen(h), "a number was not taken to its end"); cmp(&x, &d, "strictly parsed number"); } else MC_CHECK(d.type == d0.type && g == h, "text that is no number as a whole was parsed"); free(h);
}
static void s_numform(void) {
    static const char *SG[] = { "", "-", "+" }, *IP[] = { "", "0", "7", "12", "007", "2147483647", "4294967296", "9007199254740993", "922337203685477580" }, *FP[] = { "", ".", ".0", ".5", ".000", ".0625", ".00349792", ".123456789012345", ".000000000000000000000000000000001234" }, *EX[] = { "", "e0", "e5", "E+2", "e-2", "e-10", "e18", "e300", "e-300" };
    char t[200]; strcpy(t, "["); int ip, fp; const char *sg = SG[mc_choose(3)]; ip = mc_choose(9); fp = mc_choose(9); sprintf(t, "[%s%s%s%s]", sg, IP[ip], FP[fp], EX[mc_choose(9)]);
    rn *x = r_parse(t, 0); if (!x) { one_meaning(t); return; }
    int big = ip >= 6 && x->ch[0]->type == ZPL_ADT_TYPE_REAL; /* more digits than the documented number analysis keeps */
    if (big) one_meaning(t); else doc_check(t, 0);
}
/* a document written to files: behind what is there, into a buffer of every size, to a descriptor that takes nothing */
static void s_targets(void) {
    static const char *D[] = { "{}", "[]", "{\"a\":1,\"b\":[true,null,{\"c\":\"x\\\"y\"}],\"d\":-0.5}", "[[1,2],[],{\"q\":{}},\"s\"]", "a=1\nb='t'\n", "{`m`: `l1\nl2`}" }; static const zpl_isize ind[] = { 0, 4, ZPL_JSON_INDENT_STYLE_COMPACT };
    const char *d = D[mc_choose(6)]; zpl_isize in = ind[mc_choose(3)]; int n = (int)strlen(d); char *t = malloc(n + 1); memcpy(t, d, n + 1); zpl_adt_node r; if (zpl_json_parse(&r, t, zpl_heap())) { zpl_json_free(&r); free(t); mc_prune(); }
    zpl_string s = zpl_json_write_string(zpl_heap(), &r, in); MC_CHECK(s != NULL, "writing fails"); long L = (long)zpl_string_length(s); int how = mc_choose(3); zpl_file f; mc_trans(1);
    if (how == 0) { MC_CHECK(zpl_file_stream_new(&f, zpl_heap()) && zpl_file_write(&f, "pre", 3), "harness: stream"); MC_CHECK(zpl_json_write(&f, &r, in), "writing to a memory file fails"); zpl_isize wn; zpl_u8 *wb = zpl_file_stream_buf(&f, &wn); MC_CHECK(wn == L + 3 && !memcmp(wb, "pre", 3) && !memcmp(wb + 3, s, (size_t)L), "written to a file the document differs from the one written to a string"); zpl_file_close(&f); }
    else if (how == 1) { long k = mc_choose(L + 2); unsigned char *b = malloc(k ? k : 1); memset(b, 0xee, k); MC_CHECK(zpl_file_stream_open(&f, zpl_heap(), b, k, ZPL_FILE_STREAM_WRITABLE), "harness: stream"); int ok = zpl_json_write(&f, &r, in); mc_log("buffer of %ld for %ld: %d\n", k, L, ok); MC_CHECK(!!ok == (k >= L), "writing %ld bytes into a buffer of %ld %s", L, k, ok ? "is reported done" : "fails"); if (ok) MC_CHECK(!memcmp(b, s, (size_t)L), "the buffer holds another text"); zpl_file_close(&f); free(b); }
    else { unsigned char b[8] = "keep"; MC_CHECK(zpl_file_stream_open(&f, zpl_heap(), b, 8, 0), "harness: stream"); MC_CHECK(!zpl_json_write(&f, &r, in), "writing to a file that cannot be written is reported done"); MC_CHECK(!strcmp((char *)b, "keep"), "a read-only buffer changed"); zpl_file_close(&f); }
    zpl_string_free(s); zpl_json_free(&r); free(t);
}
/* trees built by the program */
static void s_build(void) {
    static const char *SV[] = { "", "x", "say \"hi\"", "a\\nb", "\\\\", "{\"k\":[1,2]}", "`tick`", "line\nline" }; static const long long IV[] = { 0, 1, -1, 9223372036854775807ll, (-9223372036854775807ll - 1), 1000000 }; static const double RV[] = { 0.5, -2.25, 3, 1234.015625, 0, 100000.5 };
    zpl_adt_node r; if (mc_choose(2)) zpl_adt_set_obj(&r, NULL, zpl_heap()); else zpl_adt_set_arr(&r, NULL, zpl_heap());
    zpl_adt_node *st[3]; st[0] = &r; int d = 0; int steps = mc_thorough ? 5 : 4; char nm[8][4];
    for (int s = 0; s < steps; s++) {
        zpl_adt_node *p = st[d]; const char *name = p->type == ZPL_ADT_TYPE_OBJECT ? (sprintf(nm[s], s == 1 ? "q\"d" : s == 2 ? "i's" : s == 3 ? "" : "n%d", s), nm[s]) : NULL; zpl_adt_node *n;
        switch (mc_choose(6)) {
        case 0: n = zpl_adt_append_str(p, name, SV[mc_choose(8)]); break;
        case 1: n = zpl_adt_append_int(p, name, IV[mc_choose(6)]); break;
        case 2: n = zpl_adt_append_flt(p, name, RV[mc_choose(6)]); break;
        case 3: if (d == 2) mc_prune(); n = st[++d] = zpl_adt_append_obj(p, name); break;
        case 4: if (d == 2) mc_prune(); n = st[++d] = zpl_adt_append_arr(p, name); break;
        default: n = zpl_adt_append_flt(p, name, mc_choose(2)); n->props = n->real ? ZPL_ADT_PROPS_TRUE : ZPL_ADT_PROPS_FALSE; break;
        }
        MC_CHECK(n != NULL, "append fails");
    }
    roundtrip(&r); zpl_json_free(&r);
}
static void s_longstr(void) { static const int L[] = { 10, 255, 256, 4095, 65534, 65535, 65536, 65537, 70000, 140000 }; int n = L[mc_choose(10)], q = mc_choose(3); char *s = malloc(n + 1); memset(s, 'a', n); s[n] = 0; if (q == 1) s[n / 2] = '"'; if (q == 2) s[n - 1] = '"'; zpl_adt_node r; zpl_adt_set_obj(&r, NULL, zpl_heap()); zpl_adt_node *lc = zpl_adt_append_str(&r, "k", s); if (mc_choose(2)) { lc->name = s; lc->string = "v"; if (!q) STYLE_(lc, ((int[]){ ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE, ZPL_ADT_NAME_STYLE_SINGLE_QUOTE, ZPL_ADT_NAME_STYLE_NO_QUOTES }[mc_choose(3)])); } roundtrip(&r); zpl_json_free(&r); free(s); }
/* one value written by itself: text with its marked characters, numbers */
static void s_pieces(void) {
    static const char A[] = "a\"\\'^"; static const char *SET[] = { "", "\"", "'", "a\"", "\"'^" }, *SY[] = { "\\", "\"", "^", "ab", "" }; int how = mc_choose(3); zpl_adt_node v; memset(&v, 0x5a, sizeof v); v.parent = NULL; char want[64], t[16]; long n = 0; zpl_adt_error e; zpl_file f;
    if (how < 2) { int len = mc_choose(6); for (int i = 0; i < len; i++) t[i] = A[mc_choose(5)]; t[len] = 0; const char *set = SET[mc_choose(5)], *sy = SY[mc_choose(5)]; for (int i = 0, bs = 0; i < len; i++) { if (*set && strchr(set, t[i]) && !(*sy == '\\' && bs & 1)) n += sprintf(want + n, "%s", sy); want[n++] = t[i]; bs = t[i] == '\\' ? bs + 1 : 0; } want[n] = 0; char *x = malloc((size_t)len + 1); strcpy(x, t); zpl_adt_make_leaf(&v, "n", how ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING); v.string = x; MC_CHECK(v.parent == NULL && !strcmp(v.name, "n") && v.props == 0, "a new leaf keeps old contents");
        MC_CHECK(zpl_file_stream_new(&f, zpl_heap()), "harness: stream"); mc_trans(1); e = zpl_adt_print_string(&f, &v, set, sy); zpl_isize k; zpl_u8 *b = zpl_file_stream_buf(&f, &k); MC_CHECK(!e && k == n && !memcmp(b, want, (size_t)n), "\"%s\" with \"%s\" marked by \"%s\": %.*s, expected %s", t, set, sy, (int)k, b, want); zpl_file_close(&f);
        unsigned char ro[8] = "keep"; MC_CHECK(zpl_file_stream_open(&f, zpl_heap(), ro, 8, 0), "harness: stream"); e = zpl_adt_print_string(&f, &v, set, sy); MC_CHECK(!!e == (n > 0), "writing %ld characters to a file that cannot be written gives %d", n, e); MC_CHECK(!strcmp((char *)ro, "keep"), "a read-only buffer changed"); zpl_file_close(&f); v.string = NULL; MC_CHECK(zpl_file_stream_new(&f, zpl_heap()), "harness: stream"); MC_CHECK(!zpl_adt_print_string(&f, &v, set, sy), "no text"); zpl_file_close(&f); free(x); }
    else { int ty = mc_choose(7), ty2 = ((int[]){ ZPL_ADT_TYPE_INTEGER, ZPL_ADT_TYPE_REAL, ZPL_ADT_TYPE_UNINITIALISED, ZPL_ADT_TYPE_STRING, ZPL_ADT_TYPE_MULTISTRING, ZPL_ADT_TYPE_OBJECT, ZPL_ADT_TYPE_ARRAY })[ty]; mc_trans(2); if (ty >= 5) MC_CHECK(!zpl_adt_make_branch(&v, zpl_heap(), "n", ty == 6), "branch"); else zpl_adt_make_leaf(&v, "n", (zpl_u8)ty2); MC_CHECK(v.type == ty2 && v.parent == NULL && !strcmp(v.name, "n"), "a new node"); MC_CHECK(zpl_file_stream_new(&f, zpl_heap()), "harness: stream");
        if (ty == 0) v.integer = -42; else if (ty == 1) v.real = 0.5; e = zpl_adt_print_number(&f, &v); MC_CHECK((e == ZPL_ADT_ERROR_INVALID_TYPE) == (ty > 1), "printing type %d as a number gives %d", ty2, e); if (ty < 3 || ty > 4) { e = zpl_adt_print_string(&f, &v, "", ""); MC_CHECK(e == ZPL_ADT_ERROR_INVALID_TYPE, "printing type %d as text gives %d", ty2, e); } zpl_isize k; zpl_u8 *b = zpl_file_stream_buf(&f, &k); MC_CHECK(ty > 1 ? k == 0 : k >= 3 && k < 12 && !memcmp(b, ty ? "0.5" : "-42", 3), "type %d: \"%.*s\"", ty2, (int)k, b); zpl_file_close(&f); if (ty >= 5) { MC_CHECK(zpl_array_count(v.nodes) == 0 && zpl_adt_alloc(&v) && zpl_adt_alloc(&v) && zpl_array_count(v.nodes) == 2 && v.nodes[1].parent == &v, "a new branch"); } else MC_CHECK(!zpl_adt_alloc(&v), "a child of a leaf"); zpl_adt_destroy_branch(&v); }
}
/* documents with thousands of members, and deeply nested ones */
static long pop_text(char *o, long n, int shape) {
    char *w = o; if (shape == 0) { *w++ = '['; for (long i = 0; i < n; i++) w += sprintf(w, i % 5 == 0 ? "%s%ld" : i % 5 == 1 ? "%s\"s%ld\"" : i % 5 == 2 ? "%s[%ld]" : i % 5 == 3 ? "%s{\"k\":%ld}" : "%s-%ld.5", i ? "," : "", i); *w++ = ']'; }
    else if (shape == 1) { *w++ = '{'; for (long i = 0; i < n; i++) w += sprintf(w, i % 4 == 0 ? "%s\"k%ld\":%ld" : i % 4 == 1 ? "%s\"k%ld\":\"s%ld\"" : i % 4 == 2 ? "%s\"k%ld\":[%ld]" : "%s\"k%ld\":{\"v\":%ld}", i ? "," : "", i, i); *w++ = '}'; }
    else { for (long i = 0; i < n; i++) if (i & 1) w += sprintf(w, "{\"d\":"); else *w++ = '['; *w++ = '7'; for (long i = n - 1; i >= 0; i--) *w++ = i & 1 ? '}' : ']'; }
    *w = 0; return w - o;
}
static void pop_is(zpl_adt_node *r, long n, int shape, const char *what) {
    char b[32]; if (shape == 2) { zpl_adt_node *c = r; for (long i = 0; i < n; i++) { MC_CHECK(c->type == (i & 1 ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY) && c->nodes && zpl_array_count(c->nodes) == 1, "%s: level %ld of %ld", what, i, n); MC_CHECK(c->nodes[0].parent == c, "%s: the parent at level %ld", what, i); if (i & 1) MC_CHECK(!strcmp(c->nodes[0].name, "d"), "%s: the name at level %ld", what, i); c = c->nodes; } MC_CHECK(c->type == ZPL_ADT_TYPE_INTEGER && c->integer == 7, "%s: the innermost value", what); return; }
    MC_CHECK(r->type == (shape ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY) && zpl_array_count(r->nodes) == n, "%s: %ld of %ld members", what, (long)zpl_array_count(r->nodes), n);
    for (long i = 0; i < n; i++) { zpl_adt_node *g = r->nodes + i; int k = (int)(shape ? i % 4 : i % 5); MC_CHECK(g->parent == r, "%s: the parent of member %ld", what, i); if (shape) { sprintf(b, "k%ld", i); MC_CHECK(g->name && !strcmp(g->name, b), "%s: the name of member %ld", what, i); }
        if (k == 2 || k == 3) { MC_CHECK(g->type == (k == 2 ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_OBJECT) && zpl_array_count(g->nodes) == 1 && g->nodes[0].parent == g, "%s: the container at %ld", what, i); g = g->nodes; k = 0; }
        if (k == 0) MC_CHECK(g->type == ZPL_ADT_TYPE_INTEGER && g->integer == i, "%s: member %ld is not %ld", what, i, i); else if (k == 1) { sprintf(b, "s%ld", i); MC_CHECK(g->type == ZPL_ADT_TYPE_STRING && !strcmp(g->string, b), "%s: member %ld is not %s", what, i, b); } else MC_CHECK(g->type == ZPL_ADT_TYPE_REAL && g->real == -((double)i + 0.5), "%s: member %ld is not -%ld.5", what, i, i); }
}
static void s_populous(void) {
    static const long D[] = { 255, 256, 257, 1023, 1024, 4097, 32769, 65535, 65536, 65537, 70000 }, DEEP[] = { 127, 128, 129, 255, 256, 257, 1000 }; static const zpl_isize ind[] = { 0, 4, ZPL_JSON_INDENT_STYLE_COMPACT }; int shape = mc_choose(3); long n = shape == 2 ? DEEP[mc_choose(7)] : D[mc_choose(11)]; zpl_isize in = ind[mc_choose(3)]; mc_claim(); mc_trans(1);
    char *t = malloc((size_t)n * 32 + 16); pop_text(t, n, shape); zpl_adt_node r; zpl_u8 e = zpl_json_parse(&r, t, zpl_heap()); MC_CHECK(!e, "a document of %ld members is refused with error %d", n, e); pop_is(&r, n, shape, "parsed"); zpl_string s = zpl_json_write_string(zpl_heap(), &r, in); MC_CHECK(s != NULL, "writing fails"); zpl_json_free(&r); free(t);
    t = malloc((size_t)zpl_string_length(s) + 1); memcpy(t, s, (size_t)zpl_string_length(s) + 1); MC_CHECK(strlen(s) == (size_t)zpl_string_length(s), "the written text has a wrong length"); zpl_string_free(s); e = zpl_json_parse(&r, t, zpl_heap()); MC_CHECK(!e, "a written document of %ld members is refused with error %d", n, e); pop_is(&r, n, shape, "written and parsed again"); zpl_json_free(&r); free(t); mc_state(mc_hash_u((uint64_t)n * 4 + (uint64_t)shape, (uint64_t)in));
}
static void kf_prec(void) { static const double V[] = { 1e-7, 0.1234567, 3.141592653589793 }; double v = V[mc_choose(3)]; zpl_adt_node r; zpl_adt_set_arr(&r, NULL, zpl_heap()); zpl_adt_append_flt(&r, NULL, v); zpl_string s = zpl_json_write_string(zpl_heap(), &r, 0); double g = strtod(s + 1 + (s[1] == '\n'), NULL); int ok = close_(g, v); char b[64]; snprintf(b, 64, "%s", s); zpl_string_free(s); zpl_json_free(&r); MC_CHECK(ok, "a real with more than six decimals is written as %s", b); }
/* the kind of the mistake, wherever it is made */
static void s_kinds(void) {
    static const struct { const char *t; int e; } K[] = { { "[1", ZPL_JSON_ERROR_ARRAY_LEFT_OPEN }, { "[", ZPL_JSON_ERROR_ARRAY_LEFT_OPEN }, { "[1,", ZPL_JSON_ERROR_ARRAY_LEFT_OPEN }, { "[true,{}", ZPL_JSON_ERROR_ARRAY_LEFT_OPEN }, { "{", ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED }, { "{\"a\":1", ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED }, { "{\"a\":[],", ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED },
        { "{\"a\" 1}", ZPL_JSON_ERROR_INVALID_ASSIGNMENT }, { "{\"a\"}", ZPL_JSON_ERROR_INVALID_ASSIGNMENT }, { "{:1}", ZPL_JSON_ERROR_INVALID_NAME }, { "[tru]", ZPL_JSON_ERROR_UNKNOWN_KEYWORD }, { "[nul]", ZPL_JSON_ERROR_UNKNOWN_KEYWORD }, { "{\"a\":fals}", ZPL_JSON_ERROR_UNKNOWN_KEYWORD }, { "[@]", ZPL_JSON_ERROR_INVALID_VALUE }, { "{\"a\":@}", ZPL_JSON_ERROR_INVALID_VALUE }, { "{\"a\":}", ZPL_JSON_ERROR_INVALID_VALUE }, { "[\"x", ZPL_JSON_ERROR_INVALID_VALUE } };
    static const char *IN[] = { "", "[", "{\"k\":", "[0, ", "{\"k\": [], \"l\": ", "[{}," , "[\"s\"\n,", "{\n\"k\":-1.5,\"m\":" }; char t[400] = ""; int n = mc_choose(4); for (int i = 0; i < n; i++) strcat(t, IN[1 + mc_choose(7)]); int k = mc_choose(17); strcat(t, K[k].t); char *u = malloc(strlen(t) + 1); strcpy(u, t); mc_log("%s\n", t); mc_trans(1);
    zpl_adt_node r; zpl_u8 e = zpl_json_parse(&r, u, zpl_heap()); MC_CHECK(e == K[k].e, "\"%s\" is refused with error %d, expected %d", t, e, K[k].e); zpl_json_free(&r); free(u); mc_state(mc_hash(7, t, strlen(t)));
}
/* what can be converted to a number: text of either kind; a number already is one, and nothing else is touched */
static void s_convert(void) {
    static const char *T[] = { "12", "-0.5e1", "0x1F", "1z", "z1", "", ".", "1e", "Infinity", "-", "9223372036854775807", "007" }; int type = (int)mc_choose(7), k = (int)mc_choose(12), strict = (int)mc_choose(2); char buf[40]; strcpy(buf, T[k]); zpl_adt_node n, w, o; memset(&n, 0, sizeof n); n.name = "nm"; n.type = (zpl_u8)type; if (type == ZPL_ADT_TYPE_INTEGER) n.integer = k - 3; else if (type == ZPL_ADT_TYPE_REAL) n.real = k * 0.5; else n.string = buf;
    if (type < ZPL_ADT_TYPE_STRING) n.string = NULL; o = n; zpl_adt_error e = strict ? zpl_adt_str_to_number_strict(&n) : zpl_adt_str_to_number(&n); mc_trans(1); mc_log("converting a node of type %d (%s): %d\n", type, T[k], (int)e);
    if (type == ZPL_ADT_TYPE_STRING || type == ZPL_ADT_TYPE_MULTISTRING) { memset(&w, 0, sizeof w); w.name = "nm"; w.type = ZPL_ADT_TYPE_STRING; w.string = buf; if (strict) zpl_adt_str_to_number_strict(&w); else zpl_adt_str_to_number(&w); MC_CHECK(e == ZPL_ADT_ERROR_NONE, "converting text returns %d", (int)e); MC_CHECK(!strcmp(buf, T[k]), "converting text changed it"); if (w.type == ZPL_ADT_TYPE_STRING) MC_CHECK(n.type == type && n.string == buf, "text that is no number became type %d", n.type); else MC_CHECK(n.type == w.type && n.integer == w.integer, "text in backticks converts to something else than text in quotes"); }
    else { MC_CHECK(e == (type == ZPL_ADT_TYPE_INTEGER || type == ZPL_ADT_TYPE_REAL ? ZPL_ADT_ERROR_ALREADY_CONVERTED : ZPL_ADT_ERROR_INVALID_TYPE), "converting a node of type %d returns %d", type, (int)e); MC_CHECK(!memcmp(&n, &o, sizeof n), "converting a node of type %d changed it", type); }
}
mc_suite mc_suites[] = { { "conversions", s_convert }, { "kinds", s_kinds }, { "pieces", s_pieces }, { "populous", s_populous }, { "texts", s_texts }, { "values", s_values }, { "inside", s_inside }, { "documents", s_docs }, { "extended", s_extended }, { "numbers", s_numbers }, { "number_forms", s_numform }, { "built_trees", s_build }, { "targets", s_targets }, { "long_strings", s_longstr }, { "kf_real_precision", kf_prec }, { 0 } };
#endif
