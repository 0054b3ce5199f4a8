/* U01: URIs: splitting, decoding and rebuilding, on every short text and every combination of parts */
#include "z.h"
#include <math.h>
typedef struct { char name[96], val[96]; int flag; } par;
static par P_[24]; static int np; static char org[96]; static int has_org;
static int sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static int hx(char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; }
static void dec(char *o, const char *s, int n) { int i = 0; while (i < n) { if (s[i] == '+') *o++ = ' ', i++; else if (s[i] == '%' && i + 2 < n && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { *o++ = (char)(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 3; } else *o++ = s[i++]; } *o = 0; }
static void ref(const char *p) {
    np = 0; has_org = 0; while (sp(*p)) p++; if (!*p) return;
    if (*p != '?') { const char *b = p; while (*p && *p != '?' && !sp(*p)) p++; has_org = 1; memcpy(org, b, p - b); org[p - b] = 0; if (*p != '?') return; }
    p++;
    while (*p && !sp(*p)) {
        const char *b = p; par *x = &P_[np++]; while (*p && !strchr("&?=", *p) && !sp(*p)) p++; dec(x->name, b, (int)(p - b)); x->flag = 1; x->val[0] = 0;
        if (*p == '=') { b = ++p; while (*p && !strchr("&?", *p) && !sp(*p)) p++; dec(x->val, b, (int)(p - b)); x->flag = 0; }
        if (x->flag && !x->name[0]) np--;  /* "&&": nothing between two delimiters */
        if (*p == '&' || *p == '?') p++;
    }
}
static int plain_number(const char *s) { if (*s == '-') s++; if (*s < '0' || *s > '9') return 0; if (*s == '0' && s[1] >= '0' && s[1] <= '9') return 0; while (*s >= '0' && *s <= '9') s++; if (*s == '.') { s++; if (*s < '0' || *s > '9') return 0; while (*s >= '0' && *s <= '9') s++; } return !*s; }
static int denotes(const char *s, zpl_adt_node *r) {
    if (!*s) return 0; const char *b = s; char *e; if (*b == '+' || *b == '-') b++; int hexa = b[0] == '0' && (b[1] | 32) == 'x'; if (sp(*b) || ((*b | 32) >= 'a' && (*b | 32) <= 'z')) return 0;
    if (hexa) { if (r->type != ZPL_ADT_TYPE_INTEGER) return 0; unsigned long long v = strtoull(b, &e, 16); return !*e && (unsigned long long)r->integer == (*s == '-' ? 0 - v : v); }
    double v = strtod(s, &e); if (*e || e == s) return 0;
    if (r->type == ZPL_ADT_TYPE_INTEGER) { errno = 0; long long i = strtoll(s, &e, 10); if (!*e && !errno) return i == r->integer; return v == (double)r->integer; }
    if (r->real == v || isinf(v) || isinf(r->real)) return r->real == v; return fabs(r->real - v) <= 8e-15 * fabs(v) || fabs(r->real - v) < 1e-306;
}
static uint64_t H;
static void is(zpl_adt_node *r, const char *what) {
    MC_CHECK(r->type == ZPL_ADT_TYPE_OBJECT && r->nodes, "%s: no object", what); int i = 0, n = (int)zpl_array_count(r->nodes);
    if (has_org) { MC_CHECK(n > 0 && !strcmp(r->nodes[0].name, "__zpl_origin__") && r->nodes[0].type == ZPL_ADT_TYPE_STRING && !strcmp(r->nodes[0].string, org), "%s: the origin is not \"%s\"", what, org); i = 1; }
    for (int k = 0; k < np; k++, i++) {
        par *x = &P_[k]; while (i < n && r->nodes[i].name && !r->nodes[i].name[0] && r->nodes[i].type == ZPL_ADT_TYPE_REAL && r->nodes[i].props == ZPL_ADT_PROPS_TRUE) i++;
        MC_CHECK(i < n, "%s: a parameter is missing (\"%s\")", what, x->name); zpl_adt_node *g = r->nodes + i; MC_CHECK(g->parent == r, "%s: a parameter does not know its parent", what);
        MC_CHECK(g->name && !strcmp(g->name, x->name), "%s: a parameter is named \"%s\", expected \"%s\"", what, g->name ? g->name : "(null)", x->name);
        if (x->flag) MC_CHECK(g->type == ZPL_ADT_TYPE_REAL && g->props == ZPL_ADT_PROPS_TRUE, "%s: \"%s\" is not a flag", what, x->name);
        else if (g->type == ZPL_ADT_TYPE_STRING) { MC_CHECK(!strcmp(g->string, x->val), "%s: \"%s\" is \"%s\", expected \"%s\"", what, x->name, g->string, x->val); MC_CHECK(!plain_number(x->val), "%s: the number %s stayed text", what, x->val); }
        else { MC_CHECK(g->type == ZPL_ADT_TYPE_INTEGER || (g->type == ZPL_ADT_TYPE_REAL && g->props != ZPL_ADT_PROPS_TRUE), "%s: \"%s\" has no value", what, x->name); MC_CHECK(denotes(x->val, g), "%s: \"%s\" became another number", what, x->val); }
        H = mc_hash(H, x->name, strlen(x->name)); H = mc_hash(H, x->val, strlen(x->val) + 1);
    }
    while (i < n && r->nodes[i].name && !r->nodes[i].name[0] && r->nodes[i].type == ZPL_ADT_TYPE_REAL) i++;
    MC_CHECK(i == n, "%s: there are %d nodes too many", what, n - i);
}
static char *dup_(const char *s) { size_t n = strlen(s); char *t = malloc(n + 1); memcpy(t, s, n + 1); return t; }
static void rewrite(zpl_adt_node *r, int wellformed) {
    zpl_string s = zpl_uri_write_string(zpl_heap(), r); MC_CHECK(s != NULL, "writing fails"); mc_log("--- written: %s\n", s); mc_trans(1);
    for (char *p = s; *p; p++) MC_CHECK(!sp(*p), "the written URI contains white space"); int n = (int)strlen(s), q = (int)strcspn(s, "?");
    if (wellformed) { MC_CHECK(q == n || np > 0, "a URI without parameters is written with a ?"); if (n && np && s[n - 1] == '&') MC_CHECK(0, "the written URI ends in &"); for (int i = q + 1; i < n; i++) MC_CHECK((s[i] >= '0' && s[i] <= '9') || ((s[i] | 32) >= 'a' && (s[i] | 32) <= 'z') || (s[i] > 0 && strchr("&=+-_.~%", s[i])), "the written query contains byte %d", s[i]); }
    zpl_file f; MC_CHECK(zpl_file_stream_new(&f, zpl_heap()) && zpl_file_write(&f, "pre", 3), "harness: stream"); zpl_uri_write(&f, r); zpl_isize wn; zpl_u8 *wb = zpl_file_stream_buf(&f, &wn); MC_CHECK(wn == zpl_string_length(s) + 3 && !memcmp(wb, "pre", 3) && !memcmp(wb + 3, s, (size_t)wn - 3), "written to a file the URI differs from the one written to a string"); zpl_file_close(&f);
    char *t = dup_(s); zpl_string_free(s); zpl_adt_node w; zpl_u8 e = zpl_uri_parse(&w, t, zpl_heap()); MC_CHECK(e == 0, "a written URI is refused (%d)", e); is(&w, "written and parsed again"); zpl_uri_free(&w); free(t);
}
static void one(const char *text) {
    mc_log("text: %s\n", text); ref(text); char *t = dup_(text); zpl_adt_node r; zpl_u8 e = zpl_uri_parse(&r, t, zpl_heap()); mc_trans(1); MC_CHECK(e == 0, "refused with error %d", e);
    H = has_org; is(&r, "parsed"); mc_state(H); rewrite(&r, 0); zpl_uri_free(&r); free(t);
}
static const char *TOK[] = { "?", "&", "=", "a", "%41", "%", "+", " ", "2", ".", "%2", "/", "%zz", "%3F" };
static void toks(char *o, int nt, int len) { *o = 0; for (int i = 0; i < len; i++) strcat(o, TOK[mc_choose(nt)]); }
static void s_texts(void) { char t[64]; toks(t, 14, mc_choose(mc_thorough ? 7 : 6)); one(t); }
static void s_query(void) { char t[64]; int o = mc_choose(2); strcpy(t, o ? "o?" : "?"); toks(t + strlen(t), 6, mc_choose(mc_thorough ? 9 : 8)); one(t); }
static void s_bytes(void) { static const char *F[] = { "%s", "?%s", "?k=%s", "o?%s=v", "?a=1&%s" }; char b[4] = { (char)(1 + mc_choose(255)), (char)mc_choose(256), 0 }, t[32]; sprintf(t, F[mc_choose(5)], b); one(t); }
static void s_escapes(void) { /* every percent sequence */ if (mc_choose(2)) { char t[32]; int v = 1 + mc_choose(255), f = mc_choose(4); sprintf(t, f & 1 ? "?a=%%%02X%s" : "?%%%02x=b%s", v, f & 2 ? "&c" : ""); one(t); return; } char u[16]; u[0] = '?'; u[1] = 'a'; u[2] = '='; u[3] = '%'; u[4] = (char)(1 + mc_choose(255)); u[5] = (char)mc_choose(256); u[6] = 0; if (u[4] == '0' && u[5] == '0') mc_prune(); one(u); }
static void s_numbers(void) { static const char N[] = "0159.-+eExaF_"; char t[16] = "?v="; int n = 1 + mc_choose(mc_thorough ? 6 : 5); for (int i = 0; i < n; i++) t[3 + i] = N[mc_choose(13)]; t[3 + n] = 0; mc_log("text: %s\n", t); ref(t); char *u = dup_(t); zpl_adt_node r; MC_CHECK(zpl_uri_parse(&r, u, zpl_heap()) == 0, "refused"); is(&r, "parsed"); zpl_uri_free(&r); free(u); mc_trans(1); }
static const char *ORG[] = { "", "https://example.com/a/b.c", "http://u:p@h:8080/x%20y", "s", "%s%n%d", "a&b=c" };
static const char *VAL[] = { "", "x", "a b", "a+b", "50%", "a&b=c?d", "\xc5\xbd\xc4\x8d", "12", "-0.5", "#/:", "~-_.", "%41" };
static void s_parts(void) { /* URIs built by the program: every combination of parts */
    int o = mc_choose(7), n = mc_choose(4); zpl_adt_node r; has_org = o > 0 && ORG[o - 1][0]; zpl_u8 e = zpl_uri_init(&r, o ? (char *)ORG[o - 1] : NULL, zpl_heap()); MC_CHECK(e == 0, "init fails"); if (o) strcpy(org, ORG[o - 1]); np = 0; static const long long I[] = { 0, -1, 9223372036854775807ll };
    for (int i = 0; i < n; i++) {
        const char *name = VAL[(i || n > 2) && !mc_thorough ? 1 + mc_choose(3) : mc_choose(12)]; par *x = &P_[np++]; strcpy(x->name, name); x->flag = 0; int v = n > 2 ? 5 * mc_choose(4) : mc_choose(17); zpl_adt_node *g;
        if (v < 12) { strcpy(x->val, VAL[v]); g = zpl_adt_append_str(&r, name, v ? VAL[v] : mc_choose(2) ? "" : NULL); }
        else if (v == 12) { x->flag = 1; x->val[0] = 0; g = zpl_adt_append_flt(&r, name, 1); g->props = ZPL_ADT_PROPS_TRUE; if (!*name) { zpl_uri_free(&r); mc_prune(); } }
        else if (v == 13) { strcpy(x->val, "-12.375"); g = zpl_adt_append_flt(&r, name, -12.375); }
        else { if (v > 16) v = 16; sprintf(x->val, "%lld", I[v - 14]); g = zpl_adt_append_int(&r, name, I[v - 14]); }
        MC_CHECK(g != NULL, "append fails");
    }
    if (o && !has_org) { zpl_uri_free(&r); mc_prune(); }
    rewrite(&r, 1); zpl_uri_free(&r);
}
static void s_long(void) { static const int L[] = { 255, 4095, 65533, 65534, 65535, 65536, 65537, 140000 }; int n = L[mc_choose(8)], where = mc_choose(3), pc = mc_choose(2); char *v = malloc(n + 4), *t = malloc(3 * n + 32); memset(v, 'y', n); v[n] = 0; if (pc) memcpy(v + n - 3, "%41", 3);
    sprintf(t, where == 0 ? "%s?a=b" : where == 1 ? "o?%s=b" : "o?a=%s&c", v); char *u = dup_(t); zpl_adt_node r; MC_CHECK(zpl_uri_parse(&r, u, zpl_heap()) == 0, "refused"); if (pc && where) strcpy(v + n - 3, "A");
    const char *g = where == 0 ? r.nodes[0].string : where == 1 ? r.nodes[1].name : r.nodes[1].string; MC_CHECK(!strcmp(g, v), "a part of %d bytes is cut or changed", n); zpl_string s = zpl_uri_write_string(zpl_heap(), &r); MC_CHECK(s && strlen(s) == strlen(t) - (pc && where ? 2 : 0), "the written URI has another length"); zpl_string_free(s); zpl_uri_free(&r); free(u); free(t); free(v); mc_trans(1); }
static void s_many(void) { int n = mc_choose(mc_thorough ? 120 : 40); char t[2048] = "o?", *p = t + 2; for (int i = 0; i < n; i++) p += sprintf(p, "k%d=%dx&", i, i); char *u = dup_(t); zpl_adt_node r; MC_CHECK(zpl_uri_parse(&r, u, zpl_heap()) == 0 && zpl_array_count(r.nodes) == n + 1, "parameters are lost"); for (int i = 0; i < n; i++) { char b[16]; sprintf(b, "k%d", i); MC_CHECK(!strcmp(r.nodes[i + 1].name, b) && atoi(r.nodes[i + 1].string) == i && r.nodes[i + 1].parent == &r, "parameter %d is wrong", i); MC_CHECK(zpl_adt_query(&r, b) == r.nodes + i + 1, "parameter %d is not found by name", i); } zpl_uri_free(&r); free(u); mc_trans(1); }
static const char *CORPUS[] = { "https://example.com?foo=bar&baz=qux", "?a=1&b=2.5&c", "o?x%20y=%C5%BD+z&&=e", "plain", "?a=1&b=2&c=3&d=4&e=5&f=6&g=7&h=8&i=9&j=10&k=11&l=12&m=13&n=14&o=15&p=16&q=17&r=18&s=19&t=20&u=21&v=22&w=23&x=24&y=25&z=26&A=27", "http://x?a&b&c&d&e&f&g&h&i&j&k&l&m&n&o&p&q&r&s&t&u&v&w&x&y&z", "o?a=&b&c=1&d&e=+&f&g=%41&h&i=x&j&k" };
static void s_oom(void) {
    char *t = dup_(CORPUS[mc_choose(7)]); int at = mc_choose(10); zpl_adt_node r; long b = mc_malloc_n; mc_malloc_fail_at = b + at; zpl_u8 e = zpl_uri_parse(&r, t, zpl_heap()); int hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; mc_trans(1);
    MC_CHECK((e != 0) == hit, "parsing %s although memory was %s", e ? "fails" : "succeeds", hit ? "short" : "there"); MC_CHECK(!hit || e == ZPL_URI_ERROR_OUT_OF_MEMORY, "short memory is reported as %d", (int)e);
    if (!e) { b = mc_malloc_n; mc_malloc_fail_at = b + mc_choose(3); zpl_string s = zpl_uri_write_string(zpl_heap(), &r); mc_malloc_fail_at = -1; if (s) zpl_string_free(s); }
    zpl_uri_free(&r); b = mc_malloc_n; at = mc_choose(3); mc_malloc_fail_at = b + at; e = zpl_uri_init(&r, "o", zpl_heap()); hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; MC_CHECK((e != 0) == hit, "init reports %d", e); zpl_uri_free(&r); free(t);
}
static void s_origin_name(void) { /* a parameter that is named like the origin */ static const char *V[] = { "", "=5", "=x", "=1.5" }; char t[64]; sprintf(t, "%s?__zpl_origin__%s&a=1", mc_choose(2) ? "o" : "", V[mc_choose(4)]); char *u = dup_(t); zpl_adt_node r; MC_CHECK(zpl_uri_parse(&r, u, zpl_heap()) == 0, "refused"); zpl_string s = zpl_uri_write_string(zpl_heap(), &r); MC_CHECK(s != NULL, "writing fails"); zpl_string_free(s); zpl_uri_free(&r); free(u); mc_trans(1); }
/* thousands of parameters; long parts in which every character is escaped */
static void s_populous(void) {
    static const long D[] = { 255, 256, 257, 1023, 1024, 1025, 4097, 65535, 65536, 65537, 70000 }; long n = D[mc_choose(11)]; int shape = mc_choose(4); mc_claim(); mc_trans(1); char *t = malloc((size_t)n * 24 + 64), *w = t; zpl_adt_node r; mc_state(mc_hash_u((uint64_t)n, (uint64_t)shape));
    if (shape == 0) { w += sprintf(w, "http://h/p?"); for (long i = 0; i < n; i++) w += sprintf(w, i % 4 == 0 ? "k%ld=%ld&" : i % 4 == 1 ? "k%ld=v%ld&" : i % 4 == 2 ? "k%ld&" : "k%ld=%%26%ld&", i, i); w[-1] = 0; 
        for (int pass = 0; pass < 2; pass++) { MC_CHECK(zpl_uri_parse(&r, t, zpl_heap()) == 0, "%ld parameters are refused", n); MC_CHECK(zpl_array_count(r.nodes) == n + 1 && !strcmp(r.nodes[0].string, "http://h/p"), "%ld parameters became %ld", n, (long)zpl_array_count(r.nodes) - 1);
            for (long i = 0; i < n; i++) { zpl_adt_node *g = r.nodes + 1 + i; char b[40]; sprintf(b, "k%ld", i); MC_CHECK(g->parent == &r && !strcmp(g->name, b), "parameter %ld of %ld is named %s", i, n, g->name); if (i % 4 == 0) MC_CHECK(g->type == ZPL_ADT_TYPE_INTEGER && g->integer == i, "parameter %ld is not %ld", i, i); else if (i % 4 == 2) MC_CHECK(g->type == ZPL_ADT_TYPE_REAL && g->props == ZPL_ADT_PROPS_TRUE, "parameter %ld is no flag", i); else { sprintf(b, i % 4 == 1 ? "v%ld" : "&%ld", i); MC_CHECK(g->type == ZPL_ADT_TYPE_STRING && !strcmp(g->string, b), "parameter %ld is not %s", i, b); } }
            if (!pass) { zpl_string s = zpl_uri_write_string(zpl_heap(), &r); MC_CHECK(s != NULL, "writing fails"); zpl_uri_free(&r); free(t); t = dup_(s); zpl_string_free(s); } } }
    else { static const char X[] = " &=%\xc5?+\"a"; char *v = malloc((size_t)n + 1); for (long i = 0; i < n; i++) v[i] = shape == 1 ? '&' : X[(i * 3 + i / 9) % 9]; v[n] = 0; MC_CHECK(zpl_uri_init(&r, "o", zpl_heap()) == 0, "init"); if (shape == 3) zpl_adt_append_str(&r, v, "x"); else zpl_adt_append_str(&r, "x", v);
        for (int pass = 0; pass < 2; pass++) { zpl_adt_node *g = r.nodes + 1; MC_CHECK(zpl_array_count(r.nodes) == 2 && !strcmp(shape == 3 ? g->name : g->string, v) && !strcmp(shape == 3 ? g->string : g->name, "x"), "a part of %ld characters to escape is cut or changed", n); if (pass) break; zpl_string s = zpl_uri_write_string(zpl_heap(), &r); MC_CHECK(s != NULL, "writing fails"); for (char *q = s + 2; *q; q++) MC_CHECK((*q >= '0' && *q <= '9') || ((*q | 32) >= 'a' && (*q | 32) <= 'z') || (*q > 0 && strchr("+-_.~%=", *q)), "the written query contains byte %d", *q); zpl_uri_free(&r); free(t); t = dup_(s); zpl_string_free(s); MC_CHECK(zpl_uri_parse(&r, t, zpl_heap()) == 0, "the written URI is refused"); }
        free(v); }
    zpl_uri_free(&r); free(t);
}
mc_suite mc_suites[] = { { "populous", s_populous }, { "texts", s_texts }, { "queries", s_query }, { "bytes", s_bytes }, { "escapes", s_escapes }, { "numbers", s_numbers }, { "parts", s_parts }, { "long_parts", s_long }, { "many", s_many }, { "oom", s_oom }, { "origin_name", s_origin_name }, { 0 } };
