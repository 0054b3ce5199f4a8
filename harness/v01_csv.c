/* V01: CSV tables on every short text, against a reference reader, and round trips of every small table */
#include "z.h"
#include <math.h>
typedef struct { char s[160]; int n, q; } cell;
static cell T[24][16]; static int rows, wid[24];   /* the reference table: cell text and whether it was quoted */
enum { OK, EMPTY, RAGGED, OPENQ, GARBAGE };
static int sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
static int ref(const char *p, char d) {
    rows = 0; int c = 0, err = OK;
    for (;;) {
        while (*p && *p != d && *p != '\n' && sp(*p)) p++;
        if (c == 0) { if (*p == '\n') { p++; continue; } if (!*p) break; }
        MC_CHECK(rows < 24 && c < 16, "harness: table"); cell *x = &T[rows][c]; x->n = 0;
        if (*p == '"') {
            x->q = 1; p++;
            for (;;) { if (!*p) return OPENQ; if (*p == '"') { if (p[1] != '"') break; p++; } x->s[x->n++] = *p++; }
            p++; while (*p && *p != d && *p != '\n' && sp(*p)) p++;
            if (*p && *p != d && *p != '\n') { if (!err) err = GARBAGE; while (*p && *p != d && *p != '\n') p++; }
        } else { x->q = 0; while (*p && *p != d && *p != '\n') x->s[x->n++] = *p++; while (x->n && sp(x->s[x->n - 1])) x->n--; }
        x->s[x->n] = 0; c++;
        if (*p == d && *p) { p++; continue; }
        wid[rows++] = c; c = 0; if (rows > 1 && wid[rows - 1] != wid[0] && !err) err = RAGGED;
        if (!*p) break; p++;
    }
    return err ? err : rows ? OK : EMPTY;
}
/* a plain decimal number: digits, fraction, no redundancy */
static int plain_number(const char *s) { if (*s == '-') s++; if (*s < '0' || *s > '9') return 0; if (*s == '0' && s[1] >= '0' && s[1] <= '9') return 0; while (*s >= '0' && *s <= '9') s++; if (*s == '.') { s++; if (*s < '0' || *s > '9') return 0; while (*s >= '0' && *s <= '9') s++; } return !*s; }
/* the text as a whole denotes this value */
static int denotes(const char *s, zpl_adt_node *r) {
    if (!*s) return 0; const char *b = s; char *e; if (*b == '+' || *b == '-') b++; int hexa = b[0] == '0' && (b[1] | 32) == 'x'; if (sp(*b) || ((*b | 32) >= 'a' && (*b | 32) <= 'z')) return 0;
    if (hexa) { if (r->type != ZPL_ADT_TYPE_INTEGER) return 0; unsigned long long v = strtoull(b, &e, 16); return !*e && (unsigned long long)r->integer == (*s == '-' ? 0 - v : v); }
    double v = strtod(s, &e); if (*e || e == s) return 0;
    if (r->type == ZPL_ADT_TYPE_INTEGER) { errno = 0; long long i = strtoll(s, &e, 10); if (!*e && !errno) return i == r->integer; return v == (double)r->integer; }
    if (r->real == v || isinf(v) || isinf(r->real)) return r->real == v; return fabs(r->real - v) <= 8e-15 * fabs(v) || fabs(r->real - v) < 1e-306;
}
static void cell_is(zpl_adt_node *g, cell *x, int header, const char *what) {
    if (!header && (g->type == ZPL_ADT_TYPE_INTEGER || g->type == ZPL_ADT_TYPE_REAL)) { MC_CHECK(!x->q, "%s: the quoted cell \"%s\" became a number", what, x->s); MC_CHECK(denotes(x->s, g), "%s: the cell %s became another number", what, x->s); return; }
    MC_CHECK(g->type == ZPL_ADT_TYPE_STRING && g->string, "%s: a cell has type %d", what, g->type);
    MC_CHECK(!strcmp(g->string, x->s), "%s: a cell is \"%s\", expected \"%s\"", what, g->string, x->s);
    MC_CHECK(x->q || !plain_number(x->s), "%s: the number %s stayed text", what, x->s);
}
/* the parsed table equals the reference table */
static void table_is(zpl_adt_node *r, int header, const char *what) {
    MC_CHECK(zpl_array_count(r->nodes) == wid[0], "%s: %d columns, expected %d", what, (int)zpl_array_count(r->nodes), wid[0]);
    for (int c = 0; c < wid[0]; c++) {
        zpl_adt_node *col = r->nodes + c; MC_CHECK(col->parent == r, "%s: a column does not know its table", what);
        MC_CHECK(col->type == ZPL_ADT_TYPE_ARRAY && zpl_array_count(col->nodes) == rows - header, "%s: column %d has %d cells, expected %d", what, c, (int)zpl_array_count(col->nodes), rows - header);
        if (header) MC_CHECK(col->name && !strcmp(col->name, T[0][c].s), "%s: header %d is \"%s\", expected \"%s\"", what, c, col->name ? col->name : "(null)", T[0][c].s);
        else MC_CHECK(!col->name, "%s: a column of a table without a header is named", what);
        for (int i = 0; i < rows - header; i++) { MC_CHECK(col->nodes[i].parent == col, "%s: a cell does not know its column", what); cell_is(col->nodes + i, &T[i + header][c], 0, what); }
    }
}
static uint64_t table_hash(zpl_adt_node *r) { uint64_t h = zpl_array_count(r->nodes); for (int c = 0; c < zpl_array_count(r->nodes); c++) for (int i = 0; i < zpl_array_count(r->nodes[c].nodes); i++) { zpl_adt_node *g = r->nodes[c].nodes + i; h = g->type == ZPL_ADT_TYPE_STRING ? mc_hash(h, g->string, strlen(g->string)) : mc_hash_u(h, (uint64_t)g->integer); } return h; }
static char *dup_(const char *s) { size_t n = strlen(s); char *t = malloc(n + 1); memcpy(t, s, n + 1); return t; }
static void write_and_reread(zpl_adt_node *r, int header) {
    for (int k = 0; k < 3; k++) {
        char d = ",|;"[k]; zpl_string s = k ? zpl_csv_write_string_delimiter(zpl_heap(), r, d) : zpl_csv_write_string(zpl_heap(), r); MC_CHECK(s != NULL, "writing fails"); mc_trans(1);
        mc_log("--- written with '%c':\n%s---\n", d, s);
        zpl_file f; MC_CHECK(zpl_file_stream_new(&f, zpl_heap()) && zpl_file_write(&f, "pre", 3), "harness: stream"); if (k) zpl_csv_write_delimiter(&f, r, d); else zpl_csv_write(&f, r); zpl_isize wn; zpl_u8 *wb = zpl_file_stream_buf(&f, &wn); MC_CHECK(wn == zpl_string_length(s) + 3 && !memcmp(wb, "pre", 3) && !memcmp(wb + 3, s, (size_t)wn - 3), "written to a file the table differs from the one written to a string"); zpl_file_close(&f);
        char *t = dup_(s); zpl_string_free(s); zpl_adt_node q; zpl_u8 e = k ? zpl_csv_parse_delimiter(&q, t, zpl_heap(), header, d) : zpl_csv_parse(&q, t, zpl_heap(), header);
        MC_CHECK(e == 0, "a written table is refused with error %d", e); table_is(&q, header, "written and parsed again"); zpl_csv_free(&q); free(t);
    }
}
static void one(const char *text, char d, int header, int again) {
    mc_log("text (delimiter %d, header %d): %s\n", d, header, text); int want = ref(text, d); char *t = dup_(text); zpl_adt_node r; zpl_u8 e = d == ',' ? zpl_csv_parse(&r, t, zpl_heap(), header) : zpl_csv_parse_delimiter(&r, t, zpl_heap(), header, d); mc_trans(1);
    if (want == OK) { MC_CHECK(e == 0, "a table of %d rows is refused with error %d", rows, e); table_is(&r, header, "parsed"); mc_state(table_hash(&r)); }
    else { MC_CHECK(e != 0, "%s", want == EMPTY ? "a text without a row is accepted" : want == RAGGED ? "a table with rows of different lengths is accepted" : want == OPENQ ? "a quoted cell without an end is accepted" : "data after a quoted cell is accepted");
        if (want == RAGGED) MC_CHECK(e == ZPL_CSV_ERROR_MISMATCHED_ROWS, "rows of different lengths give error %d", e);
        if (want == EMPTY || want == OPENQ) MC_CHECK(e == ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT || (want == OPENQ && e), "error %d", e); }
    if (!e && again) write_and_reread(&r, header);
    zpl_csv_free(&r); free(t);
}
static const char *TOK[] = { ",", "\"", "\n", " ", "a", "1", "-", ".", "\t", "\r", "|", "x" };
static void toks(char *o, int nt, int len) { *o = 0; for (int i = 0; i < len; i++) strcat(o, TOK[mc_choose(nt)]); }
static void s_texts(void) { char t[64]; int h = mc_choose(2), k = mc_choose(3); toks(t, 12, mc_choose(mc_thorough ? 7 : 6)); one(t, ",\t|"[k], h, 1); }
static void s_quotes(void) { char t[64]; int h = mc_choose(2); toks(t, 5, mc_choose(mc_thorough ? 11 : 9)); one(t, ',', h, 1); }
static void s_numbers(void) { static const char N[] = "0159.-+eExaF_ "; char t[16]; int n = 1 + mc_choose(mc_thorough ? 6 : 5); for (int i = 0; i < n; i++) t[i] = N[mc_choose(14)]; t[n] = 0; one(t, ',', 0, 0); }
static const char *CELL[] = { "", "a", "\"\"", "\" b \"", "\"x,y\"", "\"q\"\"q\"", "\"l\nm\"", "12", "-0.5", "1-2", " s p ", "10.0.0.1", "\"7\"" };
static void s_grid(void) { /* every well-formed small table, as text */
    char t[400]; int h = mc_choose(2), nr = 1 + mc_choose(3), nc = 1 + mc_choose(3), eol = mc_choose(3), last = mc_choose(2), big = nr * nc > (mc_thorough ? 4 : 3); *t = 0;
    for (int r = 0; r < nr; r++) { for (int c = 0; c < nc; c++) { const char *x = CELL[big ? (r == nr - 1 && c == nc - 1) || (r == 0 && c == 0) || (r == 0 && c == nc - 1) ? mc_choose(13) : (r * 5 + c * 3 + 1) % 13 : mc_choose(13)]; if (!*x && nc == 1) x = "\"\""; strcat(t, x); if (c < nc - 1) strcat(t, ","); } if (r < nr - 1 || last) strcat(t, eol == 0 ? "\n" : eol == 1 ? "\r\n" : "\n\n"); }
    one(t, ',', h, 1);
}
static void s_ragged(void) { char t[200]; int h = mc_choose(2), nr = 1 + mc_choose(4); *t = 0; for (int r = 0; r < nr; r++) { int n = 1 + mc_choose(4); for (int c = 0; c < n; c++) { strcat(t, mc_choose(2) ? "v" : c || n > 1 ? "" : "w"); if (c < n - 1) strcat(t, ","); } strcat(t, "\n"); } one(t, ',', h, 0); }
/* tables built by the program */
static const char *SV[] = { "", "a", " a ", "a,b", "\"", "say \"x\"", "l\nm", "|", "-", "a;b", "\"q", "tab\t" };
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
#define STYLE_(n, s) ((void)(n), (void)(s))
#else
#define STYLE_(n, s) ((n)->name_style = (zpl_u8)(s))
#endif
static void s_built(void) {
    int h = mc_choose(2), nc = 1 + mc_choose(2), nr = mc_choose(3), k = 0; if (!h && !nr) mc_prune(); zpl_adt_node r; if (h) zpl_adt_set_obj(&r, NULL, zpl_heap()); else zpl_adt_set_arr(&r, NULL, zpl_heap());
    for (int c = 0; c < nc; c++) {
        const char *name = NULL; int hs = 0; if (h) { int v = mc_choose(12); hs = mc_choose(3); name = SV[v]; if (nc == 1 && !*name) hs = 0; strcpy(T[0][c].s, name); T[0][c].q = hs != 2; }
        zpl_adt_node *col = zpl_adt_append_arr(&r, name); MC_CHECK(col != NULL, "append fails"); STYLE_(col, hs);
        for (int i = 0; i < nr; i++, k++) {
            cell *x = &T[i + h][c]; col = r.nodes + c; if (k >= (h ? 1 : 3)) { x->q = 0; strcpy(x->s, "5"); zpl_adt_append_int(col, NULL, 5); continue; }
            int v = mc_choose(17);
            if (v < 12) { zpl_adt_node *n = zpl_adt_append_str(col, NULL, SV[v]); int ns = mc_choose(3); if (nc == 1 && !SV[v][0]) ns = 0; STYLE_(n, ns); if (v == 7 && mc_choose(2)) n->type = ZPL_ADT_TYPE_MULTISTRING; strcpy(x->s, SV[v]); x->q = 1; }
            else { static const long long I[] = { 0, -7, 9223372036854775807ll, 1234567 }; if (v == 16) { zpl_adt_append_flt(col, NULL, -12.375); strcpy(x->s, "-12.375"); } else { zpl_adt_append_int(col, NULL, I[v - 12]); sprintf(x->s, "%lld", I[v - 12]); } x->q = 0; }
        }
    }
    rows = nr + h; for (int i = 0; i < rows; i++) wid[i] = nc; write_and_reread(&r, h); zpl_csv_free(&r);
}
static void s_large(void) { /* growth of columns and rows, and long cells */
    int k = mc_choose(4), d = mc_choose(2);
    if (k < 2) { int nc = k ? 1 + mc_choose(mc_thorough ? 80 : 40) : 1 + mc_choose(3), nr = k ? 2 : 1 + mc_choose(mc_thorough ? 200 : 70); char *t = malloc(nc * nr * 8 + 1), *p = t; for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) p += sprintf(p, "v%d%c", r * nc + c, c < nc - 1 ? ',' : '\n'); zpl_adt_node q; char *u = dup_(t); free(t); zpl_u8 e = zpl_csv_parse(&q, u, zpl_heap(), d); MC_CHECK(e == 0 && zpl_array_count(q.nodes) == nc, "a table of %d x %d cells is refused (%d)", nr, nc, e);
        for (int c = 0; c < nc; c++) { zpl_adt_node *col = q.nodes + c; char b[16]; MC_CHECK(col->parent == &q && zpl_array_count(col->nodes) == nr - d, "a column lost cells"); if (d) { sprintf(b, "v%d", c); MC_CHECK(!strcmp(col->name, b), "wrong header"); } for (int r = d; r < nr; r++) { sprintf(b, "v%d", r * nc + c); MC_CHECK(!strcmp(col->nodes[r - d].string, b) && col->nodes[r - d].parent == col, "cell %d,%d is %s", r, c, col->nodes[r - d].string); } }
        zpl_csv_free(&q); free(u);
    } else {
        static const int L[] = { 255, 256, 4095, 4096, 65534, 65535, 65536, 65537, 131072 }; int n = L[mc_choose(9)], quote = k == 3; char *t = malloc(n + 8), *p = t; if (quote) *p++ = '"'; memset(p, 'z', n); if (quote) { p[n / 2] = p[n / 2 + 1] = '"'; } p += n; if (quote) *p++ = '"'; strcpy(p, ",k"); char *u = dup_(t); free(t);
        zpl_adt_node q; zpl_u8 e = zpl_csv_parse(&q, u, zpl_heap(), d); MC_CHECK(e == 0, "a long cell is refused"); const char *g = d ? q.nodes[0].name : q.nodes[0].nodes[0].string; MC_CHECK((int)strlen(g) == n - quote, "a long cell has %d bytes, expected %d", (int)strlen(g), n - quote);
        zpl_string s = zpl_csv_write_string(zpl_heap(), &q); MC_CHECK(s != NULL, "writing fails"); char *w = dup_(s); zpl_string_free(s); zpl_adt_node q2; MC_CHECK(zpl_csv_parse(&q2, w, zpl_heap(), d) == 0, "a written long cell is refused"); const char *g2 = d ? q2.nodes[0].name : q2.nodes[0].nodes[0].string; MC_CHECK(!strcmp(g, g2), "a long cell changes when written"); zpl_csv_free(&q); zpl_csv_free(&q2); free(u); free(w);
    }
}
static const char *CORPUS[] = { "foo,bar,baz\n1,2,3\n4,5,6\n", "\"foo, \",\"b\"\"ar\",baz\n1,,\" x \"\n", "a|b,c\r\n-1.5,0x1F\r\n", "h\n\n1\n2", "\"l1\nl2\",z", ",,\n,,\n" };
#define NC 6
static void s_mutate(void) { const char *d = CORPUS[mc_choose(NC)]; char t[64]; int n = (int)strlen(d), how = mc_choose(3), at = mc_choose(n); strcpy(t, d); if (how == 0) t[at] = 0; else if (how == 1) t[at] = (char)(1 + mc_choose(255)); else { memmove(t + at + 1, t + at, n - at + 1); t[at] = TOK[mc_choose(12)][0]; } for (int h = 0; h < 2; h++) for (int k = 0; k < 2; k++) one(t, ",|"[k], h, !k); }
static void s_bytes(void) { char t[4] = { (char)(1 + mc_choose(255)), (char)mc_choose(256), 0 }; if (mc_choose(2)) { t[2] = ','; t[3] = 0; } one(t, ',', 0, 1); }
static const char *LONGER[] = { "a\n1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12\n13\n14\n15\n16\n17\n18\n19\n20\n21\n22\n23\n24\n25\n26\n27\n", "a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,A\n1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27\n" };
static void s_oom(void) {
    int which = mc_choose(NC + 2); char *t = dup_(which < NC ? CORPUS[which] : LONGER[which - NC]); int h = mc_choose(2), at = mc_choose(which < NC ? 24 : 80); zpl_adt_node r; long b = mc_malloc_n; mc_malloc_fail_at = b + at; zpl_u8 e = zpl_csv_parse(&r, t, zpl_heap(), h); int hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; mc_trans(1);
    MC_CHECK((e != 0) == hit, "parsing %s although memory was %s", e ? "fails" : "succeeds", hit ? "short" : "there"); MC_CHECK(!hit || e == ZPL_CSV_ERROR_OUT_OF_MEMORY, "short memory is reported as %d", (int)e);
    if (!e) { b = mc_malloc_n; mc_malloc_fail_at = b + mc_choose(3); zpl_string s = zpl_csv_write_string(zpl_heap(), &r); mc_malloc_fail_at = -1; if (s) zpl_string_free(s); }
    zpl_csv_free(&r); free(t);
}
/* tables of many rows, many columns, and cells of many characters */
static int many_cell(char *o, long i, int c) { static const char *F[] = { "%ld", "r%ld", "\"q%ld\"", "\"a,%ld\"\"\"", "-%ld.5", "\"%ld\"" }; return sprintf(o, F[(i * 7 + c * 3 + (i >> 8)) % 6], i); }
static void many_is(zpl_adt_node *r, long nr, long nc, int header, const char *what) {
    char t[64], u[64]; MC_CHECK(zpl_array_count(r->nodes) == nc, "%s: %ld columns of %ld", what, (long)zpl_array_count(r->nodes), nc);
    for (long c = 0; c < nc; c++) { zpl_adt_node *col = r->nodes + c; MC_CHECK(col->type == ZPL_ADT_TYPE_ARRAY && zpl_array_count(col->nodes) == nr - header, "%s: column %ld has %ld of %ld cells", what, c, (long)zpl_array_count(col->nodes), nr - header);
        for (long i = 0; i < nr; i++) { int n = many_cell(t, i * nc + c, (int)c), q = t[0] == '"', m = 0; for (int k = q; k < n - q; k++) { u[m++] = t[k]; if (t[k] == '"') k++; } u[m] = 0;
            if (header && !i) { MC_CHECK(col->name && !strcmp(col->name, u), "%s: header %ld is %s, expected %s", what, c, col->name ? col->name : "(null)", u); continue; }
            zpl_adt_node *g = col->nodes + (i - header); MC_CHECK(g->parent == col, "%s: cell %ld,%ld does not know its column", what, i, c);
            if (g->type == ZPL_ADT_TYPE_INTEGER || g->type == ZPL_ADT_TYPE_REAL) { MC_CHECK(!q && denotes(u, g), "%s: cell %ld,%ld is not %s", what, i, c, t); continue; }
            MC_CHECK(q || !plain_number(u), "%s: cell %ld,%ld: the number %s stayed text", what, i, c, u);
            MC_CHECK(g->type == ZPL_ADT_TYPE_STRING && !strcmp(g->string, u), "%s: cell %ld,%ld is not %s", what, i, c, u); } }
}
static void s_many(void) {
    static const long D[] = { 255, 256, 257, 1023, 1025, 4096, 32769, 65535, 65536, 65537, 70000 }; long n = D[mc_choose(11)]; int shape = mc_choose(4), header = mc_choose(2); mc_claim(); mc_trans(1);
    if (shape == 3) { char *t = malloc((size_t)n * 2 + 16), *w = t; *w++ = '"'; for (long i = 0; i < n; i++) { char c = "ab,\n\"z"[(i * 5 + i / 6) % 6]; if (c == '"') *w++ = c; *w++ = c; } *w++ = '"'; if (header) { strcpy(w, "\n5"); w += 2; } *w = 0; zpl_adt_node r; zpl_u8 e = zpl_csv_parse(&r, t, zpl_heap(), header); MC_CHECK(!e && zpl_array_count(r.nodes) == 1, "a cell of %ld characters: error %d", n, e);
        for (int pass = 0; pass < 2; pass++) { const char *g = header ? r.nodes[0].name : r.nodes[0].nodes[0].string; MC_CHECK((long)strlen(g) == n, "a cell of %ld characters has %ld", n, (long)strlen(g)); for (long i = 0; i < n; i++) MC_CHECK(g[i] == "ab,\n\"z"[(i * 5 + i / 6) % 6], "character %ld of a cell of %ld changed", i, n); 
            if (!pass) { zpl_string s = zpl_csv_write_string(zpl_heap(), &r); zpl_csv_free(&r); MC_CHECK(s != NULL, "writing fails"); free(t); t = malloc((size_t)zpl_string_length(s) + 1); memcpy(t, s, (size_t)zpl_string_length(s) + 1); zpl_string_free(s); e = zpl_csv_parse(&r, t, zpl_heap(), header); MC_CHECK(!e && zpl_array_count(r.nodes) == 1, "written with a cell of %ld characters: error %d", n, e); } }
        zpl_csv_free(&r); free(t); mc_state(mc_hash_u((uint64_t)n, 90 + header)); return; }
    long nr = shape == 2 ? 2 : n, nc = shape == 0 ? 1 : shape == 1 ? 3 : n; char *t = malloc((size_t)(nr * nc) * 16 + 16), *w = t; for (long i = 0; i < nr; i++) for (long c = 0; c < nc; c++) { w += many_cell(w, i * nc + c, (int)c); *w++ = c + 1 < nc ? ',' : '\n'; } *w = 0;
    zpl_adt_node r; zpl_u8 e = zpl_csv_parse(&r, t, zpl_heap(), header); MC_CHECK(!e, "a table of %ld rows and %ld columns is refused with error %d", nr, nc, e); many_is(&r, nr, nc, header, "parsed"); zpl_string s = zpl_csv_write_string_delimiter(zpl_heap(), &r, ','); zpl_csv_free(&r); MC_CHECK(s != NULL, "writing fails"); free(t); t = malloc((size_t)zpl_string_length(s) + 1); memcpy(t, s, (size_t)zpl_string_length(s) + 1); zpl_string_free(s);
    e = zpl_csv_parse(&r, t, zpl_heap(), header); MC_CHECK(!e, "a written table of %ld rows and %ld columns is refused with error %d", nr, nc, e); many_is(&r, nr, nc, header, "written and parsed again"); zpl_csv_free(&r); free(t); mc_state(mc_hash_u((uint64_t)nr, (uint64_t)nc * 2 + header));
}
mc_suite mc_suites[] = { { "many", s_many }, { "texts", s_texts }, { "quotes", s_quotes }, { "numbers", s_numbers }, { "grids", s_grid }, { "ragged", s_ragged }, { "built_tables", s_built }, { "large", s_large }, { "mutations", s_mutate }, { "bytes", s_bytes }, { "oom", s_oom }, { 0 } };
