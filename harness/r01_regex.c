/* R01: regular expressions: all short patterns against all short texts, with a reference backtracking matcher */
#include "z.h"
/* ------------------------------------------------------------------ reference: pattern -> graph -> backtracking walk */
enum { SET, BOL, EOL_, SPLIT, OPEN, CLOSE, JOIN, DONE };
typedef struct nd { int k, cap, min, max, lazy, na; unsigned char set[32]; struct nd *next, *alt[40]; } nd;
static nd N[4096]; static int nn, caps; static const char *P, *E; static int bad, unspec;
static nd *mk(int k) { MC_CHECK(nn < 4096, "harness: nodes"); nd *x = &N[nn++]; memset(x, 0, sizeof *x); x->k = k; x->min = x->max = 1; return x; }
#define IN(x, c) ((x)->set[(unsigned char)(c) >> 3] >> ((c) & 7) & 1)
static void add(nd *x, int c) { x->set[(unsigned char)c >> 3] |= (unsigned char)(1 << (c & 7)); }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int isw(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static int iss(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void cls(nd *x, int e) {
    for (int c = 0; c < 256; c++) { int in;
        switch (e) { case 's': in = iss(c); break; case 'S': in = !iss(c); break; case 'd': in = c >= '0' && c <= '9'; break; case 'D': in = !(c >= '0' && c <= '9'); break;
        case 'a': in = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); break; case 'l': in = c >= 'a' && c <= 'z'; break; case 'u': in = c >= 'A' && c <= 'Z'; break;
        case 'w': in = isw(c); break; case 'W': in = !isw(c); break; case 'x': in = hexv(c) >= 0; break; case 'p': in = c >= 32 && c <= 126; break;
        case 't': in = c == 9; break; case 'n': in = c == 10; break; case 'r': in = c == 13; break; case 'v': in = c == 11; break; case 'f': in = c == 12; break; case '0': in = c == 0; break;
        default: in = c == (unsigned char)e; }
        if (in) add(x, c); }
}
static void esc(nd *x) { if (P + 1 < E && hexv(P[0]) >= 0 && hexv(P[1]) >= 0) { add(x, hexv(P[0]) * 16 + hexv(P[1])); P += 2; } else if (P < E) cls(x, (unsigned char)*P++); }
static nd *alts(int level, nd **tail);
static void seq(int level, nd **head, nd **tail, int *items) {
    nd h = { 0 }, *t = &h, *last = NULL; *items = 0;
    while (P < E && !bad) {
        char c = *P; nd *x;
        if (c == '|' || c == ')') break;
        P++; ++*items;
        if (c == '*' || c == '+' || c == '?') { if (!last) { bad = 1; return; } last->min = c == '+'; last->max = c == '?' ? 1 : 1 << 20; if (c != '?' && P < E && *P == '?') { last->lazy = 1; P++; } last = NULL; continue; }
        last = NULL;
        if (c == '^') x = mk(BOL); else if (c == '$') x = mk(EOL_);
        else if (c == '(') { x = mk(OPEN); x->cap = caps++; nd *bt, *b; b = alts(level + 1, &bt); if (bad) return; x->next = b; nd *cl = mk(CLOSE); cl->cap = x->cap; bt->next = cl; t->next = x; t = cl; continue; }
        else { last = x = mk(SET);
            if (c == '.') memset(x->set, 255, 32);
            else if (c == '\\') { if (P == E) { unspec = 1; last = NULL; --*items; break; } esc(x); }
            else if (c == '[') { int neg = P < E && *P == '^'; if (neg) P++; while (P < E && *P != ']') { if (*P == '\\') { P++; esc(x); } else add(x, *P++); } if (P >= E) { bad = 1; return; } P++; if (neg) for (int i = 0; i < 32; i++) x->set[i] = (unsigned char)~x->set[i]; }
            else add(x, c);
        }
        t->next = x; t = x;
    }
    *head = h.next; *tail = t == &h ? NULL : t;
}
static nd *alts(int level, nd **tail) {
    nd *s = mk(SPLIT), *j = mk(JOIN);
    for (;;) {
        nd *h, *t; int items; seq(level, &h, &t, &items); if (bad) return s;
        MC_CHECK(s->na < 40, "harness: alternatives"); s->alt[s->na++] = h ? h : j; if (t) t->next = j;
        if (P < E && *P == '|') { if (!items) { bad = 1; return s; } P++; continue; }
        if (P < E && *P == ')') { if (!level) { bad = 1; return s; } P++; break; }
        if (level) { bad = 1; return s; } break;
    }
    *tail = j; return s;
}
static nd *ref_compile(const char *p, int n) { nn = caps = bad = unspec = 0; P = p; E = p + n; nd *t = NULL, *s = alts(0, &t); if (!bad) t->next = mk(DONE); return s; }
static const char *T; static int TL; static struct { int s, e; } cap_[512];
static int walk(nd *x, int at) {
    for (;;) switch (x->k) {
    case DONE: return at;
    case JOIN: x = x->next; break;
    case BOL: if (at) return -1; x = x->next; break;
    case EOL_: if (at != TL) return -1; x = x->next; break;
    case SPLIT: for (int i = 0; i < x->na; i++) { int r = walk(x->alt[i], at); if (r >= 0) return r; } return -1;
    case OPEN: case CLOSE: { int c = x->cap, os = cap_[c].s, oe = cap_[c].e; if (x->k == OPEN) cap_[c].s = cap_[c].e = at; else cap_[c].e = at; int r = walk(x->next, at); if (r < 0) cap_[c].s = os, cap_[c].e = oe; return r; }
    default: { int n = 0, m = x->max; if (x->lazy) { for (;;) { if (n >= x->min) { int r = walk(x->next, at + n); if (r >= 0) return r; } if (n >= m || at + n >= TL || !IN(x, T[at + n])) return -1; n++; } }
        while (n < m && at + n < TL && IN(x, T[at + n])) n++;
        for (; n >= x->min; n--) { int r = walk(x->next, at + n); if (r >= 0) return r; } return -1; }
    }
}
static int ref_match(nd *g, const char *t, int n) { T = t; TL = n; for (int i = 0; i <= n; i++) { for (int c = 0; c < caps; c++) cap_[c].s = -1; int r = walk(g, i); if (r >= 0) return r; } return -1; }
/* ------------------------------------------------------------------ comparison */
static char *blk(const char *s, int n) { char *b = malloc(n); if (n) memcpy(b, s, n); return b; }
static char *show(const char *s, int n) { static char o[4][256]; static int k; char *q = o[k++ & 3], *w = q; for (int i = 0; i < n && i < 48; i++) w += s[i] > 31 && s[i] < 127 ? sprintf(w, "%c", s[i]) : sprintf(w, "<%02x>", (unsigned char)s[i]); *w = 0; return q; }
static zpl_re_capture cp[512];
static void try_text(zpl_re *re, nd *g, const char *p, int pn, const char *t, int n, int mcap) {
    int want = ref_match(g, t, n); char *b = blk(t, n); zpl_isize off = -7; zpl_re_capture *c = mcap ? malloc(sizeof *c * mcap) : NULL; for (int i = 0; i < mcap; i++) { c[i].str = (char *)8; c[i].len = -3; }
    zpl_b32 ok = zpl_re_match(re, b, n, c, mcap, &off); mc_trans(1);
    MC_CHECK(!!ok == (want >= 0), "/%s/ %s \"%s\"", show(p, pn), ok ? "matches" : "does not match", show(t, n));
    if (ok) { MC_CHECK(off == want, "/%s/ on \"%s\": the match ends at %d, expected %d", show(p, pn), show(t, n), (int)off, want);
        for (int i = 0; i < mcap && i < caps; i++) { if (cap_[i].s < 0) MC_CHECK(c[i].len == 0, "/%s/ on \"%s\": group %d took no part but holds %d characters", show(p, pn), show(t, n), i, (int)c[i].len);
            else MC_CHECK(c[i].str == b + cap_[i].s && c[i].len == cap_[i].e - cap_[i].s, "/%s/ on \"%s\": group %d is %d+%d, expected %d+%d", show(p, pn), show(t, n), i, (int)(c[i].str - b), (int)c[i].len, cap_[i].s, cap_[i].e - cap_[i].s); } }
    free(c); free(b);
}
static nd *start(zpl_re *re, char **pb, const char *p, int n) {
    memset(re, 0, sizeof *re); nd *g = ref_compile(p, n); *pb = blk(p, n); zpl_regex_error e = zpl_re_compile(re, zpl_heap(), *pb, n); mc_trans(1); mc_log("pattern /%s/%s\n", show(p, n), bad ? " (malformed)" : "");
    if (!unspec) MC_CHECK((e != ZPL_RE_ERROR_NONE) == bad, "/%s/ %s", show(p, n), e ? "is refused" : "is accepted"); else if (e) bad = 1;
    if (e) { free(*pb); return NULL; }
    MC_CHECK(zpl_re_capture_count(re) == caps, "/%s/ has %d groups, expected %d", show(p, n), (int)zpl_re_capture_count(re), caps);
    return g;
}
static void finish(zpl_re *re, char *pb) { zpl_re_destroy(re); free(pb); }
static uint64_t all_texts(zpl_re *re, nd *g, const char *p, int pn, const char *L, int nl, int max) {
    char t[12]; uint64_t h = 7; int mc = caps > 4 ? 4 : caps + 1;
    for (int n = 0; n <= max; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= nl; for (long v = 0; v < tot; v++) { long w = v; for (int i = 0; i < n; i++) { t[i] = L[w % nl]; w /= nl; } try_text(re, g, p, pn, t, n, mc); h = mc_hash_u(h, ref_match(g, t, n) + 1); } }
    return h;
}
static void buffers(const char *p, int n, zpl_re *ref) { /* compiled into a buffer of the program's size and one byte less */
    zpl_isize need = ref->buf_len; zpl_re r; for (int k = 0; k < 2; k++) { if (need - k < 0) break; memset(&r, 0, sizeof r); char *b = malloc(need - k), *pb = blk(p, n); zpl_regex_error e = zpl_re_compile_from_buffer(&r, pb, n, b, need - k); MC_CHECK((e != 0) == k, "compiling into a buffer of %s size %s", k ? "too small a" : "the exact", e ? "fails" : "succeeds"); if (!e) { zpl_isize off = 0; zpl_re_match(&r, "ab", 2, NULL, 0, &off); } zpl_re_destroy(&r); free(b); free(pb); }
}
static const char *TOK[] = { "a", "b", "*", "|", "(", ")", ".", "+", "?", "^", "$", "[ab]", "[^a]", "*?", "+?", "\\d", "[", "]", "ab", "\\61", "\\" };
static int toks(char *o, int nt, int len) { *o = 0; for (int i = 0; i < len; i++) strcat(o, TOK[mc_choose(nt)]); return (int)strlen(o); }
static void one(const char *p, int n, const char *L, int nl, int max, int bufs) { zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; uint64_t h = all_texts(&re, g, p, n, L, nl, max); mc_state(mc_hash(h, re.buf, 0) + nn * 131 + caps); if (bufs) buffers(p, n, &re); finish(&re, pb); }
static void s_patterns(void) { char p[64]; int len = mc_choose(mc_thorough ? 7 : 6), n = toks(p, 21, len); one(p, n, "ab", 2, len > 5 ? 3 : len > 3 ? 4 : 5, len < 4); }
static void s_core(void) { char p[64]; int n = toks(p, 7, 5 + mc_choose(mc_thorough ? 4 : 2)); one(p, n, "ab", 2, 3, 0); }
static void s_quant(void) { static const char *Q[] = { "a*", "b*?", "a+", ".*", ".+?", "b?", "(", ")", "|", "[ab]*?", "a", "$" }; char p[64] = ""; int k = mc_choose(mc_thorough ? 7 : 6); for (int i = 0; i < k; i++) strcat(p, Q[mc_choose(12)]); one(p, (int)strlen(p), "ab", 2, mc_thorough ? 6 : 5, 0); }
static void s_groups(void) { static const char *Q[] = { "(", ")", "|", "a", "b*", "" }; char p[64] = ""; int k = mc_thorough ? 10 : 9; for (int i = 0; i < k; i++) strcat(p, Q[mc_choose(5)]); one(p, (int)strlen(p), "ab", 2, 2, 0); }
static void s_escapes(void) { /* every escape, alone, in sets and in excluded sets, against every character */
    static const char *F[] = { "\\%c", "[\\%c]", "[^\\%c]", "\\%c*", "[z\\%cy]" }; char p[32]; int f = mc_choose(5), c = mc_choose(256), n = 0; for (const char *q = F[f]; *q; q++) if (*q == '%') { p[n++] = (char)c; q++; } else p[n++] = *q;
    zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; for (int t = 0; t < 256; t++) { char x[2] = { (char)t, (char)t }; try_text(&re, g, p, n, x, 1, 1); if (!(t & 15)) try_text(&re, g, p, n, x, 2, 0); } finish(&re, pb);
}
static void s_hex(void) { static const char *F[] = { "\\%c%c", "[\\%c%c]", "a\\%c%c+", "[^q\\%c%cr]" }; static const char D[] = "0123456789abcdefABCDEFgG+*]\\"; char p[32]; int f = mc_choose(4), a = D[mc_choose(28)], b = D[mc_choose(28)], n = sprintf(p, F[f], a, b); zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; for (int t = 0; t < 256; t++) { char x[3] = { 'a', (char)t, (char)t }; try_text(&re, g, p, n, x + (f != 2), f == 2 ? 3 : 1, 0); } finish(&re, pb); }
static void s_sets(void) { static const char *I[] = { "^", "]", "a", "b", "-", "\\d", "\\]", "\\^", "[", "\\W", "\\00", "\\" }; char p[64] = "["; int k = mc_choose(mc_thorough ? 5 : 4); for (int i = 0; i < k; i++) strcat(p, I[mc_choose(12)]); if (mc_choose(2)) strcat(p, "]"); if (mc_choose(2)) strcat(p, "*a"); int n = (int)strlen(p); zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; static const char X[] = "a]^-[\\5b\0\377 "; for (int i = 0; i < 11; i++) { try_text(&re, g, p, n, X + i, 1, 0); for (int j = 0; j < 11; j++) { char t[3] = { X[i], X[j], 'a' }; try_text(&re, g, p, n, t, 2, 0); if (i < 3) try_text(&re, g, p, n, t, 3, 0); } } finish(&re, pb); }
static void s_bytes(void) { /* raw bytes as pattern */ char p[3]; int n = mc_choose(3) + 1; if (n == 3) { static const char B[] = "a\0*[]\377\\(|)"; for (int i = 0; i < 3; i++) p[i] = B[mc_choose(11) % 10]; } else for (int i = 0; i < n; i++) p[i] = (char)mc_choose(256); zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; char t[4] = { 0, 'a', (char)255, p[0] }; for (int i = 0; i < 4; i++) for (int k = 0; i + k <= 4; k++) try_text(&re, g, p, n, t + i, k, 1); finish(&re, pb); }
static void s_captures(void) { /* every number of capture slots */ static const char *Q[] = { "(a)|(b)", "((a*)(b*))c?", "(a|(b))(a|(b))", "(()a)*", "(a)(b)?", "((((a))))b", "(x|(a)b|(a))(b*)", "(a+)(a+)" }; const char *p = Q[mc_choose(8)]; int n = (int)strlen(p), m = mc_choose(7); zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; char t[6]; for (int l = 0; l <= 5; l++) for (int v = 0; v < (1 << l); v++) { for (int i = 0; i < l; i++) t[i] = v >> i & 1 ? 'b' : 'a'; try_text(&re, g, p, n, t, l, m); } finish(&re, pb); }
static void s_all(void) { /* successive matches */
    static const char *Q[] = { "a", "(a)", "a(b)", "(a*)b", "(a)|(b)", "b*", "^a", "(b)$", "(a|b)+?b", "x", "((a)b)", "(.)" }; char pz[32]; strcpy(pz, Q[mc_choose(12)]); const char *p = pz; int n = (int)strlen(p), m = mc_choose(4), l = mc_choose(mc_thorough ? 9 : 7); char t[16]; for (int i = 0; i < l; i++) t[i] = "ab"[mc_choose(2)];
    zpl_re re; char *pb; nd *g = start(&re, &pb, p, n); if (!g) return; char *b = blk(t, l); zpl_re_capture *out; zpl_array_init(out, zpl_heap()); zpl_b32 ok = zpl_re_match_all(&re, b, l, m, &out); mc_trans(1); int at = 0, k = 0, all = 1;
    while (at < l) { int r = ref_match(g, t + at, l - at); if (r < 0) { all = 0; break; } for (int i = 0; i < m; i++, k++) { MC_CHECK(k < zpl_array_count(out), "/%s/ on \"%s\": only %d captures are listed", p, show(t, l), (int)zpl_array_count(out)); if (i < caps && cap_[i].s >= 0) MC_CHECK(out[k].str == b + at + cap_[i].s && out[k].len == cap_[i].e - cap_[i].s, "/%s/ on \"%s\": capture %d is wrong", p, show(t, l), k); else MC_CHECK(out[k].len == 0, "/%s/ on \"%s\": capture %d is not empty", p, show(t, l), k); } at += r ? r : 1; }
    MC_CHECK(zpl_array_count(out) == k, "/%s/ on \"%s\": %d captures are listed, expected %d", p, show(t, l), (int)zpl_array_count(out), k); MC_CHECK(!!ok == all, "match_all reports %d", ok); zpl_array_free(out); free(b); finish(&re, pb);
}
static void s_long(void) { /* lengths around the limits of the program's length bytes */
    static const int L[] = { 1, 2, 100, 126, 127, 128, 129, 130, 200, 250, 251, 252, 253, 254, 255, 256, 257, 300, 510, 520, 1000 }; int n = L[mc_choose(21)], shape = mc_choose(8), tail = mc_choose(3); char *p = malloc(3 * n + 64), *t = malloc(n + 8), *q = p; char *lit = malloc(n + 1); for (int i = 0; i < n; i++) lit[i] = (char)('a' + i % 23); lit[n] = 0;
    switch (shape) { case 0: q += sprintf(q, "%s", lit); break; case 1: q += sprintf(q, "%s*x", lit); break; case 2: q += sprintf(q, "%s|yz", lit); break; case 3: q += sprintf(q, "yz|(%s)", lit); break; case 4: q += sprintf(q, "(yz|%s|w)", lit); break; case 5: q += sprintf(q, "[%s]+", lit); break; case 6: for (int i = 0; i < n; i++) q += sprintf(q, "()"); break; default: for (int i = 0; i < n; i++) q += sprintf(q, "."); }
    int tn = sprintf(t, "%.*s%s", tail == 1 ? n - 1 : n, lit, tail == 2 ? "x" : ""); memset(&N, 0, sizeof(nd)); nn = caps = 0; zpl_re re; memset(&re, 0, sizeof re); char *pb = blk(p, (int)(q - p)); zpl_regex_error e = zpl_re_compile(&re, zpl_heap(), pb, q - p); mc_trans(1);
    mc_log("shape %d of length %d, text variant %d: %d\n", shape, n, tail, e); int must = shape == 0 || shape == 1 || shape == 7 || n <= 200; MC_CHECK(!must || !e, "a pattern of length %d (shape %d) is refused with %d", n, shape, e); MC_CHECK(!e || e == ZPL_RE_ERROR_TOO_LONG, "a long pattern is refused with error %d", e);
    if (!e && (int)(q - p) < 3000) { nd *g = ref_compile(p, (int)(q - p)); try_text(&re, g, p, (int)(q - p), t, tn, 2); try_text(&re, g, p, (int)(q - p), "yz", 2, 2); try_text(&re, g, p, (int)(q - p), "w", 1, 2); zpl_re_destroy(&re); } free(pb); free(p); free(t); free(lit);
}
static void s_oom(void) { static const char *Q[] = { "a", "(a|b)*?", "[ab]+", "(a(b|c)[de])" }; char p[256]; int rep = 1 + mc_choose(12); *p = 0; const char *x = Q[mc_choose(4)]; for (int i = 0; i < rep * 3; i++) if (strlen(p) < 200) strcat(p, "[a]."); strcat(p, x); int at = mc_choose(4); zpl_re re; memset(&re, 0, sizeof re); long b = mc_malloc_n; mc_malloc_fail_at = b + at; zpl_regex_error e = zpl_re_compile(&re, zpl_heap(), p, (zpl_isize)strlen(p)); int hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; mc_trans(1); MC_CHECK(!hit || e, "compiling succeeds although memory was short"); if (!e) zpl_re_destroy(&re); }
/* long texts, where what matches is known from how the text is built: n letters a, then a tail */
static void s_texts(void) {
    static const struct { const char *p, *tail; int end, g0s, g0e, quad; } Q[] = { /* end and group ends relative to n; -1: from 0 */
        { "a*b", "b", 1, 0, 0, 0 }, { "(a*)b", "b", 1, -1, 0, 0 }, { "(a+)(b+)", "bb", 2, -1, 0, 0 }, { "x(y)", "xy", 2, 1, 2, 0 }, { "^(a*)$", "", 0, -1, 0, 0 }, { "(.*)", "zz", 2, -1, 2, 0 }, { "(.*?)z", "zz", 1, -1, 0, 0 }, { "([ab]+)c", "bbc", 3, -1, 2, 0 },
        { "([^z]+)", "z", 0, -1, 0, 0 }, { "b$", "b", 1, 0, 0, 0 }, { "(\\d)", "7", 1, 0, 1, 0 }, { "(b|c)d", "bcd", 3, 1, 2, 0 }, { "(a+?)b", "b", 1, -1, 0, 0 }, { "\\l*\\u", "Q", 1, 0, 0, 0 }, { "a+c", "b", -9, 0, 0, 1 }, { "^b", "b", -9, 0, 0, 0 }, { "a?(b)", "b", 1, 0, 1, 0 }, { "ab(c|d)|(e)", "abd", 3, 2, 3, 0 } };
    static const int D[] = { 64, 127, 128, 129, 254, 255, 256, 257, 511, 513, 1024, 4095, 4097, 32767, 32769, 65535, 65536, 65537, 70000, 200000, 1000000 }; int q = mc_choose(18), n = D[mc_choose(21)]; if (Q[q].quad && n > 4097) mc_prune(); mc_claim(); mc_trans(1); mc_state(mc_hash_u((uint64_t)n, (uint64_t)q)); int m = n + (int)strlen(Q[q].tail); char *t = malloc((size_t)m); memset(t, 'a', (size_t)n); memcpy(t + n, Q[q].tail, (size_t)(m - n));
    zpl_re re; memset(&re, 0, sizeof re); MC_CHECK(!zpl_re_compile(&re, zpl_heap(), Q[q].p, (zpl_isize)strlen(Q[q].p)), "/%s/ is refused", Q[q].p);
    for (int mcap = 0; mcap < 3; mcap++) { zpl_re_capture c[3] = { { (char *)8, 5 }, { (char *)8, 5 }, { (char *)8, 5 } }; zpl_isize off = -7; zpl_b32 ok = zpl_re_match(&re, t, m, mcap ? c : NULL, mcap, &off); MC_CHECK(!!ok == (Q[q].end != -9), "/%s/ %s after %d letters", Q[q].p, ok ? "matches" : "does not match", n); if (!ok) continue;
        MC_CHECK(off == n + Q[q].end, "/%s/ after %d letters: the match ends at %ld, expected %d", Q[q].p, n, (long)off, n + Q[q].end); if (mcap && Q[q].g0e != Q[q].g0s) { int s = Q[q].g0s < 0 ? 0 : n + Q[q].g0s, e = n + Q[q].g0e; MC_CHECK(c[0].str == t + s && c[0].len == e - s, "/%s/ after %d letters: the group is %ld+%ld, expected %d+%d", Q[q].p, n, (long)(c[0].str - t), (long)c[0].len, s, e - s); } }
    zpl_re_destroy(&re); free(t);
}
/* many successive matches, and many groups that are asked for */
static void s_many(void) {
    static const int D[] = { 1, 8, 127, 128, 255, 256, 257, 1000, 4096, 32768, 65536, 70000, 200000 }; int n = D[mc_choose(13)], k = mc_choose(4); mc_claim(); mc_trans(1); mc_state((uint64_t)(n * 4 + k));
    if (k < 3) { static const char *P[] = { "(a)b", "(a)|b", "(ab)" }; char *t = malloc((size_t)n * 2); for (int i = 0; i < n; i++) { t[2 * i] = 'a'; t[2 * i + 1] = 'b'; } zpl_re re; memset(&re, 0, sizeof re); MC_CHECK(!zpl_re_compile(&re, zpl_heap(), P[k], (zpl_isize)strlen(P[k])), "refused"); zpl_re_capture *out; zpl_array_init(out, zpl_heap()); MC_CHECK(zpl_re_match_all(&re, t, 2L * n, 1, &out), "%d matches: match_all fails", n);
        MC_CHECK(zpl_array_count(out) == (k == 1 ? 2 * n : n), "%d captures, expected %d", (int)zpl_array_count(out), k == 1 ? 2 * n : n); for (int i = 0; i < (int)zpl_array_count(out); i++) if (k != 1) MC_CHECK(out[i].str == t + 2 * i && out[i].len == 1 + (k == 2), "capture %d of %d is %ld+%ld", i, n, (long)(out[i].str - t), (long)out[i].len); else if (i % 2) MC_CHECK(out[i].len == 0, "capture %d is not empty", i); else MC_CHECK(out[i].str == t + i && out[i].len == 1, "capture %d", i); zpl_array_free(out); zpl_re_destroy(&re); free(t); }
    else { if (n > 300) mc_prune(); char *p = malloc((size_t)n * 3), *t = malloc((size_t)n); for (int i = 0; i < n; i++) { p[3 * i] = '('; p[3 * i + 1] = t[i] = (char)('a' + i % 26); p[3 * i + 2] = ')'; } zpl_re re; memset(&re, 0, sizeof re); zpl_regex_error e = zpl_re_compile(&re, zpl_heap(), p, n * 3); MC_CHECK(!e || (n > 255 && e == ZPL_RE_ERROR_TOO_LONG), "%d groups are refused with %d", n, e);
        if (!e) { MC_CHECK(zpl_re_capture_count(&re) == n, "%d groups counted as %d", n, (int)zpl_re_capture_count(&re)); zpl_re_capture *c = calloc((size_t)n + 2, sizeof *c); for (int m = n - 1; m <= n + 1; m++) { for (int i = 0; i < n + 2; i++) c[i].len = -5; MC_CHECK(zpl_re_match(&re, t, n, c, m, NULL), "no match"); for (int i = 0; i < n + 2; i++) if (i < n && i < m) MC_CHECK(c[i].str == t + i && c[i].len == 1, "group %d of %d", i, n); else if (i >= m) MC_CHECK(c[i].len == -5, "a group behind the array was written"); } free(c); zpl_re_destroy(&re); }
        free(p); free(t); }
}
/* the kind of the mistake, wherever it is made */
static void s_kinds(void) {
    static const struct { const char *t; int e; } K[] = { { "(a", ZPL_RE_ERROR_MISMATCHED_CAPTURES }, { "(", ZPL_RE_ERROR_MISMATCHED_CAPTURES }, { "a)", ZPL_RE_ERROR_MISMATCHED_CAPTURES }, { "((a)", ZPL_RE_ERROR_MISMATCHED_CAPTURES }, { "[a", ZPL_RE_ERROR_MISMATCHED_BLOCKS }, { "[^a-c", ZPL_RE_ERROR_MISMATCHED_BLOCKS }, { "(*a)", ZPL_RE_ERROR_INVALID_QUANTIFIER }, { "(+)", ZPL_RE_ERROR_INVALID_QUANTIFIER }, { "(?a)", ZPL_RE_ERROR_INVALID_QUANTIFIER }, { "a||b", ZPL_RE_ERROR_BRANCH_FAILURE }, { "(|a)", ZPL_RE_ERROR_BRANCH_FAILURE } };
    static const char *IN[] = { "b", "(b)", "[bc]", "b*", "^", "(b|c)" }; char t[200] = ""; int n = mc_choose(4), k = mc_choose(11); for (int i = 0; i < n; i++) strcat(t, IN[mc_choose(6)]); int w = k == 2 ? 0 : mc_choose(3); for (int i = 0; i < w; i++) strcat(t, "("); strcat(t, K[k].t); for (int i = 0; i < w; i++) strcat(t, ")");
    char *p = blk(t, (int)strlen(t)); zpl_re re; memset(&re, 0, sizeof re); zpl_regex_error e = zpl_re_compile(&re, zpl_heap(), p, (zpl_isize)strlen(t)); mc_trans(1); mc_log("/%s/\n", t); MC_CHECK((int)e == K[k].e, "/%s/ is refused with error %d, expected %d", t, (int)e, K[k].e); free(p); mc_state(mc_hash(3, t, strlen(t)));
}
mc_suite mc_suites[] = { { "kinds", s_kinds }, { "texts", s_texts }, { "many", s_many }, { "patterns", s_patterns }, { "core", s_core }, { "quantifiers", s_quant }, { "groups", s_groups }, { "escapes", s_escapes }, { "hex", s_hex }, { "sets", s_sets }, { "bytes", s_bytes }, { "captures", s_captures }, { "match_all", s_all }, { "long", s_long }, { "oom", s_oom }, { 0 } };
