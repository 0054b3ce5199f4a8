/* O01: command-line options: every short argument vector for several declared option sets, against a reference */
#include "z.h"
#include <fcntl.h>
enum { STR = ZPL_OPTS_STRING, FLT = ZPL_OPTS_FLOAT, FLAG = ZPL_OPTS_FLAG, INT = ZPL_OPTS_INT };
typedef struct { const char *s, *l; int type, pos; /* 1-based order among positionals */ } decl;
static const decl A[] = { { "v", "verbose", FLAG }, { "s", "str", STR }, { "n", "num", INT }, { "r", "real", FLT }, { 0 } };
static const decl B[] = { { "v", "verbose", FLAG }, { "s", "str", STR, 1 }, { "n", "num", INT, 2 }, { "r", "real", FLT }, { 0 } };
static const decl C[] = { { "n", "num", INT, 2 }, { "r", "real", FLT, 3 }, { NULL, "str", STR, 1 }, { "v", NULL, FLAG }, { "x", NULL, STR }, { "verbose", "v", FLAG }, { 0 } };
static const decl D[] = { { "s", "s", STR, 1 }, { "a1", "str", STR }, { "a2", "o1", FLAG }, { "a3", "o2", INT }, { "a4", "o3", INT }, { "a5", "o4", STR }, { "a6", "o5", STR }, { "a7", "num", INT }, { "a8", "o7", STR }, { "v", "verbose", FLAG }, { "a10", "o9", STR }, { "a11", "o10", STR }, { "a12", "o11", STR }, { "a13", "o12", STR }, { "r", "real", FLT }, { "b1", "p1", STR }, { "b2", "p2", STR }, { "b3", "p3", STR }, { "b4", "p4", STR }, { "b5", "p5", STR }, { 0 } };
static const decl *const SET[] = { A, B, C, D };
static struct { int met, any; const char *val; } R[32];      /* any: not judged */
static int pend[8], npend, nerr, empty_num; static struct { int type, n; const char *at; } ER[512];    /* what is wrong, and with which text */
static void wrong(int type, const char *at, int n) { if (nerr < 512) { ER[nerr].type = type; ER[nerr].at = at; ER[nerr].n = n; } nerr++; }
static const decl *ds; static int nd;
static int alnum_(char c) { return (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z') || c == '-' || c == '_'; }
static int find(const char *b, int n, int lng) { for (int i = 0; i < nd; i++) { const char *x = lng ? ds[i].l : ds[i].s; if (x && (int)strlen(x) == n && !strncmp(x, b, n)) return i; } return -1; }
static void set(int i, const char *v) { R[i].met = 1; R[i].val = v; for (int k = 0; k < npend; k++) if (pend[k] == i) { memmove(pend + k, pend + k + 1, sizeof(int) * (npend - k - 1)); npend--; break; } }
static void ref(int argc, const char **argv) {
    memset(R, 0, sizeof R); npend = nerr = empty_num = 0; for (int k = 1; k <= nd; k++) for (int i = 0; i < nd; i++) if (ds[i].pos == k) pend[npend++] = i;
    for (int i = 1; i < argc; i++) {
        const char *p = argv[i]; if (!*p) continue;
        if (*p != '-') { if (npend) set(pend[0], p); else wrong(ZPL_OPTS_ERR_VALUE, p, (int)strlen(p)); continue; }
        int lng = p[1] == '-'; const char *b = p + 1 + lng, *e = b; while (alnum_(*e)) e++; int t = find(b, (int)(e - b), lng);
        if (t < 0) { wrong(ZPL_OPTS_ERR_OPTION, b, (int)(e - b)); continue; }
        if (ds[t].type == FLAG) { if (*e) { wrong(ZPL_OPTS_ERR_EXTRA_VALUE, b, (int)(e - b)); R[t].any = 1; continue; } if (i + 1 < argc && argv[i + 1][0] != '-' && npend < 1) { wrong(ZPL_OPTS_ERR_EXTRA_VALUE, b, (int)(e - b)); R[t].any = 1; continue; } R[t].met = 1; continue; }
        if (*e == '=') { set(t, e + 1); continue; }
        if (!*e) { if (i + 1 < argc && argv[i + 1][0] != '-') set(t, argv[++i]); else wrong(ZPL_OPTS_ERR_MISSING_VALUE, b, (int)(e - b)); continue; }
        set(t, e); R[t].any = 1;
    }
}
static const char *TOK[] = { "-v", "--verbose", "-s", "--str", "--str=x", "-s=y z", "-n", "--num=12", "--num=-5", "-r", "--real=2.5", "w", "7", "-", "--", "--nope", "-z=1", "-v=1", "--verbose=", "-5", "", "--str=", "-v@", "--ver", "--verbosee", "0x1f" };
#define NT 26
static void make(zpl_opts *o, int late) {
    zpl_opts_init(o, zpl_heap(), "app"); int done[8] = { 0 }, next = 1;
    for (int i = 0; i < nd; i++) { zpl_opts_add(o, ds[i].s, ds[i].l, "help text", (zpl_u8)ds[i].type); if (!late && ds[i].pos == next) { zpl_opts_positional_add(o, ds[i].l); done[next++] = 1; } }
    for (int k = 1; k < 8; k++) if (!done[k]) for (int i = 0; i < nd; i++) if (ds[i].pos == k) zpl_opts_positional_add(o, ds[i].l);
}
static void judge(zpl_opts *o, zpl_b32 ok) {
    MC_CHECK(!!ok == (nerr == 0), "compiling reports %s, but %d argument(s) are in error", ok ? "success" : "failure", nerr);
    MC_CHECK(ok ? zpl_array_count(o->errors) == 0 : zpl_array_count(o->errors) > 0, "%d errors are listed", (int)zpl_array_count(o->errors));
    MC_CHECK(zpl_array_count(o->errors) == nerr, "%d errors are listed, expected %d", (int)zpl_array_count(o->errors), nerr);
    for (int i = 0; i < nerr && i < 512; i++) { MC_CHECK(o->errors[i].type == ER[i].type, "error %d is of type %d, expected %d", i, o->errors[i].type, ER[i].type); MC_CHECK(o->errors[i].val && !strncmp(o->errors[i].val, ER[i].at, (size_t)ER[i].n), "error %d is about \"%s\", expected \"%.*s\"", i, o->errors[i].val, ER[i].n, ER[i].at); }
    static const char *UN[] = { "neverdeclared", "", "v", "verbos", "verbosee" };
    for (int k = 0; k < 5; k++) { int known = 0; for (int i = 0; i < nd; i++) if (ds[i].l && !strcmp(ds[i].l, UN[k])) known = 1; if (!known) MC_CHECK(!zpl_opts_has_arg(o, UN[k]) && zpl_opts_integer(o, UN[k], -7) == -7 && zpl_opts_real(o, UN[k], -7.5) == -7.5, "an option --%s that was never declared is reported", UN[k]); }
    for (int i = 0; i < nd; i++) {
        const char *l = ds[i].l; if (R[i].any) continue; uint64_t h = i;
        if (!l) { int f = 0; for (int k = 0; k < zpl_array_count(o->entries); k++) if (o->entries[k].name && !strcmp(o->entries[k].name, ds[i].s)) { f = 1; MC_CHECK(!!o->entries[k].met == R[i].met, "option -%s is %sreported as given", ds[i].s, R[i].met ? "not " : ""); if (R[i].met && ds[i].type == STR) MC_CHECK(!strcmp(o->entries[k].text, R[i].val), "option -%s has another value", ds[i].s); } MC_CHECK(f, "option -%s is gone", ds[i].s); continue; }
        MC_CHECK(!!zpl_opts_has_arg(o, l) == R[i].met, "option --%s is %sreported as given", l, R[i].met ? "not " : "");
        switch (ds[i].type) {
        case STR: { static const char *fb = "fallback"; zpl_string s = zpl_opts_string(o, l, fb); if (R[i].met) { MC_CHECK(s && !strcmp(s, R[i].val), "option --%s is \"%s\", expected \"%s\"", l, s, R[i].val); MC_CHECK(zpl_string_length(s) == (zpl_isize)strlen(R[i].val), "option --%s has a wrong length", l); } else MC_CHECK(s == fb, "option --%s does not give the fallback", l); break; }
        case INT: { long long g = zpl_opts_integer(o, l, -99), w = R[i].met ? R[i].val[0] == 32 ? g : strtoll(R[i].val, NULL, 10) : -99; MC_CHECK(g == w, "option --%s is %lld, expected %lld", l, g, w); h += g; break; }
        case FLT: { double g = zpl_opts_real(o, l, -99.5), w = -99.5; if (R[i].met) { const char *v = R[i].val; w = v[0] == '0' && v[1] == 'x' ? g : strtod(v, NULL); } MC_CHECK(g == w, "option --%s is %g, expected %g", l, g, w); break; }
        }
        if (mc_me) mc_trans(1); (void)h;
    }
    MC_CHECK(!!zpl_opts_positionals_filled(o) == (npend == 0), "positionals are reported as %s, %d are missing", zpl_opts_positionals_filled(o) ? "filled" : "not filled", npend);
}
static char **args(int argc, const char **argv) { char **a = malloc(sizeof(char *) * argc); for (int i = 0; i < argc; i++) { size_t n = strlen(argv[i]); a[i] = malloc(n + 1); memcpy(a[i], argv[i], n + 1); } return a; }
static void unargs(int argc, char **a) { for (int i = 0; i < argc; i++) free(a[i]); free(a); }
static void run(int set, int late, int argc, const char **argv) {
    ds = SET[set]; for (nd = 0; ds[nd].s || ds[nd].l; nd++) ; ref(argc, argv); for (int i = 1; i < argc; i++) mc_log(" '%s'", argv[i]); mc_log(" (option set %d)\n", set);
    zpl_opts o; make(&o, late); char **a = args(argc, argv); zpl_b32 ok = zpl_opts_compile(&o, argc, a); uint64_t h = set; for (int i = 0; i < nd; i++) h = mc_hash_u(h, R[i].met * 4 + R[i].any); mc_state(mc_hash_u(h, nerr * 8 + npend));
    judge(&o, ok); zpl_opts_free(&o); unargs(argc, a);
}
static void s_vectors(void) { const char *v[8] = { "app" }; int set = mc_choose(4), late = set == 3 ? mc_choose(2) : 0, n = mc_choose(mc_thorough ? 5 : 4); for (int i = 0; i < n; i++) v[1 + i] = TOK[mc_choose(NT)]; run(set, late, n + 1, v); }
static void s_deep(void) { static const char *T[] = { "-v", "--str", "--num=3", "x", "8", "-s=q", "--real", "-x" }; const char *v[10] = { "app" }; int set = mc_choose(4), n = mc_choose(mc_thorough ? 8 : 7); for (int i = 0; i < n; i++) v[1 + i] = T[mc_choose(8)]; run(set, 0, n + 1, v); }
static void s_letters(void) { /* one argument out of all short texts */ static const char L[] = "-=vsn1 @e"; char t[12]; int n = 1 + mc_choose(mc_thorough ? 6 : 5), set = mc_choose(3); for (int i = 0; i < n; i++) t[i] = L[mc_choose(9)]; t[n] = 0; if (t[0] == ' ') mc_prune(); const char *v[3] = { "app", t, "x" }; run(set, 0, 2 + mc_choose(2), v); }
/* two compiles on the same options */
static void s_twice(void) { ds = SET[mc_choose(3)]; for (nd = 0; ds[nd].s || ds[nd].l; nd++) ; const char *v[6] = { "app" }; int n = 1 + mc_choose(2), m = 1 + mc_choose(2); static const char *T[] = { "--str=a", "--num=4", "-v", "--real=1.5", "k", "--str=b" }; for (int i = 0; i < n + m; i++) v[1 + i] = T[mc_choose(6)]; zpl_opts o; make(&o, 0); char **a = args(n + m + 1, v); char *one[4]; one[0] = a[0];
    int flagbad = 0; for (int i = 1; i <= n + m; i++) if (!strcmp(v[i], "-v")) flagbad = 1; if (flagbad) { /* a flag looks at the next argument of its own vector only */ }
    memcpy(one + 1, a + 1, sizeof(char *) * n); zpl_opts_compile(&o, n + 1, one); memcpy(one + 1, a + 1 + n, sizeof(char *) * m); zpl_opts_compile(&o, m + 1, one); if (!flagbad) { ref(n + m + 1, v); judge(&o, nerr == 0); } zpl_opts_free(&o); unargs(n + m + 1, a); mc_trans(1); }
/* the help and error screens */
static void s_screens(void) {
    static char buf[8192]; ds = SET[mc_choose(4)]; for (nd = 0; ds[nd].s || ds[nd].l; nd++) ; const char *v[3] = { "app", TOK[mc_choose(NT)], TOK[mc_choose(NT)] }; zpl_opts o; make(&o, 0); char **a = args(3, v);
    char f[300]; sprintf(f, "%s/out%d", mc_scratch, mc_shard_id); int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600), keep = dup(1); MC_CHECK(fd >= 0 && keep >= 0, "harness: scratch"); fflush(stdout); dup2(fd, 1);
    zpl_opts_print_help(&o); zpl_opts_compile(&o, 3, a); int ne = (int)zpl_array_count(o.errors); off_t at = lseek(fd, 0, SEEK_END); zpl_opts_print_errors(&o); dup2(keep, 1); close(keep);
    ssize_t n = pread(fd, buf, sizeof buf - 1, 0); buf[n < 0 ? 0 : n] = 0; close(fd); unlink(f); mc_log("%s", buf); mc_trans(2);
    char *nl = strchr(buf, '\n'); MC_CHECK(!strncmp(buf, "USAGE: app", 10) && nl, "the help screen is \"%s\"", buf);
    for (int i = 0; i < nd; i++) { char w[64]; const char *hit; if (ds[i].l) { sprintf(w, " [%s]", ds[i].l); hit = strstr(buf, w); MC_CHECK((hit && hit < nl) == !!ds[i].pos, "positional %s is %s in the usage line", ds[i].l, ds[i].pos ? "missing" : "listed"); }
        if (ds[i].s && ds[i].l) sprintf(w, "\t-%s, --%s: help text\n", ds[i].s, ds[i].l); else sprintf(w, "\t%s%s: help text\n", ds[i].s ? "-" : "--", ds[i].s ? ds[i].s : ds[i].l); MC_CHECK(strstr(buf, w), "the help screen does not list \"%s\"", w + 1); }
    int brackets = 0, npos = 0, lines = 0; for (char *p = buf; p < nl; p++) brackets += *p == '['; for (int i = 0; i < nd; i++) npos += !!ds[i].pos; MC_CHECK(brackets == npos, "the usage line lists %d positionals, expected %d", brackets, npos);
    for (char *p = buf + at; (p = strstr(p, "ERROR: ")); p++) lines++; MC_CHECK(lines == ne, "%d errors are printed, expected %d", lines, ne); zpl_opts_free(&o); unargs(3, a);
}
/* hundreds of options, thousands of arguments, values of thousands of characters */
static char *dup_(const char *x) { size_t n = strlen(x); char *y = malloc(n + 1); memcpy(y, x, n + 1); return y; }
static void s_populous(void) {
    static const int D[] = { 33, 64, 255, 256, 257, 600 }; int n = D[mc_choose(6)], npos = (int[]){ 0, 1, 40 }[mc_choose(3)], rev = mc_choose(2), len = (int[]){ 1, 255, 4096, 70000 }[mc_choose(4)]; mc_claim(); if (npos > n) npos = n; char (*S)[24] = malloc(24 * (size_t)n), (*L)[24] = malloc(24 * (size_t)n); zpl_opts o; zpl_opts_init(&o, zpl_heap(), "app"); mc_trans(1);
    for (int i = 0; i < n; i++) { sprintf(S[i], "s%d", i); sprintf(L[i], "long-name-%d", i); zpl_opts_add(&o, S[i], L[i], "h", (zpl_u8)(i % 4 == 0 ? STR : i % 4 == 1 ? INT : i % 4 == 2 ? FLT : FLAG)); }
    int posn[64], np_ = 0; for (int i = 0; i < n && np_ < npos; i += 4) { posn[np_++] = i; zpl_opts_positional_add(&o, L[i]); }
    char *big = malloc((size_t)len + 1); for (int i = 0; i < len; i++) big[i] = (char)('a' + (i * 7 + i / 26) % 26); big[len] = 0; int argc = 1; char **a = malloc(sizeof(char *) * (size_t)(n * 2 + 80)); a[0] = dup_("app"); char *t = malloc((size_t)len + 64);
    for (int k = 0; k < n; k++) { int i = rev ? n - 1 - k : k; if (i % 4 == 0) { int p = 0; for (int j = 0; j < np_; j++) p |= posn[j] == i; if (p) continue; if (i % 8) sprintf(t, "--%s=%s%d", L[i], big, i); else { sprintf(t, "-%s", S[i]); a[argc++] = dup_(t); sprintf(t, "%s%d", big, i); } } else if (i % 4 == 1) sprintf(t, "-%s=%d", S[i], i * 1000); else if (i % 4 == 2) sprintf(t, "--%s=%d.5", L[i], i); else if (i % 3) continue; else sprintf(t, "-%s", S[i]); if (i % 4 == 3 && np_) continue; a[argc++] = dup_(t); }
    for (int j = 0; j < np_; j++) { sprintf(t, "p%d", j); a[argc++] = dup_(t); }
    zpl_b32 ok = zpl_opts_compile(&o, argc, a); MC_CHECK(ok && zpl_array_count(o.errors) == 0, "a line of %d arguments for %d options is refused (%d errors)", argc - 1, n, (int)zpl_array_count(o.errors)); MC_CHECK(zpl_opts_positionals_filled(&o), "the positionals are reported as missing");
    for (int i = 0; i < n; i++) { int p = -1; for (int j = 0; j < np_; j++) if (posn[j] == i) p = j; int given = i % 4 != 3 || (i % 3 == 0 && !np_); MC_CHECK(!!zpl_opts_has_arg(&o, L[i]) == given, "option %d of %d is %sreported as given", i, n, given ? "not " : "");
        if (i % 4 == 0) { zpl_string v = zpl_opts_string(&o, L[i], "none"); if (p >= 0) sprintf(t, "p%d", p); else sprintf(t, "%s%d", big, i); MC_CHECK(v && !strcmp(v, t), "option %d of %d has another value", i, n); } else if (i % 4 == 1) MC_CHECK(zpl_opts_integer(&o, L[i], -1) == i * 1000, "option %d of %d is %ld", i, n, (long)zpl_opts_integer(&o, L[i], -1)); else if (i % 4 == 2) MC_CHECK(zpl_opts_real(&o, L[i], -1) == i + 0.5, "option %d of %d is %g", i, n, (double)zpl_opts_real(&o, L[i], -1)); }
    zpl_opts_free(&o); for (int i = 0; i < argc; i++) free(a[i]); free(a); free(t); free(big); free(S); free(L); mc_state(mc_hash_u((uint64_t)(n * 64 + npos), (uint64_t)(len * 2 + rev)));
}
mc_suite mc_suites[] = { { "populous", s_populous }, { "vectors", s_vectors }, { "deep", s_deep }, { "letters", s_letters }, { "twice", s_twice }, { "screens", s_screens }, { 0 } };
