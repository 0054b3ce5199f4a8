/* F04: path helpers on every short path; file-system helpers from every small tree, against an independent model */
#include "z.h"
#include <dirent.h>
#include <limits.h>
#include <sys/socket.h>
#include <sys/un.h>
static char W[400];                                    /* working directory of the execution */
static int fd0;
static void wipeat(int at, const char *p) { int f = openat(at, p, O_RDONLY | O_DIRECTORY | O_NOFOLLOW); if (f < 0) return; DIR *d = fdopendir(f); if (!d) { close(f); return; } struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; struct stat s; if (fstatat(f, e->d_name, &s, AT_SYMLINK_NOFOLLOW)) continue; if (S_ISDIR(s.st_mode)) { wipeat(f, e->d_name); unlinkat(f, e->d_name, AT_REMOVEDIR); } else unlinkat(f, e->d_name, 0); } closedir(d); }
static void wipe(const char *p) { wipeat(AT_FDCWD, p); }
/* memory from the C library is counted like any other */
char *__real_realpath(const char *, char *); char *__wrap_realpath(const char *p, char *b) { static char t[PATH_MAX]; if (b) return __real_realpath(p, b); if (!__real_realpath(p, t)) return NULL; char *r = malloc(strlen(t) + 1); return r ? strcpy(r, t) : NULL; }
static char *dup_(const char *s) { char *r = malloc(strlen(s) + 1); return strcpy(r, s); }
static int fds(void) { int n = 0; for (int i = 0; i < 32; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static void begin(void) { close_range(3, 63, 0); if (chdir(mc_scratch)) mc_fail("harness: chdir"); sprintf(W, "%s/w%d", mc_scratch, (int)getpid()); wipe(W); rmdir(W); if (mkdir(W, 0755) || chdir(W)) mc_fail("harness: mkdir"); fd0 = fds(); }
static void end(void) { MC_CHECK(fds() == fd0, "%d descriptors open, %d before", fds(), fd0); if (chdir(mc_scratch)) mc_fail("harness: chdir"); wipe(W); rmdir(W); }
static void put(const char *p, const char *d, int n) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0 || write(fd, d, n) != n) mc_fail("harness: put %s", p); close(fd); }
/* ---- an allocator that counts ---- */
static int cl, cn, cfail = -1;
static ZPL_ALLOCATOR_PROC(cproc) { (void)allocator_data; (void)flags; if (type == ZPL_ALLOCATION_ALLOC || type == ZPL_ALLOCATION_RESIZE) { if (cn++ == cfail) return NULL; if (type == ZPL_ALLOCATION_ALLOC) { cl++; return malloc(size ? size : 1); } if (!old_memory) cl++; (void)old_size; (void)alignment; return realloc(old_memory, size ? size : 1); } if (type == ZPL_ALLOCATION_FREE && old_memory) { cl--; free(old_memory); } return NULL; }
static zpl_allocator ca(void) { cl = cn = 0; cfail = -1; zpl_allocator a = { cproc, NULL }; return a; }
/* ---- path helpers: every path over the alphabet ---- */
static void s_split(void) {
    static const char A[] = "/.ax"; int L = (int)mc_choose(mc_thorough ? 10 : 8), al = L > 6 ? 3 : 4; char p[16]; for (int i = 0; i < L; i++) p[i] = A[mc_choose(al)]; p[L] = 0; mc_trans(5); mc_log("\"%s\"\n", p);
    char *x = malloc(L + 1); memcpy(x, p, L + 1);
    int ls = -1, ld = -1; for (int i = 0; i < L; i++) { if (p[i] == '/') { ls = i; ld = -1; } if (p[i] == '.') ld = i; }
    MC_CHECK(!!zpl_path_is_absolute(x) == (p[0] == '/'), "is_absolute"); MC_CHECK(!!zpl_path_is_relative(x) == (p[0] != '/'), "is_relative"); MC_CHECK(!!zpl_path_is_root(x) == !strcmp(p, "/"), "is_root");
    const char *b = zpl_path_base_name(x); MC_CHECK(b == x + ls + 1, "the base name of \"%s\" is \"%s\"", p, b ? b : "(null)");
    const char *e = zpl_path_extension(x); MC_CHECK(ld < 0 ? !e : e == x + ld + 1, "the extension of \"%s\" is \"%s\"", p, e ? e : "(null)");
    zpl_path_fix_slashes(x); MC_CHECK(!memcmp(x, p, L + 1), "fixing slashes changed \"%s\" to \"%s\"", p, x); free(x);
}
static void s_full(void) {
    begin(); static const char A[] = "/.ad"; int L = (int)mc_choose(mc_thorough ? 9 : 7); char p[16]; for (int i = 0; i < L; i++) p[i] = A[mc_choose(4)]; p[L] = 0; mkdir("d", 0755); put("d/a", "x", 1); if (symlink("d/a", "a")) mc_fail("harness");
    int oom = L < 4 && mc_choose(2); zpl_allocator a = ca(); if (oom) cfail = 0; mc_trans(1); mc_log("\"%s\"\n", p);
    char want[PATH_MAX]; char *r = realpath(p, want); const char *w = r ? want : p;
    char *g = zpl_path_get_full_name(a, p); if (oom) MC_CHECK(!g, "a full name although memory ran out"); else { MC_CHECK(g && cl == 1, "no full name from the given allocator"); MC_CHECK(!strcmp(g, w), "the full name of \"%s\" is \"%s\", expected \"%s\"", p, g, w); zpl_free(a, g); }
    MC_CHECK(cl == 0, "%d allocations left", cl); end();
}
/* ---- trees ---- */
#define NP 6
static const char *P[NP] = { "a", "b", "d", "d/a", "d/e", "d/e/a" }; static const int PAR[NP] = { -1, -1, -1, 2, 2, 4 };
enum { NONE, FIL, DIRE }; typedef struct { int t[NP]; int c[NP]; } tree; static tree M;
static const char *C[4] = { "", "one", "two two", "333" };
static int up(const tree *m, int i) { return PAR[i] < 0 || m->t[PAR[i]] == DIRE; }       /* its directory is there */
static int empty(const tree *m, int i) { for (int j = 0; j < NP; j++) if (PAR[j] == i && m->t[j]) return 0; return 1; }
static void build(void) { memset(&M, 0, sizeof M); for (int i = 0; i < NP; i++) if (up(&M, i)) { M.t[i] = (int)mc_choose(3); if (M.t[i] == DIRE) { if (mkdir(P[i], 0755)) mc_fail("harness: mkdir %s", P[i]); } else if (M.t[i] == FIL) { M.c[i] = i == 1 ? 2 : i == 5 ? 3 : i == 4 ? 0 : 1; put(P[i], C[M.c[i]], (int)strlen(C[M.c[i]])); } } }
static int count_dir(const char *p) { DIR *d = opendir(p); if (!d) return -1; int n = 0; struct dirent *e; while ((e = readdir(d))) n++; closedir(d); return n - 2; }
static void look(const char *what) {                   /* the tree is exactly the model, and the queries say so */
    int kids[NP + 1] = { 0 }; for (int i = 0; i < NP; i++) {
        struct stat s; int r = lstat(P[i], &s), t = r ? NONE : S_ISDIR(s.st_mode) ? DIRE : FIL; MC_CHECK(t == M.t[i], "%s: %s is %s, expected %s", what, P[i], t == NONE ? "absent" : t == DIRE ? "a directory" : "a file", M.t[i] == NONE ? "absence" : M.t[i] == DIRE ? "a directory" : "a file");
        if (t) kids[PAR[i] + 1]++;
        if (t == FIL) { char b[32]; int fd = open(P[i], O_RDONLY), n = (int)read(fd, b, 32); close(fd); MC_CHECK(n == (int)strlen(C[M.c[i]]) && !memcmp(b, C[M.c[i]], n), "%s: %s holds other bytes", what, P[i]); MC_CHECK(s.st_nlink == 1, "%s: %s has %d names", what, P[i], (int)s.st_nlink); }
        MC_CHECK(!!zpl_fs_exists(P[i]) == (t != NONE), "%s: exists(%s)", what, P[i]); MC_CHECK(zpl_fs_get_type(P[i]) == (t == NONE ? ZPL_DIR_TYPE_UNKNOWN : t == DIRE ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE), "%s: type(%s)", what, P[i]); mc_trans(2);
    }
    MC_CHECK(count_dir(".") == kids[0], "%s: something else was left behind", what); for (int i = 0; i < NP; i++) if (M.t[i] == DIRE) MC_CHECK(count_dir(P[i]) == kids[i + 1], "%s: something else was left behind in %s", what, P[i]);
}
static void spell(char *o, int i, int v) { if (v == 0) sprintf(o, "%s", P[i]); else if (v == 1) sprintf(o, "%s/%s", W, P[i]); else sprintf(o, "./%s", P[i]); }
static void op(int v) {
    int k = (int)mc_choose(8), p = (int)mc_choose(NP), q = 0; char a[700], b[700], w[300]; spell(a, p, v); mc_trans(1);
    if (k == 0) { q = (int)mc_choose(NP); int f = (int)mc_choose(2); spell(b, q, v); int ok = M.t[p] == FIL && up(&M, q) && M.t[q] != DIRE && p != q && !(f && M.t[q]); sprintf(w, "copy %s to %s%s", P[p], P[q], f ? " unless it exists" : ""); mc_log("%s\n", w); zpl_b32 r = zpl_fs_copy(a, b, f); MC_CHECK(p == q || !!r == ok, "%s %s", w, r ? "succeeds" : "fails"); if (ok) { M.t[q] = FIL; M.c[q] = M.c[p]; } }
    else if (k == 1) { q = (int)mc_choose(NP); spell(b, q, v); int ok = M.t[p] == FIL && up(&M, q) && M.t[q] == NONE; sprintf(w, "move %s to %s", P[p], P[q]); mc_log("%s\n", w); zpl_b32 r = zpl_fs_move(a, b);
        if (r && !ok && M.t[p] == FIL && M.t[q] == FIL) { ok = 1; } /* a move that replaces the file at the destination would be as good */
        if (r && M.t[p] == DIRE) MC_CHECK(0, "%s succeeds", w); MC_CHECK(!!r == ok, "%s %s", w, r ? "succeeds" : "fails"); if (ok && p != q) { M.t[q] = FIL; M.c[q] = M.c[p]; M.t[p] = NONE; } }
    else if (k == 2) { int ok = M.t[p] == FIL, may = M.t[p] == DIRE && empty(&M, p); sprintf(w, "remove %s", P[p]); mc_log("%s\n", w); zpl_b32 r = zpl_fs_remove(a); MC_CHECK(may || !!r == ok, "%s %s", w, r ? "succeeds" : "fails"); if (r) M.t[p] = NONE; }
    else if (k == 3) { int ok = M.t[p] == NONE && up(&M, p); sprintf(w, "mkdir %s", P[p]); mc_log("%s\n", w); zpl_file_error e = zpl_path_mkdir(a, 0755); MC_CHECK((e == 0) == ok, "%s returns %d", w, (int)e); if (M.t[p]) MC_CHECK(e == ZPL_FILE_ERROR_EXISTS, "%s returns %d although it exists", w, (int)e); if (ok) M.t[p] = DIRE; }
    else if (k == 4) { int ok = M.t[p] != FIL, x = p; while ((x = PAR[x]) >= 0) if (M.t[x] == FIL) ok = 0; int sl = (int)mc_choose(2); if (sl) strcat(a, "/"); sprintf(w, "mkdir -p %s%s", P[p], sl ? "/" : ""); mc_log("%s\n", w); zpl_isize e = zpl_path_mkdir_recursive(a, 0755); MC_CHECK((e == 0) == ok, "%s returns %d", w, (int)e); if (ok) for (x = p; x >= 0; x = PAR[x]) M.t[x] = DIRE; }
    else if (k == 5) { int ok = M.t[p] == DIRE && empty(&M, p); sprintf(w, "rmdir %s", P[p]); mc_log("%s\n", w); zpl_file_error e = zpl_path_rmdir(a); MC_CHECK((e == 0) == ok, "%s returns %d", w, (int)e); if (M.t[p] == NONE) { int file = 0; for (int x = p; (x = PAR[x]) >= 0;) if (M.t[x] == FIL) file = 1; if (!file) MC_CHECK(e == ZPL_FILE_ERROR_NOT_EXISTS, "%s returns %d although it is absent", w, (int)e); } else if (M.t[p] == DIRE && !ok) MC_CHECK(e == ZPL_FILE_ERROR_NOT_EMPTY, "%s returns %d although it is not empty", w, (int)e); if (ok) M.t[p] = NONE; }
    else if (k == 6) { int c = (int)mc_choose(3), ok = M.t[p] != DIRE && up(&M, p); sprintf(w, "store %s", P[p]); mc_log("%s\n", w); zpl_file_error e = (zpl_file_error)77; zpl_b32 r = zpl_file_write_contents(a, C[c], (zpl_isize)strlen(C[c]), &e); MC_CHECK(!!r == ok, "%s %s", w, r ? "succeeds" : "fails"); MC_CHECK((e == 0) == ok, "%s sets error %d", w, (int)e); if (ok) { M.t[p] = FIL; M.c[p] = c; } }
    else { int z = (int)mc_choose(2), ok = M.t[p] == FIL; sprintf(w, "load %s", P[p]); mc_log("%s\n", w); zpl_allocator A = ca(); zpl_file_contents c = zpl_file_read_contents(A, z, a); const char *t = ok ? C[M.c[p]] : ""; int n = (int)strlen(t); MC_CHECK(c.size == n, "%s gives %d bytes", w, (int)c.size); if (n) MC_CHECK(c.data && !memcmp(c.data, t, n), "%s gives other bytes", w); if (ok && z) MC_CHECK(c.data && ((char *)c.data)[n] == 0, "%s is not terminated", w); if (!ok) MC_CHECK(!c.data, "%s gives data", w); zpl_file_free_contents(&c); MC_CHECK(cl == 0, "%s leaks", w); }
    look(w);
}
static uint64_t mh(void) { return mc_hash(3, &M, sizeof M); }
static void s_ops(void) { begin(); int v = (int)mc_choose(3); build(); look("at first"); op(v); mc_state(mh()); if (mc_thorough && v == 0) op(v); end(); }
/* longer histories from a few trees */
static void s_hist(void) { begin(); memset(&M, 0, sizeof M); int s = (int)mc_choose(2); if (s) { put("a", C[1], 3); M.t[0] = FIL; M.c[0] = 1; mkdir("d", 0755); M.t[2] = DIRE; } for (int i = 0; i < (mc_thorough ? 3 : 2); i++) { op(0); mc_state(mh()); } end(); }
/* ---- listings ---- */
static int cmps(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static char *want[2048]; static int nw;
static void wadd(const char *s) { want[nw++] = dup_(s); }
static void walk(const char *p, int rec) { DIR *d = opendir(p); if (!d) return; struct dirent *e; while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char q[900]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); wadd(q); struct stat s; if (rec && !lstat(q, &s) && S_ISDIR(s.st_mode)) walk(q, rec); } closedir(d); }
static void wfree(void) { for (int i = 0; i < nw; i++) free(want[i]); nw = 0; }
static void sock(const char *p) { struct sockaddr_un u = { .sun_family = AF_UNIX }; strcpy(u.sun_path, p); int s = socket(AF_UNIX, SOCK_STREAM, 0); if (bind(s, (void *)&u, sizeof u)) mc_fail("harness: bind %s", p); close(s); }
static const char *NM[] = { "a", ".h", "..x", "...", "a b", " s", "t ", "x.y", "\xc3\xa9", "very-long-name-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789" };
static const int NN = sizeof NM / sizeof *NM;
/* a directory with chosen members: file, directory (with contents), link to a directory (a loop), dangling link, socket */
static void members(const char *at) {
    int n = 1 + (int)mc_choose(2); for (int i = 0; i < n; i++) { const char *nm = NM[mc_choose(NN)]; int t = (int)mc_choose(6); char q[700], r[800]; snprintf(q, sizeof q, "%s/%s", at, nm); struct stat s; if (!lstat(q, &s)) mc_prune();
        if (t == 0) put(q, "x", 1); else if (t == 1) { mkdir(q, 0755); } else if (t == 2) { mkdir(q, 0755); snprintf(r, sizeof r, "%s/.in", q); put(r, "", 0); snprintf(r, sizeof r, "%s/..y", q); mkdir(r, 0755); snprintf(r, sizeof r, "%s/..y/z", q); put(r, "", 0); } else if (t == 3) { if (symlink(".", q)) mc_fail("harness"); } else if (t == 4) { if (symlink("nowhere", q)) mc_fail("harness"); } else { mkfifo(q, 0644); } }
}
static void s_list(void) {
    begin(); mkdir("D", 0755); int v = (int)mc_choose(4), rec = (int)mc_choose(2), many = (int)mc_choose(2); if (v < 3) { if (!many) members("D"); else for (int i = 0; i < NN; i++) { char q[700]; snprintf(q, sizeof q, "D/%s", NM[i]); if (i & 1) { mkdir(q, 0755); strcat(q, "/q"); put(q, "", 0); } else put(q, "", 0); } } else if (many) put("nodir", "", 0);
    char nm[500]; sprintf(nm, v == 0 ? "D" : v == 1 ? "%s/D" : v == 2 ? "./D" : many ? "nodir" : "missing", W); mc_trans(1);
    zpl_allocator a = ca(); char *l = zpl_path_dirlist(a, nm, rec); MC_CHECK(l, "no listing"); nw = 0; walk(nm, rec); char *got[64]; int ng = 0; char *c = dup_(l), *p = c; while (*p) { char *e = strchr(p, '\n'); MC_CHECK(e, "the last entry does not end in a newline: \"%s\"", p); *e = 0; MC_CHECK(ng < 64, "too many entries"); got[ng++] = p; p = e + 1; }
    MC_CHECK(ng == nw, "%d entries, expected %d", ng, nw); qsort(got, ng, sizeof *got, cmps); qsort(want, nw, sizeof *want, cmps); for (int i = 0; i < ng; i++) MC_CHECK(!strcmp(got[i], want[i]), "lists \"%s\", expected \"%s\"", got[i], want[i]);
    MC_CHECK(zpl_string_length(l) == (zpl_isize)strlen(l), "length"); free(c); zpl_string_free(l); MC_CHECK(cl == 0, "%d allocations left", cl); wfree(); end();
}
static int typ(const char *p) { struct stat s; return stat(p, &s) ? ZPL_DIR_TYPE_UNKNOWN : S_ISDIR(s.st_mode) ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE; }
static void dcheck(zpl_dir_info *d, const char *p, const char *what) {
    MC_CHECK(d->fullpath && !strcmp(d->fullpath, p), "%s: the directory is called \"%s\", expected \"%s\"", what, d->fullpath, p); nw = 0; walk(p, 0); int n = (int)zpl_array_count(d->entries); MC_CHECK(n == nw, "%s: %d entries, expected %d", what, n, nw); qsort(want, nw, sizeof *want, cmps); static char *got[2048]; MC_CHECK(n <= 2048, "harness"); for (int i = 0; i < n; i++) { got[i] = (char *)d->entries[i].filename; MC_CHECK(d->entries[i].type == typ(got[i]), "%s: \"%s\" has type %d, expected %d", what, got[i], d->entries[i].type, typ(got[i])); MC_CHECK(d->entries[i].dir_info == NULL, "%s: \"%s\" has been analysed already", what, got[i]); }
    qsort(got, n, sizeof *got, cmps); for (int i = 0; i < n; i++) MC_CHECK(!strcmp(got[i], want[i]), "%s: \"%s\", expected \"%s\"", what, got[i], want[i]); wfree();
}
static void s_info(void) {
    begin(); mkdir("D", 0755); int v = (int)mc_choose(3); members("D"); char nm[500]; sprintf(nm, v == 0 ? "D" : v == 1 ? "%s/D" : "./D", W); mc_trans(1);
    zpl_dir_info d; memset(&d, 0xAA, sizeof d); zpl_dirinfo_init(&d, nm); dcheck(&d, nm, "directory");
    int n = (int)zpl_array_count(d.entries); if (n) { int twice = (int)mc_choose(3); for (int s = 0; s < twice; s++) for (int i = 0; i < n; i++) { zpl_dir_entry *e = &d.entries[i]; zpl_dirinfo_step(e); mc_trans(1); char par[800]; strcpy(par, e->filename); if (e->type != ZPL_DIR_TYPE_FOLDER) *strrchr(par, '/') = 0; MC_CHECK(e->dir_info, "no information"); dcheck(e->dir_info, par, e->type == ZPL_DIR_TYPE_FOLDER ? "folder entry" : "file entry"); } }
    zpl_dirinfo_free(&d); end();
}
static void s_refresh(void) { /* the directory of an open file */
    begin(); int v = (int)mc_choose(3), times = (int)mc_choose(3), add = (int)mc_choose(2), again = (int)mc_choose(2); mkdir("D", 0755); const char *f = v == 0 ? "D/f" : v == 1 ? "./D/f" : "f"; put(f, "x", 1); zpl_file F; MC_CHECK(!zpl_file_open(&F, f), "open"); char par[40]; strcpy(par, f); char *s = strrchr(par, '/'); if (s) *s = 0; else strcpy(par, ".");
    for (int i = 0; i < times; i++) { zpl_file_dirinfo_refresh(&F); mc_trans(1); MC_CHECK(F.dir && F.dir->dir_info, "no information"); dcheck(F.dir->dir_info, par, "refreshed"); if (add) { char q[60]; snprintf(q, sizeof q, "%s/n%d", par, i); put(q, "", 0); } if (again && F.dir->dir_info->entries) { zpl_dirinfo_step(F.dir); dcheck(F.dir->dir_info, par, "stepped"); } }
    zpl_file_close(&F); zpl_file T; if (times == 1) { MC_CHECK(!zpl_file_temp(&T), "temporary file"); zpl_file_dirinfo_refresh(&T); MC_CHECK(!zpl_file_has_changed(&T), "a temporary file has changed"); zpl_file_close(&T); } end();
}
static void s_types(void) { /* what is there, through every kind of node */
    begin(); int k = (int)mc_choose(9); char q[20] = "n"; mkdir("D", 0755); put("f", "abc", 3); int ex = 1, ty = ZPL_DIR_TYPE_FILE;
    if (k == 0) { ex = 0; ty = ZPL_DIR_TYPE_UNKNOWN; } else if (k == 1) put(q, "", 0); else if (k == 2) { mkdir(q, 0755); ty = ZPL_DIR_TYPE_FOLDER; } else if (k == 3) sock(q); else if (k == 4) mkfifo(q, 0644); else if (k == 5) { if (symlink("f", q)) mc_fail("harness"); } else if (k == 6) { if (symlink("D", q)) mc_fail("harness"); ty = ZPL_DIR_TYPE_FOLDER; } else if (k == 7) { if (symlink("no", q)) mc_fail("harness"); ex = 0; ty = ZPL_DIR_TYPE_UNKNOWN; } else { strcpy(q, "f/x"); ex = 0; ty = ZPL_DIR_TYPE_UNKNOWN; }
    MC_CHECK(!!zpl_fs_exists(q) == ex, "exists() is %d for kind %d", zpl_fs_exists(q), k); MC_CHECK(zpl_fs_get_type(q) == ty, "type %d, expected %d, for kind %d", zpl_fs_get_type(q), ty, k); mc_trans(3);
    /* copies: only of bytes */
    if (k == 3 || k == 2 || k == 6 || k == 0 || k == 7 || k == 8) { MC_CHECK(!zpl_fs_copy(q, "out", 0), "copying kind %d succeeds", k); struct stat s; MC_CHECK(lstat("out", &s), "a failed copy of kind %d left something", k); if (ty == ZPL_DIR_TYPE_FOLDER || k == 3) { MC_CHECK(!zpl_fs_copy("f", q, 0), "copying onto kind %d succeeds", k); } }
    else if (k == 5) { MC_CHECK(zpl_fs_copy(q, "out", 0), "copying what a link names fails"); struct stat s; MC_CHECK(!lstat("out", &s) && S_ISREG(s.st_mode) && s.st_size == 3, "copying what a link names"); MC_CHECK(zpl_fs_exists("f") && !stat("f", &s) && s.st_size == 3, "the source was damaged"); MC_CHECK(1, "x"); zpl_fs_copy("f", q, 0); MC_CHECK(!stat("f", &s) && s.st_size == 3, "copying a file onto a link to itself destroyed it"); }
    /* removing a link removes the link */
    if (k == 5 || k == 6 || k == 7) { MC_CHECK(zpl_fs_remove(q), "removing a link fails"); struct stat s; MC_CHECK(lstat(q, &s), "the link is still there"); MC_CHECK(zpl_fs_exists("f") && zpl_fs_exists("D"), "removing a link removed what it names"); }
    end();
}
static void stamp(const char *p, long s, long ns) { struct timespec t[2] = { { 5, 0 }, { s, ns } }; if (utimensat(AT_FDCWD, p, t, 0)) mc_fail("harness: utimensat"); }
static void s_times(void) { /* last write times are reported and changes noticed once */
    static const long TS[] = { 0, 1, 1000000000, 1000000001, 2147483647, 2147483648L, 4294967296L }; begin(); put("f", "x", 1); zpl_file F; MC_CHECK(!zpl_file_open(&F, "f"), "open"); long last = -1;
    for (int i = 0; i < 3; i++) { int k = (int)mc_choose(8); if (k == 7) { unlink("f"); put("f", "y", 1); stamp("f", 77, 0); } else stamp("f", TS[k], 0); long t = k == 7 ? 77 : TS[k]; MC_CHECK((long)zpl_fs_last_write_time("f") == t, "last write time is %ld, expected %ld", (long)zpl_fs_last_write_time("f"), t); zpl_b32 r = zpl_file_has_changed(&F); mc_trans(2); if (i) { MC_CHECK(!!r == (t != last), "a file written at %ld and then at %ld has %schanged", last, t, r ? "" : "not "); MC_CHECK(!zpl_file_has_changed(&F), "the same change is noticed twice"); } else MC_CHECK(!zpl_file_has_changed(&F), "a change without a write"); last = t; }
    MC_CHECK(zpl_fs_last_write_time("missing") == 0, "a missing file has a last write time"); zpl_file_close(&F); end();
}
static void s_load(void) { /* whole files and lines: every short content */
    begin(); static const char A[] = "a\n \r\0"; int n = (int)mc_choose(mc_thorough ? 7 : 6); char b[16] = { 0 }; for (int i = 0; i < n; i++) b[i] = A[mc_choose(n > 4 ? 3 : 5)]; put("f", b, n); int zt = (int)mc_choose(2); mc_trans(2);
    zpl_allocator a = ca(); zpl_file_contents c = zpl_file_read_contents(a, zt, "f"); MC_CHECK(c.size == n && (!n || (c.data && !memcmp(c.data, b, n))), "loads other bytes"); if (zt) MC_CHECK(c.data && !((char *)c.data)[n], "not terminated"); zpl_file_free_contents(&c); MC_CHECK(cl == 0, "leak");
    char **L = NULL; char *t = zpl_file_read_lines(a, &L, "f", zt); MC_CHECK(t && L, "no lines");
    int eff = (int)strnlen(b, n), k = 0, p = 0; while (p < eff) { char *nl = memchr(b + p, '\n', eff - p); int e = nl ? (int)(nl - b) : eff, l = e - p, skip = zt && l == 0; if (l && b[e - 1] == '\r') l--; if (!skip) { MC_CHECK(k < zpl_array_count(L) && (int)strlen(L[k]) == l && !memcmp(L[k], b + p, l), "line %d differs", k); k++; } p = e + 1; }
    MC_CHECK(zpl_array_count(L) == k, "%d lines, expected %d", (int)zpl_array_count(L), k); zpl_array_free(L); zpl_free(a, t); MC_CHECK(cl == 0, "leak"); end();
}
static void s_long(void) { /* paths around the length limits */
    begin(); int k = (int)mc_choose(2), d = (int)mc_choose(6), n = k ? PATH_MAX - 3 + d : NAME_MAX - 2 + d; char *p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = k && i % 200 == 199 ? '/' : 'x'; if (p[n - 1] == '/') p[n - 1] = 'x'; p[n] = 0; mc_trans(3);
    zpl_isize r = zpl_path_mkdir_recursive(p, 0755); struct stat s; int there = !stat(p, &s); MC_CHECK((r == 0) == there, "making a path of %d bytes returns %d, %s there", n, (int)r, there ? "it is" : "it is not"); MC_CHECK(!!zpl_fs_exists(p) == there, "exists");
    zpl_file_error e = zpl_path_mkdir(p, 0755); MC_CHECK(there ? e == ZPL_FILE_ERROR_EXISTS : e == ZPL_FILE_ERROR_NAME_TOO_LONG, "making a directory with a path of %d bytes returns %d", n, (int)e); e = zpl_path_rmdir(p); MC_CHECK(there ? e == 0 : e == ZPL_FILE_ERROR_NAME_TOO_LONG, "removing a directory with a path of %d bytes returns %d", n, (int)e);
    free(p); end();
}
static void s_oom(void) { /* memory runs out at every allocation: no crash, nothing left behind, no wrong answer */
    begin(); int k = (int)mc_choose(6), at = (int)mc_choose(24); mkdir("D", 0755); put("D/a", "l1\nl2\n", 6); mkdir("D/b", 0755); put("D/b/c", "", 0); mc_trans(1); zpl_allocator a = ca();
    if (k == 0) { cfail = at; char *l = zpl_path_dirlist(a, "D", 1); int hit = cn > at; if (!hit) MC_CHECK(l && zpl_string_length(l) == 14, "wrong listing"); if (l) zpl_string_free(l); }
    else if (k == 1) { cfail = at; char **L = NULL, *t = zpl_file_read_lines(a, &L, "D/a", 0); MC_CHECK(cn > at || t, "no lines although memory was there"); if (t) { MC_CHECK(zpl_array_count(L) == 2, "lines"); zpl_array_free(L); zpl_free(a, t); } }
    else if (k == 2) { cfail = at; zpl_file_contents c = zpl_file_read_contents(a, 1, "D/a"); MC_CHECK(cn > at || c.size == 6, "no contents although memory was there"); if (c.data) MC_CHECK(c.size == 6, "size"); zpl_file_free_contents(&c); }
    else if (k == 3) { zpl_dir_info d; long b = mc_malloc_n; mc_malloc_fail_at = b + at; zpl_dirinfo_init(&d, "D"); int hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; if (!hit) MC_CHECK(d.entries && zpl_array_count(d.entries) == 2, "entries"); zpl_dirinfo_free(&d); }
    else if (k == 4) { zpl_dir_info d; zpl_dirinfo_init(&d, "D"); long b = mc_malloc_n; mc_malloc_fail_at = b + at; MC_CHECK(zpl_array_count(d.entries) == 2, "entries"); for (int i = 0; i < 2; i++) zpl_dirinfo_step(&d.entries[i]); mc_malloc_fail_at = -1; zpl_dirinfo_free(&d); }
    else { zpl_file f; MC_CHECK(!zpl_file_open(&f, "D/a"), "open"); long b = mc_malloc_n; mc_malloc_fail_at = b + at; zpl_file_dirinfo_refresh(&f); mc_malloc_fail_at = -1; zpl_file_close(&f); }
    MC_CHECK(cl == 0, "%d allocations left", cl); end();
}
/* directories with many entries, deep trees, large files, many lines */
static void s_populous(void) {
    int k = (int)mc_choose(4), q = (int)mc_choose(6), v = (int)mc_choose(2); mc_claim(); begin(); mc_trans(1); mc_state((uint64_t)(k * 100 + q * 2 + v)); zpl_allocator a = ca(); char nm[500]; sprintf(nm, v ? "%s/D" : "D", W);
    if (k == 0) { int n = (int[]){ 255, 256, 257, 400, 600, 1023 }[q]; mkdir("D", 0755); for (int i = 0; i < n; i++) { char t[64]; sprintf(t, i % 9 == 4 ? "D/dir%d" : "D/a-file-with-number-%d", i); if (i % 9 == 4) { mkdir(t, 0755); if (i % 2) { strcat(t, "/in"); put(t, "", 0); } } else put(t, "x", 1); }
        for (int rec = 0; rec < 2; rec++) { char *l = zpl_path_dirlist(a, nm, rec); MC_CHECK(l && zpl_string_length(l) == (zpl_isize)strlen(l), "no listing"); nw = 0; walk(nm, rec); qsort(want, nw, sizeof *want, cmps); char *got[2048]; int ng = 0; char *c = dup_(l), *p = c; while (*p) { char *e = strchr(p, '\n'); MC_CHECK(e, "the last entry does not end in a newline"); *e = 0; MC_CHECK(ng < 2048, "too many entries"); got[ng++] = p; p = e + 1; } MC_CHECK(ng == nw, "%d entries, expected %d", ng, nw); qsort(got, ng, sizeof *got, cmps); for (int i = 0; i < ng; i++) MC_CHECK(!strcmp(got[i], want[i]), "listed \"%s\", expected \"%s\"", got[i], want[i]); free(c); zpl_string_free(l); wfree(); }
        zpl_dir_info d; zpl_dirinfo_init(&d, nm); dcheck(&d, nm, "directory"); zpl_dirinfo_free(&d); }
    else if (k == 1) { int n = (int[]){ 60, 127, 128, 129, 256, 300 }[q]; char *p = malloc((size_t)n * 4 + 600); strcpy(p, nm); for (int i = 1; i < n; i++) strcat(p, "/d"); MC_CHECK(zpl_path_mkdir_recursive(p, 0755) == 0 && zpl_fs_get_type(p) == ZPL_DIR_TYPE_FOLDER, "making %d directories fails", n); strcat(p, "/f"); put(p, "leaf", 4);
        char *l = zpl_path_dirlist(a, nm, 1); MC_CHECK(l != NULL, "no listing"); int c = 0; for (char *s = l; *s; s++) c += *s == '\n'; MC_CHECK(c == n, "a chain of %d directories is listed with %d entries", n, c); MC_CHECK(strstr(l, p) && strstr(l, p)[strlen(p)] == '\n', "the innermost file is not listed"); zpl_string_free(l); free(p); }
    else if (k == 2) { int n = (int[]){ 4095, 4097, 65535, 65537, 1048577, 5000000 }[q]; char *b = malloc((size_t)n + 1); for (int i = 0; i < n; i++) b[i] = (char)(i * 13 + (i >> 7) + 1); put("big", b, 0); MC_CHECK(zpl_file_write_contents("big", b, n, NULL), "storing %d bytes fails", n);
        zpl_file_contents c = zpl_file_read_contents(a, v, "big"); MC_CHECK(c.size == n && !memcmp(c.data, b, (size_t)n), "%d bytes are not loaded as they were stored", n); if (v) MC_CHECK(((char *)c.data)[n] == 0, "no end"); zpl_file_free_contents(&c); MC_CHECK(zpl_fs_copy("big", "copy", 0), "copying %d bytes fails", n); c = zpl_file_read_contents(a, 0, "copy"); MC_CHECK(c.size == n && !memcmp(c.data, b, (size_t)n), "%d bytes are not copied", n); zpl_file_free_contents(&c); MC_CHECK(zpl_fs_move("copy", "moved") && !zpl_fs_exists("copy"), "moving fails"); free(b); }
    else { int n = (int[]){ 255, 256, 4096, 65535, 65537, 70000 }[q]; char *b = malloc((size_t)n * 8 + 1), *w = b; for (int i = 0; i < n; i++) w += sprintf(w, i % 5 == 3 ? "\n" : "l%d\n", i); put("lines", b, (int)(w - b)); char **L = NULL; char *t = zpl_file_read_lines(a, &L, "lines", v); MC_CHECK(t && L, "no lines"); int j = 0; for (int i = 0; i < n; i++) { if (i % 5 == 3 && v) continue; char x[16]; sprintf(x, i % 5 == 3 ? "" : "l%d", i); MC_CHECK(j < zpl_array_count(L) && !strcmp(L[j], x), "line %d of %d is \"%s\", expected \"%s\"", j, n, j < zpl_array_count(L) ? L[j] : "(none)", x); j++; } MC_CHECK(zpl_array_count(L) == j, "%d lines, expected %d", (int)zpl_array_count(L), j); zpl_array_free(L); zpl_free(a, t); free(b); }
    MC_CHECK(cl == 0, "%d allocations left", cl); end();
}
/* every small size: stored, loaded, copied over shorter and longer files, moved */
static void s_sizes(void) {
    int n = (int)mc_choose(mc_thorough ? 600 : 70), old = (int)mc_choose(3), v = (int)mc_choose(2); mc_claim(); begin(); mc_trans(4); mc_state((uint64_t)(n * 10 + old * 2 + v)); zpl_allocator a = ca(); char b[1024], z[2048]; for (int i = 0; i < n; i++) b[i] = (char)(i * 13 + 7); memset(z, 'z', sizeof z);
    put("old", z, 0); MC_CHECK(zpl_file_write_contents("f", b, n, NULL), "storing %d bytes fails", n); if (old) { FILE *o = fopen("g", "w"); fwrite(z, 1, old == 1 ? 1 : 2000, o); fclose(o); }
    MC_CHECK(zpl_fs_copy("f", "g", 0), "copying %d bytes fails", n); zpl_file_contents c = zpl_file_read_contents(a, v, "g"); MC_CHECK((c.data || !n) && c.size == n && !memcmp(c.data, b, (size_t)n), "the copy of %d bytes has %ld, or they differ", n, (long)c.size); if (v) MC_CHECK(((char *)c.data)[n] == 0, "no end"); zpl_file_free_contents(&c);
    MC_CHECK(!zpl_fs_copy("f", "g", 1), "an existing file is copied over although that was refused"); MC_CHECK(zpl_fs_copy("f", "h", 1), "copying %d bytes to a new file fails", n); c = zpl_file_read_contents(a, v, "h"); MC_CHECK(c.size == n && !memcmp(c.data, b, (size_t)n), "the copy of %d bytes has %ld, or they differ", n, (long)c.size); zpl_file_free_contents(&c);
    unlink("g"); MC_CHECK(zpl_fs_move("h", "g") && !zpl_fs_exists("h"), "moving fails"); zpl_file f; MC_CHECK(!zpl_file_open(&f, "g"), "opening fails"); MC_CHECK(zpl_file_size(&f) == n, "%d bytes are said to be %ld", n, (long)zpl_file_size(&f)); zpl_file_close(&f); MC_CHECK(zpl_fs_remove("g") && !zpl_fs_exists("g"), "removing fails");
    MC_CHECK(cl == 0, "%d allocations left", cl); end();
}
mc_suite mc_suites[] = { { "sizes", s_sizes }, { "populous", s_populous }, { "split", s_split }, { "full", s_full }, { "ops", s_ops }, { "hist", s_hist }, { "list", s_list }, { "info", s_info }, { "refresh", s_refresh }, { "types", s_types }, { "times", s_times }, { "load", s_load }, { "long", s_long }, { "oom", s_oom }, { 0 } };
