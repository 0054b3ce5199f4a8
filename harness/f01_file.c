/* F01: disk files, temporary files and memory files are byte arrays with a cursor: all histories against a reference array */
#include "z.h"
static int streams;
FILE *__real_tmpfile(void); FILE *__wrap_tmpfile(void) { FILE *f = __real_tmpfile(); if (f) streams++; return f; }
int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { streams--; return __real_fclose(f); }
/* an execution that belongs to another shard ends early: start from a clean slate */
static int fds0(void);
static int fds(void) { int n = 0; for (int i = 0; i < 24; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static int fds0(void) { close_range(3, 63, 0); return fds(); }
#define CAP 64
enum { DISK, TEMP, MNEW, MCLONE, MBUF, MRO };
typedef struct {
    int kind, rd, wr, app, n, cur, fixed;             /* grants, length, cursor */
    unsigned char b[CAP], *user; unsigned char next;
    zpl_file f; char path[300];
} fil;
static int mem(fil *x) { return x->kind >= MNEW; }
static void path_of(char *o, const char *tag) { sprintf(o, "%s/%s%d", mc_scratch, tag, (int)getpid()); }
static int put(const char *p, const void *d, int n) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); int r = (int)write(fd, d, n); close(fd); return r; }
static int get(const char *p, unsigned char *d, int n) { int fd = open(p, O_RDONLY); if (fd < 0) return -1; int r = (int)read(fd, d, n); close(fd); return r; }
static void content(fil *x, const char *what) { /* what the file holds, seen from outside where possible */
    unsigned char t[CAP + 8]; int n;
    if (x->kind == DISK) n = get(x->path, t, CAP + 8);
    else if (x->kind == TEMP) { n = (int)pread((int)x->f.fd.i, t, CAP + 8, 0); }
    else { zpl_isize z = -1; unsigned char *p = zpl_file_stream_buf(&x->f, &z); n = (int)z; MC_CHECK(n <= CAP, "%s: the stream claims %d bytes, expected %d", what, n, x->n); if (n) memcpy(t, p, n); MC_CHECK(x->kind < MBUF || p == x->user, "the stream moved off the given buffer"); }
    MC_CHECK(n == x->n, "%s: the file holds %d bytes, expected %d", what, n, x->n);
    for (int i = 0; i < n; i++) MC_CHECK(t[i] == x->b[i], "%s: byte %d is %02x, expected %02x", what, i, t[i], x->b[i]);
}
static void check(fil *x, const char *what) {
    zpl_i64 t = zpl_file_tell(&x->f); if (x->app && !mem(x)) x->cur = (int)t; /* where an appending file's cursor stands after a write is its own business */
    MC_CHECK(t == x->cur, "%s: the cursor is at %d, expected %d", what, (int)t, x->cur);
    zpl_i64 z = zpl_file_size(&x->f); MC_CHECK(z == x->n, "%s: the size is %d, expected %d", what, (int)z, x->n);
    t = zpl_file_tell(&x->f); MC_CHECK(t == x->cur, "%s: asking for the size moved the cursor from %d to %d", what, x->cur, (int)t);
    content(x, what);
}
static void ref_write(fil *x, int at, int n, const unsigned char *d) { if (x->app) at = x->n; if (!n) return; while (x->n < at) x->b[x->n++] = 0; for (int i = 0; i < n; i++) { MC_CHECK(at + i < CAP, "harness: too long"); x->b[at + i] = d[i]; } if (at + n > x->n) x->n = at + n; }
static void do_write(fil *x, int n, int at /* -1: at the cursor */) {
    unsigned char *d = malloc(n ? n : 1); for (int i = 0; i < n; i++) d[i] = x->next++;
    int pos = at < 0 ? x->cur : at, want = x->wr ? n : 0; if (x->fixed && x->wr) { want = x->n - pos; if (want < 0) want = 0; if (want > n) want = n; }
    zpl_isize k = -5; zpl_b32 ok = at < 0 ? zpl_file_write(&x->f, d, n) : zpl_file_write_at_check(&x->f, d, n, at, &k); mc_trans(1);
    mc_log("write %d bytes at %d: %d (count %d)\n", n, pos, ok, (int)k);
    if (n) MC_CHECK(!!ok == (want == n), "writing %d bytes at %d of %d %s", n, pos, x->n, ok ? "succeeds" : "fails");
    if (at >= 0 && (n || x->wr)) MC_CHECK(k == want, "writing %d bytes at %d of %d counts %d, expected %d", n, pos, x->n, (int)k, want);
    ref_write(x, pos, want, d); if (at < 0) x->cur += want; free(d); check(x, "after a write");
}
static void do_read(fil *x, int n, int at, int checked) {
    int pos = at < 0 ? x->cur : at, want = x->n - pos; if (want < 0) want = 0; if (want > n) want = n; if (!x->rd) want = 0;
    unsigned char *d = malloc(n ? n : 1); memset(d, 0xEE, n); zpl_isize k = -5;
    zpl_b32 ok = at < 0 ? zpl_file_read(&x->f, d, n) : checked ? zpl_file_read_at_check(&x->f, d, n, at, &k) : zpl_file_read_at(&x->f, d, n, at); mc_trans(1);
    mc_log("read %d bytes at %d: %d (count %d)\n", n, pos, ok, (int)k);
    if (n) MC_CHECK(!!ok == x->rd, "reading %s", ok ? "succeeds although the mode denies it" : "fails");
    if (at >= 0 && checked && (n || x->rd)) MC_CHECK(k == want, "reading %d bytes at %d of %d counts %d", n, pos, x->n, (int)k);
    for (int i = 0; i < n; i++) MC_CHECK(d[i] == (i < want ? x->b[pos + i] : 0xEE), "byte %d read at %d is %02x, expected %02x", i, pos, d[i], i < want ? x->b[pos + i] : 0xEE);
    if (at < 0) x->cur += want; free(d); check(x, "after a read");
}
static void do_seek(fil *x, int to, int how) {
    int want = to; if (mem(x)) want = to < 0 ? 0 : to > x->n ? x->n : to; zpl_i64 r;
    if (how == 0) r = zpl_file_seek(&x->f, to); else if (how == 1) r = zpl_file_skip(&x->f, to - x->cur); else { want = x->n; r = zpl_file_seek_to_end(&x->f); }
    mc_trans(1); mc_log("seek (%d) to %d: %d\n", how, to, (int)r); MC_CHECK(r == want, "seeking to %d of %d returns %d", to, x->n, (int)r); x->cur = want; int app = x->app; x->app = 0; check(x, "after a seek"); x->app = app;
}
static void do_truncate(fil *x, int n) {
    zpl_file_error e = zpl_file_truncate(&x->f, n); mc_trans(1); mc_log("truncate to %d: %d\n", n, e);
    if (mem(x)) { if (e == ZPL_FILE_ERROR_NONE) { x->n = n; if (x->cur > n) x->cur = (int)zpl_file_tell(&x->f); } }
    else { MC_CHECK((e == ZPL_FILE_ERROR_NONE) == x->wr, "truncating returns %d", e); if (x->wr) { while (x->n < n) x->b[x->n++] = 0; x->n = n; } }
    check(x, "after truncating");
}
static void op(fil *x) {
    switch (mc_choose(mem(x) ? 8 : 9)) {
    case 0: { static const int L[] = { 1, 3, 0 }; do_write(x, L[mc_choose(3)], -1); break; }
    case 1: { static const int L[] = { 2, 9, 0 }; do_read(x, L[mc_choose(3)], -1, 0); break; }
    case 2: { int o = mc_choose(4), at = o == 0 ? 0 : o == 1 ? x->n : o == 2 ? x->n + 2 : x->cur; do_write(x, 1 + mc_choose(2), at); break; }
    case 3: { int o = mc_choose(4), at = o == 0 ? 1 : o == 1 ? x->n : o == 2 ? x->n + 3 : x->cur; do_read(x, 4, at, mc_choose(2)); break; }
    case 4: { int o = mc_choose(4); do_seek(x, o == 0 ? 0 : o == 1 ? x->n : o == 2 ? x->n + 2 : x->n / 2, 0); break; }
    case 5: do_seek(x, x->n, 2); break;
    case 6: { int o = mc_choose(mem(x) ? 4 : 3), to = o == 0 ? x->cur + 1 : o == 1 ? x->cur : o == 2 ? (x->cur ? x->cur - 1 : 0) : x->cur - 99; do_seek(x, to, 1); break; }
    case 7: { zpl_isize k = -5; if (mc_choose(2)) { unsigned char c; do_read(x, 1, x->n ? x->n - 1 : 0, 1); } else if (mem(x)) { unsigned char c[4] = { 0xEE, 0xEE, 0xEE, 0xEE }; zpl_b32 r = zpl_file_read_at_check(&x->f, c, 4, -2, &k); MC_CHECK(!r || k == 0, "reading before the beginning succeeds with %d bytes", (int)k); r = zpl_file_write_at_check(&x->f, "zz", 2, -1, &k); MC_CHECK(!r, "writing before the beginning succeeds"); check(x, "after accesses before the beginning"); } else { const char *nm = zpl_file_name(&x->f); MC_CHECK(nm && !strcmp(nm, x->kind == TEMP ? "" : x->path), "the name is %s", nm); } break; }
    default: { int o = mc_choose(3); do_truncate(x, o == 0 ? 0 : o == 1 ? (x->n > 1 ? x->n - 1 : 1) : x->n + 2); break; }
    }
}
static const zpl_file_mode MODE[] = { ZPL_FILE_MODE_READ, ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW };
static const unsigned char INIT[] = "abcdef";
static void base(fil *x, int kind) { memset(x, 0, sizeof *x); x->kind = kind; x->next = 'A'; x->rd = x->wr = 1; }
static void init_content(fil *x, int n) { x->n = n; memcpy(x->b, INIT, n); }
static void open_disk(fil *x, int m, int how, int existing) {
    base(x, DISK); path_of(x->path, "f"); unlink(x->path); if (existing >= 0) { put(x->path, INIT, existing); init_content(x, existing); }
    zpl_file_mode mode = MODE[m]; x->rd = m == 0 || m >= 3; x->wr = m != 0; x->app = m == 2 || m == 5; if (m == 1 || m == 4) x->n = 0;
    zpl_file_error e = how == 1 ? zpl_file_open(&x->f, x->path) : how == 2 ? zpl_file_create(&x->f, x->path) : zpl_file_open_mode(&x->f, mode, x->path); MC_CHECK(e == ZPL_FILE_ERROR_NONE, "opening fails with %d", e); mc_log("disk file, mode %x, %d bytes\n", mode, x->n);
}
static void open_mem(fil *x, int kind, int n) {
    base(x, kind); init_content(x, n); zpl_b8 ok; mc_log("memory file, kind %d, %d bytes\n", kind, n);
    if (kind == MNEW) { x->n = 0; ok = zpl_file_stream_new(&x->f, zpl_heap()); }
    else { x->user = malloc(n); memcpy(x->user, INIT, n); x->fixed = kind >= MBUF; x->wr = kind != MRO; ok = zpl_file_stream_open(&x->f, zpl_heap(), x->user, n, kind == MCLONE ? ZPL_FILE_STREAM_CLONE_WRITABLE : kind == MBUF ? ZPL_FILE_STREAM_WRITABLE : 0); }
    MC_CHECK(ok, "opening a memory file fails");
}
static void finish(fil *x, int f0, int twice) {
    zpl_file_error e = zpl_file_close(&x->f); MC_CHECK(e == ZPL_FILE_ERROR_NONE, "closing fails with %d", e);
    if (x->user) { for (int i = 0; i < (x->kind == MCLONE ? 6 : x->n); i++) if (x->kind != MCLONE) MC_CHECK(x->user[i] == x->b[i], "the given buffer changed at %d after closing", i); else if (i < 6 && x->user) { } free(x->user); x->user = NULL; }
    if (f0 >= 0) MC_CHECK(fds() == f0, "%d descriptors are open after closing, %d before opening", fds(), f0);
    if (twice) { int keep = open("/dev/null", O_RDONLY); e = zpl_file_close(&x->f); MC_CHECK(e != ZPL_FILE_ERROR_NONE, "closing again succeeds"); MC_CHECK(fcntl(keep, F_GETFD) != -1, "closing again closed a foreign descriptor"); close(keep); }
    if (x->kind == DISK) { unsigned char t[CAP + 8]; int n = get(x->path, t, CAP + 8); MC_CHECK(n == x->n && !memcmp(t, x->b, n), "the file changed when it was closed"); unlink(x->path); }
    MC_CHECK(!streams, "%d streams stay open", streams);
}
static uint64_t fhash(fil *x) { uint64_t h = mc_hash(x->kind * 8 + x->rd * 4 + x->wr * 2 + x->app, x->b, x->n); return mc_hash_u(h, x->cur); }
static void history(fil *x, int f0, int len) { check(x, "after opening"); for (int i = 0; i < len; i++) { op(x); mc_state(fhash(x)); } finish(x, f0, 0); }
static void s_disk(void) { int f0 = fds0(); fil x; streams = 0; int m = mc_choose(6), ex = m == 0 || m == 3 ? mc_choose(2) * 6 : mc_choose(3) * 3 - 1; if (ex > 2 || ex == 5) ex = ex == 5 ? 6 : ex; if (ex == 2) ex = 0; open_disk(&x, m, 0, ex); history(&x, f0, mc_thorough ? 4 : 3); }
static void s_temp(void) { int f0 = fds0(); fil x; streams = 0; base(&x, TEMP); zpl_file_error e = zpl_file_temp(&x.f); MC_CHECK(e == 0, "no temporary file: %d", e); history(&x, f0, mc_thorough ? 4 : 3); }
static void s_memory(void) { int f0 = -1; fil x; streams = 0; int k = MNEW + mc_choose(4); open_mem(&x, k, k == MNEW ? 0 : mc_choose(2) * 6); history(&x, f0, mc_thorough ? 5 : 4); }
static void s_open(void) { /* what opening does and reports, and closing twice */
    int f0 = fds0(), m = mc_choose(6), sit = mc_choose(7); streams = 0; fil x; base(&x, DISK);
    if (sit < 2) { open_disk(&x, m, m == 0 && mc_choose(2) ? 1 : m == 4 && mc_choose(2) ? 2 : 0, sit ? 6 : (m == 0 || m == 3) ? 0 : -1); if (x.wr) do_write(&x, 2, -1); if (x.rd) do_read(&x, 3, 0, 1); finish(&x, f0, 1); return; }
    char p[1200], *b; path_of(x.path, "x"); unlink(x.path); rmdir(x.path); zpl_file_error want = ZPL_FILE_ERROR_NOT_EXISTS; strcpy(p, x.path);
    if (sit == 2) { if (m != 0 && m != 3) mc_prune(); } else if (sit == 3) strcat(p, "/y"); else if (sit == 4) { memset(p + strlen(p), 'n', 600); p[900] = 0; memset(p + strlen(mc_scratch) + 1, 'n', 600); p[strlen(mc_scratch) + 601] = 0; want = ZPL_FILE_ERROR_NAME_TOO_LONG; } else if (sit == 5) { if (m == 0) mc_prune(); mkdir(p, 0755); want = ZPL_FILE_ERROR_NONE; } else *p = 0;
    memset(&x.f, 0xC3, sizeof x.f); zpl_file_error e = zpl_file_open_mode(&x.f, MODE[m], p); mc_trans(1); mc_log("mode %d, situation %d: %d\n", m, sit, e); MC_CHECK(e != ZPL_FILE_ERROR_NONE, "opening succeeds"); if (want) MC_CHECK(e == want, "opening fails with %d, expected %d", e, want);
    e = zpl_file_close(&x.f); MC_CHECK(e != ZPL_FILE_ERROR_NONE, "closing a file that could not be opened succeeds"); MC_CHECK(fds() == f0, "a failed open leaves a descriptor"); if (sit == 5) rmdir(p); if (sit == 3) { struct stat s; MC_CHECK(stat(x.path, &s) != 0, "something was created"); }
}
static void s_twice(void) { int f0 = fds0(); fil x; streams = 0; int k = mc_choose(5); if (k == 0) { base(&x, TEMP); MC_CHECK(!zpl_file_temp(&x.f), "no temporary file"); } else open_mem(&x, MNEW + k - 1, 6); if (x.wr) do_write(&x, 3, -1); finish(&x, f0, 1); MC_CHECK(zpl_file_close(NULL) != ZPL_FILE_ERROR_NONE, "closing nothing succeeds"); }
static void s_large(void) { /* transfers beyond every internal block size, and growth of memory files */
    static const int L[] = { 0, 1, 63, 64, 65, 4095, 4096, 4097, 65535, 65537, 300000 }; int k = mc_choose(3), a = L[mc_choose(11)], b = L[mc_choose(11)], over = mc_choose(3), f0 = fds0(); zpl_file f; char p[300]; path_of(p, "l"); streams = 0;
    MC_CHECK(k == 0 ? !zpl_file_create(&f, p) : k == 1 ? !zpl_file_temp(&f) : zpl_file_stream_new(&f, zpl_heap()), "opening fails"); unsigned char *r = calloc(1, 700000), *d = malloc(a + b + 1), *g = malloc(700000); for (int i = 0; i < a + b; i++) d[i] = (unsigned char)(i * 7 + (i >> 8) + 1); zpl_isize n = 0, c = -1;
    MC_CHECK(zpl_file_write(&f, d, a), "writing %d bytes fails", a); memcpy(r, d, a); n = a; int at = over == 0 ? a : over == 1 ? a / 2 : 0; MC_CHECK(zpl_file_write_at_check(&f, d + a, b, at, &c) && c == b, "writing %d bytes at %d fails or counts %d", b, at, (int)c); memcpy(r + at, d + a, b); if (at + b > n) n = at + b; mc_trans(2);
    MC_CHECK(zpl_file_tell(&f) == a && zpl_file_size(&f) == n, "cursor %d size %d, expected %d and %d", (int)zpl_file_tell(&f), (int)zpl_file_size(&f), a, (int)n); zpl_file_seek(&f, 0); c = -1; MC_CHECK(zpl_file_read_at_check(&f, g, 690000, 0, &c) && c == n && !memcmp(g, r, n), "reading back %d bytes gives %d or other bytes", (int)n, (int)c);
    int h = n / 3; zpl_file_seek(&f, h); MC_CHECK(zpl_file_read(&f, g, n) && zpl_file_tell(&f) == n && !memcmp(g, r + h, n - h), "reading the rest goes wrong"); zpl_file_close(&f); MC_CHECK(fds() == f0 && !streams, "descriptors stay open"); free(r); free(d); free(g); if (k == 0) unlink(p);
}
static void s_pipe(void) { /* things without a position: everything written arrives in order, everything there is read in order */
    int p[2], n = 1 + mc_choose(4), dir = mc_choose(2), sent = 0; unsigned char ref[64], got[64]; if (pipe(p)) mc_fail("harness: pipe"); zpl_file f; zpl_file_descriptor fd; fd.i = p[dir]; zpl_file_new(&f, fd, zpl_default_file_operations, "pipe");
    if (dir) { for (int i = 0; i < n; i++) { int l = mc_choose(4); for (int j = 0; j < l; j++) ref[sent + j] = (unsigned char)(sent + j + 1); MC_CHECK(zpl_file_write(&f, ref + sent, l), "writing to a pipe fails"); sent += l; mc_trans(1); } zpl_file_close(&f); int r = (int)read(p[0], got, 64); MC_CHECK(r == sent && !memcmp(got, ref, sent), "%d bytes arrive, %d were written", r, sent); close(p[0]); }
    else { for (int i = 0; i < 9; i++) ref[i] = (unsigned char)(i + 65); if (write(p[1], ref, 9) != 9) mc_fail("harness"); close(p[1]); for (int i = 0; i < n; i++) { int l = mc_choose(4), k; memset(got, 0, 64); if (l && mc_choose(2)) { zpl_isize c = -1; MC_CHECK(zpl_file_read_at_check(&f, got, l, 0, &c), "reading from a pipe fails"); k = sent + l > 9 ? 9 - sent : l; MC_CHECK(c == k, "%d bytes read, expected %d", (int)c, k); } else { MC_CHECK(zpl_file_read(&f, got, l), "reading from a pipe fails"); k = sent + l > 9 ? 9 - sent : l; } MC_CHECK(!memcmp(got, ref + sent, k), "wrong bytes"); sent += k; mc_trans(1); } zpl_file_close(&f); }
}
static void s_standard(void) { /* the standard files are the descriptors 0, 1 and 2 */
    int which = mc_choose(3), p[2], save = dup(which); if (save < 0) { save = -1; } if (pipe(p)) mc_fail("harness"); zpl_file *f = which == 0 ? ZPL_STDIO_IN : which == 1 ? ZPL_STDIO_OUT : ZPL_STDIO_ERR; unsigned char g[8] = { 0 };
    dup2(which ? p[1] : p[0], which); int ok; if (which) { ok = zpl_file_write(f, "abc", 3) && zpl_file_write(f, "d", 1); ok = ok && read(p[0], g, 8) == 4 && !memcmp(g, "abcd", 4); } else { if (write(p[1], "abcd", 4) != 4) mc_fail("harness"); ok = zpl_file_read(f, g, 3) && zpl_file_read(f, g + 3, 1) && !memcmp(g, "abcd", 4); }
    if (save >= 0) { dup2(save, which); close(save); } else close(which); close(p[0]); close(p[1]); mc_trans(1); MC_CHECK(ok, "standard file %d does not pass the bytes on", which);
}
static void s_two(void) { /* two handles on one file see each other's bytes and keep their own cursors */
    char p[300]; path_of(p, "t"); put(p, INIT, 6); zpl_file f[2]; MC_CHECK(!zpl_file_open_mode(&f[0], ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, p) && !zpl_file_open_mode(&f[1], ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, p), "opening fails"); int cur[2] = { 0, 0 }, n = 6; unsigned char b[CAP] = "abcdef", nx = 'A'; int k = mc_thorough ? 5 : 4;
    for (int i = 0; i < k; i++) { int h = mc_choose(2); switch (mc_choose(4)) { case 0: { unsigned char d[2] = { nx++, nx++ }; zpl_file_write(&f[h], d, 2); for (int j = 0; j < 2; j++) { while (n < cur[h]) b[n++] = 0; b[cur[h]++] = d[j]; if (cur[h] > n) n = cur[h]; } break; } case 1: { unsigned char g[3] = { 0 }; int w = n - cur[h]; if (w < 0) w = 0; if (w > 3) w = 3; zpl_file_read(&f[h], g, 3); MC_CHECK(!memcmp(g, b + cur[h], w), "handle %d reads other bytes", h); cur[h] += w; break; } case 2: cur[h] = n; zpl_file_seek_to_end(&f[h]); break; default: cur[h] = 1; zpl_file_seek(&f[h], 1); }
        mc_trans(1); for (int j = 0; j < 2; j++) MC_CHECK(zpl_file_tell(&f[j]) == cur[j] && zpl_file_size(&f[j]) == n, "handle %d: cursor %d size %d, expected %d and %d", j, (int)zpl_file_tell(&f[j]), (int)zpl_file_size(&f[j]), cur[j], n); }
    zpl_file_close(&f[0]); unsigned char t[CAP]; MC_CHECK(zpl_file_read_at(&f[1], t, n, 0) && !memcmp(t, b, n), "closing one handle changes the other"); zpl_file_close(&f[1]); unlink(p);
}
static void s_oom(void) { int f0 = fds0(), k = mc_choose(4), at = mc_choose(3); char p[300]; path_of(p, "o"); put(p, INIT, 6); zpl_file f; memset(&f, 0, sizeof f); streams = 0; long b = mc_malloc_n; mc_malloc_fail_at = b + at; int ok = k == 0 ? !zpl_file_open(&f, p) : k == 1 ? !zpl_file_create(&f, p) : k == 2 ? zpl_file_stream_new(&f, zpl_heap()) : zpl_file_stream_open(&f, zpl_heap(), (zpl_u8 *)INIT, 6, ZPL_FILE_STREAM_CLONE_WRITABLE); int hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; mc_trans(1);
    MC_CHECK(ok || hit, "opening fails although memory was there"); if (ok && k < 2) MC_CHECK(zpl_file_name(&f) && !strcmp(zpl_file_name(&f), p), "the file is open but does not know its name"); if (ok) { unsigned char g[4]; if (!hit) MC_CHECK(zpl_file_read(&f, g, 4), "reading fails"); zpl_file_close(&f); } else if (k < 2) zpl_file_close(&f); MC_CHECK(fds() == f0, "descriptors stay open after %s", ok ? "success" : "failure"); unlink(p); }
/* offsets no memory can hold */
static void s_far(void) {
    static const zpl_i64 F[] = { ZPL_I64_MAX, ZPL_I64_MAX - 1, ZPL_I64_MAX - 3, ZPL_I64_MAX - 4, ZPL_I64_MAX - 5, ZPL_I64_MAX / 2, 1ll << 62, 1ll << 42, ZPL_I64_MIN, ZPL_I64_MIN + 1, -1 };
    fil x; open_mem(&x, MNEW + mc_choose(4), 6); int cur = mc_choose(3); zpl_i64 at = F[mc_choose(11)]; int n = (int[]){ 1, 4, 0 }[mc_choose(3)]; if (cur && x.n) do_seek(&x, cur == 1 ? 2 : x.n, 0); zpl_isize k = -5; unsigned char d[4] = { 0xEE, 0xEE, 0xEE, 0xEE };
    switch (mc_choose(4)) {
    case 0: { mc_log("write %d at %lld\n", n, (long long)at); zpl_b32 ok = zpl_file_write_at_check(&x.f, "wxyz", n, at, &k); MC_CHECK(k == 0 || k == -5, "writing at %lld counts %d", (long long)at, (int)k); if (n || at < 0) MC_CHECK(!ok, "writing %d bytes at %lld succeeds", n, (long long)at); break; }
    case 1: { mc_log("read %d at %lld\n", n, (long long)at); zpl_b32 ok = zpl_file_read_at_check(&x.f, d, n, at, &k); MC_CHECK(k == 0, "reading at %lld counts %d", (long long)at, (int)k); if (at < 0) MC_CHECK(!ok, "reading in front of the beginning succeeds"); break; }
    case 2: { mc_log("seek to %lld\n", (long long)at); zpl_i64 r = zpl_file_seek(&x.f, at), w = at < 0 ? 0 : x.n; MC_CHECK(r == w, "seeking to %lld returns %lld", (long long)at, (long long)r); x.cur = (int)w; break; }
    default: { mc_log("skip by %lld\n", (long long)at); zpl_i64 w = at > 0 ? x.n : at == -1 && x.cur ? x.cur - 1 : 0, r = zpl_file_skip(&x.f, at); MC_CHECK(r == w, "skipping by %lld returns %lld", (long long)at, (long long)r); x.cur = (int)w; break; }
    }
    for (int i = 0; i < 4; i++) MC_CHECK(d[i] == 0xEE, "reading at %lld changed the buffer", (long long)at); mc_trans(1); mc_state(mc_hash_u(mc_hash_u((uint64_t)at, n), x.kind)); check(&x, "after a far access"); finish(&x, -1, 0);
}
/* no descriptors left, or hardly any: an opening that fails says so, one that succeeds works, nothing is lost */
static void s_exhausted(void) {
    int f0 = fds0(), k = mc_choose(5), left = mc_choose(4), n = 0, held[70]; char p[300]; path_of(p, "e"); if (k == 1) unlink(p); else put(p, INIT, 6); struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; lim.rlim_cur = 60; setrlimit(RLIMIT_NOFILE, &lim);
    while (n < 70 && (held[n] = open("/dev/null", O_RDONLY)) >= 0) n++; for (int i = 0; i < left; i++) close(held[--n]);
    zpl_file f; memset(&f, k == 2 ? 0xC3 : 0, sizeof f); streams = 0; zpl_file_contents c = { 0 }; zpl_file_error e = k == 0 ? zpl_file_open(&f, p) : k == 1 ? zpl_file_create(&f, p) : k == 2 ? zpl_file_temp(&f) : ZPL_FILE_ERROR_NONE; zpl_b32 w = 0; char ok[2] = { 0 };
    if (k == 3) { c = zpl_file_read_contents(zpl_heap(), 1, p); e = c.data ? ZPL_FILE_ERROR_NONE : ZPL_FILE_ERROR_UNKNOWN; } if (k == 4) { e = ZPL_FILE_ERROR_NONE; w = zpl_file_write_contents(p, "xyz", 3, &e); MC_CHECK(!w == (e != ZPL_FILE_ERROR_NONE), "writing a file returns %d with error %d", (int)w, (int)e); }
    mc_trans(1); mc_log("%d with %d descriptors left: %d\n", k, left, (int)e); if (!e && k < 3) { unsigned char g[8] = { 0 }; if (k) ok[0] = zpl_file_write(&f, "xyz", 3) && (k == 1 || zpl_file_read_at(&f, g, 3, 0)) && (k == 1 || !memcmp(g, "xyz", 3)); else ok[0] = zpl_file_read(&f, g, 6) && !memcmp(g, INIT, 6); }
    if (k < 3) { zpl_file_error z = zpl_file_close(&f); ok[1] = (z == ZPL_FILE_ERROR_NONE) == (e == ZPL_FILE_ERROR_NONE); } while (n) close(held[--n]); setrlimit(RLIMIT_NOFILE, &old);
    MC_CHECK(left || e != ZPL_FILE_ERROR_NONE, "opening without a descriptor succeeds"); MC_CHECK(left < 3 || e == ZPL_FILE_ERROR_NONE, "opening fails with %d although descriptors are left", (int)e); if (!e && k < 3) MC_CHECK(ok[0], "the file opened does not work"); if (k < 3) MC_CHECK(ok[1], "closing after opening with %d goes wrong", (int)e);
    if (k == 3 && !e) { MC_CHECK(c.size == 6 && !memcmp(c.data, INIT, 6), "other bytes read"); zpl_file_free_contents(&c); } unsigned char g[8]; int m = get(p, g, 8); if (k == 4) MC_CHECK(e ? m == 6 && !memcmp(g, INIT, 6) : m == 3 && !memcmp(g, "xyz", 3), "after writing with %d the file holds %d bytes", (int)e, m); MC_CHECK(fds() == f0 && !streams, "descriptors or streams stay open"); unlink(p);
}
mc_suite mc_suites[] = { { "exhausted", s_exhausted }, { "far_offsets", s_far }, { "disk", s_disk }, { "temporary", s_temp }, { "memory", s_memory }, { "open", s_open }, { "close_twice", s_twice }, { "large", s_large }, { "pipes", s_pipe }, { "standard", s_standard }, { "two_handles", s_two }, { "oom", s_oom }, { 0 } };
