/* F02: every system call of every file operation failing, interrupted or transferring less than asked */
#include <stdint.h>
#include <errno.h>
#include <sys/types.h>
/* the calls as the library sees them; state is volatile, the compiler takes them for leaf functions */
static volatile int calls, at1 = -1, at2 = -1, kind1, kind2, armed, hits, chunk; static volatile long moved_r, moved_w;
enum { C_OPEN = 1, C_READ, C_WRITE, C_STAT, C_CLOSE, C_OTHER };
enum { ERR = 0, INTR, SHORT1, HALF, ZERO, NKIND };
static int fault(int cls, int *err) { /* 0 none, else kind + 1 */
    if (!armed) return 0; int k = calls++; int f = k == at1 ? kind1 : k == at2 ? kind2 : -1; if (f < 0) return 0;
    if (f >= SHORT1 && cls != C_READ && cls != C_WRITE) return 0; if (f == ZERO && cls == C_WRITE) return 0; if (f == INTR && cls >= C_STAT) return 0;
    hits++; *err = f == INTR ? EINTR : cls == C_WRITE ? ENOSPC : EIO; return f + 1;
}
#define FD int
#define W_XFER(ret, name, cls, cnt, mv, params, ...) ret __real_##name params; ret __wrap_##name params { int e = 0, f = fault(cls, &e); size_t n0 = cnt; if (armed && chunk && cnt > (size_t)chunk) cnt = chunk; \
    if (f - 1 == ERR || f - 1 == INTR) { errno = e; return -1; } if (f - 1 == ZERO) return 0; if (f - 1 == SHORT1 && cnt > 1) cnt--; if (f - 1 == HALF && cnt > 1) cnt /= 2; (void)n0; ret r = __real_##name(__VA_ARGS__); if (armed && r > 0) mv += r; return r; }
W_XFER(ssize_t, read, C_READ, n, moved_r, (int d, void *b, size_t n), d, b, n)
W_XFER(ssize_t, pread, C_READ, n, moved_r, (int d, void *b, size_t n, off_t o), d, b, n, o)
W_XFER(ssize_t, pread64, C_READ, n, moved_r, (int d, void *b, size_t n, off_t o), d, b, n, o)
W_XFER(ssize_t, write, C_WRITE, n, moved_w, (int d, const void *b, size_t n), d, b, n)
W_XFER(ssize_t, pwrite, C_WRITE, n, moved_w, (int d, const void *b, size_t n, off_t o), d, b, n, o)
W_XFER(ssize_t, pwrite64, C_WRITE, n, moved_w, (int d, const void *b, size_t n, off_t o), d, b, n, o)
W_XFER(ssize_t, sendfile, C_WRITE, n, moved_w, (int d, int s, off_t *o, size_t n), d, s, o, n)
W_XFER(ssize_t, copy_file_range, C_WRITE, n, moved_w, (int s, long *a, int d, long *b, size_t n, unsigned f_), s, a, d, b, n, f_)
#define W_CALL(name, cls, params, ...) int __real_##name params; int __wrap_##name params { int e = 0, f = fault(cls, &e); if (f) { errno = e; return -1; } return __real_##name(__VA_ARGS__); }
W_CALL(open, C_OPEN, (const char *p, int fl, int m), p, fl, m)
W_CALL(open64, C_OPEN, (const char *p, int fl, int m), p, fl, m)
W_CALL(fstat, C_STAT, (int d, void *s), d, s)
W_CALL(ftruncate, C_OTHER, (int d, off_t n), d, n)
W_CALL(link, C_OTHER, (const char *a, const char *b), a, b)
W_CALL(rename, C_OTHER, (const char *a, const char *b), a, b)
W_CALL(unlink, C_OTHER, (const char *a), a)
W_CALL(mkdir, C_OTHER, (const char *a, mode_t m), a, m)
W_CALL(dup, C_OTHER, (int d), d)
static volatile int fault_close; int __real_close(int); int __wrap_close(int d) { if (!armed || !fault_close) return __real_close(d); int e = 0, f = fault(C_CLOSE, &e); int r = __real_close(d); if (f) { errno = EIO; return -1; } return r; }
#define WRAPPED 1
#include "z.h"
static int real_open(const char *p, int fl) { return __real_open(p, fl, 0644); }
static int fds(void) { int n = 0; for (int i = 0; i < 48; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static char dir[300], pa[330], pb[330], pc[330];
static void put(const char *p, const void *d, int n) { int fd = real_open(p, O_WRONLY | O_CREAT | O_TRUNC); if (__real_write(fd, d, n) != n) mc_fail("harness: put"); __real_close(fd); }
static int get(const char *p, char *d, int n) { int fd = real_open(p, O_RDONLY); if (fd < 0) return -1; int r = 0, k; while (r < n && (k = (int)__real_read(fd, d + r, n - r)) > 0) r += k; __real_close(fd); return r; }
static int is(const char *p, const char *d, int n) { char *t = malloc(n + 16); int r = get(p, t, n + 16); int ok = r == n && !memcmp(t, d, n); free(t); return ok; }
static void arm(void) { calls = hits = 0; at1 = at2 = -1; chunk = 0; moved_r = moved_w = 0; fault_close = 0;
    int how = mc_choose(3); if (how == 1) chunk = 1 + 2 * mc_choose(2); else if (how == 2) { at1 = mc_choose(mc_thorough ? 24 : 14); kind1 = mc_choose(NKIND); int two = mc_choose(mc_thorough ? 9 : 3); if (two) { at2 = at1 + two; kind2 = mc_choose(NKIND); } } }
#define GO(stmt) do { armed = 1; stmt; armed = 0; mc_trans(calls); mc_log("fault at call %d kind %d, then %d kind %d, chunk %d: %d calls, %d faults\n", at1, kind1, at2, kind2, chunk, calls, hits); if (at1 >= calls || (at2 >= 0 && at2 >= calls)) skip = 1; } while (0)
static int skip, f0;
static void begin(void) { skip = 0; armed = 0; close_range(3, 63, 0); if (chdir(mc_scratch)) mc_fail("harness: scratch"); f0 = fds(); sprintf(dir, "%s/q%d", mc_scratch, (int)getpid()); mkdir(dir, 0755); sprintf(pa, "%s/a", dir); sprintf(pb, "%s/b", dir); sprintf(pc, "%s/c", dir); __real_unlink(pa); __real_unlink(pb); __real_unlink(pc); }
static void end(void) { MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0); __real_unlink(pa); __real_unlink(pb); __real_unlink(pc); rmdir(dir); if (skip) mc_prune(); }
static int only_reads_eof(void) { return (at1 >= 0 && kind1 == ZERO) || (at2 >= 0 && kind2 == ZERO); } /* a read that returns nothing is the end of the file */
static const char TEN[] = "0123456789";
static char big[9000];
static void s_read(void) {
    begin(); put(pa, TEN, 10); zpl_file f; MC_CHECK(!zpl_file_open(&f, pa), "open"); int how = mc_choose(4), off = mc_choose(2) * 3, n = mc_choose(2) ? 7 : 20, want = 10 - off < n ? 10 - off : n; char g[24]; memset(g, '#', 24); zpl_isize k = -9; zpl_b32 ok; arm(); zpl_file_seek(&f, off);
    GO(ok = how == 0 ? zpl_file_read_at_check(&f, g, n, off, &k) : how == 1 ? zpl_file_read_at(&f, g, n, off) : zpl_file_read(&f, g, n));
    if (how == 0) MC_CHECK(k == moved_r, "%d bytes were transferred, %d are reported (result %d)", (int)moved_r, (int)k, ok); if (how >= 2) MC_CHECK(zpl_file_tell(&f) == off + moved_r, "%d bytes were read, the cursor moved by %d", (int)moved_r, (int)zpl_file_tell(&f) - off);
    if (ok && !only_reads_eof()) MC_CHECK(moved_r == want, "a read of %d bytes succeeds with %d of them", want, (int)moved_r); MC_CHECK(!memcmp(g, TEN + off, moved_r), "wrong bytes"); for (int i = (int)moved_r; i < 24; i++) MC_CHECK(g[i] == '#', "a byte behind the data was touched");
    if (!hits) MC_CHECK(ok, "reading fails without a fault"); zpl_file_close(&f); end();
}
static void s_write(void) {
    begin(); put(pa, TEN, 10); zpl_file f; MC_CHECK(!zpl_file_open_mode(&f, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, pa), "open"); int how = mc_choose(3), cur = mc_choose(2) * 4, off = how == 2 ? cur : mc_choose(3) * 4; zpl_file_seek(&f, cur); zpl_isize k = -9; zpl_b32 ok; arm(); char d[] = "ABCDEFGH";
    GO(ok = how == 0 ? zpl_file_write_at_check(&f, d, 8, off, &k) : how == 1 ? zpl_file_write_at(&f, d, 8, off) : zpl_file_write(&f, d, 8));
    if (how == 0) MC_CHECK(k == moved_w, "%d bytes were transferred, %d are reported (result %d)", (int)moved_w, (int)k, ok); MC_CHECK(!ok == (moved_w != 8), "writing 8 bytes %s with %d of them", ok ? "succeeds" : "fails", (int)moved_w);
    MC_CHECK(zpl_file_tell(&f) == cur + (how == 2 ? moved_w : 0), "%d bytes were written, the cursor moved by %d", (int)moved_w, (int)zpl_file_tell(&f) - cur); char r[32]; memcpy(r, TEN, 10); memcpy(r + off, d, moved_w); int n = off + moved_w > 10 ? off + (int)moved_w : 10; MC_CHECK(is(pa, r, n), "the file holds other bytes");
    if (!hits) MC_CHECK(ok, "writing fails without a fault"); zpl_file_close(&f); end();
}
static void s_load(void) { /* whole-file load */
    begin(); int size = mc_choose(3), n = size == 0 ? 10 : size == 1 ? 1 : 9000, z = mc_choose(2); put(pa, size < 2 ? TEN : big, n); arm(); if (chunk && n > 100) chunk *= 700; zpl_file_contents c; GO(c = zpl_file_read_contents(zpl_heap(), z, pa));
    if (c.data) { int part = only_reads_eof(); MC_CHECK(c.size == n || (part && c.size < n), "%d of %d bytes are loaded", (int)c.size, n); MC_CHECK(!memcmp(c.data, size < 2 ? TEN : big, c.size), "wrong bytes are loaded"); if (z) MC_CHECK(((char *)c.data)[c.size] == 0, "the text is not terminated"); } else { MC_CHECK(c.size == 0, "nothing is loaded but the size is %d", (int)c.size); MC_CHECK(hits || chunk, "loading fails without a fault"); }
    if (!hits) MC_CHECK(c.data, "loading fails although every transfer was merely short"); zpl_file_free_contents(&c); end();
}
static void s_lines(void) {
    begin(); put(pa, "one\ntwo\nthree\n", 14); arm(); char **l = (char **)8; char *c; GO(c = zpl_file_read_lines(zpl_heap(), &l, pa, false));
    if (c) { if (!only_reads_eof()) MC_CHECK(zpl_array_count(l) == 3 && !strcmp(l[0], "one") && !strcmp(l[1], "two") && !strcmp(l[2], "three"), "%d lines are loaded", (int)zpl_array_count(l)); zpl_array_free(l); zpl_free(zpl_heap(), c); } else MC_CHECK(hits, "loading lines fails without a fault"); end();
}
static void s_store(void) {
    begin(); int old = mc_choose(2), big_ = mc_choose(2), n = big_ ? 9000 : 5, e0; if (old) put(pa, TEN, 10); arm(); if (chunk && big_) chunk *= 700; zpl_file_error err = (zpl_file_error)77; zpl_b32 ok; int with = mc_choose(2); GO(ok = zpl_file_write_contents(pa, big, n, with ? &err : NULL));
    if (ok) { MC_CHECK(is(pa, big, n), "storing succeeds but the file holds other bytes"); if (with) MC_CHECK(err == 0, "storing succeeds with error %d", err); } else { if (with) MC_CHECK(err != 0 && err != 77, "storing fails without an error"); MC_CHECK(hits, "storing fails without a fault"); } end();
}
static void s_copy(void) {
    begin(); int old = mc_choose(3), big_ = mc_choose(3), n = big_ == 2 ? 0 : big_ ? 9000 : 5, fail = mc_choose(2); put(pa, big, n); if (old == 1) put(pb, TEN, 10); if (old == 2) put(pb, big + 3, 8990); arm(); if (chunk && big_) chunk *= 700; fault_close = 1; zpl_b32 ok; GO(ok = zpl_fs_copy(pa, pb, fail));
    if (ok) MC_CHECK(is(pb, big, n) && !(old && fail), "copying succeeds but the copy differs"); else MC_CHECK(hits || (old && fail), "copying fails without a fault"); MC_CHECK(is(pa, big, n), "copying changed the original"); if (old && fail) MC_CHECK(old == 1 ? is(pb, TEN, 10) : is(pb, big + 3, 8990), "an existing file was overwritten"); end();
}
static void s_move(void) {
    begin(); int old = mc_choose(2); put(pa, TEN, 10); if (old) put(pb, "x", 1); arm(); zpl_b32 ok; GO(ok = zpl_fs_move(pa, pb)); int a = is(pa, TEN, 10), b = is(pb, TEN, 10);
    if (ok) MC_CHECK(b && access(pa, F_OK), "moving succeeds but the file is not (only) in its new place"); else { MC_CHECK(a, "moving fails and the file is gone"); if (hits < 2) MC_CHECK(!b, "moving fails but the file is in its new place too"); MC_CHECK(hits || old, "moving fails without a fault"); } if (old && !ok) MC_CHECK(is(pb, "x", 1), "an existing file changed"); end();
}
static void s_open(void) { /* opening, temporary files, truncation */
    begin(); int k = mc_choose(4); put(pa, TEN, 10); zpl_file f; memset(&f, 0, sizeof f); f.fd.i = -1; arm(); int e, t = 0; if (k == 3) { MC_CHECK(!zpl_file_open_mode(&f, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, pa), "open"); }
    GO(e = k == 0 ? zpl_file_open(&f, pa) : k == 1 ? zpl_file_create(&f, pb) : k == 2 ? zpl_file_temp(&f) : zpl_file_truncate(&f, 4)); MC_CHECK(!e || hits, "fails with %d without a fault", e);
    if (k == 3) MC_CHECK(is(pa, TEN, e ? 10 : 4), "truncating %s but has the other effect", e ? "fails" : "succeeds"); else if (!e) { zpl_file_write(&f, "z", 1); MC_CHECK(fcntl((int)f.fd.i, F_GETFD) != -1, "an opened file has no descriptor"); } else MC_CHECK(f.fd.i < 0 || k == 2, "a failed open leaves a descriptor behind"); if (!e || k < 2 || k == 3) zpl_file_close(&f); end();
}
static void s_tar(void) { /* archives: complete or reported */
    begin(); put(pa, big, 700); put(pb, TEN, 10); int unpack = mc_choose(2); const char *pp[2] = { pa, pb }; zpl_file ar; MC_CHECK(zpl_file_stream_new(&ar, zpl_heap()), "stream"); zpl_isize e = 0; char cwd[300]; if (!getcwd(cwd, 300)) mc_fail("harness"); if (chdir(dir)) mc_fail("harness"); pp[0] = "a"; pp[1] = "b";
    if (!unpack) { arm(); if (chunk) chunk *= 40; GO(e = zpl_tar_pack(&ar, pp, 2)); MC_CHECK(e == 0 || hits, "packing fails with %d without a fault", (int)e); if (!e) { zpl_isize z; unsigned char *b = zpl_file_stream_buf(&ar, &z); MC_CHECK(z == 512 + 1024 + 512 + 512 + 1024 && !memcmp(b + 512, big, 700) && !memcmp(b + 2048, TEN, 10), "packing succeeds but the archive is incomplete"); } }
    else { MC_CHECK(!zpl_tar_pack(&ar, pp, 2), "packing"); zpl_isize z; unsigned char *b = zpl_file_stream_buf(&ar, &z); char tp[400], od[400]; sprintf(tp, "%s/c", dir); put(tp, b, (int)z); sprintf(od, "%s/o", dir); zpl_file t; MC_CHECK(!zpl_file_open(&t, tp), "open"); arm(); if (chunk) chunk *= 40; at1 = at1 < 0 ? at1 : at1; GO(e = zpl_tar_unpack_dir(&t, od)); zpl_file_close(&t); char oa[420], ob[420]; sprintf(oa, "%s/a", od); sprintf(ob, "%s/b", od); MC_CHECK(e == 0 || hits, "unpacking fails with %d without a fault", (int)e); if (!e) MC_CHECK(is(oa, big, 700) && is(ob, TEN, 10), "unpacking succeeds but the files are incomplete"); __real_unlink(oa); __real_unlink(ob); rmdir(od); }
    if (chdir(cwd)) mc_fail("harness"); zpl_file_close(&ar); end();
}
static void s_oom(void) { /* the memory of whole-file operations */
    begin(); put(pa, "l1\nl2\n", 6); int k = mc_choose(5), at = mc_choose(8); long b = mc_malloc_n; mc_malloc_fail_at = b + at; int ok = 1; zpl_file_contents c = { 0 }; char **l = NULL, *t = NULL; if (k < 2) { c = zpl_file_read_contents(zpl_heap(), k, pa); ok = !!c.data; } else if (k == 2) { t = zpl_file_read_lines(zpl_heap(), &l, pa, 0); ok = !!t; } else if (k == 3) ok = zpl_file_write_contents(pa, TEN, 10, NULL); else ok = zpl_fs_copy(pa, pb, 0); int hit = mc_malloc_n - b > at; mc_malloc_fail_at = -1; mc_trans(1);
    MC_CHECK(ok || hit, "fails although memory was there"); if (k < 2 && ok) MC_CHECK(c.size == 6 && !memcmp(c.data, "l1\nl2\n", 6), "wrong bytes"); if (k == 3 && ok) MC_CHECK(is(pa, TEN, 10), "storing succeeds with other bytes"); if (k < 2) zpl_file_free_contents(&c); if (t) { MC_CHECK(hit || zpl_array_count(l) == 2, "lines"); zpl_array_free(l); zpl_free(zpl_heap(), t); } end();
}
static void pre(void) { for (int i = 0; i < 9000; i++) big[i] = (char)(i * 31 + (i >> 6) + 1); }
#define S(n) static void r_##n(void) { pre(); s_##n(); }
S(read) S(write) S(load) S(lines) S(store) S(copy) S(move) S(open) S(tar) S(oom)
mc_suite mc_suites[] = { { "read", r_read }, { "write", r_write }, { "load", r_load }, { "lines", r_lines }, { "store", r_store }, { "copy", r_copy }, { "move", r_move }, { "open", r_open }, { "tar", r_tar }, { "oom", r_oom }, { 0 } };
