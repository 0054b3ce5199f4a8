/* F03: tar archives: round trips read back by a reference reader, every damage to small archives, names that try to leave the destination */
#include <stdint.h>
#include <sys/types.h>
static int path_ok(const char *p); /* every path the library creates something at; outside the scratch directory nothing is created */
int __real_open(const char *, int, int); int __wrap_open(const char *p, int fl, int m) { if (!path_ok(p)) return -1; return __real_open(p, fl, m); }
int __real_open64(const char *, int, int); int __wrap_open64(const char *p, int fl, int m) { if (!path_ok(p)) return -1; return __real_open64(p, fl, m); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { if (!path_ok(p)) return -1; return __real_mkdir(p, m); }
#include "z.h"
#include <dirent.h>
static volatile int guard; static volatile int escaped; static char esc_path[400], root[300], out[340];
static void norm_path(const char *p, char *o) { /* lexical normal form */
    char t[9000]; if (*p == '/') snprintf(t, sizeof t, "%s", p); else { char c[4096]; if (!getcwd(c, sizeof c)) mc_fail("harness"); snprintf(t, sizeof t, "%s/%s", c, p); }
    char *q = o; *q = 0; for (char *s = strtok(t, "/"); s; s = strtok(NULL, "/")) { if (!strcmp(s, ".")) continue; if (!strcmp(s, "..")) { while (q > o && *--q != '/'); *q = 0; continue; } q += sprintf(q, "/%s", s); }
}
static int inside(const char *n, const char *d) { size_t l = strlen(d); return !strncmp(n, d, l) && (n[l] == '/' || !n[l]); }
static int path_ok(const char *p) { if (!guard) return 1; char n[9000]; norm_path(p, n); if (inside(n, out) || inside(out, n)) { if (!inside(n, out)) { struct stat s; return stat(p, &s) == 0; } return 1; } escaped = 1; snprintf(esc_path, sizeof esc_path, "%s", p); errno = EACCES; return 0; }
static void wipe(const char *d, int depth) { MC_CHECK(inside(d, mc_scratch) && strlen(d) > strlen(mc_scratch) + 1, "harness: wipe"); DIR *h = opendir(d); if (!h) return; struct dirent *e; while ((e = readdir(h))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[8192]; snprintf(p, sizeof p, "%s/%s", d, e->d_name); if (e->d_type == DT_DIR && depth < 60) wipe(p, depth + 1); else unlink(p); } closedir(h); rmdir(d); }
static int files_in(const char *d) { int n = 0; DIR *h = opendir(d); if (!h) return 0; struct dirent *e; while ((e = readdir(h))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; char p[8192]; snprintf(p, sizeof p, "%s/%s", d, e->d_name); if (e->d_type == DT_DIR) n += files_in(p); else n++; } closedir(h); return n; }
static void begin(void) { guard = escaped = 0; close_range(3, 63, 0); sprintf(root, "%s/t%d", mc_scratch, (int)getpid()); if (chdir(mc_scratch)) mc_fail("harness: scratch"); wipe(root, 0); if (mkdir(root, 0755) || chdir(root)) mc_fail("harness: scratch"); sprintf(out, "%s/out", root); }
static int nfd(void) { int n = 0; for (int i = 0; i < 24; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static void end(void) { guard = 0; if (chdir(mc_scratch)) mc_fail("harness"); wipe(root, 0); }
static unsigned char byte_of(int f, int i) { return (unsigned char)(i * 29 + f * 101 + (i >> 8) + 1); }
static int writef(const char *p, int f, int n) { unsigned char *b = malloc(n + 1); for (int i = 0; i < n; i++) b[i] = byte_of(f, i); int fd = __real_open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { free(b); return 0; } int r = write(fd, b, n) == n; close(fd); free(b); return r; }
static int file_is(const char *p, const unsigned char *d, int n) { int fd = __real_open(p, O_RDONLY, 0); if (fd < 0) return 0; unsigned char *b = malloc(n + 8); int r = (int)read(fd, b, n + 8), ok = r == n && !memcmp(b, d, n); close(fd); free(b); return ok; }
/* ------------------------------------------------------------------ reference reader */
typedef struct { char name[101]; int type, off; long long len; int good; } rec;
#define MAXR 1024
static rec R[MAXR]; static int r_short, r_sum /* it stops early, a header is damaged */; static int nr, r_damaged, r_end; /* r_end: a proper end of archive was found */
static long long oct(const unsigned char *p, int n) { int i = 0, d = 0; long long v = 0; while (i < n && p[i] == ' ') i++; for (; i < n && p[i] >= '0' && p[i] <= '7'; i++, d++) v = v * 8 + p[i] - '0'; if (!d || (i < n && p[i] && p[i] != ' ')) return -1; return v; }
static void ref(const unsigned char *a, long n) {
    nr = r_damaged = r_end = r_short = r_sum = 0; long p = 0;
    for (;;) {
        if (p + 512 > n) { r_damaged = r_short = 1; return; } const unsigned char *h = a + p; int zero = 1; for (int i = 0; i < 512; i++) zero &= !h[i]; if (zero) { r_end = 1; return; }
        unsigned s = 0; for (int i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : h[i]; rec *r = &R[nr]; memset(r, 0, sizeof *r); memcpy(r->name, h, 100); r->type = h[156]; r->off = (int)p + 512; r->len = oct(h + 124, 12); r->good = oct(h + 148, 8) == (long long)s; if (!r->good) r_damaged = r_sum = 1;
        if (r->len < 0 || r->len > n - p - 512) { r_damaged = r_short = 1; return; } nr++; if (nr == MAXR) mc_fail("harness: records"); p += 512 + (r->len + 511) / 512 * 512;
    }
}
/* ------------------------------------------------------------------ what unpacking delivers */
static rec G[MAXR]; static int ng, stop_at, meddle; static zpl_file *g_ar;
static ZPL_TAR_UNPACK_PROC(collect) {
    MC_CHECK(archive == g_ar && user_data == &ng, "the callback gets other arguments"); MC_CHECK(ng < MAXR, "more records than the archive can hold"); rec *r = &G[ng++]; memset(r, 0, sizeof *r); MC_CHECK(strlen(file->path) <= 100, "a name of %d characters", (int)strlen(file->path)); strcpy(r->name, file->path); r->type = (unsigned char)file->type; r->off = (int)file->offset; r->len = file->length; r->good = file->error == ZPL_TAR_ERROR_NONE; MC_CHECK(r->good || file->error == ZPL_TAR_ERROR_BAD_CHECKSUM, "a record is delivered with error %d", (int)file->error);
    if (meddle) { char b[700]; if (meddle == 1) zpl_file_read(archive, b, r->len < 700 ? r->len : 700); else if (meddle == 2) zpl_file_seek(archive, 0); else zpl_file_seek_to_end(archive); }
    return ng - 1 == stop_at ? 1 : 0;
}
static zpl_isize unpack(zpl_file *ar) { ng = 0; g_ar = ar; zpl_isize e = zpl_tar_unpack(ar, collect, &ng); mc_trans(1); mc_log("unpack: %d, %d records\n", (int)e, ng); return e; }
static void judge(zpl_isize e, const char *what) { /* against the reference reading R */
    int k = 0; for (int i = 0; i < ng; i++) { if (!G[i].good) continue; while (k < nr && !R[k].good) k++; MC_CHECK(k < nr, "%s: a record %s (%lld bytes) is delivered that the archive does not hold", what, G[i].name, G[i].len); rec *r = &R[k++]; MC_CHECK(!strcmp(G[i].name, r->name) && G[i].off == r->off && G[i].len == r->len && G[i].type == r->type, "%s: record %s at %d+%lld is delivered as %s at %d+%lld", what, r->name, r->off, r->len, G[i].name, G[i].off, G[i].len); }
    int first_bad = 0, got = 0; while (first_bad < nr && R[first_bad].good) first_bad++; for (int i = 0; i < ng; i++) got += G[i].good; MC_CHECK(got >= first_bad, "%s: %d records are delivered, %d intact ones come before the damage", what, got, first_bad);
    MC_CHECK(!r_damaged || e != 0, "%s: a damaged archive is unpacked without an error", what); MC_CHECK(r_damaged || e == 0, "%s: an intact archive gives error %d", what, (int)e); MC_CHECK(e <= 0, "%s: result %d", what, (int)e);
    if (r_damaged) MC_CHECK((r_short && e == -ZPL_TAR_ERROR_IO_ERROR) || (r_sum && e == -ZPL_TAR_ERROR_BAD_CHECKSUM), "%s: an archive that %s%s%s gives error %d", what, r_short ? "stops early" : "", r_short && r_sum ? " and " : "", r_sum ? "has a damaged header" : "", (int)e);
}
static zpl_file mem_archive(const unsigned char *a, long n, unsigned char **copy) { zpl_file f; *copy = malloc(n ? n : 1); memcpy(*copy, a, n); MC_CHECK(zpl_file_stream_open(&f, zpl_heap(), *copy, n, 0), "stream"); return f; }
static void extract_and_compare(zpl_file *ar, const unsigned char *a, int expect_ok) { /* unpack into the directory; only what the archive holds, all of it when intact */
    guard = 1; zpl_isize e = zpl_tar_unpack_dir(ar, out); guard = 0; mc_trans(1); MC_CHECK(!escaped, "unpacking touches %s", esc_path); if (expect_ok) MC_CHECK(e == 0, "unpacking an intact archive into a directory gives %d", (int)e);
    int n = 0; for (int i = 0; i < nr; i++) { if (!R[i].good || R[i].type != '0') continue; char p[600]; snprintf(p, sizeof p, "%s/%s", out, R[i].name); int last = 1; for (int j = i + 1; j < nr; j++) if (R[j].good && R[j].type == '0' && !strcmp(R[j].name, R[i].name)) last = 0; int is = file_is(p, a + R[i].off, (int)R[i].len); if (last && expect_ok) MC_CHECK(is, "%s is missing or differs after unpacking", R[i].name); n += last; }
    int got = files_in(out); MC_CHECK(expect_ok ? got == n : got <= n, "%d files are unpacked, the archive holds %d", got, n); if (r_damaged) MC_CHECK(e != 0, "a damaged archive is unpacked into a directory without an error");
}
/* ------------------------------------------------------------------ round trips */
static const int SZ[] = { 0, 1, 511, 512, 513, 1024, 4095, 4096, 4097, 10000 };
static const char *NM[] = { "a", "elevenchars", "twelve-chars", "sub.dir/x", "..x", "with space and a rather long name that goes on.txt", "deep/er/and/deeper.bin", "L98", "L99", "L100", "tab\there" };
static char NB[8][128];
static const char *name_of(int i, int slot) { const char *n = NM[i]; if (*n == 'L') { int l = atoi(n + 1); memset(NB[slot], 'n', l); NB[slot][0] = (char)('0' + slot); NB[slot][l] = 0; n = NB[slot]; } return n; }
static void make(const char *n, int f, int sz) { char t[200]; strcpy(t, n); for (char *p = t; (p = strchr(p, '/')); p++) { *p = 0; mkdir(t, 0755); *p = '/'; } MC_CHECK(writef(n, f, sz), "harness: %s", n); }
static void s_round(void) {
    begin(); int n = mc_choose(4), disk = mc_choose(2), at = mc_choose(2), f0 = nfd(), bad = 0; const char *p[3]; int sz[3]; for (int i = 0; i < n; i++) { int k = mc_choose(11); p[i] = name_of(k, i); sz[i] = i && (n == 3 || !mc_thorough) ? SZ[(k * 3 + i * 4 + at + disk) % 10] : SZ[mc_choose(10)]; for (int j = 0; j < i; j++) if (!strcmp(p[i], p[j])) sz[i] = sz[j]; make(p[i], (int)strlen(p[i]), sz[i]); if (strlen(p[i]) > 99) bad = 1; }
    zpl_file ar; MC_CHECK(disk ? !zpl_file_create(&ar, "archive.tar") : zpl_file_stream_new(&ar, zpl_heap()), "opening"); if (at) zpl_file_write(&ar, "prefix", 6); zpl_isize e = zpl_tar_pack(&ar, p, n); mc_trans(1); mc_log("packing %d files: %d\n", n, (int)e); MC_CHECK(!e == !bad, "packing %s", e ? "fails" : "succeeds although a name does not fit");
    if (!e) {
        long len = (long)zpl_file_size(&ar); unsigned char *a = malloc(len + 1); zpl_file_read_at(&ar, a, len, 0); int o = at ? 6 : 0; if (o) MC_CHECK(!memcmp(a, "prefix", 6), "packing overwrote what was before"); ref(a + o, len - o); MC_CHECK(r_end && !r_damaged && nr == n, "the archive is not readable: %d records, damaged %d", nr, r_damaged); long want = 1024; for (int i = 0; i < n; i++) want += 512 + (sz[i] + 511) / 512 * 512; MC_CHECK(len - o == want, "the archive has %ld bytes, expected %ld", len - o, want);
        for (int i = 0; i < n; i++) { unsigned char *h = a + o + R[i].off - 512; MC_CHECK(!strcmp(R[i].name, p[i]) && R[i].len == sz[i] && R[i].type == '0', "record %d is %s with %lld bytes, expected %s with %d", i, R[i].name, R[i].len, p[i], sz[i]); MC_CHECK(oct(h + 100, 8) > 0 && !h[107] && !h[135] && !h[147], "malformed mode or times"); struct stat st; stat(p[i], &st); MC_CHECK(oct(h + 136, 12) == (long long)st.st_mtime, "the modification time is %lld, expected %lld", oct(h + 136, 12), (long long)st.st_mtime); for (int j = 0; j < (sz[i] + 511) / 512 * 512; j++) MC_CHECK(h[512 + j] == (j < sz[i] ? byte_of((int)strlen(p[i]), j) : 0), "byte %d of %s is wrong in the archive", j, p[i]); }
        for (int i = 0; i < 1024; i++) MC_CHECK(!a[len - 1 - i], "the end of the archive is not empty"); for (int i = 0; i < nr; i++) R[i].off += o;
        zpl_file rd; if (disk) { zpl_file_close(&ar); MC_CHECK(!zpl_file_open(&rd, "archive.tar"), "opening"); } else rd = ar; stop_at = -1; meddle = n == 3 ? 0 : mc_choose(4); zpl_file_seek(&rd, o); e = unpack(&rd); judge(e, "round trip"); MC_CHECK(ng == n, "%d records are delivered, expected %d", ng, n); for (int i = 0; i < ng; i++) MC_CHECK(G[i].good, "an intact record is delivered with an error");
        if (meddle == 0) { zpl_file_seek(&rd, o); extract_and_compare(&rd, a, 1); } free(a); zpl_file_close(&rd);
    } else zpl_file_close(&ar);
    MC_CHECK(nfd() == f0, "%d descriptors stay open", nfd() - f0); mc_state(mc_hash_u(n, (uint64_t)(n ? sz[0] : 0) * 131 + (n > 1 ? sz[1] : 0))); end();
}
static void s_dir(void) { /* whole directories */
    begin(); int f0 = nfd(), mask = mc_choose(mc_thorough ? 512 : 256); static const char *F[] = { "d/a", "d/b/c", "d/b/e/f", "d/empty/", "d/..hid", "d/.h", "d/b/g h", "d/z/" , "d/b/zero" }; mkdir("d", 0755); int n = 0; for (int i = 0; i < 9; i++) if (mask >> i & 1) { size_t l = strlen(F[i]); if (F[i][l - 1] == '/') { mkdir(F[i], 0755); } else { make(F[i], i, i == 8 ? 0 : 100 * i + 3); n++; } }
    int how = mc_choose(3); zpl_file ar; MC_CHECK(zpl_file_stream_new(&ar, zpl_heap()), "stream"); char abs[400]; sprintf(abs, "%s/d", root); if (how == 2) { zpl_isize e = zpl_tar_pack_dir(&ar, "d/missing", zpl_heap()); MC_CHECK(e != 0, "packing a missing directory succeeds"); zpl_file_close(&ar); MC_CHECK(nfd() == f0, "descriptors stay open"); end(); return; }
    const char *arg = how ? abs : "d"; if (how && strlen(abs) > 80) arg = "./d"; zpl_isize e = zpl_tar_pack_dir(&ar, arg, zpl_heap()); mc_trans(1); MC_CHECK(e == 0, "packing a directory of %d files fails with %d", n, (int)e); long len = (long)zpl_file_size(&ar); unsigned char *a = malloc(len); zpl_file_read_at(&ar, a, len, 0); ref(a, len); MC_CHECK(!r_damaged && nr == n, "the archive holds %d files, expected %d", nr, n);
    for (int i = 0; i < 9; i++) if (mask >> i & 1 && F[i][strlen(F[i]) - 1] != '/') { char w[600]; sprintf(w, "%s%s", arg, F[i] + 1); int k; for (k = 0; k < nr && strcmp(R[k].name, w); k++); MC_CHECK(k < nr, "%s is not in the archive", w); int sz = i == 8 ? 0 : 100 * i + 3; MC_CHECK(R[k].len == sz, "%s has %lld bytes", w, R[k].len); for (int j = 0; j < sz; j++) MC_CHECK(a[R[k].off + j] == byte_of(i, j), "%s has other contents", w); }
    zpl_file_seek(&ar, 0); extract_and_compare(&ar, a, 1); zpl_file_close(&ar); free(a); MC_CHECK(nfd() == f0, "%d descriptors stay open", nfd() - f0); end();
}
static void s_missing(void) { begin(); int f0 = nfd(), k = mc_choose(3), at = mc_choose(3); make("x", 1, 10); mkdir("dd", 0755); const char *p[3] = { "x", "x", "x" }; p[at] = k == 0 ? "nothing" : k == 1 ? "dd" : "x/y"; zpl_file ar; MC_CHECK(zpl_file_stream_new(&ar, zpl_heap()), "stream"); zpl_isize e = zpl_tar_pack(&ar, p, 3); mc_trans(1); MC_CHECK(e < 0, "packing %s succeeds", p[at]); if (k == 0) MC_CHECK(e == -ZPL_TAR_ERROR_FILE_NOT_FOUND, "packing a missing file gives %d", (int)e); zpl_file_close(&ar); MC_CHECK(nfd() == f0, "descriptors stay open"); end(); }
/* ------------------------------------------------------------------ damage */
static unsigned char A[16384]; static long AN;
static void header(const char *name, int nlen, const char *size, int type, int style) { /* a header as other tools write it */
    unsigned char *h = A + AN; memset(h, 0, 512); memcpy(h, name, nlen); strcpy((char *)h + 100, style ? "0000644" : "644"); memcpy(h + 124, size, strlen(size) > 12 ? 12 : strlen(size)); strcpy((char *)h + 136, style ? "14000000000" : "7"); h[156] = (unsigned char)type; if (style == 2) { memcpy(h + 257, "ustar", 6); memcpy(h + 263, "00", 2); strcpy((char *)h + 265, "user"); }
    unsigned s = 0; for (int i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : h[i]; if (style == 0) sprintf((char *)h + 148, "%o", s); else { char t[16]; sprintf(t, "%06o", s); memcpy(h + 148, t, 7); h[155] = ' '; } AN += 512;
}
static void data(int f, int n) { memset(A + AN, 0, (n + 511) / 512 * 512); for (int i = 0; i < n; i++) A[AN + i] = byte_of(f, i); AN += (n + 511) / 512 * 512; }
static void tail(void) { memset(A + AN, 0, 1024); AN += 1024; }
static void sample(int k) { AN = 0; memset(A, 0, sizeof A); switch (k) { case 0: header("a", 1, "5", '0', 0); data(1, 5); header("b/c", 3, "1010", '0', 0); data(2, 520); tail(); break; case 1: header("d/", 2, "00000000000", '5', 2); header("d/x", 3, "00000000003 ", '0', 2); data(3, 3); header("ln", 2, "0", '2', 1); header("e", 1, "00000000000", '0', 1); tail(); break; default: header("one", 3, "777", '0', 1); data(4, 511); tail(); } }
static void run_damaged(const char *what) {
    ref(A, AN); unsigned char *c; zpl_file ar = mem_archive(A, AN, &c); stop_at = -1; meddle = 0; zpl_isize e = unpack(&ar); judge(e, what); zpl_file_seek(&ar, 0); extract_and_compare(&ar, A, !r_damaged); zpl_file_close(&ar); free(c);
}
static void s_cut(void) { begin(); sample(mc_choose(3)); AN = mc_choose((int)AN); run_damaged("truncated"); end(); }
static void s_cut_disk(void) { begin(); sample(mc_choose(3)); AN = mc_choose((int)AN / 64) * 64 + mc_choose(2); ref(A, AN); int fd = __real_open("cut.tar", O_WRONLY | O_CREAT, 0644); if (write(fd, A, AN) != AN) mc_fail("harness"); close(fd); zpl_file ar; MC_CHECK(!zpl_file_open(&ar, "cut.tar"), "open"); stop_at = -1; meddle = 0; judge(unpack(&ar), "truncated file"); zpl_file_seek(&ar, 0); extract_and_compare(&ar, A, !r_damaged); zpl_file_close(&ar); end(); }
static void s_byte(void) { /* every single byte of the headers */
    begin(); int k = mc_choose(3); sample(k); static const unsigned char V[] = { 0, 1, ' ', '/', '0', '1', '7', '8', '9', '-', 'x', 255, 128, '.', '5' }; int hdr[8], n = 0; ref(A, AN); for (int i = 0; i < nr; i++) hdr[n++] = R[i].off - 512; if (n == 0) mc_prune(); hdr[n++] = (int)AN - 1024; int at = hdr[mc_choose(n)] + mc_choose(512); int v = mc_thorough ? mc_choose(256) : V[mc_choose(15)]; if (at % 512 >= 265 && !mc_thorough && v != 1) mc_prune(); if (A[at] == v) mc_prune(); A[at] = (unsigned char)v; run_damaged("one byte changed"); end();
}
static void s_size(void) { /* consistent headers with any size field */
    static const char *S[] = { "77777777777", "777777777777", "-1", "-1000", "", " ", "8", "x", "0x10", "10000000000", "200", "1000", "1001", "777", "000000000017", "           7", "7 7", "\200\1", "40000000000", "37777777777", "+5", "1777777777777777777777", "001" }; begin(); AN = 0; header("s", 1, S[mc_choose(23)], '0', mc_choose(3)); data(5, mc_choose(4) * 511); int second = mc_choose(2); if (second) { header("t", 1, "3", '0', 0); data(6, 3); } if (mc_choose(2)) tail(); run_damaged("any size"); end();
}
static void s_names(void) { /* names that fill their field or try to leave */
    static const char *C[] = { "..", ".", "a", "", "..b", "b.." }; begin(); char n[120] = ""; int lead = mc_choose(2), k = 1 + mc_choose(mc_thorough ? 5 : 4), dots = 0, depth = 0, out_ = 0; if (lead) strcpy(n, "/"); const char *last = ""; for (int i = 0; i < k; i++) { const char *c = C[mc_choose(6)]; if (i) strcat(n, "/"); strcat(n, c); last = c; if (!strcmp(c, "..")) { dots = 1; if (--depth < 0) out_ = 1; } else if (*c && strcmp(c, ".")) depth++; }
    int base = mc_choose(3); AN = 0; header(n, (int)strlen(n), "5", '0', 0); data(1, 5); header("z", 1, "5", '0', 0); data(2, 5); tail(); mc_log("name %s, destination variant %d\n", n, base); unsigned char *c; zpl_file ar = mem_archive(A, AN, &c); mkdir(out, 0755); char dest[400]; if (base == 1) sprintf(dest, "%s/", out); else if (base == 2) { strcpy(dest, ""); if (chdir(out)) mc_fail("harness"); } else strcpy(dest, out);
    guard = 1; zpl_isize e = zpl_tar_unpack_dir(&ar, dest); guard = 0; mc_trans(1); MC_CHECK(!escaped, "unpacking \"%s\" touches %s outside the destination", n, esc_path); (void)out_;
    if (!dots && *last && strcmp(last, ".")) { char p[900]; snprintf(p, sizeof p, "%s/%s", out, n); MC_CHECK(e == 0 && file_is(p, A + 512, 5), "%s is not unpacked (%d)", n, (int)e); } if (e == 0) { char p[900]; snprintf(p, sizeof p, "%s/z", out); MC_CHECK(file_is(p, A + 1536, 5), "the file after %s is not unpacked", n); } zpl_file_close(&ar); free(c); end();
}
static void s_long(void) { /* unterminated names, long destinations */
    begin(); int l = 95 + mc_choose(6), d = mc_choose(5); char n[128]; memset(n, 'q', l); n[l] = 0; if (l > 97) n[50] = '/'; AN = 0; header(n, l, "5", '0', mc_choose(3)); data(1, 5); tail(); ref(A, AN); unsigned char *c; zpl_file ar = mem_archive(A, AN, &c); stop_at = -1; meddle = 0; judge(unpack(&ar), "long name"); zpl_file_seek(&ar, 0);
    if (d == 0) extract_and_compare(&ar, A, 1); else { static const int DL[] = { 0, 3980, 4093, 4095, 6000 }; char *dest = malloc(DL[d] + 400); strcpy(dest, out); while ((int)strlen(dest) < DL[d]) strcat(dest, "/."); guard = 1; zpl_isize e = zpl_tar_unpack_dir(&ar, dest); guard = 0; mc_trans(1); MC_CHECK(!escaped, "touches %s", esc_path); if (e == 0) { char p[600]; snprintf(p, sizeof p, "%s/%s", out, n); MC_CHECK(file_is(p, A + 512, 5), "unpacking into a long destination succeeds without the file"); } free(dest); } zpl_file_close(&ar); free(c); end();
}
static void s_stop(void) { begin(); sample(mc_choose(2)); ref(A, AN); unsigned char *c; zpl_file ar = mem_archive(A, AN, &c); stop_at = mc_choose(4); meddle = mc_choose(4); zpl_isize e = unpack(&ar); if (stop_at < nr) MC_CHECK(e == -ZPL_TAR_ERROR_INTERRUPTED && ng == stop_at + 1, "stopping at record %d gives %d after %d records", stop_at, (int)e, ng); else { judge(e, "all"); MC_CHECK(ng == nr, "records"); } zpl_file_seek(&ar, 0); e = zpl_tar_unpack(&ar, zpl_tar_default_list_file, NULL); MC_CHECK(e == 0, "listing gives %d", (int)e); zpl_file_close(&ar); free(c); end(); }
/* hundreds of files, and files larger than any buffer */
static void s_populous(void) {
    static const int D[] = { 64, 255, 256, 257, 600 }, BIG[] = { 65535, 65536, 65537, 1048576, 1048577, 3000001 }; int many = mc_choose(2), k = mc_choose(many ? 5 : 6), disk = mc_choose(2), n = many ? D[k] : 3; mc_claim(); begin(); int f0 = nfd(); const char **p = malloc(sizeof(char *) * (size_t)n); int *sz = malloc(sizeof(int) * (size_t)n); mkdir("s", 0755); long total = 0;
    for (int i = 0; i < n; i++) { char t[64]; sprintf(t, i & 1 ? "s/file-%d" : "f%d", i); p[i] = strcpy(malloc(strlen(t) + 1), t); sz[i] = many ? SZ[i % 6] : i == 1 ? BIG[k] : 5; total += 512 + (sz[i] + 511) / 512 * 512; MC_CHECK(writef(p[i], i, sz[i]), "harness: %s", p[i]); }
    zpl_file ar; MC_CHECK(disk ? !zpl_file_create(&ar, "archive.tar") : zpl_file_stream_new(&ar, zpl_heap()), "opening"); zpl_isize e = zpl_tar_pack(&ar, p, n); mc_trans(1); MC_CHECK(e == 0, "packing %d files fails with %d", n, (int)e); long len = (long)zpl_file_size(&ar); MC_CHECK(len >= total + 1024, "an archive of %d files has %ld bytes", n, len);
    unsigned char *a = malloc((size_t)len); MC_CHECK(zpl_file_read_at(&ar, a, len, 0), "reading the archive"); ref(a, len); MC_CHECK(r_end && !r_damaged && nr == n, "an archive of %d files holds %d records", n, nr); for (int i = 0; i < n; i++) { MC_CHECK(R[i].good && R[i].type == '0' && !strcmp(R[i].name, p[i]) && R[i].len == sz[i], "record %d is %s with %lld bytes, expected %s with %d", i, R[i].name, R[i].len, p[i], sz[i]); for (int j = 0; j < sz[i]; j++) MC_CHECK(a[R[i].off + j] == byte_of(i, j), "byte %d of file %d differs", j, i); }
    zpl_file_seek(&ar, 0); stop_at = -1; meddle = 0; e = unpack(&ar); judge(e, "round trip"); MC_CHECK(ng == n, "%d of %d files are delivered", ng, n); zpl_file_seek(&ar, 0); extract_and_compare(&ar, a, 1); zpl_file_close(&ar); free(a); for (int i = 0; i < n; i++) free((void *)p[i]); free(p); free(sz); MC_CHECK(nfd() == f0, "%d descriptors stay open", nfd() - f0); mc_state(mc_hash_u((uint64_t)n * 8 + (uint64_t)k, (uint64_t)disk)); end();
}
mc_suite mc_suites[] = { { "populous", s_populous }, { "round_trip", s_round }, { "directory", s_dir }, { "missing", s_missing }, { "truncated", s_cut }, { "truncated_file", s_cut_disk }, { "byte", s_byte }, { "size", s_size }, { "names", s_names }, { "long", s_long }, { "stop", s_stop }, { 0 } };
