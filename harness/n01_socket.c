/* N01 - sockets over the loopback network: every sequence of operations, every failing system call */
#include <stdint.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netdb.h>
static volatile int armed, calls, at = -1, err, hits, hitcls, live_ai, cut;   /* volatile: the wrapped functions are declared leaf */
enum { C_ADDR = 1, C_SOCKET, C_OPT, C_BIND, C_MODE, C_CONNECT, C_IO };
static int fault(int cls) { if (!armed) return 0; if (calls++ != at) return 0; hits++; hitcls = cls; return 1; }
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **); int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r) { if (fault(C_ADDR)) return EAI_MEMORY; int e = __real_getaddrinfo(h, s, i, r); if (armed && !e) live_ai++; return e; }
void __real_freeaddrinfo(struct addrinfo *); void __wrap_freeaddrinfo(struct addrinfo *a) { if (armed) live_ai--; __real_freeaddrinfo(a); }
#define W_CALL(ret, name, cls, params, ...) ret __real_##name params; ret __wrap_##name params { if (fault(cls)) { errno = err; return -1; } return __real_##name(__VA_ARGS__); }
W_CALL(int, socket, C_SOCKET, (int a, int b, int c), a, b, c)
W_CALL(int, setsockopt, C_OPT, (int a, int b, int c, const void *d, socklen_t e), a, b, c, d, e)
W_CALL(int, bind, C_BIND, (int a, const void *b, socklen_t c), a, b, c)
W_CALL(int, listen, C_IO, (int a, int b), a, b)
W_CALL(int, fcntl, C_MODE, (int a, int b, long c), a, b, c)
W_CALL(int, fcntl64, C_MODE, (int a, int b, long c), a, b, c)
W_CALL(int, ioctl, C_MODE, (int a, unsigned long b, long c), a, b, c)
W_CALL(int, getsockname, C_IO, (int a, void *b, socklen_t *c), a, b, c)
W_CALL(int, accept, C_IO, (int a, void *b, socklen_t *c), a, b, c)
W_CALL(int, accept4, C_IO, (int a, void *b, socklen_t *c, int f), a, b, c, f)
W_CALL(ssize_t, recv, C_IO, (int a, void *b, size_t n, int f), a, b, n, f)
W_CALL(ssize_t, recvfrom, C_IO, (int a, void *b, size_t n, int f, void *x, socklen_t *y), a, b, n, f, x, y)
W_CALL(int, select, C_IO, (int n, void *a, void *b, void *c, void *d), n, a, b, c, d)
W_CALL(int, poll, C_IO, (void *a, unsigned long n, int t), a, n, t)
#define W_SEND(name, params, ...) ssize_t __real_##name params; ssize_t __wrap_##name params { if (fault(C_IO)) { if (!cut) { errno = err; return -1; } if (n > (size_t)cut) n = (size_t)cut; } return __real_##name(__VA_ARGS__); }
W_SEND(send, (int a, const void *b, size_t n, int f), a, b, n, f)
W_SEND(sendto, (int a, const void *b, size_t n, int f, const void *x, socklen_t y), a, b, n, f, x, y)
int __real_connect(int, const void *, socklen_t); int __wrap_connect(int a, const void *b, socklen_t c) { if (fault(C_CONNECT)) { if (err == EINPROGRESS) __real_connect(a, b, c); errno = err; return -1; } return __real_connect(a, b, c); }
#include "z.h"
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
static int fds(void) { int n = 0; for (int i = 0; i < 64; i++) n += __real_fcntl(i, F_GETFD, 0) != -1; return n; }
static int f0; static struct sockaddr_storage SA; static socklen_t SL;
static int port_of(int s) { SL = sizeof SA; if (getsockname(s, (void *)&SA, &SL)) mc_fail("harness: getsockname"); return ntohs(SA.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&SA)->sin6_port : ((struct sockaddr_in *)&SA)->sin_port); }
static void begin(void) { armed = 0; at = -1; cut = 0; hits = 0; close_range(3, 1700, 0); f0 = fds(); }
static void hard_close(int s) { if (s < 0) return; struct linger l = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); zpl_socket_close(s); }   /* no TIME_WAIT left behind */
static char svc[16]; static char *P(int port) { sprintf(svc, "%d", port); return svc; }
static const char *HOST[] = { "127.0.0.1", "::1" };
static int mk(int proto, int mode, int fl, const char *h, int port) { int s = zpl_socket_create(proto, mode, (char)fl, h, P(port)); MC_CHECK(s >= 0, "creating a %s socket to %s %s port %d fails: errno %d", proto ? "UDP" : "TCP", mode ? "connect to" : "bind to", h, port, errno); mc_trans(1); return s; }
static int have6(void) { static int v = -1; if (v < 0) { int s = __real_socket(AF_INET6, SOCK_DGRAM, 0); struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; v = s >= 0 && !__real_bind(s, &a, sizeof a); if (s >= 0) close(s); } return v; }
static int fam_host(void) { int k = (int)mc_choose(2); if (k && !have6()) mc_prune(); return k; }
static void check_addr(int s, const zpl_socket_addr *a, int peer, const char *what) { struct sockaddr_storage w; socklen_t l = sizeof w; memset(&w, 0, sizeof w); if (peer ? getpeername(s, (void *)&w, &l) : __real_getsockname(s, (void *)&w, &l)) mc_fail("harness: address"); const struct sockaddr *g = (const void *)a; MC_CHECK(g->sa_family == w.ss_family, "%s: address family %d, not %d", what, g->sa_family, w.ss_family);
    if (g->sa_family == AF_INET) MC_CHECK(((struct sockaddr_in *)g)->sin_port == ((struct sockaddr_in *)&w)->sin_port && ((struct sockaddr_in *)g)->sin_addr.s_addr == ((struct sockaddr_in *)&w)->sin_addr.s_addr, "%s: port %d instead of %d", what, ntohs(((struct sockaddr_in *)g)->sin_port), ntohs(((struct sockaddr_in *)&w)->sin_port));
    else MC_CHECK(((struct sockaddr_in6 *)g)->sin6_port == ((struct sockaddr_in6 *)&w)->sin6_port && !memcmp(&((struct sockaddr_in6 *)g)->sin6_addr, &((struct sockaddr_in6 *)&w)->sin6_addr, 16), "%s: port %d instead of %d", what, ntohs(((struct sockaddr_in6 *)g)->sin6_port), ntohs(((struct sockaddr_in6 *)&w)->sin6_port)); }
static void s_create(void) {
    begin(); int fam = fam_host(), proto = (int)mc_choose(2), mode = (int)mc_choose(2), fl = (int)mc_choose(4), nohost = mode == 0 ? (int)mc_choose(2) : 0; at = (int)mc_choose(9) - 1; err = at >= 0 ? ((int[]){ EACCES, ENOMEM, ECONNREFUSED, EINPROGRESS })[mc_choose(4)] : 0;
    int target = -1, port = 0; if (mode) { target = mk(proto, 0, 0, HOST[fam], 0); if (!proto) MC_CHECK(!zpl_socket_listen(target, 4), "listen"); port = port_of(target); } int before = fds(); const char *h = nohost ? NULL : HOST[fam]; calls = hits = live_ai = 0; hitcls = 0; P(port); armed = 1; int s = zpl_socket_create(proto, mode, (char)fl, h, svc); armed = 0; mc_trans((uint64_t)calls); int n = calls; if (at >= n) { hard_close(s); hard_close(target); mc_prune(); }
    mc_log("%s %s %s flags %d: call %d of %d fails (kind %d, errno %d): %d\n", proto ? "udp" : "tcp", mode ? "connect" : "bind", h ? h : "any", fl, at, n, hitcls, err, s); MC_CHECK(live_ai == 0, "%d address lists stay allocated", live_ai);
    int progress = hitcls == C_CONNECT && err == EINPROGRESS && (fl & ZPL_SOCKET_NON_BLOCKING); if (hits && hitcls != C_OPT && !progress) MC_CHECK(s == -1, "step %d failed (kind %d), but %d is returned", at, hitcls, s); if (s == -1) { MC_CHECK(hits, "fails although every step succeeded"); MC_CHECK(fds() == before, "creation failed and left %d descriptors open", fds() - before); }
    else { MC_CHECK(fds() == before + 1, "a socket of %d descriptors", fds() - before); int v = 0; socklen_t l = sizeof v; getsockopt(s, SOL_SOCKET, SO_TYPE, &v, &l); MC_CHECK(v == (proto ? SOCK_DGRAM : SOCK_STREAM), "socket type %d", v); v = __real_fcntl(s, F_GETFL, 0); MC_CHECK(!!(v & O_NONBLOCK) == !!(fl & ZPL_SOCKET_NON_BLOCKING), "non-blocking mode %d, asked for %d", !!(v & O_NONBLOCK), fl & 1); if (!proto && !hits) { l = sizeof v; v = -1; getsockopt(s, IPPROTO_TCP, TCP_NODELAY, &v, &l); MC_CHECK(!!v == !!(fl & ZPL_SOCKET_NO_DELAY), "no delay %d, asked for %d", v, fl & 2); }
        int p = port_of(s); MC_CHECK(p > 0, "the socket is not bound"); if (h) MC_CHECK(SA.ss_family == (fam ? AF_INET6 : AF_INET), "family %d", SA.ss_family); zpl_socket_addr a; memset(&a, 0x55, sizeof a); int e = zpl_socket_get_address(s, &a); MC_CHECK(!e, "the address of a socket cannot be read: %d errno %d", e, errno); check_addr(s, &a, 0, "own address"); if (mode && !progress) { struct sockaddr_storage q; l = sizeof q; MC_CHECK(!getpeername(s, (void *)&q, &l), "not connected"); MC_CHECK(ntohs(fam ? ((struct sockaddr_in6 *)&q)->sin6_port : ((struct sockaddr_in *)&q)->sin_port) == port, "connected to another port"); }
        hard_close(s); MC_CHECK(fds() == before, "closing leaves the descriptor open"); }
    hard_close(target); mc_state(mc_hash_u((uint64_t)(s < 0), (uint64_t)(n * 1000 + at * 10 + hitcls)));
}
static void s_real_failures(void) { /* failures that need no help: a port in use, nobody listening, names that do not exist */
    begin(); int fam = fam_host(), kind = (int)mc_choose(5), fl = (int)mc_choose(4), proto = kind == 1 ? 0 : (int)mc_choose(2); int t = -1, s; if (kind == 0) { t = mk(proto, 0, 0, HOST[fam], 0); if (!proto) zpl_socket_listen(t, 1); } if (kind == 1) { t = mk(0, 0, 0, HOST[fam], 0); } int port = t >= 0 ? port_of(t) : 0; if (kind == 1) { zpl_socket_close(t); t = -1; } int before = fds(); live_ai = 0; P(port); armed = 1;
    s = kind == 0 ? zpl_socket_create(proto, 0, (char)fl, HOST[fam], svc) : kind == 1 ? zpl_socket_create(0, 1, (char)fl, HOST[fam], svc) : kind == 2 ? zpl_socket_create(proto, 1, (char)fl, HOST[fam], "no-such-service") : kind == 3 ? zpl_socket_create(proto, 1, (char)fl, NULL, NULL) : zpl_socket_create(proto, 0, (char)fl, HOST[fam], "99999x"); armed = 0; mc_trans(1); mc_log("kind %d flags %d: %d\n", kind, fl, s);
    if (!(kind == 1 && (fl & 1))) MC_CHECK(s == -1, "%s succeeds", ((const char *[]){ "binding a port that is in use", "connecting to a port nobody listens on", "connecting to an unknown service", "connecting nowhere", "binding an unknown service" })[kind]); MC_CHECK(live_ai == 0, "%d address lists stay allocated", live_ai); MC_CHECK(fds() == before + (s >= 0), "%d descriptors stay open", fds() - before); hard_close(s); hard_close(t);
}
/* ---- streams ---- */
static char sent[2][65536]; static int nsent[2], nread_[2]; static char buf[20000];
static void s_stream(void) {
    begin(); int fam = fam_host(), fl = (int)mc_choose(2) * ZPL_SOCKET_NO_DELAY; int L = mk(0, 0, 0, HOST[fam], 0); MC_CHECK(!zpl_socket_listen(L, 3), "listen"); int S[2]; S[0] = mk(0, 1, fl, HOST[fam], port_of(L)); zpl_socket_addr a; memset(&a, 0x55, sizeof a); S[1] = zpl_socket_accept(L, &a); MC_CHECK(S[1] >= 0, "accept fails"); check_addr(S[0], &a, 0, "the accepted peer's address"); int open_[2] = { 1, 1 }, dirty[2] = { 0, 0 }; nsent[0] = nsent[1] = nread_[0] = nread_[1] = 0; unsigned char ctr = 1;
    int depth = mc_thorough ? 5 : 4; for (int k = 0; k < depth; k++) { int op = (int)mc_choose(13), x = op & 1; if (op == 12) break; int y = !x, kind = op >> 1; if (!open_[x]) mc_prune(); mc_trans(1);
        if (kind < 2) { int n = ((int[]){ 5, 6000 })[kind]; for (int i = 0; i < n; i++) buf[i] = (char)(ctr++ * 7 + i); int r = zpl_socket_send(S[x], buf, n); mc_log("side %d sends %d: %d\n", x, n, r); if (open_[y] && !dirty[x]) { MC_CHECK(r == n, "sending %d bytes on an open connection returns %d", n, r); memcpy(sent[x] + nsent[x], buf, (size_t)r); nsent[x] += r; } else { MC_CHECK(r == n || r == -1, "sending %d bytes to a closed peer returns %d", n, r); dirty[x] = 1; } }
        else if (kind < 5) { int n = ((int[]){ 1, 7, 16384 })[kind - 2], have = nsent[y] - nread_[y]; memset(buf, '#', sizeof buf); if (have || !open_[y]) { int w = zpl_socket_select(S[x], 5.0); MC_CHECK(w == 1, "select on a socket with %d bytes waiting%s returns %d", have, open_[y] ? "" : " and a closed peer", w); } else { int w = zpl_socket_select(S[x], 0); MC_CHECK(w == 0, "select on an idle connection returns %d", w); __real_fcntl(S[x], F_SETFL, O_NONBLOCK); }
            int r = zpl_socket_receive(S[x], buf, n); if (!have && open_[y]) __real_fcntl(S[x], F_SETFL, 0); mc_log("side %d receives up to %d: %d (waiting %d)\n", x, n, r, have); if (dirty[x] || (!open_[y] && dirty[y] == 2)) { MC_CHECK(r >= -1 && r <= have, "%d bytes received, %d are waiting", r, have); if (r <= 0) { dirty[x] = 1; nread_[y] = nsent[y]; continue; } } if (have) MC_CHECK(r >= 1 && r <= n && r <= have, "receiving up to %d of %d waiting bytes returns %d", n, have, r); else MC_CHECK(r == (open_[y] ? -1 : 0), "receiving from an %s connection returns %d", open_[y] ? "idle" : "orderly closed", r);
            if (r > 0) { MC_CHECK(!memcmp(buf, sent[y] + nread_[y], (size_t)r), "the bytes received are not the bytes sent"); nread_[y] += r; } for (int i = r < 0 ? 0 : r; i < (int)sizeof buf; i++) if (buf[i] != '#') mc_fail("a byte behind the data was touched"); }
        else { dirty[x] = nsent[y] > nread_[y] ? 2 : 0; zpl_socket_close(S[x]); open_[x] = 0; mc_log("side %d closes%s\n", x, dirty[x] ? " with data unread" : ""); if (!open_[y]) break; }
        mc_state(mc_hash_u((uint64_t)nsent[0] << 20 | (uint64_t)nread_[0], (uint64_t)nsent[1] << 40 | (uint64_t)nread_[1] << 8 | (uint64_t)(open_[0] * 8 + open_[1] * 4 + dirty[0] + dirty[1]))); }
    for (int i = 0; i < 2; i++) if (open_[i]) hard_close(S[i]); hard_close(L); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
/* everything that was sent arrives even when it needs many receives, both directions at once */
static void s_bulk(void) {
    begin(); int fam = fam_host(), nb = (int)mc_choose(2), total = ((int[]){ 60000, 65536, 20001 })[mc_choose(3)], rd = ((int[]){ 1, 999, 4096, 16384 })[mc_choose(4)], wr = ((int[]){ 1, 1500, 20000 })[mc_choose(3)]; if ((rd == 1) + (wr == 1) == 2) mc_prune(); int L = mk(0, 0, 0, HOST[fam], 0); zpl_socket_listen(L, 3); int c = mk(0, 1, nb, HOST[fam], port_of(L)), d = zpl_socket_accept(L, NULL); MC_CHECK(d >= 0, "accept without asking for the address fails"); for (int i = 0; i < total; i++) sent[0][i] = (char)(i * 31 + i / 251); int w = 0, r = 0;
    while (r < total) { if (w < total) { int n = total - w < wr ? total - w : wr; int k = zpl_socket_send(c, sent[0] + w, n); if (k == -1) MC_CHECK(nb && (errno == EAGAIN || errno == EWOULDBLOCK), "send fails with errno %d", errno); else { MC_CHECK(k >= 1 && k <= n, "send of %d returns %d", n, k); w += k; } mc_trans(1); } if (w - r >= 8000 || w == total) { int s = zpl_socket_select(d, 5.0); MC_CHECK(s == 1, "select returns %d with %d bytes on the way", s, w - r); int k = zpl_socket_receive(d, buf, rd); MC_CHECK(k >= 1 && k <= rd && k <= w - r, "receive returns %d", k); MC_CHECK(!memcmp(buf, sent[0] + r, (size_t)k), "byte %d and following are not what was sent", r); r += k; mc_trans(1); } mc_beat(); }
    zpl_socket_close(c); MC_CHECK(zpl_socket_select(d, 5.0) == 1 && zpl_socket_receive(d, buf, 10) == 0, "the end of the stream is not reported"); hard_close(d); hard_close(L); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
static void s_pipe(void) { /* a peer that went away never kills the process */
    begin(); int fam = fam_host(), to = (int)mc_choose(2); int L = mk(0, 0, 0, HOST[fam], 0); zpl_socket_listen(L, 3); int c = mk(0, 1, 0, HOST[fam], port_of(L)), d = zpl_socket_accept(L, NULL); hard_close(d); int r = 0, fails = 0; for (int i = 0; i < 5; i++) { if (to) { zpl_socket_addr a; memset(&a, 0, sizeof a); struct sockaddr *p = (void *)&a; p->sa_family = fam ? AF_INET6 : AF_INET; r = zpl_socket_send_to(c, &a, "x", 1); } else r = zpl_socket_send(c, "x", 1); mc_trans(1); MC_CHECK(r == 1 || r == -1, "sending to a peer that is gone returns %d", r); fails += r == -1; usleep(1000); } MC_CHECK(fails, "sending to a peer that is gone keeps succeeding"); hard_close(c); hard_close(L);
}
/* ---- accepting ---- */
static void s_accept(void) {
    begin(); int fam = fam_host(), n = 1 + (int)mc_choose(3), nb = (int)mc_choose(2), null = (int)mc_choose(2); int L = mk(0, 0, nb, HOST[fam], 0), c[3], d[3], used[3] = { 0 }; MC_CHECK(!zpl_socket_listen(L, 5), "listen"); int port = port_of(L); if (nb) { MC_CHECK(zpl_socket_accept(L, NULL) == -1, "accepting without a connection"); MC_CHECK(zpl_socket_select(L, 0) == 0, "select on an idle listening socket"); }
    for (int i = 0; i < n; i++) { c[i] = mk(0, 1, 0, HOST[fam], port); char b = (char)('A' + i); MC_CHECK(zpl_socket_send(c[i], &b, 1) == 1, "send"); } for (int i = 0; i < n; i++) { MC_CHECK(zpl_socket_select(L, 5.0) == 1, "select on a listening socket with a connection waiting"); zpl_socket_addr a[2]; memset(a, 0x55, sizeof a); d[i] = zpl_socket_accept(L, null ? NULL : a); MC_CHECK(d[i] >= 0, "accept fails"); for (int q = 0; q < 128; q++) MC_CHECK(a[1].data[q] == 0x55, "accept writes past the address"); MC_CHECK(zpl_socket_select(d[i], 5.0) == 1, "no data"); char b; MC_CHECK(zpl_socket_receive(d[i], &b, 1) == 1 && b >= 'A' && b < 'A' + n && !used[b - 'A'], "received '%c'", b); used[b - 'A'] = 1; if (!null) check_addr(c[b - 'A'], a, 0, "the accepted peer's address"); zpl_socket_addr o; MC_CHECK(!zpl_socket_get_address(d[i], &o), "get_address"); check_addr(c[b - 'A'], &o, 1, "the local address of an accepted connection"); mc_trans(4); }
    if (nb) MC_CHECK(zpl_socket_accept(L, NULL) == -1, "accepting one connection too many"); for (int i = 0; i < n; i++) { hard_close(c[i]); hard_close(d[i]); } hard_close(L); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
static void s_info(void) { /* address to text: exact buffer sizes, either buffer missing */
    begin(); int fam = fam_host(), hs = (int)mc_choose(5), ss = (int)mc_choose(5); if (fam && hs) mc_prune();   /* looking up the name of ::1 may ask a name server */
    int u = mk(1, 0, 0, HOST[fam], 0), port = port_of(u); zpl_socket_addr a; memset(&a, 0x55, sizeof a); MC_CHECK(!zpl_socket_get_address(u, &a), "get_address fails with errno %d", errno); int hn = ((int[]){ 0, 1, 5, 16, 1025 })[hs], sn = ((int[]){ 0, 1, 3, 8, 32 })[ss]; char *h = hn ? malloc((size_t)hn) : NULL, *s = sn ? malloc((size_t)sn) : NULL; int e = zpl_socket_get_address_info(&a, h, hn, s, sn); mc_trans(1); mc_log("host %d service %d: %d %s %s\n", hn, sn, e, !e && h ? h : "-", !e && s ? s : "-");
    if ((hn == 0 || hn >= 1025) && (sn == 0 || sn == 32) && hn + sn > 0) MC_CHECK(!e, "the text of an address is refused with %d", e);
    if (!e) { if (h) { MC_CHECK(memchr(h, 0, (size_t)hn), "host is not terminated"); struct addrinfo *r = NULL, q; memset(&q, 0, sizeof q); q.ai_socktype = SOCK_DGRAM; q.ai_family = fam ? AF_INET6 : AF_INET; MC_CHECK(!getaddrinfo(h, NULL, &q, &r) && r, "host '%s' is not known", h); int ok = 0; for (struct addrinfo *x = r; x; x = x->ai_next) ok |= ((struct sockaddr_in *)x->ai_addr)->sin_addr.s_addr == htonl(INADDR_LOOPBACK); MC_CHECK(ok, "host '%s' is another one", h); freeaddrinfo(r); }
        if (s) { MC_CHECK(memchr(s, 0, (size_t)sn), "service is not terminated"); struct addrinfo *r = NULL, q; memset(&q, 0, sizeof q); q.ai_socktype = SOCK_DGRAM; q.ai_family = AF_INET; int g = getaddrinfo("127.0.0.1", s, &q, &r); if (g == EAI_SERVICE) { q.ai_socktype = SOCK_STREAM; g = getaddrinfo("127.0.0.1", s, &q, &r); } MC_CHECK(!g && r && ntohs(((struct sockaddr_in *)r->ai_addr)->sin_port) == port, "service '%s' is not port %d", s, port); freeaddrinfo(r); } }
    free(h); free(s); zpl_socket_close(u); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
/* ---- datagrams: two bound sockets and a connected one ---- */
typedef struct { int n, from; unsigned char seed; } dg;
static void s_dgram(void) {
    begin(); int fam = fam_host(), nb = (int)mc_choose(2) * ZPL_SOCKET_NON_BLOCKING, S[3]; zpl_socket_addr A[3]; S[0] = mk(1, 0, nb, HOST[fam], 0); S[1] = mk(1, 0, nb, HOST[fam], 0); S[2] = mk(1, 1, nb, HOST[fam], port_of(S[0])); for (int i = 0; i < 3; i++) { memset(&A[i], 0x55, sizeof A[i]); MC_CHECK(!zpl_socket_get_address(S[i], &A[i]), "get_address"); check_addr(S[i], &A[i], 0, "own address"); }
    static dg q[3][8]; int nq[3] = { 0 }, hd[3] = { 0 }; unsigned char ctr = 3; static const int FROM[] = { 0, 1, 0, 2, 0 }, TO[] = { 1, 0, 0, 0, 2 }; int depth = mc_thorough ? 4 : 3;
    for (int k = 0; k < depth; k++) { int op = (int)mc_choose(24); mc_trans(1); if (op < 15) { int i = FROM[op / 3], j = TO[op / 3], n = ((int[]){ 0, 9, 2000 })[op % 3]; dg *d = &q[j][nq[j]++]; d->n = n; d->from = i; d->seed = ctr++; for (int b = 0; b < n; b++) buf[b] = (char)(d->seed * 37 + b); int r = i == 2 ? zpl_socket_send(S[2], buf, n) : zpl_socket_send_to(S[i], &A[j], buf, n); mc_log("%d sends %d bytes to %d: %d\n", i, n, j, r); MC_CHECK(r == n, "sending %d bytes returns %d, errno %d", n, r, errno); }
        else { int j = (op - 15) / 3, how = (op - 15) % 3, n = how == 0 ? 4 : 4096, have = nq[j] - hd[j]; int w = zpl_socket_select(S[j], have ? 5.0 : 0.0); MC_CHECK(w == (have > 0), "select returns %d with %d datagrams waiting", w, have); if (!have && !nb) continue; memset(buf, '#', sizeof buf); zpl_socket_addr a[2]; memset(a, 0x55, sizeof a); int r = how == 2 && j == 2 ? zpl_socket_receive(S[j], buf, n) : zpl_socket_receive_from(S[j], how == 2 ? NULL : a, buf, n); mc_log("%d receives up to %d%s: %d\n", j, n, how == 2 ? " (no address)" : "", r);
            if (!have) { MC_CHECK(r == -1, "receiving without a datagram returns %d", r); continue; } dg *d = &q[j][hd[j]++]; int e = d->n < n ? d->n : n; MC_CHECK(r == e, "receiving up to %d bytes of a datagram of %d bytes returns %d, errno %d", n, d->n, r, errno); for (int b = 0; b < e; b++) if (buf[b] != (char)(d->seed * 37 + b)) mc_fail("byte %d of the datagram is not what was sent", b); for (int b = e; b < 4200; b++) if (buf[b] != '#') mc_fail("a byte behind the data was touched"); if (how != 2) check_addr(S[d->from], &a[0], 0, "the sender's address"); for (int b = 0; b < 128; b++) MC_CHECK(a[1].data[b] == 0x55, "writes past the address"); }
        mc_state(mc_hash_u(mc_hash(0, nq, sizeof nq), mc_hash(1, hd, sizeof hd))); }
    for (int i = 0; i < 3; i++) zpl_socket_close(S[i]); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
static double mono(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static void s_select(void) {
    begin(); int S[4], list[4], data = (int)mc_choose(8), n = (int)mc_choose(4), big = (int)mc_choose(2); for (int i = 0; i < 3; i++) S[i] = mk(1, 0, 0, "127.0.0.1", 0); if (big) { int d = dup2(S[2], 900); if (d < 0) mc_prune(); zpl_socket_close(S[2]); S[2] = 900; } S[3] = -1; zpl_socket_addr a; for (int i = 0; i < 3; i++) if (data >> i & 1) { MC_CHECK(!zpl_socket_get_address(S[i], &a), "get_address"); MC_CHECK(zpl_socket_send_to(S[(i + 1) % 3], &a, "hello", 5) == 5, "send_to fails with errno %d", errno); }
    int ready = 0, seen = 0; for (int i = 0; i < n; i++) { int k = (int)mc_choose(4); list[i] = S[k]; if (k < 3 && !(seen >> k & 1)) { seen |= 1 << k; ready += data >> k & 1; } } double tm = ((double[]){ 0, 0.004, 1.0 })[mc_choose(3)]; if (tm == 1.0 && !ready) mc_prune(); double t0 = mono(); int r = zpl_socket_multi_select(list, n, tm); double dt = mono() - t0; mc_trans(1); MC_CHECK(ready ? r >= 1 && r <= ready : r == 0, "selecting %d sockets of which %d have data returns %d", n, ready, r); if (!ready) MC_CHECK(dt >= tm * 0.99, "returned after %.4f s of %.4f s", dt, tm);
    for (int i = 0; i < 4; i++) { t0 = mono(); r = zpl_socket_select(S[i], tm == 1.0 ? 0.25 * (data >> i & 1) : tm); dt = mono() - t0; MC_CHECK(r == (i < 3 && data >> i & 1), "select on socket %d returns %d", i, r); if (!r && tm < 1) MC_CHECK(dt >= tm * 0.99, "returned after %.4f s of %.4f s", dt, tm); mc_trans(1); } for (int i = 0; i < 3; i++) zpl_socket_close(S[i]); MC_CHECK(zpl_socket_select(S[1], 0) == -1, "select on a closed socket succeeds"); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
static void s_select_high(void) { /* descriptors that no longer fit a descriptor set */
    begin(); int fd = ((int[]){ 1023, 1024, 1025, 1088, 1600 })[mc_choose(5)], multi = (int)mc_choose(2), data = (int)mc_choose(2); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); if (rl.rlim_cur <= 1700) { rl.rlim_cur = rl.rlim_max < 4096 ? rl.rlim_max : 4096; setrlimit(RLIMIT_NOFILE, &rl); } int u = mk(1, 0, 0, "127.0.0.1", 0); if (dup2(u, fd) < 0) mc_prune(); zpl_socket_close(u); zpl_socket_addr a; MC_CHECK(!zpl_socket_get_address(fd, &a), "get_address"); if (data) MC_CHECK(zpl_socket_send_to(fd, &a, "x", 1) == 1, "send_to"); zpl_socket l[2] = { -1, fd }; int r = multi ? zpl_socket_multi_select(l, 2, 0) : zpl_socket_select(fd, 0); mc_trans(1); if (fd < 1024) MC_CHECK(r == data, "select on descriptor %d returns %d", fd, r); else MC_CHECK(r == data || r == -1, "select on descriptor %d returns %d", fd, r); zpl_socket_close(fd); zpl_socket_close(fd == 1023 ? -1 : -1);
}
/* ---- every input or output call failing, every short send ---- */
static void s_io(void) {
    begin(); int op = (int)mc_choose(9); err = ((int[]){ EIO, EINTR, EAGAIN })[mc_choose(3)]; int shortn = op < 2 ? (int)mc_choose(4) : 0; int at_ = (int)mc_choose(3) - 1; int L = mk(0, 0, 0, "127.0.0.1", 0); zpl_socket_listen(L, 3); int c = mk(0, 1, 0, "127.0.0.1", port_of(L)), d = op == 4 ? -1 : zpl_socket_accept(L, NULL), u = mk(1, 0, 0, "127.0.0.1", 0); zpl_socket_addr a, b; zpl_socket_get_address(u, &a); if (op == 2) zpl_socket_send(d, "12345678", 8); if (op == 3 || op == 7 || op == 8) zpl_socket_send_to(u, &a, "12345678", 8); if (op == 2) zpl_socket_select(c, 5.0);
    cut = shortn; at = at_; calls = hits = 0; armed = 1; int r, nd = fds(); zpl_socket l[1] = { u };
    switch (op) { case 0: r = zpl_socket_send(c, "12345678", 8); break; case 1: r = zpl_socket_send_to(u, &a, "12345678", 8); break; case 2: r = zpl_socket_receive(c, buf, 8); break; case 3: r = zpl_socket_receive_from(u, &b, buf, 8); break; case 4: r = zpl_socket_accept(L, &b); break; case 5: r = zpl_socket_get_address(c, &b); break; case 6: r = zpl_socket_listen(L, 3); break; case 7: r = zpl_socket_select(u, 0.01); break; default: r = zpl_socket_multi_select(l, 1, 0.01); }
    armed = 0; mc_trans((uint64_t)calls); mc_log("operation %d, call %d of %d fails with %d, short %d: %d\n", op, at_, calls, err, shortn, r); if (at_ >= calls) { for (int i = 3; i < 64; i++) close(i); mc_prune(); }
    if (op < 2) { int got = 0; int s = op ? u : d; if (r > 0) { MC_CHECK(zpl_socket_select(s, 5.0) == 1, "%d bytes reported as sent, nothing arrives", r); got = op ? zpl_socket_receive_from(s, NULL, buf, 100) : zpl_socket_receive(s, buf, 100); MC_CHECK(got == r && !memcmp(buf, "12345678", (size_t)r), "%d bytes reported as sent, %d arrive", r, got); } MC_CHECK(zpl_socket_select(s, 0) == 0, "more bytes arrive than were reported as sent"); if (!hits) MC_CHECK(r == 8, "%d of 8 bytes are sent", r); else if (!cut && err != EINTR) MC_CHECK(r == -1, "sending fails with errno %d, %d is returned", err, r); }
    else if (hits && err != EINTR) { if (op == 5 || op == 6) MC_CHECK(r != 0, "a failure is reported as success"); else MC_CHECK(r == -1, "a failure is reported as %d", r); if (op == 4) MC_CHECK(fds() == nd, "descriptors stay open"); } else if (!hits) MC_CHECK(op == 2 || op == 3 ? r == 8 : op == 4 ? r >= 0 : op <= 6 ? r == 0 : r == 1, "operation %d returns %d", op, r);
    if (op == 4) hard_close(r); hard_close(c); hard_close(d); hard_close(L); zpl_socket_close(u); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
static void s_init(void) { begin(); for (int i = 0; i < 3; i++) { MC_CHECK(zpl_socket_init() == 0, "init"); int u = mk((int)mc_choose(2), 0, 0, NULL, 0); zpl_socket_close(u); zpl_socket_terminate(); } MC_CHECK(fds() == f0, "descriptors stay open"); }
static void s_dual(void) { /* a socket bound to all IPv6 addresses serves both families, and answers reach the sender */
    if (!have6()) mc_prune(); begin(); int proto = (int)mc_choose(2), fam = (int)mc_choose(2), fl = (int)mc_choose(2), n = 1 + (int)mc_choose(3); int L = mk(proto, 0, 0, "::", 0); if (!proto) MC_CHECK(!zpl_socket_listen(L, 4), "listen"); int port = port_of(L); MC_CHECK(SA.ss_family == AF_INET6, "family %d", SA.ss_family); int c[3];
    for (int i = 0; i < n; i++) { mc_trans(4); c[i] = mk(proto, 1, fl, HOST[(fam + i) & 1], port); char m[8], g[9]; sprintf(m, "query%d", i); if (proto || fl) zpl_socket_select(L, proto ? 0 : 5.0);
        if (!proto) { int d = zpl_socket_accept(L, NULL); MC_CHECK(d >= 0, "accept"); MC_CHECK(zpl_socket_send(c[i], m, 6) == 6 && zpl_socket_select(d, 5.0) == 1 && zpl_socket_receive(d, g, 9) == 6 && !memcmp(g, m, 6), "a connection from %s", HOST[(fam + i) & 1]); MC_CHECK(zpl_socket_send(d, "reply", 5) == 5 && zpl_socket_select(c[i], 5.0) == 1 && zpl_socket_receive(c[i], g, 9) == 5 && !memcmp(g, "reply", 5), "the answer to %s", HOST[(fam + i) & 1]); hard_close(d); }
        else { zpl_socket_addr a; memset(&a, 0, sizeof a); MC_CHECK(zpl_socket_send(c[i], m, 6) == 6 && zpl_socket_select(L, 5.0) == 1 && zpl_socket_receive_from(L, &a, g, 9) == 6 && !memcmp(g, m, 6), "a datagram from %s does not arrive", HOST[(fam + i) & 1]); MC_CHECK(zpl_socket_send_to(L, &a, "reply", 5) == 5 && zpl_socket_select(c[i], 5.0) == 1 && zpl_socket_receive(c[i], g, 9) == 5 && !memcmp(g, "reply", 5), "the answer to %s does not arrive", HOST[(fam + i) & 1]); } }
    for (int i = 0; i < n; i++) hard_close(c[i]); hard_close(L); MC_CHECK(fds() == f0, "%d descriptors stay open", fds() - f0);
}
mc_suite mc_suites[] = { { "dual", s_dual }, { "init", s_init }, { "create", s_create }, { "real_failures", s_real_failures }, { "stream", s_stream }, { "bulk", s_bulk }, { "gone_peer", s_pipe }, { "accept", s_accept }, { "address_text", s_info }, { "datagrams", s_dgram }, { "select", s_select }, { "high_descriptors", s_select_high }, { "io_faults", s_io }, { 0 } };
