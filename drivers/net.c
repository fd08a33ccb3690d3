/* Replays sessions on the networking module over a simulated kernel and resolver. */
#include "drv.h"
#include <stdarg.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/ioctl.h>

#define NV 64
#define LOW 700
#define HIGH 1030
typedef struct {
    int used, open, fam, type, proto, how, re, rebound, bc, ev, bl, port, nodelay, flags, pend;
    unsigned char ad[128]; size_t nad;
    long long t0; int soerr;
} vf_t;
static vf_t V[NV];
static int nv, first, base = LOW, badclose;
/* environment */
static long plan[32]; static int nplan, iplan;
static int sim, fault_opt, cplan, ff, nget, nset, aintr, aend;
static int gai_sys, nclock; static long c_late;
static int c_first, c_so; static long c_ev[16]; static int c_nev; static long c_fin;   /* schedule of the pending connection */
static long long now = 1000000000LL * 1000000;  /* microseconds */
static int nai;
static u_net_addr_t *A;

static vf_t *vf(int fd) { int i = fd - base; return sim && i >= 0 && i < nv ? &V[i] : NULL; }
static void sim_begin(int b) { memset(V, 0, sizeof V); nv = 0; base = b; sim = 1; badclose = 0; iplan = 0; fault_opt = 0; cplan = -1; nclock = 0; c_late = 0; ff = nget = nset = 0; aintr = aend = 0; }

int __real_close(int); int __real_fcntl(int, int, ...); int __real_ioctl(int, unsigned long, ...);
int __real_socket(int, int, int);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_poll(struct pollfd *, nfds_t, int);
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_listen(int, int);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void __real_freeaddrinfo(struct addrinfo *);

static int mkfd(void)
{
    if (nv >= NV) { errno = EMFILE; return -1; }
    V[nv].used = V[nv].open = 1; V[nv].ev = V[nv].bl = -1; V[nv].flags = O_RDWR | O_APPEND;
    return base + nv++;
}
int __wrap_socket(int d, int t, int p)
{
    int fd;
    if (!sim) return __real_socket(d, t, p);
    if ((fd = mkfd()) == -1) return -1;
    V[nv - 1].fam = d == AF_INET ? 4 : d == AF_INET6 ? 6 : d == AF_UNIX ? 1 : -1;
    V[nv - 1].type = t & 0xf; V[nv - 1].proto = p;
    if (t & SOCK_NONBLOCK) V[nv - 1].flags |= O_NONBLOCK;
    cplan = iplan < nplan ? plan[iplan] : 0; iplan++;
    fault_opt = cplan == 2;
    if (cplan == 1) { V[nv - 1].open = 0; errno = EMFILE; return -1; }
    return fd;
}
int __wrap_close(int fd)
{
    vf_t *v = vf(fd);
    if (!v) return __real_close(fd);
    if (!v->open) { badclose++; errno = EBADF; return -1; }
    v->open = 0; return 0;
}
static void setad(vf_t *v, const struct sockaddr *sa, socklen_t n)
{
    if (sa->sa_family == AF_INET && n >= sizeof(struct sockaddr_in)) {
        const struct sockaddr_in *s = (const void *)sa; memcpy(v->ad, &s->sin_addr, v->nad = 4); v->port = ntohs(s->sin_port);
    } else if (sa->sa_family == AF_INET6 && n >= sizeof(struct sockaddr_in6)) {
        const struct sockaddr_in6 *s = (const void *)sa; memcpy(v->ad, &s->sin6_addr, v->nad = 16); v->port = ntohs(s->sin6_port);
    } else if (sa->sa_family == AF_UNIX && n > 2) {
        const struct sockaddr_un *s = (const void *)sa; v->nad = strnlen(s->sun_path, n - 2); memcpy(v->ad, s->sun_path, v->nad); v->port = 0;
    } else { v->nad = 1; v->ad[0] = 255; v->port = -1; }
}
int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t n)
{
    vf_t *v = vf(fd);
    if (!v) return __real_bind(fd, sa, n);
    if (!v->open) { errno = EBADF; return -1; }
    setad(v, sa, n); v->how = 1; v->rebound = v->re;
    if (cplan == 3) { errno = EADDRINUSE; return -1; }
    return 0;
}
int __wrap_listen(int fd, int n)
{
    vf_t *v = vf(fd);
    if (!v) return __real_listen(fd, n);
    if (!v->open || v->how != 1) { errno = EINVAL; return -1; }
    if (cplan == 4) { errno = EADDRINUSE; return -1; }
    v->bl = n; return 0;
}
static const int SOE[] = {0, ECONNREFUSED, ETIMEDOUT, ECONNRESET, EHOSTUNREACH, ENETUNREACH, ECONNABORTED, EPIPE, EADDRNOTAVAIL};
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t n)
{
    vf_t *v = vf(fd); int nb, a, c;
    if (!v) return __real_connect(fd, sa, n);
    if (!v->open) { errno = EBADF; return -1; }
    if (v->pend) { errno = v->pend == 2 ? EISCONN : EALREADY; return -1; }
    setad(v, sa, n); v->how = 2; nb = !!(v->flags & O_NONBLOCK); v->t0 = now; c = cplan;
    if (c >= 0) {    /* planned by attempt */
        c_nev = 0; c_fin = -1; c_so = 0; c_first = 0;
        switch (c) {
        case 5: c_first = 3; break;
        case 6: if (nb) { c_first = 1; c_fin = 2; } else now += 2000; break;
        case 7: if (nb) c_first = 1; else { errno = ETIMEDOUT; return -1; } break;
        case 8: if (nb) { c_first = 1; c_fin = 2; c_so = 1; } else c_first = 3; break;
        case 9: c_first = 2; c_fin = 1; break;
        case 10: c_first = nb ? 1 : 2; c_ev[c_nev++] = 1; c_fin = 2; c_so = 1; break;
        }
    }
    a = c_first;
    if (a == 0) { v->pend = 2; return 0; }
    if (a == 3) { errno = SOE[c_so ? c_so : 1]; return -1; }
    v->pend = 1; v->soerr = SOE[c_so];
    errno = a == 1 ? EINPROGRESS : EINTR;
    return -1;
}
/* wait until descriptor v can be written: 1 ready, 0 timeout, -1 interrupted; *lim in us or -1, updated to what is left */
static int wait_on(vf_t *v, long long *lim)
{
    long long at = -1; int i, intr = 0;
    if (v->pend == 2) return 1;
    if (c_fin >= 0) at = v->t0 + c_fin * 1000LL;
    for (i = 0; i < c_nev; i++) if (c_ev[i] >= 0 && (at < 0 || v->t0 + c_ev[i] * 1000LL < at)) { at = v->t0 + c_ev[i] * 1000LL; intr = i + 1; break; }
    if (at >= 0 && at < now) at = now;
    if (*lim >= 0 && (at < 0 || at > now + *lim)) { now += *lim; *lim = 0; return 0; }
    if (at < 0) { fprintf(stderr, "driver: waiting for ever\n"); abort(); }
    if (*lim >= 0) *lim -= at - now;
    now = at;
    if (intr) { c_ev[intr - 1] = -1; now += c_late * 1000; return -1; }
    v->pend = 2; return 1;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int i, rc, fd = -1; long long lim = -1;
    for (i = 0; w && i < n && i < FD_SETSIZE; i++) if (FD_ISSET(i, w) && vf(i)) fd = i;
    if (fd < 0 && !sim) return __real_select(n, r, w, e, tv);
    if (fd < 0 || n > FD_SETSIZE) { errno = EINVAL; return -1; }
    if (tv) { if (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EINVAL; return -1; } lim = tv->tv_sec * 1000000LL + tv->tv_usec; }
    if (ff == 7) { errno = ENOMEM; return -1; }
    rc = wait_on(vf(fd), &lim);
    if (tv) { tv->tv_sec = lim / 1000000; tv->tv_usec = lim % 1000000; }
    if (rc == -1) { errno = EINTR; return -1; }
    if (r) FD_ZERO(r);
    if (e) FD_ZERO(e);
    FD_ZERO(w);
    if (rc == 1) FD_SET(fd, w);
    return rc;
}
static int vpoll(struct pollfd *p, nfds_t n, long long lim)
{
    nfds_t i; vf_t *v = NULL; nfds_t k = 0; int rc;
    for (i = 0; i < n; i++) { p[i].revents = 0; if (vf(p[i].fd)) { v = vf(p[i].fd); k = i; } }
    if (!v || !(p[k].events & (POLLOUT | POLLWRNORM))) { errno = EINVAL; return -1; }
    if (ff == 7) { errno = ENOMEM; return -1; }
    rc = wait_on(v, &lim);
    if (rc == -1) errno = EINTR;
    if (rc == 1) p[k].revents = (p[k].events & (POLLOUT | POLLWRNORM)) | (v->soerr ? POLLERR | POLLHUP : 0);
    return rc;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { return sim ? vpoll(p, n, ms < 0 ? -1 : ms * 1000LL) : __real_poll(p, n, ms); }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m) { return vpoll(p, n, t ? t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000 : -1); }
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m)
{
    struct timeval tv;
    if (t) { tv.tv_sec = t->tv_sec; tv.tv_usec = (t->tv_nsec + 999) / 1000; }
    return __wrap_select(n, r, w, e, t ? &tv : NULL);
}
/* 5: the first reading of the clock fails, 6: the others do */
static int noclock(void) { nclock++; if (ff == 5 ? nclock == 1 : ff == 6 && nclock > 1) { errno = EFAULT; return 1; } return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
    if (!sim) return __real_gettimeofday(tv, z);
    if (noclock()) return -1;
    tv->tv_sec = now / 1000000; tv->tv_usec = now % 1000000; return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!sim) return __real_clock_gettime(c, ts);
    if (noclock()) return -1;
    ts->tv_sec = now / 1000000; ts->tv_nsec = now % 1000000 * 1000; return 0;
}
int __wrap_setsockopt(int fd, int l, int o, const void *val, socklen_t n)
{
    vf_t *v = vf(fd); const unsigned char *b = val; socklen_t i;
    if (!v) return __real_setsockopt(fd, l, o, val, n);
    if (!v->open) { errno = EBADF; return -1; }
    if (fault_opt) { errno = ENOPROTOOPT; return -1; }
    if (l == SOL_SOCKET && o == SO_REUSEADDR) v->re = n == sizeof(int) && *(const int *)val;
    else if (l == SOL_SOCKET && o == SO_BROADCAST) v->bc = n == sizeof(int) && *(const int *)val;
    else if (l == IPPROTO_TCP && o == TCP_NODELAY) v->nodelay = n == sizeof(int) && *(const int *)val;
    else if (l == IPPROTO_SCTP && o == SCTP_EVENTS) { for (v->ev = 0, i = 0; i < n; i++) if (b[i]) v->ev |= 1 << (i < 9 ? i : 9); }
    else { errno = ENOPROTOOPT; return -1; }
    return 0;
}
int __wrap_getsockopt(int fd, int l, int o, void *val, socklen_t *n)
{
    vf_t *v = vf(fd);
    if (!v) return __real_getsockopt(fd, l, o, val, n);
    if (ff == 4) { errno = ENOBUFS; return -1; }
    if (l == SOL_SOCKET && o == SO_ERROR && *n >= sizeof(int)) { *(int *)val = v->pend == 2 ? v->soerr : 0; v->soerr = 0; *n = sizeof(int); return 0; }
    errno = ENOPROTOOPT; return -1;
}
static int vfcntl(vf_t *v, int c, long a)
{
    if (!v->open) { errno = EBADF; return -1; }
    if (c == F_GETFL) { if (ff == 1) { errno = EIO; return -1; } return v->flags; }
    if (c == F_SETFL) { nset++; if ((ff == 2 && nset == 1) || (ff == 3 && nset >= 2)) { errno = EIO; return -1; } v->flags = (v->flags & O_ACCMODE) | (a & ~O_ACCMODE); return 0; }
    if (c == F_GETFD || c == F_SETFD) return 0;
    errno = EINVAL; return -1;
}
int __wrap_fcntl(int fd, int c, ...)
{
    va_list ap; long a; va_start(ap, c); a = va_arg(ap, long); va_end(ap);
    return vf(fd) ? vfcntl(vf(fd), c, a) : __real_fcntl(fd, c, a);
}
int __wrap_fcntl64(int fd, int c, ...)
{
    va_list ap; long a; va_start(ap, c); a = va_arg(ap, long); va_end(ap);
    return vf(fd) ? vfcntl(vf(fd), c, a) : __real_fcntl(fd, c, a);
}
int __wrap_ioctl(int fd, unsigned long r, ...)
{
    va_list ap; void *a; vf_t *v = vf(fd); va_start(ap, r); a = va_arg(ap, void *); va_end(ap);
    if (!v) return __real_ioctl(fd, r, a);
    if (r == FIONBIO) { if (*(int *)a) v->flags |= O_NONBLOCK; else v->flags &= ~O_NONBLOCK; return 0; }
    errno = EINVAL; return -1;
}
int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *n)
{
    vf_t *v = vf(fd);
    static const int E[] = {0, ECONNABORTED, EAGAIN, EMFILE};
    if (!v) return __real_accept(fd, sa, n);
    if (aintr > 0) { aintr--; errno = EINTR; return -1; }
    if (aend) { errno = E[aend]; return -1; }
    if (sa && n) *n = 0;
    return mkfd();
}
/* the resolver: numeric addresses, two names and three services */
static int ga(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **o)
{
    struct addrinfo x = *hi;
    if (h && hi->ai_family == AF_INET && strchr(h, ':')) return EAI_NONAME;      /* not even those which stand for IPv4 addresses */
    if (h) x.ai_flags |= AI_NUMERICHOST;
    x.ai_flags |= AI_NUMERICSERV;
    return __real_getaddrinfo(h, s, &x, o);
}
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **o)
{
    static const char *one[] = {"192.0.2.7", NULL}, *multi[] = {"10.0.0.1", "10.0.0.2", "10.0.0.3", NULL}, *one6[] = {"2001:db8::7", NULL}, *multi6[] = {"fd00::1", "fd00::2", NULL};
    const char **l = NULL; int rc; struct addrinfo **t = o; struct addrinfo z;
    if (gai_sys) { errno = EMFILE; return EAI_SYSTEM; }
    if (!hi) { memset(&z, 0, sizeof z); hi = &z; }
    if (s) s = !strcmp(s, "http") ? "80" : !strcmp(s, "smtp") ? "25" : !strcmp(s, "alt") ? "8080" : s;
    if (h && !strcmp(h, "one")) l = hi->ai_family == AF_INET6 ? one6 : one;
    if (h && !strcmp(h, "multi")) l = hi->ai_family == AF_INET6 ? multi6 : multi;
    if (!l) rc = ga(h, s, hi, o);
    else {
        for (rc = 0; *l && !rc; l++) { rc = ga(*l, s, hi, t); if (!rc) { while (*t) t = &(*t)->ai_next; } }
    }
    if (!rc) nai++;
    return rc;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { if (a) { nai--; __real_freeaddrinfo(a); } }

void session_begin(void) { drv_mem_install(); }
static void attempts(void)
{
    int i, op = 0;
    static const char *H[] = {"none", "bind", "connect"};
    r_open("at", '[');
    for (i = 0; i < nv; i++) {
        vf_t *v = &V[i];
        op += v->open;
        r_open(NULL, '{');
        r_int("fam", v->fam); r_int("type", v->type); r_int("proto", v->proto); r_str("how", H[v->how]);
        r_bytes("ad", v->ad, v->nad); r_int("port", v->port); r_bool("re", v->how == 1 ? v->rebound : v->re); r_bool("bc", v->bc); r_int("ev", v->ev); r_int("bl", v->bl);
        r_close('}');
    }
    r_close(']');
    r_int("open", op - 100 * badclose);
}
static struct timeval *tmo(long ms, struct timeval *tv)
{
    if (ms < 0) return NULL;
    tv->tv_sec = ms / 1000; tv->tv_usec = ms % 1000 * 1000; return tv;
}
static void getplan(arg_t *a) { int i; nplan = 0; for (i = 0; i < a->nv && i < 32; i++) plan[nplan++] = a->v[i]; }
/* descriptors may be any, 0 included */
static int lowest(void) { long n = 0; int i; for (i = 0; i < nplan; i++) n += plan[i]; return n % 3 == 0 ? 0 : LOW; }
static void fin(int fd)
{
    attempts();
    r_bool("nb", vf(fd) ? !!(vf(fd)->flags & O_NONBLOCK) : 0);
    if (vf(fd)) V[fd - base].open = 0;
}
static char *sockaddr(arg_t *af, arg_t *b, arg_t *port, socklen_t *n)
{
    struct sockaddr_in *s4; struct sockaddr_in6 *s6; struct sockaddr_un *su; struct sockaddr *s;
    switch (af->i) {
    case 4: s4 = calloc(1, sizeof *s4); s4->sin_family = AF_INET; memcpy(&s4->sin_addr, b->b, 4); s4->sin_port = htons(port->i); *n = sizeof *s4; return (char *)s4;
    case 6: s6 = calloc(1, sizeof *s6); s6->sin6_family = AF_INET6; memcpy(&s6->sin6_addr, b->b, 16); s6->sin6_port = htons(port->i); *n = sizeof *s6; return (char *)s6;
    case 1: su = calloc(1, sizeof *su); su->sun_family = AF_UNIX; memcpy(su->sun_path, b->b, b->n > sizeof su->sun_path ? sizeof su->sun_path : b->n); *n = sizeof *su; return (char *)su;
    default: s = calloc(1, sizeof *s); s->sa_family = AF_UNSPEC; *n = sizeof *s; return (char *)s;
    }
}
void run_op(const char *op, int ac, arg_t *av)
{
    struct timeval tv; int rc, i; long live; int ai;
    sim = 0;
    if (!strcmp(op, "new")) {
        if (A) u_net_addr_free(A);
        A = NULL; r_int("left", drv_live + nai); drv_live = 0; nai = 0;
    } else if (!strcmp(op, "addr")) {
        if (A) u_net_addr_free(A);
        A = NULL; live = drv_live; ai = nai;
        if (av[2].i > 0) drv_fail_at = drv_nalloc + av[2].i;
        gai_sys = av[2].i < 0;
        rc = u_net_uri2addr((char *)av[0].b, av[1].i, &A);
        drv_fail_at = gai_sys = 0;
        if (rc) A = NULL;
        r_int("rc", rc ? -1 : 0); r_int("left", rc ? drv_live - live + nai - ai : 0);
    } else if (!strcmp(op, "opts")) {
        if (A) (av[0].i ? u_net_addr_add_opts : u_net_addr_set_opts)(A, av[1].i);
        r_int("rc", 0);
    } else if (!strcmp(op, "canacc")) r_int("rc", u_net_addr_can_accept(A));
    else if (!strcmp(op, "mk")) {
        int fd;
        getplan(&av[0]); sim_begin(lowest()); live = drv_live; ai = nai;
        fd = av[1].i < 0 && nplan % 2 ? u_net_sd_by_addr(A) : u_net_sd_by_addr_ex(A, tmo(av[1].i, &tv));
        r_int("rc", vf(fd) ? 0 : fd == -1 ? -1 : fd); fin(fd); r_int("left", drv_live - live + nai - ai);
    } else if (!strcmp(op, "sd")) {
        int fd;
        getplan(&av[3]); sim_begin(lowest()); live = drv_live; ai = nai;
        fd = av[4].i < 0 && nplan % 2 ? u_net_sd((char *)av[0].b, av[1].i, av[2].i) : u_net_sd_ex((char *)av[0].b, av[1].i, av[2].i, tmo(av[4].i, &tv));
        r_int("rc", vf(fd) ? 0 : fd == -1 ? -1 : fd); fin(fd); r_int("left", drv_live - live + nai - ai);
    } else if (!strcmp(op, "conn")) {   /* tmo first ev fin so hi nb0 ff late tu */
        int fd; long long t0; struct sockaddr_in sa; struct timeval *lim;
        memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET;
        sim_begin(av[5].i ? HIGH : LOW); fd = mkfd(); if (av[6].i) V[0].flags |= O_NONBLOCK;
        cplan = -1; c_first = av[1].i; c_nev = 0; for (i = 0; i < av[2].nv && i < 16; i++) c_ev[c_nev++] = av[2].v[i];
        c_fin = av[3].i; c_so = av[4].i; ff = av[7].i; c_late = av[8].i; t0 = now;
        lim = tmo(av[0].i, &tv); if (lim) lim->tv_usec += av[9].i;
        rc = av[0].i < 0 && c_nev % 2 ? u_connect(fd, (struct sockaddr *)&sa, sizeof sa) : u_connect_ex(fd, (struct sockaddr *)&sa, sizeof sa, lim);
        r_int("rc", rc); r_int("el", (now - t0 + 999) / 1000);
        r_bool("nb", !!(V[0].flags & O_NONBLOCK)); r_bool("keep", (V[0].flags & ~O_NONBLOCK) == (O_RDWR | O_APPEND) && V[0].open && nv == 1);
    } else if (!strcmp(op, "acc")) {
        struct sockaddr_storage ss; socklen_t n = sizeof ss; int fd, e;
        sim_begin(LOW); fd = mkfd(); aintr = av[0].i; aend = av[1].i; errno = 0;
        rc = u_accept(fd, (struct sockaddr *)&ss, &n); e = errno;
        r_int("rc", vf(rc) && rc != fd ? 0 : rc == -1 ? -1 : -9);
        r_int("err", rc != -1 ? 0 : e == ECONNABORTED ? 1 : e == EAGAIN ? 2 : e == EMFILE ? 3 : -e);
    } else if (!strcmp(op, "nb")) {     /* nb0 on ff */
        int fd;
        sim_begin(LOW); fd = mkfd(); if (av[0].i) V[0].flags |= O_NONBLOCK;
        ff = av[2].i;
        rc = av[1].i ? u_net_set_nonblocking(fd) : u_net_unset_nonblocking(fd);
        r_int("rc", rc ? -1 : 0); r_bool("nb", !!(V[0].flags & O_NONBLOCK)); r_bool("keep", (V[0].flags & ~O_NONBLOCK) == (O_RDWR | O_APPEND) && V[0].open);
    } else if (!strcmp(op, "nagle")) {
        int fd;
        sim_begin(LOW); fd = mkfd(); fault_opt = av[1].i;
        rc = u_net_nagle_off(av[0].i ? -1 : fd);
        r_int("rc", rc ? -1 : 0); r_bool("off", V[0].nodelay);
    } else if (!strcmp(op, "ntop")) {   /* af b len */
        char *d = malloc(av[2].i ? av[2].i : 1), *src = malloc(16); const char *t;
        memset(d, 'Z', av[2].i ? av[2].i : 1); memset(src, 0, 16); memcpy(src, av[1].b, av[1].n < 16 ? av[1].n : 16);
        t = u_inet_ntop(av[0].i == 4 ? AF_INET : av[0].i == 6 ? AF_INET6 : AF_UNIX, src, d, av[2].i);
        if (t && t != d) r_str("t", "elsewhere"); else r_cstr("t", t);
        free(d); free(src);
    } else if (!strcmp(op, "sa")) {     /* af b port len */
        socklen_t n; char *sa = sockaddr(&av[0], &av[1], &av[2], &n), *d = malloc(av[3].i ? av[3].i : 1);
        memset(d, 'Z', av[3].i ? av[3].i : 1);
        r_cstr("t", u_sa_ntop((struct sockaddr *)sa, d, av[3].i));
        free(d); free(sa);
    }
    sim = 0;
}
