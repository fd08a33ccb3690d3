#include "drv.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <inttypes.h>
#include <wchar.h>
void session_begin(void) { static int once; if (!once++) drv_mem_install(); }

/* ---- scripted transfers ---- */
static long *sc; static int scn, sci; static unsigned char *src, *sink; static size_t srcoff, sinkn, cap; static int on;
static ssize_t step(void *p, size_t n, int rd) {
    long k = sci < scn ? sc[sci++] : (long) n;
    if (k == -1) { errno = EINTR; return -1; }
    if (k < 0) { errno = k == -2 ? EIO : k == -3 ? EAGAIN : EPIPE; return -1; }
    if (k == 0) return 0;
    if ((size_t) k > n) k = (long) n;
    if (rd) { memcpy(p, src + srcoff, k); srcoff += k; }
    else { if (sinkn + k > cap) k = cap - sinkn; memcpy(sink + sinkn, p, k); sinkn += k; }
    return k;
}
static ssize_t f_read(int fd, void *p, size_t n) { (void) fd; return step(p, n, 1); }
static ssize_t f_write(int fd, void *p, size_t n) { (void) fd; return step(p, n, 0); }
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); unsigned __real_sleep(unsigned);
ssize_t __wrap_read(int fd, void *p, size_t n) { if (on && fd == 777) return step(p, n, 1); return __real_read(fd, p, n); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { if (on && fd == 777) return step((void *) p, n, 0); return __real_write(fd, p, n); }
static unsigned naps[64]; static int nnap;
unsigned __wrap_sleep(unsigned n) { long k = sci < scn ? sc[sci++] : 0; if (nnap < 64) naps[nnap++] = n; if (k > 0) errno = EINTR; return (unsigned) k; }
static int fds(void) { int i, n = 0; for (i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
static const char *path(const char *where) {
    static char b[4096];
    snprintf(b, sizeof b, "%s/%s", getenv("DRV_DIR"), !strcmp(where, "file") ? "f" : "nodir/f");
    if (!strcmp(where, "dir")) snprintf(b, sizeof b, "%s", getenv("DRV_DIR"));
    if (!strcmp(where, "null")) strcpy(b, "/dev/null"); if (!strcmp(where, "zero")) strcpy(b, "/dev/zero"); if (!strcmp(where, "full")) strcpy(b, "/dev/full");
    return b;
}
static int pr(int which, char *buf, size_t n, char sep, const char *k, const char *t, int v) {
#define P(...) (which ? u_path_snprintf(buf, n, sep, __VA_ARGS__) : u_snprintf(buf, n, __VA_ARGS__))
    return !strcmp(k, "s") ? P("%s", t) : !strcmp(k, "d") ? P("%d", v) : !strcmp(k, "sd") ? P("<%s|%d>", t, v) : !strcmp(k, "pad") ? P("%*s", v, t) :
        !strcmp(k, "lit") ? P("%%a") : !strcmp(k, "empty") ? P("%s", "") : P("%lc", (wint_t) 0x7fffffff);
}
static void r_txt(const char *k, const char *fmt, ...) { char b[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); r_cstr(k, b); }

void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0, l0 = drv_live; size_t i, n; char *t = ac ? (char *) a[0].b : NULL;
    if (!strcmp(op, "strtok")) {
        char **tv = NULL; size_t ne = 77;
        rc = u_strtok(t, (char *) a[1].b, &tv, &ne);
        r_int("rc", rc ? -1 : 0); r_int("n", (long) ne); r_open("tv", '[');
        if (!rc) for (i = 0; i < ne; i++) r_cstr(NULL, tv[i]);
        r_close(']'); if (!rc) u_strtok_cleanup(tv, ne); r_int("live", drv_live - l0);
    } else if (!strcmp(op, "tokenize")) {
        n = (size_t) a[2].i; char **tv = malloc((n ? n : 1) * sizeof *tv);
        for (i = 0; i < n; i++) tv[i] = (char *) 1;
        rc = u_tokenize(t, (char *) a[1].b, tv, n);
        r_int("rc", rc ? -1 : 0); r_open("tv", '['); if (!rc) for (i = 0; i < n && tv[i]; i++) r_cstr(NULL, tv[i]); r_close(']'); free(tv);
    } else if (!strcmp(op, "trim")) { u_trim(t); r_cstr("s", t); }
    else if (!strcmp(op, "lcpy") || !strcmp(op, "lcat")) {
        int cat = op[2] == 'a'; n = (size_t) a[cat ? 2 : 1].i; char *d = malloc(n ? n : 1);
        memset(d, 'Q', n ? n : 1);
        if (cat) { size_t m = a[0].n < n ? a[0].n + 1 : n; memcpy(d, a[0].b, m); }
        rc = cat ? u_strlcat(d, (char *) a[1].b, n) : u_strlcpy(d, t, n);
        r_int("rc", rc ? -1 : 0);
        if (n == 0 || !memchr(d, 0, n)) r_cstr("s", NULL); else r_cstr("s", d);
        free(d);
    } else if (!strcmp(op, "printf")) {
        n = (size_t) a[0].i; char *d = malloc(n ? n : 1); memset(d, 'Q', n ? n : 1);
        rc = pr(0, d, n, 0, a[1].s, (char *) a[2].b, (int) a[3].i);
        r_int("rc", rc ? -1 : 0);
        if (strcmp(a[1].s, "bad")) { if (n == 0 || !memchr(d, 0, n)) r_cstr("s", NULL); else r_cstr("s", d); }
        free(d);
    } else if (!strcmp(op, "path")) {
        n = (size_t) a[0].i; char *d = malloc(n ? n : 1); memset(d, 'Q', n ? n : 1);
        rc = pr(1, d, n, (char) a[4].i, a[1].s, (char *) a[2].b, (int) a[3].i);
        r_int("rc", rc ? -1 : 0); if (!rc) r_cstr("s", memchr(d, 0, n) ? d : NULL); free(d);
    } else if (!strcmp(op, "strndup") || !strcmp(op, "strdup")) {
        char *c = op[3] == 'n' ? u_strndup(t, (size_t) a[1].i) : u_strdup(t);
        if (c) memset(t, 'Z', a[0].n);
        r_cstr("s", c); u_free(c); r_int("live", drv_live - l0);
    } else if (!strcmp(op, "memdup")) {
        char *c = u_memdup(a[0].b, a[0].n); memset(a[0].b, 'Z', a[0].n); if (c) r_bytes("s", c, a[0].n); else r_cstr("s", NULL); u_free(c); r_int("live", drv_live - l0);
    } else if (!strcmp(op, "sstrncpy")) {
        n = (size_t) a[1].i; char *d = malloc(n + 1); memset(d, 'Q', n + 1);
        if (u_sstrncpy(d, t, n) != d) r_int("ret", 1); r_cstr("s", memchr(d, 0, n + 1) ? d : NULL); free(d);
    } else if (!strcmp(op, "chr")) { r_bool("blank", u_isblank((int) a[0].i)); r_bool("nl", u_isnl((int) a[0].i)); }
    else if (!strcmp(op, "blankstr")) r_bool("v", u_isblank_str(t));
    else if (!strcmp(op, "isbin")) r_bool("v", u_data_is_bin(t, (size_t) a[1].i));
    else if (!strcmp(op, "atol") || !strcmp(op, "atoi") || !strcmp(op, "atoumax") || !strcmp(op, "atof")) {
        int e = (int) a[1].i, e2; union { long l; int i[2]; uintmax_t u; double d; unsigned char b[8]; } v, w;
        memset(&v, 0x5a, sizeof v); w = v;
        errno = e;
        rc = !strcmp(op, "atol") ? u_atol(t, &v.l) : !strcmp(op, "atoi") ? u_atoi(t, v.i) : op[3] == 'u' ? u_atoumax(t, &v.u) : u_atof(t, &v.d);
        e2 = errno;
        r_int("rc", rc ? -1 : 0);
        if (rc) r_cstr("v", memcmp(&v, &w, sizeof v) ? "touched" : NULL);
        else if (!strcmp(op, "atol")) r_txt("v", "%ld", v.l); else if (!strcmp(op, "atoi")) r_txt("v", v.i[1] == w.i[1] ? "%d" : "over", v.i[0]);
        else if (op[3] == 'u') r_txt("v", "%ju", v.u); else r_txt("v", "%.14e", v.d);
        r_int("errno", e2);
    } else if (!strcmp(op, "io") || !strcmp(op, "read") || !strcmp(op, "write")) {
        size_t l = (size_t) a[1].i; int rd = a[0].s[0] == 'r', eof = -7; ssize_t nn = -7; unsigned char *buf = malloc(l ? l : 1), *data = malloc(l ? l : 1);
        for (i = 0; i < l; i++) data[i] = (unsigned char) (((i + 1) * 7 + l) % 251);
        sc = a[2].v; scn = a[2].nv; sci = 0; src = data; srcoff = 0; sinkn = 0; cap = l; sink = malloc(l ? l : 1);
        memset(sink, 'S', l ? l : 1);
        if (rd) memset(buf, 'B', l ? l : 1); else memcpy(buf, data, l);
        on = 1;
        if (!strcmp(op, "io")) rc = u_io(rd ? f_read : f_write, 777, buf, l, a[3].i ? &nn : NULL, a[4].i ? &eof : NULL) ? -1 : 0;
        else rc = rd ? u_read(777, buf, l) : u_write(777, buf, l);
        on = 0;
        r_int("rc", rc); if (!strcmp(op, "io")) { r_int("n", nn); r_int("eof", eof); }
        if (rd) { for (i = srcoff; i < l; i++) if (buf[i] != 'B') r_int("overrun", (long) i); r_bytes("moved", buf, srcoff); } else r_bytes("moved", sink, sinkn);
        free(buf); free(data); free(sink);
    } else if (!strcmp(op, "sleep") || !strcmp(op, "longsleep")) {
        unsigned long s = strtoul(a[0].s, NULL, 10);
        sc = ac > 1 ? a[1].v : NULL; scn = ac > 1 ? a[1].nv : 0; sci = 0; nnap = 0;
        r_int("rc", u_sleep((unsigned) s));
        r_open("naps", '['); for (i = 0; i < (size_t) nnap; i++) { char b[16]; snprintf(b, sizeof b, "%u", naps[i]); if (op[0] == 's') r_int(NULL, (long) naps[i]); else r_str(NULL, b); } r_close(']');
    } else if (!strcmp(op, "load")) {
        char *b = (char *) 0x11; size_t sz = 99; int f0; const char *w = a[0].s, *p = path(w); FILE *fp;
        if (!strcmp(w, "file")) { fp = fopen(p, "w"); fwrite(a[1].b, 1, a[1].n, fp); fclose(fp); }
        f0 = fds(); rc = u_load_file(p, (size_t) a[2].i, &b, &sz);
        r_int("rc", rc ? -1 : 0);
        if (rc) r_cstr("s", b == (char *) 0x11 && sz == 99 ? NULL : "touched"); else { r_bytes("s", b, sz); u_free(b); }
        r_int("live", drv_live - l0); r_int("fds", fds() - f0);
    } else if (!strcmp(op, "dump")) {
        const char *p = path(a[0].s); int f0 = fds(); char *b = malloc(100000); FILE *fp; size_t m;
        if (!strcmp(a[0].s, "file")) { fp = fopen(p, "w"); fprintf(fp, "previous contents"); fclose(fp); }
        rc = u_data_dump((char *) a[1].b, a[1].n, p); r_int("rc", rc ? -1 : 0); r_int("fds", fds() - f0);
        if (strcmp(a[0].s, "file")) r_cstr("s", NULL); else { fp = fopen(p, "r"); m = fread(b, 1, 100000, fp); fclose(fp); r_bytes("s", b, m); }
        free(b);
    } else if (!strcmp(op, "savepid")) {
        const char *p = path(a[0].s); int f0 = fds(); char b[64] = "", w[64]; FILE *fp;
        rc = u_savepid(p); r_int("rc", rc ? -1 : 0); r_int("fds", fds() - f0);
        snprintf(w, sizeof w, "%ld\n", (long) getpid());
        if (!rc && (fp = fopen(p, "r"))) { b[fread(b, 1, 63, fp)] = 0; fclose(fp); }
        r_bool("ok", !strcmp(b, w));
    }
}
