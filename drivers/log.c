#include "drv.h"
#include <stdarg.h>
#include <syslog.h>
#include <wchar.h>
#include <fcntl.h>
#include <toolbox/log.h>
typedef struct { const char *k; long a, n; char *t; } ev_t;
static ev_t ev[64]; static int nev, rec;
static void add(const char *k, long a, long n, const char *t) { if (rec && nev < 64) { ev[nev].k = k; ev[nev].a = a; ev[nev].n = n; ev[nev++].t = strdup(t); } errno = 77; }
static int ids[4] = { 0, 1, 2, 3 };     /* arguments: pointers to them */
#define AV(p) ((p) ? *(int *) (p) : 0)
static int h1(void *a, int l, const char *s) { add("hook", 10 + AV(a), l, s); return 0; }
static int h2(void *a, int l, const char *s) { add("hook", 20 + AV(a), l, s); return ~0; }
static int h3(void *a, int l, const char *s) { add("hook", 30 + AV(a), l, s); return 7; }
static u_log_hook_t hooks[4] = { NULL, h1, h2, h3 };
static int k1(void *a) { add("lock", 10 + AV(a), 0, ""); return 0; }
static int k2(void *a) { add("lock", 20 + AV(a), 0, ""); return ~0; }
static int u1(void *a) { add("unlock", 10 + AV(a), 0, ""); return 0; }
static int u2(void *a) { add("unlock", 20 + AV(a), 0, ""); return ~0; }
static u_log_lock_t locks[3] = { NULL, k1, k2 }; static u_log_unlock_t unlocks[3] = { NULL, u1, u2 };
static void vsys(int pri, const char *f, va_list ap) { char *t = NULL; if (vasprintf(&t, f, ap) < 0) t = strdup("?"); add("syslog", 0, pri, t); free(t); errno = 78; }
void __wrap_vsyslog(int pri, const char *f, va_list ap) { vsys(pri, f, ap); }
void __wrap___vsyslog_chk(int pri, int fl, const char *f, va_list ap) { (void) fl; vsys(pri, f, ap); }
void __wrap_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); vsys(pri, f, ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int fl, const char *f, ...) { va_list ap; (void) fl; va_start(ap, f); vsys(pri, f, ap); va_end(ap); }
pid_t __wrap_getpid(void) { return 4242; }
/* what the driver itself installs meanwhile must not be seen */
static int quiet(void *a, int l, const char *s) { (void) a; (void) l; (void) s; return 0; }
static void dump(void) { int i; r_open("ev", '['); for (i = 0; i < nev; i++) { r_open(NULL, '{'); r_str("k", ev[i].k); r_int("a", ev[i].a); r_int("n", ev[i].n); r_bytes("t", ev[i].t, strlen(ev[i].t)); r_close('}'); free(ev[i].t); } r_close(']'); nev = 0; }
static void reset(void) { rec = 0; u_log_set_lock(NULL, NULL); u_log_set_unlock(NULL, NULL); u_log_set_hook(quiet, NULL, NULL, NULL); u_log_set_hook(NULL, NULL, NULL, NULL); }
void session_begin(void) { static int once; if (!once++) if (!getenv("DRV_DIR") || chdir(getenv("DRV_DIR"))) abort(); reset(); }
static const wchar_t badw[] = { 0x7fffffff, 0 };
#define GO(CALL) (!strcmp(k, "s") ? CALL("%s", s) : !strcmp(k, "d") ? CALL("%d", n) : !strcmp(k, "sd") ? CALL("<%s|%d>", s, n) : \
    !strcmp(k, "pad") ? CALL("%*s", n, s) : !strcmp(k, "lit") ? CALL("%%a") : !strcmp(k, "empty") ? CALL("%s", "") : CALL("a%lsb", badw))
static int mrc;
#define EX(...) u_log_write_ex(fac, lev, ctx ? LOG_WRITE_FLAG_CTX : LOG_WRITE_FLAG_NONE, err, file, line, func, __VA_ARGS__)
#define CO(...) u_console_write_ex(err, "f", 1, "g", __VA_ARGS__)
static int ex(int fac, int lev, int ctx, int err, const char *file, int line, const char *func, const char *k, const char *s, int n, int e0) { errno = e0; return GO(EX); }
static int co(int err, const char *k, const char *s, int n, int e0) { errno = e0; return GO(CO); }
#define EMERG(...) emerg_(err, __VA_ARGS__)
#define M(m, ...) m(err, __VA_ARGS__)
#define MACS(...) (lev == 0 ? emerg_(err, __VA_ARGS__) : lev == 1 ? alert_(err, __VA_ARGS__) : lev == 2 ? crit_(err, __VA_ARGS__) : lev == 3 ? err_(err, __VA_ARGS__) : \
    lev == 4 ? warn_(err, __VA_ARGS__) : lev == 5 ? notice_(err, __VA_ARGS__) : lev == 6 ? info_(err, __VA_ARGS__) : dbg_(err, __VA_ARGS__))
#line 9 "f.c"
static int fn(int lev, int err, const char *k, const char *s, int n, int e0) {
errno = e0; return GO(MACS); }
#line 52 "log.c"
void run_op(const char *op, int ac, arg_t *a) {
    int rc = 0, e; (void) ac; (void) mrc;
    if (!strcmp(op, "new")) { reset(); r_int("rc", 0); return; }
    rec = 1;
    if (!strcmp(op, "hook")) {
        u_log_hook_t old = h3; void *oa = &ids[3]; int i, w = (int) a[2].i; long on = -7, an = -7;
        rc = u_log_set_hook(hooks[a[0].i], a[1].i ? &ids[a[1].i] : NULL, w ? &old : NULL, w ? &oa : NULL);
        for (i = 0; i < 4; i++) if (hooks[i] == old) on = i;
        an = AV(oa);
        r_int("rc", rc); r_int("old", w ? on : -1); r_int("olda", w ? an : -1); dump(); return;
    }
    if (!strcmp(op, "lock")) { r_int("rc", u_log_set_lock(locks[a[0].i], a[1].i ? &ids[a[1].i] : NULL)); return; }
    if (!strcmp(op, "unlock")) { r_int("rc", u_log_set_unlock(unlocks[a[0].i], a[1].i ? &ids[a[1].i] : NULL)); return; }
    if (!strcmp(op, "strerr")) {
        char *m = malloc((size_t) a[1].i); rc = u_strerror_r((int) a[0].i, m, (size_t) a[1].i); r_int("rc", rc); r_cstr("t", m); free(m); return;
    }
    if (!strcmp(op, "write")) {     /* lev fac ctx err e0 file line func kind s n */
        rc = ex((int) a[1].i, (int) a[0].i, (int) a[2].i, (int) a[3].i, (char *) a[5].b, (int) a[6].i, (char *) a[7].b, a[8].s, (char *) a[9].b, (int) a[10].i, (int) a[4].i);
        e = errno;
    } else if (!strcmp(op, "mac")) { /* lev err e0 kind s n */
        rc = fn((int) a[0].i, (int) a[1].i, a[3].s, (char *) a[4].b, (int) a[5].i, (int) a[2].i); e = errno;
    } else {        /* con: err e0 kind s n */
        int sv = dup(2), fd = open("err", O_CREAT | O_TRUNC | O_RDWR, 0600); char *t; off_t z;
        fflush(stderr); dup2(fd, 2);
        rc = co((int) a[0].i, a[2].s, (char *) a[3].b, (int) a[4].i, (int) a[1].i); e = errno;
        fflush(stderr); dup2(sv, 2); close(sv);
        z = lseek(fd, 0, SEEK_END); t = calloc(1, (size_t) z + 1); if (pread(fd, t, (size_t) z, 0) != z) abort(); close(fd);
        r_int("rc", rc ? -1 : 0); r_int("e", e); if (rc) r_cstr("out", NULL); else r_bytes("out", t, (size_t) z); free(t); nev = 0; return;
    }
    r_int("rc", rc ? -1 : 0); r_int("e", e); dump();
}
