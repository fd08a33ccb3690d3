/* The flow control macros: the functions in carpal_gen.h (written by the check, one per program of macros) are called with the values
 * their tests take, and everything they evaluate, log and return is reported. */
#include "drv.h"
#include <stdarg.h>
#include <syslog.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <toolbox/log.h>
typedef struct { char k[8]; long a, n; char t[1400]; } ev_t;
typedef struct { int ntr, nev, e, val, done; long tr[64]; ev_t ev[12]; char path[8]; } sh_t;
static sh_t *sh;
extern int facility;
static int rec, V[10], E[10], A[10], R[10], N; static char *S; static const char *path;
static void tr(long x) { if (sh->ntr < 64) sh->tr[sh->ntr++] = x; }
static void add(const char *k, long a, long n, const char *t) {
    if (rec && sh->nev < 12) { ev_t *e = &sh->ev[sh->nev++]; strcpy(e->k, k); e->a = a; e->n = n; snprintf(e->t, sizeof e->t, "%s", t); } errno = 77; }
static int h1(void *a, int l, const char *s) { (void) a; add("hook", 10, l, s); return 0; }
static void vsys(int pri, const char *f, va_list ap) { char t[1400]; vsnprintf(t, sizeof t, f, ap); add("syslog", 0, pri, t); errno = 78; }
void __wrap_vsyslog(int pri, const char *f, va_list ap) { vsys(pri, f, ap); }
void __wrap___vsyslog_chk(int pri, int fl, const char *f, va_list ap) { (void) fl; vsys(pri, f, ap); }
void __wrap_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); vsys(pri, f, ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int fl, const char *f, ...) { va_list ap; (void) fl; va_start(ap, f); vsys(pri, f, ap); va_end(ap); }
pid_t __wrap_getpid(void) { return 4242; }

static int ev(int i) { tr(i); errno = E[i]; return V[i]; }
static void *evp(int i) { tr(i); errno = E[i]; return V[i] ? (void *) 0x500000000 : NULL; }
static long evl(int i) { tr(i); errno = E[i]; return V[i] ? 0x300000000 : 0; }
static double evd(int i) { tr(i); errno = E[i]; return V[i] ? 0.25 : 0; }
static int rv(int i) { tr(400 + i); return R[i]; }
static char *ms(int i) { tr(300 + i); return S; }
static void blk(int i) { tr(100 + i); }
static void els(int i) { tr(200 + i); }
#define GTOERR path = "end"; return rc; gt: path = "gt"; return rc; err: path = "err"; return rc;
#include "carpal_gen.h"
#line 42 "carpal.c"
static int once(int k) { int n = 0; while (k--) { U_ONCE n++; } return n; }
static int once2(int k) { int n = 0; while (k--) { U_ONCE { n++; } } return n; }
static int freed; static void *farg;
static void myfree(void *p) { freed++; farg = p; }
static void leave(int rc) { sh->e = errno; sh->val = rc; strcpy(sh->path, path); sh->done = 1; }
static void dead(void) { if (sh->done) return; strcpy(sh->path, "exit"); sh->done = 2; }
void session_begin(void) {
    static int once_;
    if (!once_++) {
        sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) abort();
        if (!getenv("DRV_DIR") || chdir(getenv("DRV_DIR"))) abort();
    }
    u_log_set_hook(NULL, NULL, NULL, NULL);
}
void run_op(const char *op, int ac, arg_t *a) {
    (void) ac;
    if (!strcmp(op, "call")) {      /* fn vs es as rs e0 s n hook fac fork */
        int i, sv, fd, rc, z; char *t;
        for (i = 0; i < a[1].nv; i++) { V[i + 1] = a[1].v[i]; E[i + 1] = a[2].v[i]; A[i + 1] = a[3].v[i]; R[i + 1] = a[4].v[i]; }
        S = (char *) a[6].b; N = a[7].i; facility = a[9].i;
        memset(sh, 0, sizeof *sh);
        u_log_set_hook(a[8].i ? h1 : NULL, NULL, NULL, NULL);
        fflush(stderr); sv = dup(2); fd = open("err", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 2);
        path = "ret"; rec = 1;
        if (a[10].i) {
            int st; pid_t c = fork();
            if (c == 0) { atexit(dead); errno = a[5].i; rc = fns[a[0].i](); leave(rc); _exit(0); }
            if (waitpid(c, &st, 0) != c) abort();
            if (sh->done == 2) { sh->val = WIFEXITED(st) ? WEXITSTATUS(st) : -1; sh->e = -1; } else if (!sh->done) strcpy(sh->path, "died");
        } else { errno = a[5].i; rc = fns[a[0].i](); leave(rc); }
        rec = 0;
        fflush(stderr); dup2(sv, 2); close(sv);
        z = lseek(fd, 0, SEEK_END); t = calloc(1, (size_t) z + 1); if (pread(fd, t, (size_t) z, 0) != z) abort(); close(fd);
        r_str("path", sh->path); r_int("val", sh->val); r_ints("tr", sh->tr, sh->ntr);
        r_open("ev", '['); for (i = 0; i < sh->nev; i++) { r_open(NULL, '{'); r_str("k", sh->ev[i].k); r_int("a", sh->ev[i].a); r_int("n", sh->ev[i].n); r_bytes("t", sh->ev[i].t, strlen(sh->ev[i].t)); r_close('}'); } r_close(']');
        r_bytes("out", t, (size_t) z); free(t); r_int("e", sh->e);
    } else if (!strcmp(op, "once")) {
        static int seen, seen2; int n, *s = a[1].i ? &seen2 : &seen;       /* a place of use does it once in the life of the program */
        n = a[1].i ? once2(a[0].i) : once(a[0].i); *s += n;
        if (*s > 1) n = 100; else if (a[0].i && *s) n = 1;
        r_int("n", n);
    } else if (!strcmp(op, "free")) {
        static char x; void *p = a[0].i ? (a[1].i ? u_malloc(3) : &x) : NULL, *q = p;
        freed = 0; farg = NULL;
        if (a[1].i) { long l = drv_live; U_FREE(p); r_int("calls", a[0].i ? l - drv_live : 0); r_bool("nul", p == NULL); r_bool("arg", a[0].i != 0); (void) q; return; }
        U_FREEF(p, myfree);
        r_int("calls", freed); r_bool("nul", p == NULL); r_bool("arg", freed && farg == q);
    } else if (!strcmp(op, "close")) {
        int fd = a[0].i ? open("/dev/null", O_RDONLY) : -1, o = fd, sh_ = 0, nul = 0, in = -1;
        if (a[0].i == 2) { in = dup(0); if (dup2(fd, 0) != 0) abort(); close(fd); fd = o = 0; }    /* any descriptor, 0 included */
        switch (a[1].i) {
            case 0: U_CLOSE(fd); nul = fd == -1; sh_ = o != -1 && fcntl(o, F_GETFD) == -1; break;
            case 1: { FILE *f = a[0].i ? fdopen(fd, "r") : NULL; U_FCLOSE(f); nul = f == NULL; sh_ = o != -1 && fcntl(o, F_GETFD) == -1; break; }
            default: { FILE *f; if (o != -1) close(o); f = a[0].i ? popen("exit 0", "r") : NULL; o = f ? fileno(f) : -1; U_PCLOSE(f); nul = f == NULL; sh_ = o != -1 && fcntl(o, F_GETFD) == -1 && waitpid(-1, NULL, WNOHANG) == -1; }
        }
        if (in != -1) { dup2(in, 0); close(in); }
        r_bool("shut", sh_); r_bool("nul", nul);
    } else if (!strcmp(op, "minmax")) {
        int x = a[0].i, y = a[1].i;
        r_int("min", U_MIN(x, y)); r_int("max", U_MAX(x, y)); r_int("lo", 1 + U_MIN(x, y | 0) * 2); r_int("hi", 1 + U_MAX(x | 0, y) * 2);
    } else if (!strcmp(op, "tsub")) {
        struct timeval p = { a[0].i, a[1].i }, q = { a[2].i, a[3].i }, d = { 5, 5 };
        u_timersub(&p, &q, &d); r_int("sec", d.tv_sec); r_int("usec", d.tv_usec);
    } else if (!strcmp(op, "cpy")) {
        char d[8]; memset(d, 'Q', sizeof d); U_SSTRCPY(d, (char *) a[0].b); r_bytes("d", d, sizeof d);
    } else abort();
}
