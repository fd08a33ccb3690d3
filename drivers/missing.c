/* The replacement functions of srcs/missing, compiled as on a system that has none of them (each NAME as m_NAME). */
#include "drv.h"
#include <fcntl.h>
#include <syslog.h>
#include <stdarg.h>
#include <time.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>

char *m_strsep(char **, const char *);
char *m_strtok_r(char *, const char *, char **);
size_t m_strlcpy(char *, const char *, size_t);
size_t m_strlcat(char *, const char *, size_t);
time_t m_timegm(struct tm *);
int m_fnmatch(const char *, const char *, int);
int m_mkstemps(char *, int);
int m_daemon(int, int);
void m_vsyslog(int, const char *, va_list);
extern const int m_flags[5];

static char *rest[5], *text[5];
static int fresh[5];
static char dir[4096];
static int no_fork;
extern pid_t __real_fork(void);
pid_t __wrap_fork(void) { if (no_fork) { errno = EAGAIN; return -1; } return __real_fork(); }
static int sl_n, sl_pri; static char sl_msg[8192];
void __wrap_syslog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); sl_n++; sl_pri = pri; vsnprintf(sl_msg, sizeof sl_msg, f, ap); va_end(ap); }
void __wrap___syslog_chk(int pri, int flag, const char *f, ...) { va_list ap; va_start(ap, f); sl_n++; sl_pri = pri; vsnprintf(sl_msg, sizeof sl_msg, f, ap); va_end(ap); }

static void mkfile(const char *n) { int fd = open(n, O_CREAT | O_WRONLY, 0644); if (fd >= 0) close(fd); }
void session_begin(void) {
    DIR *d; struct dirent *e; int i;
    if (!dir[0]) {
        snprintf(dir, sizeof dir, "%s/y", getenv("DRV_DIR"));
        mkdir(dir, 0755);
    }
    if (chdir(dir)) abort();
    mkdir("sub", 0755);
    for (i = 0; i < 2; i++) {
        d = opendir(i ? "sub" : ".");
        if (d == NULL) abort();
        while ((e = readdir(d)) != NULL) {
            char p[600]; snprintf(p, sizeof p, "%s%s", i ? "sub/" : "", e->d_name);
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strcmp(e->d_name, "sub")) unlink(p);
        }
        closedir(d);
    }
    mkfile("file");
    for (i = 0; i < 5; i++) { rest[i] = NULL; free(text[i]); text[i] = NULL; }
    unsetenv("TZ"); no_fork = 0;
}
static int count(void) {
    DIR *d; struct dirent *e; int i, n = 0;
    for (i = 0; i < 2; i++) {
        if ((d = opendir(i ? "sub" : ".")) == NULL) return -1;
        while ((e = readdir(d)) != NULL) n += strcmp(e->d_name, ".") && strcmp(e->d_name, "..") && strcmp(e->d_name, "sub") && strcmp(e->d_name, "file");
        closedir(d);
    }
    return n;
}
static __attribute__((noinline)) void clobber(void) { volatile char b[4096]; int i; for (i = 0; i < 4096; i++) b[i] = 'Z'; }
static void vlog(int pri, const char *f, ...) { va_list ap; va_start(ap, f); m_vsyslog(pri, f, ap); va_end(ap); }

void run_op(const char *op, int ac, arg_t *a) {
    int i;
    if (!strcmp(op, "fnm")) {
        long m[32]; int f, k;
        for (f = 0; f < 32; f++) { int fl = 0, rc; for (k = 0; k < 5; k++) if (f >> k & 1) fl |= m_flags[k];
            rc = m_fnmatch((char *) a[0].b, (char *) a[1].b, fl); m[f] = rc == 0 ? 1 : rc == 1 ? 0 : -1; }
        r_ints("m", m, 32);
    } else if (!strcmp(op, "new")) {
        r_int("rc", 0);
    } else if (!strcmp(op, "tset")) {
        i = a[0].i; free(text[i]); text[i] = a[1].null ? NULL : malloc(a[1].n + 1);
        if (text[i]) memcpy(text[i], a[1].b, a[1].n + 1);
        rest[i] = text[i]; fresh[i] = 1; r_int("rc", 0);
    } else if (!strcmp(op, "sep")) {
        r_cstr("t", m_strsep(&rest[a[0].i], (char *) a[1].b));
        r_cstr("rest", rest[a[0].i]);
    } else if (!strcmp(op, "tok")) {
        char *t; i = a[0].i;
        if (text[i] == NULL) t = NULL; else t = m_strtok_r(fresh[i] ? text[i] : NULL, (char *) a[1].b, &rest[i]);
        fresh[i] = 0; r_cstr("t", t);
    } else if (!strcmp(op, "lcpy") || !strcmp(op, "lcat")) {
        /* dst: a[0] bytes at the start of a block of exactly a[1] bytes */
        size_t n = a[1].i, k = a[0].n; char *d = malloc(n ? n : 1); long rc;
        memset(d, 'Q', n ? n : 1); if (n) memcpy(d, a[0].b, U_MIN(k, n)); if (k < n) d[k] = 0;
        rc = op[2] == 'p' ? m_strlcpy(d, (char *) a[2].b, n) : m_strlcat(d, (char *) a[2].b, n);
        r_int("rc", n || *d == 'Q' ? rc : -99); r_bytes("d", d, n); free(d);
    } else if (!strcmp(op, "gm")) {
        struct tm tm; time_t t, d; const char *z; struct tm *l; time_t st[2] = { 0, 1000000000 }; long before[2], after[2];
        memset(&tm, 0, sizeof tm);
        if (a[0].null) unsetenv("TZ"); else setenv("TZ", (char *) a[0].b, 1);
        tzset();
        for (i = 0; i < 2; i++) { l = localtime(&st[i]); before[i] = l->tm_hour * 60 + l->tm_min; }
        tm.tm_year = a[1].v[0] - 1900; tm.tm_mon = a[1].v[1]; tm.tm_mday = a[1].v[2]; tm.tm_hour = a[1].v[3]; tm.tm_min = a[1].v[4]; tm.tm_sec = a[1].v[5];
        tm.tm_isdst = a[2].i;
        t = m_timegm(&tm);
        clobber();
        d = t / 86400; if (t % 86400 < 0) d--;
        r_int("d", d); r_int("s", t - d * 86400);
        { long v[8] = { tm.tm_year + 1900, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday, tm.tm_yday }; r_ints("tm", v, 8); }
        z = getenv("TZ"); r_cstr("tz", z);
        for (i = 0; i < 2; i++) { l = localtime(&st[i]); after[i] = l->tm_hour * 60 + l->tm_min; }
        r_bool("local", before[0] == after[0] && before[1] == after[1]);
    } else if (!strcmp(op, "touch")) {
        mkfile((char *) a[0].b); r_int("n", count());
    } else if (!strcmp(op, "mk")) {
        char *t = malloc(a[0].n + 1); int fd; struct stat s, q;
        memcpy(t, a[0].b, a[0].n + 1);
        fd = m_mkstemps(t, a[1].i);
        r_int("rc", fd < 0 ? -1 : 0); r_bytes("name", t, strlen(t));
        if (fd >= 0) {
            r_bool("new", fstat(fd, &s) == 0 && stat(t, &q) == 0 && s.st_ino == q.st_ino && s.st_dev == q.st_dev && S_ISREG(s.st_mode) &&
                (s.st_mode & 0777) == 0600 && s.st_size == 0 && write(fd, "x", 1) == 1 && (fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDWR);
            close(fd);
        }
        r_int("n", count()); free(t);
    } else if (!strcmp(op, "vsl")) {
        sl_n = 0; sl_pri = -1; sl_msg[0] = 0;
        if (!strcmp(a[1].s, "sd")) vlog(a[0].i, "<%s|%d>", (char *) a[2].b, (int) a[3].i);
        else if (!strcmp(a[1].s, "s")) vlog(a[0].i, "%s", (char *) a[2].b);
        else if (!strcmp(a[1].s, "pad")) vlog(a[0].i, "%*s", (int) a[3].i, (char *) a[2].b);
        else vlog(a[0].i, "%%a");
        r_int("n", sl_n); r_int("pri", sl_pri); r_cstr("msg", sl_msg);
    } else if (!strcmp(op, "daemon")) {
        int p[2], st, rc; pid_t c; long v[8] = { 0 }, me = getpid(); char w[4096], w2[4096];
        if (pipe(p)) abort();
        if (getcwd(w, sizeof w) == NULL) abort();
        c = __real_fork();
        if (c == 0) {
            pid_t orig = getpid(); struct stat s, n; int k, isnull = 1, same = 1; struct stat b[3];
            for (k = 0; k < 3; k++) fstat(k, &b[k]);
            no_fork = a[2].i;
            rc = m_daemon(a[0].i, a[1].i);
            stat("/dev/null", &n);
            for (k = 0; k < 3; k++) { if (fstat(k, &s)) { isnull = same = 0; continue; }
                if (s.st_rdev != n.st_rdev || !S_ISCHR(s.st_mode)) isnull = 0; if (s.st_ino != b[k].st_ino || s.st_dev != b[k].st_dev) same = 0; }
            if (getcwd(w2, sizeof w2) == NULL) w2[0] = 0;
            v[0] = 1; v[1] = rc; v[2] = getpid() != orig; v[3] = getsid(0) == getpid(); v[4] = strcmp(w, w2) == 0 ? 0 : strcmp(w2, "/") == 0 ? 1 : 2;
            v[5] = isnull ? 1 : same ? 0 : 2;
            for (k = 0, st = 3; st < 64; st++) k += fcntl(st, F_GETFD) != -1;
            v[6] = k;
            if (write(p[1], v, sizeof v) < 0) _exit(9);
            _exit(7);
        }
        { long open_fds = 0; for (i = 3; i < 64; i++) open_fds += fcntl(i, F_GETFD) != -1;
        close(p[1]);
        if (waitpid(c, &st, 0) != c) abort();
        i = read(p[0], v, sizeof v);
        r_int("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1); r_int("reports", i == (int) sizeof v);
        r_int("rc", v[1]); r_bool("forked", v[2]); r_bool("session", v[3]); r_int("cwd", v[4]); r_int("fds", v[5]); r_bool("noleak", v[6] == open_fds);
        i = read(p[0], v, sizeof v); close(p[0]); r_int("more", i); }
        (void) me;
    } else abort();
}
