/* Replays the construction of test programs and runs them, each run in a process of its own. */
#include "drv.h"
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#define NSU 5
#define NCA 9
typedef struct { volatile int nlog, maxp, rc, left; volatile int log[4096]; } shm_t;
static shm_t *S;
static u_test_t *T;
static struct { u_test_suite_t *h; int nc; u_test_case_t *c[NCA]; int b[NCA]; } SU[NSU];
static int nsu, weird, spoilt;
static pid_t runner;
static int outst, nfork, nwait, fault, faultk, serial;

pid_t __real_fork(void); pid_t __real_wait3(int *, int, struct rusage *); pid_t __real_wait4(pid_t, int *, int, struct rusage *);
pid_t __real_waitpid(pid_t, int *, int); pid_t __real_wait(int *);
enum { F_NONE, F_FORK, F_EINTR, F_CHLD, F_INT };
pid_t __wrap_fork(void)
{
    pid_t p;
    if (getpid() != runner) return __real_fork();
    if (fault == F_FORK && ++nfork == faultk) { errno = EAGAIN; return -1; }
    p = __real_fork();
    if (p > 0 && ++outst > S->maxp) S->maxp = outst;
    return p;
}
static int intr(void) { return getpid() == runner && fault == F_EINTR && ++nwait == faultk ? (errno = EINTR, 1) : 0; }
static pid_t got(pid_t p, int *st) { if (getpid() == runner && p < 0 && errno == ECHILD) outst = 0; if (getpid() == runner && p > 0 && (!st || WIFEXITED(*st) || WIFSIGNALED(*st))) outst--; return p; }
pid_t __wrap_wait3(int *st, int o, struct rusage *r) { return intr() ? -1 : got(__real_wait3(st, o, r), st); }
pid_t __wrap_wait4(pid_t p, int *st, int o, struct rusage *r) { return intr() ? -1 : got(__real_wait4(p, st, o, r), st); }
pid_t __wrap_waitpid(pid_t p, int *st, int o) { return intr() ? -1 : got(__real_waitpid(p, st, o), st); }
pid_t __wrap_wait(int *st) { return intr() ? -1 : got(__real_wait(st), st); }

static const char *name(int i, int j)
{
    static char n[2][64]; static int k; char *p = n[k ^= 1];
    if (weird) snprintf(p, 64, j ? "c%d.%d <a href=\"x\"> & 'q' ]]>" : "s%d &amp; <b>", i, j);
    else snprintf(p, 64, j ? "c%d.%d" : "s%d", i, j);
    return p;
}
static void note(int v) { int k = __sync_fetch_and_add((int *)&S->nlog, 1); if (k < 4096) S->log[k] = v; }
static void nap(int ms) { struct timespec t = { ms / 1000, ms % 1000 * 1000000L }; nanosleep(&t, NULL); }
static int body(u_test_case_t *tc)
{
    int i, j, b = 0, id = 0, st; pid_t p;
    for (i = 1; i <= nsu; i++) for (j = 1; j <= SU[i].nc; j++) if (SU[i].c[j] == tc) { id = i * 16 + j; b = SU[i].b[j]; }
    note(id);
    if (id % 3 == 0) nap(1);
    switch (b) {
    case 9: nap(4); break;
    case 11: if ((p = __real_fork()) == 0) _exit(1); __real_waitpid(p, &st, 0); break;
    case 12: spoilt = 1; break;
    case 13: if (spoilt) { note(-id); return 1; } break;
    case 14: kill(getppid(), SIGINT); nap(300); break;
    }
    note(-id);
    switch (b) {
    case 1: return 1;
    case 2: raise(SIGKILL); break;
    case 3: signal(SIGABRT, SIG_DFL); abort();
    case 4: _exit(77);
    case 5: return 255;
    case 6: _exit(0);
    case 7: return 3;
    case 10: exit(0);
    }
    return 0;
}
void session_begin(void)
{
    drv_mem_install();
    prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    if (!S) S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

/* ------------------------------------------------------------------ reports */
static struct { int seen, st, tot[5], nc; struct { int seen, st; } c[NCA]; } R[NSU];
static int rtot[5], rbad, rhead;
static int status(const char *s, size_t n)
{
    static const char *N[] = {"PASS", "FAIL", "ABRT", "SKIP"}; int i;
    for (i = 0; i < 4; i++) if (n == 4 && !strncmp(s, N[i], 4)) return i;
    return n ? 4 : -1;
}
static int find_suite(const char *s) { int i; for (i = 1; i <= nsu; i++) if (!strcmp(s, name(i, 0))) return i; return 0; }
static int find_case(int i, const char *s) { int j; if (i) for (j = 1; j <= SU[i].nc; j++) if (!strcmp(s, name(i, j))) return j; return 0; }
static void add_suite(const char *n, int *cur) { *cur = find_suite(n); if (!*cur || R[*cur].seen++) rbad++; }
static void add_case(int cur, const char *n, int *cc) { *cc = find_case(cur, n); if (!*cc || R[cur].c[*cc].seen++) { rbad++; *cc = 0; } }
static const char *L[] = {"total", "passed", "failed", "aborted", "skipped"};

static void parse_txt(char *t)
{
    char *l, *e, *q; int cur = 0, cc, k = -1, first = 1, ncur = -1;
    static const char *H[] = {"Passed: ", "Failed: ", "Aborted: ", "Skipped: "};
    for (l = t; *l; l = e + 1) {
        int i;
        if (!(e = strchr(l, '\n'))) { rbad++; return; }
        *e = 0;
        if (first) { first = 0; if (strncmp(l, "the test", 8)) rbad++; else rhead = 1; continue; }
        if (!strncmp(l, "\t\t* [", 5) && (q = strchr(l, ']'))) {
            add_case(cur, q + 2, &cc); if (cc) R[cur].c[cc].st = status(l + 5, q - l - 5);
        } else if (!strncmp(l, "\t* [", 4) && (q = strchr(l, ']'))) {
            add_suite(q + 2, &cur); R[cur].st = status(l + 4, q - l - 4);
        } else if ((q = strstr(l, "Number of test suites: "))) { k = 0; ncur = 0; rtot[0] = atoi(q + 23); }
        else if ((q = strstr(l, "Number of test cases: "))) { k = 0; ncur = cur; R[cur].tot[0] = atoi(q + 22); }
        else if (k == 0) for (i = 0; i < 4; i++) if ((q = strstr(l, H[i]))) *(ncur ? &R[ncur].tot[i + 1] : &rtot[i + 1]) = atoi(q + strlen(H[i]));
    }
    if (!rhead) rbad++;
}
/* a strict reader of the elements used by the report */
static int text(const char **p, char stop, char *o)
{
    while (**p && **p != stop) {
        if (**p == '<') return -1;
        if (**p == '&') {
            static const struct { const char *e; char c; } E[] = {{"&amp;", '&'}, {"&lt;", '<'}, {"&gt;", '>'}, {"&quot;", '"'}, {"&apos;", '\''}, {"&#34;", '"'}, {"&#39;", '\''}, {"&#60;", '<'}, {"&#62;", '>'}, {"&#38;", '&'}};
            size_t i;
            for (i = 0; i < sizeof E / sizeof *E; i++) if (!strncmp(*p, E[i].e, strlen(E[i].e))) break;
            if (i == sizeof E / sizeof *E) return -1;
            *o++ = E[i].c; *p += strlen(E[i].e);
        } else *o++ = *(*p)++;
    }
    *o = 0;
    return **p == stop ? 0 : -1;
}
static void parse_xml(const char *p)
{
    char *st[8], tag[64], val[4096], *b = NULL; int d = 0, cur = 0, cc = 0, i, root = 0;
    for (;;) {
        if (text(&p, '<', val)) { if (d || strspn(p, " \t\r\n") != strlen(p) || *p) { for (i = 0; val[i]; i++) if (!isspace((unsigned char)val[i])) rbad++; if (d) rbad++; } break; }
        if (!strncmp(p, "<?xml", 5)) { if (root || !(p = strstr(p, "?>"))) { rbad++; return; } p += 2; continue; }
        if (p[1] == '/') {
            size_t n;
            p += 2; n = strcspn(p, ">");
            if (!d || strlen(st[d - 1]) != n || strncmp(st[d - 1], p, n) || p[n] != '>') { rbad++; return; }
            p += n + 1;
            for (i = 0; i < 5; i++) if (!strcmp(st[d - 1], L[i])) *(d == 3 ? &R[cur].tot[i] : &rtot[i]) = atoi(val);
            if (!strcmp(st[d - 1], "status")) { if (d == 4 && cc) R[cur].c[cc].st = status(val, strlen(val)); else if (d == 3) R[cur].st = status(val, strlen(val)); else rbad++; }
            free(st[--d]);
            continue;
        }
        { size_t n = strcspn(++p, " >"); if (n >= sizeof tag || d >= 8) { rbad++; return; } memcpy(tag, p, n); tag[n] = 0; p += n; }
        val[0] = 0;
        if (*p == ' ') {
            if (strncmp(p, " id=\"", 5)) { rbad++; return; }
            p += 5; if (text(&p, '"', val) || p[1] != '>') { rbad++; return; }
            p++;
        }
        if (*p++ != '>') { rbad++; return; }
        st[d++] = strdup(tag);
        if (d == 1) { if (root++ || strcmp(tag, "test")) rbad++; if (!strncmp(val, "the test", 8)) rhead = 1; }
        else if (d == 2 && !strcmp(tag, "test_suite")) add_suite(val, &cur);
        else if (d == 3 && !strcmp(tag, "test_case")) add_case(cur, val, &cc);
    }
    if (!root || !rhead) rbad++;
    (void)b;
}
static void report(int fmt, const char *fn)
{
    static char t[1 << 18]; FILE *f = fopen(fn, "r"); size_t n; int i, j;
    memset(R, 0, sizeof R); memset(rtot, 0, sizeof rtot); rbad = rhead = 0;
    for (i = 0; i < NSU; i++) { R[i].st = -1; for (j = 0; j < NCA; j++) R[i].c[j].st = -1; }
    if (f) { n = fread(t, 1, sizeof t - 1, f); t[n] = 0; fclose(f); if (strlen(t) != n) rbad++; (fmt == 1 ? parse_xml : (void (*)(const char *))parse_txt)(t); }
    r_bool("bad", rbad != 0);
    { long v[5]; for (i = 0; i < 5; i++) v[i] = rtot[i]; r_ints("tot", v, 5); }
    r_open("su", '[');
    if (f) for (i = 1; i <= nsu; i++) {
        long v[5], c[NCA]; for (j = 0; j < 5; j++) v[j] = R[i].tot[j];
        for (j = 1; j <= SU[i].nc; j++) c[j - 1] = R[i].c[j].st;
        r_open(NULL, '{'); r_int("st", R[i].st); r_ints("tot", v, 5); r_ints("cs", c, SU[i].nc); r_close('}');
    }
    r_close(']');
}
static void run(int p, int ser, int fmt, int flt, int k)
{
    char ps[16]; char *av[12]; int ac = 0, st, i; pid_t pid, x; char fn[] = "./report";
    av[ac++] = "prog"; av[ac++] = "-o"; av[ac++] = fn;
    if (fmt != 2) { av[ac++] = "-f"; av[ac++] = fmt ? "xml" : "TXT"; }
    if (p != 32) { snprintf(ps, sizeof ps, "%d", p); av[ac++] = "-p"; av[ac++] = ps; }
    if (ser) av[ac++] = "-s";
    av[ac] = NULL;
    remove(fn); memset(S, 0, sizeof *S); S->rc = 99;
    fflush(NULL);
    if ((pid = __real_fork()) == 0) {
        int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2);
        runner = getpid(); outst = nfork = nwait = 0; fault = flt; faultk = k; optind = 1; spoilt = 0;
        if (flt == F_CHLD) signal(SIGCHLD, SIG_IGN);
        alarm(20);
        i = u_test_run(ac, av, T);
        S->rc = i ? -1 : 0;
        signal(SIGCHLD, SIG_DFL);
        while ((x = __real_waitpid(-1, &st, 0)) > 0) S->left++;     /* children it forgot */
        fflush(NULL);
        _exit(i ? 1 : 0);
    }
    __real_waitpid(pid, &st, 0);
    while ((x = __real_waitpid(-1, NULL, WNOHANG)) > 0) ;
    if (x == 0) { S->left++; while (__real_waitpid(-1, NULL, 0) > 0) ; }
    r_int("rc", WIFSIGNALED(st) ? -100 - WTERMSIG(st) : WEXITSTATUS(st) == 0 ? 0 : flt == F_INT || S->rc == -1 ? -1 : -WEXITSTATUS(st) - 1000);
    r_int("left", S->left); r_int("maxp", S->maxp);
    if (flt == F_INT) { r_open("log", '['); r_close(']'); r_bool("bad", 0); return; }
    { static long v[4096]; for (i = 0; i < S->nlog && i < 4096; i++) v[i] = S->log[i]; r_ints("log", v, i); }
    report(fmt == 1, fn);
    remove(fn);
}
void run_op(const char *op, int ac, arg_t *av)
{
    int i, j, rc;
    if (!strcmp(op, "new")) {
        u_test_free(T); T = NULL; r_int("left", drv_live); drv_live = 0;
        memset(SU, 0, sizeof SU); nsu = 0; weird = av[0].i;
        rc = u_test_new(weird ? "the test <&>\"'" : "the test", &T);
        r_int("rc", rc ? -1 : 0);
    } else if (!strcmp(op, "suite")) {
        if (nsu >= 4) { r_int("rc", -9); return; }
        nsu++;
        rc = u_test_suite_new(name(nsu, 0), &SU[nsu].h) || u_test_suite_add(SU[nsu].h, T);
        r_int("rc", rc ? -1 : 0);
    } else if (!strcmp(op, "case")) {
        i = av[0].i;
        if (i < 1 || i > nsu || SU[i].nc >= 8) { r_int("rc", -9); return; }
        j = ++SU[i].nc; SU[i].b[j] = av[1].i;
        rc = u_test_case_new(name(i, j), body, &SU[i].c[j]) || u_test_case_add(SU[i].c[j], SU[i].h);
        r_int("rc", rc ? -1 : 0);
    } else if (!strcmp(op, "cdep")) {   /* i j d k */
        i = av[0].i; j = av[1].i;
        if (i < 1 || i > nsu || j < 1 || j > SU[i].nc) { r_int("rc", -9); return; }
        rc = av[3].i ? u_test_case_dep_register(name(i, av[2].i), SU[i].c[j]) : u_test_case_depends_on(name(i, j), name(i, av[2].i), SU[i].h);
        r_int("rc", rc ? -1 : 0);
    } else if (!strcmp(op, "sdep")) {   /* i d k */
        i = av[0].i;
        if (i < 1 || i > nsu) { r_int("rc", -9); return; }
        rc = av[2].i ? u_test_suite_dep_register(name(av[1].i, 0), SU[i].h) : u_test_suite_depends_on(name(i, 0), name(av[1].i, 0), T);
        r_int("rc", rc ? -1 : 0);
    } else if (!strcmp(op, "run")) {    /* p serial fmt fault k */
        static const char *F[] = {"none", "fork", "eintr", "chld", "int"}; int f;
        for (f = 4; f && strcmp(F[f], av[3].s); f--) ;
        run(av[0].i, av[1].i, av[2].i, f, av[4].i);
    }
}
