#include "drv.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <syslog.h>

#ifndef DRV_NO_FACILITY
int facility = LOG_LOCAL0;
#endif
int drv_cpu_limit = 10;

long drv_mk; int drv_refused;
static char *out; static size_t out_n, out_cap; static int first;
static void oput(const char *s, size_t n) {
    if (out_n + n + 1 > out_cap) { out_cap = (out_n + n + 1) * 2 + 4096; out = realloc(out, out_cap); if (!out) abort(); }
    memcpy(out + out_n, s, n); out_n += n; out[out_n] = 0;
}
static void oputs(const char *s) { oput(s, strlen(s)); }
static void key(const char *k) {
    drv_mk = 0;                         /* the operation is over: what follows is observation */
    if (!first) oputs(","); first = 0;
    if (k) { oputs("\""); oputs(k); oputs("\":"); }
}
void r_int(const char *k, long v) { char b[32]; key(k); snprintf(b, sizeof b, "%ld", v); oputs(b); }
void r_bool(const char *k, int v) { key(k); oputs(v ? "true" : "false"); }
void r_str(const char *k, const char *v) { key(k); oputs("\""); oputs(v); oputs("\""); }
void r_bytes(const char *k, const void *p, size_t n) {
    const unsigned char *q = p; size_t i; char b[8];
    key(k); oputs("[");
    for (i = 0; i < n; i++) { snprintf(b, sizeof b, i ? ",%u" : "%u", q[i]); oputs(b); }
    oputs("]");
}
void r_cstr(const char *k, const char *p) {
    if (p == NULL) { key(k); oputs("[-1]"); } else r_bytes(k, p, strlen(p));
}
void r_ints(const char *k, const long *v, size_t n) {
    size_t i; char b[32]; key(k); oputs("[");
    for (i = 0; i < n; i++) { snprintf(b, sizeof b, i ? ",%ld" : "%ld", v[i]); oputs(b); }
    oputs("]");
}
void r_raw(const char *k, const char *j) { key(k); oputs(j); }
void r_open(const char *k, char br) { char b[2] = { br, 0 }; key(k); oputs(b); first = 1; }
void r_close(char br) { char b[2] = { br, 0 }; oputs(b); first = 0; }

long drv_live, drv_nalloc, drv_fail_at; int drv_failed;
static int inject(void) {
    ++drv_nalloc;
    if (drv_mk > 0 && --drv_mk == 0) { drv_refused++; errno = ENOMEM; return 1; }
    if (drv_fail_at && drv_nalloc == drv_fail_at) { drv_failed = 1; errno = ENOMEM; return 1; }
    return 0;
}
static void *m_malloc(size_t n) { void *p; if (inject()) return NULL; p = malloc(n); if (p) drv_live++; return p; }
static void *m_calloc(size_t a, size_t n) { void *p; if (inject()) return NULL; p = calloc(a, n); if (p) drv_live++; return p; }
static void *m_realloc(void *o, size_t n) {
    void *p; if (inject()) return NULL; p = realloc(o, n);
    if (o == NULL && p) drv_live++;
    if (o != NULL && n == 0 && p == NULL) drv_live--;
    return p;
}
static void m_free(void *p) { if (p) drv_live--; free(p); }
char *drv_stderr(void (*g)(void *), void *x, size_t *n) {
    FILE *f = tmpfile(); int keep = dup(2); long z; char *b;
    if (!f || keep < 0) abort();
    fflush(stderr); dup2(fileno(f), 2);
    g(x);
    fflush(stderr); dup2(keep, 2); close(keep);
    fseek(f, 0, SEEK_END); z = ftell(f); rewind(f); b = malloc((size_t) z + 1); if ((long) fread(b, 1, (size_t) z, f) != z) abort();
    b[z] = 0; fclose(f); *n = (size_t) z; return b;
}
void drv_mem_install(void) {
    u_memory_set_malloc(m_malloc); u_memory_set_calloc(m_calloc);
    u_memory_set_realloc(m_realloc); u_memory_set_free(m_free);
}
static int nohook(void *arg, int level, const char *s) { (void) arg; (void) level; (void) s; return 0; }

/* ---- script ---- */
typedef struct { char *line; } op_t;
static char **lines; static size_t nlines;
static void load(const char *path) {
    FILE *f = fopen(path, "r"); char *l = NULL; size_t cap = 0, lc = 0; ssize_t n;
    if (!f) { perror(path); exit(3); }
    while ((n = getline(&l, &cap, f)) >= 0) {
        if (n && l[n-1] == '\n') l[n-1] = 0;
        if (nlines == lc) { lc = lc ? lc * 2 : 1024; lines = realloc(lines, lc * sizeof *lines); }
        lines[nlines++] = strdup(l);
    }
    free(l); fclose(f);
}
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
#define MAXA 32
static void do_line(char *l0, int ofd, long sess, long idx) {
    char *save = NULL, *t, *op, *l = strdup(l0); arg_t av[MAXA]; int ac = 0; char b[96]; long mk = 0; int retry = *l0 == '?', i; size_t at; unsigned char *kept[MAXA] = { NULL };
    op = strtok_r(l, " ", &save);
    if (*op == '!' || *op == '?') { mk = atol(op + 1); op = strtok_r(NULL, " ", &save); }       /* "!k op ...": refuse the k-th memory request of op; "?k op": and try again if it failed */
    memset(av, 0, sizeof av);
    while ((t = strtok_r(NULL, " ", &save)) && ac < MAXA) {
        arg_t *a = &av[ac++]; a->s = t;
        if (!strcmp(t, "-")) { a->null = 1; }
        else if (t[0] == 'x') {
            size_t n = strlen(t + 1) / 2, i;
            a->b = malloc(n + 1); a->n = n;
            for (i = 0; i < n; i++) a->b[i] = hexv(t[1 + 2*i]) * 16 + hexv(t[2 + 2*i]);
            a->b[n] = 0;
        } else if (t[0] == 'i' && (t[1] == 0 || t[1] == '-' || (t[1] >= '0' && t[1] <= '9'))) {
            char *p = t + 1; a->v = malloc(sizeof(long) * (strlen(t) + 1));
            while (*p) { a->v[a->nv++] = strtol(p, &p, 10); if (*p == ',') p++; }
        } else a->i = strtol(t, NULL, 10);
    }
    out_n = 0; first = 1;
    snprintf(b, sizeof b, "{\"s\":%ld,\"i\":%ld,\"r\":{", sess, idx); oputs(b);
    drv_refused = 0; drv_mk = mk; at = out_n;
    if (retry) for (i = 0; i < ac; i++) if (av[i].b) { kept[i] = malloc(av[i].n + 1); memcpy(kept[i], av[i].b, av[i].n + 1); }
    run_op(op, ac, av);
    drv_mk = 0;
    if (retry && drv_refused && out_n > at + 7 && !memcmp(out + at, "\"rc\":-", 6)) {
        for (i = 0; i < ac; i++) if (kept[i]) memcpy(av[i].b, kept[i], av[i].n + 1);        /* operations may wipe what they were given */
        oputs("},\"again\":{"); first = 1; run_op(op, ac, av);
    }
    oputs(mk ? drv_refused ? "},\"mem\":true}\n" : "},\"mem\":false}\n" : "}}\n");
    { size_t o = 0; while (o < out_n) { ssize_t w = write(ofd, out + o, out_n - o); if (w < 0) { if (errno == EINTR) continue; _exit(98); } o += (size_t) w; } }
    for (i = 0; i < ac; i++) { free(av[i].b); free(av[i].v); free(kept[i]); }
    free(l);
}

int main(int argc, char **argv) {
    volatile size_t *cur; size_t start = 0; int ofd, hung = 0; long limit;
    if (argc < 3) return 3;
    if (getenv("DRV_CPU")) drv_cpu_limit = atoi(getenv("DRV_CPU"));
    signal(SIGPIPE, SIG_IGN);
    load(argv[1]);
    drv_mem_install();
    ofd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
    if (ofd < 0) return 3;
    ofd = fcntl(ofd, F_DUPFD, 200);
    cur = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    limit = getenv("DRV_REAL") ? atol(getenv("DRV_REAL")) : 120;
    while (start < nlines) {
        pid_t pid; int st; struct rusage ru;
        pid = fork();
        if (pid < 0) { sleep(1); continue; }
        if (pid == 0) {
            size_t k = start; long sess = -1, idx = 0;
            struct itimerval it; memset(&it, 0, sizeof it);
            u_log_set_hook(nohook, NULL, NULL, NULL);
            for (; k < nlines; k++) {
                if (!strncmp(lines[k], "session ", 8)) {
                    sess = atol(lines[k] + 8); idx = 0; *cur = k;
                    it.it_value.tv_sec = drv_cpu_limit; setitimer(ITIMER_PROF, &it, NULL);
                    alarm((unsigned) limit);
                    drv_fail_at = 0;
                    session_begin();
                    continue;
                }
                do_line(lines[k], ofd, sess, idx++);
            }
            _exit(0);
        }
        while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) ;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        {   /* the session in progress crashed, hung, or left the process: record it and go on with the next */
            char b[160]; size_t k = *cur; ssize_t w;
            snprintf(b, sizeof b, "{\"s\":%ld,\"i\":-1,\"crash\":\"%s %d\"}\n", atol(lines[k] + 8),
                WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            w = write(ofd, b, strlen(b)); (void) w;
            for (k++; k < nlines && strncmp(lines[k], "session ", 8); k++) ;
            start = k;
            /* enough seen: the sessions not started are reported as not executed */
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM) && ++hung == 2) { w = write(ofd, "{\"stop\":1}\n", 11); break; }
        }
    }
    return 0;
}
