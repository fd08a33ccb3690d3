#include "drv.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <toolbox/env.h>
extern char **environ;
static const char *names[] = { "P_A", "P_B", "P_", "PX_A", "Q_A", "P_AB" };
#define NN 6
static int armed_popen, setenv_at, setenv_n, tag;
FILE *__real_popen(const char *c, const char *m);
FILE *__wrap_popen(const char *c, const char *m) { if (armed_popen) { errno = EMFILE; return NULL; } return __real_popen(c, m); }
int __real_setenv(const char *n, const char *v, int o);
int __wrap_setenv(const char *n, const char *v, int o) { if (setenv_at && ++setenv_n == setenv_at) { errno = ENOMEM; return -1; } return __real_setenv(n, v, o); }

static int fds(void) { int n = 0; struct dirent *e; DIR *d = opendir("/proc/self/fd"); while ((e = readdir(d))) n++; closedir(d); return n; }
static char **snap; static int nsnap;
static int ours(const char *e) { int i; size_t n = strcspn(e, "="); for (i = 0; i < NN; i++) if (strlen(names[i]) == n && !strncmp(e, names[i], n)) return 1; return 0; }
static void take(void) { int i; for (i = 0; i < nsnap; i++) free(snap[i]); free(snap); snap = NULL; nsnap = 0; for (i = 0; environ[i]; i++) ; snap = malloc(sizeof(char *) * (size_t) (i + 1)); for (i = 0; environ[i]; i++) if (!ours(environ[i])) snap[nsnap++] = strdup(environ[i]); }
/* entries outside the observed names that appeared, vanished or changed since take() */
static long changed(void) {
    int i, j; long n = 0;
    for (i = 0; environ[i]; i++) { if (ours(environ[i])) continue; for (j = 0; j < nsnap && strcmp(snap[j], environ[i]); j++) ; if (j == nsnap) n++; }
    for (j = 0; j < nsnap; j++) { for (i = 0; environ[i] && strcmp(snap[j], environ[i]); i++) ; if (!environ[i]) n++; }
    return n;
}
static void put(const char *f, const void *b, size_t n) { FILE *fp = fopen(f, "wb"); if (!fp || (n && fwrite(b, 1, n, fp) != n)) abort(); fclose(fp); }
void session_begin(void) {
    static int once; int i;
    if (!once++) { if (!getenv("DRV_DIR") || chdir(getenv("DRV_DIR"))) abort(); mkdir("sub dir", 0700); unsetenv("DRV_DIR"); unsetenv("OLDPWD"); { char b[4096]; if (!getcwd(b, sizeof b)) abort(); setenv("PWD", b, 1); } take(); }
    for (i = 0; i < NN; i++) unsetenv(names[i]);
    tag = 0;
}
void run_op(const char *op, int ac, arg_t *a) {
    int rc = 0, i, n0 = 0, n1 = 0, kids; (void) ac;
    if (!strcmp(op, "new")) { for (i = 0; i < NN; i++) unsetenv(names[i]); }
    else if (!strcmp(op, "set")) { const char *n = names[a[0].i - 1]; if (a[1].null) unsetenv(n); else if (setenv(n, (char *) a[1].b, 1)) abort(); }
    else if (!strcmp(op, "get")) { r_int("rc", 0); r_cstr("v", u_env_var(names[a[0].i - 1])); return; }
    else {  /* load p body file fault k */
        char *file = (char *) a[2].b; const char *fault = a[3].s;
        if (!strcmp(fault, "missing")) unlink(file); else put(file, a[1].b, a[1].n);
        armed_popen = !strcmp(fault, "popen"); setenv_n = 0; setenv_at = !strcmp(fault, "setenv") ? (int) a[4].i : 0;
        take(); n0 = fds();
        if (!strcmp(fault, "null")) rc = a[4].i & 1 ? u_env_init(NULL, file) : u_env_init((char *) a[0].b, NULL);
        else rc = u_env_init((char *) a[0].b, file);
        n1 = fds(); armed_popen = setenv_at = 0; unlink(file);
    }
    kids = waitpid(-1, NULL, WNOHANG) != -1 || errno != ECHILD;
    r_int("rc", rc ? -1 : 0);
    r_open("e", '['); for (i = 0; i < NN; i++) r_cstr(NULL, u_env_var(names[i])); r_close(']');
    r_int("other", strcmp(op, "load") ? 0 : changed()); r_int("fd", n1 - n0); r_int("kids", kids);
}
