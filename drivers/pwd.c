#include "drv.h"
#include <sys/stat.h>
#include <toolbox/pwd.h>
static u_pwd_t *pw; static char *src; static size_t src_n; static long ver = 1, live0; static int opened, fail_open, fail_stat;
typedef struct { char *p; size_t n, at; } src_t;
static int tries; static src_t *kept[512]; static int n_kept;
static int c_open(const char *uri, void **h) { src_t *s; tries++; if (strcmp(uri, "the source") || fail_open) return ~0; s = malloc(sizeof *s); s->p = malloc(src_n + 1); memcpy(s->p, src ? src : "", src_n); s->n = src_n; s->at = 0; opened++; *h = s; return 0; }
static char *c_load(char *b, int size, void *h) {
    src_t *s = h; int k = 0;
    if (size <= 1 || s->at >= s->n) return NULL;
    while (k < size - 1 && s->at < s->n) { b[k] = s->p[s->at++]; if (b[k++] == '\n') break; }
    b[k] = 0; return b;
}
static void c_close(void *h) { src_t *s = h; free(s->p); free(s); opened--; }
/* without a close callback the sources stay the owner's */
static int n_open(const char *uri, void **h) { int rc = c_open(uri, h); if (rc == 0) { opened--; if (n_kept == 512) { free(kept[--n_kept]->p); free(kept[n_kept]); } kept[n_kept++] = *h; } return rc; }
/* the time of a version: later ones may be earlier */
static time_t when(long v) { return (time_t) (1 + v * 617 % 1009); }
static int c_notify(const char *uri, time_t last, time_t *now) { (void) uri; if (fail_stat || last == when(ver)) return 0; *now = when(ver); return 1; }
static int hash(const char *s, size_t n, char out[]) {
    int i; size_t j; for (i = 1; i <= 4; i++) { unsigned a = 11 * i; for (j = 0; j < n; j++) a = (a * 7 + (unsigned char) s[j] + i) % 9973; out[i - 1] = (char) (97 + a % 26); }
    return 0;
}
/* the file kind: the change time of the source is its version */
int __real_stat(const char *p, struct stat *sb);
static int st(const char *p, struct stat *sb) { int r; if (fail_stat && !strcmp(p, "pwfile")) { errno = EACCES; return -1; } r = __real_stat(p, sb); if (r == 0 && !strcmp(p, "pwfile")) { sb->st_ctime = 1000 + when(ver); sb->st_mtime = 1000 + when(ver); } return r; }
int __wrap_stat(const char *p, struct stat *sb) { return st(p, sb); }
FILE *__real_fopen(const char *p, const char *m); int __real_fclose(FILE *f);
FILE *__wrap_fopen(const char *p, const char *m) { FILE *f; if (!strcmp(p, "pwfile") && *m == 'r') tries++; if (fail_open && !strcmp(p, "pwfile")) { errno = EMFILE; return NULL; } f = __real_fopen(p, m); if (f && !strcmp(p, "pwfile") && *m == 'r') opened++; return f; }
int __wrap_fclose(FILE *f) { opened--; return __real_fclose(f); }
static void wr(void) { FILE *f = __real_fopen("pwfile", "wb"); if (!f || (src_n && fwrite(src, 1, src_n, f) != src_n)) abort(); __real_fclose(f); }
static void drop(void) { if (pw) u_pwd_term(pw); pw = NULL; while (n_kept) { src_t *x = kept[--n_kept]; free(x->p); free(x); } }
void session_begin(void) {
    static int once; if (!once++) { if (!getenv("DRV_DIR") || chdir(getenv("DRV_DIR"))) abort(); }
    drop(); fail_open = fail_stat = 0; opened = 0; ver = 1; src_n = 0;
}
void run_op(const char *op, int ac, arg_t *a) {
    int rc = 0;
    if (!strncmp(op, "new", 3)) {
        long lk; int m = (int) a[0].i, h = (int) a[1].i, n = (int) a[2].i, nc = !strcmp(a[3].s, "nc");
        drop(); src_n = 0; ver = 1; wr(); live0 = drv_live;
        if (op[3]) {
            if (!strcmp(a[3].s, "file")) DRV_CREATE(lk, rc, u_pwd_init_file("pwfile", h ? hash : NULL, h ? 4 : 0, m, &pw));
            else DRV_CREATE(lk, rc, u_pwd_init("the source", nc ? n_open : c_open, c_load, nc ? NULL : c_close, n ? c_notify : NULL, h ? hash : NULL, h ? 4 : 0, m, &pw));
            r_int("leaked", lk);
        }
        else if (!strcmp(a[3].s, "file")) rc = u_pwd_init_file("pwfile", h ? hash : NULL, h ? 4 : 0, m, &pw);
        else rc = u_pwd_init("the source", nc ? n_open : c_open, c_load, nc ? NULL : c_close, n ? c_notify : NULL, h ? hash : NULL, h ? 4 : 0, m, &pw);
        if (rc == 0 && !u_pwd_in_memory(pw) != !m) rc = -8;
        r_int("rc", rc); return;
    }
    if (!strcmp(op, "bad")) {
        u_pwd_t *x = NULL; long l0 = drv_live; const char *w = a[0].s; char uri[5000];
        memset(uri, 'u', sizeof uri - 1); uri[sizeof uri - 1] = 0;
        rc = u_pwd_init(!strcmp(w, "uri") ? NULL : !strcmp(w, "long") ? uri : "the source", !strcmp(w, "open") ? NULL : c_open, !strcmp(w, "load") ? NULL : c_load, c_close, c_notify,
            !strcmp(w, "len") ? hash : NULL, 0, 1, !strcmp(w, "out") ? NULL : &x);
        if (rc == 0 && x) u_pwd_term(x);
        r_int("rc", rc ? -1 : 0); r_int("live", drv_live - l0); return;
    }
    if (!strcmp(op, "src")) { free(src); src = malloc(a[0].n + 1); memcpy(src, a[0].b, a[0].n); src_n = a[0].n; ver++; wr(); r_int("rc", 0); return; }
    if (!pw) { r_int("rc", -9); return; }
    if (!strcmp(op, "term")) { drop(); r_int("rc", 0); r_int("live", drv_live - live0); r_int("open", opened); return; }
    fail_open = !strcmp(a[ac - 1].s, "open"); fail_stat = !strcmp(a[ac - 1].s, "stat"); tries = 0;
    if (!strcmp(op, "retr")) {
        u_pwd_rec_t *rec = NULL;
        rc = u_pwd_retr(pw, (char *) a[0].b, &rec); fail_open = fail_stat = 0;
        r_int("rc", rc ? -1 : 0);
        r_cstr("u", rc ? NULL : u_pwd_rec_get_user(rec)); r_cstr("p", rc ? NULL : u_pwd_rec_get_password(rec)); r_cstr("o", rc ? NULL : u_pwd_rec_get_opaque(rec));
        if (!rc) u_pwd_rec_free(pw, rec);
    } else {
        rc = u_pwd_auth_user(pw, (char *) a[0].b, (char *) a[1].b); fail_open = fail_stat = 0;
        r_int("rc", rc ? -1 : 0);
    }
    r_int("open", opened); r_int("tries", tries > 0);
}
