#include "drv.h"
#include <fcntl.h>
#include <dirent.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <toolbox/fs.h>
/* four names in the scratch directory; the fourth is a directory */
static const char *names[5] = { NULL, "a", "b", "c", "d" };
static int armed, fired, nth, cnt, bad; static char cls[32];
static int is(const char *c) { return armed && !strcmp(cls, c); }
static int hit(const char *c) {
    char x[40]; snprintf(x, sizeof x, "exdev-%s", c);
    if (!(is(c) || is(x)) || fired == 2) return 0;
    if (++cnt != nth) return 0;
    fired = 2; return 1;
}
#define W(r, f, ...) r __real_##f(__VA_ARGS__); r __wrap_##f(__VA_ARGS__)
W(FILE *, fopen, const char *p, const char *m) { if (armed && hit("open")) { errno = EMFILE; return NULL; } return __real_fopen(p, m); }
W(FILE *, fopen64, const char *p, const char *m) { if (armed && hit("open")) { errno = EMFILE; return NULL; } return __real_fopen64(p, m); }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, int m) { if (armed && hit("open")) { errno = EMFILE; return -1; } return __real_open(p, fl, m); }
W(size_t, fread, void *b, size_t s, size_t n, FILE *f) {
    if (armed && bad) { f->_flags |= 0x20; errno = EIO; return 0; }       /* it stays unreadable */
    if (armed && hit("read")) { bad = 1; size_t k = s * n > 200 ? __real_fread(b, 1, 100, f) : 0; f->_flags |= 0x20; errno = EIO; return k / s; }
    return __real_fread(b, s, n, f);
}
W(ssize_t, read, int fd, void *b, size_t n) { if (armed && (bad || hit("read"))) { bad = 1; errno = EIO; return -1; } return __real_read(fd, b, n); }
W(size_t, fwrite, const void *b, size_t s, size_t n, FILE *f) {
    if (armed && hit("write")) { size_t k = __real_fwrite(b, 1, s * n / 2, f); f->_flags |= 0x20; errno = ENOSPC; return k / s; }
    return __real_fwrite(b, s, n, f);
}
W(ssize_t, write, int fd, const void *b, size_t n) { if (armed && hit("write")) { if (n > 1) return __real_write(fd, b, n / 2); errno = ENOSPC; return -1; } return __real_write(fd, b, n); }
/* what was not written yet is lost */
static int lose(FILE *f) { if (!(armed && hit("close"))) return 0; if (f && __fwriting(f)) __fpurge(f); return 1; }
W(int, fflush, FILE *f) { if (lose(f)) { errno = EIO; return EOF; } return __real_fflush(f); }
W(int, fclose, FILE *f) { int x = lose(f), r = __real_fclose(f); if (x) { errno = EIO; return EOF; } return r; }
W(int, close, int fd) { int r = __real_close(fd); if (armed && hit("close")) { errno = EIO; return -1; } return r; }
static int exdev(const char *to) {
    struct stat sb;
    if (!armed || strncmp(cls, "exdev", 5)) return 0;
    if (lstat(to, &sb) == 0) { errno = EEXIST; return 1; }
    if (!fired) fired = 1;
    errno = EXDEV; return 1;
}
W(int, link, const char *a, const char *b) { struct stat sb; if (armed && hit("link")) { errno = EPERM; return -1; } if (lstat(a, &sb) == 0 && !S_ISDIR(sb.st_mode) && exdev(b)) return -1; return __real_link(a, b); }
W(int, rename, const char *a, const char *b) { struct stat sb; if (armed && hit("link")) { errno = EPERM; return -1; } if (lstat(a, &sb) == 0 && !S_ISDIR(sb.st_mode) && exdev(b)) return -1; return __real_rename(a, b); }
W(int, unlink, const char *a) { if (armed && hit("unlink")) { errno = EACCES; return -1; } return __real_unlink(a); }
W(int, remove, const char *a) { if (armed && hit("unlink")) { errno = EACCES; return -1; } return __real_remove(a); }

static unsigned char gen(int tag, size_t i) { unsigned x = (unsigned) i * 2654435761u + (unsigned) tag * 40503u + 12345u; x ^= x >> 15; return (unsigned char) ((x >> 7) & 0xff); }
static int fds(void) { int n = 0; struct dirent *e; DIR *d = opendir("/proc/self/fd"); while ((e = readdir(d))) n++; closedir(d); return n; }
static void dump(void) {
    int i, j; ino_t ino[5]; dev_t dev[5];
    r_open("d", '[');
    for (i = 1; i <= 4; i++) {
        struct stat sb; const char *k = "none"; long g = 0, x[2] = { 0, 0 }, to = 0;
        ino[i] = 0; dev[i] = 0;
        if (lstat(names[i], &sb) == 0) {
            k = S_ISDIR(sb.st_mode) ? "dir" : S_ISLNK(sb.st_mode) ? "sym" : S_ISREG(sb.st_mode) ? "file" : "other";
            ino[i] = sb.st_ino; dev[i] = sb.st_dev;
            for (g = i, j = i - 1; j >= 1; j--) if (ino[j] == ino[i] && dev[j] == dev[i]) g = j;
            if (S_ISREG(sb.st_mode)) {
                size_t n = (size_t) sb.st_size, q; int t; unsigned char *b = malloc(n + 1); FILE *f = fopen(names[i], "rb");
                if (!f || fread(b, 1, n, f) != n) abort();
                fclose(f);
                x[0] = (long) n; x[1] = n ? -1 : 0;
                for (t = 1; n && t <= 9 && x[1] < 0; t++) { for (q = 0; q < n && b[q] == gen(t, q); q++) ; if (q == n) x[1] = t; }
                free(b);
            } else if (S_ISLNK(sb.st_mode)) {
                char l[100]; ssize_t n = readlink(names[i], l, 99); l[n < 0 ? 0 : n] = 0;
                for (j = 1; j <= 4; j++) if (!strcmp(l, names[j])) to = j;
            }
        }
        r_open(NULL, '{'); r_str("k", k); r_int("g", g); r_ints("x", x, 2); r_int("to", to); r_close('}');
    }
    r_close(']');
}
static void reset(void) { int i; for (i = 1; i <= 3; i++) unlink(names[i]); rmdir("d"); mkdir("d", 0700); }
void session_begin(void) {
    static int once; if (!once++) { if (!getenv("DRV_DIR") || chdir(getenv("DRV_DIR"))) abort(); }
    armed = 0; reset();
}
void run_op(const char *op, int ac, arg_t *a) {
    int rc = -9, n0, n1; struct stat sb;
    const char *A = a[0].i >= 1 && a[0].i <= 4 ? names[a[0].i] : NULL, *B = ac > 1 && a[1].i >= 1 && a[1].i <= 4 ? names[a[1].i] : NULL;
    fired = cnt = bad = 0; nth = 1; cls[0] = 0;
    n0 = n1 = 0;
    if (!strcmp(op, "new")) { reset(); rc = 0; }
    else if (!strcmp(op, "write")) {
        FILE *f = stat(A, &sb) == 0 && S_ISDIR(sb.st_mode) ? NULL : fopen(A, "wb"); long i;
        if (f) { for (i = 0; i < a[1].i; i++) fputc(gen((int) a[2].i, (size_t) i), f); fclose(f); rc = 0; }
    } else if (!strcmp(op, "hard")) { if (lstat(A, &sb) == 0 && S_ISREG(sb.st_mode) && link(A, B) == 0) rc = 0; }
    else if (!strcmp(op, "sym")) {
        int i, ok = a[0].i != a[1].i;
        for (i = 1; i <= 4; i++) if (lstat(names[i], &sb) == 0 && S_ISLNK(sb.st_mode)) ok = 0;
        if (ok && lstat(B, &sb) != 0 && symlink(A, B) == 0) rc = 0;
    } else {
        snprintf(cls, sizeof cls, "%s", a[2].s); nth = (int) a[3].i;
        n0 = fds(); armed = strcmp(cls, "none") != 0;
        rc = !strcmp(op, "copy") ? u_copy(A, B) : !strcmp(op, "move") ? u_move(A, B) : u_remove(A);
        armed = 0; n1 = fds();
        rc = rc ? -1 : 0;
    }
    r_int("rc", rc); dump(); r_int("fired", fired); r_int("fd", n1 - n0);
}
