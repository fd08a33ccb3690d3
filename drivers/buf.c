#include "drv.h"
#include <wchar.h>
#include <sys/stat.h>
static u_buf_t *B; static long base;
static const char *fn[] = { "", "f1", "f2" };
void session_begin(void) { static int once; if (!once++) drv_mem_install(); B = NULL; base = drv_live; unlink("f1"); unlink("f2"); mkdir("dd", 0700); }
static void obs(long rc) {
    char *p = u_buf_ptr(B); long n = (long) u_buf_len(B);
    r_int("rc", rc ? -1 : 0); r_bytes("data", p, p ? (size_t) n : 0); r_int("len", n); r_int("size", (long) u_buf_size(B));
    r_bool("term", p ? p[n] == 0 : n == 0);
}
static void file(const char *k, const char *path) {
    FILE *f = fopen(path, "r"); char *b; size_t n, cap = 1 << 20;
    if (!f) { r_cstr(k, NULL); return; }
    b = malloc(cap); n = fread(b, 1, cap, f); fclose(f); r_bytes(k, b, n); free(b);
}
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0;
    if (!strcmp(op, "new")) { base = drv_live; rc = u_buf_create(&B); }
    else if (!strcmp(op, "newm")) { long lk; base = drv_live; DRV_CREATE(lk, rc, u_buf_create(&B)); r_int("leaked", lk); }
    else if (!strcmp(op, "append") || !strcmp(op, "set")) {
        unsigned char *t = malloc(a[0].n ? a[0].n : 1); memcpy(t, a[0].b, a[0].n);
        rc = op[0] == 'a' ? u_buf_append(B, t, a[0].n) : u_buf_set(B, t, a[0].n); memset(t, 'Z', a[0].n); free(t);
    } else if (!strcmp(op, "printf")) {
        const char *k = a[0].s, *s = (char *) a[1].b; int n = (int) a[2].i;
        rc = !strcmp(k, "s") ? u_buf_printf(B, "%s", s) : !strcmp(k, "d") ? u_buf_printf(B, "%d", n) : !strcmp(k, "sd") ? u_buf_printf(B, "<%s|%d>", s, n) :
             !strcmp(k, "pad") ? u_buf_printf(B, "%*s", n, s) : !strcmp(k, "lit") ? u_buf_printf(B, "%%a") : !strcmp(k, "empty") ? u_buf_printf(B, "") :
             u_buf_printf(B, "zz%lc", (wint_t) 0x20ac);
    } else if (!strcmp(op, "reserve")) rc = u_buf_reserve(B, (size_t) a[0].i);
    else if (!strcmp(op, "huge")) rc = u_buf_reserve(B, (size_t) -1) && u_buf_reserve(B, (size_t) -2) && u_buf_reserve(B, ((size_t) -1) / 2) ? -1 : 0;
    else if (!strcmp(op, "shrink")) rc = u_buf_shrink(B, (size_t) a[0].i);
    else if (!strcmp(op, "clear")) rc = u_buf_clear(B);
    else if (!strcmp(op, "detach")) {
        char *p = u_buf_ptr(B); size_t n = (size_t) u_buf_len(B);
        rc = u_buf_detach(B); u_buf_append(B, "overwritten", 11); u_buf_clear(B);     /* later use must not touch the detached block */
        p ? r_bytes("det", p, n) : r_bytes("det", "", 0); if (p) u_free(p);
    } else if (!strcmp(op, "write")) { FILE *f = fopen(fn[a[0].i], "w"); fwrite(a[1].b, 1, a[1].n, f); fclose(f); file("file", fn[a[0].i]); }
    else if (!strcmp(op, "save")) { rc = u_buf_save(B, fn[a[0].i]); file("file", fn[a[0].i]); }
    else if (!strcmp(op, "load")) { rc = u_buf_load(B, fn[a[0].i]); file("file", fn[a[0].i]); }
    else if (!strcmp(op, "savefull")) rc = u_buf_save(B, "/dev/full");
    else if (!strcmp(op, "savedir")) rc = u_buf_save(B, "dd");
    else if (!strcmp(op, "loaddir")) rc = u_buf_load(B, "dd");
    else if (!strcmp(op, "free")) { rc = u_buf_free(B); B = NULL; r_int("rc", rc); r_int("live", drv_live - base); return; }
    obs(rc);
}
