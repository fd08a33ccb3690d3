#include "drv.h"
static u_rb_t *rb; static long base; static unsigned long pos; static char kind;
static unsigned char *buf; static size_t bufsz;
void session_begin(void) { rb = NULL; pos = 0; }
static void obs(void) {
    r_open("obs", '{');
    r_int("size", rb ? (long) u_rb_size(rb) : 0);
    r_int("ready", rb ? (long) u_rb_ready(rb) : 0);
    r_int("avail", rb ? (long) u_rb_avail(rb) : 0);
    r_close('}');
}
/* the bytes as maximal ascending runs (modulo 251): [first, count, first, count ...] */
static void runs(const unsigned char *p, size_t n) {
    size_t i, j, m = 0; long *v = malloc((2 * n + 2) * sizeof *v);
    for (i = 0; i < n; i = j) {
        for (j = i + 1; j < n && p[j] == (p[j-1] + 1) % 251; j++) ;
        v[m++] = p[i]; v[m++] = (long) (j - i);
    }
    r_ints("run", v, m); free(v);
}
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0; size_t i, n;
    if (!strcmp(op, "new") || !strcmp(op, "newm")) {
        int o = 0; long lk;
        if (rb) u_rb_free(rb);
        rb = NULL; pos = 0;
        if (!strcmp(a[0].s, "malloc")) o = U_RB_OPT_IMPL_MALLOC;
        else if (!strcmp(a[0].s, "mallocc")) o = U_RB_OPT_IMPL_MALLOC | U_RB_OPT_USE_CONTIGUOUS_MEM;
        else if (!strcmp(a[0].s, "mmapc")) o = U_RB_OPT_USE_CONTIGUOUS_MEM;
        base = drv_live;
        if (op[3]) { DRV_CREATE(lk, rc, u_rb_create((size_t) a[1].i, o, &rb)); r_int("leaked", lk); }
        else rc = u_rb_create((size_t) a[1].i, o, &rb);
        r_int("rc", rc); runs(NULL, 0); obs();
    } else if (!strcmp(op, "write")) {
        unsigned char *p;
        n = (size_t) a[0].i; p = malloc(n ? n : 1);
        for (i = 0; i < n; i++) p[i] = (unsigned char) ((pos + i) % 251);
        rc = u_rb_write(rb, p, n);
        memset(p, 0xEE, n); free(p);
        if (rc > 0) pos += (unsigned long) rc;
        r_int("rc", rc); runs(NULL, 0); obs();
    } else if (!strcmp(op, "read")) {
        unsigned char *p;
        n = (size_t) a[0].i; p = malloc(n ? n : 1); memset(p, 0xEE, n);
        rc = u_rb_read(rb, p, n);
        r_int("rc", rc); runs(p, rc > 0 ? (size_t) rc : 0); obs();
        free(p);
    } else if (!strcmp(op, "fast")) {
        void *p; n = (size_t) a[0].i;
        p = u_rb_fast_read(rb, &n);
        r_bool("null", p == NULL); rc = (long) n;
        r_int("rc", rc); runs(p, p ? n : 0); obs();
    } else if (!strcmp(op, "clear")) {
        rc = u_rb_clear(rb); r_int("rc", rc); runs(NULL, 0); obs();
    } else if (!strcmp(op, "free")) {
        u_rb_free(rb); rb = NULL; r_int("rc", 0); runs(NULL, 0); obs();
    } else if (!strcmp(op, "freem")) {
        u_rb_free(rb); rb = NULL; r_int("rc", 0); r_int("live", drv_live - base);
    }
}
