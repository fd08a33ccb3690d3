#include "drv.h"
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <toolbox/config.h>
extern u_config_driver_t u_config_drv_fs;
static u_config_t *root;
/* named resources: in memory for the custom driver and in the scratch directory for the file system one */
static struct { char *n, *x; size_t len; } fs[64]; static int nfs;
static int fds(void) { int n = 0; struct dirent *e; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while ((e = readdir(d))) n++; closedir(d); return n; }
static void fs_clear(void) { while (nfs) { --nfs; if (strlen(fs[nfs].n) < 200 && !strchr(fs[nfs].n, '/')) unlink(fs[nfs].n); free(fs[nfs].n); free(fs[nfs].x); } }
static void fresh(void) { if (u_config_create(&root)) abort(); }
void session_begin(void) {
    static int once; if (!once++) { drv_mem_install(); if (getenv("DRV_DIR") && chdir(getenv("DRV_DIR"))) abort(); mkdir("dir", 0700); }
    fs_clear(); if (root) u_config_free(root); root = NULL; drv_live = 0;
}
/* ---- the custom driver ---- */
struct src { char *x; size_t pos, len; int open; };
static struct src srcs[256]; static int nsrc, opens, closes, bad, tries, fo, fc;
static long chunks[16]; static int nchunks, ci;
static char pre[64]; static long rmax;
static char *give(struct src *s, char *buf, size_t size) {
    size_t n = 0, lim = size - 1; 
    if (s->pos >= s->len) return NULL;
    if (nchunks) { size_t c = (size_t) chunks[ci++ % nchunks]; if (c < lim) lim = c; }
    while (n < lim && s->pos < s->len) { buf[n] = s->x[s->pos++]; if (buf[n++] == '\n') break; }
    buf[n] = 0; return buf;
}
static int d_open(const char *uri, void **arg) {
    int i; struct src *s;
    if (++tries == fo) { *arg = &srcs[255]; return ~0; }
    for (i = 0; i < nfs; i++) if (!strcmp(fs[i].n, uri)) break;
    if (i == nfs || nsrc == 255) { *arg = &srcs[255]; return ~0; }
    s = &srcs[nsrc++]; s->x = fs[i].x; s->len = fs[i].len; s->pos = 0; s->open = 1; opens++;
    *arg = s; return 0;
}
static int d_close(void *arg) { struct src *s = arg; if (!s || !s->open) { bad++; return ~0; } s->open = 0; return ++closes == fc ? ~0 : 0; }
static char *d_gets(void *arg, char *buf, size_t size) { struct src *s = arg; if (!s || !s->open) { bad++; return NULL; } return give(s, buf, size); }
static int d_resolv(const char *name, char *uri, size_t n) {
    if ((long) (strlen(pre) + strlen(name)) > rmax || strlen(pre) + strlen(name) >= n) return ~0;
    sprintf(uri, "%s%s", pre, name); return 0;
}
/* ---- reporting ---- */
static void dump(const char *k, u_config_t *c) {
    u_config_t *x; int i;
    r_open(k, '{'); r_cstr("k", u_config_get_key(c)); r_cstr("v", u_config_get_value(c));
    r_open("c", '[');
    for (i = 0; (x = u_config_get_child_n(c, NULL, i)) != NULL; i++) dump(NULL, x);
    r_close(']'); r_close('}');
}
static int locate(u_config_t *from, u_config_t *c, long *p, int n) {
    u_config_t *x; int i, r;
    if (from == c) return n;
    for (i = 0; (x = u_config_get_child_n(from, NULL, i)) != NULL; i++) { p[n] = i + 1; if ((r = locate(x, c, p, n + 1)) >= 0) return r; }
    return -1;
}
static void r_at(const char *k, u_config_t *c) {
    long p[200]; int n;
    if (!c) { r_raw(k, "[-1]"); return; }
    n = locate(root, c, p, 0);
    if (n < 0) r_raw(k, "[-2]"); else r_ints(k, p, (size_t) n);
}
static u_config_t *node(arg_t *a) {
    u_config_t *c = root; int i;
    for (i = 0; c && i < a->nv; i++) c = u_config_get_child_n(c, NULL, (int) a->v[i] - 1);
    return c;
}
static void rc_t(int rc) { r_int("rc", rc ? -1 : 0); dump("t", root); }
static char *cs(arg_t *a) { return a->null ? NULL : (char *) a->b; }
static const char *mode;
static const char *S(const char *x) { return x ? x : ""; }
static int cmp(u_config_t **a, u_config_t **b) {
    if (!strcmp(mode, "key")) return strcmp(u_config_get_key(*a), u_config_get_key(*b));
    if (!strcmp(mode, "rkey")) return strcmp(u_config_get_key(*b), u_config_get_key(*a));
    return strcmp(S(u_config_get_value(*a)), S(u_config_get_value(*b)));
}
static void visit(u_config_t *c) { r_at(NULL, c); }
static char tmpn[] = "t.conf";
static void replace(int rc, u_config_t *c) { if (!rc) { u_config_free(root); root = c; } }

void run_op(const char *op, int ac, arg_t *a) {
    u_config_t *c, *x = NULL; int rc;
    if (!strcmp(op, "new")) {
        if (root) u_config_free(root);
        root = NULL; fs_clear();
        r_int("rc", 0); r_int("live", drv_live); fresh(); return;
    }
    if (!root) fresh();
    if (!strcmp(op, "fs")) {
        FILE *f; int i;
        for (i = 0; i < nfs; i++) if (!strcmp(fs[i].n, (char *) a[0].b)) break;
        if (nfs == 64) abort();
        fs[nfs].n = strdup((char *) a[0].b); fs[nfs].x = malloc(a[1].n + 1); memcpy(fs[nfs].x, a[1].b, a[1].n + 1); fs[nfs].len = a[1].n;
        if (i == nfs && strlen(fs[nfs].n) < 200 && !strchr(fs[nfs].n, '/') && (f = fopen(fs[nfs].n, "w"))) { fwrite(fs[nfs].x, 1, fs[nfs].len, f); fclose(f); }
        nfs++; r_int("rc", 0); return;
    }
    if (!strcmp(op, "buf")) {
        char *b = malloc(a[0].n ? a[0].n : 1); memcpy(b, a[0].b, a[0].n);
        c = NULL; rc = u_config_load_from_buf(b, a[0].n, &c); free(b);
        replace(rc, c); rc_t(rc); return;
    }
    if (!strcmp(op, "drv") || !strcmp(op, "drvmem")) {   /* name, ow, pre, rmax, (fo, fc | n), chunks */
        int mem = !strcmp(op, "drvmem"); long live = drv_live;
        u_config_driver_t d = { d_open, d_close, d_gets, NULL };
        nsrc = opens = closes = bad = tries = ci = 0; fo = mem ? 0 : a[4].i; fc = mem ? 0 : a[5].i;
        memset(srcs, 0, sizeof srcs);
        snprintf(pre, sizeof pre, "%s", (char *) a[2].b); rmax = a[3].i;
        if (pre[0] || rmax < 1000) d.resolv = d_resolv;
        nchunks = 0; { arg_t *v = &a[mem ? 5 : 6]; while (nchunks < v->nv && nchunks < 16) { chunks[nchunks] = v->v[nchunks]; nchunks++; } }
        if (mem) drv_fail_at = drv_nalloc + a[4].i;
        c = NULL; rc = u_config_load_from_drv((char *) a[0].b, &d, a[1].i, &c);
        drv_fail_at = 0;
        live = drv_live - live;
        replace(rc, c); rc_t(rc);
        if (!mem) r_int("opens", opens);
        r_int("left", opens - closes); r_int("bad", bad);
        if (mem) r_int("leak", rc ? live : 0);
        return;
    }
    if (!strcmp(op, "baddrv")) {
        u_config_driver_t d = { d_open, d_close, NULL, NULL };
        opens = tries = nsrc = 0; fo = fc = 0;
        c = NULL; rc = a[0].i == 0 ? u_config_load_from_drv("f", &d, 0, &c) : a[0].i == 1 ? u_config_load_from_drv(NULL, &d, 0, &c) :
            a[0].i == 2 ? u_config_load_from_drv("f", NULL, 0, &c) : a[0].i == 3 ? u_config_load_from_file(NULL, &c) : u_config_load_from_file("f", NULL);
        r_int("rc", rc ? -1 : 0); r_int("opens", opens); return;
    }
    if (!strcmp(op, "file")) {   /* name, ow, ... */
        int n = fds();
        c = NULL; rc = a[1].i ? u_config_load_from_drv((char *) a[0].b, &u_config_drv_fs, 1, &c) : u_config_load_from_file((char *) a[0].b, &c);
        replace(rc, c); rc_t(rc); r_int("left", fds() - n); return;
    }
    if (!strcmp(op, "from")) {  /* text, ow, chunks */
        struct src s = { (char *) a[0].b, 0, a[0].n, 1 };
        ci = nchunks = 0; while (nchunks < a[2].nv && nchunks < 16) { chunks[nchunks] = a[2].v[nchunks]; nchunks++; }
        srcs[254] = s; bad = 0;
        rc = u_config_load_from(root, d_gets, &srcs[254], a[1].i);
        if (rc) { u_config_free(root); fresh(); }
        rc_t(rc); return;
    }
    if (!strcmp(op, "fd")) {    /* text, ow */
        int n = fds(), fd = open(tmpn, O_CREAT | O_TRUNC | O_RDWR, 0600);
        if (fd < 0 || write(fd, a[0].b, a[0].n) != (ssize_t) a[0].n || lseek(fd, 0, SEEK_SET) != 0) abort();
        rc = u_config_load(root, fd, a[1].i);
        if (fcntl(fd, F_GETFD) < 0) r_bool("fdclosed", 1); else close(fd);
        unlink(tmpn);
        if (rc) { u_config_free(root); fresh(); }
        rc_t(rc); r_int("left", fds() - n); return;
    }
    /* everything else starts with an address */
    c = node(&a[0]);
    if (!c) { r_int("rc", -9); return; }
    if (!strcmp(op, "add")) rc_t(u_config_add_key(c, cs(&a[1]), cs(&a[2])));
    else if (!strcmp(op, "set")) rc_t(u_config_set_key(c, cs(&a[1]), cs(&a[2])));
    else if (!strcmp(op, "setmem")) {
        long live = drv_live;
        drv_fail_at = drv_nalloc + a[4].i;
        rc = (a[3].i ? u_config_set_key : u_config_add_key)(c, cs(&a[1]), cs(&a[2]));
        drv_fail_at = 0; rc_t(rc); r_int("leak", rc ? drv_live - live : 0);
    } else if (!strcmp(op, "setval")) {
        if (c == root) { r_int("rc", -9); return; }
        rc_t(u_config_set_value(c, cs(&a[1])));
    } else if (!strcmp(op, "child")) {
        rc = u_config_add_child(c, cs(&a[1]), &x);
        r_at("at", x); rc_t(rc);
    } else if (!strcmp(op, "del")) {
        x = node(&a[1]);
        if (!x) { r_int("rc", -9); return; }
        rc_t(u_config_del_child(c, x));
    } else if (!strcmp(op, "sort")) { mode = a[1].s; rc_t(u_config_sort_children(c, cmp)); }
    else if (!strcmp(op, "get")) { rc = a[2].i ? u_config_get_subkey_nth(c, cs(&a[1]), a[2].i, &x) : u_config_get_subkey(c, cs(&a[1]), &x); r_int("rc", rc ? -1 : 0); r_at("at", rc ? NULL : x); }
    else if (!strcmp(op, "nth")) {
        x = u_config_get_child_n(c, cs(&a[1]), a[2].i);
        if (!a[1].null && a[2].i == 0 && u_config_get_child(c, cs(&a[1])) != x) abort();
        r_int("rc", 0); r_at("at", x);
    } else if (!strcmp(op, "val")) { r_int("rc", 0); r_cstr("v", u_config_get_subkey_value(c, cs(&a[1]))); }
    else if (!strcmp(op, "vali") || !strcmp(op, "valb")) {
        int out = -12345;
        rc = (op[3] == 'i' ? u_config_get_subkey_value_i : u_config_get_subkey_value_b)(c, cs(&a[1]), a[2].i, &out);
        r_int("rc", rc ? -1 : 0); if (!rc) r_int("x", out);
    } else if (!strcmp(op, "node")) { r_int("rc", 0); r_cstr("k", u_config_get_key(c)); r_cstr("v", u_config_get_value(c)); r_bool("kids", u_config_has_children(c)); }
    else if (!strcmp(op, "walk")) { r_int("rc", 0); r_open("w", '['); u_config_walk(c, !strcmp(a[1].s, "pre") ? U_CONFIG_WALK_PREORDER : U_CONFIG_WALK_POSTORDER, visit); r_close(']'); }
    else if (!strcmp(op, "save")) {
        size_t n = (size_t) a[1].i; char *b = malloc(n ? n : 1); memset(b, 'Q', n ? n : 1);
        rc = u_config_save_to_buf(c, b, n);
        r_int("rc", rc ? -1 : 0); r_cstr("x", rc ? NULL : b); free(b);
    } else if (!strcmp(op, "print")) {
        char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
        u_config_print_to_fp(c, f, a[1].i); fclose(f);
        r_int("rc", 0); r_bytes("x", b, n); free(b);
    } else if (!strcmp(op, "reload")) {
        char *b = NULL; size_t n = 0;
        if (!strcmp(a[1].s, "save")) { n = 1 << 20; b = malloc(n); if (u_config_save_to_buf(root, b, n)) abort(); n = strlen(b); }
        else { FILE *f = open_memstream(&b, &n); u_config_print_to_fp(root, f, 0); fclose(f); }
        x = NULL; rc = u_config_load_from_buf(b, n, &x); free(b);
        replace(rc, x); rc_t(rc);
    }
}
