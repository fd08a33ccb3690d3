#include "drv.h"
static u_bst_t *B; static int kt, vt, rev; static long base;
struct pk { int k; long id; };
static long freed[4096]; static size_t nfreed, nvfreed; static int vbad; static long vfreed[4096];
#define NONE -99999
void session_begin(void) { static int once; if (!once++) drv_mem_install(); B = NULL; base = drv_live; }
/* only the sign of a comparison counts */
static int mul(void) { static const int m[] = { 1, 7, 256, 65536, 0x7fffffff }; static unsigned i; return m[i++ % 5]; }
static int cmp_str(const void *a, const void *b) { int c = strcmp(a, b); return rev ? -c : c; }
static int cmp_int(const void *a, const void *b) { int x, y, c; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); c = x < y ? -1 : x > y; return (rev ? -c : c) * mul(); }
static int cmp_pk(const void *a, const void *b) { int x = ((struct pk *) a)->k, y = ((struct pk *) b)->k, c = x < y ? -1 : x > y; return (rev ? -c : c) * mul(); }
static void kfree_(void *p) { freed[nfreed++] = ((struct pk *) p)->id; free(p); }
static void vfree_(void *p) { vfreed[nvfreed++] = *(long *) p; free(p); }
static void genfree_(void *p) { u_free(p); }
static long keyof_(const void *k) { int x; if (!k) return NONE; if (kt == 0) return atol((const char *) k + 1) - 5000; if (kt == 1) { memcpy(&x, k, sizeof x); return x; } return ((const struct pk *) k)->k; }
static long valof_(const void *v) { if (!v) return 0; if (vt == 0) return atol((const char *) v); if (vt == 1) { long x; memcpy(&x, v, sizeof x); return x; } return *(const long *) v; }
static long K[8192], V[8192], C[8192]; static size_t nn;
static void cb(u_bst_node_t *n, void *arg) { if (nn < 8192 && arg == &nn) { K[nn] = keyof_(u_bst_node_key(n)); V[nn] = valof_(u_bst_node_val(n)); C[nn] = (long) u_bst_node_count(n); nn++; } }
static int lcmp(const void *a, const void *b) { long x = *(const long *) a, y = *(const long *) b; return x < y ? -1 : x > y; }
static void *mkkey(long k, long id) {
    if (kt == 0) { char *s = malloc(520); snprintf(s, 520, "k%04ld%s%*s", k + 5000, k % 5 == 2 ? "\xff%s" : "", k % 7 == 3 ? 500 : 0, ""); return s; }
    if (kt == 1) { int *s = malloc(sizeof *s); *s = (int) k; return s; }
    { struct pk *s = malloc(sizeof *s); s->k = (int) k; s->id = id; return s; }
}
static void frees(void) {
    qsort(freed, nfreed, sizeof *freed, lcmp); qsort(vfreed, nvfreed, sizeof *vfreed, lcmp);
    if (kt == 2 && vt == 2 && (nfreed != nvfreed || memcmp(freed, vfreed, nfreed * sizeof *freed))) freed[nfreed++] = -1;
    r_ints("freed", freed, nfreed);
}
static void obs(long rc, u_bst_node_t *n) {
    r_int("rc", rc); r_int("key", n ? keyof_(u_bst_node_key(n)) : NONE); r_int("val", n ? valof_(u_bst_node_val(n)) : NONE);
    frees();
    nn = 0; u_bst_foreach(B, cb, &nn);
    r_ints("keys", K, nn); r_ints("vals", V, nn); r_ints("cnts", C, nn);
    r_int("count", (long) u_bst_count(B)); r_bool("empty", u_bst_empty(B));
}
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0; u_bst_node_t *n = NULL; void *k;
    nfreed = nvfreed = 0;
    if (!strncmp(op, "new", 3)) {
        int o = !strcmp(a[0].s, "top") ? U_BST_OPT_PUSH_TOP : !strcmp(a[0].s, "rand") ? U_BST_OPT_RANDOMIZED : a[1].i ? U_BST_OPT_PUSH_BOTTOM : U_BST_OPT_NONE;
        rev = (int) a[1].i; kt = !strcmp(a[2].s, "string") ? 0 : !strcmp(a[2].s, "opaque") ? 1 : 2; vt = ac > 3 ? (int) a[3].i : kt;
        B = NULL; base = drv_live;
        if (op[3]) { long lk; DRV_CREATE(lk, rc, u_bst_new(o, &B)); r_int("leaked", lk); } else rc = u_bst_new(o, &B);
        if (a[0].s[0] == 'r') srand((unsigned) (ac > 4 ? a[4].i : 1));
        rc |= u_bst_set_keyattr(B, kt == 0 ? U_BST_TYPE_STRING : kt == 1 ? U_BST_TYPE_OPAQUE : U_BST_TYPE_PTR, kt == 1 ? sizeof(int) : 0);
        rc |= u_bst_set_valattr(B, vt == 0 ? U_BST_TYPE_STRING : vt == 1 ? U_BST_TYPE_OPAQUE : U_BST_TYPE_PTR, vt == 1 ? sizeof(long) : 0);
        if (kt || rev) rc |= u_bst_set_cmp(B, kt == 0 ? cmp_str : kt == 1 ? cmp_int : cmp_pk);
        if (kt == 2) rc |= u_bst_set_keyfree(B, kfree_);
        if (vt == 2) rc |= u_bst_set_valfree(B, vfree_);
        (void) genfree_;
    } else if (!strcmp(op, "push")) {
        char vb[32]; long *vp; const void *v = vb;
        k = mkkey(a[0].i, a[1].i);
        if (vt == 0) snprintf(vb, sizeof vb, "%ld", a[1].i);
        else if (vt == 1) memcpy(vb, &a[1].i, sizeof(long));
        else { vp = malloc(sizeof *vp); *vp = a[1].i; v = vp; }
        rc = u_bst_push(B, k, v);
        drv_mk = 0;
        if (rc) { rc = -1; if (kt == 2) { free(k); k = NULL; } if (vt == 2) free((void *) v); }     /* a refused pair stays with the caller */
        if (kt != 2 && k) { memset(k, 'Z', kt == 0 ? strlen(k) + 1 : 4); free(k); }     /* the tree has its own copy */
        memset(vb, 'Z', sizeof vb);
    } else if (!strcmp(op, "delete") || !strcmp(op, "search")) {
        k = mkkey(a[0].i, -7);
        if (op[0] == 'd') { rc = u_bst_delete(B, k); rc = rc ? -1 : 0; } else { n = u_bst_search(B, k); rc = n ? 0 : -1; }
        free(k);
    } else if (!strcmp(op, "nth")) { n = u_bst_find_nth(B, (size_t) a[0].i); rc = n ? 0 : -1; }
    else if (!strcmp(op, "balance")) rc = u_bst_balance(B);
    else if (!strcmp(op, "free")) { u_bst_free(B); B = NULL; r_int("rc", 0); r_int("live", drv_live - base); frees(); return; }
    obs(rc, n);
}
