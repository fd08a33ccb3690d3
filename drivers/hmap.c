#include "drv.h"
/* configuration of a map: interface, table type, size, hash function, key and value types */
enum { KEYS = 4096 };
typedef struct { u_hmap_t *h; int easy, kt, vt, own, kf, vf; } map_t;      /* kt/vt: 0 string 1 opaque 2 pointer */
static map_t M[3]; static long base;
struct pk { long k, id; };
static long kfd[8192], vfd[8192]; static size_t nkf, nvf;
static struct obj { u_hmap_o_t *o; void *k, *v; int m; } U[4096]; static size_t nu;       /* objects owned by the user */
void session_begin(void) { static int once; if (!once++) drv_mem_install(); memset(M, 0, sizeof M); nu = 0; base = drv_live; }
static int ckt;      /* key type of the map in use, for the callbacks */
static long kdec(int kt, const void *k) {
    if (kt == 0) return atol((const char *) k + 1);
    if (kt == 1) { const unsigned char *c = k; return (c[0] - 1) * 200 + (c[1] - 1); }
    return ((const struct pk *) k)->k;
}
enum { VSZ = 27 };      /* an opaque value is longer than an opaque key, and all of it counts */
static void vput(void *b, long x) { size_t i; memcpy(b, &x, sizeof x); for (i = sizeof x; i < VSZ; i++) ((unsigned char *) b)[i] = (unsigned char) (x + 7 * (long) i); }
static long vdec(int vt, const void *v) {
    long x; size_t i;
    if (vt == 0) return atol(v);
    memcpy(&x, v, sizeof x);
    for (i = sizeof x; i < VSZ; i++) if (((const unsigned char *) v)[i] != (unsigned char) (x + 7 * (long) i)) return -9;
    return x;
}
/* a comparison function only promises the sign of its result */
static int mul(int d, long x) { static const int f[] = { 1, 7, 256, 65536, 0x7fffffff }; return d * f[(x < 0 ? -x : x) % 5]; }
static size_t h_const(const void *k, size_t n) { (void) k; return 5 % n; }
static size_t h_last(const void *k, size_t n) { (void) k; return n - 1; }
static size_t h_mod(const void *k, size_t n) { return (size_t) kdec(ckt, k) % 3 % n; }
static size_t h_id(const void *k, size_t n) { return (size_t) kdec(ckt, k) % n; }
static size_t h_weak(const void *k, size_t n) { (void) n; return (size_t) kdec(ckt, k) % 7; }
static int c_pk(const void *a, const void *b) { long x = ((const struct pk *) a)->k, y = ((const struct pk *) b)->k; return mul(x < y ? -1 : x > y, x + y); }
static int c_op(const void *a, const void *b) { int d = memcmp(a, b, 6); return mul(d < 0 ? -1 : d > 0, ((const unsigned char *) a)[1] + ((const unsigned char *) b)[1]); }
static void f_key(const void *k) { kfd[nkf++] = ((const struct pk *) k)->id; free((void *) k); }
static void f_val(void *v) { long x; memcpy(&x, v, sizeof x); vfd[nvf++] = x; free(v); }
static int cvt;
static int f_cmp(void *a, void *b) { long x = vdec(cvt, a) % 3, y = vdec(cvt, b) % 3; return mul(x < y ? -1 : x > y, vdec(cvt, a) + vdec(cvt, b)); }
static u_string_t *f_str(u_hmap_o_t *o) { u_string_t *s = NULL; (void) o; u_string_create("o", 1, &s); return s; }
static void f_obj(u_hmap_o_t *o) { map_t *m = &M[1]; if (m->kf) f_key(u_hmap_o_get_key(o)); else u_free(u_hmap_o_get_key(o)); if (m->vf) f_val(u_hmap_o_get_val(o)); else u_free(u_hmap_o_get_val(o)); }
static int lcmp(const void *a, const void *b) { long x = *(const long *) a, y = *(const long *) b; return x < y ? -1 : x > y; }
static struct { long k, v; } P[KEYS]; static size_t np; static long F[KEYS], G[KEYS]; static size_t nf, ng; static map_t *cur;
static int pcmp(const void *a, const void *b) { return lcmp(a, b); }
static int e_kv(const void *k, const void *v) { if (np < KEYS) { P[np].k = kdec(cur->kt, k); P[np].v = vdec(cur->vt, v); np++; } return U_HMAP_ERR_NONE; }
static int e_v(const void *v) { if (nf < KEYS) F[nf++] = vdec(cur->vt, v); return U_HMAP_ERR_NONE; }
static int e_va(const void *v, const void *arg) { if (ng < KEYS && arg == (void *) G) G[ng++] = vdec(cur->vt, v); return U_HMAP_ERR_NONE; }
static void obs(void) {
    int i; size_t j; long k[KEYS], v[KEYS], w[KEYS];
    r_open("m", '[');
    for (i = 1; i < 3; i++) {
        r_open(NULL, '{'); np = nf = ng = 0;
        if (M[i].h == NULL) r_int("n", -1);
        else {
            cur = &M[i]; ckt = cur->kt; r_int("n", (long) u_hmap_count(cur->h));
            u_hmap_foreach_keyval(cur->h, e_kv); u_hmap_foreach(cur->h, e_v); u_hmap_foreach_arg(cur->h, e_va, G);
        }
        qsort(P, np, sizeof *P, pcmp);
        for (j = 0; j < np; j++) { k[j] = P[j].k; w[j] = v[j] = P[j].v; }
        qsort(w, np, sizeof *w, lcmp); qsort(F, nf, sizeof *F, lcmp); qsort(G, ng, sizeof *G, lcmp);
        if (nf != np || ng != np || memcmp(w, F, np * sizeof *w) || memcmp(w, G, np * sizeof *w)) k[np] = v[np] = -1, np++;  /* the traversals disagree */
        r_ints("k", k, np); r_ints("v", v, np);
        r_close('}');
    }
    r_close(']');
    { long live = drv_live - base; r_int("live", M[1].h || M[2].h ? 0 : live); }
}
static void *kmake(map_t *m, long k, long id, void *buf) {
    if (m->kt == 0) { sprintf(buf, k % 7 == 3 ? "k%ld%%n%%s" : k % 11 == 5 ? "k%ld%300s" : "k%ld", k, "x"); return buf; }
    if (m->kt == 1) { memset(buf, 0, 6); ((unsigned char *) buf)[0] = 1 + k / 200; ((unsigned char *) buf)[1] = 1 + k % 200; ((unsigned char *) buf)[3] = 'z'; return buf; }
    { struct pk *p = buf; p->k = k; p->id = id; return p; }
}
static void drop(u_hmap_o_t *o, int free_o) {      /* the user releases an object it owns */
    size_t i;
    for (i = 0; i < nu; i++) if (U[i].o == o) { if (free_o) u_hmap_o_free(o); free(U[i].k); free(U[i].v); U[i] = U[--nu]; return; }
}
static void drop_all(int m) { size_t i = 0; while (i < nu) if (U[i].m == m) drop(U[i].o, 1); else i++; }
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0, got = 0, old = 0; int i = (int) a[0].i; map_t *m = &M[i]; char kb[512], vb[64];
    nkf = nvf = 0;
    if (!strncmp(op, "new", 3)) {
        /* m pcy max own ow fk fv size type hash kt vt easy objfree strong */
        u_hmap_opts_t *o = NULL; int easy = (int) a[12].i;
        static size_t (*const hf[])(const void *, size_t) = { NULL, h_const, h_last, h_mod, h_id, h_weak };
        if (i == 1) { base = drv_live; memset(M, 0, sizeof M); nu = 0; }
        m->kt = (int) a[10].i; m->vt = (int) a[11].i; m->own = (int) a[3].i; m->kf = (int) a[5].i; m->vf = (int) a[6].i; m->easy = easy;
        if (u_hmap_opts_new(&o)) abort();
        u_hmap_opts_set_size(o, (int) a[7].i); u_hmap_opts_set_max(o, (int) a[2].i);
        u_hmap_opts_set_type(o, a[8].i ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN);
        u_hmap_opts_set_policy(o, !strcmp(a[1].s, "fifo") ? U_HMAP_PCY_FIFO : !strcmp(a[1].s, "lru") ? U_HMAP_PCY_LRU : !strcmp(a[1].s, "lfu") ? U_HMAP_PCY_LFU :
            !strcmp(a[1].s, "custom") ? U_HMAP_PCY_CUSTOM : U_HMAP_PCY_NONE);
        cvt = m->vt;
        if (!strcmp(a[1].s, "custom")) u_hmap_opts_set_policy_cmp(o, f_cmp);
        if (a[4].i) u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE);
        if (!m->own) u_hmap_opts_unset_option(o, U_HMAP_OPTS_OWNSDATA);
        if (a[14].i) u_hmap_opts_set_option(o, U_HMAP_OPTS_HASH_STRONG);
        if (a[9].i) u_hmap_opts_set_hashfunc(o, hf[a[9].i]);
        if (!easy) { u_hmap_opts_set_key_type(o, m->kt == 0 ? U_HMAP_OPTS_DATATYPE_STRING : m->kt == 1 ? U_HMAP_OPTS_DATATYPE_OPAQUE : U_HMAP_OPTS_DATATYPE_POINTER);
            if (m->kt == 1) u_hmap_opts_set_key_sz(o, 6);
            if (m->kt) u_hmap_opts_set_compfunc(o, m->kt == 1 ? c_op : c_pk);
            if (m->kf && !a[13].i) u_hmap_opts_set_key_freefunc(o, f_key);
            if (a[13].i) u_hmap_opts_set_freefunc(o, f_obj); }
        u_hmap_opts_set_val_type(o, m->vt == 0 ? U_HMAP_OPTS_DATATYPE_STRING : m->vt == 1 ? U_HMAP_OPTS_DATATYPE_OPAQUE : U_HMAP_OPTS_DATATYPE_POINTER);
        if (m->vt == 1) u_hmap_opts_set_val_sz(o, VSZ);
        if (m->vf) u_hmap_opts_set_val_freefunc(o, f_val);
        if (m->kt && m->vt && m->kt % 2) u_hmap_opts_set_strfunc(o, f_str);
        if (op[3]) {
            u_hmap_opts_t *o2 = NULL; long lk, lk2;
            DRV_CREATE(lk, rc, easy ? u_hmap_easy_new(o, &m->h) : u_hmap_new(o, &m->h));
            DRV_CREATE(lk2, rc, u_hmap_opts_new(&o2)); u_hmap_opts_free(o2);
            r_int("leaked", lk + lk2);
        } else rc = easy ? u_hmap_easy_new(o, &m->h) : u_hmap_new(o, &m->h);
        u_hmap_opts_free(o);
    } else if (!strcmp(op, "put")) {
        struct pk *pk = NULL; void *k, *v; u_hmap_o_t *o, *ret = NULL;
        ckt = m->kt; cvt = m->vt;
        k = (m->kt == 2 || !m->own) ? malloc(sizeof kb) : kb;
        k = kmake(m, a[1].i, a[2].i, k);
        v = (m->vt == 2 || !m->own) ? malloc(sizeof vb) : vb;
        if (m->vt == 0) sprintf(v, "%ld", a[2].i); else vput(v, a[2].i);
        if (m->easy) { rc = u_hmap_easy_put(m->h, k, v); if (rc == U_HMAP_ERR_FAIL && m->vt == 2) free(v); }    /* refused: still the caller's */
        else {
            o = u_hmap_o_new(m->h, k, v);
            if (!o) { rc = U_HMAP_ERR_FAIL; if (m->kt == 2 || !m->own) free(k); if (m->vt == 2 || !m->own) free(v); goto put_done; }
            if (!m->own) { U[nu].o = o; U[nu].k = k; U[nu].v = v; U[nu].m = i; nu++; }
            rc = u_hmap_put(m->h, o, &ret);
            if (!m->own) {
                if (ret) old = vdec(m->vt, u_hmap_o_get_val(ret));
                if (rc != U_HMAP_ERR_NONE) drop(o, 1); else if (ret) drop(ret, 1);
            } else if (ret) old = -1;
            else if (rc == U_HMAP_ERR_FAIL) {       /* refused: the object is released by whoever made it */
                if (m->kt == 2) free(k); else u_free(u_hmap_o_get_key(o));
                if (m->vt == 2) free(v); else u_free(u_hmap_o_get_val(o));
                u_hmap_o_free(o);
            }
        }
put_done:
        memset(kb, 'Z', sizeof kb); memset(vb, 'Z', sizeof vb);
        rc = rc == U_HMAP_ERR_NONE ? 0 : rc == U_HMAP_ERR_EXISTS ? 1 : -1; (void) pk;
    } else if (!strcmp(op, "get") || !strcmp(op, "del")) {
        void *k = kmake(m, a[1].i, -1, kb); u_hmap_o_t *o = (u_hmap_o_t *) 1;
        ckt = m->kt; cvt = m->vt;
        if (op[0] == 'g') {
            if (m->easy) { void *v = u_hmap_easy_get(m->h, k); rc = v ? 0 : -1; if (v) got = vdec(m->vt, v); }
            else { rc = u_hmap_get(m->h, k, &o); rc = rc == U_HMAP_ERR_NONE ? 0 : -1;
                if (rc == 0) { got = vdec(m->vt, u_hmap_o_get_val(o)); if (kdec(m->kt, u_hmap_o_get_key(o)) != a[1].i) got = -2; } else if (o) got = -3; }
        } else if (m->easy) rc = u_hmap_easy_del(m->h, k) == U_HMAP_ERR_NONE ? 0 : -1;
        else { rc = u_hmap_del(m->h, k, &o) == U_HMAP_ERR_NONE ? 0 : -1; if (o) { old = vdec(m->vt, u_hmap_o_get_val(o)); drop(o, 1); } }
    } else if (!strcmp(op, "clear")) { ckt = m->kt; if (m->easy) u_hmap_easy_clear(m->h); else u_hmap_clear(m->h); drop_all(i); }
    else if (!strcmp(op, "free")) { ckt = m->kt; if (m->easy) u_hmap_easy_free(m->h); else u_hmap_free(m->h); m->h = NULL; drop_all(i); }
    else if (!strcmp(op, "copy")) {
        size_t j; int f = (int) a[1].i;
        ckt = m->kt; cvt = m->vt;
        rc = u_hmap_copy(m->h, M[f].h);
        rc = rc == U_HMAP_ERR_NONE ? 0 : -1;
        for (j = 0; j < nu; j++) if (U[j].m == f) U[j].m = i;
    }
    else if (!strcmp(op, "dbg")) { ckt = m->kt; cvt = m->vt; u_hmap_dbg(m->h); u_hmap_pcy_dbg(m->h); }
    r_int("rc", rc); r_int("got", got); r_int("old", old);
    qsort(kfd, nkf, sizeof *kfd, lcmp); qsort(vfd, nvf, sizeof *vfd, lcmp);
    r_ints("kf", kfd, nkf); r_ints("vf", vfd, nvf);
    obs();
}
