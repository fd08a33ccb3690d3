#include "drv.h"
#include <toolbox/json.h>
#include <toolbox/lexer.h>
#define NMAX 400
static u_json_t *N[NMAX];          /* the nodes, by the number given to them at creation */
static long live0;

static void drop_all(void);
static void jprint(void *x) { u_json_print(x); }
void session_begin(void) { static int once; if (!once++) drv_mem_install(); drop_all(); live0 = drv_live; }

/* the tree below jo as the navigation interface shows it; forward, checked against backward */
static int nav_bad;
static void nav(u_json_t *jo, long d, int dump) {
    u_json_it_t it; u_json_t *c; long f = 0, b = 0; u_json_t *prev = NULL, *last = NULL;
    if (dump) { r_open(NULL, '['); r_int(NULL, d); r_cstr(NULL, u_json_get_val(jo)); r_int(NULL, (long) u_json_array_count(jo)); r_close(']'); }
    u_json_it(u_json_child_first(jo), &it);
    while ((c = u_json_it_next(&it)) != NULL) { nav(c, d + 1, dump); last = c; ++f; }
    if (last != u_json_child_last(jo)) nav_bad = 1;
    u_json_it(u_json_child_last(jo), &it);
    while ((c = u_json_it_prev(&it)) != NULL) { ++b; prev = c; }
    if (f != b || prev != u_json_child_first(jo)) nav_bad = 1;
}

static int collect(u_json_t *jo, u_json_t **v, int n) {
    u_json_it_t it; u_json_t *c;
    v[n++] = jo;
    u_json_it(u_json_child_first(jo), &it);
    while ((c = u_json_it_next(&it)) != NULL) n = collect(c, v, n);
    return n;
}
static long idof(u_json_t *jo) { long i; if (!jo) return 0; for (i = 1; i < NMAX; i++) if (N[i] == jo) return i; return -1; }
static void forget(u_json_t *jo) { static u_json_t *v[NMAX * 8]; int n = collect(jo, v, 0), i; long k; for (i = 0; i < n; i++) if ((k = idof(v[i])) > 0) N[k] = NULL; }
/* children of n, through the iterators */
static void kids(const char *k, u_json_t *jo, int fwd) {
    long v[NMAX]; int n = 0; u_json_it_t it; u_json_t *c;
    u_json_it(fwd ? u_json_child_first(jo) : u_json_child_last(jo), &it);
    while ((c = fwd ? u_json_it_next(&it) : u_json_it_prev(&it)) != NULL && n < NMAX) v[n++] = idof(c);
    r_ints(k, v, n);
}
static void drop_all(void) { long i; for (i = 1; i < NMAX; i++) N[i] = NULL; }  /* earlier sessions free what they made */

static char *dupz(arg_t *a) { return a->null ? NULL : (char *) a->b; }
struct wk { long id[NMAX], l[NMAX]; int n; };
static void walk_cb(u_json_t *jo, size_t l, void *p) { struct wk *w = p; if (w->n < NMAX) { w->id[w->n] = idof(jo); w->l[w->n++] = (long) l; } }
static u_json_type_t ty(const char *s) {
    switch (*s) { case 'o': return U_JSON_TYPE_OBJECT; case 'a': return U_JSON_TYPE_ARRAY; case 's': return U_JSON_TYPE_STRING;
        case 'n': return U_JSON_TYPE_NUMBER; case 't': return U_JSON_TYPE_TRUE; case 'f': return U_JSON_TYPE_FALSE; case '0': return U_JSON_TYPE_NULL;
        case 'u': return U_JSON_TYPE_UNKNOWN; }
    return (u_json_type_t) 99;
}
static void r_long(const char *k, long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); r_cstr(k, b); }
static void r_real(const char *k, double v) { char b[64]; snprintf(b, sizeof b, "%.14e", v); r_cstr(k, b); }

static void op_decode(arg_t *a) {
    char *t = (char *) a[0].b, *st = malloc(U_LEXER_ERR_SZ), *e = NULL, *e2 = NULL; int rc, vrc, why; size_t i;
    u_json_t *jo = (u_json_t *) 0x1234, *j2 = NULL; long l0 = drv_live;
    memset(st, 'Q', U_LEXER_ERR_SZ);
    vrc = u_json_validate(t, st);
    for (i = 0; i < U_LEXER_ERR_SZ && st[i] == 'Q'; i++) ;
    why = vrc ? (st[0] != '\0' && i < U_LEXER_ERR_SZ && memchr(st, 0, U_LEXER_ERR_SZ)) : i < U_LEXER_ERR_SZ;
    if ((u_json_validate(t, NULL) != 0) != (vrc != 0)) r_int("nullstatus", 1);
    rc = u_json_decode(t, &jo);
    r_int("rc", rc ? -1 : 0); r_int("vrc", vrc ? -1 : 0); r_bool("why", why);
    if (rc == 0) {
        memset(t, 'Z', a[0].n);     /* the tree must not depend on the text any more */
        nav_bad = 0; r_open("nav", '['); nav(jo, 0, 1); r_close(']');
        if (nav_bad) r_int("navbad", 1);
        if (u_json_encode(jo, &e)) r_int("encfail", 1);
        else {
            r_cstr("enc", e);
            if (u_json_decode(e, &j2)) r_int("redecode", -1);
            else { if (u_json_encode(j2, &e2) || strcmp(e, e2)) r_int("reencode", -1); u_json_free(j2); }
        }
        u_free(e); u_free(e2); u_json_free(jo);
    } else if (jo != (u_json_t *) 0x1234) r_int("touched", 1);
    r_int("live", drv_live - l0); free(st);
}

/* every live node: its number, element count and children */
static void snap(void) {
    long i, j; int n; u_json_t *c, *prev, *last; u_json_it_t it; long v[NMAX];
    r_open("snap", '[');
    for (i = 1; i < NMAX; i++) if (N[i]) {
        r_open(NULL, '['); r_int(NULL, i); r_int(NULL, (long) u_json_array_count(N[i]));
        u_json_it(u_json_child_first(N[i]), &it); n = 0; last = NULL;
        while ((c = u_json_it_next(&it)) != NULL && n < NMAX) { v[n++] = idof(c); last = c; }
        r_ints(NULL, v, n); r_close(']');
        if (last != u_json_child_last(N[i])) nav_bad = 1;
        u_json_it(u_json_child_last(N[i]), &it); prev = NULL;
        for (j = n; (c = u_json_it_prev(&it)) != NULL; ) { if (--j < 0 || idof(c) != v[j]) { nav_bad = 1; break; } prev = c; }
        if (j > 0 || prev != u_json_child_first(N[i])) nav_bad = 1;
    }
    r_close(']');
    if (nav_bad) r_int("navbad", 1);
}

void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0, n; u_json_t *jo = NULL; char *s = NULL;
    nav_bad = 0;
    if (!strcmp(op, "decode")) { op_decode(a); return; }
    n = a[0].i;
    if (!strcmp(op, "new")) {
        const char *k = a[1].s; char *key = dupz(&a[2]), *v = dupz(&a[3]);
        if (*k == 'o') rc = u_json_new_object(key, &jo); else if (*k == 'a') rc = u_json_new_array(key, &jo);
        else if (*k == 's') rc = u_json_new_string(key, v, &jo); else if (*k == 'n') rc = u_json_new_number(key, v, &jo);
        else if (*k == 'i') rc = u_json_new_int(key, strtol(v, NULL, 10), &jo); else if (*k == 'r') rc = u_json_new_real(key, strtod(v, NULL), &jo);
        else if (*k == 't') rc = u_json_new_bool(key, 1, &jo); else if (*k == 'f') rc = u_json_new_bool(key, 0, &jo);
        else if (*k == '0') rc = u_json_new_null(key, &jo); else rc = u_json_new(&jo);
        if (rc == 0) N[n] = jo;
        if (a[2].b) memset(a[2].b, 'Z', a[2].n); if (a[3].b) memset(a[3].b, 'Z', a[3].n);
    } else if (!strcmp(op, "dec")) {
        static u_json_t *v[NMAX * 8]; int i, m;
        rc = u_json_decode((char *) a[1].b, &jo);
        if (rc == 0) { m = collect(jo, v, 0); for (i = 0; i < m && n + i < NMAX; i++) N[n + i] = v[i]; r_int("n", m); }
    } else if (!strcmp(op, "add")) rc = u_json_add(N[n], N[a[1].i]);
    else if (!strcmp(op, "remove") || !strcmp(op, "free")) {
        u_json_t *v[NMAX]; long id[NMAX]; int i, m = collect(N[n], v, 0);
        for (i = 0; i < m; i++) { id[i] = idof(v[i]); }
        if (op[0] == 'f') u_json_free(N[n]); else rc = u_json_remove(N[n]);
        if (rc == 0) for (i = 0; i < m; i++) if (id[i] > 0) N[id[i]] = NULL;
    } else if (!strcmp(op, "setkey")) rc = u_json_set_key(N[n], dupz(&a[1]));
    else if (!strcmp(op, "setval")) rc = a[2].i == 2 ? u_json_set_val(N[n], dupz(&a[1])) : u_json_set_val_ex(N[n], dupz(&a[1]), (char) a[2].i);
    else if (!strcmp(op, "settype")) rc = u_json_set_type(N[n], ty(a[1].s));
    else if (!strcmp(op, "index")) rc = u_json_index(N[n]);
    else if (!strcmp(op, "unindex")) rc = u_json_unindex(N[n]);
    else if (!strcmp(op, "get")) {
        long l = 0; double d = 0; char b = 9; const char *nm = (char *) a[1].b;
        r_int("id", idof(u_json_cache_get(N[n], nm))); r_cstr("val", u_json_cache_get_val(N[n], nm));
        rc = u_json_cache_get_int(N[n], nm, &l); if (rc) r_cstr("int", NULL); else r_long("int", l);
        rc = u_json_cache_get_real(N[n], nm, &d); if (rc) r_cstr("real", NULL); else r_real("real", d);
        rc = u_json_cache_get_bool(N[n], nm, &b); r_int("bool", rc ? -1 : b); return;
    } else if (!strcmp(op, "look")) {
        long l = 0; double d = 0; char b = 9;
        kids("fwd", N[n], 1); kids("bwd", N[n], 0);
        r_int("first", idof(u_json_child_first(N[n]))); r_int("last", idof(u_json_child_last(N[n])));
        r_int("count", (long) u_json_array_count(N[n])); r_cstr("val", u_json_get_val(N[n]));
        rc = u_json_get_int(N[n], &l); if (rc) r_cstr("int", NULL); else r_long("int", l);
        rc = u_json_get_real(N[n], &d); if (rc) r_cstr("real", NULL); else r_real("real", d);
        rc = u_json_get_bool(N[n], &b); r_int("bool", rc ? -1 : b); return;
    } else if (!strcmp(op, "nth")) { r_int("id", idof(u_json_array_get_nth(N[n], (unsigned) a[1].i))); return; }
    else if (!strcmp(op, "settv")) rc = u_json_cache_set_tv(N[n], (char *) a[1].b, ty(a[2].s), dupz(&a[3]));
    else if (!strcmp(op, "walk")) {
        static struct wk w; w.n = 0;
        u_json_walk(N[n], a[1].i ? U_JSON_WALK_POSTORDER : U_JSON_WALK_PREORDER, (size_t) a[2].i, walk_cb, &w);
        r_ints("ids", w.id, w.n); r_ints("ls", w.l, w.n); return;
    } else if (!strcmp(op, "print")) {
        size_t z; char *b = drv_stderr(jprint, N[n], &z);
        r_bytes("t", b, z); free(b); return;
    } else if (!strcmp(op, "enc")) {
        char *e2 = NULL; u_json_t *j2 = NULL; char st[U_LEXER_ERR_SZ];
        rc = u_json_encode(N[n], &s);
        if (rc == 0) {
            r_cstr("enc", s);
            /* what the decoder makes of it */
            rc = u_json_decode(s, &j2);
            r_int("drc", rc ? -1 : 0); r_int("vrc", u_json_validate(s, st) ? -1 : 0);
            if (rc == 0) { nav_bad = 0; r_open("nav", '['); nav(j2, 0, 1); r_close(']'); r_bool("same", u_json_encode(j2, &e2) == 0 && !strcmp(e2, s) && !nav_bad); u_free(e2); u_json_free(j2); }
            rc = 0; u_free(s);
        }
    } else if (!strcmp(op, "end")) {
        long i; for (i = 1; i < NMAX; i++) if (N[i]) { u_json_t *r = N[i]; int up; long k;
            /* free whole trees from their root: find it by elimination */
            for (up = 1; up; ) { up = 0; for (k = 1; k < NMAX; k++) if (N[k] && N[k] != r) { u_json_it_t it; u_json_t *c; u_json_it(u_json_child_first(N[k]), &it);
                while ((c = u_json_it_next(&it)) != NULL) if (c == r) { r = N[k]; up = 1; break; } if (up) break; } }
            forget(r); u_json_free(r); }
        r_int("live", drv_live - live0); return;
    }
    r_int("rc", rc ? -1 : 0);
    if (strcmp(op, "enc")) snap();
}
