#include "drv.h"
static u_list_t *L; static long base; static char cell[4096];
#define P(i) ((i) ? (void *) (cell + (i)) : NULL)
#define ID(p) ((p) ? (long) ((char *) (p) - cell) : 0)
void session_begin(void) { L = NULL; }
static void obs(long rc, long got) {
    long v[4096]; size_t n = 0; void *it, *p; size_t i, c = u_list_count(L);
    r_int("rc", rc); r_int("got", got);
    if (c % 2) for (p = u_list_first(L, &it); p && n < 4096; p = u_list_next(L, &it)) v[n++] = ID(p);
    else u_list_foreach (L, p, it) v[n++] = ID(p);
    r_ints("items", v, n);
    for (n = 0, i = 0; i < c && n < 4096; i++) v[n++] = ID(u_list_get_n(L, i));
    r_ints("byget", v, n);
    r_int("count", (long) c);
}
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0, got = 0; void *p = NULL;
    if (!strcmp(op, "new")) { if (L) u_list_free(L); L = NULL; rc = u_list_create(&L); }
    else if (!strcmp(op, "newm")) { long lk; if (L) u_list_free(L); L = NULL; base = drv_live; DRV_CREATE(lk, rc, u_list_create(&L)); r_int("leaked", lk); }
    else if (!strcmp(op, "free")) { u_list_free(L); L = NULL; r_int("rc", 0); r_int("live", drv_live - base); return; }
    else if (!strcmp(op, "add")) rc = u_list_add(L, P(a[0].i));
    else if (!strcmp(op, "insert")) rc = u_list_insert(L, P(a[0].i), (size_t) a[1].i);
    else if (!strcmp(op, "del")) rc = u_list_del(L, P(a[0].i));
    else if (!strcmp(op, "deln")) { rc = u_list_del_n(L, (size_t) a[0].i, &p); got = ID(p); }
    else if (!strcmp(op, "getn")) got = ID(u_list_get_n(L, (size_t) a[0].i));
    else if (!strcmp(op, "clear")) rc = u_list_clear(L);
    obs(rc, got);
}
