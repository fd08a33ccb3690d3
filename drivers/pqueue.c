#include "drv.h"
#include <math.h>
#include <float.h>
static u_pq_t *Q; static long base, nil; static int map; static char cell[65536];
#define NOKEY (-99999)
/* the specification's keys are integers; here they stand for numbers in the same order */
static double D(long k) {
    switch (map) {
        case 1: return 1.0 + (double) k * DBL_EPSILON;           /* neighbours */
        case 2: return (double) k * 5e303;                       /* huge */
        case 3: return (double) k * 4.9406564584124654e-324;     /* denormal */
        case 4: return k == 2 ? INFINITY : k == -2 ? -INFINITY : (double) k;
        case 5: return k < 0 ? -pow(1.03, (double) -k) : pow(1.03, (double) k);
    }
    return (double) k / 4;
}
static long seen[400]; static int nseen;
static long undo(double d) { int i; for (i = 0; i < nseen; i++) if (D(seen[i]) == d) return seen[i]; return -88888; }
static void *V(long id) { return id == nil ? NULL : cell + id; }
static long id_(void *p, int empty) { return p ? (long) ((char *) p - cell) : empty ? 0 : nil; }
void session_begin(void) { Q = NULL; }
void run_op(const char *op, int ac, arg_t *a) {
    static double none = -12345.678; long rc = 0, val = 0; double k = none; void *p = NULL; int e;
    if (!strncmp(op, "new", 3)) {
        if (Q) u_pq_free(Q);
        Q = NULL; map = (int) a[1].i; nil = a[2].i; nseen = 0; base = drv_live;
        if (op[3]) { long lk; DRV_CREATE(lk, rc, u_pq_create((size_t) a[0].i, &Q)); r_int("leaked", lk); } else rc = u_pq_create((size_t) a[0].i, &Q);
        rc = rc ? -1 : 0;
    }
    else if (!strcmp(op, "free")) { u_pq_free(Q); Q = NULL; r_int("rc", 0); r_int("live", drv_live - base); return; }
    else if (!strcmp(op, "push")) {
        long x = a[0].i;
        if (nseen < 400) seen[nseen++] = a[0].i;
        rc = u_pq_push(Q, D(x), V(a[1].i));
    }
    else if (!strcmp(op, "delmax")) { e = u_pq_empty(Q); p = u_pq_delmax(Q, &k); val = id_(p, e); }
    else if (!strcmp(op, "peek")) { e = u_pq_empty(Q); p = u_pq_peekmax(Q, &k); val = id_(p, e); }
    r_int("rc", rc); r_int("val", val); r_int("key", memcmp(&k, &none, sizeof k) ? undo(k) : NOKEY);
    r_bool("empty", Q ? u_pq_empty(Q) != 0 : 1); r_bool("full", Q ? u_pq_full(Q) != 0 : 1);
}
