#include "drv.h"
#define N 64
struct el { long id; LIST_ENTRY(el) l; TAILQ_ENTRY(el) t; CIRCLEQ_ENTRY(el) c; };
LIST_HEAD(lh, el); TAILQ_HEAD(th, el); CIRCLEQ_HEAD(ch, el);
static struct lh LH; static struct th TH; static struct ch CH; static struct el *E[N]; static int kind;
void session_begin(void) { int i; for (i = 0; i < N; i++) { E[i] = malloc(sizeof(struct el)); memset(E[i], 0xA5, sizeof(struct el)); E[i]->id = i; } kind = 0; }
static void obs(const long *vis, size_t nv) {
    long v[N*2], b[N*2]; size_t n = 0, m = 0, i; struct el *e; int links = 1; long first = 0, last = 0; int empty = 1;
    if (kind == 1) {
        LIST_FOREACH(e, &LH, l) { if (n >= N) break; v[n++] = e->id; if (*e->l.le_prev != e) links = 0; }
        e = LIST_FIRST(&LH); first = e ? e->id : 0; empty = LIST_EMPTY(&LH);
    } else if (kind == 2) {
        TAILQ_FOREACH(e, &TH, t) { if (n >= N) break; v[n++] = e->id; if (*e->t.tqe_prev != e) links = 0; }
        TAILQ_FOREACH_REVERSE(e, &TH, th, t) { if (m >= N) break; b[m++] = e->id; }
        e = TAILQ_FIRST(&TH); first = e ? e->id : 0; e = TAILQ_LAST(&TH, th); last = e ? e->id : 0; empty = TAILQ_EMPTY(&TH);
        if (*TH.tqh_last != NULL) links = 0;
    } else if (kind == 3) {
        for (e = CH.cqh_first; e != (void *) &CH && n < N; e = e->c.cqe_next) v[n++] = e->id;
        for (e = CH.cqh_last; e != (void *) &CH && m < N; e = e->c.cqe_prev) b[m++] = e->id;
        first = n ? CH.cqh_first->id : 0; last = n ? CH.cqh_last->id : 0; empty = CH.cqh_first == (void *) &CH;
    }
    (void) i;
    r_ints("fwd", v, n); r_ints("back", b, m); r_int("first", first); r_int("last", last); r_bool("empty", empty);
    r_bool("links", links); r_ints("visited", vis, nv);
}
static struct el *fresh(long i) { /* a removed element's links must not matter */ E[i] = malloc(sizeof(struct el)); memset(E[i], 0xA5, sizeof(struct el)); E[i]->id = i; return E[i]; }
static void drop(struct el *e) { long i = e->id; free(e); E[i] = NULL; fresh(i); }
void run_op(const char *op, int ac, arg_t *a) {
    long vis[N]; size_t nv = 0; struct el *e, *t, *x = NULL, *at = NULL; long par = a[0].i;
    if (strcmp(op, "new") && ac > 0 && strcmp(op, "sweep") && strcmp(op, "rsweep")) { x = E[a[0].i]; if (ac > 1) at = E[a[1].i]; }
    if (!strcmp(op, "new")) { kind = !strcmp(a[0].s, "list") ? 1 : !strcmp(a[0].s, "tailq") ? 2 : 3; LIST_INIT(&LH); TAILQ_INIT(&TH); CIRCLEQ_INIT(&CH); }
    else if (kind == 1) {
        if (!strcmp(op, "head")) LIST_INSERT_HEAD(&LH, x, l);
        else if (!strcmp(op, "after")) LIST_INSERT_AFTER(at, x, l);
        else if (!strcmp(op, "before")) LIST_INSERT_BEFORE(at, x, l);
        else if (!strcmp(op, "replace")) { LIST_REPLACE(at, x, l); drop(at); }
        else if (!strcmp(op, "remove")) { LIST_REMOVE(x, l); drop(x); }
        else if (!strcmp(op, "sweep")) { LIST_FOREACH_SAFE(e, &LH, l, t) { if (nv < N) vis[nv++] = e->id; if (e->id % 2 == par) { LIST_REMOVE(e, l); drop(e); } } }
    } else if (kind == 2) {
        if (!strcmp(op, "head")) { TAILQ_INSERT_HEAD(&TH, x, t); }
        else if (!strcmp(op, "tail")) { TAILQ_INSERT_TAIL(&TH, x, t); }
        else if (!strcmp(op, "after")) { TAILQ_INSERT_AFTER(&TH, at, x, t); }
        else if (!strcmp(op, "before")) TAILQ_INSERT_BEFORE(at, x, t);
        else if (!strcmp(op, "remove")) { TAILQ_REMOVE(&TH, x, t); drop(x); }
        else if (!strcmp(op, "sweep")) { TAILQ_FOREACH_SAFE(e, &TH, t, t) { if (nv < N) vis[nv++] = e->id; if (e->id % 2 == par) { TAILQ_REMOVE(&TH, e, t); drop(e); } } }
        else if (!strcmp(op, "rsweep")) { TAILQ_FOREACH_REVERSE_SAFE(e, &TH, th, t, t) { if (nv < N) vis[nv++] = e->id; if (e->id % 2 == par) { TAILQ_REMOVE(&TH, e, t); drop(e); } } }
    } else {
        if (!strcmp(op, "head")) { CIRCLEQ_INSERT_HEAD(&CH, x, c); }
        else if (!strcmp(op, "tail")) { CIRCLEQ_INSERT_TAIL(&CH, x, c); }
        else if (!strcmp(op, "after")) { CIRCLEQ_INSERT_AFTER(&CH, at, x, c); }
        else if (!strcmp(op, "before")) { CIRCLEQ_INSERT_BEFORE(&CH, at, x, c); }
        else if (!strcmp(op, "remove")) { CIRCLEQ_REMOVE(&CH, x, c); drop(x); }
    }
    obs(vis, nv);
}
