#include "drv.h"
#include <wchar.h>
static u_string_t *S[3]; static long base;
void session_begin(void) { static int once; if (!once++) drv_mem_install(); S[1] = S[2] = NULL; base = drv_live; }
static void obs(long rc) {
    int i;
    r_int("rc", rc ? -1 : 0); r_open("t", '[');
    for (i = 1; i <= 2; i++) r_cstr(NULL, S[i] ? u_string_c(S[i]) : NULL);
    r_close(']'); r_open("len", '[');
    for (i = 1; i <= 2; i++) r_int(NULL, S[i] ? (long) u_string_len(S[i]) : -1);
    r_close(']');
}
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0; int w = (int) (ac ? a[0].i : 1); u_string_t **p = &S[w], *s = S[w];
    if (!strcmp(op, "new")) { base = drv_live; r_int("rc", 0); return; }
    if (!strcmp(op, "end")) { u_string_free(S[1]); u_string_free(S[2]); S[1] = S[2] = NULL; r_int("rc", 0); r_int("live", drv_live - base); return; }
    if (!strncmp(op, "create", 6) || !strcmp(op, "set") || !strcmp(op, "append")) {
        char *t = NULL; size_t n = (size_t) a[2].i;
        if (!a[1].null) { size_t k = n < a[1].n ? n : a[1].n + 1; t = malloc(k ? k : 1); memcpy(t, a[1].b, k); }  /* no terminator when n <= length */
        if (!strcmp(op, "createm")) { long lk; DRV_CREATE(lk, rc, u_string_create(t, n, p)); r_int("leaked", lk); }
        else rc = op[0] == 'c' ? u_string_create(t, n, p) : op[0] == 's' ? u_string_set(s, t, n) : u_string_append(s, t, n);
        free(t);
    } else if (!strcmp(op, "cat")) rc = u_string_cat(s, (char *) a[1].b);
    else if (!strcmp(op, "sprintf") || !strcmp(op, "aprintf")) {
        const char *k = a[1].s, *t = (char *) a[2].b; int n = (int) a[3].i, c = op[0] == 's';
        static int alt; alt++;
#define PF(...) (alt % 3 == 0 ? u_string_do_printf(s, c, __VA_ARGS__) : c ? u_string_sprintf(s, __VA_ARGS__) : u_string_aprintf(s, __VA_ARGS__))
        rc = !strcmp(k, "s") ? PF("%s", t) : !strcmp(k, "d") ? PF("%d", n) : !strcmp(k, "sd") ? PF("<%s|%d>", t, n) :
             !strcmp(k, "pad") ? PF("%*s", n, t) : !strcmp(k, "lit") ? PF("%%a") : !strcmp(k, "empty") ? PF("%s", "") : PF("zz%lc", (wint_t) 0x20ac);
    } else if (!strcmp(op, "copy")) rc = u_string_copy(s, S[a[1].i]);
    else if (!strcmp(op, "trim")) rc = u_string_trim(s);
    else if (!strcmp(op, "clear")) rc = u_string_clear(s);
    else if (!strcmp(op, "reserve")) rc = u_string_reserve(s, (size_t) a[1].i);
    else if (!strcmp(op, "huge")) { rc = u_string_reserve(s, (size_t) -1) && u_string_reserve(s, (size_t) -2) ? -1 : 0; { int i; for (i = 0; i < 30; i++) if (u_string_append(s, "zz", ((size_t) -1) / 4 ) == 0) rc = 0; } }
    else if (!strcmp(op, "setlen")) rc = u_string_set_length(s, (size_t) a[1].i);
    else if (!strcmp(op, "free")) { rc = u_string_free(s); *p = NULL; }
    else if (!strcmp(op, "detach")) { char *c = u_string_detach_cstr(s); *p = NULL; r_cstr("det", c); if (c) { memset(c, 'Z', strlen(c)); u_free(c); } }
    obs(rc);
}
