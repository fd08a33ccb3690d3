#include "drv.h"
#include <toolbox/lexer.h>
#include <wchar.h>
static u_lexer_t *L; static long base;
void session_begin(void) { static int once; if (!once++) drv_mem_install(); L = NULL; }
void run_op(const char *op, int ac, arg_t *a) {
    long rc = 0; char c = 1; long got = -9; char *m = malloc(U_TOKEN_SZ), *r, *pb = &c;
    if (!strcmp(op, "new")) { u_lexer_free(L); L = NULL; rc = u_lexer_new((char *) a[0].b, &L); memset(a[0].b, 'Z', a[0].n); }
    else if (!strcmp(op, "newm")) { long lk; u_lexer_free(L); L = NULL; base = drv_live; DRV_CREATE(lk, rc, u_lexer_new((char *) a[0].b, &L)); r_int("leaked", lk); memset(a[0].b, 'Z', a[0].n); }
    else if (!strcmp(op, "free")) { u_lexer_free(L); L = NULL; r_int("rc", 0); r_int("live", drv_live - base); free(m); return; }
    else if (!strcmp(op, "next") || !strcmp(op, "skip")) {
        char c2 = 2; long rc2 = 0; (void) c2; (void) rc2;
        if (!a[0].i) pb = NULL;
        rc = op[0] == 'n' ? u_lexer_next(L, pb) : u_lexer_skip(L, pb);
        if (rc == 0 && pb) got = (unsigned char) c;
    } else if (!strcmp(op, "eat")) rc = u_lexer_eat_ws(L);
    else if (!strcmp(op, "expect")) rc = u_lexer_expect_char(L, (char) a[0].i);
    else if (!strcmp(op, "lmark")) u_lexer_record_lmatch(L);
    else if (!strcmp(op, "rmark")) u_lexer_record_rmatch(L);
    else if (!strcmp(op, "seterr")) {
        const char *k = a[0].s, *t = (char *) a[1].b; int n = (int) a[2].i;
        rc = !strcmp(k, "s") ? u_lexer_seterr(L, "%s", t) : !strcmp(k, "d") ? u_lexer_seterr(L, "%d", n) : !strcmp(k, "sd") ? u_lexer_seterr(L, "<%s|%d>", t, n) :
             !strcmp(k, "pad") ? u_lexer_seterr(L, "%*s", n, t) : !strcmp(k, "lit") ? u_lexer_seterr(L, "%%a") : u_lexer_seterr(L, "%s", "");
    }
    r_int("rc", rc ? -1 : 0); r_int("c", got);
    r_int("peek", (unsigned char) u_lexer_peek(L)); r_int("pos", (long) u_lexer_pos(L)); r_cstr("look", u_lexer_lookahead(L));
    r_bool("eot", u_lexer_eot(L));
    memset(m, 'Q', U_TOKEN_SZ); r = u_lexer_get_match(L, m); r_cstr("match", r); if (r && r != m) r_int("bad", 1);
    r_cstr("err", u_lexer_geterr(L)); free(m);
}
