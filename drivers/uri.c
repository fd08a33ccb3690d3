#include "drv.h"
#include <toolbox/uri.h>
static u_uri_t *u;
void session_begin(void) { static int once; if (!once++) drv_mem_install(); if (u) { u_uri_free(u); u = NULL; } }
static void obs(void) {
    r_open("o", '{');
    if (!u) r_bool("live", 0);
    else {
        int fl = u_uri_get_flags(u);
        r_open("f", '{');
#define G(x) r_cstr(#x, u_uri_get_##x(u))
        G(scheme); G(userinfo); G(user); G(pwd); G(host); G(port); G(authority); G(path); G(query); G(fragment);
        r_close('}');
        r_bool("ip", !!(fl & U_URI_FLAGS_HOST_IS_IPADDRESS)); r_bool("lit", !!(fl & U_URI_FLAGS_HOST_IS_IPLITERAL));
    }
    r_close('}');
}
static int ext;
static void uprint(void *x) { u_uri_print(x, ext); }
void run_op(const char *op, int ac, arg_t *a) {
    if (!strcmp(op, "new")) {
        if (u) u_uri_free(u);
        u = NULL;
        int rc = u_uri_new(U_URI_OPT_NONE, &u);
        r_int("rc", rc ? -1 : 0); obs();
    } else if (!strcmp(op, "parse")) {
        if (u) u_uri_free(u);
        u = NULL;
        u_uri_t *p = NULL;
        long live = drv_live;
        int rc = u_uri_crumble((char *) a[0].b, a[1].i ? U_URI_OPT_NONE : U_URI_OPT_DONT_PARSE_USERINFO, &p);
        if (!rc) u = p;
        if (rc && drv_live != live) r_int("leak", drv_live - live);
        r_int("rc", rc ? -1 : 0); obs();
    } else if (!strcmp(op, "isabs")) {
        long live = drv_live;
        int rc = u_uri_is_absolute((char *) a[0].b);
        if (drv_live != live) r_int("leak", drv_live - live);
        r_int("rc", rc); obs();
    } else if (!u) {
        r_int("rc", -9); obs();
    } else if (!strcmp(op, "set")) {
        const char *f = a[0].s, *v = a[1].i ? NULL : (char *) a[2].b; int rc = -99;
        char fb[32]; if (a[0].b) { snprintf(fb, sizeof fb, "%s", (char *) a[0].b); f = fb; }
#define S(x) if (!strcmp(f, #x)) rc = u_uri_set_##x(u, v);
        S(scheme) S(userinfo) S(user) S(pwd) S(host) S(port) S(authority) S(path) S(query) S(fragment)
        r_int("rc", rc == 0 ? 0 : rc == -99 ? -99 : -1); obs();
    } else if (!strcmp(op, "print")) {
        size_t n; char *b; ext = (int) a[0].i; b = drv_stderr(uprint, u, &n); r_bytes("t", b, n); free(b); obs();
    } else if (!strcmp(op, "knead")) {
        char *s = malloc(U_URI_STRMAX); memset(s, 'Q', U_URI_STRMAX);
        int rc = u_uri_knead(u, s);
        r_int("rc", rc ? -1 : 0);
        if (rc) r_cstr("t", NULL); else r_cstr("t", s);
        free(s); obs();
    }
}
