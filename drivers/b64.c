#include "drv.h"
#include <toolbox/b64.h>
void session_begin(void) { static int once; if (!once++) drv_mem_install(); }
void run_op(const char *op, int ac, arg_t *a) {
    /* input and output live in exactly sized blocks */
    size_t n = (size_t) a[1].i, l = a[0].n; unsigned char *in = malloc(l ? l : 1), *out = malloc(n ? n : 1); int rc;
    memcpy(in, a[0].b, l); memset(out, 'Q', n ? n : 1);
    if (op[0] == 'e') {
        rc = u_b64_encode(in, l, (char *) out, n);
        r_int("rc", rc ? -1 : 0);
        if (!rc) { size_t e = U_B64_LENGTH(l); r_bytes("s", out, e <= n ? e : n); r_bool("term", n > e && out[e] == 0); }
    } else {
        size_t m = n; rc = u_b64_decode((char *) in, l, out, &m);
        r_int("rc", rc ? -1 : 0); r_int("n", (long) m);
        if (!rc) r_bytes("s", out, m <= n ? m : n);
        if (u_b64_decode((char *) in, l, out, NULL) == 0) r_int("nullsz", 1);
    }
    free(in); free(out);
}
