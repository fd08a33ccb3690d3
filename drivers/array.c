#include "drv.h"
#include <complex.h>
static u_array_t *A; static long base; static char cell[512];
void session_begin(void) { A = NULL; }
/* token -> value: distinct values using the whole width of the type; 0 is the zero value */
static const unsigned long long W = 0x0101010101010101ULL;
static int typecode(const char *t) {
    if (!strcmp(t, "char")) return U_ARRAY_TYPE_CHAR;
    if (!strcmp(t, "u_char")) return U_ARRAY_TYPE_U_CHAR;
    if (!strcmp(t, "short")) return U_ARRAY_TYPE_SHORT;
    if (!strcmp(t, "u_short")) return U_ARRAY_TYPE_U_SHORT;
    if (!strcmp(t, "int")) return U_ARRAY_TYPE_INT;
    if (!strcmp(t, "u_int")) return U_ARRAY_TYPE_U_INT;
    if (!strcmp(t, "long")) return U_ARRAY_TYPE_LONG;
    if (!strcmp(t, "u_long")) return U_ARRAY_TYPE_U_LONG;
    if (!strcmp(t, "float")) return U_ARRAY_TYPE_FLOAT;
    if (!strcmp(t, "double")) return U_ARRAY_TYPE_DOUBLE;
    if (!strcmp(t, "bool")) return U_ARRAY_TYPE_BOOL;
    if (!strcmp(t, "long_long")) return U_ARRAY_TYPE_LONG_LONG;
    if (!strcmp(t, "u_long_long")) return U_ARRAY_TYPE_U_LONG_LONG;
    if (!strcmp(t, "intmax")) return U_ARRAY_TYPE_INTMAX;
    if (!strcmp(t, "u_intmax")) return U_ARRAY_TYPE_U_INTMAX;
    if (!strcmp(t, "long_double")) return U_ARRAY_TYPE_LONG_DOUBLE;
    if (!strcmp(t, "float_complex")) return U_ARRAY_TYPE_FLOAT_COMPLEX;
    if (!strcmp(t, "double_complex")) return U_ARRAY_TYPE_DOUBLE_COMPLEX;
    if (!strcmp(t, "long_double_complex")) return U_ARRAY_TYPE_LONG_DOUBLE_COMPLEX;
    return U_ARRAY_TYPE_PTR;
}
static size_t idx(long i) {
    if (i >= 0) return (size_t) i;
    return i == -1 ? (size_t) -1 : i == -2 ? (size_t) -1 / 2 : (size_t) -1 / 16 + 7;
}
static char mk_char(long tok) { return (char) (0x01010101U * (unsigned) tok); }
static long un_char(char x) { long k; for (k = 0; k < 256; k++) if (mk_char(k) == x) return k; return -2; }
static void do_char(int set, size_t i, long v, int old) {
    char x; long rc; memset(&x, 0x5A, sizeof x);
    { char y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_char(A, i, mk_char(v), old ? &x : NULL); else rc = u_array_get_char(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_char(x)); }
}
static unsigned char mk_u_char(long tok) { return (unsigned char) (0x01010101U * (unsigned) tok); }
static long un_u_char(unsigned char x) { long k; for (k = 0; k < 256; k++) if (mk_u_char(k) == x) return k; return -2; }
static void do_u_char(int set, size_t i, long v, int old) {
    unsigned char x; long rc; memset(&x, 0x5A, sizeof x);
    { unsigned char y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_u_char(A, i, mk_u_char(v), old ? &x : NULL); else rc = u_array_get_u_char(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_u_char(x)); }
}
static short mk_short(long tok) { return (short) (0x01010101U * (unsigned) tok); }
static long un_short(short x) { long k; for (k = 0; k < 256; k++) if (mk_short(k) == x) return k; return -2; }
static void do_short(int set, size_t i, long v, int old) {
    short x; long rc; memset(&x, 0x5A, sizeof x);
    { short y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_short(A, i, mk_short(v), old ? &x : NULL); else rc = u_array_get_short(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_short(x)); }
}
static unsigned short mk_u_short(long tok) { return (unsigned short) (0x01010101U * (unsigned) tok); }
static long un_u_short(unsigned short x) { long k; for (k = 0; k < 256; k++) if (mk_u_short(k) == x) return k; return -2; }
static void do_u_short(int set, size_t i, long v, int old) {
    unsigned short x; long rc; memset(&x, 0x5A, sizeof x);
    { unsigned short y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_u_short(A, i, mk_u_short(v), old ? &x : NULL); else rc = u_array_get_u_short(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_u_short(x)); }
}
static int mk_int(long tok) { return (int) (0x01010101U * (unsigned) tok); }
static long un_int(int x) { long k; for (k = 0; k < 256; k++) if (mk_int(k) == x) return k; return -2; }
static void do_int(int set, size_t i, long v, int old) {
    int x; long rc; memset(&x, 0x5A, sizeof x);
    { int y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_int(A, i, mk_int(v), old ? &x : NULL); else rc = u_array_get_int(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_int(x)); }
}
static unsigned int mk_u_int(long tok) { return (unsigned int) (0x01010101U * (unsigned) tok); }
static long un_u_int(unsigned int x) { long k; for (k = 0; k < 256; k++) if (mk_u_int(k) == x) return k; return -2; }
static void do_u_int(int set, size_t i, long v, int old) {
    unsigned int x; long rc; memset(&x, 0x5A, sizeof x);
    { unsigned int y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_u_int(A, i, mk_u_int(v), old ? &x : NULL); else rc = u_array_get_u_int(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_u_int(x)); }
}
static long mk_long(long tok) { return (long) (W * (unsigned long long) tok); }
static long un_long(long x) { long k; for (k = 0; k < 256; k++) if (mk_long(k) == x) return k; return -2; }
static void do_long(int set, size_t i, long v, int old) {
    long x; long rc; memset(&x, 0x5A, sizeof x);
    { long y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_long(A, i, mk_long(v), old ? &x : NULL); else rc = u_array_get_long(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_long(x)); }
}
static unsigned long mk_u_long(long tok) { return (unsigned long) (W * (unsigned long long) tok); }
static long un_u_long(unsigned long x) { long k; for (k = 0; k < 256; k++) if (mk_u_long(k) == x) return k; return -2; }
static void do_u_long(int set, size_t i, long v, int old) {
    unsigned long x; long rc; memset(&x, 0x5A, sizeof x);
    { unsigned long y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_u_long(A, i, mk_u_long(v), old ? &x : NULL); else rc = u_array_get_u_long(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_u_long(x)); }
}
static float mk_float(long tok) { return (float) (tok * -3.5); }
static long un_float(float x) { long k; for (k = 0; k < 256; k++) if (mk_float(k) == x) return k; return -2; }
static void do_float(int set, size_t i, long v, int old) {
    float x; long rc; memset(&x, 0x5A, sizeof x);
    { float y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_float(A, i, mk_float(v), old ? &x : NULL); else rc = u_array_get_float(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_float(x)); }
}
static double mk_double(long tok) { return (double) (tok * -3.5); }
static long un_double(double x) { long k; for (k = 0; k < 256; k++) if (mk_double(k) == x) return k; return -2; }
static void do_double(int set, size_t i, long v, int old) {
    double x; long rc; memset(&x, 0x5A, sizeof x);
    { double y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_double(A, i, mk_double(v), old ? &x : NULL); else rc = u_array_get_double(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_double(x)); }
}
static _Bool mk_bool(long tok) { return tok != 0; }
static long un_bool(_Bool x) { long k; for (k = 0; k < 256; k++) if (mk_bool(k) == x) return k; return -2; }
static void do_bool(int set, size_t i, long v, int old) {
    _Bool x; long rc; memset(&x, 0x5A, sizeof x);
    { _Bool y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_bool(A, i, mk_bool(v), old ? &x : NULL); else rc = u_array_get_bool(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_bool(x)); }
}
static long long mk_long_long(long tok) { return (long long) (W * (unsigned long long) tok); }
static long un_long_long(long long x) { long k; for (k = 0; k < 256; k++) if (mk_long_long(k) == x) return k; return -2; }
static void do_long_long(int set, size_t i, long v, int old) {
    long long x; long rc; memset(&x, 0x5A, sizeof x);
    { long long y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_long_long(A, i, mk_long_long(v), old ? &x : NULL); else rc = u_array_get_long_long(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_long_long(x)); }
}
static unsigned long long mk_u_long_long(long tok) { return (unsigned long long) (W * (unsigned long long) tok); }
static long un_u_long_long(unsigned long long x) { long k; for (k = 0; k < 256; k++) if (mk_u_long_long(k) == x) return k; return -2; }
static void do_u_long_long(int set, size_t i, long v, int old) {
    unsigned long long x; long rc; memset(&x, 0x5A, sizeof x);
    { unsigned long long y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_u_long_long(A, i, mk_u_long_long(v), old ? &x : NULL); else rc = u_array_get_u_long_long(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_u_long_long(x)); }
}
static intmax_t mk_intmax(long tok) { return (intmax_t) (W * (unsigned long long) tok); }
static long un_intmax(intmax_t x) { long k; for (k = 0; k < 256; k++) if (mk_intmax(k) == x) return k; return -2; }
static void do_intmax(int set, size_t i, long v, int old) {
    intmax_t x; long rc; memset(&x, 0x5A, sizeof x);
    { intmax_t y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_intmax(A, i, mk_intmax(v), old ? &x : NULL); else rc = u_array_get_intmax(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_intmax(x)); }
}
static uintmax_t mk_u_intmax(long tok) { return (uintmax_t) (W * (unsigned long long) tok); }
static long un_u_intmax(uintmax_t x) { long k; for (k = 0; k < 256; k++) if (mk_u_intmax(k) == x) return k; return -2; }
static void do_u_intmax(int set, size_t i, long v, int old) {
    uintmax_t x; long rc; memset(&x, 0x5A, sizeof x);
    { uintmax_t y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_u_intmax(A, i, mk_u_intmax(v), old ? &x : NULL); else rc = u_array_get_u_intmax(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_u_intmax(x)); }
}
static long double mk_long_double(long tok) { return (long double) (tok * -3.5); }
static long un_long_double(long double x) { long k; for (k = 0; k < 256; k++) if (mk_long_double(k) == x) return k; return -2; }
static void do_long_double(int set, size_t i, long v, int old) {
    long double x; long rc; memset(&x, 0x5A, sizeof x);
    { long double y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_long_double(A, i, mk_long_double(v), old ? &x : NULL); else rc = u_array_get_long_double(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_long_double(x)); }
}
static float _Complex mk_float_complex(long tok) { return (float _Complex) (tok * 3.5 + (double) tok * 1.25i); }
static long un_float_complex(float _Complex x) { long k; for (k = 0; k < 256; k++) if (mk_float_complex(k) == x) return k; return -2; }
static void do_float_complex(int set, size_t i, long v, int old) {
    float _Complex x; long rc; memset(&x, 0x5A, sizeof x);
    { float _Complex y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_float_complex(A, i, mk_float_complex(v), old ? &x : NULL); else rc = u_array_get_float_complex(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_float_complex(x)); }
}
static double _Complex mk_double_complex(long tok) { return (double _Complex) (tok * 3.5 + (double) tok * 1.25i); }
static long un_double_complex(double _Complex x) { long k; for (k = 0; k < 256; k++) if (mk_double_complex(k) == x) return k; return -2; }
static void do_double_complex(int set, size_t i, long v, int old) {
    double _Complex x; long rc; memset(&x, 0x5A, sizeof x);
    { double _Complex y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_double_complex(A, i, mk_double_complex(v), old ? &x : NULL); else rc = u_array_get_double_complex(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_double_complex(x)); }
}
static long double _Complex mk_long_double_complex(long tok) { return (long double _Complex) (tok * 3.5 + (double) tok * 1.25i); }
static long un_long_double_complex(long double _Complex x) { long k; for (k = 0; k < 256; k++) if (mk_long_double_complex(k) == x) return k; return -2; }
static void do_long_double_complex(int set, size_t i, long v, int old) {
    long double _Complex x; long rc; memset(&x, 0x5A, sizeof x);
    { long double _Complex y; memcpy(&y, &x, sizeof x);
    if (set) rc = u_array_set_long_double_complex(A, i, mk_long_double_complex(v), old ? &x : NULL); else rc = u_array_get_long_double_complex(A, i, &x);
    r_int("rc", rc); r_int("v", (rc || (set && !old)) ? (memcmp(&x, &y, sizeof x) ? -3 : -1) : un_long_double_complex(x)); }
}
static void do_ptr(int set, size_t i, long v, int old) {
    int rc = 7; void *p;
    p = set ? u_array_set_ptr(A, i, v ? cell + v : NULL, &rc) : u_array_get_ptr(A, i, &rc);
    r_int("rc", rc); r_int("v", rc ? (p ? -3 : -1) : (set && !old) ? -1 : p ? (long) ((char *) p - cell) : 0);
}
static void access_(const char *t, int set, size_t i, long v, int old) {
    if (!strcmp(t, "char")) { do_char(set, i, v, old); return; }
    if (!strcmp(t, "u_char")) { do_u_char(set, i, v, old); return; }
    if (!strcmp(t, "short")) { do_short(set, i, v, old); return; }
    if (!strcmp(t, "u_short")) { do_u_short(set, i, v, old); return; }
    if (!strcmp(t, "int")) { do_int(set, i, v, old); return; }
    if (!strcmp(t, "u_int")) { do_u_int(set, i, v, old); return; }
    if (!strcmp(t, "long")) { do_long(set, i, v, old); return; }
    if (!strcmp(t, "u_long")) { do_u_long(set, i, v, old); return; }
    if (!strcmp(t, "float")) { do_float(set, i, v, old); return; }
    if (!strcmp(t, "double")) { do_double(set, i, v, old); return; }
    if (!strcmp(t, "bool")) { do_bool(set, i, v, old); return; }
    if (!strcmp(t, "long_long")) { do_long_long(set, i, v, old); return; }
    if (!strcmp(t, "u_long_long")) { do_u_long_long(set, i, v, old); return; }
    if (!strcmp(t, "intmax")) { do_intmax(set, i, v, old); return; }
    if (!strcmp(t, "u_intmax")) { do_u_intmax(set, i, v, old); return; }
    if (!strcmp(t, "long_double")) { do_long_double(set, i, v, old); return; }
    if (!strcmp(t, "float_complex")) { do_float_complex(set, i, v, old); return; }
    if (!strcmp(t, "double_complex")) { do_double_complex(set, i, v, old); return; }
    if (!strcmp(t, "long_double_complex")) { do_long_double_complex(set, i, v, old); return; }
    do_ptr(set, i, v, old);
}
void run_op(const char *op, int ac, arg_t *a) {
    if (!strcmp(op, "new")) { if (A) u_array_free(A); A = NULL; r_int("rc", u_array_create(typecode(a[0].s), (size_t) a[1].i, &A)); r_int("v", -1); }
    else if (!strcmp(op, "newm")) { long lk, rc; if (A) u_array_free(A); A = NULL; base = drv_live; DRV_CREATE(lk, rc, u_array_create(typecode(a[0].s), (size_t) a[1].i, &A)); r_int("rc", rc); r_int("v", -1); r_int("leaked", lk); }
    else if (!strcmp(op, "free")) { u_array_free(A); A = NULL; r_int("rc", 0); r_int("live", drv_live - base); }
    else if (!strcmp(op, "set")) access_(a[0].s, 1, idx(a[1].i), a[2].i, (int) a[3].i);
    else if (!strcmp(op, "get")) access_(a[0].s, 0, idx(a[1].i), 0, 0);
    else if (!strcmp(op, "resize")) { r_int("rc", u_array_resize(A, idx(a[0].i))); r_int("v", -1); }
}
