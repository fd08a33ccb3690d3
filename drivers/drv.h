/* Common part of the conformance drivers.
 *
 * A driver replays sessions (sequences of operations) on the real library through its public API and
 * reports, for each operation, the observable result `r` as one JSON line.  The abstract model never
 * appears here: TLC decides whether the recorded results are a behaviour of the specification. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <u/libu.h>

typedef struct {
    int null;           /* "-" : NULL argument */
    long i;             /* integer value */
    unsigned char *b;   /* bytes ("x..." hex), NUL terminated copy in an exactly sized heap block */
    size_t n;           /* number of bytes */
    char *s;            /* raw token */
    long *v; int nv;    /* "i1,2,3" integer vector */
} arg_t;

/* provided by each driver */
void session_begin(void);
void run_op(const char *op, int ac, arg_t *av);

/* result building */
void r_int(const char *k, long v);
void r_bool(const char *k, int v);
void r_str(const char *k, const char *v);               /* plain ascii */
void r_bytes(const char *k, const void *p, size_t n);   /* array of byte values */
void r_cstr(const char *k, const char *p);              /* bytes of a C string; [-1] when NULL */
void r_ints(const char *k, const long *v, size_t n);
void r_raw(const char *k, const char *json);            /* any JSON text */
void r_open(const char *k, char br);                    /* k: [ or { (k NULL inside arrays) */
void r_close(char br);

/* allocator accounting and fault injection */
char *drv_stderr(void (*f)(void *), void *x, size_t *n);     /* what f writes to the standard error */
extern long drv_live;       /* blocks currently allocated through the library allocator */
extern long drv_nalloc;     /* allocation requests seen */
extern long drv_fail_at;    /* fail the request number drv_nalloc == drv_fail_at (one shot), 0: never */
extern int  drv_failed;     /* set once an injected failure happened */
void drv_mem_install(void);
/* refusing the k-th memory request of one operation (script prefix "!k"): disarmed as soon as a result is reported */
extern long drv_mk;         /* requests until the refused one, 0: none */
extern int drv_refused;     /* requests refused */
/* A creation tried with its first, second, ... request refused until it succeeds; LEAK: blocks left behind by the refused attempts,
 * or -1000 if an attempt neither failed nor succeeded properly. */
#define DRV_CREATE(LEAK, RC, CALL) do { \
    long l_, k_; LEAK = 0; \
    for (k_ = 1; k_ < 60; k_++) { l_ = drv_live; drv_refused = 0; drv_mk = k_; RC = (CALL); drv_mk = 0; if (!drv_refused || !RC) break; LEAK += drv_live - l_; } \
} while (0)

extern int drv_cpu_limit;
#endif
