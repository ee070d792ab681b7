/* Common declarations of the FNFT monitor harness. */
#ifndef VERIF_H
#define VERIF_H
#define _GNU_SOURCE
#define FNFT_ENABLE_SHORT_NAMES
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <complex.h>
#include <limits.h>
#include "fnft.h"
#include "fnft_nsev.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_nsev_inverse.h"
#include "fnft_version.h"
#include "fnft_errwarn.h"

typedef double complex cplx;
typedef long double complex cplxl;
typedef FNFT_UINT uint_;

/* ---- random numbers ---- */
typedef struct { uint64_t s; } rng_t;
uint64_t r64(rng_t *r);
rng_t rng_make(uint64_t seed, uint64_t stream, uint64_t idx);
double ru(rng_t *r);                       /* [0,1) */
double rr(rng_t *r, double a, double b);   /* [a,b) */
int ri(rng_t *r, int a, int b);            /* a..b inclusive */
double rn(rng_t *r);                       /* normal */
int rb(rng_t *r, double p);                /* bernoulli */
double rlog(rng_t *r, double a, double b); /* log-uniform */
cplx rc(rng_t *r);                         /* complex normal */

/* ---- reporting ---- */
extern int h_verbose, h_thorough;
extern uint64_t h_seed;
void h_case_begin(long idx);
void h_violation(const char *sig, const char *fmt, ...) __attribute__((format(printf,2,3)));
void h_incon(const char *fmt, ...) __attribute__((format(printf,1,2)));
void h_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void h_eval(int nontrivial, const char *keyfmt, ...) __attribute__((format(printf,2,3)));
void h_metric(const char *name, double v);      /* summed over the run */
void h_max(const char *name, double v);         /* maximum over the run */
void h_log(const char *fmt, ...) __attribute__((format(printf,1,2)));
int h_nviol(void);

/* ---- allocation interposer ---- */
typedef struct {
    int active;      /* library code is running: track */
    int threadsafe;  /* no tracking at all (multi-threaded checks) */
    long count;      /* allocations since mw_begin */
    long fail_at;    /* index of the allocation to fail (-1: never) */
    int fail_from;   /* fail all from fail_at on */
    long nfailed;
    long live;       /* blocks live that were allocated while active */
    size_t live_bytes, peak_bytes;
    long badfree;
    int poison;      /* -1: none, else fill byte */
    unsigned long fill_seed;
} mw_t;
extern __thread mw_t mw;
void mw_begin(long fail_at, int fail_from, int poison);
void mw_end(void);
void mw_forget(void);     /* drop remaining live blocks (frees them) */
void *h_malloc(size_t n); /* exact-size, never intercepted */
void h_free(void *p);
cplx *h_calloc_c(size_t n);
double *h_calloc_r(size_t n);
cplx *h_dup_c(const cplx *p, size_t n);
void h_fill(void *p, size_t n, uint64_t pat);
uint64_t h_hash(const void *p, size_t n, uint64_t h);
void h_stack_poison(int byte);

/* ---- messages of the library ---- */
typedef struct { long nerr, nwarn, nother; char first[256]; char last[256]; char lastwarn[256]; } msgs_t;
extern __thread msgs_t msgs;
FNFT_INT h_printf(const char *fmt, ...);
void msgs_reset(void);

/* ---- generic calls ---- */
enum { K_NSEV, K_NSEP, K_KDVV, K_MANA, K_INV, NKINDS };
extern const char *kind_name[NKINDS];
typedef struct {
    int kind;
    uint_ D; cplx *q, *q2; double *T; uint_ M; double *XI;
    uint_ K, Mx;           /* capacities on entry */
    uint_ Kio, Mio;        /* counters handed to the call */
    int useK, useM;        /* pass pointers */
    int kappa; double phase;
    cplx *cs; size_t ncs;  /* contspec */
    cplx *bs; size_t nbs;  /* bound states / main spectrum */
    cplx *nc; size_t nnc;  /* norming constants / aux spectrum */
    cplx *gs; size_t ngs;  /* initial content of bs (guesses) */
    cplx *cs0;             /* initial content of cs (inverse input) */
    cplx *qseed;           /* seed potential for the inverse */
    int has_opts;
    union { fnft_nsev_opts_t v; fnft_nsep_opts_t p; fnft_kdvv_opts_t k; fnft_manakovv_opts_t m; fnft_nsev_inverse_opts_t i; } o, o0;
    int rc;
    char desc[512];
} call_t;

typedef struct {
    int kinds;        /* bit mask, 0 = all */
    int maxD;
    int budget;       /* approx. polynomial degree limit for eigenvalue root finding */
    int tame;         /* only well-behaved signals */
    int allow_invalid;/* a few unsupported option combinations are fine */
} gprof_t;
void call_gen(rng_t *r, call_t *c, const gprof_t *p);
void call_alloc(call_t *c);
void call_reset(call_t *c, uint64_t fillpat);  /* outputs filled, counters and options restored */
int call_run(call_t *c);                       /* runs inside mw active region when mw.active set by caller */
uint64_t call_digest(const call_t *c);         /* rc + valid outputs, only if rc==0 */
uint64_t call_inputs_digest(const call_t *c);  /* const inputs */
void call_free(call_t *c);
void call_clone(call_t *dst, const call_t *src);
size_t call_valid_nc(const call_t *c);
void opts_defaults(int kind, void *dst);
size_t opts_size(int kind);

void gen_signal(rng_t *r, uint_ D, const double *T, cplx *q, int real_only, int periodic, int tame, char *desc);

/* ---- discretizations ---- */
extern const char *nse_name[28]; extern const int nse_deg[28], nse_ups[28], nse_order[28];
int nse_is_fast(int d);
extern const char *man_name[13]; extern const int man_deg[13], man_ups[13];

/* ---- helpers ---- */
double cdist(const cplx *a, const cplx *b, size_t n);    /* max |a-b| */
double cmaxabs(const cplx *a, size_t n);
int all_finite(const cplx *a, size_t n);

/* ---- property entry points: run one case; return 0 ---- */
typedef struct { const char *id; void (*run)(long idx); long quick, thorough; const char *variants; } prop_t;
extern const prop_t props[];

/* NaN is larger than everything, and stays */
static inline int nan_gt(double x, double m) { return x > m || (x != x && m == m); }
static inline double nan_max(double a, double b) { return a > b || a != a ? a : b; }
#define fmax nan_max
#define FOR(i,n) for (size_t i=0;i<(size_t)(n);i++)
#endif
