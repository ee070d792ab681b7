/* Generators and call wrappers shared by the monitors of the continuous and discrete spectra. */
#ifndef VERIF_PC_H
#define VERIF_PC_H
#include "ref.h"
static inline double xi_at(const double *XI, size_t M, size_t i) { return M == 1 ? XI[0] : XI[0] + (XI[1] - XI[0]) * (double)i / (double)(M - 1); }
typedef struct { int d, kappa, norm; size_t D, M; double T[2], XI[2], h, l1; cplx *q; char sig[40]; } cse_t;
typedef struct { int d, kappa, norm; size_t D, M; double T[2], XI[2], h, l1; cplx *q1, *q2; char sig[64]; } mse_t;
typedef struct { int d, norm; size_t D, M; double T[2], XI[2], h, l1; cplx *q; char sig[60]; } kse_t;
typedef struct { scat_t s; int van; } ks_t;
typedef struct { int rc; uint_ K; cplx *l, *b, *r; long nwarn; } kd_t;
typedef struct { int d, norm; size_t D; double T[2], h, L; cplx *q; char sig[80]; } kb_t;
typedef struct { uint_ K; cplx *l, *b, *r; int rc; long nwarn; char warn[256]; } ds_t; /* eigenvalues, norming constants, residues */
typedef struct { int d, norm; size_t D; double T[2], h; cplx *q; char sig[60]; asig_t s; int smooth; } dse_t;
void cse_gen(rng_t *r, long idx, cse_t *c, int maxD, int smooth); void cse_free(cse_t *c); const char *cse_desc(const cse_t *c); double cse_tol(const cse_t *c);
int run_cs(int d, size_t D, const cplx *q, const double *T, int kappa, size_t M, const double *XI, int type, int norm, cplx *out);
void mse_gen(rng_t *r, long idx, mse_t *c, int maxD); void mse_free(mse_t *c); const char *mse_desc(const mse_t *c); double mtol(const mse_t *c);
const char *kname(int d); void kse_gen(rng_t *r, long idx, kse_t *c, int maxD); const char *kse_desc(const kse_t *c); double ktol(const kse_t *c);
void ks_init(ks_t *k, int dd, size_t D, const cplx *q, const double *T); void ks_ab(const ks_t *k, cplx xi, cplx *a, cplx *b); cplx ks_da(const ks_t *k, cplx xi);
void kb_gen(rng_t *r, int d, size_t D, kb_t *c); const char *kb_desc(const kb_t *c); void kd_free(kd_t *x);
kd_t run_kd(int d, size_t D, const cplx *q, const double *T, int norm, double spacing, uint_ niter, int type, const cplx *guess, size_t cap);
void ds_free(ds_t *x); uint_ maxK(size_t D, int d); ds_t run_ds(const fnft_nsev_opts_t *o0, size_t D, const cplx *q, const double *T, const cplx *guess, size_t ng, size_t cap);
void dse_gen(rng_t *r, int d, size_t D, dse_t *c); const char *dse_desc(const dse_t *c); void dse_free(dse_t *c); cplx a_of(cplx xi, void *p); size_t degcap(rng_t *r, int d, size_t maxdeg);
extern const int man_order[13];
#endif
