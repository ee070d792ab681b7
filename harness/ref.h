/* Independent reference computations (no code of the library is used). */
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include "h.h"
typedef struct { cplx a, b, c, d; } m2;         /* [[a,b],[c,d]] */
m2 m2mul(m2 x, m2 y);
m2 ref_expm2(m2 x);                             /* exponential of any 2x2 matrix */
m2 ref_expU(cplx xi, cplx q, cplx r, double h); /* exp([[-i xi, q],[r, i xi]] h) */
/* one step of the exponential splitting d (NSE enumerator of a fast scheme with upsampling 1) */
m2 ref_split(int d, cplx xi, cplx q, cplx r, double h);
/* samples after the preprocessing of discretization d: ups*D values of q and r */
typedef cplx (*rmap_t)(cplx);
void ref_preprocess(int d, size_t D, const cplx *q, int kappa, double h, cplx *qp, cplx *rp); /* kappa 0: KdV, r=-1; kappa 2: KdV flipped, q=-1, r=q */
void ref_preprocess_n(int d, size_t D, const cplx *q, int kappa, double h, double n_, cplx *qp, cplx *rp);
void ref_shift(size_t D, const cplx *q, double frac, cplx *out); /* trigonometric interpolation, shift in samples */
m2 ref_transfer(int d, size_t D, const cplx *q, int kappa, double h, cplx xi);  /* transfer matrix of all samples */
void ref_nse(int d, size_t D, const cplx *q, const double *T, int kappa, cplx xi, cplx *a, cplx *b);
void ref_kdv(int d, size_t D, const cplx *q, const double *T, cplx xi, cplx *a, cplx *b); /* d: 0..55 */
/* a preprocessed signal, for many evaluations */
typedef struct { int d, kappa; size_t D; cplx *qp, *rp; double T[2], h, tm, tp; } scat_t;
void scat_init(scat_t *s, int d, size_t D, const cplx *q, const double *T, int kappa);
void scat_init_sub(scat_t *s, int d, size_t D, const cplx *q, const double *T, int kappa, size_t nskip, size_t Dsub);
void scat_free(scat_t *s);
m2 scat_m(const scat_t *s, cplx xi);
void scat_ab(const scat_t *s, cplx xi, cplx *a, cplx *b);
/* forward and backward solutions at the step boundaries 0..D (components scaled as in a, b), for any complex xi.
   f: 2(D+1) values of phi, g: 2(D+1) values of psi; kappa as in ref_preprocess */
void ref_phipsi(const scat_t *s, cplx xi, cplx *f, cplx *g);
void ref_phipsi0(const scat_t *s, cplx xi, const cplx *f0, const cplx *gD, cplx *f, cplx *g); /* with given values at the left end (f) and at the right end (g) */
int ref_base(int d);   /* method used for Newton refinement and norming constants of discretization d */
cplx ref_nse_da(const scat_t *s, cplx xi); /* da/dxi */
/* all candidates of b at an (approximate) eigenvalue: best is the one with the smallest mismatch; returns the mismatch.
   if want!=0 the relative distance of want to the closest candidate is stored in *dist */
double ref_nse_b(const scat_t *s, cplx xi, cplx *best, cplx want, double *dist);
/* number of zeros of f minus poles inside a rectangle, by the argument principle; -1: contour too close to a zero or too expensive */
typedef cplx (*cfun_t)(cplx, void *);
int ref_count_zeros(cfun_t f, void *p, double x0, double x1, double y0, double y1, size_t n0, size_t maxev, double *minabs);
/* analytic signals */
typedef struct { int n, real_only; double A[4], c[4], w[4], f[4], ch[4], ph[4]; double lo, hi; } asig_t;
void asig_gen(rng_t *r, asig_t *s, const double *T, double area, int real_only);
cplx asig_eval(const asig_t *s, double t);
void asig_sample(const asig_t *s, size_t D, const double *T, cplx *q);
/* exact scattering data of an analytic signal on [T0,T1] (fourth-order Magnus integrator, N steps) */
void ref_true_nse(const asig_t *s, const double *T, int kappa, cplx xi, size_t N, cplx *a, cplx *b);
void ref_true_kdv(const asig_t *s, const double *T, cplx xi, size_t N, cplx *a, cplx *b);
/* 3x3 */
typedef struct { cplx m[9]; } m3;
m3 m3mul(const m3 *x, const m3 *y);
m3 ref_expm3(const m3 *x);
m3 ref_expU3(cplx xi, cplx q1, cplx q2, int kappa, double h);
void ref_true_mana(const asig_t *s1, const asig_t *s2, const double *T, int kappa, cplx xi, size_t N, cplx *a, cplx *b1, cplx *b2);
typedef struct { int d, kappa; size_t D; cplx *q1, *q2; double h, tm, tp; } man_t;
void man_init(man_t *z, int d, size_t D, const cplx *q1, const cplx *q2, const double *T, int kappa);
void man_free(man_t *z);
m3 man_m(const man_t *z, cplx xi);
void man_ab(const man_t *z, cplx xi, cplx *a, cplx *b1, cplx *b2);
#endif
