/* C27: transfer matrices (slow scattering, fast scattering, changes of basis, z<->lambda maps). */
#include "h.h"
#include "fnft__akns_discretization.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
#include "fnft__nse_scatter.h"
#include "fnft__kdv_scatter.h"
#include "fnft__manakov_scatter.h"
#include "fnft__nse_fscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__manakov_fscatter.h"

static const int slow[7] = { fnft_nse_discretization_BO, fnft_nse_discretization_CF4_2, fnft_nse_discretization_CF4_3, fnft_nse_discretization_CF5_3, fnft_nse_discretization_CF6_4, fnft_nse_discretization_ES4, fnft_nse_discretization_TES4 };

typedef struct { int kdv, van, d, disc, kappa; size_t D, ups; double eps; cplx *q, *r; char s[160]; double strength; } sys_t;

static int scat(const sys_t *s, size_t from, size_t n, size_t K, const cplx *l, cplx *res, FNFT_INT *W, int der)
{
    return s->kdv ? fnft__kdv_scatter_matrix(n, s->q+from, s->r+from, s->eps, 1, K, l, res, W, s->disc, der)
                  : fnft__nse_scatter_matrix(n, s->q+from, s->r+from, s->eps, s->kappa, K, l, res, W, s->disc, der);
}
static double n4(const cplx *a) { double m = 0; FOR (i, 4) m = fmax(m, cabs(a[i])); return m; }
static double d4(const cplx *a, const cplx *b) { double m = 0; FOR (i, 4) { double e = cabs(a[i]-b[i]); if (nan_gt(e, m)) m = e; } return m; }
static void mul2(const cplx *a, const cplx *b, cplx *o) { FOR (i, 2) FOR (j, 2) o[2*i+j] = a[2*i]*b[j]+a[2*i+1]*b[2+j]; }

static void mk(rng_t *r, sys_t *s, size_t nmax)
{
    s->kdv = rb(r, 0.5); s->van = rb(r, 0.5); s->d = slow[ri(r, 0, 6)];
    s->disc = s->kdv ? s->d + (s->van ? 0 : 28) : s->d;
    s->kappa = rb(r, 0.5) ? 1 : -1;
    s->ups = nse_ups[s->d];
    size_t n = rb(r, 0.5) ? ri(r, 2, 12) : ri(r, 2, nmax);
    s->D = n*s->ups;
    double len = rr(r, 0.3, 4);  /* total length of the window */
    s->eps = len/n;
    s->q = h_calloc_c(s->D); s->r = h_calloc_c(s->D);
    double amp = rlog(r, 1e-3, 3)/len*(s->kdv ? fmin(1, 4/len) : 1), w = rr(r, -6, 6)/n; int style = ri(r, 0, 3);
    int es = s->d == fnft_nse_discretization_ES4 || s->d == fnft_nse_discretization_TES4;
    s->strength = 0;
    FOR (k, s->D) {
        double x = (k/s->ups+0.5)/n-0.5;
        cplx v = amp*(style == 0 ? rc(r) : style == 1 ? exp(-8*x*x)*cexp(I*w*k) : style == 2 ? 1 : (fabs(x) < 0.2 ? 1 : 0)*cexp(I*w*k));
        if (es && k % 3) v *= rr(r, -1, 1)/len*(k % 3 == 2 ? 2/len : 1);
        if (s->kdv) {
            v = creal(v);
            int one = !(es && k % 3);
            if (s->van) { s->q[k] = v; s->r[k] = one ? -1 : 0; } else { s->q[k] = one ? -1 : 0; s->r[k] = v; }
        } else { s->q[k] = v; s->r[k] = -s->kappa*conj(v); }
        s->strength += cabs(v)*(es ? (k % 3 == 0) : 1.0/s->ups);
    }
    s->strength *= s->eps;
    snprintf(s->s, sizeof s->s, "%s %s%s samples=%zu x %zu eps=%.4g kappa=%+d style=%d amp=%.3g", s->kdv ? "KdV" : "NSE", nse_name[s->d], s->kdv && s->van ? "_VANILLA" : "", n, s->ups, s->eps, s->kappa, style, amp);
}
static void un(sys_t *s) { h_free(s->q); h_free(s->r); }
static cplx pick(rng_t *r, const sys_t *s)
{
    double len = s->eps*s->D/s->ups, w = rb(r, 0.5) ? 6/len : rlog(r, 0.1, 1.5)/s->eps;
    cplx l = rr(r, -w, w) + (rb(r, 0.5) ? I*rr(r, -3, 3)/len : 0);
    if (s->kdv) { double m = cabs(l); if (m < 0.3) l *= 0.3/m; }
    return l;
}

static void t_slow(rng_t *r, long idx)
{
    sys_t s; mk(r, &s, 80); h_log("%s", s.s);
    size_t n = s.D/s.ups, K = ri(r, 1, 6);
    double len = s.eps*n;
    cplx l[6], A[24], B[48], C[24]; FNFT_INT W[6], W8[6];
    FOR (k, K) l[k] = pick(r, &s);
    if (K > 1 && rb(r, 0.2)) l[K-1] = l[0];
    int e1 = scat(&s, 0, s.D, K, l, A, NULL, 0), e2 = scat(&s, 0, s.D, K, l, B, NULL, 1), e3 = scat(&s, 0, s.D, K, l, C, W, 0);
    cplx Bn[48]; int e4 = scat(&s, 0, s.D, K, l, Bn, W8, 1);
    if (e1 || e2 || e3 || e4) { h_violation("scatter-failed", "%s: %d %d %d %d", s.s, e1, e2, e3, e4); un(&s); return; }
    FOR (k, K) {
        double m = n4(A+4*k), cond = m*m, kd = s.kdv ? 1+1/cabs(l[k]) : 1;
        /* conditioning of a product of n factors */
        double u = 1e-15*(n+10)*exp(2*fabs(cimag(l[k]))*len)*exp(2*fmin(s.strength*3+ (s.kdv ? sqrt(s.strength*len)*2 : 0), 12))*(1+s.eps*cabs(l[k])*10)*kd*kd;
        cplx det = A[4*k]*A[4*k+3]-A[4*k+1]*A[4*k+2];
        double e = cabs(det-1);
        if (!(e <= u*(1+cond))) h_violation("det", "%s lambda=%g%+gi: determinant of the scattering matrix is 1 + %.3g (bound %.3g)", s.s, creal(l[k]), cimag(l[k]), e, u*(1+cond));
        h_max("det_error_over_bound", e/(u*(1+cond)));
        e = d4(A+4*k, B+8*k);
        if (!(e <= u*(1+m))) h_violation("derivative-flag-changes-matrix", "%s lambda=%g%+gi: difference %.3g, bound %.3g", s.s, creal(l[k]), cimag(l[k]), e, u*(1+m));
        h_max("flag_diff_over_bound", e/(u*(1+m)));
        cplx X[4]; FOR (i, 4) X[i] = C[4*k+i]*exp2(W[k]);
        e = d4(A+4*k, X);
        if (!(e <= u*(1+m))) h_violation("normalization", "%s lambda=%g%+gi: normalized matrix differs by %.3g, bound %.3g (W=%d)", s.s, creal(l[k]), cimag(l[k]), e, u*(1+m), (int)W[k]);
        FOR (i, 4) X[i] = Bn[8*k+i]*exp2(W8[k]);
        double e5 = d4(A+4*k, X);
        FOR (i, 4) X[i] = Bn[8*k+4+i]*exp2(W8[k]);
        double md = n4(B+8*k+4), e6 = d4(B+8*k+4, X);
        if (!(e5 <= u*(1+m)) || !(e6 <= u*(1+m+md))) h_violation("normalization-derivative", "%s lambda=%g%+gi: difference %.3g %.3g", s.s, creal(l[k]), cimag(l[k]), e5, e6);
        /* derivative: Cauchy integral over a small circle */
        enum { N = 16 };
        double rho = 0.25/len; if (s.kdv) rho = fmin(rho, 0.25*cabs(l[k]));
        cplx z[N], S[4*N], D[4] = { 0 };
        FOR (i, N) z[i] = l[k]+rho*cexp(2*M_PI*I*i/N);
        if (scat(&s, 0, s.D, N, z, S, NULL, 0)) { h_violation("scatter-failed", "%s", s.s); break; }
        FOR (i, N) FOR (j, 4) D[j] += S[4*i+j]*cexp(-2*M_PI*I*i/N)/(N*rho);
        e = d4(D, B+8*k+4);
        double mS = 0; FOR (i, N) mS = fmax(mS, n4(S+4*i));
        double tol = 4*u*(1+mS)/rho + (s.kdv ? 8*pow(0.25, N) : 1e-13)*mS/rho;
        if (!(e <= tol)) h_violation("derivative", "%s lambda=%g%+gi: derivative is off by %.3g (size %.3g, bound %.3g)", s.s, creal(l[k]), cimag(l[k]), e, n4(D), tol);
        h_max("derivative_error_over_bound", e/tol);
        /* single evaluation equals batch evaluation */
        cplx S1[8]; scat(&s, 0, s.D, 1, l+k, S1, NULL, 1);
        e = fmax(d4(S1, B+8*k), d4(S1+4, B+8*k+4));
        if (!(e <= 1e-13*(1+m+md))) h_violation("batch", "%s: evaluating lambda=%g%+gi alone changes the result by %.3g", s.s, creal(l[k]), cimag(l[k]), e);
        /* composition */
        size_t cut = ri(r, 1, n-1)*s.ups; cplx P[4], Q[4], R[4];
        if (scat(&s, 0, cut, 1, l+k, P, NULL, 0) || scat(&s, cut, s.D-cut, 1, l+k, Q, NULL, 0)) { h_violation("scatter-failed", "%s (part)", s.s); break; }
        mul2(Q, P, R); e = d4(R, A+4*k);
        tol = u*(1+n4(P)*n4(Q)+m);
        if (!(e <= tol)) h_violation("composition", "%s lambda=%g%+gi: product of the parts (cut at %zu) differs by %.3g, bound %.3g", s.s, creal(l[k]), cimag(l[k]), cut, e, tol);
        h_max("composition_error_over_bound", e/tol);
        /* symmetry for the NSE */
        if (!s.kdv && s.d != fnft_nse_discretization_CF5_3 && s.d != fnft_nse_discretization_CF6_4) {
            cplx lc = conj(l[k]), Y[4], Z[4]; scat(&s, 0, s.D, 1, &lc, Y, NULL, 0);
            Z[0] = conj(Y[3]); Z[3] = conj(Y[0]); Z[1] = -s.kappa*conj(Y[2]); Z[2] = -s.kappa*conj(Y[1]);
            e = d4(Z, A+4*k);
            if (!(e <= u*(1+m))) h_violation("symmetry", "%s lambda=%g%+gi: %.3g, bound %.3g", s.s, creal(l[k]), cimag(l[k]), e, u*(1+m));
            h_metric("symmetries_checked", 1);
        }
        /* reference: product of matrix exponentials computed in extended precision */
        if (s.d == fnft_nse_discretization_BO && !s.kdv) {
            cplxl H[4] = { 1, 0, 0, 1 };
            FOR (i, n) {
                cplxl a[4] = { -I*(cplxl)l[k]*s.eps, (cplxl)s.q[i]*s.eps, (cplxl)s.r[i]*s.eps, I*(cplxl)l[k]*s.eps }, w2 = a[0]*a[0]+a[1]*a[2], ch = 1, sh = 1, t = 1;
                for (int j = 1; j < 60; j++) { t *= w2/((2*j-1)*(2*j)); ch += t; sh += t/(2*j+1); }
                cplxl U[4] = { ch+sh*a[0], sh*a[1], sh*a[2], ch+sh*a[3] }, V[4];
                FOR (x, 2) FOR (y, 2) V[2*x+y] = U[2*x]*H[y]+U[2*x+1]*H[2+y];
                FOR (x, 4) H[x] = V[x];
            }
            cplx X2[4]; FOR (x, 4) X2[x] = H[x];
            e = d4(X2, A+4*k);
            if (!(e <= u*(1+m))) h_violation("reference", "%s lambda=%g%+gi: %.3g, bound %.3g", s.s, creal(l[k]), cimag(l[k]), e, u*(1+m));
            h_max("reference_error_over_bound", e/(u*(1+m)));
        }
        h_metric("matrices_checked", 1);
    }
    h_eval(1, "s:%d:%d:%zu:%zu", s.kdv, s.disc, n, K);
    if (idx < 8) h_sample("%s", s.s);
    un(&s);
}

static void t_bound(rng_t *r, long idx)
{
    sys_t s; mk(r, &s, 60);
    size_t n = s.D/s.ups; (void)idx;
    double T0 = rr(r, -5, 5), T[2] = { T0, T0+s.eps*(n-1) }, len = s.eps*n;
    s.eps = (T[1]-T[0])/(n-1);
    size_t K = ri(r, 1, 5); cplx l[5], a[5], ap[5], b[5], a2[5], ap2[5], b2[5], a3[5], ap3[5], b3[5]; FNFT_INT W[5];
    FOR (k, K) l[k] = (s.kdv ? 0 : rr(r, -4, 4)/len) + I*rr(r, 0.3, 4)/len;
    h_log("%s T0=%g", s.s, T0);
    #define BS(K, l, a, ap, b, W, skip) (s.kdv ? fnft__kdv_scatter_bound_states(s.D, s.q, s.r, T, K, l, a, ap, b, W, s.disc, skip) : fnft__nse_scatter_bound_states(s.D, s.q, s.r, T, K, l, a, ap, b, W, s.disc, skip))
    cplx l0[5]; memcpy(l0, l, sizeof l0);
    int e1 = BS(K, l, a, ap, b, NULL, 0), e2 = BS(K, l, a2, ap2, NULL, NULL, 1), e3 = BS(K, l, a3, ap3, b3, W, 0);
    if (e1 || e2 || e3) { h_violation("bound-states-failed", "%s: %d %d %d", s.s, e1, e2, e3); un(&s); return; }
    if (memcmp(l0, l, K*sizeof *l)) h_violation("bound-states-overwritten", "%s", s.s);
    FOR (k, K) {
        cplx S[8]; if (scat(&s, 0, s.D, 1, l+k, S, NULL, 1)) { h_violation("scatter-failed", "%s", s.s); break; }
        double h = 0.5*s.eps;
        cplx ex = cexp(I*l[k]*(T[1]+h)-I*l[k]*(T[0]-h)), wa = S[0]*ex, wap = S[4]*ex + I*(T[1]-T[0]+2*h)*wa;
        if (s.kdv) { wa = creal(wa); wap = I*cimag(wap); }
        double m = n4(S), sz = (1+m)*cabs(ex), szp = (n4(S+4) + len*m)*cabs(ex)+len+sz*fmax(fabs(T[0]), fabs(T[1]));
        double u = 1e-15*(n+10)*exp(2*fmin(s.strength*3+(s.kdv ? sqrt(s.strength*len)*2 : 0), 12))*exp(2*cimag(l[k])*len)*(s.kdv ? pow(1+1/cabs(l[k]), 2) : 1)*(1+fmax(fabs(T[0]), fabs(T[1]))*cabs(l[k]));
        double e = cabs(a[k]-wa), f = cabs(ap[k]-wap);
        if (!(e <= u*sz)) h_violation("bound-a", "%s T0=%g lambda=%g%+gi: a is off by %.3g, bound %.3g", s.s, T0, creal(l[k]), cimag(l[k]), e, u*sz);
        if (!(f <= u*szp)) h_violation("bound-aprime", "%s T0=%g lambda=%g%+gi: a' is off by %.3g, bound %.3g", s.s, T0, creal(l[k]), cimag(l[k]), f, u*szp);
        h_max("bound_a_error_over_bound", e/(u*sz)); h_max("bound_aprime_error_over_bound", f/(u*szp));
        if (!(cabs(a2[k]-a[k]) <= 1e-13*(1+cabs(a[k]))) || !(cabs(ap2[k]-ap[k]) <= 1e-13*(1+cabs(ap[k])))) h_violation("bound-skip-b", "%s: skipping b changes a or a'", s.s);
        double sc = exp2(W[k]);
        if (!(cabs(a3[k]*sc-a[k]) <= u*sz) || !(cabs(ap3[k]*sc-ap[k]) <= u*szp)) h_violation("bound-normalization", "%s T0=%g lambda=%g%+gi: normalized a differs by %.3g, a' by %.3g", s.s, T0, creal(l[k]), cimag(l[k]), cabs(a3[k]*sc-a[k]), cabs(ap3[k]*sc-ap[k]));
        BS(1, l+k, a2, ap2, b2, NULL, 0);
        if (!(cabs(a2[0]-a[k]) <= 1e-13*(1+cabs(a[k]))) || !(cabs(ap2[0]-ap[k]) <= 1e-13*(1+cabs(ap[k]))) || !(cabs(b2[0]-b[k]) <= 1e-12*cabs(b[k]) || (b2[0] != b2[0] && b[k] != b[k]))) h_violation("bound-batch", "%s: single evaluation differs", s.s);
        h_metric("bound_state_evaluations", 1);
    }
    h_eval(1, "b:%d:%d:%zu:%zu", s.kdv, s.disc, n, K);
    un(&s);
}

static double n9(const cplx *a) { double m = 0; FOR (i, 9) m = fmax(m, cabs(a[i])); return m; }
static double d9(const cplx *a, const cplx *b) { double m = 0; FOR (i, 9) { double e = cabs(a[i]-b[i]); if (nan_gt(e, m)) m = e; } return m; }
static void mul3(const cplx *a, const cplx *b, cplx *o) { FOR (i, 3) FOR (j, 3) { o[3*i+j] = 0; FOR (k, 3) o[3*i+j] += a[3*i+k]*b[3*k+j]; } }
static cplx det3(const cplx *a) { return a[0]*(a[4]*a[8]-a[5]*a[7])-a[1]*(a[3]*a[8]-a[5]*a[6])+a[2]*(a[3]*a[7]-a[4]*a[6]); }

static void t_man(rng_t *r, long idx)
{
    int disc = rb(r, 0.5) ? fnft_manakov_discretization_BO : fnft_manakov_discretization_CF4_2, kappa = rb(r, 0.5) ? 1 : -1;
    size_t n = rb(r, 0.5) ? ri(r, 2, 12) : ri(r, 2, 80); (void)idx;
    double len = rr(r, 0.3, 4), eps = len/n, amp = rlog(r, 1e-3, 2.5)/len, str = 0; int style = ri(r, 0, 3);
    cplx *q1 = h_calloc_c(n), *q2 = h_calloc_c(n);
    FOR (k, n) { double x = (k+0.5)/n-0.5, g = style == 1 ? exp(-8*x*x) : style == 3 ? fabs(x) < 0.2 : 1;
        q1[k] = amp*g*(style == 0 ? rc(r) : cexp(I*3*x)); q2[k] = amp*g*(style == 0 ? rc(r) : 0.5*cexp(-I*5*x+0.3*I)); if (style == 2 && rb(r, 0.1)) q1[k] = 0; str += eps*hypot(cabs(q1[k]), cabs(q2[k])); }
    char d[120]; snprintf(d, sizeof d, "Manakov %s n=%zu eps=%.4g kappa=%+d style=%d amp=%.3g", man_name[disc], n, eps, kappa, style, amp); h_log("%s", d);
    size_t K = ri(r, 1, 5); cplx l[5], A[45];
    double fac = disc == fnft_manakov_discretization_CF4_2 ? 0.5 : 1; /* each sample of CF4_2 covers half a step */
    FOR (k, K) { double w = rb(r, 0.5) ? 6/len : 1/eps; l[k] = rr(r, -w, w)+(rb(r, 0.5) ? I*rr(r, -3, 3)/len : 0); }
    if (fnft__manakov_scatter_matrix(n, q1, q2, eps, K, l, kappa, A, disc)) { h_violation("scatter-failed", "%s", d); goto done; }
    FOR (k, K) {
        double m = n9(A+9*k), gap = INFINITY;
        FOR (i, n) gap = fmin(gap, cabs(csqrt(fac*fac*l[k]*l[k]+kappa*(pow(cabs(q1[i]), 2)+pow(cabs(q2[i]), 2)))));
        if (gap < 1e-6) continue;
        double u = 2e-15*(n+10)*exp(2*fabs(cimag(l[k]))*len)*exp(4*str)*(1+cabs(l[k])*eps*10);
        cplx det = det3(A+9*k)*cexp(-I*fac*l[k]*eps*(double)n);
        double e = cabs(det-1);
        if (!(e <= u*(1+m*m*m))) h_violation("manakov-det", "%s lambda=%g%+gi: off by %.3g, bound %.3g", d, creal(l[k]), cimag(l[k]), e, u*(1+m*m*m));
        h_max("manakov_det_error_over_bound", e/(u*(1+m*m*m)));
        size_t cut = ri(r, 1, n-1); cplx P[9], Q[9], R[9];
        if (fnft__manakov_scatter_matrix(cut, q1, q2, eps, 1, l+k, kappa, P, disc) || fnft__manakov_scatter_matrix(n-cut, q1+cut, q2+cut, eps, 1, l+k, kappa, Q, disc)) { h_violation("scatter-failed", "%s", d); break; }
        mul3(Q, P, R); e = d9(R, A+9*k);
        if (!(e <= u*(1+n9(P)*n9(Q)))) h_violation("manakov-composition", "%s lambda=%g%+gi: %.3g", d, creal(l[k]), cimag(l[k]), e);
        h_max("manakov_composition_error_over_bound", e/(u*(1+n9(P)*n9(Q))));
        /* S(conj lambda)^H J S(lambda) = J with J = diag(1, kappa, kappa) */
        cplx lc = conj(l[k]), Y[9], YH[9], X[9]; if (fnft__manakov_scatter_matrix(n, q1, q2, eps, 1, &lc, kappa, Y, disc)) { h_violation("scatter-failed", "%s", d); break; }
        FOR (i, 3) FOR (j, 3) YH[3*i+j] = conj(Y[3*j+i])*(j ? kappa : 1);
        mul3(YH, A+9*k, X); X[0] -= 1; X[4] -= kappa; X[8] -= kappa;
        e = n9(X);
        if (!(e <= u*(1+m*n9(Y)))) h_violation("manakov-symmetry", "%s lambda=%g%+gi: off by %.3g, bound %.3g", d, creal(l[k]), cimag(l[k]), e, u*(1+m*n9(Y)));
        h_max("manakov_symmetry_error_over_bound", e/(u*(1+m*n9(Y))));
        cplx S1[9]; fnft__manakov_scatter_matrix(n, q1, q2, eps, 1, l+k, kappa, S1, disc);
        if (!(d9(S1, A+9*k) <= 1e-13*(1+m))) h_violation("manakov-batch", "%s", d);
        /* rotating the polarization by a unitary matrix rotates the matrix */
        double th = rr(r, -3, 3), ph = rr(r, -3, 3); cplx c0 = cos(th), s0 = sin(th)*cexp(I*ph);
        cplx *p1 = h_calloc_c(n), *p2 = h_calloc_c(n);
        FOR (i, n) { p1[i] = c0*q1[i]+s0*q2[i]; p2[i] = -conj(s0)*q1[i]+c0*q2[i]; }
        fnft__manakov_scatter_matrix(n, p1, p2, eps, 1, l+k, kappa, S1, disc);
        h_free(p1); h_free(p2);
        /* row vector (q1,q2) -> (q1,q2) V, V = [c0, -conj(s0); s0, c0]; new matrix is diag(1,V^H) A diag(1,V) */
        cplx V[9] = { 1,0,0, 0,c0,-conj(s0), 0,s0,c0 }, VH[9], t1[9], t2[9];
        FOR (i, 3) FOR (j, 3) VH[3*i+j] = conj(V[3*j+i]);
        mul3(A+9*k, V, t1); mul3(VH, t1, t2); e = d9(t2, S1);
        if (!(e <= u*(1+m))) h_violation("manakov-rotation", "%s lambda=%g%+gi: off by %.3g, bound %.3g", d, creal(l[k]), cimag(l[k]), e, u*(1+m));
        h_metric("manakov_matrices_checked", 1);
    }
    h_eval(1, "m:%d:%d:%zu:%zu", disc, kappa, n, K);
done: h_free(q1); h_free(q2);
}

/* maps between lambda and z, weights, changes of basis */
static void t_maps(rng_t *r, long idx)
{
    int pde = ri(r, 0, 2), disc = ri(r, 0, pde == 0 ? 27 : pde == 1 ? 55 : 12); (void)idx;
    double eps = rlog(r, 1e-3, 2); cplx v[4], o[4];
    double degree = pde == 0 ? fnft__nse_discretization_degree(disc) : pde == 1 ? fnft__kdv_discretization_degree(disc) : fnft__manakov_discretization_degree(disc);
    double ups = pde == 0 ? fnft__nse_discretization_upsampling_factor(disc) : pde == 1 ? fnft__kdv_discretization_upsampling_factor(disc) : fnft__manakov_discretization_upsampling_factor(disc);
    const char *nm = pde == 2 ? man_name[disc] : nse_name[disc % 28];
    int fast = degree > 0;
    double d = pde == 2 && disc == fnft_manakov_discretization_FTES4_suzuki ? 6 : degree*ups, w = fast ? 0.49*M_PI*d/eps : 1;
    FOR (k, 4) o[k] = v[k] = rr(r, -w, w)+I*rr(r, -5, 5)*d/(fast ? eps : 1);
    int e1 = pde == 0 ? fnft__nse_discretization_lambda_to_z(4, eps, v, disc) : pde == 1 ? fnft__kdv_discretization_lambda_to_z(4, eps, v, disc) : fnft__manakov_discretization_lambda_to_z(4, eps, v, disc);
    if (!fast) { if (!e1) h_violation("lambda-to-z-accepted", "pde %d %s has no polynomial degree but lambda_to_z succeeds", pde, nm); h_eval(1, "u:%d:%d", pde, disc); return; }
    if (e1) { h_violation("lambda-to-z-failed", "pde %d %s: %d", pde, nm, e1); return; }
    FOR (k, 4) {
        cplx want = cexp(2*I*o[k]*eps/d);
        if (!(cabs(v[k]-want) <= 1e-12*cabs(want))) h_violation("lambda-to-z", "pde %d %s eps=%g lambda=%g%+gi: z=%g%+gi instead of %g%+gi", pde, nm, eps, creal(o[k]), cimag(o[k]), creal(v[k]), cimag(v[k]), creal(want), cimag(want));
    }
    int e2 = pde == 0 ? fnft__nse_discretization_z_to_lambda(4, eps, v, disc) : pde == 1 ? fnft__kdv_discretization_z_to_lambda(4, eps, v, disc) : fnft__manakov_discretization_z_to_lambda(4, eps, v, disc);
    if (e2) { h_violation("z-to-lambda-failed", "pde %d %s: %d", pde, nm, e2); return; }
    FOR (k, 4) if (!(cabs(v[k]-o[k]) <= 1e-12*d/eps*(1+cabs(o[k])*eps/d))) h_violation("z-to-lambda", "pde %d %s eps=%g lambda=%g%+gi comes back as %g%+gi", pde, nm, eps, creal(o[k]), cimag(o[k]), creal(v[k]), cimag(v[k]));
    h_metric("maps_checked", 4);
    if (pde == 1) {
        FOR (f, 2) {
            /* no change of basis exists at xi = 0: either an error or a matrix pair that is its own inverse */
            cplx A[16], B[16], P[4], one[4] = { 1, 0, 0, 1 }; FOR (i, 16) A[i] = B[i] = NAN;
            int a = fnft__kdv_discretization_change_of_basis_matrix_to_S(A, 0, (uint_)f, eps, disc), b = fnft__kdv_discretization_change_of_basis_matrix_from_S(B, 0, (uint_)f, eps, disc);
            h_metric("bases_at_zero", 1);
            if (a && b) { h_metric("bases_at_zero_rejected", 1); continue; }
            if (!a) FOR (i, f ? 16 : 4) if (!(cabs(A[i]) < INFINITY)) { h_violation("basis-zero", "KdV %s disc=%d: to_S accepts xi=0 but entry %d is not finite", nm, disc, (int)i); break; }
            if (!b) FOR (i, f ? 16 : 4) if (!(cabs(B[i]) < INFINITY)) { h_violation("basis-zero", "KdV %s disc=%d: from_S accepts xi=0 but entry %d is not finite", nm, disc, (int)i); break; }
            cplx a4[4] = { A[0], A[1], f ? A[4] : A[2], f ? A[5] : A[3] }, b4[4] = { B[0], B[1], f ? B[4] : B[2], f ? B[5] : B[3] };
            if (!a) { if (!(cabs(a4[0]*a4[3]-a4[1]*a4[2]) > 0)) h_violation("basis-zero", "KdV %s disc=%d: to_S returns a singular matrix for xi=0", nm, disc); }
            if (!b) { if (!(cabs(b4[0]*b4[3]-b4[1]*b4[2]) > 0)) h_violation("basis-zero", "KdV %s disc=%d: from_S returns a singular matrix for xi=0", nm, disc); }
            if (!a && !b) { mul2(a4, b4, P); if (!(d4(P, one) <= 1e-12)) h_violation("basis-zero", "KdV %s disc=%d: xi=0 accepted, to_S*from_S is off by %.3g", nm, disc, d4(P, one)); }
        }
        FOR (k, 4) {
            cplx xi = rc(r)*rlog(r, 0.1, 10), A[16], B[16], C[4], D2[4], P[4], Ap[4];
            FOR (i, 16) A[i] = B[i] = NAN;
            int a = fnft__kdv_discretization_change_of_basis_matrix_to_S(A, xi, 1, eps, disc), b = fnft__kdv_discretization_change_of_basis_matrix_from_S(B, xi, 1, eps, disc);
            int c = fnft__kdv_discretization_change_of_basis_matrix_to_S(C, xi, 0, eps, disc), e = fnft__kdv_discretization_change_of_basis_matrix_from_S(D2, xi, 0, eps, disc);
            if (a || b || c || e) { h_violation("basis-failed", "%s: %d %d %d %d", nm, a, b, c, e); break; }
            mul2(C, D2, P); cplx one[4] = { 1, 0, 0, 1 };
            double tol = 1e-13*(1+n4(C)*n4(D2));
            if (!(d4(P, one) <= tol)) h_violation("basis-inverse", "KdV %s%s xi=%g%+gi: to_S*from_S is off by %.3g", nm, disc < 28 ? "_VANILLA" : "", creal(xi), cimag(xi), d4(P, one));
            for (int t = 0; t < 2; t++) {
                cplx *M = t ? B : A, *S = t ? D2 : C, up[4] = { M[0], M[1], M[4], M[5] }, lo[4] = { M[8], M[9], M[12], M[13] }, lr[4] = { M[10], M[11], M[14], M[15] }, ur[4] = { M[2], M[3], M[6], M[7] }, z[4] = { 0 };
                if (!(d4(up, S) <= 1e-13*(1+n4(S))) || !(d4(lr, S) <= 1e-13*(1+n4(S))) || !(d4(ur, z) <= 0)) h_violation("basis-blocks", "KdV %s disc=%d %s: block structure", nm, disc, t ? "from_S" : "to_S");
                enum { N = 12 }; double rho = 0.1*fmin(cabs(xi), 1/eps); cplx D[4] = { 0 }; double big = 0;
                FOR (i, N) { cplx ph = cexp(2*M_PI*I*i/N); if (t) fnft__kdv_discretization_change_of_basis_matrix_from_S(Ap, xi+rho*ph, 0, eps, disc); else fnft__kdv_discretization_change_of_basis_matrix_to_S(Ap, xi+rho*ph, 0, eps, disc); FOR (j, 4) D[j] += Ap[j]*conj(ph)/(N*rho); big = fmax(big, n4(Ap)); }
                if (!(d4(D, lo) <= 1e-11*(big/rho+n4(D)))) h_violation("basis-derivative", "KdV %s disc=%d %s xi=%g%+gi: off by %.3g of %.3g", nm, disc, t ? "from_S" : "to_S", creal(xi), cimag(xi), d4(D, lo), n4(D));
            }
            h_metric("bases_checked", 1);
        }
    }
    h_eval(1, "p:%d:%d", pde, disc);
}

/* fast scattering: polynomial matrices compose */
static void t_fast(rng_t *r, long idx)
{
    int pde = ri(r, 0, 2), kappa = rb(r, 0.5) ? 1 : -1; (void)idx;
    int disc, deg, ups;
    do { disc = ri(r, 0, pde == 0 ? 27 : pde == 1 ? 55 : 12); deg = pde == 0 ? fnft__nse_discretization_degree(disc) : pde == 1 ? fnft__kdv_discretization_degree(disc) : fnft__manakov_discretization_degree(disc);
         ups = pde == 0 ? fnft__nse_discretization_upsampling_factor(disc) : pde == 1 ? fnft__kdv_discretization_upsampling_factor(disc) : fnft__manakov_discretization_upsampling_factor(disc); } while (!deg || (deg > 30 && rb(r, 0.8)) || (pde == 2 && disc >= 8 && disc <= 10)); /* FTES4: difference quotients across the cut */
    size_t mult = ups > 1 ? 2 : 1, n1 = ri(r, 1, 9)*mult, n2 = ri(r, 1, 9)*mult, n = n1+n2, nc = pde == 2 ? 9 : 4, dim = pde == 2 ? 3 : 2;
    double len = rr(r, 0.3, 3), eps = len/n, amp = rlog(r, 1e-3, 1)/len;
    if (pde == 0 && disc == fnft_nse_discretization_2SPLIT2_MODAL) amp = fmin(amp, 0.5/eps/3);
    cplx *q = h_calloc_c(n), *p = h_calloc_c(n);
    FOR (k, n) { cplx v = amp*rc(r); if (pde == 0) { if (cabs(v)*eps > 0.9) v = 0.5/eps; q[k] = v; p[k] = -kappa*conj(v); } else if (pde == 1) { v = creal(v); if (disc < 28) { q[k] = v; p[k] = -1; } else { q[k] = -1; p[k] = v; } } else { q[k] = v; p[k] = amp*rc(r); } }
    const char *nm = pde == 2 ? man_name[disc] : nse_name[disc % 28];
    char d[140]; snprintf(d, sizeof d, "fast %s %s disc=%d n=%zu+%zu eps=%.4g kappa=%+d amp=%.3g", pde == 0 ? "NSE" : pde == 1 ? "KdV" : "Manakov", nm, disc, n1, n2, eps, kappa, amp); h_log("%s", d);
    cplx *T[3]; FNFT_UINT dg[3]; size_t len3[3] = { n, n1, n2 }, off[3] = { 0, 0, n1 }; FNFT_INT W[3] = { 0 }; int norm = rb(r, 0.5), bad = 0;
    FOR (i, 3) {
        size_t m = len3[i], num = pde == 0 ? fnft__nse_fscatter_numel(m, disc) : pde == 1 ? fnft__kdv_fscatter_numel(m, disc) : fnft__manakov_fscatter_numel(m, disc);
        T[i] = h_calloc_c(num ? num : 1);
        if (!num) { bad = 1; continue; }
        FNFT_INT *w = norm ? &W[i] : NULL;
        int e = pde == 0 ? fnft__nse_fscatter(m, q+off[i], p+off[i], eps, T[i], &dg[i], w, disc) : pde == 1 ? fnft__kdv_fscatter(m, q+off[i], p+off[i], eps, kappa, T[i], &dg[i], w, disc) : fnft__manakov_fscatter(m, q+off[i], p+off[i], kappa, eps, T[i], &dg[i], w, disc);
        if (e) { h_violation("fscatter-failed", "%s: %d", d, e); bad = 1; }
        else if (dg[i] != m*deg/(1)) { if (ups == 1) h_violation("fscatter-degree", "%s: degree %zu for %zu samples of degree %d", d, (size_t)dg[i], m, deg); }
    }
    if (!bad) {
        if (dg[0] != dg[1]+dg[2]) h_violation("fscatter-degree-sum", "%s: %zu %zu %zu", d, (size_t)dg[0], (size_t)dg[1], (size_t)dg[2]);
        else FOR (k, 4) {
            cplx z = cexp(I*rr(r, -M_PI, M_PI)), M[3][9], R[9];
            FOR (i, 3) FOR (c, nc) { cplx v = 0; FOR (j, dg[i]+1) v = v*z+T[i][c*(dg[i]+1)+j]; M[i][c] = v*exp2(W[i]); }
            double m = 0, m1 = 0, m2 = 0, e = 0; FOR (c, nc) { m = fmax(m, cabs(M[0][c])); m1 = fmax(m1, cabs(M[1][c])); m2 = fmax(m2, cabs(M[2][c])); }
            if (dim == 3) mul3(M[2], M[1], R); else mul2(M[2], M[1], R);
            FOR (c, nc) { double x = cabs(R[c]-M[0][c]); if (nan_gt(x, e)) e = x; }
            /* coefficients may be far larger than the values */
            double sum[3] = { 0 }; FOR (i, 3) { FOR (j, nc*(dg[i]+1)) sum[i] += cabs(T[i][j])*exp2(W[i]); sum[i] = sum[i]/sqrt(nc); }
            double tol = 4e-14*(sum[0]+sum[1]*sum[2]);
            if (!(e <= tol)) h_violation("fscatter-composition", "%s z=exp(%.4gi): product of the parts differs by %.3g (size %.3g, bound %.3g)", d, carg(z), e, m, tol);
            h_max("fscatter_composition_error_over_bound", e/tol);
            int b = disc % 28;
            if (pde < 2 && (b == fnft_nse_discretization_2SPLIT2_MODAL || (b >= fnft_nse_discretization_2SPLIT1A && b <= fnft_nse_discretization_2SPLIT2B))) {
                /* unimodular up to a power of z: |det| = 1 on the circle */
                cplx det = M[0][0]*M[0][3]-M[0][1]*M[0][2]; double x = fabs(cabs(det)-1);
                if (!(x <= 1e-14*sum[0]*sum[0]+1e-13)) h_violation("fscatter-det", "%s: |det| is off by %.3g", d, x);
                h_max("fscatter_det_error_over_bound", x/(1e-14*sum[0]*sum[0]+1e-13)); h_metric("fast_dets_checked", 1);
            }
            h_metric("fast_matrices_checked", 1);
        }
    }
    h_eval(!bad, "f:%d:%d:%zu:%zu", pde, disc, n1, n2);
    FOR (i, 3) h_free(T[i]);
    h_free(q); h_free(p);
}

void c27(long idx)
{
    rng_t r = rng_make(h_seed, 0x27, idx);
    switch ((idx + idx/8) % 8) {
    case 0: case 1: case 2: t_slow(&r, idx); break;
    case 3: t_bound(&r, idx); break;
    case 4: t_man(&r, idx); break;
    case 5: t_maps(&r, idx); break;
    default: t_fast(&r, idx);
    }
}
