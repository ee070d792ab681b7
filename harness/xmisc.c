/* C24: chirp transform, evaluation, FFTs, resampling and the small helpers. */
#include "h.h"
#include <float.h>
#include "fnft__poly_chirpz.h"
#include "fnft__poly_eval.h"
#include "fnft__misc.h"
#ifndef FNFT__FFT_WRAPPER_SHORT_NAMES
#include "fnft__fft_wrapper.h"
#endif

static cplxl horner(const cplx *p, size_t deg, cplxl z)
{
    cplxl v = p[0];
    for (size_t k = 1; k <= deg; k++) v = v*z + p[k];
    return v;
}
static long double absum(const cplx *p, size_t deg, long double az)
{
    long double v = cabsl(p[0]);
    for (size_t k = 1; k <= deg; k++) v = v*az + cabs(p[k]);
    return v;
}
static void coefs(rng_t *r, cplx *p, size_t n)
{
    int st = ri(r, 0, 4);
    FOR (k, n) { cplx v = rc(r); p[k] = st == 1 ? creal(v) : st == 2 ? v*exp(-0.3*k) : st == 3 ? v*exp(-0.3*(n-1-k)) : st == 4 ? (rb(r, 0.7) ? 0 : v) : v; }
    if (rb(r, 0.1)) { double s = rlog(r, 1e-40, 1e40); FOR (k, n) p[k] *= s; }
}
static double ldmax(double a, double b) { return a > b ? a : b; }

static void t_chirp(rng_t *r, long idx)
{
    size_t deg = rb(r, 0.1) ? 0 : rb(r, 0.5) ? ri(r, 1, 20) : ri(r, 1, h_thorough ? 600 : 250), M = rb(r, 0.1) ? 1 : rb(r, 0.5) ? ri(r, 2, 20) : ri(r, 2, h_thorough ? 600 : 250);
    size_t Lm = deg+1 > M ? deg+1 : M;
    int mode = ri(r, 0, 4);
    double aw = rb(r, 0.5) ? rr(r, -0.05, 0.05) : rb(r, 0.5) ? rr(r, -M_PI, M_PI) : 2*M_PI/ri(r, 1, 300);
    double lw = mode >= 3 ? rr(r, -1, 1)*10/(0.5*Lm*Lm+1) : 0, la = mode == 2 || mode == 4 ? rr(r, -1, 1)*3/Lm : 0;
    cplx W = cexp(lw + I*aw), A = cexp(la + I*rr(r, -M_PI, M_PI));
    if (rb(r, 0.1)) W = 1;
    if (rb(r, 0.1)) A = 1;
    cplx *p = h_calloc_c(deg+1), *res = h_calloc_c(M+2);
    coefs(r, p, deg+1);
    cplx *keep = h_dup_c(p, deg+1);
    res[M] = 3.25; res[M+1] = -7;
    int ret = fnft__poly_chirpz(deg, p, A, W, M, res);
    char desc[160]; snprintf(desc, sizeof desc, "chirpz deg=%zu M=%zu A=%.3g+%.3gi W=%.5g+%.5gi", deg, M, creal(A), cimag(A), creal(W), cimag(W));
    if (ret) { h_violation("chirpz-failed", "%s: %d", desc, ret); goto done; }
    if (res[M] != 3.25 || res[M+1] != -7) h_violation("chirpz-overrun", "%s", desc);
    if (memcmp(p, keep, (deg+1)*sizeof *p)) h_violation("chirpz-input", "%s: coefficients changed", desc);
    cplxl lgW = clogl((cplxl)W), lgA = clogl((cplxl)A);
    long double S1 = 0, Vm = 0, S2 = 0;
    FOR (n, deg+1) { long double t = cabs(p[deg-n])*expl(-creall(lgA)*n + creall(lgW)*0.5L*n*n); S1 += t; S2 += t*t; }
    FOR (n, Lm) { long double t = expl(-creall(lgW)*0.5L*n*n); if (t > Vm) Vm = t; }
    long double ph = 1 + cabsl(lgW)*0.5L*Lm*Lm + cabsl(lgA)*deg + logl(deg+M+1);
    double worst = 0;
    FOR (m, M) {
        cplxl w = cexpl(lgA - m*lgW), z = 1/w;
        cplxl want = horner(p, deg, z);
        long double tol = 1*2.3e-16L*ph*(S1 + sqrtl(S2)*logl(deg+M+2)*2)*Vm*expl(creall(lgW)*0.5L*m*m) + 1e-280L;
        double e = cabsl(res[m]-want)/tol;
        if (nan_gt(e, worst)) worst = e;
        if (!(e <= 1)) { h_violation("chirpz-value", "%s: point %zu is %.8g%+.8gi instead of %.8g%+.8gi (bound %.2Lg)", desc, m, creal(res[m]), cimag(res[m]), (double)creall(want), (double)cimagl(want), tol); break; }
    }
    h_max("chirpz_error_over_bound", worst); h_metric("chirpz_points", M);
    if (idx < 8) h_sample("%s: error/bound %.2g", desc, worst);
    h_eval(1, "c:%zu:%zu:%d", deg, M, mode);
done: h_free(p); h_free(res); h_free(keep);
}

static void t_eval(rng_t *r, long idx)
{
    size_t deg = rb(r, 0.1) ? 0 : rb(r, 0.5) ? ri(r, 1, 12) : ri(r, 1, 400), nz = ri(r, 0, 12);
    cplx *p = h_calloc_c(deg+1), *z = h_calloc_c(nz+1), *zz, *z0, *dv = h_calloc_c(nz+1);
    coefs(r, p, deg+1);
    FOR (k, nz) {
        int s = ri(r, 0, 6);
        z[k] = s == 0 ? cexp(I*rr(r, -4, 4)) : s == 1 ? cexp(rr(r, -0.5, 0.5)/(deg+1)*8 + I*rr(r, -4, 4)) : s == 2 ? rc(r) : s == 3 ? (cplx[]){0, 1, -1, I}[ri(r, 0, 3)] : s == 4 ? 3*rc(r) : s == 5 ? rr(r, -2, 2) : cexp(1e-9*rn(r) + I*rr(r, -4, 4));
        if (z[k] != 0 && deg*fabs(log(cabs(z[k]))) > 500) z[k] /= cabs(z[k]);
    }
    z[nz] = 77; dv[nz] = 78;
    zz = h_dup_c(z, nz+1); z0 = h_dup_c(z, nz+1);
    int r1 = fnft__poly_eval(deg, p, nz, z), r2 = fnft__poly_evalderiv(deg, p, nz, zz, dv);
    char desc[100]; snprintf(desc, sizeof desc, "eval deg=%zu nz=%zu", deg, nz);
    if (r1 || r2) h_violation("eval-failed", "%s: %d %d", desc, r1, r2);
    else {
        if (z[nz] != 77 || zz[nz] != 77 || dv[nz] != 78) h_violation("eval-overrun", "%s", desc);
        double worst = 0;
        FOR (k, nz) {
            cplxl x = z0[k], v = p[0], d = 0; long double ax = cabsl(x), sv = cabs(p[0]), sd = 0;
            for (size_t j = 1; j <= deg; j++) { d = d*x + v; v = v*x + p[j]; sd = sd*ax + sv; sv = sv*ax + cabs(p[j]); }
            long double lg = cabsl(x) > 0 ? cabsl(clogl(x)) : 0;
            long double f = 1.5L*2.3e-16L*(2*deg+4+deg*lg), tv = f*sv + 1e-290L, td = 2*f*(sd + (cabsl(x) > 1 ? (deg+1.0L)*sv/ax : 0)) + 1e-290L;
            double e = ldmax(ldmax(cabsl(z[k]-v)/tv, cabsl(zz[k]-v)/tv), cabsl(dv[k]-d)/td);
            if (!(cabsl(z[k]-v) <= tv)) h_violation("eval-value", "%s z=%.6g%+.6gi: p=%.10g%+.10gi instead of %.10g%+.10gi", desc, creal(z0[k]), cimag(z0[k]), creal(z[k]), cimag(z[k]), (double)creall(v), (double)cimagl(v));
            if (!(cabsl(zz[k]-v) <= tv)) h_violation("evalderiv-value", "%s z=%.6g%+.6gi: p=%.10g%+.10gi instead of %.10g%+.10gi", desc, creal(z0[k]), cimag(z0[k]), creal(zz[k]), cimag(zz[k]), (double)creall(v), (double)cimagl(v));
            if (!(cabsl(dv[k]-d) <= td)) h_violation("evalderiv-derivative", "%s z=%.6g%+.6gi: p'=%.10g%+.10gi instead of %.10g%+.10gi", desc, creal(z0[k]), cimag(z0[k]), creal(dv[k]), cimag(dv[k]), (double)creall(d), (double)cimagl(d));
            if (e > worst) worst = e;
        }
        h_max("eval_error_over_bound", worst); h_metric("eval_points", nz);
    }
    h_eval(nz > 0, "e:%zu:%zu", deg, nz);
    h_free(p); h_free(z); h_free(zz); h_free(z0); h_free(dv);
}

static void t_fft(rng_t *r, long idx)
{
    size_t n = rb(r, 0.3) ? (size_t)1 << ri(r, 0, 9) : rb(r, 0.5) ? ri(r, 1, 40) : ri(r, 1, h_thorough ? 900 : 400);
    int sgn = rb(r, 0.5) ? 1 : -1, inplace = rb(r, 0.2);
    if (rb(r, 0.3)) { size_t f = fnft__fft_wrapper_next_fft_length(n); if (f < n) h_violation("fft-length", "next_fft_length(%zu)=%zu", n, f); if (f < 1200) n = f; }
    cplx *x = fnft__fft_wrapper_malloc(n*sizeof *x), *y = fnft__fft_wrapper_malloc((n+1)*sizeof *y);
    fnft__fft_wrapper_plan_t pl = fnft__fft_wrapper_safe_plan_init();
    coefs(r, x, n);
    cplx *k = h_dup_c(x, n);
    y[n] = 5;
    int rep = ri(r, 1, 2), bad = 0;
    int ret = fnft__fft_wrapper_create_plan(&pl, n, x, y, sgn);
    for (int q = 0; q < rep && !ret; q++) {
        if (inplace) memcpy(y, k, n*sizeof *y);
        ret = fnft__fft_wrapper_execute_plan(pl, inplace ? y : x, y);
    }
    if (ret) h_violation("fft-failed", "length %zu: %d", n, ret);
    else {
        if (memcmp(x, k, n*sizeof *x)) h_violation("fft-input", "length %zu: input changed", n);
        if (y[n] != 5) h_violation("fft-overrun", "length %zu", n);
        long double s2 = 0; double worst = 0;
        FOR (j, n) s2 += cabs(k[j])*cabs(k[j]);
        double tol = 0.6e-16*(6+6*log2(n+1.))*sqrtl(s2)*sqrt(n)*0.7 + 1e-290;
        cplxl *w = malloc(n*sizeof *w);
        FOR (j, n) w[j] = cexpl(sgn*2*3.14159265358979323846264338327950288L*I*j/n);
        FOR (f, n) { cplxl s = 0; FOR (j, n) s += k[j]*w[(j*f)%n]; double e = cabsl(s-y[f])/tol; if (nan_gt(e, worst)) worst = e; if (!(e <= 1)) { bad = 1; break; } }
        free(w);
        if (bad) h_violation("fft-value", "length %zu sign %d inplace %d: error/bound %.3g", n, sgn, inplace, worst);
        h_max("fft_error_over_bound", worst); h_metric("fft_lengths", 1);
    }
    h_eval(1, "f:%zu:%d:%d", n, sgn, inplace);
    fnft__fft_wrapper_destroy_plan(&pl); fnft__fft_wrapper_free(x); fnft__fft_wrapper_free(y); h_free(k);
    (void)idx;
}

static void t_resample(rng_t *r, long idx)
{
    size_t D = rb(r, 0.5) ? ri(r, 3, 24) : ri(r, 3, 200);
    double eps = rlog(r, 1e-2, 10)*(rb(r, 0.5) ? 1 : 1), delta = rb(r, 0.3) ? eps*ri(r, -3, 3) : eps*rr(r, -1, 1);
    int bl = ri(r, 0, 2);
    cplx *q = h_calloc_c(D), *o = h_calloc_c(D+1);
    if (bl == 0) FOR (k, D) q[k] = rc(r);
    else { int nm = ri(r, 1, 4); double s = 1; FOR (j, nm) { int f = ri(r, -(int)(D-1)/2, (int)(D-1)/2); cplx c = rc(r)*s; FOR (k, D) q[k] += c*cexp(2*M_PI*I*f*k/D); } }
    o[D] = 9;
    cplx *keep = h_dup_c(q, D);
    int inpl = rb(r, 0.2);
    int ret = fnft__misc_resample(D, eps, q, delta, inpl ? q : o);
    if (inpl) { memcpy(o, q, D*sizeof *o); memcpy(q, keep, D*sizeof *o); }
    char desc[120]; snprintf(desc, sizeof desc, "resample D=%zu eps=%.4g delta=%.4g kind=%d", D, eps, delta, bl);
    if (ret) h_violation("resample-failed", "%s: %d", desc, ret);
    else {
        if (o[D] != 9) h_violation("resample-overrun", "%s", desc);
        if (memcmp(q, keep, D*sizeof *q)) h_violation("resample-input", "%s: input changed", desc);
        cplxl *X = malloc(D*sizeof *X); long double s2 = 0; double worst = 0;
        FOR (f, D) { cplxl s = 0; FOR (k, D) s += q[k]*cexp(-2*M_PI*I*((f*k)%D)/D); X[f] = s; s2 += cabs(q[f])*cabs(q[f]); }
        double tol = 1e-14*sqrtl(s2)*(1+0.02*D*0.1) + 1e-280;
        FOR (k, D) {
            cplxl s = 0, alt = 0;
            FOR (f, D) {
                long fs = f < (D+1)/2 ? (long)f : (long)f-(long)D;
                cplxl t = X[f]*cexp(2*M_PI*I*((f*k)%D)/D);
                s += t*cexp(2*M_PI*I*fs*(delta/eps)/D);
                /* the component at half the sampling frequency of an even length may go either way */
                alt += t*cexp(2*M_PI*I*(2*f == D ? -fs : fs)*(delta/eps)/D);
            }
            double e = fmin(cabsl(s/D-o[k]), cabsl(alt/D-o[k]))/tol;
            if (nan_gt(e, worst)) worst = e;
        }
        if (!(worst <= 1)) h_violation("resample-value", "%s: error/bound %.3g", desc, worst);
        h_max("resample_error_over_bound", worst); h_metric("resampled", 1);
        free(X);
    }
    h_eval(1, "r:%zu:%d", D, bl); (void)idx;
    h_free(q); h_free(o); h_free(keep);
}

static void t_misc(rng_t *r, long idx)
{
    /* power of two */
    { size_t n = rb(r, 0.5) ? ri(r, 1, 70) : ri(r, 1, 2000000000), p = fnft__misc_nextpowerof2(n);
      if (p < n || (p & (p-1)) || (p > 1 && p/2 >= n)) h_violation("nextpowerof2", "%zu -> %zu", n, p); }
    /* sinc and derivative, small and large arguments */
    FOR (k, 6) {
        cplx x = rlog(r, 1e-12, 3)*cexp(I*rr(r, -4, 4));
        if (rb(r, 0.2)) x = creal(x);
        if (rb(r, 0.2)) x = I*cimag(x);
        if (rb(r, 0.03)) x = 0;
        cplxl X = x, s, d;
        if (cabs(x) < 1.5) { s = 0; d = 0; cplxl t = 1; for (int n = 0; n < 22; n++) { s += t; cplxl t2 = -t*X*X/((2*n+2.0L)*(2*n+3)); d += X == 0 ? 0 : t2*(2*n+2)/X; t = t2; } }
        else { s = csinl(X)/X; d = (ccosl(X)-s)/X; }
        cplx a = fnft__misc_CSINC(x), b = fnft__misc_CSINC_derivative(x);
        if (!(cabsl(a-s) <= 4e-16*(1+cabsl(s))*2)) h_violation("csinc", "x=%.8g%+.8gi: %.16g%+.16gi", creal(x), cimag(x), creal(a), cimag(a));
        if (!(cabsl(b-d) <= 3e-15*(cabs(x) < 1 ? cabs(x)+1e-30 : 1)*(1+cabsl(d)))) h_violation("csinc-derivative", "x=%.8g%+.8gi: %.16g%+.16gi instead of %.16g%+.16gi", creal(x), cimag(x), creal(b), cimag(b), (double)creall(d), (double)cimagl(d));
        cplx h = fnft__misc_sech(x); cplxl hh = 1/ccoshl(X);
        if (!(cabsl(h-hh) <= 4e-15*cabsl(hh)*(1+cabsl(hh))*(1+cabs(x)))) h_violation("sech", "x=%.8g%+.8gi: %.16g%+.16gi", creal(x), cimag(x), creal(h), cimag(h));
    }
    /* Legendre polynomials by the Rodrigues sum */
    { int n = ri(r, 0, 12); double x = rr(r, -1, 1); long double s = 0;
      for (int k = 0; k <= n; k++) { long double b = 1; for (int j = 1; j <= k; j++) b = b*(n+1-j)/j; s += b*b*powl((x-1.0L)/2, n-k)*powl((x+1.0L)/2, k); }
      double v = fnft__misc_legendre_poly(n, x);
      if (!(fabsl(v-s) <= 1e-13)) h_violation("legendre", "P_%d(%.6g)=%.16g instead of %.16Lg", n, x, v, s); }
    /* normalization of vectors */
    { size_t n = ri(r, 1, 9); cplx v[9], w[9]; double sc = pow(2, ri(r, -300, 300)); double mx = 0;
      FOR (k, n) { v[k] = w[k] = rb(r, 0.2) ? 0 : sc*rc(r); }
      int a = fnft__misc_normalize_vector(n, w);
      int ok = 1;
      FOR (k, n) { if (cabs(w[k]) > mx) mx = cabs(w[k]); if (creal(v[k]) != ldexp(creal(w[k]), a) || cimag(v[k]) != ldexp(cimag(w[k]), a)) ok = 0; }
      if (!ok) h_violation("normalize-vector", "scaling by 2^%d is not exact", a);
      if (mx > 0 && !(mx >= 0.99999999 && mx < 2.0000001)) h_violation("normalize-vector-range", "largest element %.6g after scaling", mx); }
    /* norms and distances */
    { size_t n = ri(r, 1, 20), m = ri(r, 1, 20); cplx *a = h_calloc_c(n), *b = h_calloc_c(n), *c = h_calloc_c(m); long double s = 0, e1 = 0, e2 = 0;
      double t0 = rr(r, -5, 5), t1 = t0+rlog(r, 1e-3, 10);
      FOR (k, n) { a[k] = rc(r); b[k] = a[k]+0.1*rc(r); s += (long double)creal(a[k])*creal(a[k])+(long double)cimag(a[k])*cimag(a[k]); e1 += cabsl((cplxl)b[k]-a[k]); e2 += cabsl((cplxl)a[k]); }
      FOR (k, m) c[k] = rb(r, 0.5) ? a[ri(r, 0, n-1)] + 1e-3*rc(r) : rc(r);
      double v = fnft__misc_l2norm2(n, a, t0, t1);
      if (!(fabsl(v-s*((long double)t1-t0)/n) <= 1e-13*v)) h_violation("l2norm2", "n=%zu: %.16g", n, v);
      v = fnft__misc_rel_err(n, b, a);
      if (!(fabsl(v-e1/e2) <= 1e-13)) h_violation("rel-err", "n=%zu: %.16g instead of %.16Lg", n, v, e1/e2);
      double h = 0;
      FOR (i, n) { double d = INFINITY; FOR (j, m) d = fmin(d, cabs(a[i]-c[j])); h = fmax(h, d); }
      FOR (j, m) { double d = INFINITY; FOR (i, n) d = fmin(d, cabs(a[i]-c[j])); h = fmax(h, d); }
      v = fnft__misc_hausdorff_dist(n, a, m, c);
      if (!(fabs(v-h) <= 1e-15)) h_violation("hausdorff", "n=%zu m=%zu: %.16g instead of %.16g", n, m, v, h);
      h_free(a); h_free(b); h_free(c); }
    /* downsampling */
    { size_t D = rb(r, 0.5) ? ri(r, 3, 20) : ri(r, 3, 3000); FNFT_UINT want = rb(r, 0.1) ? ri(r, 0, 2) : ri(r, 1, D+3), Ds = want, fl[2] = { 999999, 999999 }; cplx *q = h_calloc_c(D), *qs = NULL;
      FOR (k, D) q[k] = k+1;
      int ret = fnft__misc_downsample(D, q, &Ds, &qs, fl);
      if (ret) h_violation("downsample-failed", "D=%zu desired %zu: %d", D, (size_t)want, ret);
      else {
          FNFT_UINT w = want < 2 ? 2 : want > D ? D : want; size_t st = (size_t)floor((double)D/w + 0.5);
          if (Ds < 2 || Ds > D || fl[0] != 0 || fl[1] != (Ds-1)*st || fl[1] >= D || labs((long)Ds - (long)floor((double)D/st+0.5)) > 0) h_violation("downsample-count", "D=%zu desired %zu: Dsub=%zu first=%zu last=%zu", D, (size_t)want, (size_t)Ds, (size_t)fl[0], (size_t)fl[1]);
          else { FOR (k, Ds) if (qs[k] != q[k*st]) { h_violation("downsample-value", "D=%zu desired %zu: sample %zu is sample %.0f of the input", D, (size_t)want, k, creal(qs[k])-1); break; } }
          free(qs);
      }
      h_free(q); }
    /* filters */
    for (int rep = 0; rep < 3; rep++) {
        size_t n = ri(r, 0, 30); cplx *v = h_calloc_c(n+1), *w = h_calloc_c(n+1), *v0; double bb[4];
        FOR (k, n) { v[k] = rb(r, 0.3) ? ri(r, -2, 2)+I*ri(r, -2, 2) : rb(r, 0.05) ? (rb(r, 0.5) ? NAN : INFINITY+I*0) : 2*rc(r); w[k] = k; }
        v0 = h_dup_c(v, n+1);
        bb[0] = rb(r, 0.2) ? -INFINITY : rb(r, 0.5) ? ri(r, -2, 1) : rn(r); bb[1] = rb(r, 0.2) ? INFINITY : bb[0]+fabs(rb(r, 0.5) ? ri(r, 0, 3) : rn(r));
        bb[2] = rb(r, 0.2) ? -INFINITY : rb(r, 0.5) ? ri(r, -2, 1) : rn(r); bb[3] = rb(r, 0.2) ? INFINITY : bb[2]+fabs(rb(r, 0.5) ? ri(r, 0, 3) : rn(r));
        if (isinf(bb[0])) bb[1] = rb(r, 0.5) ? rn(r) : INFINITY;
        if (isinf(bb[2])) bb[3] = rb(r, 0.5) ? rn(r) : INFINITY;
        FNFT_UINT N = n; int ret, use = rb(r, 0.5); size_t m = 0; int bad = 0;
        const char *nm = rep == 0 ? "filter" : rep == 1 ? "filter-inv" : "filter-nonreal";
        double tol = rb(r, 0.3) ? 1 : rb(r, 0.2) ? 0 : fabs(rn(r));
        ret = rep == 0 ? fnft__misc_filter(&N, v, use ? w : NULL, bb) : rep == 1 ? fnft__misc_filter_inv(&N, v, use ? w : NULL, bb) : fnft__misc_filter_nonreal(&N, v, tol);
        if (rep == 2) use = 0;
        FOR (k, n) {
            double x = creal(v0[k]), y = cimag(v0[k]); int in;
            if (rep == 0) in = x >= bb[0] && x <= bb[1] && y >= bb[2] && y <= bb[3];
            else if (rep == 1) in = !(x > bb[0] && x < bb[1] && y > bb[2] && y < bb[3]);
            else in = fabs(y) > tol;
            if (!in) continue;
            if (m < N && (memcmp(v+m, v0+k, sizeof *v) || (use && w[m] != k))) bad = 1;
            m++;
        }
        if (n && (ret || bad || m != N)) h_violation(nm, "%zu values, box [%g,%g]x[%g,%g], tol %g: %zu kept, expected %zu, return code %d, order %s", n, bb[0], bb[1], bb[2], bb[3], tol, (size_t)N, m, ret, bad ? "wrong" : "ok");
        h_free(v); h_free(w); h_free(v0);
        h_metric("filters", 1);
    }
    /* merging: survivors are a subsequence, mutually at least tol apart, and every value is linked to a survivor */
    { size_t n = ri(r, 1, 25); cplx *v = h_calloc_c(n), *v0; double tol = rlog(r, 1e-3, 1);
      FOR (k, n) v[k] = k && rb(r, 0.5) ? v[ri(r, 0, k-1)] + (rb(r, 0.3) ? 0 : 0.7*tol*rc(r)) : rc(r);
      v0 = h_dup_c(v, n); FNFT_UINT N = n;
      int ret = fnft__misc_merge(&N, v, tol);
      if (ret || N < 1 || N > n || memcmp(v, v0, sizeof *v)) h_violation("merge", "n=%zu tol=%g: return code %d, %zu left", n, tol, ret, (size_t)N);
      else {
          size_t pos = 0; char *kept = calloc(n, 1);
          FOR (k, N) { while (pos < n && memcmp(v+k, v0+pos, sizeof *v)) pos++; if (pos == n) { h_violation("merge-order", "n=%zu: survivor %zu is not a value of the input in order", n, k); break; } kept[pos++] = 1; }
          FOR (i, N) FOR (j, i) if (cabs(v[i]-v[j]) < tol) h_violation("merge-distance", "n=%zu: two survivors closer than %g", n, tol);
          int ch = 1; while (ch) { ch = 0; FOR (i, n) if (!kept[i]) FOR (j, n) if (kept[j] && cabs(v0[i]-v0[j]) < tol) { kept[i] = 1; ch = 1; break; } }
          FOR (i, n) if (!kept[i]) { h_violation("merge-lost", "n=%zu: value %zu vanished although no survivor is near", n, i); break; }
          free(kept);
      }
      h_free(v); h_free(v0); }
    h_metric("helper_rounds", 1);
    h_eval(1, "m:%ld", idx);
}

void c24(long idx)
{
    rng_t r = rng_make(h_seed, 0x24, idx);
    switch ((idx + idx/8) % 8) {
    case 0: case 1: t_chirp(&r, idx); break;
    case 2: t_eval(&r, idx); break;
    case 3: t_fft(&r, idx); break;
    case 4: t_resample(&r, idx); break;
    default: t_misc(&r, idx);
    }
}
