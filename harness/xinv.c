/* C26: fast inverse scattering undoes fast forward scattering; spectral factorization. */
#include "h.h"
#include "fnft__nse_fscatter.h"
#include "fnft__nse_finvscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__kdv_finvscatter.h"
#include "fnft__poly_specfact.h"

static void sig(rng_t *r, cplx *q, size_t D, int style, int real_only)
{
    double w = rr(r, 0.08, 0.3)*D, c = rr(r, 0.3, 0.7)*D, om = rr(r, -20, 20)/D, ch = rr(r, -20, 20)/(D*(double)D), om2 = rr(r, -20, 20)/D;
    cplx a = cexp(I*rr(r, -4, 4)), b = rr(r, 0, 1)*cexp(I*rr(r, -4, 4));
    FOR (k, D) {
        double x = (k-c)/w;
        cplx v;
        switch (style) {
        case 0: v = a*exp(-x*x)*cexp(I*(om*k+ch*k*k)) + b*exp(-(x-1)*(x-1))*cexp(I*om2*k); break;
        case 1: v = a/cosh(3*x)*cexp(I*om*k); break;
        case 2: v = fabs(x) < 1 ? a : 0; break;
        case 3: v = rc(r)*0.5; break;
        case 4: v = a*cexp(I*om*k)*(1+0.3*cos(om2*k)); break;
        case 5: v = k == (size_t)c ? a : 0; break;
        default: v = a*sin(M_PI*(k+1.)/(D+1))*cexp(I*om*k);
        }
        q[k] = real_only ? creal(v) : v;
    }
}

static void t_nse(rng_t *r, long idx)
{
    size_t D = (size_t)1 << (rb(r, 0.6) ? ri(r, 1, 6) : ri(r, 1, h_thorough ? 12 : 10));
    int kappa = rb(r, 0.5) ? 1 : -1, disc = rb(r, 0.5) ? fnft_nse_discretization_2SPLIT2A : fnft_nse_discretization_2SPLIT2_MODAL, style = ri(r, 0, 6), norm = rb(r, 0.4);
    double eps = rlog(r, 1e-3, 2);
    cplx *q = h_calloc_c(D), *rr_ = h_calloc_c(D), *o = h_calloc_c(D+1);
    sig(r, q, D, style, 0);
    /* total strength of the signal limited: the inverse problem is ill-conditioned for strong signals */
    double s1 = 0, mx = 0; FOR (k, D) { s1 += cabs(q[k]); mx = fmax(mx, cabs(q[k])); }
    double area = rlog(r, 1e-3, 2.5), pk = 0.35, sc = s1 > 0 ? fmin(area/s1, pk/mx)/eps : 0;
    if (rb(r, 0.02)) sc = 0;
    double cond = 1;
    FOR (k, D) { q[k] *= sc; rr_[k] = -kappa*conj(q[k]); cond *= sqrt(1+pow(eps*cabs(q[k]), 2)); }
    size_t n = fnft__nse_fscatter_numel(D, disc);
    cplx *T = h_calloc_c(n+1); FNFT_UINT deg = 0; FNFT_INT W = 0;
    char desc[160]; snprintf(desc, sizeof desc, "nse D=%zu kappa=%+d %s signal %d %s area=%.3g peak=%.3g eps=%.3g", D, kappa, nse_name[disc], style, norm ? "normalized" : "plain", area, mx*sc*eps, eps);
    h_log("%s", desc);
    int r1 = fnft__nse_fscatter(D, q, rr_, eps, T, &deg, norm ? &W : NULL, disc);
    o[D] = 4;
    int r2 = r1 ? 0 : fnft__nse_finvscatter(deg, T, o, eps, kappa, disc);
    if (r1 || r2) h_violation("nse-roundtrip-failed", "%s: return codes %d %d", desc, r1, r2);
    else {
        if (deg != D || o[D] != 4) h_violation("nse-roundtrip-overrun", "%s", desc);
        double worst = 0; size_t wk = 0, fin = all_finite(o, D);
        FOR (k, D) { double e = cabs(o[k]-q[k])*eps; if (nan_gt(e, worst)) { worst = e; wk = k; } }
        double tol = 6e-18*(10+log2(D)*8)*sqrt(D)*pow(exp(fmin(area, s1*sc*eps)), 2)*(1+cond);
        if (!fin || !(worst <= tol)) h_violation("nse-roundtrip", "%s: sample %zu is recovered with the error %.3g (times step size, bound %.3g)", desc, wk, worst, tol);
        h_max(style == 3 ? "nse_noise_error_over_bound" : "nse_error_over_bound", worst/tol); h_metric("nse_samples_recovered", D);
    }
    h_eval(sc > 0, "n:%zu:%d:%d:%d:%d", D, kappa, disc, style, norm);
    if (idx < 4) h_sample("%s", desc);
    h_free(q); h_free(rr_); h_free(o); h_free(T);
}

static void t_kdv(rng_t *r, long idx)
{
    size_t D = (size_t)1 << (rb(r, 0.6) ? ri(r, 1, 6) : ri(r, 1, h_thorough ? 11 : 9));
    int style = ri(r, 0, 6), modal = rb(r, 0.6), norm = rb(r, 0.4);
    int van = rb(r, 0.1); /* documented as not supported */
    int disc = van ? (modal ? fnft_kdv_discretization_2SPLIT2_MODAL_VANILLA : fnft_kdv_discretization_2SPLIT2A_VANILLA) : modal ? fnft_kdv_discretization_2SPLIT2_MODAL : fnft_kdv_discretization_2SPLIT2A;
    double eps = rlog(r, 1e-3, 0.5);
    cplx *q = h_calloc_c(D), *rr_ = h_calloc_c(D), *o = h_calloc_c(D+1);
    sig(r, q, D, style, 1);
    double s1 = 0, mx = 0; FOR (k, D) { s1 += cabs(q[k]); mx = fmax(mx, cabs(q[k])); }
    double len = eps*D;
    double area = fmin(rlog(r, 1e-3, 1.5), rr(r, 0.5, 6)/len), sc = s1 > 0 ? fmin(area/s1, 0.2/mx)/eps : 0;
    FOR (k, D) { q[k] *= sc; rr_[k] = -1; }
    size_t n = fnft__kdv_fscatter_numel(D, disc);
    cplx *T = h_calloc_c(n+1); FNFT_UINT deg = 0; FNFT_INT W = 0;
    char desc[160]; snprintf(desc, sizeof desc, "kdv D=%zu %s%s signal %d %s area=%.3g eps=%.3g", D, modal ? "MODAL" : "2A", van ? "_VANILLA" : "", style, norm ? "normalized" : "plain", area, eps);
    h_log("%s", desc);
    int r1 = fnft__kdv_fscatter(D, van ? q : rr_, van ? rr_ : q, eps, 1, T, &deg, norm ? &W : NULL, disc);
    o[D] = 4;
    int r2 = r1 ? 0 : fnft__kdv_finvscatter(deg, T, o, eps, disc);
    if (van) { if (!r1 && !r2) h_violation("kdv-unsupported-accepted", "%s", desc); h_metric("unsupported_rejected", 1); }
    else if (r1 || r2) h_violation("kdv-roundtrip-failed", "%s: return codes %d %d", desc, r1, r2);
    else {
        if (o[D] != 4) h_violation("kdv-roundtrip-overrun", "%s", desc);
        double worst = 0; size_t wk = 0;
        FOR (k, D) { double e = cabs(o[k]-q[k])*eps; if (nan_gt(e, worst)) { worst = e; wk = k; } }
        double tol = (modal ? 1e-16*(D+8)*sqrt(D) : 0.02)*exp(2*sqrt(area*len));
        if (!(worst <= tol)) h_violation(modal ? "kdv-roundtrip" : "kdv-roundtrip-2A", "%s: sample %zu is recovered with the error %.3g (times step size, bound %.3g)", desc, wk, worst, tol);
        h_max(modal ? "kdv_error_over_bound" : "kdv2A_error_over_bound", worst/tol);
        if (h_verbose) printf("KD %zu %d %d %g %g %g %g\n", D, modal, style, eps, area, worst, worst/(mx*sc*eps));
        h_metric("kdv_samples_recovered", D);
    }
    h_eval(sc > 0, "k:%zu:%d:%d:%d", D, modal, style, norm);
    h_free(q); h_free(rr_); h_free(o); h_free(T); (void)idx;
}

static void fft2(cplx *x, size_t n)
{
    for (size_t i = 1, j = 0; i < n; i++) { size_t b = n >> 1; for (; j & b; b >>= 1) j ^= b; j |= b; if (i < j) { cplx t = x[i]; x[i] = x[j]; x[j] = t; } }
    cplx *w = malloc(n*sizeof *w); FOR (k, n/2) w[k] = cexp(-2*M_PI*I*k/n);
    for (size_t len = 2; len <= n; len <<= 1)
        for (size_t i = 0; i < n; i += len)
            FOR (k, len/2) { cplx u = x[i+k], v = x[i+k+len/2]*w[k*(n/len)]; x[i+k] = u+v; x[i+k+len/2] = u-v; }
    free(w);
}

/* The factorization works with the Fourier coefficients of log|.|; with an oversampled grid of M points
 * the coefficients with index >= M/2-1 alias. Their size (computed on a far finer grid) bounds the error. */
static void t_spec(rng_t *r, long idx)
{
    size_t deg = rb(r, 0.5) ? ri(r, 1, 12) : ri(r, 1, 80); uint_ osf = rb(r, 0.5) ? ri(r, 8, 32) : ri(r, 32, 200); int kappa = ri(r, -1, 1);
    cplx *p = h_calloc_c(deg+1), *a = h_calloc_c(deg+2);
    double w = rr(r, 0.05, 1);
    int st = ri(r, 0, 2);
    FOR (k, deg+1) p[k] = rc(r)*(st == 1 ? exp(-w*k) : st == 2 ? exp(-pow((k-deg/2.)/(0.2*deg+1), 2)) : 1);
    size_t G = 16*(deg+1)+64; double mx = 0;
    FOR (g, G) { cplx v = 0, z = cexp(2*M_PI*I*g/G); FOR (k, deg+1) v = v*z+p[k]; mx = fmax(mx, cabs(v)); }
    double lvl = kappa == 1 ? rr(r, 0.01, 0.9) : kappa == -1 ? rlog(r, 1e-2, 20) : rlog(r, 1e-2, 1e2);
    FOR (k, deg+1) p[k] *= lvl/mx;
    if (kappa == 0 && rb(r, 0.8)) p[ri(r, 0, deg)] += 1.3*lvl*cexp(I*rr(r, -4, 4)); /* no zeros near the circle */
    char desc[120]; snprintf(desc, sizeof desc, "specfact deg=%zu osf=%zu kappa=%d level=%.3g style=%d", deg, (size_t)osf, kappa, lvl, st);
    h_log("%s", desc);
    size_t M = (deg+1)*osf, F = 1; while (F < 16*M) F *= 2;
    if (F > 131072) F = 131072;
    cplx *x = calloc(F, sizeof *x);
    FOR (k, deg+1) x[k] = p[k];
    fft2(x, F);
    double lo = INFINITY, hi = 0;
    FOR (g, F) { double m2 = creal(x[g])*creal(x[g])+cimag(x[g])*cimag(x[g]), v = kappa == 0 ? m2 : 1-kappa*m2; lo = fmin(lo, v); hi = fmax(hi, v); x[g] = 0.5*log(v); }
    int usable = lo > 1e-7 && lo > 1e-7*hi;
    double tail = 0;
    fft2(x, F);
    for (size_t k = M/2-1 < 1 ? 1 : M/2-1; k < F/2; k++) tail += cabs(x[k])/F;
    free(x);
    a[deg+1] = 6;
    int ret = fnft__poly_specfact(deg, p, a, osf, kappa);
    if (a[deg+1] != 6) h_violation("specfact-overrun", "%s", desc);
    if (!usable) { h_metric("specfact_ill_posed", 1); h_eval(0, "x"); goto done; }
    if (ret) { h_violation("specfact-failed", "%s: %d", desc, ret); goto done; }
    double worst = 0, ph = 0; cplx last = 0; int bad = 0;
    FOR (g, G+1) {
        cplx z = cexp(2*M_PI*I*(g % G)/G), v = 0, bb = 0;
        FOR (k, deg+1) { v = v*z+a[k]; bb = bb*z+p[k]; }
        double m2 = creal(bb)*creal(bb)+cimag(bb)*cimag(bb), want = kappa == 0 ? m2 : 1-kappa*m2;
        double e = fabs(cabs(v)*cabs(v)-want)/want*sqrt(want/hi); if (nan_gt(e, worst)) worst = e;
        if (g) { double d = carg(v/last); if (!(fabs(d) <= 1)) bad = 1; ph += d; }
        last = v;
    }
    double tol = 2e-14*(deg+1)/sqrt(lo/hi) + 8*tail;
    if (tail < 1e-3) {
        if (!(worst <= tol)) h_violation("specfact-modulus", "%s: squared modulus is off by %.3g, bound %.3g", desc, worst, tol);
        h_max(kappa == 0 ? "specfact0_error_over_bound" : kappa == 1 ? "specfactP_error_over_bound" : "specfactM_error_over_bound", worst/tol);
        if (h_verbose) printf("SF %zu %d err=%g tail=%g lo/hi=%g\n", deg, kappa, worst, tail, lo/hi);
        h_metric(tail < 1e-9 ? "factors_checked_tightly" : "factors_checked_loosely", 1);
        if (!bad && tol < 0.05*sqrt(lo/hi)) {
            if (lround(ph/(2*M_PI)) != 0) h_violation("specfact-zeros", "%s: %ld zeros inside the unit circle", desc, lround(ph/(2*M_PI)));
            h_metric("factors_counted", 1);
        }
    } else h_metric("specfact_oversampling_too_small", 1);
    h_eval(tail < 1e-3, "s:%zu:%zu:%d:%d", deg, (size_t)osf, kappa, st); (void)idx;
done: h_free(p); h_free(a);
}

void c26(long idx)
{
    rng_t r = rng_make(h_seed, 0x26, idx);
    switch ((idx + idx/8) % 4) {
    case 0: case 1: t_nse(&r, idx); break;
    case 2: t_kdv(&r, idx); break;
    default: t_spec(&r, idx);
    }
}
