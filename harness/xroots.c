/* C25: root finding for polynomials. */
#include "h.h"
#include "fnft__poly_roots_fasteigen.h"
#include "fnft__poly_roots_fftgridsearch.h"

static void from_roots(const cplxl *z, size_t n, cplxl *p)
{
    p[0] = 1;
    FOR (i, n) { p[i+1] = 0; for (size_t k = i+1; k > 0; k--) p[k] -= z[i]*p[k-1]; }
}
/* order for a stable expansion of the product */
static void leja(cplxl *z, size_t n)
{
    FOR (i, n) {
        size_t best = i; long double bv = -INFINITY;
        for (size_t j = i; j < n; j++) { long double v = 0; FOR (k, i) v += logl(cabsl(z[j]-z[k])+1e-300L); if (i == 0) v = cabsl(z[j]); if (v > bv) { bv = v; best = j; } }
        cplxl t = z[i]; z[i] = z[best]; z[best] = t;
    }
}
static long double horn(const cplx *p, size_t deg, cplxl z, cplxl *val)
{
    cplxl v = p[0]; long double s = cabs(p[0]), az = cabsl(z);
    for (size_t k = 1; k <= deg; k++) { v = v*z + p[k]; s = s*az + cabs(p[k]); }
    *val = v; return s;
}

static void t_eigen(rng_t *r, long idx)
{
    size_t deg = rb(r, 0.25) ? ri(r, 1, 3) : rb(r, 0.6) ? ri(r, 2, 24) : ri(r, 2, rb(r, 0.03) ? 800 : h_thorough ? 400 : 150);
    int st = ri(r, 0, 7);
    size_t nl = rb(r, 0.2) ? ri(r, 0, deg) : 0, nt = rb(r, 0.2) ? ri(r, 0, deg-nl) : 0;
    cplx *p = h_calloc_c(deg+1), *rt = h_calloc_c(deg+1);
    size_t m = deg-nl-nt;
    switch (st) {
    case 0: FOR (k, deg+1) p[k] = rc(r); break;
    case 1: FOR (k, deg+1) p[k] = rn(r); break;
    case 2: FOR (k, deg+1) p[k] = rc(r)*exp(-3.0*fabs((double)k-deg/2.)/(deg+1)); break;
    case 3: FOR (k, deg+1) p[k] = ri(r, -2, 2); break;
    case 4: p[nl] = 1; p[nl+m] += rb(r, 0.5) ? -1 : rc(r); break;      /* z^m - c */
    case 5: { if (m > 40) m = ri(r, 1, 40); deg = m+nl+nt; cplxl z[41], c[42]; FOR (k, m) z[k] = cexp(0.15*rn(r) + I*(2*M_PI*(k+0.4*ru(r))/m)); from_roots(z, m, c); FOR (k, m+1) p[nl+k] = (cplx)c[k]; break; }
    case 6: FOR (k, deg+1) p[k] = rb(r, 0.6) ? 0 : rc(r); break;
    case 7: FOR (k, deg+1) p[k] = rc(r)*(k == 0 || k == deg ? 1 : 0.05); break;
    }
    if (p[nl] == 0) p[nl] = 1;
    if (p[nl+m] == 0) p[nl+m] = 1;
    FOR (k, deg+1) if (k < nl || k > nl+m) p[k] = 0;
    double sc = rb(r, 0.2) ? rlog(r, 1e-30, 1e30) : 1;
    FOR (k, deg+1) p[k] *= sc;
    cplx *keep = h_dup_c(p, deg+1);
    rt[deg] = 123;
    int ret = fnft__poly_roots_fasteigen(deg, p, rt);
    char desc[120]; snprintf(desc, sizeof desc, "fasteigen deg=%zu style=%d zeros: %zu leading, %zu trailing, scale %.1e", deg, st, nl, nt, sc);
    h_log("%s", desc);
    if (ret) { h_violation("roots-failed", "%s: return code %d", desc, ret); goto done; }
    if (rt[deg] != 123) h_violation("roots-overrun", "%s", desc);
    if (memcmp(p, keep, (deg+1)*sizeof *p)) h_violation("roots-input", "%s: coefficients changed", desc);
    size_t ninf = 0, nzer = 0, nf = 0; cplxl *z = malloc((deg+1)*sizeof *z), *c = malloc((deg+2)*sizeof *c);
    FOR (k, deg) {
        if (isinf(creal(rt[k])) || isinf(cimag(rt[k]))) ninf++;
        else if (rt[k] == 0) nzer++;
        else if (isnan(creal(rt[k])) || isnan(cimag(rt[k]))) { h_violation("roots-nan", "%s: root %zu is NaN", desc, k); free(z); free(c); goto done; }
        else z[nf++] = rt[k];
    }
    if (ninf != nl || nzer != nt || nf != m) h_violation("roots-count", "%s: %zu infinite, %zu zero and %zu other roots", desc, ninf, nzer, nf);
    else if (m > 0) {
        long double nrm = 0, worst = 0; FOR (k, m+1) nrm += cabs(p[nl+k])*cabs(p[nl+k]);
        nrm = sqrtl(nrm);
        long double amp = nrm/fminl(cabs(p[nl]), cabs(p[nl+m]));   /* how far the balanced problem is from unitary */
        FOR (k, m) {
            cplxl v; horn(p+nl, m, z[k], &v);
            long double az = fmaxl(1, cabsl(z[k])), e = cabsl(v)/(nrm*powl(az, m)*(m+1));
            if (nan_gt(e, worst)) worst = e;
        }
        double tol = 2e-15*(1+amp*0.1)*(1+0.1*m);
        if (!(worst <= tol)) h_violation("roots-residual", "%s: a root has the residual %.3Lg (bound %.3g)", desc, worst, tol);
        h_max("residual_over_bound", worst/tol);
        if (m <= 60) {
            leja(z, m); from_roots(z, m, c);
            /* least squares fit of the leading coefficient */
            cplxl num = 0; long double den = 0, e = 0;
            FOR (k, m+1) { num += conjl(c[k])*p[nl+k]; den += cabsl(c[k])*cabsl(c[k]); }
            cplxl a = num/den;
            FOR (k, m+1) e += cabsl(a*c[k]-p[nl+k])*cabsl(a*c[k]-p[nl+k]);
            e = sqrtl(e)/nrm;
            double tb = 2e-15*(3+m)*(1+amp);
            if (!(e <= tb)) h_violation("roots-backward", "%s: the product of the linear factors differs from the polynomial by %.3Lg (bound %.3g)", desc, e, tb);
            h_max("backward_error_over_bound", e/tb);
            h_metric("polynomials_rebuilt", 1);
        }
        /* argument principle on random circles */
        for (int t = 0; t < 3; t++) {
            double rho = exp(rr(r, -0.4, 0.4)*(t ? 1 : 4./m)); cplx cen = t == 2 ? 0.5*rc(r) : 0;
            size_t G = 24*m+64, bad = 0; long double ph = 0; cplxl last = 0, first = 0;
            FOR (g, G) {
                cplxl w = cen + rho*cexp(2*M_PI*I*g/G), v; long double s = horn(p+nl, m, w, &v);
                if (cabsl(v) < 1e-9L*s*(1+amp*1e-3)) { bad = 1; break; }
                if (g == 0) first = v; else { long double d = cargl(v/last); if (fabsl(d) > 1.2) { bad = 1; break; } ph += d; }
                last = v;
            }
            if (bad) { h_metric("circles_skipped", 1); continue; }
            if (fabsl(cargl(first/last)) > 1.2) { h_metric("circles_skipped", 1); continue; }
            ph += cargl(first/last);
            long want = lroundl(ph/(2*M_PI)), have = 0, near = 0;
            FOR (k, m) { double d = cabsl(z[k]-cen); if (fabs(d-rho) < 3e-3*rho) near = 1; if (d < rho) have++; }
            if (near) continue;
            if (want != have) h_violation("roots-winding", "%s: %ld roots in |z-(%.3g%+.3gi)|<%.4g instead of %ld", desc, have, creal(cen), cimag(cen), rho, want);
            h_metric("circles_counted", 1);
        }
    }
    h_metric("roots_judged", deg);
    if (idx < 6) h_sample("%s", desc);
    h_eval(1, "e:%zu:%d:%zu:%zu", deg, st, nl, nt);
    free(z); free(c);
done: h_free(p); h_free(rt); h_free(keep);
}

static void t_grid(rng_t *r, long idx)
{
    /* roots on the unit circle with some distance, others clearly off the circle */
    int para = rb(r, 0.5);
    size_t n1 = ri(r, para ? 1 : 2, 14)*(para ? 2 : 1), n2 = ri(r, 0, 5)*(para ? 2 : 1), n = n1+n2;
    double full = 2*M_PI, p0, p1;
    cplxl z[64], c[65]; double th[64];
    double off = rr(r, 0, full);
    FOR (k, n1) { th[k] = off + full*(k+0.5*ru(r))/n1; z[k] = cexpl(I*(long double)th[k]); }
    FOR (k, n2) {
        double rad = exp(rr(r, 0.25, 0.6)); if (!para && rb(r, 0.5)) rad = 1/rad;
        if (para) { double t = rr(r, 0, full); z[n1+k] = rad*cexp(I*t); k++; z[n1+k] = cexp(I*t)/rad; }
        else z[n1+k] = rad*cexp(I*rr(r, 0, full));
    }
    cplxl zs[64]; memcpy(zs, z, sizeof zs); leja(zs, n);
    from_roots(zs, n, c);
    cplx p[65];
    if (para) { /* multiply by the constant that makes it real on the circle */
        cplxl prod = 1; FOR (k, n) prod *= -z[k];
        cplxl f = 1/csqrtl(prod/cabsl(prod)); f *= rb(r, 0.5) ? 1 : -1;
        double s = rlog(r, 1e-3, 1e3);
        FOR (k, n+1) p[k] = (cplx)(c[k]*f*s);
    } else { cplx f = rc(r); FOR (k, n+1) p[k] = (cplx)c[k]*f; }
    size_t M = ri(r, 12, 40)*(n1+2)*8;
    if (rb(r, 0.4)) { p0 = rr(r, -4, 3); p1 = p0+rr(r, 0.5, 5); } else { p0 = rr(r, -7, 3); p1 = p0+full; }
    double PHI[2] = { p0, p1 }, eps = (p1-p0)/(M-1);
    cplx *rt = h_calloc_c(M+1); rt[M] = 55;
    FNFT_UINT Mio = M;
    char desc[160]; snprintf(desc, sizeof desc, "%s deg=%zu (%zu on the circle) M=%zu PHI=[%.4f,%.4f]", para ? "paraherm" : "gridsearch", n, n1, M, p0, p1);
    int ret = para ? fnft__poly_roots_fftgridsearch_paraherm(n, p, &Mio, PHI, rt) : fnft__poly_roots_fftgridsearch(n, p, &Mio, PHI, rt);
    if (ret) { if (n >= 2) h_violation("gridsearch-failed", "%s: %d", desc, ret); h_free(rt); return; }
    if (rt[M] != 55 || Mio > M) h_violation("gridsearch-overrun", "%s", desc);
    int *hit = calloc(n, sizeof *hit);
    FOR (k, Mio) {
        size_t b = 0; FOR (j, n) if (cabsl(rt[k]-z[j]) < cabsl(rt[k]-z[b])) b = j;
        long double h = 0, d = cabsl(rt[k]-z[b]); FOR (j, n) if (j != b) h += 1/cabsl(z[b]-z[j]);
        double tol = (para ? 0.5 : 0.6)*eps*eps*(h+1) + 1e-10;
        if (b >= n1 || !(d <= fmin(tol, 2*eps+1e-10))) h_violation(para ? "paraherm-wrong-root" : "gridsearch-wrong-root", "%s: %.10f%+.10fi reported, the next root is %.3Lg away (grid %.3g, bound %.3g)", desc, creal(rt[k]), cimag(rt[k]), d, eps, tol);
        else { hit[b]++; h_max(para ? "paraherm_error_over_bound" : "gridsearch_error_over_bound", d/tol); }
        if (para && fabs(cabs(rt[k])-1) > 1e-12) h_violation("paraherm-off-circle", "%s: |z|=%.12f", desc, cabs(rt[k]));
    }
    FOR (j, n1) {
        /* does the angle lie inside the search range? multiples of 2 pi included */
        int in = 0, edge = 0; double mg = para ? 1e-6*eps+1e-9 : 2*eps;
        for (int s = -4; s <= 4; s++) { double t = th[j]+s*full; if (t > p0+mg && t < p1-mg) in++; else if (t > p0-mg-eps && t < p1+mg+eps) edge++; }
        int expect = in;
        if (hit[j] < expect || hit[j] > expect+edge) {
            /* a root right on a grid point may be reported from both sides */
            double g = fmod(fabs(th[j]-p0), eps)/eps; if (g > 0.5) g = 1-g;
            double h2 = para ? 1e-4 : 0.5-1e-2;
            if (para ? g < h2 : fabs(g) > h2) { h_metric("on_grid_roots_skipped", 1); continue; }
            h_violation(para ? "paraherm-missed" : "gridsearch-missed", "%s: root at angle %.8f reported %d times instead of %d (+%d at the edges)", desc, th[j], hit[j], expect, edge);
        } else h_metric("circle_roots_found", hit[j]);
    }
    free(hit);
    h_eval(1, "g%d:%zu:%zu", para, n, M);
    h_free(rt); (void)idx;
}

void c25(long idx)
{
    rng_t r = rng_make(h_seed, 0x25, idx);
    if ((idx + idx/8) % 3 == 2) t_grid(&r, idx); else t_eigen(&r, idx);
}
