/* C23: products of polynomials and polynomial matrices. */
#include "h.h"
#include "fnft__poly_fmult.h"
#include "fnft__misc.h"
#ifndef FNFT__FFT_WRAPPER_SHORT_NAMES
#include "fnft__fft_wrapper.h"
#endif

/* a matrix polynomial of size m x m and degree d; coefficient k of entry (i,j) at c[(i*m+j)*(d+1)+k] */
typedef struct { int m; size_t d; cplxl *c; long double e2, n2, sup; } mp_t;
static mp_t mp_new(int m, size_t d) { mp_t p = { m, d, calloc(m*m*(d+1), sizeof(cplxl)), 0, 0, 0 }; return p; }
static void mp_norms(mp_t *p)
{
    long double s = 0;
    size_t n = p->d+1;
    FOR (k, p->m*p->m*n) s += creall(p->c[k])*creall(p->c[k]) + cimagl(p->c[k])*cimagl(p->c[k]);
    p->n2 = sqrtl(s);
    /* largest Frobenius norm on a grid of the unit circle */
    size_t G = 2*n+1;
    cplx *w = malloc(G*sizeof *w);
    FOR (g, G) w[g] = cexp(2*M_PI*I*g/G);
    double best = 0;
    FOR (g, G) {
        double f = 0;
        FOR (e, p->m*p->m) {
            cplx v = 0;
            FOR (k, n) v += (cplx)(p->c[e*n+k]/ (p->n2 > 0 ? p->n2 : 1))*w[(k*g)%G];
            f += creal(v)*creal(v)+cimag(v)*cimag(v);
        }
        if (f > best) best = f;
    }
    free(w);
    p->sup = 1.3*sqrt(best)*p->n2;
    if (p->sup < p->n2) p->sup = p->n2;
}
static mp_t mp_mul(const mp_t *a, const mp_t *b)
{
    int m = a->m; size_t d = a->d + b->d;
    mp_t r = mp_new(m, d);
    FOR (i, m) FOR (j, m) FOR (l, m) {
        const cplxl *x = a->c+(i*m+l)*(a->d+1), *y = b->c+(l*m+j)*(b->d+1); cplxl *z = r.c+(i*m+j)*(d+1);
        FOR (k, a->d+1) { cplxl v = x[k]; if (v == 0) continue; FOR (q, b->d+1) z[k+q] += v*y[q]; }
    }
    mp_norms(&r);
    double lg = 3+log2(d+2.);
    r.e2 = a->e2*b->sup + b->e2*a->sup + 2e-16*lg*m*a->n2*b->n2;
    return r;
}
static mp_t tree(mp_t *p, size_t n)
{
    if (n == 1) { mp_t r = mp_new(p->m, p->d); memcpy(r.c, p->c, p->m*p->m*(p->d+1)*sizeof(cplxl)); mp_norms(&r); return r; }
    size_t h = 1; while (2*h < n) h *= 2;
    mp_t a = tree(p, h), b = tree(p+h, n-h), r = mp_mul(&a, &b);
    free(a.c); free(b.c);
    return r;
}

static void rpoly(rng_t *r, cplx *p, size_t n, int style, double scale)
{
    FOR (k, n) {
        cplx v = rc(r);
        switch (style) {
        case 1: v = creal(v); break;
        case 2: if (k != 0 && k != n-1) v *= 0.1; break;
        case 3: v *= exp(-0.7*k); break;
        case 4: v = rb(r, 0.6) ? 0 : v; break;
        case 5: v = ri(r, -3, 3) + I*ri(r, -3, 3); break;
        case 6: v = k == 0 ? 1 : 0; break;
        case 7: v *= exp(-0.7*(n-1-k)); break;
        case 8: v = 0; break;
        }
        p[k] = v*scale;
    }
}

static void chain(rng_t *r, long idx)
{
    int m = ri(r, 1, 3);
    size_t maxtot = m == 1 ? 500 : m == 2 ? 220 : 110;
    if (h_thorough) maxtot *= 2;
    size_t d = rb(r, 0.12) ? 0 : rb(r, 0.5) ? ri(r, 1, 4) : ri(r, 1, rb(r, 0.2) ? 60 : 16);
    int big = rb(r, 0.01); if (big) { maxtot *= 12; d = ri(r, 1, 6); }
    size_t n = big ? ri(r, 200, 1500) : ri(r, 1, rb(r, 0.3) ? 64 : 17);
    while (n > 1 && n*(d ? d : 1) > maxtot) n = (n+1)/2;
    int style = ri(r, 0, 7), wn = rb(r, 0.6) || (big && n > 250), zero = rb(r, 0.02);
    double lscale = wn && rb(r, 0.3) ? rr(r, -60, 60)*(big ? 0.03 : 1) : rr(r, -1.5, 1.5)*(big ? 0.02 : 1);
    size_t numel = m == 1 ? fnft__poly_fmult_numel(d, n) : m == 2 ? fnft__poly_fmult2x2_numel(d, n) : fnft__poly_fmult3x3_numel(d, n);
    size_t pw = 1; while (pw < n) pw *= 2;
    char desc[160];
    snprintf(desc, sizeof desc, "%dx%d deg=%zu n=%zu style=%d %s scale=1e%.1f", m, m, d, n, style, wn ? "normalized" : "plain", lscale);
    h_log("%s", desc);
    if (numel < (size_t)m*m*(d+1)*n) { h_violation("numel-too-small", "%s: numel %zu", desc, numel); return; }
    /* extra canary elements behind the documented length */
    cplx *p = h_malloc((numel+4)*sizeof *p), *res = h_malloc((numel+4)*sizeof *res);
    h_fill(p, (numel+4)*sizeof *p, 0x7ff81234abcdef01ull); h_fill(res, (numel+4)*sizeof *res, 0x7ff81234abcdef01ull);
    cplx can[4]; memcpy(can, p+numel, sizeof can);
    mp_t *q = malloc(n*sizeof *q);
    FOR (i, n) {
        q[i] = mp_new(m, d);
        double sc = pow(10, lscale + (wn ? 0 : rr(r, -0.1, 0.1)));
        FOR (e, m*m) {
            cplx *dst = m == 1 ? p+i*(d+1) : p+(e*n+i)*(d+1);
            int st = zero && i == n/2 ? 8 : style == 6 ? (e % (m+1) == 0 ? 6 : 8) : style;
            if (m > 1 && rb(r, 0.05)) st = 8;
            rpoly(r, dst, d+1, st, sc);
            FOR (k, d+1) q[i].c[e*(d+1)+k] = dst[k];
        }
    }
    mp_t ref = tree(q, n);
    FNFT_UINT dd = d; FNFT_INT W = 12345;
    int rc_ = m == 1 ? fnft__poly_fmult(&dd, n, p, wn ? &W : NULL) : m == 2 ? fnft__poly_fmult2x2(&dd, n, p, res, wn ? &W : NULL)
            : fnft__poly_fmult3x3(&dd, n, p, res, wn ? &W : NULL);
    cplx *out = m == 1 ? p : res;
    if (rc_ != FNFT_SUCCESS) { h_violation("fmult-failed", "%s: return code %d", desc, rc_); goto done; }
    if (memcmp(p+numel, can, sizeof can) || memcmp(res+numel, can, sizeof can)) h_violation("fmult-overrun", "%s: elements behind the documented length were changed", desc);
    if (dd != d*n) { h_violation("fmult-degree", "%s: degree of the product is %zu", desc, (size_t)dd); goto done; }
    if (!wn) W = 0;
    size_t tot = m*m*(dd+1);
    long double tol = 2*ref.e2 + 1e-290L*ldexpl(1, W), worst = 0; double mx = 0; size_t wk = 0;
    FOR (k, tot) {
        cplxl v = (cplxl)out[k];
        v = ldexpl(creall(v), W) + I*ldexpl(cimagl(v), W);
        long double e = cabsl(v - ref.c[k]);
        if (nan_gt(e, worst)) { worst = e; wk = k; }
        if (cabs(out[k]) > mx) mx = cabs(out[k]);
    }
    if (!(worst <= tol)) h_violation(m == 1 ? "fmult-scalar" : m == 2 ? "fmult-2x2" : "fmult-3x3", "%s: coefficient %zu of entry %zu is off by %.3Lg (bound %.3Lg, norm %.3Lg)", desc, wk % (dd+1), wk/(dd+1), worst, tol, ref.n2);
    if (ref.e2 > 0) h_max("product_error_over_bound", worst/tol);
    if (wn && n > 1 && ref.n2 > 0 && !(mx >= 0.999999 && mx < 2.000001))
        h_violation("fmult-normalization", "%s: largest coefficient is %.6g*2^%d, not normalized", desc, mx, (int)W);
    if (wn && n == 1 && m > 1 && W != 0) h_violation("fmult-normalization1", "%s: W=%d for one factor", desc, (int)W);
    h_metric("coefficients_compared", tot); h_metric(m == 1 ? "chains_scalar" : m == 2 ? "chains_2x2" : "chains_3x3", 1);
    h_metric(n == pw ? "chains_n_power_of_two" : "chains_padded", 1);
    if (idx < 3) h_sample("%s: %zu coefficients, largest deviation %.2Lg", desc, tot, worst);
    h_eval(ref.n2 > 0, "%d:%zu:%zu:%d:%d", m, d, n, style, wn);
done:
    FOR (i, n) free(q[i].c);
    free(q); free(ref.c); h_free(p); h_free(res);
}

/* direct calls of the pairwise products, all modes */
static void pair(rng_t *r, long idx)
{
    size_t d = rb(r, 0.1) ? 0 : ri(r, 1, 40);
    size_t len = fnft__poly_fmult_two_polys_len(d);
    if (len < 2*d+1) { h_violation("len-too-small", "deg=%zu len=%zu", d, len); return; }
    fnft__fft_wrapper_plan_t pf = fnft__fft_wrapper_safe_plan_init(), pi = fnft__fft_wrapper_safe_plan_init();
    cplx *b0 = fnft__fft_wrapper_malloc(len*sizeof *b0), *b1 = fnft__fft_wrapper_malloc(len*sizeof *b0), *b2 = fnft__fft_wrapper_malloc(len*sizeof *b0);
    h_fill(b0, len*sizeof *b0, 0x7ff8000000000001ull); h_fill(b1, len*sizeof *b0, 0x7ff8000000000001ull); h_fill(b2, len*sizeof *b0, 0x7ff8000000000001ull);
    fnft__fft_wrapper_create_plan(&pf, len, b0, b1, -1);
    fnft__fft_wrapper_create_plan(&pi, len, b0, b1, 1);
    int style = ri(r, 0, 7), m = ri(r, 1, 3), space = rb(r, 0.5);
    char desc[120]; snprintf(desc, sizeof desc, "pair %dx%d deg=%zu len=%zu style=%d space=%d", m, m, d, len, style, space);
    if (m == 1) {
        cplx *p1 = h_calloc_c(d+1), *p2 = h_calloc_c(d+1), *res = h_calloc_c(len+3);
        rpoly(r, p1, d+1, style, 1); rpoly(r, p2, d+1, ri(r, 0, 7), 1);
        mp_t a = mp_new(1, d), b = mp_new(1, d);
        FOR (k, d+1) { a.c[k] = p1[k]; b.c[k] = p2[k]; }
        mp_norms(&a); mp_norms(&b);
        mp_t ab = mp_mul(&a, &b);
        double tol = 4*ab.e2 + 1e-300;
        cplx *init = h_calloc_c(len+3);
        FOR (k, len+3) init[k] = rc(r);
        FOR (mode, 5) for (int nul = 0; nul < 3; nul++) {
            /* nul 1: FFT of p1 prepared in b1 by the call before; nul 2: that of p2 in b2 */
            if (nul == 2) { /* a call that leaves FFT(p2) in b2 */
                fnft__poly_fmult_two_polys(d, p1, p2, res, pf, pi, b0, b1, b2, 0); }
            if (nul == 1) { /* roles swapped: leaves FFT(p1) in b1 */
                fnft__poly_fmult_two_polys(d, p2, p1, res, pf, pi, b0, b2, b1, 0); }
            memcpy(res, init, (len+3)*sizeof *res);
            int rc_ = fnft__poly_fmult_two_polys(d, nul == 1 ? NULL : p1, nul == 2 ? NULL : p2, res, pf, pi, b0, b1, b2, mode);
            if (rc_) { h_violation("two-polys-failed", "%s mode=%zu null=%d: %d", desc, mode, nul, rc_); continue; }
            size_t valid = mode <= 1 || mode == 3 ? 2*d+1 : len;
            size_t keep = mode <= 1 ? 2*d+1 : len;
            if (memcmp(res+keep, init+keep, (len+3-keep)*sizeof *res)) h_violation("two-polys-overrun", "%s mode=%zu null=%d: elements behind the result changed", desc, mode, nul);
            double worst = 0; size_t wk = 0;
            FOR (k, valid) {
                cplxl want = 0;
                if (mode == 0) want = ab.c[k];
                if (mode == 1) want = ab.c[k]+init[k];
                if (mode == 3) { /* inverse FFT of the initial content plus product */
                    cplxl s = 0; FOR (g, len) s += init[g]*cexp(2*M_PI*I*((g*k)%len)/len); want = s/len + ab.c[k]; }
                if (mode == 2 || mode == 4) {
                    cplxl s = 0; FOR (g, 2*d+1) s += ab.c[g]*cexp(-2*M_PI*I*((g*k)%len)/len); want = s + (mode == 4 ? init[k] : 0); }
                double e = cabsl(res[k]-want);
                if (nan_gt(e, worst)) { worst = e; wk = k; }
            }
            double t = mode == 2 || mode == 4 ? tol*sqrt(len)+1e-15*len*ab.n2+(mode == 4 ? 1e-14 : 0) : mode == 3 ? tol + 1e-13*len : tol+1e-14;
            if (!(worst <= t)) h_violation("two-polys", "%s mode=%zu null=%d: element %zu is off by %.3g (bound %.3g)", desc, mode, nul, wk, worst, t);
            h_max("pair_error_over_bound", worst/t);
            h_metric("two_polys_calls", 1);
        }
        free(a.c); free(b.c); free(ab.c); h_free(p1); h_free(p2); h_free(res); h_free(init);
    } else {
        size_t s1 = d+1+ri(r, 0, 3), s2 = d+1+ri(r, 0, 3), rs = (space ? len : 2*d+1) + (rb(r, 0.5) ? 0 : ri(r, 0, 4));
        int mm = m*m;
        cplx *p1 = h_calloc_c(mm*s1), *p2 = h_calloc_c(mm*s2), *res = h_calloc_c(mm*rs), *init = h_calloc_c(mm*rs);
        FOR (k, mm*s1) p1[k] = 1e9; 
        FOR (k, mm*s2) p2[k] = 1e9;
        FOR (k, mm*rs) res[k] = init[k] = rc(r);
        mp_t a = mp_new(m, d), b = mp_new(m, d);
        FOR (e, mm) { rpoly(r, p1+e*s1, d+1, style, 1); rpoly(r, p2+e*s2, d+1, ri(r, 0, 7), 1);
            FOR (k, d+1) { a.c[e*(d+1)+k] = p1[e*s1+k]; b.c[e*(d+1)+k] = p2[e*s2+k]; } }
        mp_norms(&a); mp_norms(&b);
        mp_t ab = mp_mul(&a, &b);
        cplx *k1 = h_dup_c(p1, mm*s1), *k2 = h_dup_c(p2, mm*s2);
        int rc_ = m == 2 ? fnft__poly_fmult_two_polys2x2(d, p1, s1, p2, s2, res, rs, pf, pi, b0, b1, b2, space ? 2 : 0)
                         : fnft__poly_fmult_two_polys3x3(d, p1, s1, p2, s2, res, rs, pf, pi, b0, b1, b2, space);
        if (rc_) h_violation("two-matrices-failed", "%s: %d", desc, rc_);
        else {
            if (memcmp(k1, p1, mm*s1*sizeof *p1) || memcmp(k2, p2, mm*s2*sizeof *p2)) h_violation("two-matrices-input", "%s: a factor was changed", desc);
            double tol = 4*ab.e2+1e-300, worst = 0;
            size_t keep = space ? len : 2*d+1;
            FOR (e, mm) {
                FOR (k, 2*d+1) { double x = cabsl(res[e*rs+k]-ab.c[e*(2*d+1)+k]); if (nan_gt(x, worst)) worst = x; }
                if (rs > keep && memcmp(res+e*rs+keep, init+e*rs+keep, (rs-keep)*sizeof *res)) h_violation("two-matrices-overrun", "%s: elements behind entry %zu changed", desc, e);
            }
            if (!(worst <= tol)) h_violation("two-matrices", "%s: coefficients are off by %.3g (bound %.3g)", desc, worst, tol);
            h_max("pair_error_over_bound", worst/tol);
            h_metric("two_matrix_calls", 1);
        }
        free(a.c); free(b.c); free(ab.c); h_free(p1); h_free(p2); h_free(res); h_free(init); h_free(k1); h_free(k2);
    }
    fnft__fft_wrapper_destroy_plan(&pf); fnft__fft_wrapper_destroy_plan(&pi);
    fnft__fft_wrapper_free(b0); fnft__fft_wrapper_free(b1); fnft__fft_wrapper_free(b2);
    h_eval(1, "p%d:%zu:%d:%d", m, d, style, space);
}

void c23(long idx)
{
    rng_t r = rng_make(h_seed, 0x23, idx);
    if ((idx + idx/8) % 3 == 2) pair(&r, idx); else chain(&r, idx);
}
