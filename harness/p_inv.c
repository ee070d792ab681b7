/* C21, C22: the inverse transform */
#include "pc.h"
typedef struct { int d, kappa; size_t D, M; double T[2], XI[2], h, l1; cplx *q; asig_t s; int smooth; char sig[80]; } ic_t;
static const char *ic_desc(const ic_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s kappa=%d D=%zu M=%zu T=[%.9g,%.9g] q=%s", nse_name[c->d], c->kappa, c->D, c->M, c->T[0], c->T[1], c->sig); return b; }
static int two(rng_t *r) { return rb(r, .5) ? nse_discretization_2SPLIT2A : nse_discretization_2SPLIT2_MODAL; }
/* a signal without bound states: focusing signals have an L1 norm below pi/2 */
static void ic_gen(rng_t *r, ic_t *c, int lo, int hi) {
    memset(c, 0, sizeof *c); c->d = two(r); c->kappa = rb(r, .5) ? 1 : -1; c->D = (size_t)1 << ri(r, lo, hi);
    double L = rlog(r, 1, 30); c->T[0] = -L * rr(r, .2, .8); c->T[1] = c->T[0] + L; c->h = L / (double)(c->D - 1); c->q = h_calloc_c(c->D);
    double area = rr(r, .05, c->kappa == 1 ? 1.1 : 1.8);
    if (rb(r, .5)) { c->smooth = 1; asig_gen(r, &c->s, c->T, area, 0); asig_sample(&c->s, c->D, c->T, c->q); snprintf(c->sig, sizeof c->sig, "gauss n=%d", c->s.n); }
    else { int n = ri(r, 1, 8); cplx v[8]; FOR(j, n) v[j] = rc(r); FOR(j, c->D) c->q[j] = v[j * (size_t)n / c->D] * (rb(r, .1) ? 1.3 : 1); snprintf(c->sig, sizeof c->sig, "rough n=%d", n); }
    double l1 = 0; FOR(j, c->D) l1 += cabs(c->q[j]) * c->h; FOR(j, c->D) c->q[j] *= area / l1; c->l1 = area; if (c->smooth) FOR(i, c->s.n) c->s.A[i] *= area / l1;
    snprintf(c->sig + strlen(c->sig), sizeof c->sig - strlen(c->sig), " L1=%.4g", area);
    double mx = cmaxabs(c->q, c->D) * c->h; if (mx > .7) { FOR(j, c->D) c->q[j] *= .7 / mx; if (c->smooth) FOR(i, c->s.n) c->s.A[i] *= .7 / mx; c->l1 *= .7 / mx; }
}
static double errq(const cplx *x, const cplx *y, size_t n) { double m = cmaxabs(y, n); return cdist(x, y, n) / (m > 0 ? m : 1); }
/* spectrum of the method itself on the grid of the inverse transform */
static void own_ab(const ic_t *c, cplx *a, cplx *b) { scat_t z; scat_init(&z, c->d, c->D, c->q, c->T, c->kappa); FOR(i, c->M) scat_ab(&z, xi_at(c->XI, c->M, i), a + i, b + i); scat_free(&z); }


typedef long double ld;
/* phase of the reflection coefficient of a signal whose only nonzero sample is the last one: rho = R exp(-i phi xi) */
static double rho_phase(const ic_t *c) {
    cplx *q = h_calloc_c(c->D), a, b, a0, b0; q[c->D - 1] = .1 / c->h; scat_t z; scat_init(&z, c->d, c->D, q, c->T, c->kappa); double dx = .3 / (fabs(c->T[1]) + c->h);
    scat_ab(&z, 0, &a0, &b0); scat_ab(&z, dx, &a, &b); double ph = -carg(b / a * a0 / b0) / dx; scat_free(&z); h_free(q); return ph;
}
/* the signal whose reflection coefficient has the first D coefficients g in powers of z (Schur algorithm) */
static void peel(const ic_t *c, cplxl *g, cplx *q) {
    size_t D = c->D; cplxl *w = malloc(D * sizeof *w); /* G = u/v */ cplxl *v = calloc(D, sizeof *v); v[0] = 1;
    for (size_t n = D; n-- > 0;) { cplxl R = g[0] / v[0], Q = -c->kappa * conjl(R); double m = (double)cabsl(R);
        q[n] = (cplx)(c->d == nse_discretization_2SPLIT2A ? Q / (m > 0 ? m : 1) * (c->kappa == 1 ? atan(m) : atanh(m)) : Q) / c->h;
        FOR(j, n) { w[j] = g[j + 1] - R * v[j + 1]; } FOR(j, n) { v[j] = v[j] - Q * g[j]; } FOR(j, n) g[j] = w[j]; }
    free(w); free(v);
}
static void own_inverse_rho(const ic_t *c, const cplx *rho, cplx *q) {
    double ph = rho_phase(c); cplxl *g = calloc(c->D, sizeof *g); size_t M = c->M;
    FOR(k, M) { double xi = xi_at(c->XI, M, k); cplx v = rho[k] * cexp(I * ph * xi) / (double)M; FOR(n, c->D) { size_t e = (k + 1 + M - M / 2) % M * n % M; g[n] += v * cexp(-2 * M_PI * I * (double)e / (double)M); } }
    peel(c, g, q); free(g);
}
static const char *inm[] = { "reflcoef", "iter", "bofxi" };
static void c21_round(rng_t *r, long idx) {
    ic_t c; ic_gen(r, &c, 1, h_thorough ? 8 : 7); int k = (int)(idx % 3); fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = c.d; char sig[60];
    if (k == 1) { c.kappa = -1; c.M = c.D; } else c.M = c.D * (size_t)ri(r, k == 0 ? 2 : 1, 8) + 2 * (size_t)ri(r, 0, 3);
    if (k == 2 && c.M < c.D + 2) c.M = c.D;
    fnft_nsev_inverse_XI(c.D, c.T, c.M, c.XI, c.d); if (rb(r, .3)) o.oversampling_factor = (uint_)ri(r, 1, 32);
    cplx *a = h_calloc_c(c.M), *b = h_calloc_c(c.M), *cs = h_calloc_c(c.M), *q = h_calloc_c(c.D), *q1 = h_calloc_c(c.D); own_ab(&c, a, b);
    o.contspec_type = k == 2 ? 1 : 0; o.contspec_inversion_method = k == 1 ? 2 : rb(r, .5) ? 0 : k == 0 ? 1 : 0; FOR(i, c.M) cs[i] = k == 2 ? b[i] : b[i] / a[i];
    double eo = 0; if (k == 0) { own_inverse_rho(&c, cs, q1); eo = errq(q1, c.q, c.D); }
    double rmax = 0; FOR(i, c.M) rmax = fmax(rmax, k == 1 ? cabs(cs[i]) : cabs(b[i]));
    msgs_reset(); int rc = fnft_nsev_inverse(c.M, cs, c.XI, 0, NULL, NULL, c.D, q, c.T, c.kappa, &o); double e = errq(q, c.q, c.D);
    double tol = k == 0 ? 1e-10 + 1.01 * eo : k == 1 ? (rmax < .75 ? 1e-7 : INFINITY) : o.oversampling_factor < 8 ? INFINITY : (c.kappa == 1 && rmax > .8) || rmax > 2 ? 1e-4 : 1e-6;
    /* the iteration may stop early; it must not do so for every multiple of the signal */
    for (int t = 0; k == 1 && tol < INFINITY && !rc && !(e <= tol) && t < 5; t++) { h_metric("iteration_stopped_early", 1); FOR(j, c.D) c.q[j] *= .75; own_ab(&c, a, b); FOR(i, c.M) cs[i] = b[i] / a[i]; rc = fnft_nsev_inverse(c.M, cs, c.XI, 0, NULL, NULL, c.D, q, c.T, c.kappa, &o); double e1 = errq(q, c.q, c.D); if (e1 < .1 * e || e1 <= tol) e = e1; else if (e < 3e-2) e = fmin(e, e1 * 1.001); }
    snprintf(sig, sizeof sig, "round-trip-%s-%s", inm[k], nse_name[c.d]); char n[60]; snprintf(n, sizeof n, "round_trip_error_over_tolerance_%s", inm[k]);
    if (tol < INFINITY) { h_max(n, e / tol); h_metric("round_trips", 1); if (eo < 1e-9 && k == 0) h_metric("round_trips_without_aliasing", 1); } else h_metric("round_trips_ill_conditioned", 1);
    if (rc || !(e <= tol || tol == INFINITY)) h_violation(sig, "rc=%d, relative error of the recovered signal %.3g (tolerance %.3g, max |spectrum| %.3g, oversampling %d): %s", rc, e, tol, rmax, (int)o.oversampling_factor, ic_desc(&c));
    h_eval(1, "%s", ic_desc(&c)); h_free(a); h_free(b); h_free(cs); h_free(q); h_free(q1); h_free(c.q);
}
/* arbitrary reflection coefficients (not those of a given signal) */
static void c21_rho(rng_t *r) {
    ic_t c; ic_gen(r, &c, 1, 6); c.M = c.D * (size_t)ri(r, 1, 4) + 2 * (size_t)ri(r, 0, 3); if (c.M % 2) c.M++; if (c.M < c.D) c.M = c.D; fnft_nsev_inverse_XI(c.D, c.T, c.M, c.XI, c.d); char sig[60];
    cplx *cs = h_calloc_c(c.M), *q = h_calloc_c(c.D), *q1 = h_calloc_c(c.D); double amp = rr(r, .05, c.kappa == 1 ? 1.2 : .5); int k = ri(r, 0, 2);
    if (k == 0) { double x0 = rr(r, .3, .7), w = rlog(r, .02, .3); cplx ph = cexp(I * rr(r, 0, 6.28)); double dl = rr(r, -1, 1) * (double)c.D; FOR(i, c.M) { double x = ((double)i / (double)c.M - x0) / w; cs[i] = amp * exp(-x * x) * ph * cexp(2 * M_PI * I * dl * (double)i / (double)c.M); } snprintf(c.sig, sizeof c.sig, "gaussian rho %.3g", amp); }
    else if (k == 1) { FOR(i, c.M) cs[i] = .25 * amp * rc(r); snprintf(c.sig, sizeof c.sig, "random rho %.3g", amp); }
    else { size_t i = (size_t)ri(r, 0, (int)c.M - 1); cs[i] = amp; snprintf(c.sig, sizeof c.sig, "rho with one nonzero sample %zu", i); }
    own_inverse_rho(&c, cs, q1); double mq = cmaxabs(q1, c.D) * c.h; int rc = fnft_nsev_inverse(c.M, cs, c.XI, 0, NULL, NULL, c.D, q, c.T, c.kappa, rb(r, .3) && c.d == nse_discretization_2SPLIT2A ? NULL : &(fnft_nsev_inverse_opts_t){ .discretization = c.d, .max_iter = 1, .oversampling_factor = 1, .contspec_inversion_method = rb(r, .5) ? 0 : 1 });
    double e = cdist(q, q1, c.D) * c.h / fmax(mq, 1e-3 * amp), tol = 1e-8; snprintf(sig, sizeof sig, "layer-peeling-%s", nse_name[c.d]);
    if (!(mq < (c.kappa == 1 ? 3 : 1)) || !all_finite(q1, c.D)) { h_metric("invalid_reflection_coefficient", 1); h_eval(0, "%s", ic_desc(&c)); }
    else { h_max("peeling_error", e); h_metric("arbitrary_reflection_coefficients", 1); h_eval(1, "%s", ic_desc(&c)); if (rc || !(e <= tol)) h_violation(sig, "rc=%d, relative deviation from the layer peeling of the sampled reflection coefficient %.3g: %s", rc, e, ic_desc(&c)); }
    h_free(cs); h_free(q); h_free(q1); h_free(c.q);
}
static void c21_tau(rng_t *r) {
    ic_t c; ic_gen(r, &c, 1, 7); double L = c.T[1] - c.T[0]; c.T[0] = -L / 2; c.T[1] = L / 2; c.h = (c.T[1] - c.T[0]) / (double)(c.D - 1); c.M = c.D;
    fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = c.d; o.contspec_type = 2; char sig[60]; if (rb(r, .3)) o.oversampling_factor = (uint_)ri(r, 4, 16);
    cplx *B = h_calloc_c(c.D), *cs = h_calloc_c(c.D), *q = h_calloc_c(c.D); FOR(j, c.D) cs[j] = B[j] = c.q[j] * .45 / 2;
    int xi = rb(r, .5); if (xi) fnft_nsev_inverse_XI(c.D, c.T, c.M, c.XI, c.d);
    int rc = fnft_nsev_inverse(c.M, cs, xi ? c.XI : NULL, 0, NULL, NULL, c.D, q, c.T, c.kappa, &o); scat_t z; scat_init(&z, c.d, c.D, q, c.T, c.kappa); double e = 0, m = 0;
    FOR(t, 12) { double xi = rr(r, -1, 1) * M_PI / 2 / c.h; cplx a, b, w = 0; scat_ab(&z, xi, &a, &b); FOR(j, c.D) w += 2 * c.h * B[j] * (j == 0 || j == c.D - 1 ? .5 : 1) * cexp(-2 * I * xi * (c.T[0] + c.h * (double)j)); e = fmax(e, cabs(b - w)); }
    m = 0; FOR(j, c.D) m += 2 * c.h * cabs(B[j]); e /= m; h_max("bofxi_of_bmodulated_signal_error", e); h_metric("b_modulations", 1); h_eval(1, "%s", ic_desc(&c)); snprintf(sig, sizeof sig, "b-modulation-%s", nse_name[c.d]);
    if (rc || !(e <= (o.oversampling_factor < 8 ? 1e-5 : 1e-7))) h_violation(sig, "rc=%d, b(xi) of the generated signal deviates from the Fourier transform of B(tau) by %.3g (relative to the L1 norm): %s", rc, e, ic_desc(&c));
    scat_free(&z); h_free(B); h_free(cs); h_free(q); h_free(c.q);
}
/* second-order convergence to the signal that has the given (exact) spectrum */
static void c21_order(rng_t *r, long idx) {
    ic_t c; do { ic_gen(r, &c, 4, 5); if (!c.smooth) h_free(c.q); } while (!c.smooth); int k = (int)(idx % 3); double e[3]; if (k == 1) c.kappa = -1; char sig[60]; int bad = 0; size_t D0 = h_thorough ? 64 : 32;
    for (int t = 0; t < 3; t++) { size_t D = D0 << t; fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = c.d; o.contspec_type = k == 2 ? 1 : 0; o.contspec_inversion_method = k == 1 ? 2 : 0; c.M = k == 1 ? D : 4 * D;
        c.D = D; fnft_nsev_inverse_XI(D, c.T, c.M, c.XI, c.d); cplx *cs = h_calloc_c(c.M), *q = h_calloc_c(D), *q0 = h_calloc_c(D); asig_sample(&c.s, D, c.T, q0);
        FOR(i, c.M) { cplx a, b; ref_true_nse(&c.s, c.T, c.kappa, xi_at(c.XI, c.M, i), 4 * D + 256, &a, &b); cs[i] = k == 2 ? b : b / a; }
        int rc = fnft_nsev_inverse(c.M, cs, c.XI, 0, NULL, NULL, D, q, c.T, c.kappa, &o); e[t] = errq(q, q0, D); if (rc) bad = rc;
        h_free(cs); h_free(q); h_free(q0); }
    double ends = cabs(asig_eval(&c.s, c.T[0])) + cabs(asig_eval(&c.s, c.T[1])); h_eval(1, "%s", ic_desc(&c)); h_metric("convergence_checks", 1); h_max("inverse_error_finest_grid", e[2]); h_max("neg_min_error_ratio", -e[1] / e[2]); (void)ends;
    snprintf(sig, sizeof sig, "convergence-%s-%s", inm[k], nse_name[c.d]);
    if (bad || !(e[2] <= .3 * e[1] || e[2] < 1e-6) || !(e[2] < .02)) h_violation(sig, "rc=%d, relative errors %.3g %.3g %.3g for D=%zu,%zu,%zu: %s", bad, e[0], e[1], e[2], D0, 2 * D0, 4 * D0, ic_desc(&c));
    h_free(c.q);
}
/* the grid, and a phase rotation of the spectrum */
static void c21_misc(rng_t *r) {
    ic_t c; ic_gen(r, &c, 1, 7); int k = ri(r, 0, 3); if (k == 3) { c.T[0] = -c.T[1]; if (c.T[1] < 0) { c.T[1] = -c.T[1]; c.T[0] = -c.T[0]; } c.h = (c.T[1] - c.T[0]) / (double)(c.D - 1); }
    c.M = k == 1 || k == 3 ? c.D : c.D * (size_t)ri(r, 1, 5) + 2 * (size_t)ri(r, 0, 3); if (k == 1) c.kappa = -1; int rc0 = fnft_nsev_inverse_XI(c.D, c.T, c.M, c.XI, c.d);
    double w0 = -((double)c.M / 2 - 1) * M_PI / ((double)c.M * c.h), w1 = M_PI / 2 / c.h; h_metric("grids_checked", 1);
    if (rc0 || !(fabs(c.XI[0] - w0) <= 1e-10 * w1) || !(fabs(c.XI[1] - w1) <= 1e-10 * w1)) h_violation("grid", "rc=%d, XI=[%.10g,%.10g] but the FFT grid is [%.10g,%.10g]: %s", rc0, c.XI[0], c.XI[1], w0, w1, ic_desc(&c));
    fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = c.d; o.contspec_type = k == 3 ? 2 : k == 2 ? 1 : 0; o.contspec_inversion_method = k == 1 ? 2 : 0;
    cplx *b0 = h_calloc_c(c.M), *cs = h_calloc_c(c.M), *q = h_calloc_c(c.D), *q1 = h_calloc_c(c.D); double x0 = rr(r, .4, .6), w = rr(r, .05, .2), amp = rr(r, .05, .5) * (k == 3 ? 1 / (c.T[1] - c.T[0]) : 1); double dl = rr(r, -.5, .5) * (double)c.D; FOR(i, c.M) { double x = ((double)i / (double)c.M - x0) / w; b0[i] = amp * exp(-x * x) * cexp(2 * M_PI * I * dl * (double)i / (double)c.M); }
    double th = rr(r, 0, 6.28); FOR(i, c.M) cs[i] = b0[i]; int ra = fnft_nsev_inverse(c.M, cs, k == 3 ? NULL : c.XI, 0, NULL, NULL, c.D, q, c.T, c.kappa, &o);
    FOR(i, c.M) cs[i] = b0[i] * cexp(I * th); int rb_ = fnft_nsev_inverse(c.M, cs, k == 3 ? NULL : c.XI, 0, NULL, NULL, c.D, q1, c.T, c.kappa, &o);
    FOR(i, c.D) q1[i] *= cexp(I * th); double e = cdist(q1, q, c.D) / fmax(cmaxabs(q, c.D), 1e-3 * amp / c.h * (k == 3 ? c.h : 1)); h_max("phase_rotation_error", e); h_metric("phase_rotations", 1); h_eval(1, "%s", ic_desc(&c));
    if (ra || rb_ || !(e <= 1e-6)) h_violation("phase-rotation", "rc=%d,%d, rotating the spectrum does not rotate the signal back: relative deviation %.3g (type %d): %s", ra, rb_, e, k, ic_desc(&c));
    /* weak spectrum: linear Fourier transform */
    if (k != 3) { FOR(i, c.M) { b0[i] *= 1e-5; cs[i] = b0[i]; } int rc2 = fnft_nsev_inverse(c.M, cs, c.XI, 0, NULL, NULL, c.D, q, c.T, c.kappa, &o); double ee = 0, m = 0;
        FOR(t, 6) { size_t n = (size_t)ri(r, 0, (int)c.D - 1); cplx s = 0; double tn = c.T[0] + c.h * (double)n; FOR(i, c.M) s += b0[i] * cexp(2 * I * xi_at(c.XI, c.M, i) * tn); s = conj(-c.kappa * s / ((double)c.M * c.h)); m = fmax(m, cabs(s)); ee = fmax(ee, cabs(s - q[n])); }
        m = fmax(m, fmax(cmaxabs(q, c.D), 1e-8 * amp / c.h)); h_max("linear_limit_error", ee / m); h_metric("linear_limits", 1); if (rc2 || !(ee <= 1e-6 * m)) h_violation("linear-limit", "rc=%d, weak spectrum: relative deviation from the Fourier transform %.3g (type %d): %s", rc2, ee / m, k, ic_desc(&c)); }
    h_free(b0); h_free(cs); h_free(q); h_free(q1); h_free(c.q);
}
void c21(long idx) { rng_t r = rng_make(h_seed, 21, (uint64_t)idx); switch ((idx + idx / 8) % 8) { case 0: case 1: case 2: c21_round(&r, idx / 8 + idx); break; case 3: case 4: c21_rho(&r); break; case 5: c21_tau(&r); break; case 6: c21_order(&r, idx / 8); break; default: c21_misc(&r); } }

/* ---- C22 ---- */
#define KM 8
/* K-fold Darboux transform at one point: f holds the K vectors phi(lambda_j) - b_j psi(lambda_j) */
static cplx darboux(int K, const cplx *l, const cplxl *f, cplx q) {
    cplxl A[KM][KM + 1], v[KM][2];
    for (int j = 0; j < K; j++) { ld n = sqrtl(creall(f[2 * j] * conjl(f[2 * j])) + creall(f[2 * j + 1] * conjl(f[2 * j + 1]))); v[j][0] = f[2 * j] / n; v[j][1] = f[2 * j + 1] / n; }
    for (int i = 0; i < K; i++) { for (int j = 0; j < K; j++) A[i][j] = (conjl(v[i][0]) * v[j][0] + conjl(v[i][1]) * v[j][1]) / ((cplxl)l[j] - conjl((cplxl)l[i])); A[i][K] = conjl(v[i][1]); }
    for (int k = 0; k < K; k++) { int p = k; for (int i = k + 1; i < K; i++) if (cabsl(A[i][k]) > cabsl(A[p][k])) p = i; for (int j = 0; j <= K; j++) { cplxl t = A[k][j]; A[k][j] = A[p][j]; A[p][j] = t; }
        for (int i = 0; i < K; i++) if (i != k) { cplxl t = A[i][k] / A[k][k]; for (int j = k; j <= K; j++) A[i][j] -= t * A[k][j]; } }
    cplxl s = q; for (int j = 0; j < K; j++) s -= 2 * I * v[j][0] * (A[j][K] / A[j][j]);
    return (cplx)s;
}
typedef struct { int K; cplx l[KM], b[KM], nr[KM]; int res; size_t D; double T[2], h; char sig[300]; cplx *q, *qs; } dc_t;
static void half(cplx l, cplx q, double h, cplxl *f) { m2 m = ref_expU(l, q, -conj(q), h); cplxl x = m.a * f[0] + m.b * f[1]; f[1] = m.c * f[0] + m.d * f[1]; f[0] = x; }
/* the seed qs plus K solitons; also returns a of the seed at the eigenvalues */
static void own_soliton(const dc_t *c, const cplx *qs, cplx *q, cplx *as) {
    size_t D = c->D; cplxl *f = malloc(2 * (size_t)c->K * D * sizeof *f), *g = malloc(2 * (size_t)c->K * D * sizeof *f);
    for (int k = 0; k < c->K; k++) { cplxl *F = f + 2 * D * (size_t)k, *G = g + 2 * D * (size_t)k; cplx l = c->l[k];
        F[0] = cexpl(-I * (cplxl)l * c->T[0]); F[1] = 0; for (size_t n = 1; n < D; n++) { F[2 * n] = F[2 * n - 2]; F[2 * n + 1] = F[2 * n - 1]; half(l, qs[n - 1], c->h / 2, F + 2 * n); half(l, qs[n], c->h / 2, F + 2 * n); }
        G[2 * D - 2] = 0; G[2 * D - 1] = cexpl(I * (cplxl)l * c->T[1]); for (size_t n = D - 1; n-- > 0;) { G[2 * n] = G[2 * n + 2]; G[2 * n + 1] = G[2 * n + 3]; half(l, qs[n + 1], -c->h / 2, G + 2 * n); half(l, qs[n], -c->h / 2, G + 2 * n); }
        if (as) as[k] = (cplx)(F[2 * D - 2] * cexpl(I * (cplxl)l * c->T[1])); }
    if (q) FOR(n, D) { cplxl w[2 * KM]; for (int k = 0; k < c->K; k++) for (int s = 0; s < 2; s++) { size_t e = 2 * D * (size_t)k + 2 * n + (size_t)s; w[2 * k + s] = f[e] - c->b[k] * g[e]; } q[n] = darboux(c->K, c->l, w, qs[n]); }
    free(f); free(g);
}
static cplx blaschke(const dc_t *c, cplx xi, int skip) { cplx p = 1; for (int k = 0; k < c->K; k++) if (k != skip) p *= (xi - c->l[k]) / (xi - conj(c->l[k])); return p; }
static const char *dc_desc(dc_t *c, const char *what) { static __thread char b[700]; int n = snprintf(b, sizeof b, "%s D=%zu T=[%.9g,%.9g] %s K=%d:", what, c->D, c->T[0], c->T[1], c->res ? "residues" : "norming constants", c->K); for (int k = 0; k < c->K; k++) n += snprintf(b + n, sizeof b - (size_t)n, " (%.6g%+.6gi; %.4g%+.4gi)", creal(c->l[k]), cimag(c->l[k]), creal(c->b[k]), cimag(c->b[k])); return b; }
static void gen_eigs(rng_t *r, dc_t *c, double L, int K) {
    c->K = K; double im = rr(r, 5, 14) / L;
    for (int k = 0; k < K; k++) { int ok; do { c->l[k] = rr(r, -8, 8) / L + I * im * rlog(r, .6, 2.2); if (rb(r, .2)) c->l[k] = I * cimag(c->l[k]); ok = 1; for (int j = 0; j < k; j++) if (cabs(c->l[k] - c->l[j]) < 1. / L) ok = 0; } while (!ok);
        double tc = c->T[0] + L * rr(r, .35, .65); c->b[k] = cexp(2 * cimag(c->l[k]) * tc + I * rr(r, 0, 6.28)); }
}
static void shuffle(rng_t *r, dc_t *c) { for (int k = c->K - 1; k > 0; k--) { int j = ri(r, 0, k); cplx t = c->l[k]; c->l[k] = c->l[j]; c->l[j] = t; t = c->b[k]; c->b[k] = c->b[j]; c->b[j] = t; t = c->nr[k]; c->nr[k] = c->nr[j]; c->nr[j] = t; } }
static void to_residues(dc_t *c, const cplx *as) { for (int k = 0; k < c->K; k++) c->nr[k] = c->res ? c->b[k] / ((as ? as[k] : 1) * blaschke(c, c->l[k], k) / (2 * I * cimag(c->l[k]))) : c->b[k]; }

static void c22_pure(rng_t *r) {
    dc_t c; memset(&c, 0, sizeof c); c.D = (size_t)1 << ri(r, 1, h_thorough ? 10 : 8); double L = rlog(r, 2, 60); c.T[0] = -L * rr(r, .2, .8); if (rb(r, .15)) c.T[0] = rr(r, -2.5, 1.5) * L; c.T[1] = c.T[0] + L; c.h = L / (double)(c.D - 1); c.res = rb(r, .5);
    gen_eigs(r, &c, L, ri(r, 1, rb(r, .3) ? 6 : 3)); to_residues(&c, NULL); cplx *q = h_calloc_c(c.D), *q2 = h_calloc_c(c.D), *z = h_calloc_c(c.D), *q1 = h_calloc_c(c.D);
    fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = two(r); o.discspec_type = c.res; int rc = fnft_nsev_inverse(0, NULL, NULL, (uint_)c.K, c.l, c.nr, c.D, q, c.T, 1, !c.res && rb(r, .3) ? NULL : &o);
    FOR(n, c.D) { cplxl w[2 * KM]; double t = c.T[0] + c.h * (double)n; for (int k = 0; k < c.K; k++) { w[2 * k] = cexpl(-I * (cplxl)c.l[k] * t); w[2 * k + 1] = -c.b[k] * cexpl(I * (cplxl)c.l[k] * t); } q1[n] = darboux(c.K, c.l, w, 0); }
    double e = errq(q, q1, c.D); h_max("pure_soliton_error", e); h_metric("pure_solitons", 1); h_eval(1, "%s", dc_desc(&c, "pure"));
    if (rc || !(e <= 1e-7)) h_violation("pure-soliton", "rc=%d, relative deviation from the exact %d-soliton %.3g: %s", rc, c.K, e, dc_desc(&c, "pure"));
    shuffle(r, &c); rc = fnft_nsev_inverse(0, NULL, NULL, (uint_)c.K, c.l, c.nr, c.D, q2, c.T, 1, &o); e = errq(q2, q, c.D); h_max("permutation_error", e); if (rc || !(e <= 1e-7)) h_violation("permutation", "rc=%d, the order of the bound states matters: %.3g: %s", rc, e, dc_desc(&c, "pure"));
    /* a zero seed gives the same */
    double lm = 0; for (int k = 0; k < c.K; k++) lm = fmax(lm, cimag(c.l[k])); if (c.T[0] < -.2 * L && c.T[1] > .2 * L && lm * c.h < 6) { o.contspec_inversion_method = 3; rc = fnft_nsev_inverse(0, NULL, NULL, (uint_)c.K, c.l, c.nr, c.D, z, c.T, 1, &o); if (c.res) { h_metric("zero_seed_residues", 1); } e = errq(z, q1, c.D); h_max("zero_seed_error", e); if (rc || !(e <= 1e-6)) h_violation("zero-seed", "rc=%d, solitons added to the zero signal deviate by %.3g: %s", rc, e, dc_desc(&c, "zero seed")); }
    h_free(q); h_free(q1); h_free(q2); h_free(z);
}
/* windows far away from t=0 */
static void c22_far(rng_t *r) {
    dc_t c; memset(&c, 0, sizeof c); c.D = (size_t)1 << ri(r, 1, 6); double L = rlog(r, 2, 60); gen_eigs(r, &c, L, ri(r, 1, 3)); double S = rlog(r, 10, 2000) / cimag(c.l[0]) * (rb(r, .5) ? 1 : -1); c.T[0] = S - (S < 0 ? L : 0); c.T[1] = c.T[0] + L; c.h = L / (double)(c.D - 1);
    double em = 0; for (int k = 0; k < c.K; k++) { em = fmax(em, cimag(c.l[k])); c.b[k] = rlog(r, .1, 10) * cexp(I * rr(r, 0, 6.28)); if (fabs(2 * cimag(c.l[k]) * S) < 300 && rb(r, .6)) c.b[k] *= exp(2 * cimag(c.l[k]) * (c.T[0] + L * rr(r, 0, 1))); } to_residues(&c, NULL);
    cplx *q = h_calloc_c(c.D), *q1 = h_calloc_c(c.D); fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = two(r); int rc = fnft_nsev_inverse(0, NULL, NULL, (uint_)c.K, c.l, c.nr, c.D, q, c.T, 1, &o);
    FOR(n, c.D) { cplxl w[2 * KM]; double t = c.T[0] + c.h * (double)n; for (int k = 0; k < c.K; k++) { w[2 * k] = cexpl(-I * (cplxl)c.l[k] * t); w[2 * k + 1] = -c.b[k] * cexpl(I * (cplxl)c.l[k] * t); } q1[n] = darboux(c.K, c.l, w, 0); }
    double e = cdist(q, q1, c.D) / em; h_max("far_error", e); h_metric("far_windows", 1); h_eval(1, "%s", dc_desc(&c, "far"));
    if (rc || !(e <= 1e-7)) h_violation("far-window", "rc=%d, deviation from the exact %d-soliton %.3g: %s", rc, c.K, e, dc_desc(&c, "far"));
    h_free(q); h_free(q1);
}
static void seed_gen(rng_t *r, dc_t *c, ic_t *s) { do { ic_gen(r, s, 3, h_thorough ? 9 : 8); if (s->kappa != 1) h_free(s->q); } while (s->kappa != 1); memset(c, 0, sizeof *c); c->D = s->D; c->T[0] = s->T[0]; c->T[1] = s->T[1]; c->h = s->h; c->res = rb(r, .5); gen_eigs(r, c, c->T[1] - c->T[0], ri(r, 1, rb(r, .2) ? 5 : 3)); }
static void c22_seed(rng_t *r) {
    dc_t c; ic_t s; seed_gen(r, &c, &s);
    if (rb(r, .3)) { /* levels equal to the imaginary parts of the eigenvalues, where lambda^2+|q|^2=0 */
        for (int k = 0; k < c.K; k++) c.l[k] = I * cimag(c.l[k]);
        FOR(n, c.D) if (rb(r, .7)) s.q[n] = 0;
        int nb = ri(r, 1, 3); for (int b = 0; b < nb; b++) { double eta = cimag(c.l[ri(r, 0, c.K - 1)]); static const double u[4][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } }; int v = ri(r, 0, 3); size_t len = (size_t)(rr(r, 0, 2) / (eta * c.h)) + 1, n0 = (size_t)ri(r, 0, (int)c.D - 1); for (size_t n = n0; n < n0 + len && n < c.D; n++) s.q[n] = eta * u[v][0] + I * eta * u[v][1]; }
        snprintf(s.sig, sizeof s.sig, "levels at the eigenvalues"); h_metric("critical_seeds", 1); }
    cplx *q = h_dup_c(s.q, c.D), *q1 = h_calloc_c(c.D), as[KM]; c.res = 0;
    own_soliton(&c, s.q, q1, as); to_residues(&c, as); fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = two(r); o.contspec_inversion_method = 3; o.discspec_type = c.res;
    int rc = fnft_nsev_inverse(0, NULL, NULL, (uint_)c.K, c.l, c.nr, c.D, q, c.T, 1, &o); double e = errq(q, q1, c.D); h_max("seed_error", e); h_metric("seeds", 1); h_eval(1, "%s", dc_desc(&c, s.sig));
    if (rc || !(e <= 1e-7)) h_violation("seed", "rc=%d, relative deviation from the Darboux transform of the seed %.3g: %s", rc, e, dc_desc(&c, s.sig));
    h_free(q); h_free(q1); h_free(s.q);
}
static void c22_both(rng_t *r, long idx) {
    dc_t c; ic_t s; seed_gen(r, &c, &s); int k = (int)(idx % 3); if (k == 2) { s.T[0] = -s.T[1]; if (s.T[1] <= 0) { double L = c.T[1] - c.T[0]; s.T[1] = L / 2; s.T[0] = -L / 2; } s.h = (s.T[1] - s.T[0]) / (double)(s.D - 1); c.T[0] = s.T[0]; c.T[1] = s.T[1]; c.h = s.h; gen_eigs(r, &c, c.T[1] - c.T[0], c.K); }
    s.M = k == 2 ? s.D : s.D * (size_t)ri(r, 1, 4); fnft_nsev_inverse_XI(s.D, s.T, s.M, s.XI, s.d); cplx *cs = h_calloc_c(s.M), *w = h_calloc_c(s.M), *q = h_calloc_c(c.D), *q1 = h_calloc_c(c.D), *qs = h_calloc_c(c.D), as[KM], *a = h_calloc_c(s.M), *b = h_calloc_c(s.M);
    own_ab(&s, a, b); FOR(i, s.M) { double xi = xi_at(s.XI, s.M, i); cs[i] = k == 0 ? b[i] / a[i] / blaschke(&c, xi, -1) : k == 1 ? b[i] : s.q[i] * .2; w[i] = k == 0 ? cs[i] * blaschke(&c, xi, -1) : cs[i]; }
    fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discretization = s.d; o.contspec_type = k; o.discspec_type = c.res;
    int r1 = fnft_nsev_inverse(s.M, w, k == 2 ? NULL : s.XI, 0, NULL, NULL, c.D, qs, c.T, 1, &o); own_soliton(&c, qs, q1, NULL); scat_t z; scat_init(&z, nse_discretization_BO, c.D, qs, c.T, 1); for (int i = 0; i < c.K; i++) { cplx bb; scat_ab(&z, c.l[i], as + i, &bb); } scat_free(&z); to_residues(&c, as);
    int rc = fnft_nsev_inverse(s.M, cs, k == 2 ? NULL : s.XI, (uint_)c.K, c.l, c.nr, c.D, q, c.T, 1, &o); double e = errq(q, q1, c.D); h_max("full_spectrum_error", e); h_metric("full_spectra", 1); h_eval(1, "%s", dc_desc(&c, s.sig));
    if (r1 || rc || !(e <= 1e-7)) h_violation("full-spectrum", "rc=%d,%d, relative deviation from the Darboux transform of the signal of the continuous spectrum %.3g (type %d): %s", r1, rc, e, k, dc_desc(&c, s.sig));
    h_free(cs); h_free(w); h_free(q); h_free(q1); h_free(qs); h_free(a); h_free(b); h_free(s.q);
}
/* forward scattering of the generated signal: eigenvalues, norming constants, a and b on the real line, energy */
static void c22_forward(rng_t *r, long idx) {
    double L = rlog(r, 4, 30); asig_t s; dc_t c; memset(&c, 0, sizeof c); c.T[0] = -L * rr(r, .35, .65); c.T[1] = c.T[0] + L; int K = ri(r, 1, 3); c.K = K; double im = rr(r, 18, 24) / L; for (int k = 0; k < K; k++) { c.l[k] = rr(r, -6, 6) / L + I * im * (1 + .35 * k) * rr(r, .95, 1.05); c.b[k] = cexp(2 * cimag(c.l[k]) * (c.T[0] + L * rr(r, .46, .54)) + I * rr(r, 0, 6.28)); }
    asig_gen(r, &s, c.T, rr(r, .2, 1.1), 0); int k = (int)(idx % 3); /* 0 pure, 1 seed, 2 reflection coefficient */ double ea[2], eb[2], er[2], en[2]; static const char *nm[] = { "pure", "seed", "reflcoef" }; size_t D0 = 256;
    double xs[4]; FOR(i, 4) xs[i] = rr(r, -1, 1) * 1.5 * cabs(c.l[0]);
    for (int t = 0; t < 2; t++) { size_t D = D0 << t; c.D = D; c.h = L / (double)(D - 1); cplx *q = h_calloc_c(D); fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); double XI[2]; size_t M = 4 * D; cplx *cs = NULL; cplx as[KM]; double se = 0;
        for (int i = 0; i < K; i++) { cplx b; as[i] = 1; if (k) ref_true_nse(&s, c.T, 1, c.l[i], 4096, as + i, &b); } c.res = k != 1 && rb(r, .5); to_residues(&c, as); o.discspec_type = c.res;
        if (k) FOR(n, D) { q[n] = asig_eval(&s, c.T[0] + c.h * (double)n); se += pow(cabs(q[n]), 2) * c.h; }
        if (k == 1) o.contspec_inversion_method = 3; if (k == 2) { cs = h_calloc_c(M); fnft_nsev_inverse_XI(D, c.T, M, XI, o.discretization); FOR(i, M) { cplx a, b; double xi = xi_at(XI, M, i); ref_true_nse(&s, c.T, 1, xi, 1024, &a, &b); cs[i] = b / a / blaschke(&c, xi, -1); } }
        int rc = fnft_nsev_inverse(k == 2 ? M : 0, cs, XI, (uint_)K, c.l, c.nr, D, q, c.T, 1, &o); scat_t z; scat_init(&z, nse_discretization_BO, D, q, c.T, 1); ea[t] = eb[t] = er[t] = 0;
        for (int i = 0; i < K; i++) { cplx a, b, da; scat_ab(&z, c.l[i], &a, &b); da = ref_nse_da(&z, c.l[i]); cplx best; double dist; ref_nse_b(&z, c.l[i] - a / da, &best, c.b[i], &dist); ea[t] = fmax(ea[t], cabs(a / da) / cabs(c.l[i])); eb[t] = fmax(eb[t], cabs(best / c.b[i] - 1)); }
        FOR(i, 4) { cplx a, b, a0 = 1, b0 = 0; if (k) ref_true_nse(&s, c.T, 1, xs[i], 4096, &a0, &b0); a0 *= blaschke(&c, xs[i], -1); scat_ab(&z, xs[i], &a, &b); er[t] = fmax(er[t], cabs(a - a0) + cabs(b - b0)); }
        double e = 0, w = se; FOR(n, D) e += pow(cabs(q[n]), 2) * c.h; for (int i = 0; i < K; i++) w += 4 * cimag(c.l[i]); en[t] = fabs(e / w - 1); if (rc) ea[t] = NAN;
        scat_free(&z); h_free(q); h_free(cs); }
    h_metric("forward_checks", 1); h_eval(1, "%s", dc_desc(&c, nm[k])); const double *E[] = { ea, eb, er, en }; const char *en_[] = { "eigenvalue", "normconst", "real-line", "energy" }; const double lim[] = { .05, .6, .1, .02 };
    for (int i = 0; i < 4; i++) { char n[60]; snprintf(n, sizeof n, "forward_%s_error", en_[i]); h_max(n, E[i][1]); }
    for (int i = 0; i < 4; i++) { char sig[60]; snprintf(sig, sizeof sig, "forward-%s-%s", nm[k], en_[i]); if (!(E[i][1] < lim[i]) || !(E[i][1] < .4 * E[i][0] || E[i][1] < 1e-4)) h_violation(sig, "error %.3g for D=%zu, %.3g for D=%zu: %s", E[i][0], D0, E[i][1], 2 * D0, dc_desc(&c, nm[k])); }
}
void c22(long idx) { rng_t r = rng_make(h_seed, 22, (uint64_t)idx); switch ((idx + idx / 8) % 8) { case 0: case 1: c22_pure(&r); break; case 2: if (idx / 8 % 2) c22_far(&r); else c22_pure(&r); break; case 3: case 4: c22_seed(&r); break; case 5: case 6: c22_both(&r, idx / 8 + idx); break; default: c22_forward(&r, idx / 8); } }
