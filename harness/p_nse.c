/* C09-C11: continuous spectrum of the NSE with vanishing boundaries */
#include "pc.h"
int run_cs(int d, size_t D, const cplx *q, const double *T, int kappa, size_t M, const double *XI, int type, int norm, cplx *out) {
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = type; o.normalization_flag = norm;
    msgs_reset();
    return fnft_nsev((uint_)D, (cplx *)q, (double *)T, (uint_)M, out, (double *)XI, NULL, NULL, NULL, kappa, &o);
}
static double l1norm(const cplx *q, size_t D, double h) { double s = 0; FOR(i, D) s += cabs(q[i]) * h; return s; }
static double hstep(const double *T, size_t D) { return (T[1] - T[0]) / (double)(D - 1); }
void cse_free(cse_t *c) { h_free(c->q); }
/* a signal with moderate L1 norm; smooth signals for the discretizations that interpolate */
void cse_gen(rng_t *r, long idx, cse_t *c, int maxD, int smooth) {
    memset(c, 0, sizeof *c);
    c->d = (int)(idx % 28); c->kappa = rb(r, .6) ? 1 : -1; c->norm = rb(r, .5);
    int lim = maxD, big = ri(r, 0, 99); if (c->d == 16 || c->d == 17) lim = maxD / 6 > 8 ? maxD / 6 : 8; /* big: 0 many samples, 1, 2 many frequencies, 3, 4 strong signals */
    if (big == 0 && c->d != 16 && c->d != 17) lim = nse_ups[c->d] > 1 || c->d == 23 ? 500 : nse_deg[c->d] >= 12 ? 1000 : 3000;
    c->D = (size_t)(rb(r, .25) && big ? ri(r, 2, 9) : ri(r, big ? 4 : lim / 4, lim)); if ((big == 1 || big == 2) && c->D > 40) c->D = (size_t)ri(r, 5, 40); if (rb(r, .2)) { c->D = 1; while (c->D * 2 <= (size_t)lim) c->D *= 2; }
    if (nse_ups[c->d] > 1 && c->D < 3) c->D = 3;
    if (c->D < 4 && nse_ups[c->d] > 1) c->D = 4;
    double L = rlog(r, 1, 30), m = rb(r, .6) ? rr(r, -4, 4) : 0; c->T[0] = m - L / 2 * rr(r, .5, 1.5); c->T[1] = c->T[0] + L;
    c->h = hstep(c->T, c->D); c->q = h_calloc_c(c->D);
    if (smooth || nse_ups[c->d] > 1) { asig_t s; asig_gen(r, &s, c->T, rr(r, .3, 3), 0); asig_sample(&s, c->D, c->T, c->q); strcpy(c->sig, "smooth"); }
    else gen_signal(r, c->D, c->T, c->q, 0, 0, 0, c->sig);
    c->l1 = l1norm(c->q, c->D, c->h);
    double cap = c->kappa == 1 ? 6 : 4; if ((big == 3 || big == 4) && nse_deg[c->d] < 12) { double f = rlog(r, 1, 12); cap *= 3; FOR(i, c->D) c->q[i] *= f; c->l1 *= f; }
    if (c->l1 > cap) { double f = cap / c->l1 * rr(r, .3, 1); FOR(i, c->D) c->q[i] *= f; c->l1 *= f; }
    if (c->d == 0) { double mx = cmaxabs(c->q, c->D) * c->h, lm = c->kappa == 1 ? 3 : .9; if (mx > lm) { double f = lm / mx; FOR(i, c->D) c->q[i] *= f; c->l1 *= f; } }
    /* a single sample must not rotate by more than about one radian for the extrapolated schemes */
    { double mx = cmaxabs(c->q, c->D) * c->h; if (mx > 1 && c->d != 0 && c->d != 1) { FOR(i, c->D) c->q[i] /= mx; c->l1 /= mx; } }
    c->M = (size_t)(big == 0 ? ri(r, 1, 4) : big <= 2 ? (int)rlog(r, 21, 1500) : ri(r, 1, 20));
    double x = M_PI / (2 * c->h) * (rb(r, .8) ? 1 : 3), w = rb(r, .5) ? x * rr(r, .05, .9) : rr(r, .5, 6); if (w > x) w = x;
    double xc = rb(r, .5) ? 0 : rr(r, -1, 1) * (x - w); c->XI[0] = xc - w; c->XI[1] = xc + w * rr(r, .3, 1);
    if (big >= 5 && big < 11) { /* steps with round values, frequencies that hit them exactly: xi^2 = |q|^2 = -q r */
        double A = exp2(floor(log2(fmin(3 / L, .7 / c->h)))); static const double lv[8] = { 0, 1, 1, -1, .5, 2, 1, 0 }; int n = ri(r, 1, 5), ph = rb(r, .5); cplx q[6]; for (int i = 0; i < 6; i++) q[i] = A * lv[ri(r, 0, A * 2 * c->h > .7 || A * L > 1.5 ? 4 : 7)] * (ph && rb(r, .4) ? I : 1);
        FOR(i, c->D) c->q[i] = q[i * (size_t)n / c->D]; c->l1 = l1norm(c->q, c->D, c->h); c->M = (size_t)(rb(r, .7) ? 9 : rb(r, .5) ? 5 : 1); c->XI[0] = c->M == 1 ? A : -2 * A; c->XI[1] = 2 * A; snprintf(c->sig, sizeof c->sig, "round A=%g n=%d", A, n); }
}
const char *cse_desc(const cse_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s kappa=%d D=%zu M=%zu T=[%g,%g] XI=[%g,%g] norm=%d q=%s |q|_1=%.3g", nse_name[c->d], c->kappa, c->D, c->M, c->T[0], c->T[1], c->XI[0], c->XI[1], c->norm, c->sig, c->l1); return b; }
/* rounding level of the fast algorithms for this signal */
double cse_tol(const cse_t *c) { double g = exp(c->kappa == -1 ? c->l1 : .3 * c->l1); return 1e-11 * g * (1 + log2((double)c->D)) * (nse_deg[c->d] >= 12 ? 3000 : 1) + 1e-12 * (1 + (fabs(c->T[0]) + fabs(c->T[1])) * (fabs(c->XI[0]) + fabs(c->XI[1]))); }

/* ---------------- C10 ---------------- */
static void c10_exact(rng_t *r, long idx) {
    cse_t c; cse_gen(r, idx, &c, h_thorough ? 400 : 128, 0);
    cplx *o = h_calloc_c(2 * c.M); FOR(i, 2 * c.M) o[i] = NAN;
    int rc = run_cs(c.d, c.D, c.q, c.T, c.kappa, c.M, c.XI, 1, c.norm, o);
    if (rc) { h_violation("nsev-fails", "rc=%d (%s): %s", rc, msgs.first, cse_desc(&c)); goto end; }
    double e = 0, sc = 1; size_t wi = 0;
    FOR(i, c.M) { cplx a, b; ref_nse(c.d, c.D, c.q, c.T, c.kappa, xi_at(c.XI, c.M, i), &a, &b); double x = cabs(a - o[i]), y = cabs(b - o[c.M + i]); if (nan_gt(x, e)) e = x, wi = i; if (nan_gt(y, e)) e = y, wi = i; sc = fmax(sc, fmax(cabs(a), cabs(b))); }
    double rel = e / sc / cse_tol(&c);
    h_max("max_error_over_tolerance", rel); { char n[64]; snprintf(n, sizeof n, "scheme_error_over_tolerance_%s", nse_name[c.d]); h_max(n, rel); }
    h_metric("values_compared", (double)(2 * c.M));
    if (!(rel <= 1)) { char sig[64]; snprintf(sig, sizeof sig, "differs-from-method-%s", nse_name[c.d]); h_violation(sig, "a or b at xi=%.12g differs by %.3g (tolerance %.3g) from the product of the documented step matrices: %s", xi_at(c.XI, c.M, wi), e / sc, cse_tol(&c), cse_desc(&c)); }
    h_eval(c.l1 > 1e-3, "exact %s", cse_desc(&c));
end: h_free(o); cse_free(&c);
}
static double err_true(int d, size_t D, const asig_t *s, const double *T, int kappa, size_t M, const double *XI, int norm, const cplx *tr, int *rc) {
    cplx *q = h_calloc_c(D), *o = h_calloc_c(2 * M); asig_sample(s, D, T, q);
    *rc = run_cs(d, D, q, T, kappa, M, XI, 1, norm, o);
    double e = 0; FOR(i, 2 * M) { double x = cabs(o[i] - tr[i]); if (nan_gt(x, e)) e = x; }
    h_free(q); h_free(o); return e;
}
static void c10_order(rng_t *r, long idx) {
    int d = (int)(idx % 28), kappa = rb(r, .6) ? 1 : -1, norm = rb(r, .5), p = d == 2 || d == 3 ? 1 : nse_order[d]; /* xSPLITy: the smaller of the orders of base method and splitting */
    double L = rr(r, 12, 30), T[2]; T[0] = -L / 2 + (rb(r, .5) ? rr(r, -5, 5) : 0); T[1] = T[0] + L;
    asig_t s; asig_gen(r, &s, T, rr(r, .5, 2), 0);
    FOR(k, s.n) { s.f[k] *= .5; s.ch[k] *= .4; }
    size_t M = 4; double XI[2] = { rr(r, -1.5, -.3), rr(r, .2, 1.5) };
    cplx tr[8], t2[8]; FOR(i, M) { ref_true_nse(&s, T, kappa, xi_at(XI, M, i), 1200, &tr[i], &tr[M + i]); ref_true_nse(&s, T, kappa, xi_at(XI, M, i), 900, &t2[i], &t2[M + i]); }
    double floor_ = cdist(tr, t2, 8), sc = cmaxabs(tr, 8);
    size_t D1 = (d == 16 || d == 17) ? (size_t)ri(r, 64, 72) : p >= 5 ? (size_t)ri(r, 100, 130) : p == 4 ? (size_t)ri(r, 140, 180) : (size_t)ri(r, 180, 240);
    if (d == 12 || d == 13) D1 = (size_t)ri(r, 100, 120);
    int rc1, rc2; double e1 = err_true(d, D1, &s, T, kappa, M, XI, norm, tr, &rc1), e2 = err_true(d, 2 * D1 - 1, &s, T, kappa, M, XI, norm, tr, &rc2);
    char ds[200]; snprintf(ds, sizeof ds, "%s kappa=%d D=%zu,%zu T=[%g,%g] XI=[%g,%g] n=%d A=%g w=%g", nse_name[d], kappa, D1, 2 * D1 - 1, T[0], T[1], XI[0], XI[1], s.n, s.A[0], s.w[0]);
    if (rc1 || rc2) { h_violation("nsev-fails", "rc=%d,%d: %s", rc1, rc2, ds); return; }
    double fl = fmax(3 * floor_, 1e-9 * sc), ord = log2(e1 / e2);
    h_max("max_floor_of_true_solution", floor_); h_max("max_error_of_finer_grid", e2 / sc);
    char n[64]; snprintf(n, sizeof n, "min_order_negated_%s", nse_name[d]); if (e1 > 30 * fl && e1 < .05 * sc) h_max(n, -ord);
    if (!(e2 <= e1 * pow(2, -(p - (p <= 2 ? .6 : .7))) || e2 <= 10 * fl || e1 > .05 * sc)) { char sig[64]; snprintf(sig, sizeof sig, "order-too-low-%s", nse_name[d]); h_violation(sig, "errors %.3g, %.3g (observed order %.2f, documented %d; scale %.3g): %s", e1, e2, ord, p, sc, ds); }
    if (!(e2 <= .05 * sc)) { char sig[64]; snprintf(sig, sizeof sig, "not-convergent-%s", nse_name[d]); h_violation(sig, "errors %.3g, %.3g against the true spectrum of size %.3g: %s", e1, e2, sc, ds); }
    h_eval(e1 > 30 * fl && e1 < .05 * sc, "order %s", ds); if (idx % 7 == 3) h_sample("order %s: errors %.3g -> %.3g", ds, e1, e2);
}
void c10(long idx) {
    rng_t r = rng_make(h_seed, 10, (uint64_t)idx);
    if (idx % 5 == 4) c10_order(&r, idx / 5); else { c10_exact(&r, idx - idx / 5); }
}

/* ---------------- C09 ---------------- */
static const char unitary[28] = { 1,1,1,1,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,0,0,1,1 };
void c09(long idx) {
    rng_t r = rng_make(h_seed, 9, (uint64_t)idx); cse_t c; cse_gen(&r, idx, &c, h_thorough ? 500 : 150, 0);
    int zero = rb(&r, .05); if (zero) { FOR(i, c.D) c.q[i] = 0; c.l1 = 0; strcpy(c.sig, "zero"); }
    size_t M = c.M; cplx *ab = h_calloc_c(2 * M), *rho = h_calloc_c(M), *both = h_calloc_c(3 * M), *sub = h_calloc_c(2 * M);
    const char *ds = cse_desc(&c); char sig[80];
    int k1 = run_cs(c.d, c.D, c.q, c.T, c.kappa, M, c.XI, 1, c.norm, ab), k0 = run_cs(c.d, c.D, c.q, c.T, c.kappa, M, c.XI, 0, c.norm, rho), k2 = run_cs(c.d, c.D, c.q, c.T, c.kappa, M, c.XI, 2, c.norm, both);
    if (k1 || k0 || k2) {
        if (!k1 && !k2 && k0 == -FNFT_EC_DIV_BY_ZERO) { h_incon("a vanishes"); goto end; }
        h_violation("nsev-fails", "rc=%d,%d,%d (%s): %s", k0, k1, k2, msgs.first, ds); goto end; }
    double tol = cse_tol(&c), worst = 0;
    if (zero) { FOR(i, M) if (!(cabs(ab[i] - 1) <= tol) || !(cabs(ab[M + i]) <= tol) || !(cabs(rho[i]) <= tol)) { snprintf(sig, sizeof sig, "zero-signal-%s", nse_name[c.d]); h_violation(sig, "a=%g%+gi b=%g%+gi for the zero signal at xi=%g: %s", creal(ab[i]), cimag(ab[i]), creal(ab[M + i]), cimag(ab[M + i]), xi_at(c.XI, M, i), ds); break; } }
    /* conservation */
    FOR(i, M) { double A = creal(ab[i] * conj(ab[i])), B = creal(ab[M + i] * conj(ab[M + i])), sc = fmax(1, A + B), dev = fabs(A + c.kappa * B - 1), lim = tol * sc;
        if (!unitary[c.d]) { cplx a, b; ref_nse(c.d, c.D, c.q, c.T, c.kappa, xi_at(c.XI, M, i), &a, &b); lim += 1.05 * fabs(creal(a * conj(a)) + c.kappa * creal(b * conj(b)) - 1); }
        worst = fmax(worst, dev / lim); h_metric("conservation_laws_checked", 1);
        if (!(dev <= lim)) { snprintf(sig, sizeof sig, "conservation-%s", nse_name[c.d]); h_violation(sig, "|a|^2%+d|b|^2-1 = %.3g (allowed %.3g) at xi=%.12g: %s", c.kappa, dev, lim, xi_at(c.XI, M, i), ds); break; } }
    h_max("conservation_error_over_tolerance", worst);
    /* layouts */
    double lt = 1e-10; double wl = 0; size_t wi = 0;
    FOR(i, M) { cplx q = ab[M + i] / ab[i]; double g = fmax(1, cabs(q)), cond = fmax(1, fmax(cabs(ab[M + i]), 1) / fmax(cabs(ab[i]), 1e-12)); double t = (lt + tol * cond * 4) * g;
        double e[4] = { cabs(rho[i] - q) / t, cabs(both[i] - rho[i]) / t, cabs(both[M + i] - ab[i]) / (lt * (1 + cabs(ab[i]))), cabs(both[2 * M + i] - ab[M + i]) / (lt * (1 + cabs(ab[M + i]))) };
        FOR(k, 4) if (nan_gt(e[k], wl)) wl = e[k], wi = i; }
    h_max("layout_error_over_tolerance", wl); h_metric("layout_points_checked", (double)M);
    if (!(wl <= 1)) { snprintf(sig, sizeof sig, "layout-%s", nse_is_fast(c.d) ? "fast" : "slow"); h_violation(sig, "outputs of the three types disagree at point %zu of %zu: rho=%g%+gi, b/a=%g%+gi, both=(%g%+gi, %g%+gi, %g%+gi): %s", wi, M, creal(rho[wi]), cimag(rho[wi]), creal(ab[M + wi] / ab[wi]), cimag(ab[M + wi] / ab[wi]), creal(both[wi]), cimag(both[wi]), creal(both[M + wi]), cimag(both[M + wi]), creal(both[2 * M + wi]), cimag(both[2 * M + wi]), ds); }
    /* grid: the slice j..k of the grid, requested on its own */
    if (M > 1) {
        size_t j = (size_t)ri(&r, 0, (int)M - 2), k = (size_t)ri(&r, (int)j + 1, (int)M - 1), m = k - j + 1; double X[2] = { xi_at(c.XI, M, j), xi_at(c.XI, M, k) };
        int k3 = run_cs(c.d, c.D, c.q, c.T, c.kappa, m, X, 1, c.norm, sub); double e = 0, sc = fmax(1, cmaxabs(ab, 2 * M));
        FOR(i, m) { e = fmax(e, cabs(sub[i] - ab[j + i])); e = fmax(e, cabs(sub[m + i] - ab[M + j + i])); if (sub[i] != sub[i]) e = NAN; }
        h_max("grid_error_over_tolerance", e / sc / tol); h_metric("sub_grids_checked", 1);
        if (k3 || !(e / sc <= 2 * tol)) { snprintf(sig, sizeof sig, "grid-%s", nse_is_fast(c.d) ? "fast" : "slow"); h_violation(sig, "values on grid points %zu..%zu differ by %.3g when requested alone (rc=%d): %s", j, k, e, k3, ds); }
    }
    h_eval(c.l1 > 1e-3, "%s", ds); if (idx < 6) h_sample("%s", ds);
end: h_free(ab); h_free(rho); h_free(both); h_free(sub); cse_free(&c);
}

/* ---------------- C11 (continuous part) ---------------- */
static const char palin[28] = { 1,1,0,0,1,1,1,0,0,1,1,1,0,0,1,1,0,0,1,1,1,1,1,1,0,0,1,1 };
static void rel_check(const cse_t *c, const char *name, int rc, const cplx *x, const cplx *y, double tol, const char *more) {
    double e = 0; size_t w = 0; FOR(i, 2 * c->M) { double v = cabs(x[i] - y[i]); if (nan_gt(v, e)) e = v, w = i; }
    double sc = fmax(1, cmaxabs(y, 2 * c->M)); char sig[96], n[96];
    snprintf(n, sizeof n, "checked_%s", name); h_metric(n, 1); snprintf(n, sizeof n, "error_over_tolerance_%s", name); h_max(n, e / sc / tol);
    if (rc || !(e / sc <= tol)) { snprintf(sig, sizeof sig, "%s-%s", name, nse_name[c->d]); h_violation(sig, "%s coefficient at point %zu of %zu deviates by %.3g (tolerance %.3g, rc=%d) from the symmetry (%s): %s", w < c->M ? "a" : "b", w % c->M, c->M, e / sc, tol, rc, more, cse_desc(c)); }
}
void c11_disc(rng_t *r, long idx);
void c11(long idx) {
    rng_t r = rng_make(h_seed, 11, (uint64_t)idx);
    if (idx % 4 == 3) { c11_disc(&r, idx / 4); return; }
    idx -= idx / 4;
    cse_t c; cse_gen(&r, idx, &c, h_thorough ? 400 : 120, 0);
    size_t D = c.D, M = c.M; cplx *o = h_calloc_c(2 * M), *y = h_calloc_c(2 * M), *z = h_calloc_c(2 * M), *q = h_calloc_c(D);
    double tol = 3 * cse_tol(&c), XI[2], T[2]; char more[120];
    int rc = run_cs(c.d, D, c.q, c.T, c.kappa, M, c.XI, 1, c.norm, o);
    if (rc) { h_violation("nsev-fails", "rc=%d: %s", rc, cse_desc(&c)); goto end; }
    { double ph = rr(&r, 0, 6.28); FOR(i, D) q[i] = c.q[i] * cexp(I * ph); rc = run_cs(c.d, D, q, c.T, c.kappa, M, c.XI, 1, c.norm, y);
      FOR(i, M) { z[i] = o[i]; z[M + i] = o[M + i] * cexp(-I * ph); } snprintf(more, sizeof more, "phase %g", ph); rel_check(&c, "phase", rc, y, z, tol, more); }
    { double s = rr(&r, -5, 5); T[0] = c.T[0] + s; T[1] = c.T[1] + s; rc = run_cs(c.d, D, c.q, T, c.kappa, M, c.XI, 1, c.norm, y);
      FOR(i, M) { double xi = xi_at(c.XI, M, i); z[i] = o[i]; z[M + i] = o[M + i] * cexp(-2 * I * xi * s); } snprintf(more, sizeof more, "window moved by %g", s); rel_check(&c, "timeshift", rc, y, z, tol + 1e-11 * (fabs(s) * (fabs(c.XI[0]) + fabs(c.XI[1]))), more); }
    { double s = rlog(&r, .2, 5); T[0] = c.T[0] / s; T[1] = c.T[1] / s; XI[0] = c.XI[0] * s; XI[1] = c.XI[1] * s; FOR(i, D) q[i] = s * c.q[i]; rc = run_cs(c.d, D, q, T, c.kappa, M, XI, 1, c.norm, y);
      snprintf(more, sizeof more, "scaled by %g", s); rel_check(&c, "scaling", rc, y, o, tol, more); }
    /* the interpolation treats the Nyquist frequency as a positive one */
    double nyq = 0; if (nse_ups[c.d] == 2 || c.d == 23) { cplx sN = 0; if (D % 2 == 0) FOR(i, D) sN += (i & 1 ? -1. : 1.) * c.q[i]; nyq = 20 * cabs(sN) * c.h * exp(c.l1); }
    if (c.d != 24 && c.d != 25 && M > 1) { XI[0] = -c.XI[1]; XI[1] = -c.XI[0]; FOR(i, D) q[i] = conj(c.q[i]); rc = run_cs(c.d, D, q, c.T, c.kappa, M, XI, 1, c.norm, y);
      FOR(i, M) { z[i] = conj(o[M - 1 - i]); z[M + i] = conj(o[2 * M - 1 - i]); } rel_check(&c, "conjugation", rc, y, z, tol + nyq, "conjugated"); }
    if (palin[c.d]) { T[0] = -c.T[1]; T[1] = -c.T[0]; FOR(i, D) q[i] = conj(c.q[D - 1 - i]); rc = run_cs(c.d, D, q, T, c.kappa, M, c.XI, 1, c.norm, y);
      FOR(i, M) { z[i] = o[i]; z[M + i] = conj(o[M + i]); } rel_check(&c, "timereversal", rc, y, z, tol, "reversed"); }
    if (c.d == 0 || c.d == 2 || c.d == 3 || c.d == 4) { double w = rr(&r, -2, 2); if (fabs(w) * c.h > .5) w = .5 / c.h; XI[0] = c.XI[0] - w; XI[1] = c.XI[1] - w; FOR(i, D) q[i] = c.q[i] * cexp(2 * I * w * (c.T[0] + c.h * (double)i)); 
      /* modulation: q exp(2 i w t) at xi - w  <->  q at xi, exact for schemes in which A enters as exp(A h) between samples up to half-step phases */
      rc = run_cs(c.d, D, q, c.T, c.kappa, M, XI, 1, c.norm, y);
      FOR(i, M) { cplx f = 1; if (c.d == 2) f = cexp(-I * w * c.h); if (c.d == 3) f = cexp(I * w * c.h); z[i] = o[i]; z[M + i] = o[M + i] * f; } snprintf(more, sizeof more, "modulated by %g", w); rel_check(&c, "modulation", rc, y, z, tol + 1e-11 * fabs(w) * (fabs(c.T[0]) + fabs(c.T[1])), more); }
    h_eval(c.l1 > 1e-3, "%s", cse_desc(&c)); if (idx < 6) h_sample("%s", cse_desc(&c));
end: h_free(o); h_free(y); h_free(z); h_free(q); cse_free(&c);
}
