/* C15, C16: Korteweg-de Vries equation with vanishing boundaries */
#include "pc.h"
const char *kname(int d) { static __thread char b[4][40]; static __thread int k; k = (k + 1) & 3; snprintf(b[k], 40, "%s%s", nse_name[d % 28], d < 28 ? "_VANILLA" : ""); return b[k]; }
const char *kse_desc(const kse_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s D=%zu M=%zu T=[%.5g,%.5g] XI=[%.5g,%.5g] norm=%d q=%s |q|_1=%.3g", kname(c->d), c->D, c->M, c->T[0], c->T[1], c->XI[0], c->XI[1], c->norm, c->sig, c->l1); return b; }
static int run_k(int d, size_t D, const cplx *q, const double *T, size_t M, const double *XI, int type, int norm, cplx *out) {
    fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.contspec_type = type; o.normalization_flag = norm; msgs_reset();
    return fnft_kdvv((uint_)D, (cplx *)q, (double *)T, (uint_)M, out, (double *)XI, NULL, NULL, NULL, &o);
}
void kse_gen(rng_t *r, long idx, kse_t *c, int maxD) {
    memset(c, 0, sizeof *c); c->d = (int)(idx % 56); c->norm = rb(r, .5); int b = c->d % 28, lim = maxD; if (b == 16 || b == 17) lim = maxD / 6 > 8 ? maxD / 6 : 8;
    int big = ri(r, 0, 99); if (big == 0 && b != 16 && b != 17) lim = nse_ups[b] > 1 || b == 23 ? 400 : nse_deg[b] >= 12 ? 600 : 2000;
    c->D = (size_t)ri(r, big ? 5 : lim / 4, lim); if ((big == 1 || big == 2) && c->D > 40) c->D = (size_t)ri(r, 5, 40); if (rb(r, .2)) { c->D = 1; while (c->D * 2 <= (size_t)lim) c->D *= 2; }
    double L = rlog(r, 1, 30), m = rb(r, .6) ? rr(r, -4, 4) : 0; c->T[0] = m - L / 2; c->T[1] = m + L / 2; c->h = L / (double)(c->D - 1); c->q = h_calloc_c(c->D);
    if (nse_ups[b] > 1 || rb(r, .4)) { asig_t s; asig_gen(r, &s, c->T, rr(r, .3, 3), 1); asig_sample(&s, c->D, c->T, c->q); strcpy(c->sig, "smooth"); }
    else gen_signal(r, c->D, c->T, c->q, 1, 0, 0, c->sig);
    double w = rr(r, .3, .9) * M_PI / (2 * c->h), mx = cmaxabs(c->q, c->D); if (rb(r, .5)) w = fmin(w, rr(r, .5, 6));
    /* moderate transfer matrices: sqrt|q| L and h^2 |q| bounded */
    double cap = fmin(fmin(9 / (L * L) * (double)ri(r, 1, 6), .5 / (c->h * c->h)), 1e3); if (mx > cap) { double f = cap / mx * rr(r, .3, 1); FOR(i, c->D) c->q[i] *= f; }
    c->l1 = 0; FOR(i, c->D) c->l1 += cabs(c->q[i]) * c->h;
    c->M = (size_t)(big == 0 ? ri(r, 1, 4) : big <= 2 ? (int)rlog(r, 17, 1000) : ri(r, 1, 16)); double x0 = rr(r, .02, .3) * w; int k = ri(r, 0, 2);
    if (k == 0) c->XI[0] = x0, c->XI[1] = w; else if (k == 1) c->XI[0] = -w, c->XI[1] = -x0; else { c->XI[0] = -w; c->XI[1] = w; if (c->M & 1) c->M++; }
    if (c->M == 1 && k == 2) c->M = 2;
    if (big >= 5 && big < 11) { /* steps with round values, frequencies that hit them exactly: xi^2 = -q */
        double A = exp2(floor(log2(fmin(3 / L, .7 / c->h)))); static const double lv[8] = { 0, -1, -1, 1, -.25, -4, 1, 0 }; int n = ri(r, 1, 5); double q[6]; for (int i = 0; i < 6; i++) q[i] = A * A * lv[ri(r, 0, 2 * A * c->h > .7 ? 4 : 7)];
        FOR(i, c->D) c->q[i] = q[i * (size_t)n / c->D]; c->l1 = 0; FOR(i, c->D) c->l1 += cabs(c->q[i]) * c->h; c->M = rb(r, .7) ? 4 : 1; c->XI[0] = c->M == 1 ? A : A / 2; c->XI[1] = 2 * A; if (rb(r, .4) && c->M > 1) { c->XI[0] = -2 * A; c->XI[1] = -A / 2; } snprintf(c->sig, sizeof c->sig, "round A=%g n=%d", A, n); }
}
/* rounding: growth of the transfer matrix is at most exp(sqrt(max q) L), relative to the largest value */
double ktol(const kse_t *c) { double mx = 0; FOR(i, c->D) mx = fmax(mx, creal(c->q[i])); double g = exp(fmin(12, .5 * sqrt(mx) * (c->T[1] - c->T[0]))); return 1e-11 * (1 + log2((double)c->D)) * fmax(1, pow((double)c->D / 150, 2)) * g * (nse_deg[c->d % 28] >= 12 ? 5000 : nse_deg[c->d % 28] >= 3 ? 10 : 1) + 1e-12 * (1 + (fabs(c->T[0]) + fabs(c->T[1])) * (fabs(c->XI[0]) + fabs(c->XI[1]))); }
static void c15_exact(rng_t *r, long idx) {
    kse_t c; kse_gen(r, idx, &c, h_thorough ? 300 : 110); size_t M = c.M; const char *ds = kse_desc(&c); char sig[80];
    cplx *ab = h_calloc_c(2 * M), *rho = h_calloc_c(M), *both = h_calloc_c(3 * M), *y = h_calloc_c(2 * M); FOR(i, 2 * M) ab[i] = NAN;
    int k1 = run_k(c.d, c.D, c.q, c.T, M, c.XI, 1, c.norm, ab), k0 = run_k(c.d, c.D, c.q, c.T, M, c.XI, 0, c.norm, rho), k2 = run_k(c.d, c.D, c.q, c.T, M, c.XI, 2, c.norm, both);
    if (k0 || k1 || k2) { h_violation("kdvv-fails", "rc=%d,%d,%d (%s): %s", k0, k1, k2, msgs.first, ds); goto end; }
    double tol = ktol(&c), e = 0, sc = 1, wc = 0, wl = 0; size_t wi = 0, ci = 0, li = 0;
    FOR(i, M) { cplx a, b; double xi = xi_at(c.XI, M, i); ref_kdv(c.d, c.D, c.q, c.T, xi, &a, &b); double s = fmax(1, fmax(cabs(a), cabs(b))), x = fmax(cabs(a - ab[i]), cabs(b - ab[M + i])) / s * fmin(1, fabs(xi)); if (x != x) x = INFINITY; sc = fmax(sc, s);
        if (nan_gt(x, e)) e = x, wi = i;
        double dv = fabs(pow(cabs(ab[i]), 2) - pow(cabs(ab[M + i]), 2) - 1), lim = 4 * tol * s * s / fmin(1, fabs(xi)) + 1.05 * fabs(creal(a * conj(a)) - creal(b * conj(b)) - 1); h_metric("conservation_laws_checked", 1);
        if (nan_gt(dv / lim, wc)) wc = dv / lim, ci = i;
        cplx q = ab[M + i] / ab[i]; double g = fmax(1, cabs(q)), lt = (1e-10 + 8 * tol * s / fmax(cabs(ab[i]), 1e-12) / fmin(1, fabs(xi))) * g;
        double l[4] = { cabs(rho[i] - q) / lt, cabs(both[i] - rho[i]) / lt, cabs(both[M + i] - ab[i]) / (1e-10 * s), cabs(both[2 * M + i] - ab[M + i]) / (1e-10 * s) }; FOR(k, 4) if (nan_gt(l[k], wl)) wl = l[k], li = i; }
    h_max("max_error_over_tolerance", e / tol); h_max("conservation_error_over_tolerance", wc); h_max("layout_error_over_tolerance", wl); h_metric("values_compared", (double)(2 * M));
    if (!(e <= tol)) { snprintf(sig, sizeof sig, "differs-from-method-%s", kname(c.d)); h_violation(sig, "a or b at xi=%.10g differs by %.3g (tolerance %.3g) from the product of the documented step matrices: %s", xi_at(c.XI, M, wi), e, tol, ds); }
    if (!(wc <= 1)) { snprintf(sig, sizeof sig, "conservation-%s", kname(c.d)); h_violation(sig, "|a|^2-|b|^2-1 is %.3g times the allowed value at xi=%.10g (a=%g%+gi): %s", wc, xi_at(c.XI, M, ci), creal(ab[ci]), cimag(ab[ci]), ds); }
    if (!(wl <= 1)) h_violation("layout", "output types disagree at point %zu of %zu: rho=%g%+gi b/a=%g%+gi: %s", li, M, creal(rho[li]), cimag(rho[li]), creal(ab[M + li] / ab[li]), cimag(ab[M + li] / ab[li]), ds);
    /* symmetries: real signal, moved window, scaling */
    double w = 0; double XI[2] = { -c.XI[1], -c.XI[0] }, T[2]; int rc = run_k(c.d, c.D, c.q, c.T, M, XI, 1, c.norm, y); double tx = 4 * tol * sc / fmin(1, fmin(fabs(c.XI[0]), fabs(c.XI[1])) / (double)M);
    int b = c.d % 28; if (M > 1 && b != 24 && b != 25) { FOR(i, M) w = fmax(w, fmax(cabs(y[i] - conj(ab[M - 1 - i])), cabs(y[M + i] - conj(ab[2 * M - 1 - i])))); h_max("reality_error_over_tolerance", w / tx);
        double nyq = 0; if (nse_ups[b] == 2 || b == 23) { cplx sN = 0; if (c.D % 2 == 0) FOR(i, c.D) sN += (i & 1 ? -1. : 1.) * c.q[i]; nyq = 20 * cabs(sN) * c.h * exp(fmin(c.l1, 5)) * sc; }
        if (rc || !(w <= tx + nyq)) { snprintf(sig, sizeof sig, "reality-%s", kname(c.d)); h_violation(sig, "a(-xi), b(-xi) differ by %.3g (tolerance %.3g, rc=%d) from the conjugates at xi: %s", w, tx, rc, ds); } }
    double s = rr(r, -4, 4); T[0] = c.T[0] + s; T[1] = c.T[1] + s; rc = run_k(c.d, c.D, c.q, T, M, c.XI, 1, c.norm, y); w = 0; FOR(i, M) { w = fmax(w, cabs(y[i] - ab[i])); w = fmax(w, cabs(y[M + i] - ab[M + i] * cexp(-2 * I * xi_at(c.XI, M, i) * s))); } h_max("timeshift_error_over_tolerance", w / tx);
    if (rc || !(w <= tx * (1 + fabs(s)))) { snprintf(sig, sizeof sig, "timeshift-%s", kname(c.d)); h_violation(sig, "moving the window by %g changes a or b e^{2 i xi s} by %.3g (rc=%d): %s", s, w, rc, ds); }
    s = rlog(r, .3, 3); T[0] = c.T[0] / s; T[1] = c.T[1] / s; XI[0] = c.XI[0] * s; XI[1] = c.XI[1] * s; cplx *q = h_calloc_c(c.D); FOR(i, c.D) q[i] = c.q[i] * s * s; rc = run_k(c.d, c.D, q, T, M, XI, 1, c.norm, y); h_free(q); w = 0; FOR(i, 2 * M) w = fmax(w, cabs(y[i] - ab[i])); h_max("scaling_error_over_tolerance", w / tx / fmax(1, fmax(s, 1 / s)));
    if (rc || !(w <= tx * 20 * fmax(1, fmax(s, 1 / s)))) { snprintf(sig, sizeof sig, "scaling-%s", kname(c.d)); h_violation(sig, "scaling by %g changes a or b by %.3g (tolerance %.3g, rc=%d): %s", s, w, tx, rc, ds); }
    h_metric("symmetries_checked", 3);
    h_eval(c.l1 > 1e-3, "exact %s", ds); if (idx < 4) h_sample("%s", ds);
end: h_free(ab); h_free(rho); h_free(both); h_free(y); h_free(c.q);
}
static void c15_order(rng_t *r, long idx) {
    int d = (int)(idx % 56), b = d % 28, norm = rb(r, .5), p = b == 2 || b == 3 ? 1 : nse_order[b]; double L = rr(r, 12, 24), T[2]; T[0] = -L / 2 + rr(r, -3, 3); T[1] = T[0] + L; asig_t s; asig_gen(r, &s, T, rr(r, .2, 1.2), 1);
    size_t M = 4; double XI[2] = { rr(r, .4, .7), rr(r, .9, 1.6) }; cplx tr[8], t2[8], *q, o[8]; if (rb(r, .3)) XI[0] = -XI[0], XI[1] = -XI[1]; if (XI[0] > XI[1]) { double t = XI[0]; XI[0] = XI[1]; XI[1] = t; }
    FOR(i, M) { ref_true_kdv(&s, T, xi_at(XI, M, i), 1200, &tr[i], &tr[M + i]); ref_true_kdv(&s, T, xi_at(XI, M, i), 900, &t2[i], &t2[M + i]); }
    double fl0 = cdist(tr, t2, 8), sc = cmaxabs(tr, 8), e[2]; size_t D1 = b == 16 || b == 17 ? 64 : p >= 5 ? (size_t)ri(r, 44, 60) : p == 4 ? (size_t)ri(r, 60, 100) : (size_t)ri(r, 170, 230); int rc = 0;
    char ds[220]; snprintf(ds, sizeof ds, "%s D=%zu,%zu T=[%.5g,%.5g] XI=[%.4g,%.4g] n=%d A=%.4g w=%.4g", kname(d), D1, 2 * D1 - 1, T[0], T[1], XI[0], XI[1], s.n, s.A[0], s.w[0]);
    for (int g = 0; g < 2 && !rc; g++) { size_t D = g ? 2 * D1 - 1 : D1; q = h_calloc_c(D); asig_sample(&s, D, T, q); rc = run_k(d, D, q, T, M, XI, 1, norm, o); e[g] = cdist(o, tr, 8); h_free(q); }
    char sig[80]; if (rc) { h_violation("kdvv-fails", "rc=%d: %s", rc, ds); return; }
    double fl = fmax(3 * fl0, (nse_deg[b] >= 12 ? 1e-6 : 1e-8) * sc), ord = log2(e[0] / e[1]); char n[64]; snprintf(n, sizeof n, "min_order_negated_%s", kname(d)); if (e[0] > 30 * fl && e[0] < .05 * sc) h_max(n, -ord);
    if (!(e[1] <= e[0] * pow(2, -(p - (p <= 2 ? .6 : .7))) || e[1] <= 10 * fl || e[0] > .05 * sc)) { snprintf(sig, sizeof sig, "order-too-low-%s", kname(d)); h_violation(sig, "errors %.3g, %.3g (order %.2f, documented %d; scale %.3g): %s", e[0], e[1], ord, p, sc, ds); }
    if (!(e[1] <= (p == 1 ? .6 : .05) * sc)) { snprintf(sig, sizeof sig, "not-convergent-%s", kname(d)); h_violation(sig, "errors %.3g, %.3g, scale %.3g: %s", e[0], e[1], sc, ds); }
    h_eval(e[0] > 30 * fl && e[0] < .05 * sc, "order %s", ds); if (idx % 7 == 3) h_sample("order %s: errors %.3g -> %.3g", ds, e[0], e[1]);
}
void c15(long idx) { rng_t r = rng_make(h_seed, 15, (uint64_t)idx); if (idx % 5 == 4) c15_order(&r, idx / 5); else c15_exact(&r, idx - idx / 5); }
/* ---- C16: bound states ---- */
void ks_init(ks_t *k, int dd, size_t D, const cplx *q, const double *T) { k->van = dd < 28; scat_init(&k->s, ref_base(dd % 28), D, q, T, k->van ? 0 : 2); }
void ks_ab(const ks_t *k, cplx xi, cplx *a, cplx *b) {
    m2 P = scat_m(&k->s, xi); cplx f1, f2, A, B, em = cexp(-I * xi * k->s.tm);
    if (k->van) { f1 = P.a * 2 * I * xi + P.b; f2 = P.c * 2 * I * xi + P.d; A = f1 / (2 * I * xi); B = f2 - A; } else { f1 = P.a; f2 = P.c; A = f1 + f2 / (2 * I * xi); B = -f2 / (2 * I * xi); }
    *a = A * em * cexp(I * xi * k->s.tp); *b = B * em * cexp(-I * xi * k->s.tp);
}
static double ks_f(const ks_t *k, double eta) { cplx a, b; ks_ab(k, I * eta, &a, &b); return creal(a) * eta; } /* analytic at eta=0 */
cplx ks_da(const ks_t *k, cplx xi) { double e = fmin(5e-3 / fmax(1, (k->s.T[1] - k->s.T[0]) * .2), cabs(xi) * .2); cplx s = 0, a, b; for (int j = 0; j < 16; j++) { cplx w = cexp(I * M_PI * j / 8.); ks_ab(k, xi + e * w, &a, &b); s += a * conj(w); } return s / (16 * e); }
/* ratio of the Jost solutions */
static double ks_b(const ks_t *k, cplx xi, cplx *best) {
    size_t D = k->s.D; cplx *f = h_malloc(2 * (D + 1) * sizeof *f), *g = h_malloc(2 * (D + 1) * sizeof *g); double m = INFINITY; cplx e0 = cexp(-I * xi * k->s.tm), e1 = cexp(I * xi * k->s.tp);
    cplx f0[2] = { k->van ? 2 * I * xi * e0 : e0, k->van ? e0 : 0 }, g1[2] = { k->van ? 0 : e1, k->van ? e1 : -2 * I * xi * e1 };
    ref_phipsi0(&k->s, xi, f0, g1, f, g);
    FOR(i, D + 1) { cplx *x = f + 2 * i, *y = g + 2 * i; double yy = creal(y[0] * conj(y[0]) + y[1] * conj(y[1])), xx = creal(x[0] * conj(x[0]) + x[1] * conj(x[1])); cplx b = (x[0] * conj(y[0]) + x[1] * conj(y[1])) / yy; double r = sqrt((pow(cabs(x[0] - b * y[0]), 2) + pow(cabs(x[1] - b * y[1]), 2)) / xx); if (r < m) m = r, *best = b; }
    h_free(f); h_free(g); return m;
}
/* all zeros of a on the imaginary axis in (lo, hi), ascending */
static int ks_roots(const ks_t *k, double lo, double hi, int n, double *root, int max) {
    int m = 0; double x0 = lo, f0 = ks_f(k, lo);
    for (int i = 1; i <= n; i++) { double x1 = lo + (hi - lo) * i / n, f1 = ks_f(k, x1);
        if ((f0 > 0) != (f1 > 0) && m < max) { double a = x0, b = x1, fa = f0; for (int it = 0; it < 60; it++) { double c = (a + b) / 2, fc = ks_f(k, c); if ((fc > 0) == (fa > 0)) a = c, fa = fc; else b = c; } root[m++] = (a + b) / 2; }
        x0 = x1; f0 = f1; }
    return m;
}
void kd_free(kd_t *x) { h_free(x->l); h_free(x->b); h_free(x->r); }
kd_t run_kd(int d, size_t D, const cplx *q, const double *T, int norm, double spacing, uint_ niter, int type, const cplx *guess, size_t cap) {
    kd_t x; memset(&x, 0, sizeof x); fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.normalization_flag = norm; o.niter = niter; o.discspec_type = type; o.bound_state_localization = guess ? 0 : 1; o.grid_spacing = spacing;
    x.l = h_calloc_c(cap); x.b = h_calloc_c(cap); x.r = h_calloc_c(cap); cplx *nr = h_calloc_c(2 * cap); if (guess) memcpy(x.l, guess, cap * sizeof(cplx)); uint_ K = (uint_)cap; msgs_reset();
    x.rc = fnft_kdvv((uint_)D, (cplx *)q, (double *)T, 0, NULL, NULL, &K, x.l, nr, &o); x.nwarn = msgs.nwarn; x.K = x.rc ? 0 : K;
    if (type != 1) memcpy(x.b, nr, x.K * sizeof(cplx)); if (type) memcpy(x.r, nr + (type == 2 ? x.K : 0), x.K * sizeof(cplx));
    h_free(nr); return x;
}
const char *kb_desc(const kb_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s D=%zu T=[%.6g,%.6g] norm=%d q=%s", kname(c->d), c->D, c->T[0], c->T[1], c->norm, c->sig); return b; }
void kb_gen(rng_t *r, int d, size_t D, kb_t *c) {
    memset(c, 0, sizeof *c); c->d = d; c->norm = rb(r, .6); c->D = D; double w = rlog(r, .2, 5); c->L = w * rr(r, 14, 26); double m = rr(r, -1, 1) * w; c->T[0] = m - c->L / 2; c->T[1] = m + c->L / 2; c->h = c->L / (double)(D - 1); c->q = h_calloc_c(D);
    int n = ri(r, 1, 3), k = nse_ups[d % 28] > 1 ? ri(r, 0, 1) : ri(r, 0, 2); double lev[3], A[3], t0[3], ww[3]; for (int i = 0; i < n; i++) { A[i] = rr(r, .3, 6) * (i && rb(r, .3) ? -1 : 1); t0[i] = m + rr(r, -2.2, 2.2) * w; ww[i] = w * rr(r, .6, 1.2); lev[i] = rr(r, -1, 3) / (w * w); }
    FOR(j, D) { double t = c->T[0] + c->h * (double)j, v = 0; if (k < 2) for (int i = 0; i < n; i++) { double x = (t - t0[i]) / ww[i]; v += A[i] / (ww[i] * ww[i]) / n * (k ? exp(-x * x) : 1 / (cosh(x) * cosh(x))); } else { double x = (t - m) / w; if (fabs(x) < 2) { int i = (int)((x + 2) / 4 * n); v = lev[i < n ? i : n - 1]; } } c->q[j] = v; }
    if (nse_ups[d % 28] == 1 && rb(r, .12)) { /* the largest samples are the first or the last ones */
        double bg = rb(r, .5) ? 0 : rr(r, -.1, .3) / (w * w); int e = ri(r, 1, 3), last = ri(r, 1, 2); FOR(j, D) c->q[j] = bg * exp(-pow((c->T[0] + c->h * (double)j - m) / w, 2));
        double H = rr(r, .06, .45) / (c->h * c->h) / e; for (int i = 0; i < e; i++) c->q[last == 1 ? D - 1 - (size_t)i : (size_t)i] = H * rr(r, .5, 1); c->q[last == 1 ? D - 1 : 0] = H; snprintf(c->sig, sizeof c->sig, "%d large samples at the %s, H=%.5g background %.4g", e, last == 1 ? "end" : "beginning", H, bg); return; }
    snprintf(c->sig, sizeof c->sig, "%s n=%d A=%.5g t0=%.4g w=%.4g", k == 0 ? "sech2" : k == 1 ? "gauss" : "steps", n, k == 2 ? lev[0] : A[0], t0[0], ww[0]);
}
static void kb_check(const kb_t *c, const kd_t *x, const ks_t *k, const char *what) {
    char sig[80]; int cw = c->d % 28 == 24 || c->d % 28 == 25;
    FOR(i, x->K) {
        cplx l = x->l[i], a, b, bb; if (!(cimag(l) * c->L > .05)) continue; ks_ab(k, l, &a, &b); cplx da = ks_da(k, l);
        /* values grow like exp(L sqrt(max q)) in the forward direction: skip hopeless cases */
        double e = fabs(creal(a / da * 1)) , tol = 1e-8 * (1 / c->L + cabs(l)); e = cabs(creal(a) / (I * cimag(da)));
        h_max("zero_error_over_tolerance", e / tol); h_metric("eigenvalues_checked", 1);
        if (!(fabs(creal(l)) == 0)) { snprintf(sig, sizeof sig, "not-imaginary-%s", kname(c->d)); h_violation(sig, "bound state %zu = %.10g%+.10gi (%s): %s", i, creal(l), cimag(l), what, kb_desc(c)); return; }
        if (!(e <= tol)) { snprintf(sig, sizeof sig, "not-a-zero-%s", kname(c->d)); h_violation(sig, "bound state %zu = %.12gi (%s): |a/a'| = %.3g, tolerance %.3g: %s", i, cimag(l), what, e, tol, kb_desc(c)); return; }
        double mm = ks_b(k, l, &bb); double eb = cabs(x->b[i] / bb - 1), tb = 1e-6 + 100 * mm;
        if (mm > 1e-6 || cw) h_metric("norming_constants_ill_conditioned", 1);
        else { h_max("normconst_error_over_tolerance", eb / tb); h_metric("norming_constants_checked", 1); if (!(eb <= tb)) { snprintf(sig, sizeof sig, "normconst-%s", kname(c->d)); h_violation(sig, "norming constant %zu = %.10g%+.10gi, the Jost solutions give %.10g%+.10gi (mismatch %.3g) at %.10gi (%s): %s", i, creal(x->b[i]), cimag(x->b[i]), creal(bb), cimag(bb), mm, cimag(l), what, kb_desc(c)); return; } }
        double er = cabs(x->r[i] * (cw ? da : I * cimag(da)) / x->b[i] - 1), tr = cw ? 1e-2 : 1e-6; h_max("residue_error_over_tolerance", er / tr); h_metric("residues_checked", 1);
        if (!(er <= tr)) { snprintf(sig, sizeof sig, "residue-%s", kname(c->d)); h_violation(sig, "residue %zu = %.10g%+.10gi but b/a' = %.10g%+.10gi at %.10gi (%s): %s", i, creal(x->r[i]), cimag(x->r[i]), creal(x->b[i] / da), cimag(x->b[i] / da), cimag(l), what, kb_desc(c)); return; }
    }
}
static void c16_zeros(rng_t *r, long idx) {
    int d = (int)(idx % 56); kb_t c; kb_gen(r, d, (size_t)ri(r, 40, h_thorough ? 240 : 130), &c); ks_t k; ks_init(&k, d, c.D, c.q, c.T); double mx = 0; FOR(i, c.D) mx = fmax(mx, creal(c.q[i])); char sig[80];
    double top = 1.6 * sqrt(mx) + 1e-9, root[40]; int nr = mx > 0 ? ks_roots(&k, 1e-7 / c.L, top, 300, root, 40) : 0; const char *ds = kb_desc(&c);
    double gap = INFINITY; for (int i = 0; i < nr; i++) { gap = fmin(gap, i ? root[i] - root[i - 1] : INFINITY); }
    int weak = nr && root[0] < .05 / c.L; int unresolved = sqrt(mx) * c.h > .7 || sqrt(mx) * c.L > 60;
    if (unresolved || gap < .02 * top) { h_metric("unresolved_signals_skipped", 1); h_eval(0, "%s", ds); goto end0; }
    double sp = fmin(gap / rr(r, 5, 12), top / rr(r, 8, 40)); if (nr && rb(r, .3)) sp = fmax(sp, fmin(root[0] * rr(r, 1, 1.3), fmin(gap / 5, top / 8)));
    if (nr && !weak) sp = fmin(sp, 1.3 * root[0]); /* in a wider first cell, Newton's method may run to a zero outside of it */
    sp = fmax(sp, sqrt(cmaxabs(c.q, c.D)) / 4000); kd_t x = run_kd(d, c.D, c.q, c.T, c.norm, sp, 60, 2, NULL, 40);
    if (x.rc) { h_violation("kdvv-fails", "rc=%d (%s): %s", x.rc, msgs.first, ds); goto end; }
    h_metric("bound_states_in_first_grid_cell", nr && !weak && root[0] < sp);
    { /* completeness: the zeros of the method on the imaginary axis, away from the threshold */
        int bad = 0, n1 = 0; for (int i = 0; i < nr; i++) { if (root[i] * c.L < .05) continue; int hit = 0; FOR(j, x.K) if (fabs(cimag(x.l[j]) - root[i]) < 1e-6 * (root[i] + 1 / c.L)) hit++; if (hit != 1) bad = 1; n1++; }
        FOR(j, x.K) if (!(cimag(x.l[j]) >= 0 && cimag(x.l[j]) < INFINITY)) bad = 2; else if (cimag(x.l[j]) * c.L >= .05) n1--;
        h_metric("zeros_compared", nr); if (weak && bad == 2) bad = 0; if (weak && n1 < 0) n1 = 0;
        if (bad || n1) { snprintf(sig, sizeof sig, "bound-states-%s", kname(d)); h_violation(sig, "%u returned (first %.8gi, last %.8g%+.8gi), %d zeros of a on the imaginary axis (first %.8g, last %.8g), grid_spacing %.4g: %s", (unsigned)x.K, x.K ? cimag(x.l[0]) : 0, x.K ? creal(x.l[x.K - 1]) : 0, x.K ? cimag(x.l[x.K - 1]) : 0, nr, nr ? root[0] : 0, nr ? root[nr - 1] : 0, sp, ds); goto end; } }
    kb_check(&c, &x, &k, "grid search");
    if (nr && !weak) {
        /* Newton from guesses: entries keep their order */
        size_t ng = (size_t)ri(r, 1, nr); cplx g[40]; size_t pick[40]; FOR(i, ng) { pick[i] = (size_t)ri(r, 0, nr - 1); double m = fmin(gap, root[pick[i]]); g[i] = I * (root[pick[i]] + m * rr(r, -.03, .03)); }
        kd_t y = run_kd(d, c.D, c.q, c.T, c.norm, 0, 60, 2, g, ng); int bad = y.rc || y.K != ng; size_t w = 0; if (!bad) FOR(i, ng) if (!(cabs(y.l[i] - I * root[pick[i]]) < 1e-6 * (root[pick[i]] + 1 / c.L))) bad = 1, w = i;
        if (bad) { snprintf(sig, sizeof sig, "newton-%s", kname(d)); h_violation(sig, "guess %.8gi became %.8g%+.8gi, zero %.8gi (rc=%d, K=%u of %zu): %s", cimag(g[w]), creal(y.l[w]), cimag(y.l[w]), root[pick[w]], y.rc, (unsigned)y.K, ng, ds); } else kb_check(&c, &y, &k, "newton");
        kd_free(&y); h_metric("newton_runs", 1);
        { /* niter steps are the same as niter times one step */
            int n = ri(r, 2, 6), i0 = ri(r, 0, nr - 1); double m = fmin(gap, root[i0]); cplx g0 = I * (root[i0] + m * rr(r, -.3, .3)), gk = g0; int go = 1;
            for (int j = 0; j < n && go; j++) { y = run_kd(d, c.D, c.q, c.T, c.norm, 0, 1, 2, &gk, 1); if (y.rc || y.K != 1 || !(cimag(y.l[0]) > 0)) go = 0; else gk = y.l[0]; kd_free(&y); }
            if (go) { y = run_kd(d, c.D, c.q, c.T, c.norm, 0, (uint_)n, 2, &g0, 1); h_metric("newton_steps_checked", 1); if (y.rc || y.K != 1 || !(cabs(y.l[0] - gk) <= 1e-9 * (cabs(gk) + 1 / c.L))) { snprintf(sig, sizeof sig, "newton-steps-%s", kname(d)); h_violation(sig, "niter=%d from %.9gi: rc=%d K=%u %.12gi, %d times niter=1: %.12gi (zero %.12gi): %s", n, cimag(g0), y.rc, (unsigned)y.K, y.rc || y.K != 1 ? NAN : cimag(y.l[0]), n, cimag(gk), root[i0], ds); } kd_free(&y); } }
        /* one output type at a time */
        for (int t = 0; t < 2; t++) { y = run_kd(d, c.D, c.q, c.T, c.norm, sp, 60, t, NULL, 40); bad = y.rc || y.K != x.K; if (!bad) FOR(i, x.K) { cplx p = t ? y.r[i] : y.b[i], p0 = t ? x.r[i] : x.b[i]; if (!(cabs(p - p0) <= 1e-9 * cabs(p0)) || !(cabs(y.l[i] - x.l[i]) <= 1e-10 * cabs(x.l[i]))) bad = 1; } if (bad) h_violation(t ? "type-residues" : "type-normconsts", "differs from the result with both (rc=%d K=%u/%u): %s", y.rc, (unsigned)y.K, (unsigned)x.K, ds); kd_free(&y); }
        /* capacity */
        size_t cap = (size_t)ri(r, 1, nr); y = run_kd(d, c.D, c.q, c.T, c.norm, sp, 60, 2, NULL, cap); bad = y.rc || y.K != (cap < x.K ? cap : x.K) || (y.nwarn > 0) != (cap < x.K); if (!bad) FOR(i, y.K) if (!(cabs(y.l[i] - x.l[i]) <= 1e-10 * cabs(x.l[i]))) bad = 1;
        if (bad) h_violation("capacity", "capacity %zu of %u: rc=%d K=%u, %ld warnings: %s", cap, (unsigned)x.K, y.rc, (unsigned)y.K, y.nwarn, ds); kd_free(&y);
        /* unrefined: within the grid cell, independent of the normalization */
        y = run_kd(d, c.D, c.q, c.T, 1, sp, 0, 2, NULL, 40); kd_t z = run_kd(d, c.D, c.q, c.T, 0, sp, 0, 2, NULL, 40); bad = y.rc || z.rc || y.K != x.K || z.K != x.K; w = 0; if (!bad) FOR(i, x.K) if (!(cabs(y.l[i] - x.l[i]) <= 1.001 * sp) || (sqrt(mx) * c.L < 30 && !(cabs(y.l[i] - z.l[i]) <= 1e-6 * sp))) bad = 1, w = i;
        if (bad && !(z.K != x.K && sqrt(mx) * c.L > 30)) { snprintf(sig, sizeof sig, "unrefined-%s", kname(d)); h_violation(sig, "niter=0: entry %zu %.9gi (normalized), %.9gi (not normalized), zero %.9gi, grid_spacing %.4g, K=%u,%u,%u: %s", w, cimag(y.l[w]), cimag(z.l[w]), cimag(x.l[w]), sp, (unsigned)y.K, (unsigned)z.K, (unsigned)x.K, ds); }
        kd_free(&y); kd_free(&z);
        /* the coarsest grid that must still separate the states */
        if (nr > 1 && gap < INFINITY && root[0] > 1e-3 * gap) { double cs = gap * rr(r, .75, .99); y = run_kd(d, c.D, c.q, c.T, 1, cs, 0, 2, NULL, 40); bad = y.rc || y.K != x.K; w = 0; if (!bad) FOR(i, x.K) if (!(cabs(y.l[i] - x.l[i]) <= 1.001 * cs)) bad = 1, w = i; h_metric("coarse_grid_searches", 1);
            if (bad) { snprintf(sig, sizeof sig, "coarse-grid-%s", kname(d)); h_violation(sig, "grid_spacing %.5g is below the distance %.5g of the states, rc=%d, %u of %u found, entry %zu %.9gi, zero %.9gi: %s", cs, gap, y.rc, (unsigned)y.K, (unsigned)x.K, w, cimag(y.l[w]), cimag(x.l[w]), ds); }
            kd_free(&y); }
        /* moved window, mirrored potential, scaled time */
        double s = rr(r, -2, 2) * c.L / 10, T[2] = { c.T[0] + s, c.T[1] + s }; int cw = d % 28 == 24 || d % 28 == 25; cplx *q = h_calloc_c(c.D);
        y = run_kd(d, c.D, c.q, T, c.norm, sp, 60, 2, NULL, 40); bad = y.rc || y.K != x.K; w = 0; if (!bad) FOR(i, x.K) { cplx f = cexp(-2 * I * x.l[i] * s); if (!(cabs(y.l[i] - x.l[i]) <= 1e-8 * (cabs(x.l[i]) + 1 / c.L)) || (!cw && (!(cabs(y.b[i] / (x.b[i] * f) - 1) <= 1e-5) || !(cabs(y.r[i] / (x.r[i] * f) - 1) <= 1e-5)))) bad = 1, w = i; }
        if (bad) { snprintf(sig, sizeof sig, "timeshift-%s", kname(d)); h_violation(sig, "window moved by %.5g: entry %zu %.9gi -> %.9gi, b %.7g -> %.7g (rc=%d K=%u/%u): %s", s, w, cimag(x.l[w]), cimag(y.l[w]), creal(x.b[w]), creal(y.b[w]), y.rc, (unsigned)y.K, (unsigned)x.K, ds); } kd_free(&y);
        if (nse_ups[d % 28] == 1) { /* exact for schemes whose step does not distinguish the directions */
            FOR(i, c.D) q[i] = c.q[c.D - 1 - i]; T[0] = -c.T[1]; T[1] = -c.T[0]; y = run_kd(d, c.D, q, T, c.norm, sp, 60, 2, NULL, 40); bad = y.rc || y.K != x.K; w = 0; if (!bad) FOR(i, x.K) if (!(cabs(y.l[i] - x.l[i]) <= 1e-8 * (cabs(x.l[i]) + 1 / c.L)) || !(cabs(y.b[i] * x.b[i] - 1) <= 1e-5)) bad = 1, w = i;
            if (bad) { snprintf(sig, sizeof sig, "mirror-%s", kname(d)); h_violation(sig, "mirrored: entry %zu %.9gi -> %.9gi, b %.7g -> %.7g, expected 1/b (rc=%d K=%u/%u): %s", w, cimag(x.l[w]), cimag(y.l[w]), creal(x.b[w]), creal(y.b[w]), y.rc, (unsigned)y.K, (unsigned)x.K, ds); } kd_free(&y); }
        s = rlog(r, .4, 2.5); T[0] = c.T[0] / s; T[1] = c.T[1] / s; FOR(i, c.D) q[i] = c.q[i] * s * s; y = run_kd(d, c.D, q, T, c.norm, sp * s, 60, 2, NULL, 40); bad = y.rc || y.K != x.K; w = 0; if (!bad) FOR(i, x.K) if (!(cabs(y.l[i] / s - x.l[i]) <= 1e-8 * (cabs(x.l[i]) + 1 / c.L)) || (!cw && (!(cabs(y.b[i] / x.b[i] - 1) <= 1e-5) || !(cabs(y.r[i] / s / x.r[i] - 1) <= 1e-5)))) bad = 1, w = i;
        if (bad) { snprintf(sig, sizeof sig, "scaling-%s", kname(d)); h_violation(sig, "time scaled by %.5g: entry %zu %.9gi -> %.9gi, b %.7g -> %.7g, r %.7g -> %.7g (rc=%d K=%u/%u): %s", s, w, cimag(x.l[w]), cimag(y.l[w]), creal(x.b[w]), creal(y.b[w]), cimag(x.r[w]), cimag(y.r[w]), y.rc, (unsigned)y.K, (unsigned)x.K, ds); } kd_free(&y);
        h_metric("symmetries_checked", 3); h_free(q);
    }
    h_eval(nr > 0, "zeros %s", ds); if (idx < 6) h_sample("%s: %d bound states, first %.6gi", ds, nr, nr ? root[0] : 0);
end: kd_free(&x);
end0: scat_free(&k.s); h_free(c.q);
}
/* q = A/w^2 sech^2((t-t0)/w): eigenvalues i (sqrt(A+1/4)-1/2-n)/w, norming constants (-1)^n exp(2 eta t0) */
static void c16_sech(rng_t *r, long idx) {
    int d = (int)(idx % 56), b = d % 28, norm = rb(r, .6), p = nse_order[ref_base(b)]; double w = rlog(r, .3, 3), N = ri(r, 1, 3), s0 = N + rr(r, .15, .85), A = s0 * (s0 + 1), t0 = rr(r, -.5, .5) * w, L = rr(r, 22, 30) * w, T[2] = { t0 - L / 2 + rr(r, -1, 1) * w, 0 }, e[2], eb[2]; T[1] = T[0] + L; int n = (int)floor(s0) + 1;
    size_t D1 = p >= 4 ? (size_t)ri(r, 100, 140) : (size_t)ri(r, 200, 260); char ds[200], sig[80]; snprintf(ds, sizeof ds, "%s q=%.6g sech^2 w=%.4g t0=%.4g T=[%.5g,%.5g] D=%zu,%zu norm=%d", kname(d), A, w, t0, T[0], T[1], D1, 2 * D1 - 1, norm);
    for (int g = 0; g < 2; g++) { size_t D = g ? 2 * D1 - 1 : D1; cplx *q = h_calloc_c(D); FOR(i, D) { double t = T[0] + L * (double)i / (double)(D - 1); q[i] = A / (w * w) / pow(cosh((t - t0) / w), 2); }
        kd_t x = run_kd(d, D, q, T, norm, .11 / w, 60, 2, NULL, 20); h_free(q); e[g] = eb[g] = 0; int bad = x.rc || x.K != (uint_)n;
        if (!bad) for (int j = 0; j < n; j++) { int m = n - 1 - j; double eta = (s0 - m) / w, be = (m & 1 ? -1 : 1) * exp(2 * eta * t0); e[g] = fmax(e[g], fabs(cimag(x.l[j]) - eta) * w); eb[g] = fmax(eb[g], cabs(x.b[j] / be - 1)); }
        if (bad) { snprintf(sig, sizeof sig, "sech2-count-%s", kname(d)); h_violation(sig, "%u bound states instead of %d (rc=%d, D=%zu): %s", (unsigned)x.K, n, x.rc, D, ds); kd_free(&x); return; } kd_free(&x); }
    h_max("sech2_eigenvalue_error", e[1]); h_max("sech2_normconst_error", eb[1]); double fl = 1e-8; char nm[70]; snprintf(nm, sizeof nm, "min_order_negated_%s", kname(d)); if (e[0] > 100 * fl) h_max(nm, -log2(e[0] / e[1]));
    if (!(e[1] <= e[0] * pow(2, -(p - (p > 2 ? 1. : .5))) || e[1] <= 10 * fl) || !(e[1] < .02)) { snprintf(sig, sizeof sig, "sech2-order-%s", kname(d)); h_violation(sig, "eigenvalue errors %.3g, %.3g (order %d documented): %s", e[0], e[1], p, ds); }
    if (!(eb[1] <= .7 * eb[0] || eb[1] < 1e-5) || !(eb[1] < .05)) { snprintf(sig, sizeof sig, "sech2-normconst-%s", kname(d)); h_violation(sig, "norming constant errors %.3g, %.3g: %s", eb[0], eb[1], ds); }
    h_eval(1, "sech2 %s", ds); if (idx < 3) h_sample("%s: errors %.3g, %.3g", ds, e[0], e[1]);
}
/* zeros before and after the potential change nothing, even if exp(eta |T|) overflows (normalization on) */
static void c16_wide(rng_t *r, long idx) {
    int d = (int)(idx % 56); double w = rlog(r, .1, 10), m = rr(r, -3, 3) * w, nu = rr(r, .6, 2.9), h = w * rr(r, .16, .3); size_t n = (size_t)(36 * w / h) | 1;
    double tot = rr(r, 100, 1400) * w / nu; size_t P = (size_t)(tot / h), PL = rb(r, .5) ? P : (size_t)(rr(r, 0, 1) * (double)P), PR = rb(r, .5) ? P : (size_t)(rr(r, 0, 1) * (double)P), D = n + PL + PR; if (rb(r, .3)) { size_t t = PL; PL = PR; PR = t; }
    double T[2] = { m - h * (double)(n - 1) / 2, m + h * (double)(n - 1) / 2 }, TW[2] = { T[0] - h * (double)PL, T[1] + h * (double)PR }; cplx *q = h_calloc_c(n), *qw = h_calloc_c(D);
    FOR(j, n) { double t = T[0] + h * (double)j, x = cosh((t - m) / w); q[j] = qw[PL + j] = nu * (nu + 1) / (w * w) / (x * x); }
    cplx g[3]; size_t K = 0; for (int k = 0; k < 3 && nu - k > .2; k++) g[K++] = I * (nu - k) / w * rr(r, .98, 1.02);
    kd_t x = run_kd(d, n, q, T, 1, .1, 60, 2, g, K), y = run_kd(d, D, qw, TW, 1, .1, 60, 2, g, K); int ok = !x.rc && !x.nwarn && x.K == K; char desc[300]; snprintf(desc, sizeof desc, "%s sech^2 nu=%g w=%g m=%g h=%g n=%zu, %zu zeros before and %zu after", kname(d), nu, w, m, h, n, PL, PR);
    if (ok) FOR(i, K) { if (!(cimag(x.l[i]) * w > .1) || !(fabs(log(cabs(x.b[i]))) < 300)) ok = 0; FOR(j, i) if (cabs(x.l[i] - x.l[j]) * w < .1) ok = 0; }
    if (!ok) h_metric("wide_window_references_unusable", 1);
    else if (y.rc || y.K != K) h_violation("wide-window-fail", "rc=%d K=%u, but %zu bound states without the zeros: %s", y.rc, (unsigned)y.K, K, desc);
    else { FOR(i, K) { double el = cabs(x.l[i] - y.l[i]) * w, eb = cabs(y.b[i] / x.b[i] - 1), er = cabs(y.r[i] / x.r[i] - 1); h_max("wide_lambda", el); h_max("wide_b", eb); h_max("wide_residue", er); h_max("wide_exponent", cimag(x.l[i]) * fmax(fabs(TW[0]), fabs(TW[1])));
            if (!(el <= 1e-8)) { h_violation("wide-window-lambda", "bound state %zu at %.10gi, without the zeros %.10gi: %s", i, cimag(y.l[i]), cimag(x.l[i]), desc); break; }
            if (!(eb <= 1e-6) || !(er <= 1e-6)) { h_violation("wide-window-normconst", "norming constant %g%+gi, residue %g%+gi; without the zeros %g%+gi, %g%+gi: %s", creal(y.b[i]), cimag(y.b[i]), creal(y.r[i]), cimag(y.r[i]), creal(x.b[i]), cimag(x.b[i]), creal(x.r[i]), cimag(x.r[i]), desc); break; } }
        h_metric("wide_windows", 1); }
    h_eval(ok, "%s", desc); kd_free(&x); kd_free(&y); h_free(q); h_free(qw);
}
void c16(long idx) { rng_t r = rng_make(h_seed, 16, (uint64_t)idx); if (idx % 10 == 9) c16_wide(&r, idx / 10); else if (idx % 5 == 4) c16_sech(&r, idx / 10); else c16_zeros(&r, idx - idx / 5); }
