/* C17, C18: Manakov equation with vanishing boundaries */
#include "pc.h"
static const int dlist[12] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12 };
static const char m_unitary[13] = { 0,0,0,0,0,0,0,0,0,0,1,1,1 };
const int man_order[13] = { 2,2,2,2,2,4,4,4,4,4,4,4,2 };
const char *mse_desc(const mse_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s kappa=%d D=%zu M=%zu T=[%.6g,%.6g] XI=[%.6g,%.6g] norm=%d q=%s |q|_1=%.3g", man_name[c->d], c->kappa, c->D, c->M, c->T[0], c->T[1], c->XI[0], c->XI[1], c->norm, c->sig, c->l1); return b; }
static int run_m(int d, size_t D, const cplx *q1, const cplx *q2, const double *T, int kappa, size_t M, const double *XI, int type, int norm, cplx *out) {
    fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; o.contspec_type = type; o.normalization_flag = norm; msgs_reset();
    return fnft_manakovv((uint_)D, (cplx *)q1, (cplx *)q2, (double *)T, (uint_)M, out, (double *)XI, NULL, NULL, NULL, kappa, &o);
}
void mse_free(mse_t *c) { h_free(c->q1); h_free(c->q2); }
void mse_gen(rng_t *r, long idx, mse_t *c, int maxD) {
    memset(c, 0, sizeof *c); c->d = dlist[idx % 12]; c->kappa = rb(r, .6) ? 1 : -1; c->norm = rb(r, .5); int smooth = man_ups[c->d] > 1;
    int big = ri(r, 0, 99); if (big == 0) maxD = smooth ? 300 : man_deg[c->d] >= 12 ? 500 : 1500;
    c->D = (size_t)(rb(r, .25) && big ? ri(r, 2, 9) : ri(r, big ? 4 : maxD / 4, maxD)); if ((big == 1 || big == 2) && c->D > 40) c->D = (size_t)ri(r, 5, 40); if (rb(r, .2)) { c->D = 1; while (c->D * 2 <= (size_t)maxD) c->D *= 2; } if (smooth && c->D < 4) c->D = 4;
    double L = rlog(r, 1, 30), m = rb(r, .6) ? rr(r, -4, 4) : 0; c->T[0] = m - L / 2 * rr(r, .5, 1.5); c->T[1] = c->T[0] + L; c->h = L / (double)(c->D - 1); c->q1 = h_calloc_c(c->D); c->q2 = h_calloc_c(c->D); char s2[40] = "";
    if (smooth || rb(r, .3)) { asig_t s; asig_gen(r, &s, c->T, rr(r, .3, 3), 0); asig_sample(&s, c->D, c->T, c->q1); asig_gen(r, &s, c->T, rr(r, .3, 3), 0); asig_sample(&s, c->D, c->T, c->q2); strcpy(c->sig, "smooth"); }
    else { gen_signal(r, c->D, c->T, c->q1, 0, 0, 0, c->sig); gen_signal(r, c->D, c->T, c->q2, 0, 0, 0, s2); strcat(c->sig, "+"); strcat(c->sig, s2); }
    int k = ri(r, 0, 9); if (k == 0) { FOR(i, c->D) c->q1[i] = 0; strcat(c->sig, " q1=0"); } else if (k == 1) { FOR(i, c->D) c->q2[i] = 0; strcat(c->sig, " q2=0"); } else if (k == 2) { cplx f = rc(r); FOR(i, c->D) c->q2[i] = f * c->q1[i]; strcat(c->sig, " prop"); }
    double mx = 0; FOR(i, c->D) { double a = sqrt(creal(c->q1[i] * conj(c->q1[i]) + c->q2[i] * conj(c->q2[i]))); c->l1 += a * c->h; mx = fmax(mx, a * c->h); }
    double cap = c->kappa == 1 ? 6 : 4, f = 1; if (big == 3 || big == 4) { double g = rlog(r, 1, 12); cap *= 3; FOR(i, c->D) c->q1[i] *= g, c->q2[i] *= g; c->l1 *= g; mx *= g; } if (c->l1 > cap) f = cap / c->l1 * rr(r, .3, 1); if (mx * f > 1 && c->d != 12) f = 1 / mx; if (f < 1) { FOR(i, c->D) c->q1[i] *= f, c->q2[i] *= f; c->l1 *= f; }
    c->M = (size_t)(big == 0 ? ri(r, 1, 3) : big <= 2 ? (int)rlog(r, 13, 1000) : ri(r, 1, 12)); double x = M_PI / (2 * c->h) * (rb(r, .8) ? 1 : 3), w = rb(r, .5) ? x * rr(r, .05, .9) : rr(r, .5, 6); if (w > x) w = x;
    double xc = rb(r, .5) ? 0 : rr(r, -1, 1) * (x - w); c->XI[0] = xc - w; c->XI[1] = xc + w * rr(r, .3, 1);
    if (big >= 5 && big < 11) { /* steps with round values, frequencies that hit them exactly: xi^2 = |q|^2 */
        double A = exp2(floor(log2(fmin(3 / L, .7 / c->h)))); static const double lv[8] = { 0, 1, 1, -1, .5, 0, 1, 0 }; int n = ri(r, 1, 5); cplx q[2][6]; for (int i = 0; i < 6; i++) { int w = ri(r, 0, 1); q[w][i] = A * lv[ri(r, 0, 7)] * (rb(r, .3) ? I : 1); q[!w][i] = rb(r, .7) ? 0 : A * lv[ri(r, 0, 7)]; }
        c->l1 = 0; FOR(i, c->D) { size_t j = i * (size_t)n / c->D; c->q1[i] = q[0][j]; c->q2[i] = q[1][j]; c->l1 += sqrt(pow(cabs(q[0][j]), 2) + pow(cabs(q[1][j]), 2)) * c->h; } c->M = (size_t)(rb(r, .7) ? 9 : rb(r, .5) ? 5 : 1); c->XI[0] = c->M == 1 ? A : -2 * A; c->XI[1] = 2 * A; snprintf(c->sig, sizeof c->sig, "round A=%g n=%d", A, n); }
}
double mtol(const mse_t *c) { double g = exp(c->kappa == -1 ? c->l1 : .3 * c->l1); return 1e-11 * g * (1 + log2((double)c->D)) * (man_deg[c->d] >= 12 ? 30 : 3) + 1e-12 * (1 + (fabs(c->T[0]) + fabs(c->T[1])) * (fabs(c->XI[0]) + fabs(c->XI[1]))); }
static void c17_exact(rng_t *r, long idx) {
    mse_t c; mse_gen(r, idx, &c, h_thorough ? 256 : 72); size_t M = c.M; const char *ds = mse_desc(&c); char sig[80];
    cplx *ab = h_calloc_c(3 * M), *rho = h_calloc_c(2 * M), *both = h_calloc_c(5 * M), *y = h_calloc_c(3 * M), *u1 = h_calloc_c(c.D), *u2 = h_calloc_c(c.D); FOR(i, 3 * M) ab[i] = NAN; FOR(i, 5 * M) both[i] = NAN;
    int k1 = run_m(c.d, c.D, c.q1, c.q2, c.T, c.kappa, M, c.XI, 1, c.norm, ab), k0 = run_m(c.d, c.D, c.q1, c.q2, c.T, c.kappa, M, c.XI, 0, c.norm, rho), k2 = run_m(c.d, c.D, c.q1, c.q2, c.T, c.kappa, M, c.XI, 2, c.norm, both);
    if (k1 || k0 || k2) { h_violation("manakovv-fails", "rc=%d,%d,%d (%s): %s", k0, k1, k2, msgs.first, ds); goto end; }
    double tol = mtol(&c), e = 0, sc = 1, wc = 0, wl = 0; size_t wi = 0, ci = 0, li = 0; man_t z; man_init(&z, c.d, c.D, c.q1, c.q2, c.T, c.kappa);
    FOR(i, M) { cplx v[3]; man_ab(&z, xi_at(c.XI, M, i), v, v + 1, v + 2); FOR(k, 3) { double x = cabs(v[k] - ab[k * M + i]); if (nan_gt(x, e)) e = x, wi = i; sc = fmax(sc, cabs(v[k])); }
        double A = cabs(ab[i]), B = cabs(ab[M + i]), C = cabs(ab[2 * M + i]), s2 = fmax(1, A * A + B * B + C * C), dev = fabs(A * A + c.kappa * (B * B + C * C) - 1), lim = tol * s2;
        if (!m_unitary[c.d]) { double p = cabs(v[0]), q = cabs(v[1]), t = cabs(v[2]); lim += 1.05 * fabs(p * p + c.kappa * (q * q + t * t) - 1); } if (nan_gt(dev / lim, wc)) wc = dev / lim, ci = i;
        FOR(k, 2) { cplx q = ab[(1 + k) * M + i] / ab[i]; double g = fmax(1, cabs(q)), cond = fmax(1, fmax(cabs(ab[(1 + k) * M + i]), 1) / fmax(cabs(ab[i]), 1e-12)), t = (1e-10 + tol * cond * 4) * g; double x[2] = { cabs(rho[k * M + i] - q) / t, cabs(both[k * M + i] - rho[k * M + i]) / t }; FOR(j, 2) if (nan_gt(x[j], wl)) wl = x[j], li = i; }
        FOR(k, 3) { double x = cabs(both[(2 + k) * M + i] - ab[k * M + i]) / (1e-10 * (1 + cabs(ab[k * M + i]))); if (nan_gt(x, wl)) wl = x, li = i; } }
    man_free(&z); e /= sc; { char n[64]; snprintf(n, sizeof n, "scheme_error_over_tolerance_%s", man_name[c.d]); h_max(n, e / tol); } h_max("conservation_error_over_tolerance", wc); h_max("layout_error_over_tolerance", wl); h_metric("values_compared", (double)(3 * M)); h_metric("conservation_laws_checked", (double)M);
    if (!(e <= tol)) { snprintf(sig, sizeof sig, "differs-from-method-%s", man_name[c.d]); h_violation(sig, "a, b1 or b2 at xi=%.12g differs by %.3g (tolerance %.3g) from the product of the documented step matrices: %s", xi_at(c.XI, M, wi), e, tol, ds); }
    if (!(wc <= 1)) { snprintf(sig, sizeof sig, "conservation-%s", man_name[c.d]); h_violation(sig, "|a|^2%+d(|b1|^2+|b2|^2)-1 is %.3g times the allowed value at xi=%.12g: %s", c.kappa, wc, xi_at(c.XI, M, ci), ds); }
    if (!(wl <= 1)) h_violation("layout", "output types disagree at point %zu of %zu: rho=(%g%+gi, %g%+gi), b/a=(%g%+gi, %g%+gi): %s", li, M, creal(rho[li]), cimag(rho[li]), creal(rho[M + li]), cimag(rho[M + li]), creal(ab[M + li] / ab[li]), cimag(ab[M + li] / ab[li]), creal(ab[2 * M + li] / ab[li]), cimag(ab[2 * M + li] / ab[li]), ds);
    /* unitary mixing q -> conj(U) q style: b = (b1,b2) behaves like conj(q) */
    double th = rr(r, 0, 6.28), al = rr(r, 0, 6.28), be = rr(r, 0, 6.28), ga = rr(r, 0, 6.28); cplx U[4] = { cexp(I * (ga + al)) * cos(th), cexp(I * (ga + be)) * sin(th), -cexp(I * (ga - be)) * sin(th), cexp(I * (ga - al)) * cos(th) }; double w = 0;
    FOR(i, c.D) { u1[i] = U[0] * c.q1[i] + U[1] * c.q2[i]; u2[i] = U[2] * c.q1[i] + U[3] * c.q2[i]; }
    int kk = run_m(c.d, c.D, u1, u2, c.T, c.kappa, M, c.XI, 1, c.norm, y);
    FOR(i, M) { cplx b1 = ab[M + i], b2 = ab[2 * M + i], v[3] = { ab[i], conj(U[0]) * b1 + conj(U[1]) * b2, conj(U[2]) * b1 + conj(U[3]) * b2 }; FOR(k, 3) { double x = cabs(v[k] - y[k * M + i]); if (nan_gt(x, w)) w = x; } } h_max("mixing_error_over_tolerance", w / sc / tol); h_metric("unitary_mixings_checked", 1);
    if (kk || !(w / sc <= 4 * tol)) { snprintf(sig, sizeof sig, "mixing-%s", man_name[c.d]); h_violation(sig, "unitary mixing of the components changes a, U*b by %.3g (tolerance %.3g, rc=%d): %s", w / sc, 4 * tol, kk, ds); }
    /* the NSE signal of the same size, for the methods that exist for both equations */
    static const int nse[13] = { 7, 8, 10, 11, 15, -1, -1, -1, -1, -1, -1, -1, 1 };
    if (nse[c.d] >= 0) {
        cplx p1 = rc(r) + .3, p2 = rb(r, .2) ? 0 : rc(r); double nn = sqrt(creal(p1 * conj(p1) + p2 * conj(p2))); cplx *n = rb(r, .5) ? c.q1 : c.q2, *ns = h_calloc_c(2 * M); FOR(i, c.D) { u1[i] = p1 * n[i] / nn; u2[i] = p2 * n[i] / nn; }
        fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = nse[c.d]; o.contspec_type = 1; o.normalization_flag = c.norm; int r1 = run_m(c.d, c.D, u1, u2, c.T, c.kappa, M, c.XI, 1, c.norm, y), r2 = fnft_nsev((uint_)c.D, n, c.T, (uint_)M, ns, c.XI, NULL, NULL, NULL, c.kappa, &o); w = 0;
        FOR(i, M) { cplx v[3] = { ns[i], conj(p1) / nn * ns[M + i], conj(p2) / nn * ns[M + i] }; FOR(k, 3) { double x = cabs(v[k] - y[k * M + i]); if (nan_gt(x, w)) w = x; } } h_max("nse_reduction_error_over_tolerance", w / sc / tol); h_metric("nse_reductions_checked", 1); h_free(ns);
        if (r1 || r2 || !(w / sc <= 4 * tol)) { snprintf(sig, sizeof sig, "nse-reduction-%s", man_name[c.d]); h_violation(sig, "proportional components differ from the NSE spectrum by %.3g (tolerance %.3g, rc=%d,%d): %s", w / sc, 4 * tol, r1, r2, ds); } }
    /* a moved window */
    double s = rr(r, -4, 4), T[2] = { c.T[0] + s, c.T[1] + s }; kk = run_m(c.d, c.D, c.q1, c.q2, T, c.kappa, M, c.XI, 1, c.norm, y); w = 0; FOR(i, M) { cplx p = cexp(-2 * I * xi_at(c.XI, M, i) * s), v[3] = { ab[i], ab[M + i] * p, ab[2 * M + i] * p }; FOR(k, 3) { double x = cabs(v[k] - y[k * M + i]); if (nan_gt(x, w)) w = x; } }
    h_max("timeshift_error_over_tolerance", w / sc / (4 * tol * (1 + fabs(s))));
    if (kk || !(w / sc <= 4 * tol * (1 + fabs(s)))) { snprintf(sig, sizeof sig, "timeshift-%s", man_name[c.d]); h_violation(sig, "moving the window by %g changes a or b e^{2 i xi s} by %.3g (rc=%d): %s", s, w / sc, kk, ds); }
    h_eval(c.l1 > 1e-3, "exact %s", ds); if (idx < 4) h_sample("%s", ds);
end: h_free(ab); h_free(rho); h_free(both); h_free(y); h_free(u1); h_free(u2); mse_free(&c);
}
static void c17_order(rng_t *r, long idx) {
    int d = dlist[idx % 12], kappa = rb(r, .6) ? 1 : -1, norm = rb(r, .5), p = man_order[d]; double L = rr(r, 12, 24), T[2]; T[0] = -L / 2 + rr(r, -3, 3); T[1] = T[0] + L; asig_t s[2];
    FOR(j, 2) { asig_gen(r, &s[j], T, rr(r, .4, 1.4), 0); FOR(k, s[j].n) { s[j].f[k] *= .5; s[j].ch[k] *= .4; } }
    size_t M = 3; double XI[2] = { rr(r, -1.4, -.2), rr(r, .2, 1.4) }, e[2]; cplx tr[9], t2[9], o[9]; FOR(i, M) { ref_true_mana(&s[0], &s[1], T, kappa, xi_at(XI, M, i), 800, &tr[i], &tr[M + i], &tr[2 * M + i]); ref_true_mana(&s[0], &s[1], T, kappa, xi_at(XI, M, i), 600, &t2[i], &t2[M + i], &t2[2 * M + i]); }
    double fl = fmax(3 * cdist(tr, t2, 9), 1e-9), sc = cmaxabs(tr, 9); size_t D1 = p == 4 ? (size_t)ri(r, 100, 140) : (size_t)ri(r, 150, 200); int rc = 0;
    char ds[220], sig[80]; snprintf(ds, sizeof ds, "%s kappa=%d norm=%d D=%zu,%zu T=[%.5g,%.5g] XI=[%.4g,%.4g] n=%d,%d A=%.4g,%.4g w=%.4g,%.4g", man_name[d], kappa, norm, D1, 2 * D1 - 1, T[0], T[1], XI[0], XI[1], s[0].n, s[1].n, s[0].A[0], s[1].A[0], s[0].w[0], s[1].w[0]);
    for (int g = 0; g < 2 && !rc; g++) { size_t D = g ? 2 * D1 - 1 : D1; cplx *q1 = h_calloc_c(D), *q2 = h_calloc_c(D); asig_sample(&s[0], D, T, q1); asig_sample(&s[1], D, T, q2); rc = run_m(d, D, q1, q2, T, kappa, M, XI, 1, norm, o); e[g] = cdist(o, tr, 9); h_free(q1); h_free(q2); }
    if (rc) { h_violation("manakovv-fails", "rc=%d: %s", rc, ds); return; }
    double ord = log2(e[0] / e[1]); char n[64]; snprintf(n, sizeof n, "min_order_negated_%s", man_name[d]); if (e[0] > 30 * fl && e[0] < .05 * sc) h_max(n, -ord); h_max("max_floor_of_true_solution", fl);
    if (!(e[1] <= e[0] * pow(2, -(p - (p <= 2 ? .6 : .7))) || e[1] <= 10 * fl || e[0] > .05 * sc)) { snprintf(sig, sizeof sig, "order-too-low-%s", man_name[d]); h_violation(sig, "errors %.3g, %.3g (order %.2f, documented %d; scale %.3g): %s", e[0], e[1], ord, p, sc, ds); }
    if (!(e[1] <= .05 * sc)) { snprintf(sig, sizeof sig, "not-convergent-%s", man_name[d]); h_violation(sig, "errors %.3g, %.3g, scale %.3g: %s", e[0], e[1], sc, ds); }
    h_eval(e[0] > 30 * fl && e[0] < .05 * sc, "order %s", ds); if (idx % 7 == 3) h_sample("order %s: errors %.3g -> %.3g", ds, e[0], e[1]);
}
void c17(long idx) { rng_t r = rng_make(h_seed, 17, (uint64_t)idx); if (idx % 6 == 5) c17_order(&r, idx / 6); else c17_exact(&r, idx - idx / 6); }
/* ---------------- C18: bound states ---------------- */
typedef struct { int rc; uint_ K; cplx *l; long nwarn; } mb_t;
static uint_ mb_max(size_t D, int d) { fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = d; return fnft_manakovv_max_K((uint_)D, &o); }
typedef struct { int d, norm, filt; size_t D, Dsub; double T[2], h; cplx *q1, *q2; char sig[90]; } mbe_t;
static const char *mb_desc(const mbe_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s D=%zu Dsub=%zu filter=%d T=[%.6g,%.6g] norm=%d q=%s", man_name[c->d], c->D, c->Dsub, c->filt, c->T[0], c->T[1], c->norm, c->sig); return b; }
static mb_t run_mb(const mbe_t *c, int kappa, size_t cap, size_t M, cplx *cs, const double *XI, int filt) {
    mb_t x; memset(&x, 0, sizeof x); fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = c->d; o.normalization_flag = c->norm; o.bound_state_filtering = filt; o.Dsub = (uint_)c->Dsub; o.bound_state_localization = 0; o.contspec_type = 1;
    x.l = h_calloc_c(cap ? cap : 1); uint_ K = (uint_)cap; msgs_reset(); x.rc = fnft_manakovv((uint_)c->D, c->q1, c->q2, (double *)c->T, (uint_)M, cs, (double *)XI, &K, x.l, NULL, kappa, &o); x.nwarn = msgs.nwarn; x.K = x.rc ? 0 : K;
    if (x.K > cap) { h_violation("capacity", "%u bound states reported, capacity %zu: %s", (unsigned)x.K, cap, mb_desc(c)); x.K = (uint_)cap; }
    return x;
}
/* effective number of samples after subsampling */
static size_t mb_sub(size_t D, size_t want, size_t *skip) { size_t n = want; if (n == 0) n = (size_t)sqrt((double)D * log2((double)D) * log2((double)D)); if (n < 2) n = 2; if (n > D) n = D; *skip = (size_t)round((double)D / (double)n); return (size_t)round((double)D / (double)*skip); }
static cplx ma_of(cplx xi, void *p) { cplx a, b, c; man_ab(p, xi, &a, &b, &c); return a; }
static cplx man_da(man_t *z, cplx xi, double L) { double e = 5e-3 / fmax(1, L * .2); cplx s = 0; for (int k = 0; k < 8; k++) { cplx w = cexp(I * M_PI * k / 4.); s += ma_of(xi + e * w, z) * conj(w); } return s / (8 * e); }
static void mb_gen(rng_t *r, int d, size_t maxdeg, mbe_t *c) {
    memset(c, 0, sizeof *c); c->d = d; c->norm = rb(r, .6); c->filt = ri(r, 0, 2); size_t deg = (size_t)(man_deg[d] * man_ups[d]), De = maxdeg / deg; De = (size_t)ri(r, (int)De / 3 + 4, (int)De);
    if (rb(r, .5)) { c->D = De; c->Dsub = De; if (rb(r, .3)) c->Dsub = De + 5; } else { int s = ri(r, 2, 4); c->D = De * (size_t)s; c->Dsub = De; if (rb(r, .3)) c->D -= (size_t)ri(r, 0, s - 1); }
    size_t sk; if (mb_sub(c->D, 0, &sk) * deg <= maxdeg && rb(r, .5)) c->Dsub = 0;
    double L = rr(r, 8, 16) * rlog(r, .4, 2.5); c->T[0] = -L / 2 + (rb(r, .5) ? rr(r, -3, 3) : 0); c->T[1] = c->T[0] + L; c->h = L / (double)(c->D - 1); c->q1 = h_calloc_c(c->D); c->q2 = h_calloc_c(c->D);
    int k = ri(r, 0, 2); asig_t s;
    if (k == 0) { asig_gen(r, &s, c->T, rr(r, 2, 6), 0); asig_sample(&s, c->D, c->T, c->q1); asig_gen(r, &s, c->T, rr(r, 1, 6), 0); asig_sample(&s, c->D, c->T, c->q2); snprintf(c->sig, sizeof c->sig, "gauss+gauss A=%.4g", s.A[0]); }
    else if (k == 1) { double w = L / rr(r, 14, 22), A = rr(r, .8, 2.6) / w, th = rr(r, 0, 1.57), v = rr(r, -.5, .5) / w, t0 = c->T[0] + L * rr(r, .42, .58), p = rr(r, 0, 6.28); FOR(j, c->D) { double t = c->T[0] + c->h * (double)j; cplx e = A / cosh((t - t0) / w) * cexp(-2 * I * v * t); c->q1[j] = e * cos(th); c->q2[j] = e * sin(th) * cexp(I * p); } snprintf(c->sig, sizeof c->sig, "sech A*w=%.5g w=%.4g v=%.4g", A * w, w, v); }
    else { double w = L / rr(r, 16, 26), A[2] = { rr(r, .7, 2) / w, rr(r, .7, 2) / w }, t0[2] = { c->T[0] + L * rr(r, .35, .5), c->T[0] + L * rr(r, .5, .65) }; FOR(j, c->D) { double t = c->T[0] + c->h * (double)j; c->q1[j] = A[0] / cosh((t - t0[0]) / w); c->q2[j] = I * A[1] / cosh((t - t0[1]) / w) * cexp(I * .7 * t / w); } snprintf(c->sig, sizeof c->sig, "two sech A=%.4g,%.4g w=%.4g", A[0], A[1], w); }
}
static void mb_free(mbe_t *c) { h_free(c->q1); h_free(c->q2); }
static double nearest(const cplx *l, size_t K, cplx x) { double m = INFINITY; FOR(i, K) m = fmin(m, cabs(l[i] - x)); return m; }
static void c18_zeros(rng_t *r, long idx) {
    static const int fd[10] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 10 }; mbe_t c; mb_gen(r, fd[idx % 10], h_thorough ? 500 : 260, &c); char sig[80]; const char *ds = mb_desc(&c);
    size_t sk, Ds = mb_sub(c.D, c.Dsub, &sk); double T[2] = { c.T[0], c.T[0] + (double)((Ds - 1) * sk) * c.h }, L = T[1] - T[0], h = c.h * (double)sk, l2 = 0; cplx *s1 = h_calloc_c(Ds), *s2 = h_calloc_c(Ds); FOR(i, Ds) { s1[i] = c.q1[i * sk]; s2[i] = c.q2[i * sk]; l2 += h * creal(s1[i] * conj(s1[i]) + s2[i] * conj(s2[i])); }
    man_t z; man_init(&z, c.d, Ds, s1, s2, T, 1); size_t mk = mb_max(c.D, c.d); mb_t x = run_mb(&c, 1, mk, 0, NULL, NULL, c.filt); double R = .85 * M_PI / (2 * h); int spur = 0;
    if (x.rc) { h_violation("manakovv-fails", "rc=%d (%s): %s", x.rc, msgs.first, ds); goto end; }
    FOR(i, x.K) { cplx l = x.l[i];
        if (!isfinite(creal(l)) || !isfinite(cimag(l))) { h_violation(c.d == 10 ? "not-finite-FTES4_suzuki" : "not-finite", "bound state %zu = %g%+gi: %s", i, creal(l), cimag(l), ds); goto end; }
        if (c.filt && !(cimag(l) >= 0)) { h_violation("lower-half-plane", "bound state %zu = %g%+gi: %s", i, creal(l), cimag(l), ds); goto end; }
        if (fabs(creal(l)) > R || cimag(l) < 1e-3 / L || cimag(l) > 60 / L || fabs(creal(l)) > 80 / L) { h_metric("states_outside_the_checked_region", 1); continue; }
        cplx a = ma_of(l, &z), da = man_da(&z, l, L); double e = cabs(a / da) / (1 / L + cabs(l)), tol = 1e-9 * man_deg[c.d] * (1 + 1 / cabs(da * l)); if (!(cabs(da) * (cabs(l) + 1 / L) > .02)) { h_metric("nearly_multiple_zeros_skipped", 1); continue; }
        if (c.d != 10) h_max("zero_error_over_tolerance", e / tol); h_metric("bound_states_checked", 1);
        if (!(e <= tol) && c.d == 10) { if (!spur++) h_violation("spurious-root-FTES4_suzuki", "bound state %zu of %u = %.12g%+.12gi is no zero of a: %s", i, (unsigned)x.K, creal(l), cimag(l), ds); continue; }
        if (!(e <= tol)) { snprintf(sig, sizeof sig, "not-a-zero-%s", man_name[c.d]); h_violation(sig, "bound state %zu of %u = %.12g%+.12gi: |a/a'|/(1/L+|lambda|) = %.3g (tolerance %.3g): %s", i, (unsigned)x.K, creal(l), cimag(l), e, tol, ds); goto end; } }
    /* completeness */
    { double mn, y0 = 0, ymax = fmin(.6 * l2 + 2 / L, 30 / L), Rx = fmin(R, 40 / L); int n = -1; static const double ys[] = { .05, .11, .17, .26, .4 };
        for (int t = 0; t < 5 && n < 0; t++) { y0 = ys[t] / L; int ok = 1; FOR(i, x.K) if (fabs(cimag(x.l[i]) - y0) < .02 / L) ok = 0; if (ok) n = ref_count_zeros(ma_of, &z, -Rx, Rx, y0, ymax, 30, h_thorough ? 4000 : 1200, &mn); }
        if (n < 0) h_metric("completeness_undecided", 1);
        else { int m = 0; double gap = INFINITY; FOR(i, x.K) { cplx l = x.l[i]; if (cimag(l) > y0 && cimag(l) < ymax && fabs(creal(l)) < Rx) m++; FOR(j, i) gap = fmin(gap, cabs(l - x.l[j])); }
            h_metric("completeness_decided", 1); h_metric("zeros_counted", n); if ((c.d == 10 ? m < n : m != n) && gap > 1e-5) { snprintf(sig, sizeof sig, c.d == 10 ? "lost-root-%s" : "count-%s", man_name[c.d]); h_violation(sig, "%d bound states returned, the argument principle finds %d zeros in |Re|<%.4g, %.4g<Im<%.4g: %s", m, n, Rx, y0, ymax, ds); goto end; } } }
    /* with the continuous spectrum, with a smaller array, with the other filters */
    { size_t M = (size_t)ri(r, 1, 6); double XI[2] = { -1, 1.5 }; cplx *cs = h_calloc_c(3 * M), *c2 = h_calloc_c(3 * M); mb_t y = run_mb(&c, 1, mk, M, cs, XI, c.filt); int bad = y.rc || y.K != x.K; double tl = 1e-7 / L; if (!bad) FOR(i, x.K) if (!(nearest(y.l, y.K, x.l[i]) <= tl + 1e-7 * cabs(x.l[i]))) bad = 1;
        if (bad) h_violation("depends-on-contspec", "%u bound states without, %u with the continuous spectrum (rc=%d), first %g%+gi and %g%+gi: %s", (unsigned)x.K, (unsigned)y.K, y.rc, x.K ? creal(x.l[0]) : 0, x.K ? cimag(x.l[0]) : 0, y.K ? creal(y.l[0]) : 0, y.K ? cimag(y.l[0]) : 0, ds);
        else { int rc2 = run_m(c.d, c.D, c.q1, c.q2, c.T, 1, M, XI, 1, c.norm, c2); double e = cdist(cs, c2, 3 * M), sc = 1 + cmaxabs(c2, 3 * M); if (rc2 || !(e <= 1e-9 * sc)) h_violation("contspec-depends-on-bound-states", "continuous spectrum differs by %.3g when bound states are requested (rc=%d): %s", e, rc2, ds); }
        h_free(y.l); h_free(cs); h_free(c2); h_metric("combined_calls", 1); }
    if (x.K > 1) { size_t cap = (size_t)ri(r, 0, (int)x.K - 1); mb_t y = run_mb(&c, 1, cap, 0, NULL, NULL, c.filt); int bad = y.rc || y.K != cap || y.nwarn == 0; if (!bad) FOR(i, y.K) if (!(nearest(x.l, x.K, y.l[i]) <= 1e-7 * (1 / L + cabs(y.l[i])))) bad = 1;
        if (bad) h_violation("short-array", "capacity %zu, %u states exist: rc=%d, %u returned, %ld warnings, first %g%+gi: %s", cap, (unsigned)x.K, y.rc, (unsigned)y.K, y.nwarn, y.K ? creal(y.l[0]) : 0, y.K ? cimag(y.l[0]) : 0, ds); h_free(y.l); h_metric("short_arrays", 1); }
    { mb_t y = run_mb(&c, 1, mk, 0, NULL, NULL, c.filt ? 0 : ri(r, 1, 2)), *all = c.filt ? &y : &x, *up = c.filt ? &x : &y; double mt = 2e-8; int bad = y.rc || all->K > mk, nup = 0; cplx w = 0;
        if (!bad) { FOR(i, up->K) if (!(nearest(all->l, all->K, up->l[i]) <= mt + 1e-7 * cabs(up->l[i]))) bad = 1, w = up->l[i]; FOR(i, all->K) if (cimag(all->l[i]) > 1e-6 / L) { nup++; if (!(nearest(up->l, up->K, all->l[i]) <= 2 * mt + 1e-7 * cabs(all->l[i]))) bad = 2, w = all->l[i]; } }
        if (bad) h_violation("filter", "rc=%d; %u states without and %u with filter; %g%+gi is in one list only: %s", y.rc, (unsigned)all->K, (unsigned)up->K, creal(w), cimag(w), ds); FOR(i, up->K) FOR(j, i) if (cabs(up->l[i] - up->l[j]) < 1e-9) { h_violation("not-merged", "states %zu and %zu coincide: %s", i, j, ds); i = up->K; break; }
        h_free(y.l); h_metric("filters_compared", 1); }
    /* defocusing, omitted */
    { uint_ K = 7; cplx cs[2]; double XI[2] = { 0, 1 }; fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = c.d; cplx l[7] = { 0 }; int k1 = fnft_manakovv((uint_)c.D, c.q1, c.q2, c.T, 1, cs, XI, &K, l, NULL, -1, &o); uint_ Ka = K; K = 7; int k2 = fnft_manakovv((uint_)c.D, c.q1, c.q2, c.T, 1, cs, XI, &K, NULL, NULL, 1, &o); int k3 = fnft_manakovv((uint_)c.D, c.q1, c.q2, c.T, 1, cs, XI, NULL, NULL, NULL, 1, &o);
        if (k1 || k2 || k3 || Ka || K) h_violation("no-states", "defocusing: rc=%d K=%u; array omitted: rc=%d K=%u; both omitted: rc=%d: %s", k1, (unsigned)Ka, k2, (unsigned)K, k3, ds); }
    h_eval(x.K > 0, "zeros %s", ds); if (idx < 8) h_sample("%s: K=%u", ds, (unsigned)x.K);
end: h_free(x.l); h_free(s1); h_free(s2); man_free(&z); mb_free(&c);
}
/* closed form: vector sech pulse */
static void c18_sech(rng_t *r, long idx) {
    static const int fd[10] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 10 }; int d = fd[idx % 10], N = ri(r, 1, 2); double A = N + rr(r, -.25, .3), w = rlog(r, .3, 3), t0 = rr(r, -1, 1) * w, v = rr(r, -.4, .4) / w, ph = rr(r, 0, 6.28), th = rr(r, 0, 1.57), p2 = rr(r, 0, 6.28), e[2] = { 0, 0 };
    mbe_t c; memset(&c, 0, sizeof c); c.d = d; c.norm = rb(r, .6); c.filt = ri(r, 1, 2); c.T[0] = t0 - w * rr(r, 10, 12); c.T[1] = t0 + w * rr(r, 10, 12); size_t deg = (size_t)(man_deg[d] * man_ups[d]), D1 = 640 / deg; if (D1 > 80) D1 = 80; if (D1 < 48) D1 = 48; int K = (int)floor(A + .5); if (A - .5 - (K - 1) < .2) K--;
    snprintf(c.sig, sizeof c.sig, "sech A=%.5g w=%.4g t0=%.4g v=%.4g", A, w, t0, v); char sig[64]; int p = man_order[d];
    for (int g = 0; g < 2; g++) {
        c.D = g ? 2 * D1 - 1 : D1; c.Dsub = c.D; c.q1 = h_calloc_c(c.D); c.q2 = h_calloc_c(c.D); FOR(i, c.D) { double t = c.T[0] + (c.T[1] - c.T[0]) * (double)i / (double)(c.D - 1); cplx q = A / w / cosh((t - t0) / w) * cexp(I * (ph - 2 * v * t)); c.q1[i] = q * cos(th); c.q2[i] = q * sin(th) * cexp(I * p2); }
        mb_t x = run_mb(&c, 1, mb_max(c.D, d), 0, NULL, NULL, c.filt); int cnt = 0; if (!x.rc) FOR(k, x.K) if (cimag(x.l[k]) > .1 / w && cabs(x.l[k] - v) < 4 / w) cnt++;
        if (!x.rc && cnt > K && d == 10) { h_violation("spurious-root-FTES4_suzuki", "%d eigenvalues above 0.1/w, expected %d: %s", cnt, K, mb_desc(&c)); cnt = K; }
        if (x.rc || cnt != K) { h_violation("sech-count", "rc=%d, %d eigenvalues above 0.1/w (%u in all), expected %d: %s", x.rc, cnt, (unsigned)x.K, K, mb_desc(&c)); h_free(x.l); mb_free(&c); return; }
        FOR(n, K) e[g] = fmax(e[g], w * nearest(x.l, x.K, v + I * (A - .5 - (double)n) / w)); h_free(x.l); mb_free(&c);
    }
    if (d != 10) { h_max("sech_error_coarse", e[0]); h_max("sech_error_fine", e[1]); } char nm[64]; snprintf(nm, sizeof nm, "min_order_negated_%s", man_name[d]); if (e[0] > 1e-4 && e[0] < .05) h_max(nm, -log2(e[0] / e[1])); h_metric("sech_spectra_checked", 1);
    if (!(e[1] <= .03) || !(e[1] <= e[0] * pow(2, -(p - (p == 2 ? .5 : 1.2))) || e[1] < 2e-5 || e[0] > .1)) { snprintf(sig, sizeof sig, d == 10 ? "lost-root-%s" : "sech-%s", man_name[d]); c.q1 = NULL; h_violation(sig, "eigenvalue errors %.3g, %.3g for D=%zu, %zu (documented order %d): %s", e[0], e[1], D1, 2 * D1 - 1, p, mb_desc(&c)); }
    h_eval(1, "%s", mb_desc(&c)); if (idx < 5) h_sample("%s: errors %.3g -> %.3g", mb_desc(&c), e[0], e[1]);
}
void c18(long idx) { rng_t r = rng_make(h_seed, 18, (uint64_t)idx); if (idx % 6 == 5) c18_sech(&r, idx / 6); else c18_zeros(&r, idx - idx / 6); }
