/* C12, C13, discrete part of C11: bound states of the focusing NSE */
#include "pc.h"
void ds_free(ds_t *x) { h_free(x->l); h_free(x->b); h_free(x->r); }
uint_ maxK(size_t D, int d) { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; return fnft_nsev_max_K((uint_)D, &o); }
/* guesses (ng of them) only for NEWTON; cap 0: maximal capacity */
ds_t run_ds(const fnft_nsev_opts_t *o0, size_t D, const cplx *q, const double *T, const cplx *guess, size_t ng, size_t cap) {
    ds_t x; memset(&x, 0, sizeof x); fnft_nsev_opts_t o = *o0; o.discspec_type = 2;
    uint_ K = o.bound_state_localization == 1 ? (uint_)ng : cap ? (uint_)cap : maxK(D, o.discretization); size_t n = K ? K : 1;
    x.l = h_calloc_c(n); cplx *nr = h_calloc_c(2 * n); if (o.bound_state_localization == 1) memcpy(x.l, guess, ng * sizeof(cplx));
    msgs_reset(); x.rc = fnft_nsev((uint_)D, (cplx *)q, (double *)T, 0, NULL, NULL, &K, x.l, nr, 1, &o);
    x.nwarn = msgs.nwarn; strcpy(x.warn, msgs.lastwarn);
    x.K = x.rc ? 0 : K; x.b = h_calloc_c(n); x.r = h_calloc_c(n);
    if (!x.rc) { memcpy(x.b, nr, K * sizeof(cplx)); memcpy(x.r, nr + K, K * sizeof(cplx)); }
    h_free(nr); return x;
}
const char *dse_desc(const dse_t *c) { static __thread char b[300]; snprintf(b, sizeof b, "%s D=%zu T=[%g,%g] norm=%d q=%s", nse_name[c->d], c->D, c->T[0], c->T[1], c->norm, c->sig); return b; }
/* a focusing signal with about 1-5 eigenvalues */
void dse_gen(rng_t *r, int d, size_t D, dse_t *c) {
    memset(c, 0, sizeof *c); c->d = d; c->norm = rb(r, .6); c->D = D;
    double L = rr(r, 8, 16) * rlog(r, .4, 2.5); c->T[0] = -L / 2 + (rb(r, .5) ? rr(r, -3, 3) : 0); c->T[1] = c->T[0] + L; c->h = (c->T[1] - c->T[0]) / (double)(D - 1); c->q = h_calloc_c(D);
    int k = ri(r, 0, 2);
    if (k == 0) { c->smooth = 1; asig_gen(r, &c->s, c->T, rr(r, 2, 9), 0); asig_sample(&c->s, D, c->T, c->q); snprintf(c->sig, sizeof c->sig, "gauss n=%d A=%.4g f=%.3g", c->s.n, c->s.A[0], c->s.f[0]); }
    else if (k == 1) { /* sech pulses */
        int n = ri(r, 1, 2); double A[2], w[2], t0[2], v[2], ph[2];
        for (int i = 0; i < n; i++) { w[i] = L / rr(r, 14, 28); A[i] = rr(r, .7, 2.3) / w[i]; t0[i] = c->T[0] + L * (n == 1 ? rr(r, .4, .6) : i ? rr(r, .6, .72) : rr(r, .28, .4)); v[i] = rr(r, -.8, .8) / w[i]; ph[i] = rr(r, 0, 6.28); }
        FOR(j, D) { double t = c->T[0] + c->h * (double)j; for (int i = 0; i < n; i++) c->q[j] += A[i] / cosh((t - t0[i]) / w[i]) * cexp(I * (ph[i] - 2 * v[i] * t)); }
        snprintf(c->sig, sizeof c->sig, "sech n=%d A=%.4g w=%.4g v=%.3g", n, A[0], w[0], v[0]); }
    else { /* rough: piecewise constant with random phases */
        int n = ri(r, 1, 6); double amp = rr(r, 1, 7) / L; FOR(j, D) { static __thread cplx lev[8]; if (j == 0) for (int i = 0; i < n; i++) lev[i] = amp * (1 + .4 * rc(r)); c->q[j] = lev[j * (size_t)n / D]; }
        snprintf(c->sig, sizeof c->sig, "steps n=%d amp=%.4g", n, amp); }
}
void dse_free(dse_t *c) { h_free(c->q); }
cplx a_of(cplx xi, void *p) { cplx a, b; scat_ab(p, xi, &a, &b); return a; }
static double mindist(const cplx *l, size_t K) { double m = INFINITY; FOR(i, K) FOR(j, i) m = fmin(m, cabs(l[i] - l[j])); return m; }
static double rebound(int d, double h) { return .9 * M_PI / fabs((nse_is_fast(d) ? 2. / nse_deg[d] : 2.) * h); }

/* eigenvalues, norming constants and residues of one result against the reference of the method.
   what: 0 FAST_EIGENVALUE, 1 NEWTON, 2 SUBSAMPLE_AND_REFINE */
static void check_zeros(const dse_t *c, const ds_t *x, int what, scat_t *own, scat_t *base) {
    char sig[80]; static const char *loc[] = { "fast", "newton", "subsample" }; const scat_t *z = what == 0 ? own : base;
    cplx a, b;
    FOR(i, x->K) {
        cplx l = x->l[i];
        if (!(cimag(l) >= 0)) { snprintf(sig, sizeof sig, "lower-half-plane-%s", loc[what]); h_violation(sig, "eigenvalue %zu = %.12g%+.12gi: %s", i, creal(l), cimag(l), dse_desc(c)); return; }
        if (cimag(l) < 1e-3 / (c->T[1] - c->T[0])) continue; /* eigenvalues at the border of the continuous spectrum */
        scat_ab(z, l, &a, &b); cplx da = ref_nse_da(z, l);
        double e = cabs(a / da) / (1 / (c->T[1] - c->T[0]) + cabs(l)), tol = what == 0 ? 1e-11 * nse_deg[c->d] * pow(1.0 + 1 / cabs(da * l), 1) : 1e-10;
        if (what == 0 && nse_deg[c->d] >= 8) tol *= 100;
        if (!(cabs(da) * (cabs(l) + 1 / (c->T[1] - c->T[0])) > .02)) { h_metric("nearly_multiple_zeros_skipped", 1); continue; }
        char n[80]; snprintf(n, sizeof n, "zero_error_over_tolerance_%s", loc[what]); h_max(n, e / tol); h_metric("eigenvalues_checked", 1);
        if (!(e <= tol)) { snprintf(sig, sizeof sig, "not-a-zero-%s-%s", loc[what], nse_name[c->d]); h_violation(sig, "eigenvalue %zu of %u = %.12g%+.12gi: |a/a'|/(1/L+|lambda|) = %.3g (tolerance %.3g), |a'|=%.3g (%ld warnings): %s", i, (unsigned)x->K, creal(l), cimag(l), e, tol, cabs(da), x->nwarn, dse_desc(c)); return; }
        if (c->T[1] - c->T[0] > 25 / fmax(cimag(l), 1e-9)) { h_metric("norming_constants_skipped_long_signal", 1); }
        /* norming constant: the ratio of the two Jost solutions */
        cplx bb, dab = what == 0 ? ref_nse_da(base, l) : da; double dist, mm = ref_nse_b(base, l, &bb, x->b[i], &dist);
        if (what == 0) {
            h_max("normconst_candidate_distance_fast", dist); h_metric("norming_constants_checked", 1);
            if (!(dist <= (mm > .5 ? 1e-4 : 1e-6))) { snprintf(sig, sizeof sig, "normconst-fast-%s", nse_name[c->d]); h_violation(sig, "norming constant %zu = %.10g%+.10gi is no ratio of the Jost solutions (closest %.3g, best %.10g%+.10gi mismatch %.3g) at lambda=%.10g%+.10gi: %s", i, creal(x->b[i]), cimag(x->b[i]), dist, creal(bb), cimag(bb), mm, creal(l), cimag(l), dse_desc(c)); return; }
        } else if (mm < 1e-6) {
            double eb = cabs(x->b[i] / bb - 1), tb = 1e-6 + 100 * mm; h_max("normconst_error_over_tolerance", eb / tb); h_metric("norming_constants_checked", 1);
            if (!(eb <= tb)) { snprintf(sig, sizeof sig, "normconst-%s-%s", loc[what], nse_name[c->d]); h_violation(sig, "norming constant %zu = %.10g%+.10gi, the Jost solutions give %.10g%+.10gi (mismatch %.3g) at lambda=%.10g%+.10gi: %s", i, creal(x->b[i]), cimag(x->b[i]), creal(bb), cimag(bb), mm, creal(l), cimag(l), dse_desc(c)); return; }
        } else h_metric("norming_constants_ill_conditioned", 1);
        double er = cabs(x->r[i] * dab / x->b[i] - 1), tr = 1e-6 * (1 + 1 / cabs(dab * (cabs(l) + 1 / (c->T[1] - c->T[0])))); h_max("residue_error_over_tolerance", er / tr); h_metric("residues_checked", 1);
        if (!(er <= tr)) { snprintf(sig, sizeof sig, "residue-%s-%s", loc[what], nse_name[c->d]); h_violation(sig, "residue %zu = %.10g%+.10gi but b/a' = %.10g%+.10gi at lambda=%.10g%+.10gi: %s", i, creal(x->r[i]), cimag(x->r[i]), creal(x->b[i] / dab), cimag(x->b[i] / dab), creal(l), cimag(l), dse_desc(c)); return; }
    }
}
/* number of zeros of a in a box against the number returned */
static void check_complete(const dse_t *c, const ds_t *x, scat_t *z, const char *what, double R, double ymax) {
    double L = c->T[1] - c->T[0], mn, y0 = 0; int n = -1; if (R > 40 / L) R = 40 / L; if (ymax > 30 / L) ymax = 30 / L; char sig[80];
    /* a box edge that keeps away from the returned eigenvalues, slightly above the real axis */
    static const double ys[] = { .05, .11, .17, .26, .4 };
    for (int t = 0; t < 5 && n < 0; t++) { y0 = ys[t] / L; int ok = 1; FOR(i, x->K) if (fabs(cimag(x->l[i]) - y0) < .02 / L) ok = 0; if (!ok) continue;
        n = ref_count_zeros(a_of, z, -R, R, y0, ymax, 40, h_thorough ? 6000 : 2500, &mn); }
    if (n < 0) { h_metric("completeness_undecided", 1); return; }
    int m = 0; FOR(i, x->K) { cplx l = x->l[i]; if (cimag(l) > y0 && cimag(l) < ymax && fabs(creal(l)) < R) m++; }
    h_metric("completeness_decided", 1); h_metric("zeros_counted", n);
    if (m != n && mindist(x->l, x->K) > 1e-5) { snprintf(sig, sizeof sig, "count-%s-%s", what, nse_name[c->d]); h_violation(sig, "%d eigenvalues returned, the argument principle finds %d zeros in |Re|<%.4g, %.4g<Im<%.4g: %s", m, n, R, y0, ymax, dse_desc(c)); }
}
/* the three output types describe the same thing */
static void check_types(const dse_t *c, const fnft_nsev_opts_t *o0, const ds_t *x, const cplx *guess, size_t ng) {
    for (int t = 0; t < 2; t++) {
        fnft_nsev_opts_t o = *o0; o.discspec_type = t; uint_ K = o.bound_state_localization == 1 ? (uint_)ng : maxK(c->D, c->d); cplx *l = h_calloc_c(K), *n = h_calloc_c(K); if (o.bound_state_localization == 1) memcpy(l, guess, ng * sizeof(cplx));
        int rc = fnft_nsev((uint_)c->D, c->q, (double *)c->T, 0, NULL, NULL, &K, l, n, 1, &o); int bad = rc || K != x->K; size_t w = 0;
        if (!bad) FOR(i, K) { cplx ref = t ? x->r[i] : x->b[i]; if (!(cabs(l[i] - x->l[i]) <= 1e-9 * (1 + cabs(x->l[i]))) || !(cabs(n[i] - ref) <= 1e-6 * cabs(ref))) bad = 1, w = i; }
        h_metric("output_types_compared", 1);
        if (bad) h_violation(t ? "type-residues" : "type-normconsts", "alone: K=%u, entry %zu = %g%+gi; with both: K=%u, %g%+gi (rc=%d): %s", (unsigned)K, w, K ? creal(n[w]) : 0, K ? cimag(n[w]) : 0, (unsigned)x->K, x->K ? creal(t ? x->r[w] : x->b[w]) : 0, x->K ? cimag(t ? x->r[w] : x->b[w]) : 0, rc, dse_desc(c));
        h_free(l); h_free(n);
    }
}
size_t degcap(rng_t *r, int d, size_t maxdeg) { int big = ri(r, 0, 59) == 0; if (big) maxdeg *= 4; size_t D = maxdeg / (size_t)(nse_is_fast(d) ? nse_deg[d] * nse_ups[d] : 1); if (D > (big ? 700 : 160)) D = big ? 700 : 160; if (D < 12) D = 12; return (size_t)ri(r, (int)(D / 3 > 8 ? D / 3 : 8), (int)D); }
static void c12_zeros(rng_t *r, long idx) {
    int d = (int)(idx % 28), what = nse_is_fast(d) ? (int)(idx / 28 % 3) : 1; size_t D = degcap(r, d, h_thorough ? 500 : 260);
    dse_t c; dse_gen(r, d, D, &c); scat_t own, base; scat_init(&own, d, D, c.q, c.T, 1); scat_init(&base, ref_base(d), D, c.q, c.T, 1);
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.normalization_flag = c.norm; o.niter = 200; o.bound_state_localization = what == 2 ? 2 : what; o.bound_state_filtering = rb(r, .5) ? 2 : 1;
    cplx g[12]; size_t ng = 0; ds_t x; double L = c.T[1] - c.T[0];
    if (what == 1) { /* guesses: zeros found by a coarse search with the reference */
        FOR(t, 25) { cplx l = rr(r, -6, 6) / L + I * rr(r, .3, 14) / L, l0 = l + .1 / L, a0 = a_of(l0, &base); int ok = 0;
            for (int k = 0; k < 30; k++) { cplx a1 = a_of(l, &base), s = a1 * (l - l0) / (a1 - a0); if (!(cabs(s) < 3 / L)) s *= 3 / L / cabs(s); l0 = l; a0 = a1; l -= s; if (!(cimag(l) > .1 / L) || !(cabs(l) < 60 / L)) break; if (cabs(s) < 1e-10 * cabs(l)) { ok = 1; break; } }
            if (!ok || fabs(creal(l)) > .8 * M_PI / (2 * c.h)) continue; FOR(i, ng) if (cabs(g[i] - l) < 1e-6 / L) ok = 0; if (ok && ng < 6) g[ng++] = l; }
        FOR(i, ng) { double m = INFINITY; FOR(j, ng) if (j != i) m = fmin(m, cabs(g[i] - g[j])); m = fmin(m, cimag(g[i])); g[i] += .02 * fmin(m, 1 / L) * cexp(I * rr(r, 0, 6.28)); }
    }
    if (what == 2 && rb(r, .5)) o.Dsub = (uint_)ri(r, (int)D / 2, (int)D);
    if (what == 1 && ng == 0) { h_metric("newton_no_zero_found", 1); goto end0; }
    x = run_ds(&o, D, c.q, c.T, g, ng, 0);
    if (x.rc == -FNFT_EC_DIV_BY_ZERO && o.bound_state_filtering == 1) { h_metric("spurious_eigenvalue_with_vanishing_derivative", 1); h_eval(0, "%s", dse_desc(&c)); goto end; }
    if (x.rc) { h_violation("nsev-fails", "rc=%d (%s) filter %d: %s", x.rc, msgs.first, o.bound_state_filtering, dse_desc(&c)); goto end; }
    if (what == 2 && x.nwarn) { h_metric("newton_warned", 1); h_eval(0, "%s", dse_desc(&c)); goto end; }
    check_zeros(&c, &x, what, &own, &base);
    if (what == 0) { double l2 = 0; FOR(i, D) l2 += pow(cabs(c.q[i]), 2) * c.h; check_complete(&c, &x, &own, "fast", .99 * rebound(d, c.h), o.bound_state_filtering == 2 && nse_ups[d] == 1 ? fmin(1.5 * .25 * l2 * .999, 60 / L) : fmin(.3 * l2, 60 / L)); }
    if (what == 1) { if (x.nwarn) h_metric("newton_warned", 1);
        FOR(i, ng) { double m = INFINITY; FOR(j, x.K) m = fmin(m, cabs(x.l[j] - g[i])); double box = rebound(d, c.h); if (fabs(creal(g[i])) < box * .99 && (nse_ups[d] == 1 || o.bound_state_filtering == 1) && !(m < 5. / L)) h_violation("newton-lost", "no eigenvalue near guess %g%+gi (%u returned): %s", creal(g[i]), cimag(g[i]), (unsigned)x.K, dse_desc(&c)); } }
    if (idx % 3 == 0) check_types(&c, &o, &x, g, ng);
    h_eval(x.K > 0, "zeros %d %s", what, dse_desc(&c)); if (idx < 10) h_sample("%s loc=%d K=%u l0=%g%+gi", dse_desc(&c), what, (unsigned)x.K, x.K ? creal(x.l[0]) : 0, x.K ? cimag(x.l[0]) : 0);
end: ds_free(&x);
end0: scat_free(&own); scat_free(&base); dse_free(&c);
}
/* known spectrum: q = A/w sech((t-t0)/w) exp(i ph - 2 i v t); eigenvalues v + i (A-1/2-n)/w */
static void c12_sech(rng_t *r, long idx) {
    int d = (int)(idx % 28), loc = nse_is_fast(d) ? (int)(idx / 28 % 3) : 1, N = ri(r, 1, 3); double A = N + rr(r, -.3, .3), w = rlog(r, .3, 3), t0 = rr(r, -1, 1) * w, v = rr(r, -.5, .5) / w, ph = rr(r, 0, 6.28);
    size_t deg = (size_t)(nse_is_fast(d) ? nse_deg[d] * nse_ups[d] : 1); if (deg > 8) loc = 1; double T[2] = { t0 - w * (loc != 1 ? rr(r, 15, 18) : rr(r, 22, 26)), t0 + w * (loc != 1 ? rr(r, 15, 18) : rr(r, 22, 26)) }; size_t D1 = loc == 0 ? (h_thorough ? 1100 : 640) / deg : 320; if (D1 > 320) D1 = 320; if (D1 < 110) D1 = 110; if (loc == 0 && D1 > 200 && !h_thorough) D1 = 200;
    int p = loc == 0 ? (d == 2 || d == 3 ? 1 : nse_order[d]) : nse_order[ref_base(d)];
    double e[2] = { 0, 0 }, eb[2] = { 0, 0 }, er[2] = { 0, 0 }; char ds[260]; cplx tl[4], tb[4], ta[4]; int K = (int)floor(A + .5); if (A - .5 - (K - 1) < .15) K--;
    snprintf(ds, sizeof ds, "%s loc=%d sech A=%.5g w=%.4g t0=%.4g v=%.4g T=[%.5g,%.5g] D=%zu", nse_name[d], loc, A, w, t0, v, T[0], T[1], D1);
    FOR(n, K) { tl[n] = v + I * (A - .5 - (double)n) / w; double s = n & 1 ? 1 : -1; tb[n] = s * cexp(-I * ph) * cexp(-2 * I * (tl[n] - v) * t0);
        /* a'(l) = w * d/ds of Gamma(1/2-is)^2/(Gamma(1/2-is+A) Gamma(1/2-is-A)) at s = i(A-1/2-n): simple zero from 1/Gamma at -n */
        double x = A - .5 - (double)n + .5; /* 1/2 - i s = 1/2 + Im = A - n */
        ta[n] = -I * w * (n & 1 ? -1 : 1) * tgamma((double)n + 1) * tgamma(x) * tgamma(x) / tgamma(x + A); }
    uint_ Kr = 0; long warn = 0;
    for (int g = 0; g < 2; g++) {
        size_t D = g ? 2 * D1 - 1 : D1; cplx *q = h_calloc_c(D); FOR(i, D) { double t = T[0] + (T[1] - T[0]) * (double)i / (double)(D - 1); q[i] = A / w / cosh((t - t0) / w) * cexp(I * (ph - 2 * v * t)); }
        fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.bound_state_localization = loc; o.niter = 100; if (loc == 2) o.Dsub = (uint_)(600 / deg); cplx gs[4]; FOR(n, K) gs[n] = tl[n] + .05 / w * cexp(I * rr(r, 0, 6.28));
        ds_t x = run_ds(&o, D, q, T, gs, (size_t)K, 0);
        if (x.rc) { h_violation("nsev-fails", "rc=%d: %s", x.rc, ds); ds_free(&x); h_free(q); return; }
        Kr = x.K; warn += x.nwarn;
        int cnt = 0; FOR(k, x.K) if (cimag(x.l[k]) > .1 / w && cabs(x.l[k] - v) < 5 / w) cnt++;
        if (cnt != K) { char sig[64]; snprintf(sig, sizeof sig, "sech-count-loc%d", loc); h_violation(sig, "%d eigenvalues above 0.1/w (%u in all), expected %d: %s", cnt, (unsigned)x.K, K, ds); ds_free(&x); h_free(q); return; }
        FOR(n, K) { double m = INFINITY; size_t b = 0; FOR(k, x.K) if (cabs(x.l[k] - tl[n]) < m) m = cabs(x.l[k] - tl[n]), b = k;
            e[g] = fmax(e[g], m * w); eb[g] = fmax(eb[g], cabs(x.b[b] / tb[n] - 1)); er[g] = fmax(er[g], cabs(x.r[b] * ta[n] / tb[n] - 1)); }
        ds_free(&x); h_free(q);
    }
    char sig[80]; const double *E[3] = { e, eb, er }; static const char *nm[3] = { "eigenvalue", "normconst", "residue" };
    for (int k = 0; k < 3; k++) { double fl = loc == 0 ? 1e-6 : k == 0 ? 1e-9 : 3e-7, lim = p <= 2 ? .9 : 1.2; char n[64]; (void)n;
        if (loc == 0 && nse_deg[d] > 6) fl *= 100;
        if (E[k][0] < .3 && E[k][0] > 100 * fl) { snprintf(n, sizeof n, "min_order_negated_%s_p%d_loc%d", nm[k], p, loc == 0); h_max(n, -log2(E[k][0] / E[k][1])); }
        /* with FAST_EIGENVALUE the norming constants are evaluated with the base method at an eigenvalue of the splitting scheme */
        double hw = (T[1] - T[0]) / (2 * (double)D1 - 2) / w, abs_ = (k ? 3 : .5) * pow(hw, p);
        if (!(E[k][1] <= fl * 10 || E[k][1] <= abs_ || E[k][1] <= E[k][0] * pow(2, -(p - lim)))) { snprintf(sig, sizeof sig, "sech-%s-order-%s-loc%d", nm[k], nse_name[d], loc); h_violation(sig, "errors %.3g, %.3g for D, 2D-1 (order %d expected, %ld warnings): %s", E[k][0], E[k][1], p, warn, ds); }
    }
    h_eval(1, "sech %s", ds); if (idx < 4) h_sample("%s: K=%u errors l %.2g %.2g b %.2g %.2g r %.2g %.2g", ds, (unsigned)Kr, e[0], e[1], eb[0], eb[1], er[0], er[1]);
}
/* energy = 4 sum Im + (1/pi) int log(1+|rho|^2) */
static void c12_energy(rng_t *r, long idx) {
    static const int ds_[] = { 4, 5, 7, 8, 10, 11, 13, 20, 21, 1, 22, 0, 26 }; int d = ds_[idx % 13], loc = nse_is_fast(d) ? 2 : 1; (void)loc;
    double L = rr(r, 12, 24), T[2] = { -L / 2, L / 2 }; asig_t s; asig_gen(r, &s, T, rr(r, 2, 7), 0); FOR(k, s.n) s.f[k] *= .4, s.ch[k] *= .4;
    size_t D = 400, M = 1200; cplx *q = h_calloc_c(D), *ab = h_calloc_c(2 * M); asig_sample(&s, D, T, q); double h = L / (double)(D - 1), E = 0; FOR(i, D) E += h * pow(cabs(q[i]), 2);
    double XI[2] = { -.45 * M_PI / h, .45 * M_PI / h }; if (XI[1] > 24 / (L * .045)) XI[1] = 24 / (L * .045), XI[0] = -XI[1]; uint_ K = maxK(D, d); cplx *l = h_calloc_c(K ? K : 1);
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.contspec_type = 1; o.bound_state_localization = 2; o.niter = 60;
    int rc = nse_is_fast(d) ? fnft_nsev((uint_)D, q, T, (uint_)M, ab, XI, &K, l, NULL, 1, &o) : 0;
    if (!nse_is_fast(d)) { fnft_nsev_opts_t o2 = o; o2.discretization = 11; uint_ K2 = maxK(D, 11); cplx *l2 = h_calloc_c(K2); rc = fnft_nsev((uint_)D, q, T, 0, NULL, NULL, &K2, l2, NULL, 1, &o2); h_free(l); l = l2; K = K2; o.bound_state_localization = 1; if (!rc) rc = fnft_nsev((uint_)D, q, T, (uint_)M, ab, XI, &K, l, NULL, 1, &o); }
    char desc[200]; snprintf(desc, sizeof desc, "%s D=%zu L=%.4g gauss n=%d A=%.4g f=%.3g", nse_name[d], D, L, s.n, s.A[0], s.f[0]);
    if (rc) { h_violation("nsev-fails", "rc=%d: %s", rc, desc); goto end; }
    double Ed = 0, Ec = 0, dx = (XI[1] - XI[0]) / (double)(M - 1); FOR(i, K) Ed += 4 * cimag(l[i]);
    { double ma = INFINITY; FOR(i, M) ma = fmin(ma, cabs(ab[i])); if (ma < .2) { h_incon("a nearly vanishes on the real axis: %s", desc); goto end; } }
    FOR(i, M) Ec += dx / M_PI * log1p(pow(cabs(ab[M + i] / ab[i]), 2));
    double err = fabs(Ed + Ec - E) / E; h_max("energy_balance_error", err); h_metric("energy_balances_checked", 1);
    if (!(err <= .02)) h_violation("energy-balance", "4 sum Im = %.6g, continuous part %.6g, energy %.6g (%u eigenvalues): %s", Ed, Ec, E, (unsigned)K, desc);
    h_eval(K > 0, "energy %s", desc);
end: h_free(q); h_free(ab); h_free(l);
}
/* Newton: niter steps are the same as niter times one step; the tolerance ends the iteration, a warning tells that it did not */
static void c12_newton(rng_t *r, long idx) {
    int d = (int)(idx % 28); size_t D = degcap(r, d, 120); dse_t c; dse_gen(r, d, D, &c); double L = c.T[1] - c.T[0];
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.normalization_flag = c.norm; o.bound_state_localization = fnft_nsev_bsloc_NEWTON; o.bound_state_filtering = fnft_nsev_bsfilt_NONE; o.tol = 0;
    enum { N = 8 }; cplx l[N + 1]; int n = ri(r, 2, N), ok = 1; l[0] = rr(r, -4, 4) / L + I * rr(r, .5, 10) / L;
    o.niter = 1; FOR(k, (size_t)n) { ds_t x = run_ds(&o, D, c.q, c.T, l + k, 1, 0); if (x.rc || x.K != 1) ok = 0; else l[k + 1] = x.l[0]; ds_free(&x); if (!ok || !(cabs(l[k + 1]) * L < 40) || !(cimag(l[k + 1]) * L > -2)) { ok = 0; break; } }
    if (!ok) { h_metric("newton_diverged", 1); h_eval(0, "newton %s", dse_desc(&c)); dse_free(&c); return; }
    o.niter = (uint_)n; ds_t x = run_ds(&o, D, c.q, c.T, l, 1, 0);
    if (x.rc || x.K != 1) h_violation("newton-steps-fail", "%d single steps succeed, but niter=%d gives rc=%d K=%u: %s", n, n, x.rc, (unsigned)x.K, dse_desc(&c));
    else { double e = cabs(x.l[0] - l[n]) / (cabs(l[n]) + 1 / L); h_max("newton_steps_difference", e);
        if (!(e <= 1e-9)) { int k = 0; FOR(j, (size_t)n + 1) if (cabs(x.l[0] - l[j]) < cabs(x.l[0] - l[k])) k = (int)j; h_violation("newton-steps", "niter=%d from %g%+gi gives %.12g%+.12gi, but %d times niter=1 gives %.12g%+.12gi (closest: step %d): %s", n, creal(l[0]), cimag(l[0]), creal(x.l[0]), cimag(x.l[0]), n, creal(l[n]), cimag(l[n]), k, dse_desc(&c)); } }
    ds_free(&x);
    /* with a tolerance: one of the iterates */
    int j0 = ri(r, 1, n); o.tol = cabs(l[j0] - l[j0 - 1]) * rlog(r, .3, 3); if (!(o.tol > 1e-10 / L)) o.tol = 1e-10 / L; x = run_ds(&o, D, c.q, c.T, l, 1, 0);
    if (x.rc || x.K != 1) h_violation("newton-tol-fail", "rc=%d K=%u with tol=%g: %s", x.rc, (unsigned)x.K, o.tol, dse_desc(&c));
    else { int k = 0; FOR(j, (size_t)n + 1) if (cabs(x.l[0] - l[j]) < cabs(x.l[0] - l[k])) k = (int)j; double step = k ? cabs(l[k] - l[k - 1]) : 0; int dist = 1; FOR(j, (size_t)n) if (cabs(l[j + 1] - l[j]) < 1e-8 / L) dist = 0;
        if (!(cabs(x.l[0] - l[k]) <= 1e-9 * (cabs(l[k]) + 1 / L))) h_violation("newton-tol", "niter=%d tol=%g: %.12g%+.12gi is none of the Newton iterates: %s", n, o.tol, creal(x.l[0]), cimag(x.l[0]), dse_desc(&c));
        else if (dist && fabs(step / o.tol - 1) > 1e-3) { scat_t base; scat_init(&base, ref_base(d), D, c.q, c.T, 1); double av = k ? cabs(a_of(l[k - 1], &base)) : 1; scat_free(&base); int small = av <= 1.01 * o.tol || c.norm;
            /* stopped early without reason, or went on although the step was below the tolerance */
            if (k < n && step > o.tol && !small) h_violation("newton-stops-early", "niter=%d tol=%g: stopped after %d steps although the last one was %g: %s", n, o.tol, k, step, dse_desc(&c));
            for (int j = 1; j < k; j++) if (cabs(l[j] - l[j - 1]) < o.tol * .999) { h_violation("newton-ignores-tol", "niter=%d tol=%g: went on after step %d of length %g: %s", n, o.tol, j, cabs(l[j] - l[j - 1]), dse_desc(&c)); break; }
            if (step < o.tol && x.nwarn) h_violation("newton-warns", "niter=%d tol=%g: warning (%s) although step %d was %g: %s", n, o.tol, x.warn, k, step, dse_desc(&c));
            if (k == n && step > o.tol && av > 1.01 * o.tol && !c.norm && !x.nwarn) h_violation("newton-silent", "niter=%d tol=%g: no warning although the last step was %g: %s", n, o.tol, step, dse_desc(&c));
            h_metric("newton_tolerances_checked", 1); } }
    ds_free(&x); h_metric("newton_steps_checked", 1); h_eval(1, "newton %s", dse_desc(&c)); dse_free(&c);
}
/* zeros before and after the signal change nothing, even if exp(eta |T|) overflows (normalization on) */
static void c12_wide(rng_t *r, long idx) {
    int d = (int)(idx % 28); double w = rlog(r, .1, 10), m = rr(r, -3, 3) * w, A = rr(r, 1.1, 2.9), v = rr(r, -.3, .3) / w, ph = rr(r, 0, 6.28), h = w * rr(r, .16, .3); size_t n = (size_t)(40 * w / h) | 1;
    double tot = rr(r, 100, 1400) * w / (A - .5); size_t P = (size_t)(tot / h), PL = rb(r, .5) ? P : (size_t)(rr(r, 0, 1) * (double)P), PR = rb(r, .5) ? P : (size_t)(rr(r, 0, 1) * (double)P), D = n + PL + PR; if (rb(r, .3)) { size_t t = PL; PL = PR; PR = t; }
    double T[2] = { m - h * (double)(n - 1) / 2, m + h * (double)(n - 1) / 2 }, TW[2] = { T[0] - h * (double)PL, T[1] + h * (double)PR }; cplx *q = h_calloc_c(n), *qw = h_calloc_c(D);
    FOR(j, n) { double t = T[0] + h * (double)j; q[j] = qw[PL + j] = A / w / cosh((t - m) / w) * cexp(I * (ph - 2 * v * t)); }
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.bound_state_localization = fnft_nsev_bsloc_NEWTON; o.bound_state_filtering = rb(r, .5) ? fnft_nsev_bsfilt_NONE : fnft_nsev_bsfilt_BASIC; o.normalization_flag = 1; o.niter = 60;
    cplx g[3]; size_t K = 0; for (int k = 0; k < 3 && A - .5 - k > .15; k++) g[K++] = v + I * (A - .5 - k) / w * rr(r, .98, 1.02) + .01 * rr(r, -1, 1) / w;
    ds_t x = run_ds(&o, n, q, T, g, K, 0), y = run_ds(&o, D, qw, TW, g, K, 0); int ok = !x.rc && !x.nwarn && x.K == K; char desc[300]; snprintf(desc, sizeof desc, "%s sech A=%g w=%g m=%g v=%g h=%g n=%zu, %zu zeros before and %zu after", nse_name[d], A, w, m, v, h, n, PL, PR);
    if (ok) FOR(i, K) FOR(j, i) if (cabs(x.l[i] - x.l[j]) * w < .1) ok = 0;
    if (ok) { FOR(i, K) if (!(fabs(log(cabs(x.b[i]))) < 300)) ok = 0; }
    if (!ok) h_metric("wide_window_references_unusable", 1);
    else if (y.rc || y.K != K) h_violation("wide-window-fail", "rc=%d K=%u, but %zu bound states without the zeros: %s", y.rc, (unsigned)y.K, K, desc);
    else { FOR(i, K) { double el = cabs(x.l[i] - y.l[i]) * w, eb = cabs(y.b[i] / x.b[i] - 1), er = cabs(y.r[i] / x.r[i] - 1); h_max("wide_lambda", el); h_max("wide_b", eb); h_max("wide_residue", er); h_max("wide_exponent", cimag(x.l[i]) * fmax(fabs(TW[0]), fabs(TW[1])));
            double ts = 1 + cabs(x.l[i]) * (fabs(TW[0]) + fabs(TW[1])); /* phases */
            if (!(el <= 1e-8) || y.nwarn) { h_violation("wide-window-lambda", "bound state %zu at %.10g%+.10gi, without the zeros %.10g%+.10gi: %s", i, creal(y.l[i]), cimag(y.l[i]), creal(x.l[i]), cimag(x.l[i]), desc); break; }
            if (!(eb <= 1e-7 + 1e-12 * ts) || !(er <= 1e-7 + 1e-12 * ts)) { h_violation("wide-window-normconst", "norming constant %g%+gi, residue %g%+gi; without the zeros %g%+gi, %g%+gi: %s", creal(y.b[i]), cimag(y.b[i]), creal(y.r[i]), cimag(y.r[i]), creal(x.b[i]), cimag(x.b[i]), creal(x.r[i]), cimag(x.r[i]), desc); break; } }
        h_metric("wide_windows", 1); }
    h_eval(ok, "%s", desc); ds_free(&x); ds_free(&y); h_free(q); h_free(qw);
}
/* a rectangle that covers a single sample, closed form; zero everywhere else */
static void c12_single(rng_t *r, long idx) {
    int d; do d = (int)(idx++ % 28); while (nse_ups[d] != 1); size_t D = (size_t)ri(r, 2, 90), p = rb(r, .3) ? 0 : rb(r, .4) ? D - 1 : (size_t)ri(r, 0, (int)D - 1); double h = rlog(r, .05, 2), u = rr(r, 1.75, 4.4), A = u / h, T[2]; cplx *q = h_calloc_c(D), ph = cexp(I * rr(r, -3, 3));
    T[0] = rr(r, -1, 0) * h * (double)(D - 1); T[1] = T[0] + h * (double)(D - 1); q[p] = A * ph; double t0 = T[0] + h * (double)p, lo = 0, hi = A;
    for (int it = 0; it < 200; it++) { double e = (lo + hi) / 2, k = sqrt(A * A - e * e); if (cos(k * h) + e * sin(k * h) / k > 0) hi = e; else lo = e; }
    double eta = (lo + hi) / 2, k = sqrt(A * A - eta * eta), sn = sin(k * h), cs = cos(k * h); cplx l = I * eta, b = -conj(q[p]) * sn / k * exp(2 * eta * t0), ap = cexp(I * l * h) * (-h * l / k * sn - I * sn / k - I * l * l / k * (h * cs / k - sn / (k * k)));
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.bound_state_localization = fnft_nsev_bsloc_NEWTON; o.bound_state_filtering = fnft_nsev_bsfilt_BASIC; o.normalization_flag = rb(r, .5); o.niter = 60; o.tol = 1e-14 / h; cplx g = l * rr(r, .97, 1.03) + .02 * rr(r, -1, 1) * eta;
    char desc[200]; snprintf(desc, sizeof desc, "%s D=%zu T=[%.6g,%.6g] norm=%d, the only non-zero sample is %zu, %g%+gi", nse_name[d], D, T[0], T[1], (int)o.normalization_flag, p, creal(q[p]), cimag(q[p]));
    if (!(fabs(eta * T[0]) < 300 && fabs(eta * T[1]) < 300) || eta * h < .05) { h_eval(0, "%s", desc); h_free(q); return; }
    ds_t x = run_ds(&o, D, q, T, &g, 1, 0); h_metric("single_sample_signals", 1);
    if (x.rc || x.K != 1) h_violation("single-sample-fail", "rc=%d K=%u: %s", x.rc, (unsigned)x.K, desc);
    else { double el = cabs(x.l[0] - l) * h, eb = cabs(x.b[0] / b - 1), er = cabs(x.r[0] / (b / ap) - 1), tb = 1e-7 + 1e-9 * eta * (fabs(T[0]) + fabs(T[1])); h_max("single_lambda", el); h_max("single_b", eb); h_max("single_residue", er);
        if (!(el <= 1e-8)) h_violation("single-sample-lambda", "bound state %.10g%+.10gi, exact %.10gi: %s", creal(x.l[0]), cimag(x.l[0]), eta, desc);
        else if (!(eb <= tb) || !(er <= tb)) h_violation("single-sample-normconst", "norming constant %.8g%+.8gi, exact %.8g%+.8gi, residue %.8g%+.8gi, exact %.8g%+.8gi at %.8gi: %s", creal(x.b[0]), cimag(x.b[0]), creal(b), cimag(b), creal(x.r[0]), cimag(x.r[0]), creal(b / ap), cimag(b / ap), eta, desc); }
    h_eval(1, "%s", desc); ds_free(&x); h_free(q);
}
static uint_ run_bs(const fnft_nsev_opts_t *o, size_t D, const cplx *q, const double *T, int kappa, uint_ cap, cplx *l, int *rc);
/* two equal pulses at a distance: a pair of eigenvalues that are close to each other, but not the same */
static void c12_pair(rng_t *r, long idx) {
    int fast = rb(r, .4), d; do d = (int)(idx++ % 28); while (fast && !(nse_is_fast(d) && nse_deg[d] * nse_ups[d] <= 2)); double w = rlog(r, .2, 5), A = rr(r, fast ? 1.1 : .9, 1.45), eta = A - .5, dl = rlog(r, 1e-5, 1e-3), h = w * rr(r, .15, .25), S = w * log(4 * eta / dl) / eta, e = 18 * w / eta;
    size_t nS = (size_t)(S / h), D = nS + 2 * (size_t)(e / h) + 1; double T[2]; T[0] = rr(r, -.7, -.3) * h * (double)(D - 1); T[1] = T[0] + h * (double)(D - 1); cplx *q = h_calloc_c(D), ph = cexp(I * rr(r, -3, 3)), ph2 = rb(r, .5) ? ph : rb(r, .5) ? -ph : ph * cexp(I * rr(r, -3, 3)); double v = rr(r, -.4, .4) / w, t1 = h * (double)(size_t)(e / h), t2 = t1 + h * (double)nS;
    FOR(j, D) { double t = h * (double)j; q[j] = A / w * (ph / cosh((t - t1) / w) + ph2 / cosh((t - t2) / w)) * cexp(-2 * I * v * t); }
    char desc[260]; snprintf(desc, sizeof desc, "%s%s D=%zu T=[%.6g,%.6g] two pulses A=%.5g w=%.5g v=%.4g distance %zu samples", fast ? "fast " : "", nse_name[d], D, T[0], T[1], A, w, v, nS);
    scat_t z; scat_init(&z, fast ? d : ref_base(d), D, q, T, 1); cplx zr[2] = { 0, 0 }; int ok = 1; fnft_nsev_opts_t o = fnft_nsev_default_opts();
    for (int k = 0; k < 2 && ok; k++) { /* secant method with deflation */
        cplx l0 = v + I * eta / w * (1 + .003 * (k + 1)) + 2 * dl / w, l1 = v + I * eta / w, f0, f1; f0 = a_of(l0, &z); if (k) f0 /= l0 - zr[0]; ok = 0;
        for (int it = 0; it < 80; it++) { f1 = a_of(l1, &z); if (k) f1 /= l1 - zr[0]; if (f1 == f0 || f1 == 0) { ok = f1 == 0 || cabs(l1 - l0) * w < 1e-11; break; } cplx s = f1 * (l1 - l0) / (f1 - f0); if (!(cabs(s) * w < .05)) s *= .05 / (cabs(s) * w); l0 = l1; f0 = f1; l1 -= s; if (cabs(s) * w < 1e-14) { ok = 1; break; } if (it > 70 && cabs(s) * w < 1e-10) ok = 1; }
        zr[k] = l1; }
    double dist = cabs(zr[0] - zr[1]) * w; if (!ok || !(dist > (fast ? 2e-5 : 3e-6)) || !(dist < 5e-3) || !(fabs(cimag(zr[0]) * w - eta) < .3)) { h_metric("pairs_unusable", 1); h_eval(0, "%s", desc); goto end; }
    h_max("pair_distance_inverse", 1 / dist); h_metric("pairs", 1);
    o.discretization = d; o.normalization_flag = rb(r, .5); o.bound_state_filtering = rb(r, .5) ? fnft_nsev_bsfilt_BASIC : fnft_nsev_bsfilt_FULL; o.niter = 200; o.bound_state_localization = fast ? fnft_nsev_bsloc_FAST_EIGENVALUE : fnft_nsev_bsloc_NEWTON;
    { size_t cap = fast ? (size_t)(nse_deg[d] * nse_ups[d]) * D : 2; cplx *g = h_calloc_c(cap); if (!fast) { o.tol = 1e-12 / w; g[0] = zr[0] + dist / w * .1 * cexp(I * rr(r, -3, 3)); g[1] = zr[1] + dist / w * .1 * cexp(I * rr(r, -3, 3)); }
        int rc; uint_ K = run_bs(&o, D, q, T, 1, (uint_)cap, g, &rc); int hit[2] = { 0, 0 }; FOR(i, K) FOR(k, 2) if (cabs(g[i] - zr[k]) * w < .3 * dist) hit[k]++;
        double e0 = INFINITY; FOR(i, K) FOR(k, 2) e0 = fmin(e0, cabs(g[i] - zr[k]) * w); if (hit[0] == 1 && hit[1] == 1) { double e1 = 0; FOR(i, K) FOR(k, 2) if (cabs(g[i] - zr[k]) * w < .3 * dist) e1 = fmax(e1, cabs(g[i] - zr[k]) * w * dist); h_max(fast ? "pair_error_fast" : "pair_error_newton", e1); }
        if (rc || hit[0] != 1 || hit[1] != 1) h_violation("close-pair", "zeros %.12g%+.12gi and %.12g%+.12gi (distance %.3g), found %d and %d times (rc=%d, K=%u, closest %.3g): %s", creal(zr[0]), cimag(zr[0]), creal(zr[1]), cimag(zr[1]), dist / w, hit[0], hit[1], rc, (unsigned)K, e0 / w, desc);
        h_free(g); }
    h_eval(1, "%s", desc);
end: scat_free(&z); h_free(q);
}
void c12(long idx) {
    rng_t r = rng_make(h_seed, 12, (uint64_t)idx); int k = (int)(idx % 10);
    if (k == 8 && idx / 10 % 3 == 1) { c12_wide(&r, idx / 30); return; }
    if (k == 8 && idx / 10 % 3 == 2) { c12_newton(&r, idx / 30); return; }
    if (k == 9 && idx / 10 % 4 == 3) { c12_pair(&r, idx / 40); return; }
    if (k == 9 && idx / 10 % 4 == 1) { c12_single(&r, idx / 40); return; }
    if (k == 8) c12_sech(&r, idx / 10); else if (k == 9) c12_energy(&r, idx / 10); else c12_zeros(&r, idx / 10 * 8 + k);
}

/* ---------------- C11, discrete part ---------------- */
/* compares the eigenvalues (and norming constants, residues) of the transformed signal with the transformed ones */
static void sym_check(const dse_t *c, const char *name, int what, const ds_t *x, const ds_t *y, const cplx *l, const cplx *b, const cplx *res, const char *more) {
    double L = c->T[1] - c->T[0]; char sig[96], n[96]; snprintf(n, sizeof n, "checked_disc_%s", name); h_metric(n, 1);
    if (y->rc) { snprintf(sig, sizeof sig, "disc-%s-fails", name); h_violation(sig, "rc=%d after the transformation (%s), 0 before: %s", y->rc, more, dse_desc(c)); return; }
    if (y->nwarn || x->nwarn) return;
    FOR(i, x->K) {
        cplx t = l[i]; double cond = 1 / cabs(x->b[i] / x->r[i] * (cabs(x->l[i]) + 1 / L)); /* 1/|a' lambda| */
        if (cimag(x->l[i]) < .05 / L || !(cond < 30) || !(cabs(x->l[i]) < 40 / L)) continue; /* borderline or ill-conditioned */
        { double iso = INFINITY; FOR(j, x->K) if (j != i) iso = fmin(iso, cabs(x->l[j] - x->l[i])); if (iso < 1e-3 / L) continue; }
        double m = INFINITY; size_t k = 0; FOR(j, y->K) if (cabs(y->l[j] - t) < m) m = cabs(y->l[j] - t), k = j;
        double tol = 2e-9 * (1 + cond) * (what == 0 && nse_deg[c->d] >= 8 ? 100 : 1), e = m / (1 / L + cabs(t)); snprintf(n, sizeof n, "disc_lambda_error_over_tolerance_%s", name); h_max(n, e / tol); h_metric("eigenvalues_compared", 1);
        if (!(e <= tol)) { snprintf(sig, sizeof sig, "disc-%s-eigenvalue-%s", name, nse_name[c->d]); h_violation(sig, "no eigenvalue at %.10g%+.10gi (image of %.10g%+.10gi), closest differs by %.3g (%u, %u eigenvalues; %s): loc=%d %s", creal(t), cimag(t), creal(x->l[i]), cimag(x->l[i]), m, (unsigned)x->K, (unsigned)y->K, more, what, dse_desc(c)); return; }
        if (what == 0) continue; /* norming constants at inexact eigenvalues depend on the matching point */
        if (cimag(x->l[i]) * L > 25) continue;
        double tb = 1e-8 * (1 + cond), eb = cabs(y->b[k] / b[i] - 1), er = cabs(y->r[k] / res[i] - 1); snprintf(n, sizeof n, "disc_b_error_over_tolerance_%s", name); h_max(n, fmax(eb, er) / tb); h_metric("norming_constants_compared", 1);
        if (!(eb <= tb)) { snprintf(sig, sizeof sig, "disc-%s-normconst-%s", name, nse_name[c->d]); h_violation(sig, "norming constant at %.8g%+.8gi is %.8g%+.8gi, expected %.8g%+.8gi (%s): loc=%d %s", creal(t), cimag(t), creal(y->b[k]), cimag(y->b[k]), creal(b[i]), cimag(b[i]), more, what, dse_desc(c)); return; }
        if (!(er <= tb)) { snprintf(sig, sizeof sig, "disc-%s-residue-%s", name, nse_name[c->d]); h_violation(sig, "residue at %.8g%+.8gi is %.8g%+.8gi, expected %.8g%+.8gi (%s): loc=%d %s", creal(t), cimag(t), creal(y->r[k]), cimag(y->r[k]), creal(res[i]), cimag(res[i]), more, what, dse_desc(c)); return; }
    }
}
static const char dpal[28] = { 1,1,0,0,1,1,1,0,0,1,1,1,0,0,1,1,0,0,1,1,1,1,1,1,0,0,1,1 };
void c11_disc(rng_t *r, long idx) {
    int d = (int)(idx % 28), what = nse_is_fast(d) ? (int)(idx / 28 % 3) : 1; if ((d == 16 || d == 17) && idx % 5) what = 1;
    size_t D = degcap(r, d, 260) | 1; /* odd: no Nyquist frequency in the interpolation */
    if (what != 0 && D < 60) D = 61;
    dse_t c; dse_gen(r, d, D, &c); double L = c.T[1] - c.T[0]; char more[100];
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.normalization_flag = c.norm; o.niter = 200; o.bound_state_localization = what; o.bound_state_filtering = 2;
    if (what == 2) o.Dsub = nse_deg[d] * nse_ups[d] > 6 ? 40 : (uint_)D;
    cplx g[8], gg[8], tl[300], tb[300], tr[300]; size_t ng = 0; ds_t x, y; cplx *q = h_calloc_c(D); double T[2] = { c.T[0], c.T[1] };
    if (what == 1) { ng = (size_t)ri(r, 1, 3); FOR(i, ng) g[i] = rr(r, -3, 3) / L + I * rr(r, 1, 8) / L; o.bound_state_filtering = 3; o.bounding_box[0] = -30 / L; o.bounding_box[1] = 30 / L; o.bounding_box[2] = .03 / L; o.bounding_box[3] = 60 / L;
        x = run_ds(&o, D, c.q, c.T, g, ng, 0); if (!x.rc) { ng = x.K < 8 ? x.K : 8; memcpy(g, x.l, ng * sizeof *g); ds_free(&x); } else { h_incon("rc=%d", x.rc); ds_free(&x); goto end0; }
        /* restart from the zeros that were found, slightly disturbed */
        if (ng == 0) { h_eval(0, "none %s", dse_desc(&c)); goto end0; }
        FOR(i, ng) g[i] += .01 * fmin(cimag(g[i]), 1 / L) * cexp(I * rr(r, 0, 6)); }
    x = run_ds(&o, D, c.q, c.T, g, ng, 0);
    if (x.rc || x.K > 300) { if (x.rc) h_violation("nsev-fails", "rc=%d (%s): loc=%d %s", x.rc, msgs.first, what, dse_desc(&c)); goto end; }
    if (x.nwarn) { h_metric("newton_warned", 1); h_eval(0, "w %s", dse_desc(&c)); goto end; }
    { double ph = rr(r, 0, 6.28); FOR(i, D) q[i] = c.q[i] * cexp(I * ph); FOR(i, x.K) tl[i] = x.l[i], tb[i] = x.b[i] * cexp(-I * ph), tr[i] = x.r[i] * cexp(-I * ph);
      y = run_ds(&o, D, q, c.T, g, ng, 0); snprintf(more, sizeof more, "phase %g", ph); sym_check(&c, "phase", what, &x, &y, tl, tb, tr, more); ds_free(&y); }
    { double s = rr(r, -4, 4); T[0] = c.T[0] + s; T[1] = c.T[1] + s; FOR(i, x.K) { cplx f = cexp(-2 * I * x.l[i] * s); tl[i] = x.l[i]; tb[i] = x.b[i] * f; tr[i] = x.r[i] * f; }
      y = run_ds(&o, D, c.q, T, g, ng, 0); snprintf(more, sizeof more, "window moved by %g", s); sym_check(&c, "timeshift", what, &x, &y, tl, tb, tr, more); ds_free(&y); }
    { double s = rlog(r, .2, 5); T[0] = c.T[0] / s; T[1] = c.T[1] / s; FOR(i, D) q[i] = s * c.q[i]; FOR(i, x.K) tl[i] = x.l[i] * s, tb[i] = x.b[i], tr[i] = x.r[i] * s; FOR(i, ng) gg[i] = g[i] * s;
      fnft_nsev_opts_t o2 = o; FOR(i, 4) o2.bounding_box[i] *= s; y = run_ds(&o2, D, q, T, gg, ng, 0); snprintf(more, sizeof more, "scaled by %g", s); sym_check(&c, "scaling", what, &x, &y, tl, tb, tr, more); ds_free(&y); }
    if (d != 24 && d != 25) { FOR(i, D) q[i] = conj(c.q[i]); FOR(i, x.K) tl[i] = -conj(x.l[i]), tb[i] = conj(x.b[i]), tr[i] = -conj(x.r[i]); FOR(i, ng) gg[i] = -conj(g[i]);
      y = run_ds(&o, D, q, c.T, gg, ng, 0); sym_check(&c, "conjugation", what, &x, &y, tl, tb, tr, "conjugated"); ds_free(&y); }
    if (dpal[d] && !(what == 2 && o.Dsub != D)) { T[0] = -c.T[1]; T[1] = -c.T[0]; FOR(i, D) q[i] = conj(c.q[D - 1 - i]); FOR(i, x.K) { tl[i] = x.l[i]; tb[i] = 1 / x.b[i]; tr[i] = 1 / x.b[i] * x.r[i] / x.b[i]; }
      y = run_ds(&o, D, q, T, g, ng, 0); sym_check(&c, "timereversal", what, &x, &y, tl, tb, tr, "reversed"); ds_free(&y); }
    h_eval(x.K > 0, "disc %d %s", what, dse_desc(&c)); if (idx < 4) h_sample("disc loc=%d K=%u %s", what, (unsigned)x.K, dse_desc(&c));
end: ds_free(&x);
end0: h_free(q); dse_free(&c);
}

/* ---------------- C13 ---------------- */
static int in_list(const cplx *l, size_t K, cplx v, double tol) { FOR(i, K) if (cabs(l[i] - v) <= tol * (1 + cabs(v))) return 1; return 0; }
static uint_ run_bs(const fnft_nsev_opts_t *o, size_t D, const cplx *q, const double *T, int kappa, uint_ cap, cplx *l, int *rc) {
    uint_ K = cap; fnft_nsev_opts_t o2 = *o; msgs_reset(); *rc = fnft_nsev((uint_)D, (cplx *)q, (double *)T, 0, NULL, NULL, &K, l, NULL, kappa, &o2); return K; }
void c13(long idx) {
    rng_t rs = rng_make(h_seed, 13, (uint64_t)idx), *r = &rs; int d = (int)(idx % 28), what = nse_is_fast(d) ? (idx / 28 % 2 ? 2 : 0) : 1; if (nse_is_fast(d) && idx / 56 % 4 == 3) what = 1;
    size_t D = degcap(r, d, 260); dse_t c; dse_gen(r, d, D, &c); double L = c.T[1] - c.T[0]; uint_ mk = maxK(D, d); if (!nse_is_fast(d)) mk = 12;
    cplx *g = h_calloc_c(mk + 8), *all = h_calloc_c(mk + 8), *l = h_calloc_c(mk + 8), *m = h_calloc_c(mk + 8); int rc; char sig[80]; static const char *fn[] = { "none", "basic", "full", "manual" };
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.normalization_flag = c.norm; o.niter = 100; o.bound_state_localization = what;
    uint_ cap = mk; if (what == 1) { cap = (uint_)ri(r, 1, 10); FOR(i, cap) g[i] = rr(r, -6, 6) / L + I * rr(r, -2, 12) / L; if (cap > 2 && rb(r, .4)) g[1] = g[0]; o.niter = (uint_)(rb(r, .15) ? 0 : rb(r, .3) ? ri(r, 1, 8) : 200); }
    if (what == 2) o.Dsub = (uint_)ri(r, (int)D / 2, (int)D);
    double l2 = 0; { int u = nse_ups[d]; cplx *qp = h_calloc_c(D * (size_t)u), *rp = h_calloc_c(D * (size_t)u); ref_preprocess(d, D, c.q, 1, c.h, qp, rp); size_t n = d >= 26 ? D : D * (size_t)u; FOR(i, n) l2 += pow(cabs(qp[d >= 26 ? 3 * i : i]), 2) * L * (1 + 1 / ((double)D - 1)) / (double)n; h_free(qp); h_free(rp); }
    double box[4][4] = { { -INFINITY, INFINITY, -INFINITY, INFINITY }, { -INFINITY, INFINITY, 0, INFINITY }, { -rebound(d, c.h), rebound(d, c.h), 0, 1.5 * .25 * l2 }, { 0, 0, 0, 0 } };
    { double x = rr(r, -10, 5) / L, y = rr(r, -6, 6) / L; box[3][0] = x; box[3][1] = x + rr(r, .5, 15) / L; box[3][2] = y; box[3][3] = y + rr(r, .5, 12) / L; }
    /* the unfiltered result */
    o.bound_state_filtering = 0; memcpy(all, g, cap * sizeof *g); uint_ Ka = run_bs(&o, D, c.q, c.T, 1, cap, all, &rc); size_t deg = what == 1 ? cap : (size_t)(nse_deg[d] * nse_ups[d]) * D;
    if (rc) { h_violation("nsev-fails", "rc=%d (%s) without filter: %s", rc, msgs.first, dse_desc(&c)); goto end; }
    if (what == 0 && (Ka != deg || mk != deg)) h_violation("unfiltered-count", "%u values without filter, degree %zu, max_K %u: %s", (unsigned)Ka, deg, (unsigned)mk, dse_desc(&c));
    if (what == 1 && Ka != cap) h_violation("unfiltered-count", "%u values without filter from %u guesses: %s", (unsigned)Ka, (unsigned)cap, dse_desc(&c));
    if (what == 1 && o.niter == 0 && memcmp(all, g, cap * sizeof *g)) h_violation("guesses-changed", "niter=0 without filter does not return the guesses: %s", dse_desc(&c));
    h_metric("unfiltered_values", (double)Ka);
    for (int f = 1; f < 4; f++) {
        double *b = box[f]; o.bound_state_filtering = f; for (int k = 0; k < 4; k++) o.bounding_box[k] = f == 3 ? b[k] : NAN; memcpy(l, g, cap * sizeof *g);
        uint_ K = run_bs(&o, D, c.q, c.T, 1, cap, l, &rc); h_metric("filtered_results_checked", 1);
        if (rc) { snprintf(sig, sizeof sig, "fails-%s", fn[f]); h_violation(sig, "rc=%d (%s): %s", rc, msgs.first, dse_desc(&c)); continue; }
        double e = f == 2 ? 1e-9 : 0;
        FOR(i, K) { cplx v = l[i]; if (!(creal(v) >= (e > 0 ? b[0] * (1 + e) : b[0]) && creal(v) <= (e > 0 ? b[1] * (1 + e) : b[1]) && cimag(v) >= b[2] && cimag(v) <= (e > 0 ? b[3] * (1 + e) : b[3]))) { snprintf(sig, sizeof sig, "outside-%s", fn[f]); h_violation(sig, "value %zu of %u = %.10g%+.10gi is outside [%g,%g]x[%g,%g]: loc=%d %s", i, (unsigned)K, creal(v), cimag(v), b[0], b[1], b[2], b[3], what, dse_desc(&c)); break; } }
        { double md = mindist(l, K); if (md < 1.4e-8) { snprintf(sig, sizeof sig, "not-merged-%s", fn[f]); h_violation(sig, "two of %u values are %.3g apart: loc=%d %s", (unsigned)K, md, what, dse_desc(&c)); } }
        /* against the unfiltered values: nothing else, nothing dropped (Newton stops at the box, subsampling filters twice: only the first) */
        if (what == 0 || (what == 1 && o.niter == 0)) {
            FOR(i, K) if (!in_list(all, Ka, l[i], 1e-12)) { snprintf(sig, sizeof sig, "invented-%s", fn[f]); h_violation(sig, "%.10g%+.10gi is not among the %u unfiltered values: loc=%d %s", creal(l[i]), cimag(l[i]), (unsigned)Ka, what, dse_desc(&c)); break; }
            FOR(i, Ka) { cplx v = all[i]; double t = 1e-7 * (1 + cabs(v)); if (!(creal(v) >= b[0] + t && creal(v) <= b[1] - t && cimag(v) >= b[2] + t && cimag(v) <= b[3] - t - 1e-9 * fabs(b[3]))) continue;
                h_metric("inside_values_searched", 1);
                if (!in_list(l, K, v, 1e-12)) { int near = 0; FOR(j, K) if (cabs(l[j] - v) < 2e-8) near = 1; if (!near) { snprintf(sig, sizeof sig, "dropped-%s", fn[f]); h_violation(sig, "%.10g%+.10gi lies inside [%g,%g]x[%g,%g] but is not returned (%u of %u values): loc=%d %s", creal(v), cimag(v), b[0], b[1], b[2], b[3], (unsigned)K, (unsigned)Ka, what, dse_desc(&c)); break; } } }
        } else if (what == 1 && o.niter > 100) { /* every zero reached inside the box from a guess whose iterations stay inside is kept: guesses at the zeros */
            uint_ Kz = 0; FOR(i, Ka) { cplx v = all[i]; if (!(cabs(v) < 1e3 / L)) continue; if (creal(v) > b[0] + 1e-3 / L && creal(v) < b[1] - 1e-3 / L && cimag(v) > b[2] + 1e-3 / L && cimag(v) < b[3] - 1e-3 / L) m[Kz++] = v; }
            scat_t z; scat_init(&z, ref_base(d), D, c.q, c.T, 1); uint_ Kg = 0; FOR(i, Kz) { cplx a, bb; scat_ab(&z, m[i], &a, &bb); cplx da = ref_nse_da(&z, m[i]); if (cabs(a / da) < 1e-10 / L) m[Kg++] = m[i]; } scat_free(&z);
            if (Kg) { cplx keep[16]; memcpy(keep, m, Kg * sizeof *m); uint_ K3 = run_bs(&o, D, c.q, c.T, 1, Kg, m, &rc); h_metric("newton_restarts", 1);
                FOR(i, Kg) if (!in_list(m, K3, keep[i], 1e-6)) { snprintf(sig, sizeof sig, "newton-dropped-%s", fn[f]); h_violation(sig, "zero %.10g%+.10gi inside [%g,%g]x[%g,%g] given as guess is not returned (%u of %u, rc=%d): %s", creal(keep[i]), cimag(keep[i]), b[0], b[1], b[2], b[3], (unsigned)K3, (unsigned)Kg, rc, dse_desc(&c)); break; } }
        }
        if (what == 2 && f == 2 && o.niter) { /* two-step method = fast method on the subsampled signal followed by Newton from there */
            o.Dsub = (uint_)D; memcpy(l, g, cap * sizeof *g); uint_ K2 = run_bs(&o, D, c.q, c.T, 1, cap, l, &rc); int rc2, rc3; fnft_nsev_opts_t o1 = o; o1.bound_state_localization = 0; uint_ K4 = run_bs(&o1, D, c.q, c.T, 1, mk, m, &rc2); o1.bound_state_localization = 1; uint_ K5 = run_bs(&o1, D, c.q, c.T, 1, K4, m, &rc3); h_metric("two_step_comparisons", 1);
            int bad = rc || rc2 || rc3 || K2 != K5; if (!bad) FOR(i, K2) if (!in_list(m, K5, l[i], 1e-9)) bad = 1;
            if (bad) h_violation("two-step", "SUBSAMPLE_AND_REFINE with Dsub=D returns %u values (rc=%d), FAST_EIGENVALUE + NEWTON %u -> %u (rc=%d,%d): %s", (unsigned)K2, rc, (unsigned)K4, (unsigned)K5, rc2, rc3, dse_desc(&c)); K = K2; }
        /* capacity */
        if (what == 0) {
            uint_ c2 = K ? (uint_)ri(r, 0, (int)K + 1) : (uint_)ri(r, 0, 2); if (rb(r, .3)) c2 = K; if (rb(r, .2)) c2 = K ? K - 1 : 0;
            FOR(i, mk + 8) m[i] = 77 + 77 * I; uint_ K2 = run_bs(&o, D, c.q, c.T, 1, c2, m, &rc); uint_ want = c2 < K ? c2 : K; h_metric("capacities_checked", 1); if (c2 < K) h_metric("capacities_too_small", 1);
            int bad = rc || K2 != want; if (!bad) FOR(i, K2) if (!in_list(l, K, m[i], 1e-12)) bad = 2; if (!bad && mindist(m, K2) == 0) bad = 3; for (size_t i = c2; i < mk + 8; i++) if (m[i] != 77 + 77 * I) bad = 4;
            if (bad) { snprintf(sig, sizeof sig, "capacity-%d", bad); h_violation(sig, "capacity %u, %u values exist, %u returned (rc=%d): filter %s %s", (unsigned)c2, (unsigned)K, (unsigned)K2, rc, fn[f], dse_desc(&c)); }
            if ((c2 < K) != (msgs.nwarn > 0)) h_violation("capacity-warning", "capacity %u, %u values, %ld warnings (%s): filter %s %s", (unsigned)c2, (unsigned)K, msgs.nwarn, msgs.lastwarn, fn[f], dse_desc(&c));
        }
    }
    if (what == 0 || (what == 1 && o.niter == 0)) { /* the edges belong to the box */
        o.bound_state_filtering = 3; for (int t = 0; t < 3 && Ka; t++) { cplx u = all[ri(r, 0, (int)Ka - 1)], v = all[ri(r, 0, (int)Ka - 1)]; if (!(cabs(u) < 1e6) || !(cabs(v) < 1e6)) continue;
            double *b = o.bounding_box; b[0] = fmin(creal(u), creal(v)); b[1] = fmax(creal(u), creal(v)); b[2] = fmin(cimag(u), cimag(v)); b[3] = fmax(cimag(u), cimag(v)); memcpy(l, g, cap * sizeof *g); uint_ K = run_bs(&o, D, c.q, c.T, 1, cap, l, &rc); h_metric("exact_edges_checked", 1);
            if (rc) { h_violation("fails-edge", "rc=%d (%s): %s", rc, msgs.first, dse_desc(&c)); break; }
            int bad = 0; for (int e = 0; e < 2; e++) { cplx w = e ? v : u; int near = 0; FOR(i, K) if (cabs(l[i] - w) < 2e-8) near = 1; if (!near) bad = 1; }
            if (bad) { h_violation("edge-dropped", "%.17g%+.17gi and %.17g%+.17gi, corners of the box, are not both returned (%u values): loc=%d %s", creal(u), cimag(u), creal(v), cimag(v), (unsigned)K, what, dse_desc(&c)); break; } } }
    /* omitted array, defocusing sign */
    { fnft_nsev_opts_t o2 = fnft_nsev_default_opts(); o2.discretization = d; uint_ K = 5; cplx cs[3]; double XI[2] = { -1, 1 }; int k1 = fnft_nsev((uint_)D, c.q, c.T, 3, cs, XI, &K, NULL, NULL, 1, &o2);
      uint_ K2 = 5; FOR(i, 8) m[i] = 77; int k2 = fnft_nsev((uint_)D, c.q, c.T, 3, cs, XI, &K2, m, NULL, -1, &o2); h_metric("omissions_checked", 1);
      if (k1 || K) h_violation("omitted", "rc=%d, K=%u without an array: %s", k1, (unsigned)K, dse_desc(&c));
      if (k2 || K2) h_violation("defocusing", "rc=%d, K=%u for kappa=-1: %s", k2, (unsigned)K2, dse_desc(&c)); FOR(i, 8) if (m[i] != 77) { h_violation("defocusing-writes", "entry %zu written for kappa=-1: %s", i, dse_desc(&c)); break; } }
    h_eval(Ka > 0, "%d %s", what, dse_desc(&c)); if (idx < 6) h_sample("loc=%d unfiltered %u: %s", what, (unsigned)Ka, dse_desc(&c));
end: h_free(g); h_free(all); h_free(l); h_free(m); dse_free(&c);
}
