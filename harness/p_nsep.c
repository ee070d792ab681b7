/* C19, C20: NSE with (quasi-)periodic boundary conditions */
#include "pc.h"
typedef struct { int d, kappa, norm; size_t D; double T[2], L, h, phase, sh, amp; cplx *q; scat_t base, own; char sig[80]; } pe_t;
static const char *pe_desc(const pe_t *c) { static __thread char b[400]; snprintf(b, sizeof b, "%s kappa=%d D=%zu T=[%.6g,%.6g] phase=%.5g norm=%d q=%s", nse_name[c->d], c->kappa, c->D, c->T[0], c->T[1], c->phase, c->norm, c->sig); return b; }
/* matrices of the periodic problem: scat_t with step L/D for the signal without its phase rotation */
static void ps_init(scat_t *s, int d, const pe_t *c) {
    size_t D = c->D, n = D * (size_t)nse_ups[d]; cplx *q = h_malloc(D * sizeof *q); FOR(i, D) q[i] = c->q[i] * cexp(2 * I * c->sh * (c->T[0] + c->h * (double)i));
    *s = (scat_t){ d, c->kappa, D, h_malloc(n * sizeof(cplx)), h_malloc(n * sizeof(cplx)), { c->T[0], c->T[1] }, c->h, 0, 0 }; ref_preprocess(d, D, q, c->kappa, c->h, s->qp, s->rp); h_free(q);
}
static void pe_init(pe_t *c) { c->sh = c->phase / (-2 * c->L); c->h = c->L / (double)c->D; ps_init(&c->base, ref_base(c->d), c); ps_init(&c->own, c->d, c); }
static void pe_free(pe_t *c) { scat_free(&c->base); scat_free(&c->own); h_free(c->q); }
static size_t pdim(rng_t *r, int d, size_t maxdeg, size_t maxD) { int g = (nse_is_fast(d) ? nse_deg[d] : 1) * nse_ups[d]; size_t D = 4; while (D * 2 * (size_t)g <= maxdeg && D * 2 <= maxD) D *= 2; if (D > 8 && rb(r, .5)) D /= 2; return D; }
/* a smooth signal of period L, times a phase rotation */
static void pe_gen(rng_t *r, pe_t *c, int d, size_t D) {
    memset(c, 0, sizeof *c); c->d = d; c->kappa = rb(r, .6) ? 1 : -1; c->norm = rb(r, .6); c->D = D; c->L = rlog(r, .8, 12); c->T[0] = rb(r, .3) ? 0 : rr(r, -3, 3) * c->L; c->T[1] = c->T[0] + c->L; c->h = c->L / (double)D; c->q = h_calloc_c(D);
    c->phase = rb(r, .5) ? 0 : rr(r, -6, 6); int nh = D < 16 ? 1 : D < 64 ? 2 : 3, k0 = rb(r, .3) ? ri(r, -1, 1) : 0; cplx co[9]; double tot = 0, a = rr(r, .3, D < 16 ? 2 : D < 64 ? 4 : 6); int real = rb(r, .2);
    for (int k = 0; k < 2 * nh + 1; k++) { co[k] = rc(r) * exp(-.8 * abs(k - nh)) * (real ? 0 : 1); if (real) co[k] = k < nh ? conj(co[2 * nh - k]) : 0; tot += cabs(co[k]); } if (real) { for (int k = 0; k < nh; k++) { co[nh + 1 + k] = rc(r) * .3; co[nh - 1 - k] = conj(co[nh + 1 + k]); } co[nh] = rr(r, -1, 1); tot = 0; for (int k = 0; k < 2 * nh + 1; k++) tot += cabs(co[k]); }
    c->amp = a / c->L; FOR(j, D) { double t = (double)j / (double)D; cplx v = 0; for (int k = 0; k < 2 * nh + 1; k++) v += co[k] / tot * cexp(2 * M_PI * I * (k - nh + k0) * t); c->q[j] = v * a / c->L * cexp(I * c->phase * t); }
    snprintf(c->sig, sizeof c->sig, "trig n=%d k0=%d%s |q|L<%.4g", nh, k0, real ? " real" : "", a); pe_init(c);
}
typedef struct { const scat_t *s; double rhs; int aux; double sc; } pf_t; /* trace - 2 rhs, or the upper right entry, scaled */
static cplx pf(cplx x, void *p_) { pf_t *p = p_; m2 m = scat_m(p->s, x); if (p->aux) return m.b * p->sc; cplx t; if (p->s->d != 1 && p->s->d != 22) { m2 n = cimag(x) == 0 ? m : scat_m(p->s, conj(x)); t = m.a + conj(n.a); } else t = m.a + m.d; return t - 2 * p->rhs; }
/* distance to the closest zero, from a local quadratic model; *f the value relative to the size of the matrix */
static double pdist(pf_t *p, cplx x, double len, cplx *f0, double *sep) {
    double e = 2e-3 / len; cplx v[8], c[3] = { 0 }; for (int k = 0; k < 8; k++) { cplx w = cexp(I * M_PI * k / 4.); v[k] = pf(x + e * w, p); for (int j = 0; j < 3; j++) c[j] += v[k] * cpow(conj(w), j) / 8.; }
    c[0] = pf(x, p); *f0 = c[0]; cplx a = c[2], b = c[1], s = csqrt(b * b - 4 * a * c[0]); cplx den = cabs(b + s) > cabs(b - s) ? b + s : b - s; if (den == 0) return c[0] == 0 ? 0 : INFINITY; *sep = a == 0 ? INFINITY : cabs(s / a) * e; return cabs(2 * c[0] / den) * e;
}
/* how far x is from being a zero, in units of what is tolerated; members of a close pair are allowed a larger error */
static double pcheck(pf_t *p, cplx l, double len, cplx *f) { double sep = INFINITY, d = pdist(p, l, len, f, &sep), t = 1e-6 * (1 / len + cabs(l)), y = fmin(d / t, cabs(*f) / (1e-7 + 1e-11 * exp(fabs(cimag(l)) * len + 3))); if (sep < .05 / len) y = fmin(y, fmax(d, 0) * len / 3e-3); return y; }
typedef struct { int rc; uint_ K, M; cplx *m, *a; long nwarn, nref; } pr_t;
static void pr_free(pr_t *x) { h_free(x->m); h_free(x->a); }
static pr_t run_p(const pe_t *c, const fnft_nsep_opts_t *o0, size_t K, size_t M, const cplx *gm, const cplx *ga) {
    pr_t x; memset(&x, 0, sizeof x); fnft_nsep_opts_t o = *o0; o.discretization = c->d; o.normalization_flag = c->norm; if (o.Dsub >= 8 && c->D % 3 && K % 3) o.Dsub = K % 3 == 1 ? o.Dsub + o.Dsub / 8 : o.Dsub - o.Dsub / 8; /* Dsub is approximate, it is rounded to a power of two */ size_t nm = K * (o.localization == fnft_nsep_loc_NEWTON ? o.points_per_spine : 1);
    x.m = h_calloc_c(nm ? nm : 1); x.a = h_calloc_c(M ? M : 1); if (gm) memcpy(x.m, gm, nm * sizeof(cplx)); if (ga) memcpy(x.a, ga, M * sizeof(cplx)); uint_ k = (uint_)K, m = (uint_)M; msgs_reset();
    x.rc = fnft_nsep((uint_)c->D, c->q, (double *)c->T, c->phase, &k, K ? x.m : NULL, &m, M ? x.a : NULL, NULL, c->kappa, &o); x.K = x.rc ? 0 : k; x.M = x.rc ? 0 : m; x.nwarn = msgs.nwarn; x.nref = strstr(msgs.lastwarn, "did not converge") || strstr(msgs.first, "did not converge"); return x;
}
static size_t full(const pe_t *c) { return c->D * (size_t)nse_deg[c->d] * (size_t)nse_ups[c->d] + 4; }
static double rhs_of(const fnft_nsep_opts_t *o, size_t g) { size_t P = o->points_per_spine; return o->floquet_range[0] + (P > 1 ? (o->floquet_range[1] - o->floquet_range[0]) * (double)g / (double)(P - 1) : 0); }
/* every point solves the equation of its group; groups are in order. Returns the group of every point in grp */
static int sound_main(const pe_t *c, const fnft_nsep_opts_t *o, const pr_t *x, size_t *grp, const char *what) {
    size_t P = o->points_per_spine; char sig[90]; size_t g0 = 0;
    FOR(i, x->K) { size_t best = 0, any = 0; double bd = INFINITY, bf = 0; cplx l = x->m[i] - c->sh; int ok = 0;
        for (size_t g = 0; g < P; g++) { pf_t p = { &c->base, rhs_of(o, g), 0, 1 }; cplx f; double y = pcheck(&p, l, c->L, &f); if (y <= 1) any = 1; if (y <= 1 && !ok && g >= g0) { ok = 1; best = g; bd = y; bf = cabs(f); } if (!ok && y < bd) bd = y, best = g, bf = cabs(f); }
        grp[i] = best; h_metric("main_points_checked", 1); h_max("main_error_over_tolerance", any ? fmin(bd, 1) : bd);
        if (!ok) { snprintf(sig, sizeof sig, "main-%s-%s", any ? "group-order" : "not-a-solution", what); h_violation(sig, "point %zu of %u: %.12g%+.12gi %s (closest: rhs=%.6g, residual %.3g): %s", i, (unsigned)x->K, creal(x->m[i]), cimag(x->m[i]), any ? "belongs to an earlier value of the discriminant than its predecessor" : "is no solution of trace = 2 rhs", rhs_of(o, best), bf, pe_desc(c)); return 0; } g0 = best; }
    return 1;
}
static int sound_aux(const pe_t *c, const pr_t *x, const char *what) {
    char sig[90]; pf_t p = { &c->base, 0, 1, 1 / fmax(c->amp * c->L, 1e-9) };
    FOR(i, x->M) { cplx l = x->a[i] - c->sh, f; double y = pcheck(&p, l, c->L, &f); h_metric("aux_points_checked", 1); h_max("aux_error_over_tolerance", y);
        if (!(y <= 1)) { snprintf(sig, sizeof sig, "aux-not-a-zero-%s", what); h_violation(sig, "point %zu of %u: %.12g%+.12gi is no zero of the upper right entry (relative residual %.3g): %s", i, (unsigned)x->M, creal(x->a[i]), cimag(x->a[i]), cabs(f), pe_desc(c)); return 0; } }
    return 1;
}
static int inbox(cplx z, const double *b, double e) { return creal(z) >= b[0] - e && creal(z) <= b[1] + e && cimag(z) >= b[2] - e && cimag(z) <= b[3] + e; }
/* x-coordinates where a contour may cross the real axis: |f| not small */
static int pick_x(rng_t *r, pf_t *p, double lo, double hi, double *x) { double best = 0; for (int k = 0; k < 24; k++) { double t = rr(r, lo, hi), v = cabs(pf(t, p)); if (v > best) best = v, *x = t; if (v > 1.2) break; } return best > (p->aux ? .02 : .3); }
static void complete(rng_t *r, const pe_t *c, pf_t *p, const cplx *l, size_t K, double R, double Y, const char *what, const char *ex) {
    double x[2], y[2]; if (R <= 0) return; if (!pick_x(r, p, -R, -.05 * R, x) || !pick_x(r, p, .05 * R, R, x + 1)) { h_metric("contours_skipped", 1); return; } if (rb(r, .4)) { double z; if (pick_x(r, p, -R, R, &z)) x[z < 0 ? 0 : 1] = z; }
    y[1] = Y * rr(r, .3, 1); y[0] = rb(r, .5) ? -Y * rr(r, .3, 1) : rr(r, .02, .3) * Y; if (y[0] > y[1]) { double t = y[0]; y[0] = y[1]; y[1] = t; }
    if (y[0] > 0) y[0] = fmax(y[0], .2 / c->L); if (y[0] >= .9 * y[1]) return; size_t n0 = (size_t)(24 + (x[1] - x[0]) / (.4 * fmin(fabs(y[0]), fabs(y[1]))));
    double mn; int n = ref_count_zeros(pf, p, x[0], x[1], y[0], y[1], n0 > 900 ? 900 : n0, 6000, &mn); if (n < 0 || mn < 1e-3) { h_metric("contours_skipped", 1); return; }
    int m = 0; FOR(i, K) { cplx z = l[i] - c->sh; if (creal(z) > x[0] && creal(z) < x[1] && cimag(z) > y[0] && cimag(z) < y[1]) m++; }
    h_metric("contours_counted", 1); h_metric("zeros_counted", n); char sig[90];
    if (n != m) { snprintf(sig, sizeof sig, "%s-count-%s", ex, what); h_violation(sig, "%d points inside [%.6g,%.6g]x[%.6g,%.6g] (shifted by %.4g), the argument principle gives %d (rhs=%.4g): %s", m, x[0], x[1], y[0], y[1], c->sh, n, p->rhs, pe_desc(c)); }
}
/* only the upper (or, mirrored, lower) half plane */
static void complete_upper(rng_t *r, const pe_t *c, pf_t *p, const cplx *l, size_t K, double R, double Y, double ylo, const char *what) {
    double x[2], y[2]; if (ylo >= .8 * Y || !pick_x(r, p, -R, -.05 * R, x) || !pick_x(r, p, .05 * R, R, x + 1)) return; y[0] = ylo; y[1] = Y * rr(r, .85, 1); int low = rb(r, .5); if (low) { double t = -y[0]; y[0] = -y[1]; y[1] = t; }
    size_t n0 = (size_t)(24 + (x[1] - x[0]) / (.4 * ylo)); double mn; int n = ref_count_zeros(pf, p, x[0], x[1], y[0], y[1], n0 > 900 ? 900 : n0, 6000, &mn); if (n < 0 || mn < 1e-3) { h_metric("contours_skipped", 1); return; }
    int m = 0; FOR(i, K) { cplx z = l[i] - c->sh; if (creal(z) > x[0] && creal(z) < x[1] && cimag(z) > y[0] && cimag(z) < y[1]) m++; }
    h_metric("contours_counted", 1); h_metric("zeros_counted", n); char sig[90]; if (n != m) { snprintf(sig, sizeof sig, "nonreal-count-%s", what); h_violation(sig, "%d points inside [%.6g,%.6g]x[%.6g,%.6g] (shifted by %.4g), the argument principle gives %d (rhs=%.4g): %s", m, x[0], x[1], y[0], y[1], c->sh, n, p->rhs, pe_desc(c)); }
}
static const int fastd[19] = { 0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20 };
static void popts(rng_t *r, const pe_t *c, fnft_nsep_opts_t *o) {
    *o = fnft_nsep_default_opts(); o->localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE; o->Dsub = rb(r, .7) ? (uint_)c->D : 0; o->max_evals = 50;
    double R = M_PI / (2 * c->h) * rr(r, .4, .6), Y = fmin(6 / c->L, .4 / c->h); o->filtering = rb(r, .6) ? fnft_nsep_filt_MANUAL : fnft_nsep_filt_AUTO; o->bounding_box[0] = c->sh - R; o->bounding_box[1] = c->sh + R; o->bounding_box[2] = -Y; o->bounding_box[3] = Y;
}
static void c19_sar(rng_t *r, long idx) {
    int d = fastd[idx % 19]; pe_t c; pe_gen(r, &c, d, pdim(r, d, h_thorough ? 520 : 260, 128)); fnft_nsep_opts_t o; popts(r, &c, &o); int P = rb(r, .3) ? ri(r, 1, 6) : 2; if (P != 2) { o.points_per_spine = (uint_)P; o.floquet_range[0] = rr(r, -1, .3); o.floquet_range[1] = o.floquet_range[0] + rr(r, .2, .8); }
    size_t cap = full(&c) * (size_t)P; pr_t x = run_p(&c, &o, cap, 0, NULL, NULL); char w[60]; snprintf(w, sizeof w, "%s", nse_name[d]);
    if (x.rc) { if (x.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("nsep-fails", "rc=%d (%s): %s", x.rc, msgs.first, pe_desc(&c)); goto end; }
    size_t *g = h_malloc((x.K + 1) * sizeof *g); cplx *sub = h_calloc_c(x.K + 1); if (x.nref) h_metric("not_converged_warnings", 1); else if (sound_main(&c, &o, &x, g, w)) {
        double R = fmin(M_PI / (2 * c.h) * .38, 40 / c.L), Y = fmin(4 / c.L, .25 / c.h); for (int k = 0; k < 4; k++) { size_t gg = (size_t)ri(r, 0, P - 1); pf_t p = { &c.base, rhs_of(&o, gg), 0, 1 }; size_t n = 0; FOR(i, x.K) if (g[i] == gg) sub[n++] = x.m[i]; complete(r, &c, &p, sub, n, R, Y, w, "main"); } }
    h_free(g); h_free(sub); h_eval(x.K > 0, "sar %s P=%d", pe_desc(&c), P); if (idx < 5) h_sample("%s: %u points", pe_desc(&c), (unsigned)x.K);
end: pr_free(&x); pe_free(&c);
}
/* plane wave: closed form */
static void pw_gen(rng_t *r, pe_t *c, int d, size_t D, double *A) {
    memset(c, 0, sizeof *c); c->d = d; c->kappa = rb(r, .6) ? 1 : -1; c->norm = rb(r, .6); c->D = D; c->L = rlog(r, .8, 12); c->T[0] = rb(r, .3) ? 0 : rr(r, -2, 2) * c->L; c->T[1] = c->T[0] + c->L; c->h = c->L / (double)D; c->q = h_calloc_c(D);
    *A = rr(r, .4, D < 16 ? 1.5 : 4) / c->L; c->amp = *A; int k = D >= 16 && rb(r, .3) ? ri(r, -2, 2) : 0; double th = rr(r, 0, 6.28), mu = rb(r, .3) ? 0 : rr(r, -5, 5); c->phase = mu; /* total rotation over the period; the extra full turns k belong to the signal */
    FOR(j, D) c->q[j] = *A * cexp(I * (th + (mu + 2 * M_PI * k) * (double)j / (double)D)); snprintf(c->sig, sizeof c->sig, "plane wave A*L=%.5g turns=%d", *A * c->L, k); pe_init(c);
    c->sh = c->phase / (-2 * c->L); c->amp = (double)k; /* reused: number of turns */
}
static void c19_plane(rng_t *r, long idx) {
    int d = fastd[(idx / 3) % 19]; pe_t c; double A; pw_gen(r, &c, d, pdim(r, d, h_thorough ? 520 : 260, 128), &A); int k = (int)c.amp; fnft_nsep_opts_t o; popts(r, &c, &o); o.filtering = fnft_nsep_filt_MANUAL; o.Dsub = (uint_)c.D;
    int P = rb(r, .4) ? ri(r, 1, 5) : 2; if (P != 2) { o.points_per_spine = (uint_)P; o.floquet_range[0] = rr(r, -.95, .3); o.floquet_range[1] = o.floquet_range[0] + rr(r, .2, .6); }
    pr_t x = run_p(&c, &o, full(&c) * (size_t)P, 0, NULL, NULL); if (x.rc) { if (x.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("nsep-fails", "rc=%d (%s): %s", x.rc, msgs.first, pe_desc(&c)); goto end; }
    /* exact zeros: lambda = -mu/2 +- sqrt(s^2 - kappa A^2), 2 cos(L s) = 2 rhs (mu counts all turns); the methods are exact for a constant, not for a rotating signal */
    if (k == 0 && !x.nref) { double R = fmin(M_PI / (2 * c.h) * .38, 30 / c.L), worst = 0; int miss = 0, nexp = 0, bad = 0; cplx lb = 0;
        for (int g = 0; g < P; g++) { double rho = rhs_of(&o, (size_t)g), s0 = acos(rho); int N = (int)(R * c.L / M_PI) + 3;
            for (int n = -N; n <= N; n++) { double s = (s0 + 2 * M_PI * n) / c.L; cplx z = csqrt(s * s - c.kappa * A * A + 0.); int dbl = fabs(sin(s0)) < 1e-9 && fabs(s * c.L) > 1; if (fabs(s) < 1e-6 && n < 0) continue;
                for (int sg = -1; sg <= 1; sg += 2) { cplx l = sg * z + c.sh; if (fabs(creal(l - c.sh)) > R || cimag(l) < o.bounding_box[2] * .95 || cimag(l) > o.bounding_box[3] * .95) continue; nexp++; double b = INFINITY; FOR(i, x.K) b = fmin(b, cabs(x.m[i] - l)); double der = fabs(sin(s0)) < 1e-9 ? 1 : fabs(sin(s0)), t = dbl ? 1e-3 / c.L : 1e-6 * (1 / c.L + cabs(l)) + 3e-8 / (c.L * der) + (cabs(z) * c.L < .1 ? 1e-3 / c.L : 0); worst = fmax(worst, b / t); if (b > t && !miss) miss = 1, lb = l; } } }
        FOR(i, x.K) { cplx z = x.m[i] - c.sh; if (fabs(creal(z)) > R) continue; cplx v = ccos(c.L * csqrt(z * z + c.kappa * A * A)); double b = INFINITY; for (int g = 0; g < P; g++) b = fmin(b, cabs(v - rhs_of(&o, (size_t)g))); h_max("plane_wave_residual", b); if (b > 1e-5) { bad = 1; lb = x.m[i]; } }
        h_metric("plane_wave_points_expected", nexp); h_max("plane_wave_error_over_tolerance", worst); char sig[90];
        if (miss) { snprintf(sig, sizeof sig, "plane-wave-missing-%s", nse_name[d]); h_violation(sig, "the main spectrum point %.10g%+.10gi of the plane wave is not among the %u returned ones (error/tolerance %.3g): %s", creal(lb), cimag(lb), (unsigned)x.K, worst, pe_desc(&c)); }
        else if (bad) { snprintf(sig, sizeof sig, "plane-wave-extra-%s", nse_name[d]); h_violation(sig, "%.10g%+.10gi does not belong to the main spectrum of the plane wave: %s", creal(lb), cimag(lb), pe_desc(&c)); } }
    h_eval(k == 0 && !x.nref, "plane %s P=%d", pe_desc(&c), P);
end: pr_free(&x); pe_free(&c);
}
/* grid search on the real axis: zeros of the polynomial the documentation defines for the fast method itself */
static double grealf(pf_t *p, double x) { cplx v = pf(x, p); return creal(v); }
static double gspacing(const pe_t *c, const double *bb) { return (bb[1] - bb[0]) / (32. * (double)(c->D * (size_t)nse_deg[c->d] * (size_t)nse_ups[c->d])); }
static void grid_check(rng_t *r, const pe_t *c, const fnft_nsep_opts_t *o, const cplx *m, size_t K, const char *what) {
    (void)r; const double *bb = o->bounding_box; double bl = bb[0], bu = bb[1]; if (o->filtering == fnft_nsep_filt_AUTO) { bu = .9 * M_PI / (2. / nse_deg[c->d] * c->h); bl = -bu; bu += c->sh; bl += c->sh; }
    double b2[2] = { bl, bu }, s = gspacing(c, b2); size_t n = (size_t)((bu - bl) / s); if (n > 60000) return; char sig[90]; double *tv = h_malloc((n + 2) * sizeof *tv); pf_t pt = { &c->own, 0, 0, 1 }; for (size_t i = 0; i <= n; i++) tv[i] = grealf(&pt, bl - c->sh + (bu - bl) * (double)i / (double)n);
    double gnoise = nse_order[c->d] >= 3 ? 6e-3 : 1e-6; /* the polynomials of the methods with negative weights have large coefficients */
    for (int g = 0; g < 2; g++) { pf_t p = { &c->own, g ? 1 : -1, 0, 1 }; double *z = h_malloc((n + 2) * sizeof *z), pv = 0; size_t nz = 0;
        for (size_t i = 0; i <= n; i++) { double t = bl - c->sh + (bu - bl) * (double)i / (double)n, v = tv[i] - 2 * p.rhs; (void)t; if (i && (v < 0) != (pv < 0)) z[nz++] = t - (bu - bl) / (double)n * (v == pv ? 0 : v / (v - pv)); pv = v; }
        FOR(i, nz) { if (z[i] + c->sh < bl + 10 * s || z[i] + c->sh > bu - 10 * s || (i && z[i] - z[i - 1] < 8 * s) || (i + 1 < nz && z[i + 1] - z[i] < 8 * s)) continue; if (fabs(grealf(&p, z[i] + s) - grealf(&p, z[i] - s)) < gnoise) continue; double b = INFINITY; FOR(k, K) b = fmin(b, cabs(m[k] - c->sh - z[i])); h_metric("grid_roots_expected", 1); h_max("grid_root_error_over_spacing", b / s); if (b > 1.5 * s) { snprintf(sig, sizeof sig, "grid-missing-%s", what); h_violation(sig, "the real zero %.10g of trace %+d is not among the %zu returned points (closest: %.3g grid spacings): %s", z[i] + c->sh, g ? 2 : -2, K, b / s, pe_desc(c)); break; } }
        /* soundness is checked against both values at once, below */
        if (g == 1) { FOR(k, K) { double x = creal(m[k] - c->sh), best = INFINITY; for (int gg = 0; gg < 2; gg++) { pf_t p2 = { &c->own, gg ? 1 : -1, 0, 1 }; cplx f; double sep; double dd = pdist(&p2, x, c->L, &f, &sep); best = fmin(best, dd / s); for (int q = -20; q < 20 && best > 2; q++) if ((grealf(&p2, x + q * s / 10) < 0) != (grealf(&p2, x + (q + 1) * s / 10) < 0)) best = fmin(best, fabs(q + .5) / 10); }
            h_metric("grid_points_checked", 1); h_max("grid_point_distance_over_spacing", best); if (best > 3 || fabs(cimag(m[k])) > 2 * s) { pf_t pp = { &c->own, 1, 0, 1 }, pm = { &c->own, -1, 0, 1 }; if (fmin(fabs(grealf(&pp, x)), fabs(grealf(&pm, x))) < gnoise / 3) continue; snprintf(sig, sizeof sig, "grid-not-a-root-%s", what); h_violation(sig, "%.10g%+.3gi is %.3g grid spacings away from the closest zero: %s", creal(m[k]), cimag(m[k]), best, pe_desc(c)); break; } } }
        h_free(z); }
    h_free(tv);
}
static void c19_grid(rng_t *r, long idx) {
    int d = fastd[(idx / 3) % 19]; pe_t c; pe_gen(r, &c, d, pdim(r, d, h_thorough ? 520 : 160, 128)); fnft_nsep_opts_t o; popts(r, &c, &o); int mixed = rb(r, .5); o.localization = mixed ? fnft_nsep_loc_MIXED : fnft_nsep_loc_GRIDSEARCH; o.Dsub = (uint_)c.D; if (!mixed && rb(r, .5)) { o.bounding_box[0] = c.sh + rr(r, -1, 0) * M_PI / (2 * c.h) * .5; o.bounding_box[1] = o.bounding_box[0] + rr(r, .2, .5) * M_PI / c.h * .5; }
    pr_t x = run_p(&c, &o, 32 * full(&c), 0, NULL, NULL); char w[60]; snprintf(w, sizeof w, "%s-%s", mixed ? "MIXED" : "GRID", nse_name[d]); if (x.rc) { if (x.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("nsep-fails", "%s rc=%d (%s): %s", w, x.rc, msgs.first, pe_desc(&c)); goto end; }
    double bl = o.bounding_box[0], bu = o.bounding_box[1], tolim = (o.bounding_box[3] - o.bounding_box[2]) / (32. * (double)(c.D - 1)); if (o.filtering == fnft_nsep_filt_AUTO) { bu = .9 * M_PI / (2. / nse_deg[d] * c.h); bl = -bu; tolim = 2 * 2.302585 / (2. / nse_deg[d] * c.h) / (32. * (double)(c.D - 1)); } double bx[2] = { bl, bu }; double s = gspacing(&c, bx);
    cplx *re = h_calloc_c(x.K + 1), *nr = h_calloc_c(x.K + 1); size_t nre = 0, nnr = 0, *g = h_malloc((x.K + 1) * sizeof *g); 
    if (!mixed) { FOR(i, x.K) re[nre++] = x.m[i]; } else { size_t i = 0; if (c.kappa == 1) for (; i < x.K && fabs(cimag(x.m[i])) > tolim; i++) nr[nnr++] = x.m[i]; for (; i < x.K; i++) re[nre++] = x.m[i]; }
    grid_check(r, &c, &o, re, nre, w); (void)s;
    if (mixed && c.kappa == 1 && !x.nref) { pr_t y = x; y.m = nr; y.K = (uint_)nnr; if (sound_main(&c, &o, &y, g, w)) { double R = fmin(M_PI / (2 * c.h) * .38, 40 / c.L), Y = fmin(4 / c.L, .25 / c.h); for (int k = 0; k < 3; k++) { pf_t p = { &c.base, rhs_of(&o, (size_t)(k & 1)), 0, 1 }; size_t n = 0; cplx *sub = h_calloc_c(nnr + 1); FOR(i, nnr) if (g[i] == (size_t)(k & 1)) sub[n++] = nr[i]; complete_upper(r, &c, &p, sub, n, R, Y, fmax(2 * tolim, .2 / c.L), w); h_free(sub); } } }
    h_eval(x.K > 0, "%s %s", w, pe_desc(&c)); h_free(re); h_free(nr); h_free(g);
end: pr_free(&x); pe_free(&c);
}
/* NEWTON from perturbed solutions; transformations of the signal */
static void c19_newton(rng_t *r, long idx) {
    int d = rb(r, .6) ? 1 : 22, sd = d == 1 ? fastd[1 + idx % 17] : 20; if (sd == 20 && d == 1) sd = 11; pe_t c; pe_gen(r, &c, sd, pdim(r, sd, 200, 64)); fnft_nsep_opts_t o; popts(r, &c, &o); o.filtering = fnft_nsep_filt_MANUAL; o.Dsub = (uint_)c.D; int P = rb(r, .4) ? ri(r, 1, 5) : 2; if (P != 2) { o.points_per_spine = (uint_)P; o.floquet_range[0] = rr(r, -1, .3); o.floquet_range[1] = o.floquet_range[0] + rr(r, .2, .8); } char w[60]; snprintf(w, sizeof w, "NEWTON-%s", nse_name[d]);
    pr_t x = run_p(&c, &o, full(&c) * (size_t)P, full(&c), NULL, NULL); size_t *g = h_malloc((x.K + 1) * sizeof *g); if (x.rc || x.nref) { h_metric("skipped_setups", 1); goto end; }
    if (!sound_main(&c, &o, &x, g, w)) goto end;
    /* the same number of guesses for every value of the discriminant */
    size_t nn[8] = { 0 }, K = 1000; FOR(i, x.K) nn[g[i]]++; for (int k = 0; k < P; k++) if (nn[k] < K) K = nn[k]; if (K > 12) K = 12; if (K == 0) goto end;
    cplx *gm = h_calloc_c(K * (size_t)P), *ga = h_calloc_c(x.M + 1), *want = h_calloc_c(K * (size_t)P); for (int k = 0; k < P; k++) { size_t off = (size_t)ri(r, 0, (int)(nn[k] - K)), n = 0, s = 0; FOR(i, x.K) if (g[i] == (size_t)k) { if (s++ >= off && n < K) { want[(size_t)k * K + n] = x.m[i]; gm[(size_t)k * K + n++] = x.m[i] + rc(r) * 1e-4 / c.L; } } }
    size_t M = x.M > 10 ? 10 : x.M; FOR(i, M) ga[i] = x.a[i] + rc(r) * 1e-4 / c.L;
    pe_t c2 = c; c2.d = d; fnft_nsep_opts_t o2 = o; o2.localization = fnft_nsep_loc_NEWTON; o2.filtering = fnft_nsep_filt_NONE; pr_t y = run_p(&c2, &o2, K, M, gm, ga);
    if (y.rc) { if (y.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("newton-fails", "rc=%d (%s): %s", y.rc, msgs.first, pe_desc(&c2)); }
    else if (y.K != K * (size_t)P || y.M != M) h_violation("newton-count", "%u points for %zu guesses and %d values of the discriminant, %u auxiliary points for %zu guesses: %s", (unsigned)y.K, K, P, (unsigned)y.M, M, pe_desc(&c2));
    else { FOR(i, y.K) { pf_t p = { &c.base, rhs_of(&o, i / K), 0, 1 }; cplx f; double e = pcheck(&p, y.m[i] - c.sh, c.L, &f); h_metric("newton_points", 1); if (!y.nref) h_max("newton_error_over_tolerance", e); if (e > 1 && !y.nref) { char sig[90]; snprintf(sig, sizeof sig, "newton-main-%s", nse_name[d]); h_violation(sig, "point %zu of %u, refined from a guess close to %.8g%+.8gi: %.8g%+.8gi does not solve trace = 2*%.5g (residual %.3g): %s", i, (unsigned)y.K, creal(want[i]), cimag(want[i]), creal(y.m[i]), cimag(y.m[i]), p.rhs, cabs(f), pe_desc(&c2)); break; }
            double sep, dd; cplx ff; dd = pdist(&p, want[i] - c.sh, c.L, &ff, &sep); (void)dd; if (sep > .1 / c.L && cabs(y.m[i] - want[i]) > .02 / c.L && !y.nref) { h_violation("newton-jump", "guess within 3e-4/L of %.8g%+.8gi went to %.8g%+.8gi: %s", creal(want[i]), cimag(want[i]), creal(y.m[i]), cimag(y.m[i]), pe_desc(&c2)); break; } }
        if (!y.nref) sound_aux(&c, &y, w); }
    pr_free(&y); h_free(gm); h_free(ga); h_free(want); h_eval(1, "newton %s P=%d", pe_desc(&c2), P);
end: h_free(g); pr_free(&x); pe_free(&c);
}
/* transformations of the signal that move the spectrum in a known way */
static void c19_inv(rng_t *r, long idx) {
    int d = fastd[(idx / 3) % 19], kind = ri(r, 0, 3); pe_t c; pe_gen(r, &c, d, pdim(r, d, 260, 128)); fnft_nsep_opts_t o; popts(r, &c, &o); o.filtering = fnft_nsep_filt_MANUAL; o.Dsub = (uint_)c.D; pr_t x = run_p(&c, &o, full(&c) * 2, 0, NULL, NULL); static const char *kn[4] = { "roll", "phase", "modulation", "scaling" };
    pe_t e = c; e.q = h_calloc_c(c.D); double sc = 1, off = 0; size_t D = c.D;
    if (kind == 0) { size_t m = (size_t)ri(r, 1, (int)D - 1); FOR(j, D) e.q[j] = j + m < D ? c.q[j + m] : c.q[j + m - D] * cexp(I * c.phase); }
    if (kind == 1) { cplx f = cexp(I * rr(r, 0, 6.28)); FOR(j, D) e.q[j] = c.q[j] * f; }
    if (kind == 2) { double mu = rr(r, -6, 6); e.phase += mu; FOR(j, D) e.q[j] = c.q[j] * cexp(I * mu * (double)j / (double)D); off = -mu / (2 * c.L); }
    if (kind == 3) { sc = rlog(r, .01, 100); FOR(j, D) e.q[j] = c.q[j] / sc; e.T[0] = c.T[0] * sc; e.T[1] = c.T[1] * sc; e.L = e.T[1] - e.T[0]; e.h = e.L / (double)D; }
    fnft_nsep_opts_t o2 = o; for (int k = 0; k < 4; k++) o2.bounding_box[k] = (o.bounding_box[k] + (k < 2 ? off : 0)) / sc; pr_t y = run_p(&e, &o2, full(&c) * 2, 0, NULL, NULL);
    if (x.rc || y.rc || x.nref || y.nref) { h_metric("skipped_setups", 1); goto end; }
    double R = fmin(M_PI / (2 * c.h) * .38, 40 / c.L), Y = o.bounding_box[3] * .9; FOR(i, x.K) { cplx l = x.m[i] - c.sh; if (fabs(creal(l)) > R || fabs(cimag(l)) > Y) continue; double s1 = INFINITY; pf_t p = { &c.base, 1, 0, 1 }, p2 = { &c.base, -1, 0, 1 }; cplx f; double sep; double d1 = pdist(&p, l, c.L, &f, &s1), d2 = pdist(&p2, l, c.L, &f, &sep); if (d2 < d1) s1 = sep; double t = kind == 3 && sc != 1 ? 2e-4 : 1e-6; if (s1 < .05 / c.L) t = 6e-3; double b = INFINITY; FOR(k, y.K) b = fmin(b, cabs(y.m[k] * sc - off - x.m[i])); b *= c.L; h_metric("invariance_points", 1); h_max("invariance_error_over_tolerance", b / t);
        if (b > t * (1 + cabs(l) * c.L)) { char sig[60]; snprintf(sig, sizeof sig, "invariance-%s", kn[kind]); h_violation(sig, "%.10g%+.10gi has no counterpart after the transformation (distance*L %.3g): %s", creal(x.m[i]), cimag(x.m[i]), b, pe_desc(&c)); break; } }
    h_eval(x.K > 0, "inv %s %s", kn[kind], pe_desc(&c));
end: pr_free(&x); pr_free(&y); h_free(e.q); pe_free(&c);
}
void c19(long idx) { rng_t r = rng_make(h_seed, 19, (uint64_t)idx); switch (idx % 8) { case 0: case 1: case 2: c19_sar(&r, idx / 8 * 3 + idx % 8); break; case 3: c19_plane(&r, idx / 8 * 3); break; case 4: case 5: c19_grid(&r, (idx / 8 * 2 + idx % 8) * 3); break; case 6: c19_newton(&r, idx / 8); break; case 7: c19_inv(&r, idx / 8 * 3); break; } }
/* ---- C20: auxiliary spectrum, boxes, capacities ---- */
static void box_of(const pe_t *c, const fnft_nsep_opts_t *o, size_t Dsub, double *b) {
    if (o->filtering == fnft_nsep_filt_MANUAL) { memcpy(b, o->bounding_box, 4 * sizeof(double)); return; }
    double mc = 2. / nse_deg[c->d], es = c->L / (double)Dsub, rw = .9 * M_PI / (mc * es), iw = log(10.) / (mc * es); b[0] = c->sh - rw; b[1] = c->sh + rw; b[2] = -iw; b[3] = iw;
}
static void c20_aux(rng_t *r, long idx) {
    int d = fastd[idx % 19]; pe_t c; pe_gen(r, &c, d, pdim(r, d, h_thorough ? 520 : 260, 128)); fnft_nsep_opts_t o; popts(r, &c, &o); o.Dsub = (uint_)c.D; int both = o.filtering != fnft_nsep_filt_NONE; char w[60]; snprintf(w, sizeof w, "%s", nse_name[d]);
    if (!both || rb(r, .3)) { o.filtering = fnft_nsep_filt_NONE; both = 0; }
    pr_t x = run_p(&c, &o, both ? full(&c) * 2 : 0, full(&c), NULL, NULL); if (x.rc) { if (x.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("nsep-fails", "aux rc=%d (%s): %s", x.rc, msgs.first, pe_desc(&c)); goto end; }
    if (!both && x.K != 0) h_violation("count-without-array", "main_spec is NULL but *K_ptr=%u: %s", (unsigned)x.K, pe_desc(&c));
    if (x.nref) h_metric("not_converged_warnings", 1); else if (both ? sound_aux(&c, &x, w) : 1) { pf_t p = { &c.base, 0, 1, 1 / fmax(c.amp * c.L, 1e-9) }; double R = fmin(M_PI / (2 * c.h) * .38, 40 / c.L), Y = fmin(4 / c.L, .25 / c.h); if (both) for (int k = 0; k < 4; k++) complete(r, &c, &p, x.a, x.M, R, Y, w, "aux"); }
    h_eval(x.M > 0 && both, "aux %s", pe_desc(&c)); if (idx < 4) h_sample("%s: %u main, %u aux", pe_desc(&c), (unsigned)x.K, (unsigned)x.M);
end: pr_free(&x); pe_free(&c);
}
/* grid search for the auxiliary spectrum: real zeros of the entry exist e.g. for real even signals; otherwise only soundness */
static void c20_auxgrid(rng_t *r, long idx) {
    int d = fastd[idx % 19]; pe_t c; pe_gen(r, &c, d, pdim(r, d, h_thorough ? 520 : 200, 128)); int real = rb(r, .6);
    if (real) { int nh = c.D < 16 ? 1 : 2; double co[3] = { rr(r, -1, 1), rr(r, -.6, .6), rr(r, -.3, .3) }, a = rr(r, .5, 3); c.phase = 0; FOR(j, c.D) { double v = 0; for (int k = 0; k <= nh; k++) v += co[k] * cos(2 * M_PI * k * ((double)j + .5) / (double)c.D); c.q[j] = v * a / c.L; } snprintf(c.sig, sizeof c.sig, "real even a=%.4g", a); scat_free(&c.base); scat_free(&c.own); pe_init(&c); }
    fnft_nsep_opts_t o; popts(r, &c, &o); int mixed = rb(r, .4); o.localization = mixed ? fnft_nsep_loc_MIXED : fnft_nsep_loc_GRIDSEARCH; o.Dsub = (uint_)c.D; pr_t x = run_p(&c, &o, 32 * full(&c), 32 * full(&c), NULL, NULL); if (x.rc) { if (x.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("nsep-fails", "aux grid rc=%d (%s): %s", x.rc, msgs.first, pe_desc(&c)); goto end; }
    double b[4]; box_of(&c, &o, c.D, b); double s = gspacing(&c, b), tolim = (b[3] - b[2]) / (32. * (double)(c.D - 1)); pf_t p = { &c.own, 0, 1, 1 / fmax(c.amp * c.L, 1e-9) }, pb = p; pb.s = &c.base; int bad = 0; size_t i0 = 0; 
    if (!mixed) for (size_t i = i0; i < x.M && !bad; i++) { cplx f; double sep, e = pdist(&p, x.a[i] - c.sh, c.L, &f, &sep) / s; h_metric("aux_grid_points", 1); h_max("aux_grid_distance_over_spacing", e); if (e > 3 || fabs(cimag(x.a[i])) > 2 * s) { bad = 1; h_violation("aux-grid-not-a-root", "%s: %.10g%+.3gi is %.3g grid spacings away from the closest zero of the upper right entry: %s", nse_name[d], creal(x.a[i]), cimag(x.a[i]), e, pe_desc(&c)); } }
    /* every simple zero that is close to the real axis (from the other method) must be found by the grid search */
    fnft_nsep_opts_t o2 = o; o2.localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE; o2.filtering = fnft_nsep_filt_MANUAL; memcpy(o2.bounding_box, b, sizeof b); if (o.filtering == fnft_nsep_filt_AUTO) { o2.bounding_box[0] = c.sh - 30 / c.L; o2.bounding_box[1] = c.sh + 30 / c.L; o2.bounding_box[2] = -3 / c.L; o2.bounding_box[3] = 3 / c.L; }
    pr_t y = run_p(&c, &o2, full(&c) * 2, full(&c), NULL, NULL); if (!y.rc && !y.nref && !bad) { int has[2] = { 0, 0 };
        FOR(i, y.M) { cplx l = y.a[i]; if (creal(l) < b[0] + 10 * s || creal(l) > b[1] - 10 * s || fabs(creal(l) - creal(c.sh)) > M_PI / (2 * c.h) * .35) continue;
            /* the same zero for the fast method */
            cplx z = l - c.sh, f; int ok = 0; for (int it = 0; it < 30; it++) { double e = 1e-4 / c.L; cplx f0 = pf(z, &p), dv = (pf(z + e, &p) - pf(z - e, &p)) / (2 * e); if (dv == 0) break; cplx st = f0 / dv; z -= st; if (cabs(st) < 1e-10 / c.L) { ok = 1; break; } } double sep; if (!ok) continue; pdist(&p, z, c.L, &f, &sep); if (sep < 10 * s || sep < .1 / c.L) continue;
            int isreal = fabs(cimag(z)) < .2 * s; if (!isreal && !(mixed && fabs(cimag(l)) > 3 * tolim)) continue; (void)has; double bd = INFINITY; cplx t = isreal ? z + c.sh : l; FOR(k, x.M) bd = fmin(bd, cabs(x.a[k] - t)); h_metric("aux_zeros_expected", 1); if (isreal) h_metric("real_aux_zeros_expected", 1); if (fabs(cimag(t)) > .9 * b[3]) continue; double tol = isreal ? 1.5 * s + (mixed ? 0 : 0) : 1e-6 * (1 / c.L + cabs(l)); 
            if (isreal && mixed && bd > tol) { double b2 = INFINITY; FOR(k, x.M) b2 = fmin(b2, cabs(x.a[k] - l)); if (b2 < tol) bd = 0; }
            if (bd > tol) { h_violation(isreal ? "aux-grid-missing" : "aux-mixed-missing", "%s: the zero %.10g%+.10gi of the upper right entry is not among the %u returned points (closest %.3g, grid spacing %.3g): %s", nse_name[d], creal(t), cimag(t), (unsigned)x.M, bd, s, pe_desc(&c)); break; } } }
    pr_free(&y); h_eval(x.M > 0 || x.K > 0, "auxgrid %d %s", mixed, pe_desc(&c));
end: pr_free(&x); pe_free(&c); (void)i0; (void)pb;
}
/* counts, capacities, boxes */
static void c20_cap(rng_t *r, long idx) {
    int d = fastd[idx % 19]; pe_t c; pe_gen(r, &c, d, pdim(r, d, 200, 128)); fnft_nsep_opts_t o; popts(r, &c, &o); o.localization = ri(r, 0, 2) == 0 ? fnft_nsep_loc_GRIDSEARCH : rb(r, .5) ? fnft_nsep_loc_MIXED : fnft_nsep_loc_SUBSAMPLE_AND_REFINE; if (o.localization == fnft_nsep_loc_SUBSAMPLE_AND_REFINE && rb(r, .3)) o.filtering = fnft_nsep_filt_NONE; o.max_evals = rb(r, .2) ? 0 : rb(r, .3) ? 4 : 50; o.Dsub = (uint_)(rb(r, .4) ? c.D / 2 : c.D); if (o.Dsub < 4) o.Dsub = (uint_)c.D;
    if (o.filtering == fnft_nsep_filt_MANUAL && rb(r, .5)) { double w = rr(r, .1, 1) * M_PI / (2 * c.h), y = rr(r, .05, 2) / c.L; o.bounding_box[0] = c.sh - w * rr(r, -.2, 1); o.bounding_box[1] = o.bounding_box[0] + w; o.bounding_box[2] = -y * rr(r, .05, 1); o.bounding_box[3] = y * rr(r, .05, 1); }
    int P = 2; if (o.localization == fnft_nsep_loc_SUBSAMPLE_AND_REFINE && rb(r, .3)) { P = ri(r, 1, 5); o.points_per_spine = (uint_)P; }
    size_t big = o.localization == fnft_nsep_loc_SUBSAMPLE_AND_REFINE ? full(&c) * (size_t)P : 34 * full(&c); pr_t x = run_p(&c, &o, big, big, NULL, NULL); const char *ln = o.localization == fnft_nsep_loc_GRIDSEARCH ? "GRID" : o.localization == fnft_nsep_loc_MIXED ? "MIXED" : "SAR"; char w[60]; snprintf(w, sizeof w, "%s-%s", ln, nse_name[d]);
    if (x.rc) { if (x.rc == -FNFT_EC_DIV_BY_ZERO) h_incon("derivative vanishes"); else h_violation("nsep-fails", "%s rc=%d (%s): %s", w, x.rc, msgs.first, pe_desc(&c)); pr_free(&x); pe_free(&c); return; }
    if (x.nwarn > (x.nref ? 2 : 0)) { /* the "did not converge" warnings of main and auxiliary spectrum and of each spine value are legitimate */ if (!x.nref) h_violation("warning-although-complete", "%s: %s: %s", w, msgs.lastwarn, pe_desc(&c)); }
    double b[4]; size_t De = o.localization == fnft_nsep_loc_GRIDSEARCH ? c.D : o.Dsub; box_of(&c, &o, De, b); double big_b[4]; box_of(&c, &o, c.D, big_b); if (o.localization == fnft_nsep_loc_MIXED) FOR(k, 4) b[k] = (k & 1) ? fmax(b[k], big_b[k]) : fmin(b[k], big_b[k]);
    if (o.filtering != fnft_nsep_filt_NONE) { FOR(i, x.K) if (!inbox(x.m[i], b, 1e-9 * (1 + fabs(c.sh)))) { h_violation("main-outside-box", "%s: point %zu of %u: %.10g%+.10gi outside [%.6g,%.6g]x[%.6g,%.6g]: %s", w, i, (unsigned)x.K, creal(x.m[i]), cimag(x.m[i]), b[0], b[1], b[2], b[3], pe_desc(&c)); break; } FOR(i, x.M) if (!inbox(x.a[i], b, 1e-9 * (1 + fabs(c.sh)))) { h_violation("aux-outside-box", "%s: point %zu of %u: %.10g%+.10gi outside [%.6g,%.6g]x[%.6g,%.6g]: %s", w, i, (unsigned)x.M, creal(x.a[i]), cimag(x.a[i]), b[0], b[1], b[2], b[3], pe_desc(&c)); break; } }
    else if (x.K != (uint_)(P * (int)(o.Dsub * (uint_)nse_deg[d] * (uint_)nse_ups[d]))) h_violation("unfiltered-count", "%s: %u main spectrum points without filtering, degree times spine values is %d: %s", w, (unsigned)x.K, P * (int)(o.Dsub * (uint_)nse_deg[d] * (uint_)nse_ups[d]), pe_desc(&c));
    if (o.filtering == fnft_nsep_filt_MANUAL && o.max_evals == 50 && o.Dsub == c.D) { /* a larger box keeps everything that was inside the smaller one */
        fnft_nsep_opts_t o2 = o; double e = rr(r, .05, .3), wx = o.bounding_box[1] - o.bounding_box[0]; o2.bounding_box[0] -= e * wx; o2.bounding_box[1] += e * wx; o2.bounding_box[2] -= .1 / c.L; o2.bounding_box[3] += .1 / c.L; if (o.localization == fnft_nsep_loc_SUBSAMPLE_AND_REFINE) { pr_t y = run_p(&c, &o2, big, big, NULL, NULL); if (!y.rc && !y.nref && !x.nref) { FOR(i, x.K) { double bd = INFINITY; FOR(k, y.K) bd = fmin(bd, cabs(x.m[i] - y.m[k])); if (bd > 6e-3 / c.L) { h_violation("larger-box-loses", "%s: %.10g%+.10gi is lost when the box grows: %s", w, creal(x.m[i]), cimag(x.m[i]), pe_desc(&c)); break; } } h_metric("boxes_compared", 1); } pr_free(&y); } }
    /* prefixes */
    for (int t = 0; t < 3; t++) { size_t K = x.K ? (size_t)(t == 0 ? (int)x.K : ri(r, 0, (int)x.K + 1)) : 1, M = x.M ? (size_t)(t == 0 ? (int)x.M : ri(r, 0, (int)x.M + 1)) : 1; if (K == 0) K = 1; if (M == 0) M = 1; pr_t y = run_p(&c, &o, K, M, NULL, NULL); h_metric("capacities_tried", 1); size_t wk = x.K < K ? x.K : K, wm = x.M < M ? x.M : M; int trunc = x.K > K || x.M > M, warned = y.nwarn > 0 && (strstr(msgs.lastwarn, "as many as possible") || strstr(msgs.first, "as many as possible"));
        if (y.rc || y.K != wk || y.M != wm) h_violation("capacity-count", "%s: capacities %zu and %zu, %u and %u points exist, rc=%d with %u and %u points: %s", w, K, M, (unsigned)x.K, (unsigned)x.M, y.rc, (unsigned)y.K, (unsigned)y.M, pe_desc(&c));
        else if (o.localization == fnft_nsep_loc_MIXED || o.localization == fnft_nsep_loc_GRIDSEARCH || 1) { FOR(i, wk) if (memcmp(x.m + i, y.m + i, sizeof(cplx))) { h_violation("capacity-prefix", "%s: with capacity %zu, main spectrum point %zu differs from the unlimited call: %s", w, K, i, pe_desc(&c)); break; } FOR(i, wm) if (memcmp(x.a + i, y.a + i, sizeof(cplx))) { h_violation("capacity-prefix", "%s: with capacity %zu, auxiliary point %zu differs from the unlimited call: %s", w, M, i, pe_desc(&c)); break; }
            if (trunc && !y.nwarn) h_violation("capacity-warning", "%s: %u and %u points exist, %zu and %zu fit, no warning: %s", w, (unsigned)x.K, (unsigned)x.M, K, M, pe_desc(&c)); if (!trunc && warned) h_violation("capacity-warning", "%s: warning about capacity although all %u and %u points fit: %s", w, (unsigned)x.K, (unsigned)x.M, pe_desc(&c)); }
        pr_free(&y); }
    /* no arrays: no points; the other output is unaffected */
    { pr_t y = run_p(&c, &o, big, 0, NULL, NULL); if (!y.rc && (y.M != 0 || y.K != x.K || memcmp(x.m, y.m, x.K * sizeof(cplx)))) h_violation("aux-null", "%s: without aux_spec: %u main spectrum points (%u before), *M_ptr=%u: %s", w, (unsigned)y.K, (unsigned)x.K, (unsigned)y.M, pe_desc(&c)); else if (y.rc) h_violation("aux-null", "%s: rc=%d without aux_spec: %s", w, y.rc, pe_desc(&c)); pr_free(&y); y = run_p(&c, &o, 0, big, NULL, NULL); if (o.filtering != fnft_nsep_filt_NONE ? y.rc != FNFT_EC_INVALID_ARGUMENT : y.rc || y.K != 0 || y.M != x.M || memcmp(x.a, y.a, x.M * sizeof(cplx))) h_violation("main-null", "%s: without main_spec (filtering %d): rc=%d, %u auxiliary points (%u before), *K_ptr=%u: %s", w, (int)o.filtering, y.rc, (unsigned)y.M, (unsigned)x.M, (unsigned)y.K, pe_desc(&c)); pr_free(&y); }
    h_eval(x.K + x.M > 0, "cap %s filt=%d P=%d %s", w, (int)o.filtering, P, pe_desc(&c)); pr_free(&x); pe_free(&c);
}
void c20(long idx) { rng_t r = rng_make(h_seed, 20, (uint64_t)idx); switch (idx % 6) { case 0: case 1: case 2: c20_aux(&r, idx / 6 * 3 + idx % 6); break; case 3: c20_auxgrid(&r, idx / 6); break; default: c20_cap(&r, idx / 6 * 2 + idx % 6); } }
