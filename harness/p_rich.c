/* C14: Richardson extrapolation */
#include "pc.h"
/* the second resolution: every nskip-th sample */
static void half(size_t D, size_t *nskip, size_t *Dsub) { size_t s = D / 2; if (s < 2) s = 2; *nskip = (size_t)round((double)D / (double)s); *Dsub = (size_t)round((double)D / (double)*nskip); }
static int order_nse(int d) { return d == 2 || d == 3 || (d >= 4 && d <= 19) || d < 2 ? 2 : nse_order[d]; } /* order of the base method */
/* compares one extrapolated output (len blocks of M values) with the combination of full and half */
static void combine_check(const char *what, const char *name, size_t M, const double *XI, int nblk, const cplx *full, const cplx *sub, const double *tol, const cplx *out, double scl, double hs, const char *ds) {
    double worst = 0; size_t wi = 0; int wb = 0, ext = 0, plain = 0; cplx we = 0; char sig[90];
    FOR(i, M) { double x = fabs(xi_at(XI, M, i)) / (.9 * M_PI / (2 * hs)); if (fabs(x - 1) < .01) continue; int e = x < 1; if (e) ext++; else plain++;
        for (int k = 0; k < nblk; k++) { size_t j = (size_t)k * M + i; cplx v = e ? (scl * full[j] - sub[j]) / (scl - 1) : full[j]; double z = cabs(out[j] - v) / (tol[j] * (e ? (scl + 1) / (scl - 1) : 1)); if (nan_gt(z, worst)) worst = z, wi = i, wb = k, we = v; } }
    char n[80]; snprintf(n, sizeof n, "%s_error_over_tolerance", what); h_max(n, worst); h_metric("points_extrapolated", ext); h_metric("points_kept", plain);
    if (!(worst <= 1)) { size_t j = (size_t)wb * M + wi; snprintf(sig, sizeof sig, "%s-%s", what, name); h_violation(sig, "block %d, point %zu (xi=%.10g): %.12g%+.12gi, but full %.12g%+.12gi and half %.12g%+.12gi combine to %.12g%+.12gi (factor %.6g, %.3g x tolerance): %s", wb, wi, xi_at(XI, M, wi), creal(out[j]), cimag(out[j]), creal(full[j]), cimag(full[j]), creal(sub[j]), cimag(sub[j]), creal(we), cimag(we), scl, worst, ds); }
}
/* fills [rho|a|b] style arrays from a and b; returns 0 if rho is too ill-conditioned */
static void blocks2(size_t M, const cplx *a, const cplx *b, double tol, int type, cplx *o, double *t) {
    FOR(i, M) { double s = fmax(1, fmax(cabs(a[i]), cabs(b[i]))), ta = tol * s, c = fmax(cabs(a[i]), 1e-300); cplx q = b[i] / a[i]; double tr = 4 * ta * (1 + cabs(q)) / c; if (!(tr < 1e6)) tr = 1e6;
        if (type == 0) o[i] = q, t[i] = tr; else if (type == 1) o[i] = a[i], o[M + i] = b[i], t[i] = t[M + i] = ta; else { o[i] = q; o[M + i] = a[i]; o[2 * M + i] = b[i]; t[i] = tr; t[M + i] = t[2 * M + i] = ta; } }
}
static const int nblk2[3] = { 1, 2, 3 };
static void merge(size_t n, double *t, const double *u) { FOR(i, n) t[i] = fmax(t[i], u[i]); }
static void c14_nse(rng_t *r, long idx) {
    cse_t c; cse_gen(r, idx, &c, h_thorough ? 300 : 110, 0); size_t M = c.M, ns, Ds; if (c.D == 5) { cse_free(&c); return; }
    half(c.D, &ns, &Ds); int type = ri(r, 0, 2); const char *ds = cse_desc(&c); char nm[90]; snprintf(nm, sizeof nm, "nsev-%s", nse_name[c.d]);
    if (rb(r, .6)) { double w = M_PI / (2 * c.h) * rr(r, .1, 1); c.XI[0] = -w * rr(r, 0, 1); c.XI[1] = w; if (M < 3) M = c.M = 3; ds = cse_desc(&c); }
    cplx *o = h_calloc_c(3 * M), *fa = h_calloc_c(M), *fb = h_calloc_c(M), *sa = h_calloc_c(M), *sb = h_calloc_c(M), *F = h_calloc_c(3 * M), *S = h_calloc_c(3 * M); double *t = h_calloc_r(3 * M), *u = h_calloc_r(3 * M);
    fnft_nsev_opts_t op = fnft_nsev_default_opts(); op.discretization = c.d; op.contspec_type = type; op.normalization_flag = c.norm; op.richardson_extrapolation_flag = 1; msgs_reset();
    int k = fnft_nsev((uint_)c.D, c.q, c.T, (uint_)M, o, c.XI, NULL, NULL, NULL, c.kappa, &op);
    if (k == -FNFT_EC_DIV_BY_ZERO && type != 1) goto end;
    if (k) { h_violation("nsev-fails", "rc=%d (%s): %s", k, msgs.first, ds); goto end; }
    scat_t f, s; scat_init(&f, c.d, c.D, c.q, c.T, c.kappa); scat_init_sub(&s, c.d, c.D, c.q, c.T, c.kappa, ns, Ds);
    FOR(i, M) { double xi = xi_at(c.XI, M, i); scat_ab(&f, xi, fa + i, fb + i); scat_ab(&s, xi, sa + i, sb + i); }
    /* the half resolution may be far outside of the region where the scheme is bounded */
    double g = fmax(cmaxabs(sa, M), cmaxabs(sb, M)), tol = cse_tol(&c) * 3; int n = nblk2[type];
    blocks2(M, fa, fb, tol, type, F, t); blocks2(M, sa, sb, tol * fmax(1, g), type, S, u); merge((size_t)n * M, t, u);
    if (c.D > 2) combine_check("contspec", nm, M, c.XI, n, F, S, t, o, pow((double)ns, order_nse(c.d)), c.h * (double)ns, ds);
    scat_free(&f); scat_free(&s); h_eval(c.l1 > 1e-3, "nse %s type=%d", ds, type); if (idx < 3) h_sample("%s", ds);
end: h_free(o); h_free(fa); h_free(fb); h_free(sa); h_free(sb); h_free(F); h_free(S); h_free(t); h_free(u); cse_free(&c);
}
static void c14_kdv(rng_t *r, long idx) {
    kse_t c; kse_gen(r, idx, &c, h_thorough ? 240 : 90); size_t M = c.M, ns, Ds; if (c.D == 5) { h_free(c.q); return; }
    half(c.D, &ns, &Ds); int type = ri(r, 0, 2); const char *ds = kse_desc(&c); char nm[90]; snprintf(nm, sizeof nm, "kdvv-%s", kname(c.d));
    cplx *o = h_calloc_c(3 * M), *fa = h_calloc_c(M), *fb = h_calloc_c(M), *sa = h_calloc_c(M), *sb = h_calloc_c(M), *F = h_calloc_c(3 * M), *S = h_calloc_c(3 * M); double *t = h_calloc_r(3 * M), *u = h_calloc_r(3 * M);
    fnft_kdvv_opts_t op = fnft_kdvv_default_opts(); op.discretization = c.d; op.contspec_type = type; op.normalization_flag = c.norm; op.richardson_extrapolation_flag = 1; msgs_reset();
    int k = fnft_kdvv((uint_)c.D, c.q, c.T, (uint_)M, o, c.XI, NULL, NULL, NULL, &op);
    if (k) { h_violation("kdvv-fails", "rc=%d (%s): %s", k, msgs.first, ds); goto end; }
    ks_t f = { .van = c.d < 28 }, s = f; scat_init(&f.s, c.d % 28, c.D, c.q, c.T, f.van ? 0 : 2); scat_init_sub(&s.s, c.d % 28, c.D, c.q, c.T, f.van ? 0 : 2, ns, Ds);
    double mn = INFINITY; FOR(i, M) { double xi = xi_at(c.XI, M, i); mn = fmin(mn, fabs(xi)); ks_ab(&f, xi, fa + i, fb + i); ks_ab(&s, xi, sa + i, sb + i); }
    double g = fmax(cmaxabs(sa, M), cmaxabs(sb, M)), tol = ktol(&c) * 3 / fmin(1, mn); int n = nblk2[type];
    blocks2(M, fa, fb, tol, type, F, t); blocks2(M, sa, sb, tol * fmax(1, g), type, S, u); merge((size_t)n * M, t, u);
    combine_check("contspec", nm, M, c.XI, n, F, S, t, o, pow((double)ns, order_nse(c.d % 28)), c.h * (double)ns, ds);
    scat_free(&f.s); scat_free(&s.s); h_eval(c.l1 > 1e-3, "kdv %s type=%d", ds, type); if (idx < 3) h_sample("%s", ds);
end: h_free(o); h_free(fa); h_free(fb); h_free(sa); h_free(sb); h_free(F); h_free(S); h_free(t); h_free(u); h_free(c.q);
}
static void c14_mana(rng_t *r, long idx) {
    mse_t c; mse_gen(r, idx, &c, h_thorough ? 200 : 64); size_t M = c.M, ns, Ds; const char *ds = mse_desc(&c); if (c.D == 5 || c.D == 2 || (c.D < 6 && man_order[c.d] == 4)) { mse_free(&c); return; } /* a subsampled signal of two samples cannot be resampled */
    if (c.d == 10 || c.d == 12) { /* no order is declared */ }
    half(c.D, &ns, &Ds); int type = ri(r, 0, 2), n = type == 0 ? 2 : type == 1 ? 3 : 5; char nm[90]; snprintf(nm, sizeof nm, "manakovv-%s", man_name[c.d]);
    if (rb(r, .6)) { double w = M_PI / (2 * c.h) * rr(r, .1, 1); c.XI[0] = -w * rr(r, 0, 1); c.XI[1] = w; if (M < 3) M = c.M = 3; ds = mse_desc(&c); }
    cplx *o = h_calloc_c(5 * M), *F = h_calloc_c(5 * M), *S = h_calloc_c(5 * M), *s1 = h_calloc_c(Ds), *s2 = h_calloc_c(Ds); double *t = h_calloc_r(5 * M);
    fnft_manakovv_opts_t op = fnft_manakovv_default_opts(); op.discretization = c.d; op.contspec_type = type; op.normalization_flag = c.norm; op.richardson_extrapolation_flag = 1; msgs_reset();
    int k = fnft_manakovv((uint_)c.D, c.q1, c.q2, c.T, (uint_)M, o, c.XI, NULL, NULL, NULL, c.kappa, &op);
    if (k && (!man_deg[c.d])) { h_metric("manakov_schemes_without_order_rejected", 1); goto end; }
    if (k) { h_violation("manakovv-fails", "rc=%d (%s): %s", k, msgs.first, ds); goto end; }
    FOR(i, Ds) { s1[i] = c.q1[i * ns]; s2[i] = c.q2[i * ns]; } double Ts[2] = { c.T[0], c.T[0] + c.h * (double)(ns * (Ds - 1)) }, tol = 3 * mtol(&c);
    man_t f, s; man_init(&f, c.d, c.D, c.q1, c.q2, c.T, c.kappa); man_init(&s, c.d, Ds, s1, s2, Ts, c.kappa);
    FOR(i, M) { double xi = xi_at(c.XI, M, i), sc = 1; cplx v[2][3]; man_ab(&f, xi, v[0], v[0] + 1, v[0] + 2); man_ab(&s, xi, v[1], v[1] + 1, v[1] + 2); for (int j = 0; j < 3; j++) sc = fmax(sc, fmax(cabs(v[0][j]), cabs(v[1][j]) * cabs(v[1][j])));
        for (int z = 0; z < 2; z++) { cplx *p = z ? S : F, *w = v[z]; int b = 0; if (type != 1) for (int j = 0; j < 2; j++, b++) { p[(size_t)b * M + i] = w[1 + j] / w[0]; double q = 4 * tol * sc * (1 + cabs(w[1 + j] / w[0])) / fmax(1e-300, cabs(w[0])); t[(size_t)b * M + i] = fmax(t[(size_t)b * M + i], fmin(q, 1e6)); } if (type) for (int j = 0; j < 3; j++, b++) { p[(size_t)b * M + i] = w[j]; t[(size_t)b * M + i] = tol * sc; } } }
    combine_check("contspec", nm, M, c.XI, n, F, S, t, o, pow((double)ns, man_order[c.d]), c.h * (double)ns, ds);
    man_free(&f); man_free(&s); h_eval(c.l1 > 1e-3, "manakov %s type=%d", ds, type); if (idx < 3) h_sample("%s", ds);
end: h_free(o); h_free(F); h_free(S); h_free(s1); h_free(s2); h_free(t); mse_free(&c);
}
/* ---- bound states ---- */
typedef cplx (*afun_t)(void *, cplx); 
static cplx newton(afun_t a, afun_t da, void *p, cplx x, double sc, int *ok) { *ok = 0; for (int i = 0; i < 40; i++) { cplx s = a(p, x) / da(p, x); x -= s; if (!(cabs(x) < 1e6)) return x; if (cabs(s) < 1e-13 * (cabs(x) + sc)) { *ok = 1; return x; } } *ok = cabs(a(p, x) / da(p, x)) < 1e-10 * (cabs(x) + sc); return x; }
static cplx n_a(void *p, cplx x) { cplx a, b; scat_ab(p, x, &a, &b); return a; }
static cplx n_da(void *p, cplx x) { return ref_nse_da(p, x); }
static cplx k_a(void *p, cplx x) { cplx a, b; ks_ab(p, x, &a, &b); return a; }
static cplx k_da(void *p, cplx x) { return ks_da(p, x); }
/* l, b, r: plain results; L, B, R: extrapolated results; ls, das: half resolution */
static void bs_check(const char *name, size_t K, const cplx *l, const cplx *b, const cplx *r, const cplx *L, const cplx *B, const cplx *R, const cplx *ls, const cplx *das, const int *ok, double scl, double h, double len, int resok, const char *ds) {
    char sig[96];
    FOR(i, K) { int j = -1, amb = 0; double best = h; FOR(k, K) { if (!ok[k]) { amb = 1; continue; } double e = cabs(l[i] - ls[k]) / cabs(l[i]); if (fabs(e - h) < .02 * h) amb = 1; if (e < best) best = e, j = (int)k; }
        if (best < h && best > .08) amb = 1; /* so far away that the refinement may end elsewhere */
        if (amb) { h_metric("bound_states_ambiguous", 1); continue; }
        cplx want = j < 0 ? l[i] : (scl * l[i] - ls[j]) / (scl - 1), a1 = b[i] / r[i], ax = j < 0 ? a1 : (scl * a1 - das[j]) / (scl - 1), rw = b[i] / ax; double tol = 1e-6 * (1 / len + cabs(l[i]));
        h_metric(j < 0 ? "bound_states_kept" : "bound_states_extrapolated", 1); h_max("bound_state_error_over_tolerance", cabs(L[i] - want) / tol);
        if (!(cabs(L[i] - want) <= tol)) { snprintf(sig, sizeof sig, "bound-state-%s", name); h_violation(sig, "bound state %zu: %.12g%+.12gi, but full %.12g%+.12gi and half %.12g%+.12gi (relative distance %.3g, limit %.3g) combine to %.12g%+.12gi: %s", i, creal(L[i]), cimag(L[i]), creal(l[i]), cimag(l[i]), j < 0 ? 0 : creal(ls[j]), j < 0 ? 0 : cimag(ls[j]), best, h, creal(want), cimag(want), ds); return; }
        if (B && !(cabs(B[i] - b[i]) <= 1e-9 * cabs(b[i]))) { snprintf(sig, sizeof sig, "normconst-%s", name); h_violation(sig, "norming constant %zu changed from %.12g%+.12gi to %.12g%+.12gi: %s", i, creal(b[i]), cimag(b[i]), creal(B[i]), cimag(B[i]), ds); return; }
        if (R && resok) { double e = cabs(R[i] / rw - 1), t = 1e-5 * (1 + (cabs(a1) + (j < 0 ? 0 : cabs(das[j]))) / cabs(ax)); h_max("residue_error_over_tolerance", e / t);
            if (!(e <= t)) { snprintf(sig, sizeof sig, "residue-%s", name); h_violation(sig, "residue %zu is %.10g%+.10gi, expected %.10g%+.10gi (full %.10g%+.10gi, a' full %.8g%+.8gi, extrapolated %.8g%+.8gi): %s", i, creal(R[i]), cimag(R[i]), creal(rw), cimag(rw), creal(r[i]), cimag(r[i]), creal(a1), cimag(a1), creal(ax), cimag(ax), ds); return; } }
    }
}
static void c14_nse_bs(rng_t *r, long idx) {
    int d = (int)(idx % 28), fast = nse_is_fast(d), loc = fast ? ri(r, 0, 2) : 1; dse_t c; size_t D = loc == 1 ? (size_t)ri(r, 24, 120) : degcap(r, d, 600); if (D < 24) D = 24; dse_gen(r, d, D, &c); const char *ds = dse_desc(&c); char nm[90]; snprintf(nm, sizeof nm, "nsev-%s", nse_name[d]); size_t ns, Ds; half(D, &ns, &Ds);
    fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = d; o.normalization_flag = c.norm; o.bound_state_localization = loc; o.bound_state_filtering = 2; o.niter = 30; o.discspec_type = 2; cplx guess[40]; size_t ng = 0; cplx *q2 = NULL; ds_t x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y);
    if (loc == 1) { /* guesses from a fast scheme */ fnft_nsev_opts_t g = o; g.discretization = 4; g.bound_state_localization = 0; ds_t z = run_ds(&g, D, c.q, c.T, NULL, 0, 0); FOR(i, z.K) if (ng < 40) guess[ng++] = z.l[i]; ds_free(&z); if (!ng) goto end; o.bound_state_filtering = 0; }
    x = run_ds(&o, D, c.q, c.T, guess, ng, 0); if (x.rc) { h_incon("rc=%d", x.rc); goto end; } o.richardson_extrapolation_flag = 1; y = run_ds(&o, D, c.q, c.T, guess, ng, 0);
    if (y.rc && x.K) { h_incon("rc=%d with extrapolation", y.rc); h_metric("extrapolated_call_fails", 1); goto end; }
    if (y.rc || y.K != x.K) { h_violation("nsev-count", "rc=%d, %u bound states with extrapolation, %u without (%s): %s", y.rc, (unsigned)y.K, (unsigned)x.K, msgs.first, ds); goto end; }
    if (x.K && x.K < 40) { scat_t s; scat_init_sub(&s, d, D, c.q, c.T, 1, ns, Ds); s.d = ref_base(d); cplx ls[40], da[40]; int ok[40]; int good = 1;
        FOR(i, x.K) { ls[i] = newton(n_a, n_da, &s, x.l[i], 1 / (c.T[1] - c.T[0]), ok + i); da[i] = n_da(&s, ls[i]); if (!(cimag(ls[i]) * (c.T[1] - c.T[0]) > .1) || cabs(da[i]) < 1e-6 * (c.T[1] - c.T[0])) ok[i] = 0; for (size_t j = 0; j < i; j++) if (cabs(ls[i] - ls[j]) < 1e-6) ok[i] = 0; if (!ok[i]) good = 0; }
        if (loc != 1 && !good) h_metric("half_resolution_without_zero", 1); else {
        int cw = d == 24 || d == 25; bs_check(nm, x.K, x.l, x.b, x.r, y.l, y.b, y.r, ls, da, ok, pow((double)ns, order_nse(d)), c.h, c.T[1] - c.T[0], !cw, ds);
        /* one output type at a time */
        for (int type = 0; type < 2; type++) { uint_ K = x.K + (uint_)ri(r, 0, 3); if (loc == 1) K = (uint_)ng; else if (K < maxK(D, d)) K = maxK(D, d); cplx *l = h_calloc_c(K), *v = h_calloc_c(K); if (loc == 1) memcpy(l, guess, ng * sizeof(cplx)); fnft_nsev_opts_t p = o; p.discspec_type = type; int rc = fnft_nsev((uint_)D, c.q, c.T, 0, NULL, NULL, &K, l, v, 1, &p), bad = rc || K != y.K; if (!bad) FOR(i, K) { cplx w = type ? y.r[i] : y.b[i]; if (!(cabs(v[i] - w) <= 1e-8 * cabs(w)) || !(cabs(l[i] - y.l[i]) <= 1e-9 * (1 + cabs(l[i])))) bad = 1; } if (bad) h_violation(type ? "nsev-type-residues" : "nsev-type-normconsts", "rc=%d K=%u/%u: differs from the output with both: %s", rc, (unsigned)K, (unsigned)y.K, ds); h_free(l); h_free(v); } }
        scat_free(&s); }
    h_eval(x.K > 0, "nse bound states %s loc=%d", ds, loc);
end: ds_free(&x); ds_free(&y); h_free(q2); dse_free(&c);
}
static kd_t kd_rich(int d, size_t D, const cplx *q, const double *T, int norm, double spacing, int type, const cplx *g, size_t ng, int rich) {
    kd_t x; memset(&x, 0, sizeof x); fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = d; o.normalization_flag = norm; o.niter = 60; o.discspec_type = type; o.bound_state_localization = g ? 0 : 1; o.grid_spacing = spacing; o.richardson_extrapolation_flag = (uint_)rich; size_t cap = g ? ng : 40;
    x.l = h_calloc_c(cap); x.b = h_calloc_c(cap); x.r = h_calloc_c(cap); cplx *nr = h_calloc_c(2 * cap); if (g) memcpy(x.l, g, ng * sizeof *g); uint_ K = (uint_)cap; msgs_reset(); x.rc = fnft_kdvv((uint_)D, (cplx *)q, (double *)T, 0, NULL, NULL, &K, x.l, nr, &o); x.K = x.rc ? 0 : K;
    if (type != 1) memcpy(x.b, nr, x.K * sizeof(cplx)); if (type) memcpy(x.r, nr + (type == 2 ? x.K : 0), x.K * sizeof(cplx)); h_free(nr); return x;
}
static void c14_kdv_bs(rng_t *r, long idx) {
    int d = (int)(idx % 56); kb_t c; kb_gen(r, d, (size_t)ri(r, 40, 130), &c); const char *ds = kb_desc(&c); char nm[90]; snprintf(nm, sizeof nm, "kdvv-%s", kname(d)); double mx = 0; FOR(i, c.D) mx = fmax(mx, creal(c.q[i])); kd_t x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); size_t ns, Ds; half(c.D, &ns, &Ds);
    if (!(mx > 0) || sqrt(mx) * c.h > .35 || sqrt(mx) * c.L > 50) { h_metric("unresolved_signals_skipped", 1); goto end; }
    double sp = sqrt(mx) / 40; x = kd_rich(d, c.D, c.q, c.T, c.norm, sp, 2, NULL, 0, 0); int nw = rb(r, .4) && x.K; cplx g[40]; size_t ng = 0; if (nw) { ng = x.K; FOR(i, ng) g[i] = x.l[i] * (1 + 1e-3 * rr(r, -1, 1)); kd_free(&x); x = kd_rich(d, c.D, c.q, c.T, c.norm, 0, 2, g, ng, 0); }
    if (x.rc) { h_incon("rc=%d", x.rc); goto end; }
    y = kd_rich(d, c.D, c.q, c.T, c.norm, sp, 2, nw ? g : NULL, ng, 1); if (y.rc && x.K) { h_metric("extrapolated_call_fails", 1); h_incon("rc=%d with extrapolation", y.rc); goto end; }
    if (y.rc || y.K != x.K) { h_violation("kdvv-count", "rc=%d, %u bound states with extrapolation, %u without: %s", y.rc, (unsigned)y.K, (unsigned)x.K, ds); goto end; }
    int b = d % 28; ks_t s = { .van = d < 28 }; scat_init_sub(&s.s, b, c.D, c.q, c.T, s.van ? 0 : 2, ns, Ds); s.s.d = ref_base(b); cplx ls[40], da[40]; int ok[40], good = 1;
    FOR(i, x.K) { ls[i] = newton(k_a, k_da, &s, x.l[i], 1 / c.L, ok + i); da[i] = k_da(&s, ls[i]); if (!(b == 24 || b == 25)) da[i] = I * cimag(da[i]); if (!(cimag(ls[i]) * c.L > .1) || !(cabs(da[i]) > 1e-9)) ok[i] = 0; for (size_t j = 0; j < i; j++) if (cabs(ls[i] - ls[j]) < 1e-6 / c.L) ok[i] = 0; good &= ok[i]; if (cimag(x.l[i]) * c.L < .3) good = 0; }
    if (good) { bs_check(nm, x.K, x.l, x.b, x.r, y.l, y.b, y.r, ls, da, ok, pow((double)ns, order_nse(b)), c.h, c.L, b != 24 && b != 25, ds);
        for (int type = 0; type < 2; type++) { kd_t z = kd_rich(d, c.D, c.q, c.T, c.norm, sp, type, nw ? g : NULL, ng, 1); int bad = z.rc || z.K != y.K; if (!bad) FOR(i, z.K) { cplx v = type ? z.r[i] : z.b[i], w = type ? y.r[i] : y.b[i]; if (!(cabs(v - w) <= 1e-8 * cabs(w)) || !(cabs(z.l[i] - y.l[i]) <= 1e-9 * cabs(y.l[i]))) bad = 1; } if (bad) h_violation(type ? "kdvv-type-residues" : "kdvv-type-normconsts", "rc=%d K=%u/%u: differs from the output with both: %s", z.rc, (unsigned)z.K, (unsigned)y.K, ds); kd_free(&z); } }
    else h_metric("half_resolution_without_zero", 1);
    scat_free(&s.s); h_eval(x.K > 0, "kdv bound states %s newton=%d", ds, nw);
end: kd_free(&x); kd_free(&y); h_free(c.q);
}
/* ---- the extrapolation pays off for smooth signals ---- */
static void c14_gain(rng_t *r, long idx) {
    int w = (int)(idx % 3); idx /= 3; double L = rr(r, 12, 24), T[2]; T[0] = -L / 2 + rr(r, -3, 3); T[1] = T[0] + L; asig_t s, s2; int d, kappa = 1, p; char ds[240], nm[80]; size_t M = 4; cplx tr[12], t2[12], o[2][12]; size_t nb;
    if (w == 0) d = (int)(idx % 28), kappa = rb(r, .6) ? 1 : -1, p = order_nse(d); else if (w == 1) d = (int)(idx % 56), p = order_nse(d % 28); else { static const int l[10] = { 0, 1, 2, 3, 5, 6, 8, 9, 10, 11 }; d = l[idx % 10]; if (!man_deg[d] || d == 9) d = 0; kappa = rb(r, .6) ? 1 : -1; p = man_order[d]; }
    asig_gen(r, &s, T, w == 1 ? rr(r, .2, 1.2) : rr(r, .5, 2), w == 1); asig_gen(r, &s2, T, rr(r, .3, 1.2), 0); FOR(k, 4) { s.f[k] *= .5; s.ch[k] *= .4; s2.f[k] *= .5; s2.ch[k] *= .4; }
    double XI[2] = { w == 1 ? rr(r, .4, .7) : rr(r, -1.2, -.3), rr(r, .9, 1.5) }; nb = w == 2 ? 3 : 2;
    FOR(i, M) { double xi = xi_at(XI, M, i); if (w == 0) { ref_true_nse(&s, T, kappa, xi, 1200, tr + i, tr + M + i); ref_true_nse(&s, T, kappa, xi, 900, t2 + i, t2 + M + i); } else if (w == 1) { ref_true_kdv(&s, T, xi, 1200, tr + i, tr + M + i); ref_true_kdv(&s, T, xi, 900, t2 + i, t2 + M + i); } else { ref_true_mana(&s, &s2, T, kappa, xi, 500, tr + i, tr + M + i, tr + 2 * M + i); ref_true_mana(&s, &s2, T, kappa, xi, 400, t2 + i, t2 + M + i, t2 + 2 * M + i); } }
    int big = w != 2 && nse_deg[d % 28] >= 12; size_t D = big ? (size_t)ri(r, 64, 90) : w == 2 ? (size_t)ri(r, 90, 130) : p >= 4 ? (size_t)ri(r, 90, 140) : (size_t)ri(r, 150, 220); cplx *q = h_calloc_c(D), *q2 = h_calloc_c(D); asig_sample(&s, D, T, q); asig_sample(&s2, D, T, q2); double e[2]; int rc = 0;
    snprintf(nm, sizeof nm, "%s-%s", w == 0 ? "nsev" : w == 1 ? "kdvv" : "manakovv", w == 0 ? nse_name[d] : w == 1 ? kname(d) : man_name[d]); snprintf(ds, sizeof ds, "%s kappa=%d D=%zu T=[%.5g,%.5g] XI=[%.4g,%.4g] A=%.4g w=%.4g", nm, kappa, D, T[0], T[1], XI[0], XI[1], s.A[0], s.w[0]);
    for (int k = 0; k < 2; k++) {
        if (w == 0) { fnft_nsev_opts_t op = fnft_nsev_default_opts(); op.discretization = d; op.contspec_type = 1; op.richardson_extrapolation_flag = (uint_)k; rc |= fnft_nsev((uint_)D, q, T, (uint_)M, o[k], XI, NULL, NULL, NULL, kappa, &op); }
        else if (w == 1) { fnft_kdvv_opts_t op = fnft_kdvv_default_opts(); op.discretization = d; op.contspec_type = 1; op.richardson_extrapolation_flag = (uint_)k; rc |= fnft_kdvv((uint_)D, q, T, (uint_)M, o[k], XI, NULL, NULL, NULL, &op); }
        else { fnft_manakovv_opts_t op = fnft_manakovv_default_opts(); op.discretization = d; op.contspec_type = 1; op.richardson_extrapolation_flag = (uint_)k; rc |= fnft_manakovv((uint_)D, q, q2, T, (uint_)M, o[k], XI, NULL, NULL, NULL, kappa, &op); }
        e[k] = cdist(o[k], tr, nb * M); }
    h_free(q); h_free(q2); if (rc) { h_violation("gain-fails", "rc=%d: %s", rc, ds); return; }
    double sc = cmaxabs(tr, nb * M), fl = fmax(cdist(tr, t2, nb * M) * 3, (big ? 1e-6 : 1e-9) * sc); int ok = e[0] < .02 * sc && e[0] > 10 * fl; char n[90]; snprintf(n, sizeof n, "max_error_ratio_%s", nm); if (ok) h_max(n, e[1] / e[0]), h_metric("gains_observed", 1);
    double gr = strstr(nm, "SPLIT3") || strstr(nm, "SPLIT5") ? 4 : 1.3; /* methods of odd order: the terms of order 2 and 3 can have opposite signs */
    if (ok && !(e[1] <= e[0] * gr + fl)) { snprintf(n, sizeof n, "error-grows-%s", nm); h_violation(n, "error %.4g without, %.4g with extrapolation (scale %.3g): %s", e[0], e[1], sc, ds); }
    h_eval(ok, "gain %s", ds);
}
void c14(long idx) {
    rng_t r = rng_make(h_seed, 14, (uint64_t)idx); long k = idx / 10;
    switch (idx % 10) { case 0: case 1: c14_nse(&r, 2 * k + idx % 10); break; case 2: case 3: c14_kdv(&r, 2 * k + idx % 10 - 2); break; case 4: case 5: c14_mana(&r, 2 * k + idx % 10 - 4); break; case 6: case 7: c14_nse_bs(&r, 2 * k + idx % 10 - 6); break; case 8: c14_kdv_bs(&r, k); break; default: c14_gain(&r, k); }
}
