#include "h.h"
const char *kind_name[NKINDS] = { "nsev", "nsep", "kdvv", "manakovv", "nsev_inverse" };
/* order of the enumerators of fnft_nse_discretization_t */
const char *nse_name[28] = { "2SPLIT2_MODAL","BO","2SPLIT1A","2SPLIT1B","2SPLIT2A","2SPLIT2B","2SPLIT2S","2SPLIT3A","2SPLIT3B","2SPLIT3S","2SPLIT4A","2SPLIT4B","2SPLIT5A","2SPLIT5B","2SPLIT6A","2SPLIT6B","2SPLIT7A","2SPLIT7B","2SPLIT8A","2SPLIT8B","4SPLIT4A","4SPLIT4B","CF4_2","CF4_3","CF5_3","CF6_4","ES4","TES4" };
const int nse_deg[28] = { 1,1,1,1,1,1,1,3,3,2,4,2,15,15,12,6,105,105,24,12,4,2,1,1,1,1,1,1 };
const int nse_ups[28] = { 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,3,3,4,3,3 };
const int nse_order[28] = { 2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,4,4,4,4,5,6,4,4 };
const char *man_name[13] = { "2SPLIT3A","2SPLIT3B","2SPLIT4A","2SPLIT4B","2SPLIT6B","4SPLIT4A","4SPLIT4B","4SPLIT6B","FTES4_4A","FTES4_4B","FTES4_suzuki","CF4_2","BO" };
const int man_deg[13] = { 6,6,8,4,12,8,4,12,8,8,14,1,1 };
const int man_ups[13] = { 1,1,1,1,1,2,2,2,1,1,1,2,1 };
int nse_is_fast(int d) { return d != 1 && d < 22; }

size_t opts_size(int k) { switch (k) { case K_NSEV: return sizeof(fnft_nsev_opts_t); case K_NSEP: return sizeof(fnft_nsep_opts_t); case K_KDVV: return sizeof(fnft_kdvv_opts_t); case K_MANA: return sizeof(fnft_manakovv_opts_t); default: return sizeof(fnft_nsev_inverse_opts_t); } }
void opts_defaults(int k, void *dst) {
    switch (k) {
    case K_NSEV: *(fnft_nsev_opts_t *)dst = fnft_nsev_default_opts(); break;
    case K_NSEP: *(fnft_nsep_opts_t *)dst = fnft_nsep_default_opts(); break;
    case K_KDVV: *(fnft_kdvv_opts_t *)dst = fnft_kdvv_default_opts(); break;
    case K_MANA: *(fnft_manakovv_opts_t *)dst = fnft_manakovv_default_opts(); break;
    default: *(fnft_nsev_inverse_opts_t *)dst = fnft_nsev_inverse_default_opts(); break;
    }
}

void gen_signal(rng_t *r, uint_ D, const double *T, cplx *q, int real_only, int periodic, int tame, char *desc) {
    double L = T[1] - T[0], h = periodic ? L / D : L / (D > 1 ? D - 1 : 1);
    int type = ri(r, 0, tame ? 3 : 10);
    double A = tame ? rr(r, 0.2, 2.5) : rlog(r, 0.05, 8);
    const char *nm = "?";
    FOR(i, D) q[i] = 0;
    switch (type) {
    case 0: { nm = "gauss-sum"; int n = ri(r, 1, 3);
        for (int k = 0; k < n; k++) { double c = T[0] + L * rr(r, .3, .7), w = L * rr(r, .04, .12), f = rr(r, -2, 2), ph = rr(r, 0, 6.28), ch = rr(r, -.5, .5), a = A / (w * 3) * rr(r, .3, 1.2);
            FOR(i, D) { double t = T[0] + h * i - c; cplx e = periodic ? cexp(I * (ph + 2 * M_PI / L * round(f) * t)) : cexp(I * (ph + f / w * t + ch * t * t / (w * w))); if (real_only) e = cos(ph); q[i] += a * exp(-t * t / (2 * w * w)) * e; } } break; }
    case 1: { nm = "sech"; double c = T[0] + L * rr(r, .4, .6), w = L * rr(r, .03, .08), ph = rr(r, 0, 6.28), f = real_only ? 0 : rr(r, -1, 1) / w;
        FOR(i, D) { double t = (T[0] + h * i - c) / w; q[i] = A / w / 3.2 / cosh(t) * (real_only ? 1 / cosh(t) * (ph < 5 ? 1 : -1) : cexp(I * (ph + f * t * w))); } break; }
    case 2: { nm = "trig"; int n = ri(r, 1, 4);
        for (int k = 0; k < n; k++) { int m = ri(r, -3, 3); cplx a = A / L * rc(r);
            FOR(i, D) { double t = 2 * M_PI * m * i * h / L; double win = periodic ? 1 : pow(sin(M_PI * (i + .5) / D), 4); q[i] += win * (real_only ? creal(a) * cos(t) : a * cexp(I * t)); } } break; }
    case 3: { nm = "rect"; double a = rr(r, .2, .5), b = rr(r, .5, .8); cplx v = (real_only ? 1 : cexp(I * rr(r, 0, 6))) * A / (L * (b - a)); FOR(i, D) { double x = (double)i / D; q[i] = x >= a && x < b ? v : 0; } break; }
    case 4: nm = "zero"; break;
    case 5: { nm = "noise"; FOR(i, D) q[i] = real_only ? A / L * rn(r) : A / L * rc(r); break; }
    case 6: { nm = "spike"; q[ri(r, 0, (int)D - 1)] = real_only ? A / h * .3 : A / h * .3 * cexp(I * rr(r, 0, 6)); break; }
    case 7: { nm = "tiny"; double s = rlog(r, 1e-300, 1e-8); FOR(i, D) q[i] = real_only ? s * rn(r) : s * rc(r); break; }
    case 8: { nm = "const"; cplx v = A / L * (real_only ? 1 : cexp(I * rr(r, 0, 6))); FOR(i, D) q[i] = v; break; }
    case 9: { nm = "big"; double s = rlog(r, 10, 200); FOR(i, D) { double x = (i + .5) / D; q[i] = s / L * exp(-40 * (x - .5) * (x - .5)) * (real_only ? 1 : cexp(I * 5 * x)); } break; }
    case 10: { nm = "alternating"; FOR(i, D) q[i] = (i & 1 ? -1. : 1.) * A / L * (real_only ? 1 : (i & 2 ? I : 1)); break; }
    }
    if (desc) strcpy(desc, nm);
}

static double *two(double a, double b) { double *p = h_malloc(2 * sizeof *p); p[0] = a; p[1] = b; return p; }
static int pickD(rng_t *r, int maxD, int pow2) {
    if (pow2) { int m = 1; while ((2 << m) <= maxD) m++; return 1 << ri(r, 1, m); }
    int k = ri(r, 0, 9); int D; if (ri(r, 0, 199) == 0) maxD *= 12;
    if (k < 2) D = ri(r, 2, 6); else if (k < 4) D = 1 << ri(r, 1, 6); else D = ri(r, 4, maxD);
    return D > maxD ? maxD : D;
}
void call_gen(rng_t *r, call_t *c, const gprof_t *pf) {
    memset(c, 0, sizeof *c);
    int mask = pf->kinds ? pf->kinds : 31, k;
    do k = ri(r, 0, NKINDS - 1); while (!(mask >> k & 1));
    c->kind = k; int maxD = pf->maxD ? pf->maxD : 64; char sd[32] = "", od[160] = "";
    double c0 = rb(r, .5) ? rr(r, -3, 3) : 0, L = rlog(r, 1, 30);
    if (k == K_INV && rb(r, .5)) c0 = 0;
    c->T = two(c0 - L / 2, c0 + L / 2);
    if (k == K_INV && rb(r, .5)) c->T[1] = -c->T[0];
    if (c->T[1] <= c->T[0]) c->T[1] = c->T[0] + L;
    c->kappa = rb(r, .7) ? 1 : -1; c->useK = c->useM = 1;
    opts_defaults(k, &c->o);
    c->has_opts = !rb(r, .08);
    int norm = rb(r, .6);
    c->D = (uint_)pickD(r, maxD, k == K_NSEP || k == K_INV);
    c->M = (uint_)ri(r, 1, 24);
    double w = rlog(r, .2, 10), xc = rb(r, .5) ? rr(r, -2, 2) : 0;
    c->XI = two(xc - w, xc + w * rr(r, .3, 1));
    switch (k) {
    case K_NSEV: {
        fnft_nsev_opts_t *o = &c->o.v;
        int d = ri(r, 0, 27), loc = ri(r, 0, 2);
        if (!nse_is_fast(d) && c->kappa == 1) loc = fnft_nsev_bsloc_NEWTON;
        if (d == 16 || d == 17) if (c->D > 16 && rb(r, .7)) c->D = (uint_)ri(r, 2, 16);
        o->discretization = d; o->bound_state_localization = loc; o->bound_state_filtering = ri(r, 0, 3);
        static const int nit[5] = { 0, 1, 3, 10, 100 }; o->niter = (uint_)nit[ri(r, 0, 4)];
        o->tol = rb(r, .6) ? -1 : rb(r, .3) ? 0 : rlog(r, 1e-14, 1e-2);
        o->Dsub = rb(r, .5) ? 0 : (uint_)ri(r, 2, (int)c->D);
        o->discspec_type = ri(r, 0, 2); o->contspec_type = ri(r, 0, 2); o->normalization_flag = norm;
        o->richardson_extrapolation_flag = rb(r, .3);
        if (o->bound_state_filtering == fnft_nsev_bsfilt_MANUAL) { double a = rr(r, .1, 10), b = rr(r, .1, 10); o->bounding_box[0] = -a; o->bounding_box[1] = a * rr(r, .1, 1); o->bounding_box[2] = rb(r, .7) ? 0 : -b; o->bounding_box[3] = b; }
        int want_bs = rb(r, .75);
        if (want_bs && c->kappa == 1 && loc != fnft_nsev_bsloc_NEWTON && c->has_opts) {
            int lim = pf->budget ? pf->budget : 600;
            uint_ De = c->D; if (loc == fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE) { De = o->Dsub ? o->Dsub * 3 / 2 : (uint_)(sqrt((double)c->D) * log2((double)c->D)) * 3 / 2; if (De > c->D) De = c->D; }
            if ((int)De * nse_deg[d] * nse_ups[d] > lim) { d = (int[]){ 0, 2, 3, 4, 5, 6, 9, 11 }[ri(r, 0, 7)]; o->discretization = d; }
        }
        c->q = h_calloc_c(c->D); gen_signal(r, c->D, c->T, c->q, 0, 0, pf->tame, sd);
        int dt = c->has_opts ? o->discspec_type : 0, ct = c->has_opts ? o->contspec_type : 0, lo = c->has_opts ? (int)o->bound_state_localization : (int)fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE;
        int want_cs = rb(r, .8); if (!want_cs && !want_bs) want_cs = 1;
        if (want_cs) c->ncs = c->M * (uint_)(ct == 0 ? 1 : ct == 1 ? 2 : 3);
        if (want_bs) { c->K = (uint_)(rb(r, .5) ? (int)c->D : ri(r, 0, 4)); if (lo == fnft_nsev_bsloc_NEWTON) c->K = (uint_)ri(r, 0, 5); c->nbs = c->K; c->bs = (cplx *)1; if (rb(r, .8)) { c->nc = (cplx *)1; c->nnc = dt == 2 ? 2 * c->K : c->K; } }
        else { c->useK = rb(r, .5); if (!want_cs) c->M = 0; if (c->useK) c->K = (uint_)ri(r, 0, 3); }
        if (lo == fnft_nsev_bsloc_NEWTON) { c->ngs = c->nbs; c->gs = h_calloc_c(c->ngs); FOR(i, c->ngs) c->gs[i] = rr(r, -2, 2) + I * rr(r, .02, 3); }
        if (!want_cs && rb(r, .5)) { h_free(c->XI); c->XI = NULL; }
        if (!want_cs && rb(r, .5)) c->M = 0;
        if (want_cs) c->cs = (cplx *)1;
        snprintf(od, sizeof od, "disc=%s loc=%d filt=%d niter=%zu tol=%g Dsub=%zu ds=%d cs=%d norm=%d rich=%d", nse_name[o->discretization], (int)o->bound_state_localization, (int)o->bound_state_filtering, (size_t)o->niter, o->tol, (size_t)o->Dsub, (int)o->discspec_type, (int)o->contspec_type, (int)o->normalization_flag, (int)o->richardson_extrapolation_flag);
        break; }
    case K_NSEP: {
        fnft_nsep_opts_t *o = &c->o.p;
        static const int ds[20] = { 0,2,3,4,5,6,7,8,9,10,11,14,15,18,19,12,13,20,21,4 };
        int d = ds[ri(r, 0, 19)], loc = ri(r, 0, 3);
        if (loc == fnft_nsep_loc_NEWTON && rb(r, .4)) d = rb(r, .5) ? 1 : 22;
        o->localization = loc; o->filtering = ri(r, 0, 2); o->discretization = d;
        static const int nit[4] = { 0, 1, 5, 30 }; o->max_evals = (uint_)nit[ri(r, 0, 3)];
        o->normalization_flag = norm; o->tol = rb(r, .6) ? -1 : rlog(r, 1e-14, 1e-3);
        if (rb(r, .3)) { o->floquet_range[0] = rr(r, -1, 0); o->floquet_range[1] = rr(r, 0, 1); }
        o->points_per_spine = (uint_)(rb(r, .6) ? 2 : ri(r, 1, 6));
        int lim = pf->budget ? pf->budget : 600;
        if ((int)c->D * nse_deg[d] * nse_ups[d] > lim && loc != fnft_nsep_loc_GRIDSEARCH && loc != fnft_nsep_loc_NEWTON) { d = (int[]){ 0, 2, 3, 4, 5, 6 }[ri(r, 0, 5)]; o->discretization = d; }
        o->Dsub = rb(r, .5) ? 0 : (uint_)1 << ri(r, 1, (int)lrint(log2((double)c->D)));
        if (o->filtering == fnft_nsep_filt_MANUAL) { double a = rr(r, .1, 20), b = rr(r, .1, 20); o->bounding_box[0] = -a; o->bounding_box[1] = a * rr(r, .1, 1); o->bounding_box[2] = -b; o->bounding_box[3] = b; }
        c->phase = rb(r, .5) ? 0 : rr(r, -3, 3);
        c->q = h_calloc_c(c->D); gen_signal(r, c->D, c->T, c->q, 0, 1, pf->tame, sd);
        int want_m = rb(r, .85), want_a = rb(r, .7);
        uint_ pps = c->has_opts ? o->points_per_spine : 2; int lo = c->has_opts ? (int)o->localization : (int)fnft_nsep_loc_SUBSAMPLE_AND_REFINE;
        if (c->has_opts && o->filtering != fnft_nsep_filt_NONE && !want_m && want_a && !pf->allow_invalid) want_m = 1;
        if (!c->has_opts && !want_m) want_m = 1;
        c->K = (uint_)(rb(r, .5) ? 2 * (int)c->D : ri(r, 0, 6)); c->Mx = (uint_)(rb(r, .5) ? (int)c->D : ri(r, 0, 6));
        if (lo == fnft_nsep_loc_NEWTON) { c->K = (uint_)ri(r, 0, 4); c->Mx = (uint_)ri(r, 0, 4); }
        if (want_m) { c->bs = (cplx *)1; c->nbs = lo == fnft_nsep_loc_NEWTON ? c->K * pps : c->K; }
        if (want_a) { c->nc = (cplx *)1; c->nnc = c->Mx; }
        if (lo == fnft_nsep_loc_NEWTON) { c->ngs = c->nbs + c->nnc; c->gs = h_calloc_c(c->ngs); FOR(i, c->ngs) c->gs[i] = rr(r, -3, 3) + I * (rb(r, .5) ? 0 : rr(r, -2, 2)); }
        h_free(c->XI); c->XI = NULL;
        snprintf(od, sizeof od, "disc=%s loc=%d filt=%d evals=%zu tol=%g Dsub=%zu pps=%zu phase=%g norm=%d", nse_name[o->discretization], (int)o->localization, (int)o->filtering, (size_t)o->max_evals, o->tol, (size_t)o->Dsub, (size_t)o->points_per_spine, c->phase, (int)o->normalization_flag);
        break; }
    case K_KDVV: {
        fnft_kdvv_opts_t *o = &c->o.k;
        int d = ri(r, 0, 55), loc = ri(r, 0, 1);
        if ((d % 28 == 16 || d % 28 == 17) && c->D > 16) c->D = (uint_)ri(r, 2, 16);
        o->discretization = d; o->bound_state_localization = loc; static const int nit[4] = { 0, 1, 5, 30 }; o->niter = (uint_)nit[ri(r, 0, 3)];
        o->discspec_type = ri(r, 0, 2); o->contspec_type = ri(r, 0, 2); o->normalization_flag = norm; o->richardson_extrapolation_flag = rb(r, .3); o->grid_spacing = rlog(r, .02, 1);
        c->q = h_calloc_c(c->D); gen_signal(r, c->D, c->T, c->q, 1, 0, pf->tame, sd);
        c->XI[0] = rr(r, .05, 1); c->XI[1] = c->XI[0] + rlog(r, .1, 5); if (rb(r, .3)) { double s = c->XI[0]; c->XI[0] = -c->XI[1]; c->XI[1] = -s; }
        int want_bs = rb(r, .75), want_cs = rb(r, .8); if (!want_cs && !want_bs) want_cs = 1;
        if (!c->has_opts && want_bs && !pf->allow_invalid) { c->has_opts = 1; }
        int dt = c->has_opts ? o->discspec_type : 0, ct = c->has_opts ? o->contspec_type : 0, lo = c->has_opts ? loc : -1;
        if (want_cs) { c->cs = (cplx *)1; c->ncs = c->M * (uint_)(ct == 0 ? 1 : ct == 1 ? 2 : 3); }
        if (want_bs) { c->K = (uint_)(rb(r, .6) ? (int)c->D : ri(r, 0, 4)); if (lo == fnft_kdvv_bsloc_NEWTON) c->K = (uint_)ri(r, 0, 4); c->nbs = c->K; c->bs = (cplx *)1; if (rb(r, .8)) { c->nc = (cplx *)1; c->nnc = dt == 2 ? 2 * c->K : c->K; } }
        else { c->useK = rb(r, .5); if (c->useK) c->K = (uint_)ri(r, 0, 3); }
        if (lo != fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE) { c->ngs = c->nbs; c->gs = h_calloc_c(c->ngs); FOR(i, c->ngs) c->gs[i] = I * rr(r, .05, 3); }
        if (!want_cs && rb(r, .5)) c->M = 0;
        if (!want_cs && rb(r, .5)) { h_free(c->XI); c->XI = NULL; }
        snprintf(od, sizeof od, "disc=%s%s loc=%d niter=%zu ds=%d cs=%d norm=%d rich=%d grid=%g", nse_name[d % 28], d < 28 ? "_VANILLA" : "", loc, (size_t)o->niter, (int)o->discspec_type, (int)o->contspec_type, norm, (int)o->richardson_extrapolation_flag, o->grid_spacing);
        break; }
    case K_MANA: {
        fnft_manakovv_opts_t *o = &c->o.m;
        int d; do d = ri(r, 0, 12); while (d == 9);
        int loc = rb(r, .5) ? fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE : ri(r, 0, 2);
        if (loc == fnft_manakovv_bsloc_NEWTON && !pf->allow_invalid) loc = fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE;
        if (c->D > 40) c->D = (uint_)ri(r, 2, 40);
        o->discretization = d; o->bound_state_localization = loc; o->bound_state_filtering = ri(r, 0, 2); o->niter = (uint_)ri(r, 0, 10);
        o->Dsub = rb(r, .5) ? 0 : (uint_)ri(r, 2, (int)c->D); o->discspec_type = ri(r, 0, 2); o->contspec_type = ri(r, 0, 2); o->normalization_flag = norm;
        o->richardson_extrapolation_flag = rb(r, .3) && d < 11;
        c->q = h_calloc_c(c->D); gen_signal(r, c->D, c->T, c->q, 0, 0, pf->tame, sd);
        c->q2 = h_calloc_c(c->D); if (rb(r, .8)) gen_signal(r, c->D, c->T, c->q2, 0, 0, pf->tame, NULL);
        int want_bs = rb(r, .6), want_cs = rb(r, .8); if (!want_cs && !want_bs) want_cs = 1;
        if (d >= 11 && c->kappa == 1 && !pf->allow_invalid) { want_bs = 0; want_cs = 1; }
        int lim = pf->budget ? pf->budget : 600;
        if (want_bs && c->kappa == 1 && (int)c->D * man_deg[d] * man_ups[d] > lim) { o->discretization = d = 3; if ((int)c->D * 4 > lim) { c->D = (uint_)(lim / 4); if (o->Dsub > c->D) o->Dsub = c->D; } }
        int ct = c->has_opts ? o->contspec_type : 0;
        if (want_cs) { c->cs = (cplx *)1; c->ncs = c->M * (uint_)(ct == 0 ? 2 : ct == 1 ? 3 : 5); }
        if (want_bs) { c->K = (uint_)(rb(r, .6) ? 2 * (int)c->D : ri(r, 0, 4)); c->nbs = c->K; c->bs = (cplx *)1; if (rb(r, .4) && pf->allow_invalid) { c->nc = (cplx *)1; c->nnc = 2 * c->K; } }
        else { c->useK = rb(r, .5); if (c->useK) c->K = (uint_)ri(r, 0, 3); }
        if (!want_cs && rb(r, .5)) c->M = 0;
        if (!want_cs && rb(r, .5)) { h_free(c->XI); c->XI = NULL; }
        snprintf(od, sizeof od, "disc=%s loc=%d filt=%d Dsub=%zu ds=%d cs=%d norm=%d rich=%d", man_name[d], (int)o->bound_state_localization, (int)o->bound_state_filtering, (size_t)o->Dsub, (int)o->discspec_type, (int)o->contspec_type, norm, (int)o->richardson_extrapolation_flag);
        break; }
    case K_INV: {
        fnft_nsev_inverse_opts_t *o = &c->o.i;
        o->discretization = rb(r, .5) ? fnft_nse_discretization_2SPLIT2A : fnft_nse_discretization_2SPLIT2_MODAL;
        o->oversampling_factor = (uint_)ri(r, 1, 8); o->max_iter = (uint_)(rb(r, .2) ? 1 : ri(r, 2, 60)); o->discspec_type = ri(r, 0, 1);
        int mode = ri(r, 0, 5); /* 0,1 refl; 2 B_OF_XI; 3 B_OF_TAU; 4 discrete only / seed; 5 AB_FROM_ITER */
        c->M = c->D * (uint_)(1 << ri(r, 0, 2)); c->K = 0; int withds = rb(r, .5);
        o->contspec_inversion_method = fnft_nsev_inverse_csmethod_DEFAULT;
        if (!c->has_opts && mode > 1) mode = 0;
        if (mode <= 1) { o->contspec_type = 0; if (rb(r, .3)) o->contspec_inversion_method = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF; }
        else if (mode == 2) o->contspec_type = 1;
        else if (mode == 3) { o->contspec_type = 2; c->M = c->D; double h = L / 2; c->T[0] = -h; c->T[1] = h; }
        else if (mode == 5) { o->contspec_type = 0; o->contspec_inversion_method = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER; c->M = c->D; c->kappa = -1; }
        if (mode == 4) { c->kappa = 1; withds = 1; if (rb(r, .5)) { o->contspec_inversion_method = fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; c->qseed = h_calloc_c(c->D); gen_signal(r, c->D, c->T, c->qseed, 0, 0, 1, NULL); } c->M = 0; }
        if (c->kappa != 1) withds = 0;
        if (!c->has_opts) { c->qseed = NULL; o->discretization = fnft_nse_discretization_2SPLIT2A; }
        if (withds && mode != 3) { c->K = (uint_)ri(r, 1, 3); c->nbs = c->nnc = c->K; c->bs = (cplx *)1; c->nc = (cplx *)1; c->ngs = 2 * c->K; c->gs = h_calloc_c(c->ngs);
            FOR(i, c->K) { c->gs[i] = rr(r, -2, 2) / L * 6 + I * (rr(r, .2, 1.5) + (double)i * .3) / L * 10; c->gs[c->K + i] = cexp(rr(r, -1, 1) + I * rr(r, 0, 6)); } }
        if (c->M == 0 && c->K == 0) c->M = c->D;
        h_free(c->XI); c->XI = NULL;
        if (c->M) { c->XI = two(0, 0); fnft_nsev_inverse_XI(c->D, c->T, c->M, c->XI, o->discretization);
            c->ncs = c->M; c->cs = (cplx *)1; c->cs0 = h_calloc_c(c->M);
            double A = rr(r, .05, .8), x0 = rr(r, -2, 2), ww = rr(r, .5, 3), ph = rr(r, -1, 1) * L / 4;
            FOR(i, c->M) { double xi = c->XI[0] + (c->XI[1] - c->XI[0]) * i / (c->M - 1); c->cs0[i] = A * exp(-(xi - x0) * (xi - x0) / (2 * ww * ww)) * cexp(I * ph * xi); }
            if (mode == 3) { double s = rr(r, .02, .1) * L; FOR(i, c->M) { double t = c->T[0] + (c->T[1] - c->T[0]) * i / (c->D - 1); c->cs0[i] = A / s / 3 * exp(-t * t / (2 * s * s)) * cexp(I * ph); } }
            if (rb(r, .1)) FOR(i, c->M) c->cs0[i] = 0;
        }
        c->q = (cplx *)1;
        snprintf(sd, sizeof sd, "mode%d", mode);
        snprintf(od, sizeof od, "disc=%s cs=%d method=%d ds=%d iter=%zu osf=%zu", nse_name[o->discretization], (int)o->contspec_type, (int)o->contspec_inversion_method, (int)o->discspec_type, (size_t)o->max_iter, (size_t)o->oversampling_factor);
        break; }
    }
    memcpy(&c->o0, &c->o, sizeof c->o);
    snprintf(c->desc, sizeof c->desc, "%s D=%zu M=%zu K=%zu Mx=%zu kappa=%d T=[%g,%g] sig=%s out=%s%s%s opts=%s{%s}", kind_name[k], (size_t)c->D, (size_t)c->M, (size_t)c->K, (size_t)c->Mx, c->kappa, c->T[0], c->T[1], sd, c->cs ? "c" : "", c->bs ? "b" : "", c->nc ? "n" : "", c->has_opts ? "" : "NULL", od);
}
void call_alloc(call_t *c) {
    if (c->cs) c->cs = h_malloc(c->ncs * sizeof(cplx));
    if (c->bs) c->bs = h_malloc(c->nbs * sizeof(cplx));
    if (c->nc) c->nc = h_malloc(c->nnc * sizeof(cplx));
    if (c->kind == K_INV) c->q = h_malloc(c->D * sizeof(cplx));
}
void call_reset(call_t *c, uint64_t pat) {
    if (c->cs) h_fill(c->cs, c->ncs * sizeof(cplx), pat);
    if (c->bs) h_fill(c->bs, c->nbs * sizeof(cplx), pat);
    if (c->nc) h_fill(c->nc, c->nnc * sizeof(cplx), pat);
    if (c->kind == K_INV) { h_fill(c->q, c->D * sizeof(cplx), pat); if (c->qseed) memcpy(c->q, c->qseed, c->D * sizeof(cplx)); if (c->cs0) memcpy(c->cs, c->cs0, c->ncs * sizeof(cplx)); }
    if (c->gs) {
        size_t a = c->bs ? c->nbs : 0; if (a > c->ngs) a = c->ngs; if (a) memcpy(c->bs, c->gs, a * sizeof(cplx));
        if ((c->kind == K_NSEP || c->kind == K_INV) && c->nc && c->nnc && a + c->nnc <= c->ngs) memcpy(c->nc, c->gs + a, c->nnc * sizeof(cplx));
    }
    c->Kio = c->K; c->Mio = c->Mx; memcpy(&c->o, &c->o0, sizeof c->o); c->rc = -9999;
}
int call_run(call_t *c) {
    void *o = c->has_opts ? (void *)&c->o : NULL; uint_ *Kp = c->useK ? &c->Kio : NULL;
    switch (c->kind) {
    case K_NSEV: c->rc = fnft_nsev(c->D, c->q, c->T, c->M, c->cs, c->XI, Kp, c->bs, c->nc, c->kappa, o); break;
    case K_NSEP: c->rc = fnft_nsep(c->D, c->q, c->T, c->phase, Kp, c->bs, c->useM ? &c->Mio : NULL, c->nc, NULL, c->kappa, o); break;
    case K_KDVV: c->rc = fnft_kdvv(c->D, c->q, c->T, c->M, c->cs, c->XI, Kp, c->bs, c->nc, o); break;
    case K_MANA: c->rc = fnft_manakovv(c->D, c->q, c->q2, c->T, c->M, c->cs, c->XI, Kp, c->bs, c->nc, c->kappa, o); break;
    case K_INV: c->rc = fnft_nsev_inverse(c->M, c->cs, c->XI, c->K, c->bs, c->nc, c->D, c->q, c->T, c->kappa, o); break;
    }
    return c->rc;
}
size_t call_valid_nc(const call_t *c) {
    if (!c->nc) return 0;
    if (c->kind == K_NSEP) return c->Mio;
    if (c->kind == K_MANA || c->kind == K_INV) return 0;
    if (!c->bs || !c->useK) return 0;
    int dt = !c->has_opts ? 0 : c->kind == K_NSEV ? (int)c->o0.v.discspec_type : (int)c->o0.k.discspec_type;
    return dt == 2 ? 2 * c->Kio : c->Kio;
}
uint64_t call_digest(const call_t *c) {
    uint64_t h = 0xcbf29ce484222325ull; int rc_ = c->rc; h = h_hash(&rc_, sizeof rc_, h);
    if (c->rc != 0) return h;
    if (c->kind == K_INV) return h_hash(c->q, c->D * sizeof(cplx), h);
    if (c->cs) h = h_hash(c->cs, c->ncs * sizeof(cplx), h);
    if (c->useK) h = h_hash(&c->Kio, sizeof c->Kio, h);
    if (c->kind == K_NSEP) h = h_hash(&c->Mio, sizeof c->Mio, h);
    if (c->bs && c->Kio <= c->nbs) h = h_hash(c->bs, c->Kio * sizeof(cplx), h);
    size_t v = call_valid_nc(c);
    if (c->nc && v <= c->nnc && !(c->kind == K_NSEV && c->kappa == -1)) h = h_hash(c->nc, v * sizeof(cplx), h);
    return h;
}
uint64_t call_inputs_digest(const call_t *c) {
    uint64_t h = 7;
    if (c->kind != K_INV) h = h_hash(c->q, c->D * sizeof(cplx), h);
    else if (c->K) { h = h_hash(c->bs, c->nbs * sizeof(cplx), h); h = h_hash(c->nc, c->nnc * sizeof(cplx), h); }
    if (c->q2) h = h_hash(c->q2, c->D * sizeof(cplx), h);
    h = h_hash(c->T, 16, h); if (c->XI) h = h_hash(c->XI, 16, h);
    return h;
}
void call_clone(call_t *d, const call_t *s) {
    *d = *s;
    if (s->kind != K_INV) d->q = h_dup_c(s->q, s->D);
    if (s->q2) d->q2 = h_dup_c(s->q2, s->D);
    d->T = two(s->T[0], s->T[1]); if (s->XI) d->XI = two(s->XI[0], s->XI[1]);
    if (s->gs) d->gs = h_dup_c(s->gs, s->ngs); if (s->cs0) d->cs0 = h_dup_c(s->cs0, s->ncs); if (s->qseed) d->qseed = h_dup_c(s->qseed, s->D);
    call_alloc(d); call_reset(d, 0);
}
void call_free(call_t *c) {
    h_free(c->q); h_free(c->q2); h_free(c->T); h_free(c->XI); h_free(c->cs == (cplx *)1 ? 0 : c->cs); h_free(c->bs == (cplx *)1 ? 0 : c->bs); h_free(c->nc == (cplx *)1 ? 0 : c->nc);
    h_free(c->gs); h_free(c->cs0); h_free(c->qseed); memset(c, 0, sizeof *c);
}
