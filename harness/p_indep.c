/* C28: what is computed does not depend on what else is requested. */
#include "h.h"

static double worst; static size_t worst_i;
/* relative deviation of two arrays, entry by entry; scale: 0 entry, 1 largest entry */
static double dev(const cplx *a, const cplx *b, size_t n, int scale)
{
    double m = 0, w = 0; if (scale) FOR (i, n) { double x = cabs(a[i]); if (x > m && isfinite(x)) m = x; }
    FOR (i, n) {
        if (!memcmp(a+i, b+i, sizeof *a)) continue;
        if ((isnan(creal(a[i])) || isnan(cimag(a[i]))) && (isnan(creal(b[i])) || isnan(cimag(b[i])))) continue;
        if (isinf(cabs(a[i])) && isinf(cabs(b[i]))) continue;
        double s = scale ? m : fmax(cabs(a[i]), cabs(b[i])), e = s > 0 ? cabs(a[i]-b[i])/s : 0;
        if (nan_gt(e, w)) { w = isnan(e) ? INFINITY : e; worst_i = i; }
    }
    worst = w; return w;
}
static int dst_of(const call_t *c) { return c->kind == K_NSEV ? (int)c->o0.v.discspec_type : c->kind == K_KDVV ? (int)c->o0.k.discspec_type : 0; }
static void set_dst(call_t *c, int t) { if (c->kind == K_NSEV) c->o0.v.discspec_type = c->o.v.discspec_type = t; else c->o0.k.discspec_type = c->o.k.discspec_type = t; c->nnc = t == 2 ? 2*c->K : c->K; }
static int cst_of(const call_t *c) { return c->kind == K_NSEV ? (int)c->o0.v.contspec_type : c->kind == K_KDVV ? (int)c->o0.k.contspec_type : (int)c->o0.m.contspec_type; }
static void set_cst(call_t *c, int t)
{
    if (c->kind == K_NSEV) c->o0.v.contspec_type = c->o.v.contspec_type = t; else if (c->kind == K_KDVV) c->o0.k.contspec_type = c->o.k.contspec_type = t; else c->o0.m.contspec_type = c->o.m.contspec_type = t;
    c->ncs = c->M*(c->kind == K_MANA ? (t == 0 ? 2 : t == 1 ? 3 : 5) : (t == 0 ? 1 : t == 1 ? 2 : 3));
}
static int *norm_of(call_t *c, int which) { return c->kind == K_NSEV ? (which ? &c->o0.v.normalization_flag : &c->o.v.normalization_flag) : c->kind == K_KDVV ? (which ? &c->o0.k.normalization_flag : &c->o.k.normalization_flag) : c->kind == K_MANA ? (which ? &c->o0.m.normalization_flag : &c->o.m.normalization_flag) : (which ? &c->o0.p.normalization_flag : &c->o.p.normalization_flag); }
static int newton(const call_t *c) { return c->kind == K_NSEV ? c->o0.v.bound_state_localization == fnft_nsev_bsloc_NEWTON : c->kind == K_KDVV ? c->o0.k.bound_state_localization == fnft_kdvv_bsloc_NEWTON : c->kind == K_NSEP ? c->o0.p.localization == fnft_nsep_loc_NEWTON : 0; }
static void run(call_t *c) { msgs_reset(); mw_begin(-1, 0, 0x3c); call_run(c); mw_end(); mw_forget(); }

void c28(long idx)
{
    rng_t r = rng_make(h_seed, 28, (uint64_t)idx); call_t a, t, b;
    static const int kinds[4] = { K_NSEV, K_KDVV, K_NSEP, K_MANA };
    int kind = kinds[(idx + idx/8) % 4];
    gprof_t pf = { .kinds = 1 << kind, .maxD = 64, .budget = 300, .tame = 1 };
    for (;;) { call_gen(&r, &a, &pf); if (a.has_opts) break; call_free(&a); }
    /* request everything */
    if (kind != K_NSEP) {
        if (!a.XI) { a.XI = h_calloc_r(2); a.XI[0] = 0.3; a.XI[1] = 2.5; }
        if (!a.M) a.M = (uint_)ri(&r, 1, 12);
        a.cs = (cplx *)1; set_cst(&a, ri(&r, 0, 2));
        if (a.bs && kind != K_MANA) { a.nc = (cplx *)1; set_dst(&a, dst_of(&a)); }
        else if (!a.bs) { a.useK = 0; }
    } else if (!a.nc || !a.bs) { if (newton(&a)) { call_free(&a); h_eval(0, "skip"); return; }
        if (!a.bs) { a.bs = (cplx *)1; a.nbs = a.K; } if (!a.nc) { a.nc = (cplx *)1; a.nnc = a.Mx; } }
    h_log("%s", a.desc); if (idx < 8) h_sample("%s", a.desc);
    call_alloc(&a); call_reset(&a, 0x7ff8dead7ff8beefull); run(&a);
    if (a.rc) { h_metric("failing_calls", 1); h_eval(0, "fail"); call_free(&a); return; }
    h_metric("successful_calls", 1);
    int trunc = (a.bs && a.useK && a.Kio >= a.K) || msgs.nwarn, n = 0; /* a warning may say that not everything fitted */
    for (int v = 0; v < 10; v++) {
        t = a; memcpy(&t.o, &a.o0, sizeof a.o0);
        int keep = 0; /* parts expected to agree: 1 contspec, 2 states, 4 constants */ double tol = 1e-12;
        switch (v) {
        case 0: if (kind == K_NSEP || !a.bs) continue; t.cs = NULL; t.ncs = 0; if (rb(&r, .5)) { t.M = 0; } keep = 6; break;
        case 1: if (!a.bs) continue; if (kind == K_NSEP) { if (a.o0.p.filtering != fnft_nsep_filt_NONE) continue; t.bs = NULL; t.nbs = 0; if (newton(&a)) continue; keep = 4; } else { t.bs = t.nc = NULL; t.nbs = t.nnc = 0; t.gs = NULL; t.ngs = 0; t.useK = rb(&r, .3); keep = 1; } break;
        case 2: if (!a.nc || !a.bs) continue; t.nc = NULL; t.nnc = 0; keep = 3; break;
        case 3: if (!a.bs || newton(&a) || trunc) continue; t.K += (uint_)ri(&r, 1, 40); t.nbs = t.K; if (kind == K_NSEP) { if (a.Mio >= a.Mx) continue; t.Mx += (uint_)ri(&r, 1, 40); t.nnc = t.Mx; } else if (a.nc) set_dst(&t, dst_of(&a)); keep = 7; break;
        case 4: case 5: if (kind == K_NSEP) continue; { int ct = (cst_of(&a)+v-3) % 3; set_cst(&t, ct); } keep = 8|6; break;
        case 6: case 7: if (!a.nc || kind == K_NSEP || kind == K_MANA) continue; set_dst(&t, (dst_of(&a)+v-5) % 3); keep = 16|3; break;
        case 8: if (kind == K_NSEP) continue; *norm_of(&t, 0) = *norm_of(&t, 1) = !*norm_of(&t, 1); keep = 1; tol = 1e-9; break;
        case 9: if (kind == K_NSEP) continue; if (a.M < 2) { t.M = 1 + (uint_)ri(&r, 1, 8); } else t.M = (a.M-1)*(uint_)ri(&r, 2, 4)+1; set_cst(&t, cst_of(&a)); keep = 64|6; break;
        }
        call_clone(&b, &t); call_reset(&b, 0xfff8a5a5fff85a5aull); run(&b);
        static const char *vn[10] = { "no-continuous-spectrum", "no-discrete-spectrum", "no-constants", "larger-arrays", "contspec-type", "contspec-type", "discspec-type", "discspec-type", "normalization", "grid" };
        if (b.rc) { char sg[64]; snprintf(sg, sizeof sg, "fails-%s", vn[v]); if (v >= 6 && v <= 7 && abs(b.rc) == 3 && dst_of(&a) == 0) h_metric("residues_undefined", 1); /* a' = 0 */ else if (v != 8) h_violation(sg, "%s: return code %d (%.80s), but the call that requests everything succeeds: %s", vn[v], b.rc, msgs.first, a.desc); else h_metric("normalization_failures", 1); call_free(&b); continue; }
        h_metric(vn[v], 1); n++;
        char sg[64]; snprintf(sg, sizeof sg, "depends-%s-%s", kind_name[kind], vn[v]);
        #define CMP(what, x, y, cnt, sc, lim) do { dev(x, y, cnt, sc); if (!(worst <= (lim))) h_violation(sg, "%s: the %s differ (entry %zu, relative difference %.3g): %s", vn[v], what, worst_i, worst, a.desc); if (v == 8) h_max("normalization_difference", worst); else h_max("difference", worst); h_metric("values_compared", (double)(cnt)); } while (0)
        if (keep & 1 && a.cs) CMP("values of the continuous spectrum", a.cs, b.cs, a.ncs, v == 8, tol);
        if (keep & 8) { /* layouts: parts of the continuous spectrum */
            int ca = cst_of(&a), cb = cst_of(&t); size_t R = a.M*(kind == K_MANA ? 2 : 1), AB = a.M*(kind == K_MANA ? 3 : 2);
            if (ca != 1 && cb != 1) CMP("reflection coefficients", a.cs, b.cs, R, 0, tol);
            if (ca != 0 && cb != 0) CMP("values of a and b", a.cs+(ca == 2 ? R : 0), b.cs+(cb == 2 ? R : 0), AB, 0, tol);
        }
        if (keep & 64) { /* a grid that contains the frequencies of the first one */
            size_t parts = a.ncs/a.M, st = a.M < 2 ? 1 : (t.M-1)/(a.M-1); cplx *x = h_calloc_c(a.ncs), *y = h_calloc_c(a.ncs);
            FOR (j, parts) FOR (i, a.M) { x[j*a.M+i] = a.cs[j*a.M+i]; y[j*a.M+i] = b.cs[j*t.M+i*st]; }
            int rho = cst_of(&a) != 1; size_t nr = rho ? (kind == K_MANA ? 2 : 1)*a.M : 0;
            if (nr < a.ncs) { dev(x+nr, y+nr, a.ncs-nr, 1); h_max(kind == K_NSEV ? "grid_nsev" : kind == K_KDVV ? "grid_kdv" : "grid_man", worst); if (!(worst <= (kind == K_KDVV ? 1e-5 : 1e-8))) h_violation(sg, "%s: the values of a and b differ at common frequencies (entry %zu, relative difference %.3g, M %zu and %zu): %s", vn[v], worst_i, worst, (size_t)a.M, (size_t)t.M, a.desc); }
            h_free(x); h_free(y);
        }
        if (v == 8 && a.bs && a.useK && !trunc && !msgs.nwarn && (kind == K_NSEV ? a.o0.v.niter >= 10 && a.o0.v.tol < 1e-9 && a.o0.v.bound_state_filtering != 0 : kind == K_KDVV ? a.o0.k.niter >= 5 : 1)) {
            /* converged bound states */
            if (a.Kio != b.Kio) h_violation(sg, "%s: %zu instead of %zu bound states: %s", vn[v], (size_t)b.Kio, (size_t)a.Kio, a.desc);
            else CMP("bound states", a.bs, b.bs, a.Kio, 1, 1e-3);
        }
        if (keep & 2 && a.bs && a.useK) {
            if (a.Kio != b.Kio) h_violation(sg, "%s: %zu instead of %zu points: %s", vn[v], (size_t)b.Kio, (size_t)a.Kio, a.desc);
            else { size_t m = a.Kio < a.nbs ? a.Kio : a.nbs; CMP("bound states or main spectrum", a.bs, b.bs, m, v == 8, tol); }
        }
        if (keep & 4 && a.nc && a.Kio == b.Kio) {
            if (kind == K_NSEP) { if (a.Mio != b.Mio) h_violation(sg, "%s: %zu instead of %zu auxiliary points: %s", vn[v], (size_t)b.Mio, (size_t)a.Mio, a.desc); else CMP("auxiliary spectrum", a.nc, b.nc, a.Mio, v == 8, tol); }
            else if (kind != K_MANA) CMP("norming constants or residues", a.nc, b.nc, call_valid_nc(&a), 0, tol);
        }
        if (keep & 16 && a.Kio == b.Kio) {
            int da = dst_of(&a), db = dst_of(&t); size_t K = a.Kio;
            if (da != 1 && db != 1) CMP("norming constants", a.nc, b.nc, K, 0, tol);
            if (da != 0 && db != 0) CMP("residues", a.nc+(da == 2 ? K : 0), b.nc+(db == 2 ? K : 0), K, 0, tol);
        }
        call_free(&b);
    }
    h_eval(n > 0, "%s", a.desc);
    call_free(&a);
}
