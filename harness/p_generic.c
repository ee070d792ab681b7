/* C02..C08, C28: properties of every call, independent of the mathematics. */
#include "h.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#ifdef VARIANT_msan
#include <sanitizer/msan_interface.h>
#endif

static int same_c(const cplx *a, const cplx *b, size_t n) {
    const double *x = (const double *)a, *y = (const double *)b;
    FOR(i, 2 * n) if (memcmp(x + i, y + i, 8) && !(isnan(x[i]) && isnan(y[i]))) return 0;
    return 1;
}
typedef struct { int rc; uint_ K, M; cplx *cs, *bs, *nc, *q; size_t ncs, nbs, nnc, nq; long ne, nw; } snap_t;
static void snap_take(snap_t *s, const call_t *c) {
    memset(s, 0, sizeof *s); s->rc = c->rc; s->ne = msgs.nerr; s->nw = msgs.nwarn;
    if (c->rc) return;
    s->K = c->useK && c->kind != K_INV ? c->Kio : 0; s->M = c->kind == K_NSEP && c->useM ? c->Mio : 0;
    if (c->kind == K_INV) { s->nq = c->D; s->q = h_dup_c(c->q, s->nq); return; }
    if (c->cs) { s->ncs = c->ncs; s->cs = h_dup_c(c->cs, s->ncs); }
    if (c->bs) { s->nbs = s->K; if (s->nbs > c->nbs) s->nbs = c->nbs; s->bs = h_dup_c(c->bs, s->nbs); }
    if (c->nc) { s->nnc = call_valid_nc(c); if (s->nnc > c->nnc) s->nnc = c->nnc; s->nc = h_dup_c(c->nc, s->nnc); }
}
static void snap_free(snap_t *s) { h_free(s->cs); h_free(s->bs); h_free(s->nc); h_free(s->q); memset(s, 0, sizeof *s); }
static const char *snap_cmp(const snap_t *a, const snap_t *b, int with_msgs) {
    if (a->rc != b->rc) return "return code";
    if (with_msgs && (!a->ne != !b->ne || a->nw != b->nw)) return "messages";
    if (a->K != b->K) return "number of bound states";
    if (a->M != b->M) return "number of auxiliary points";
    if (a->ncs && !same_c(a->cs, b->cs, a->ncs)) return "continuous spectrum";
    if (a->nbs && !same_c(a->bs, b->bs, a->nbs)) return "bound states / main spectrum";
    if (a->nnc && !same_c(a->nc, b->nc, a->nnc)) return "norming constants / auxiliary spectrum";
    if (a->nq && !same_c(a->q, b->q, a->nq)) return "samples";
    return NULL;
}
static void gen(rng_t *r, long idx, call_t *c, int maxD, int budget, int tame, int kinds) {
    gprof_t pf = { .kinds = kinds ? kinds : 1 << (idx % NKINDS), .maxD = maxD, .budget = budget, .tame = tame };
    call_gen(r, c, &pf); call_alloc(c); call_reset(c, 0x7ff8dead7ff8beefull);
    h_log("%s", c->desc); if (idx < 5) h_sample("%s", c->desc);
}

/* ---------------- C02 ---------------- */
static void history(rng_t *r) {
    int n = ri(r, 1, 2);
    while (n--) {
        gprof_t pf = { .maxD = 16, .budget = 100, .allow_invalid = 1 };
        call_t h; call_gen(r, &h, &pf); call_alloc(&h); call_reset(&h, r64(r));
        if (rb(r, .3)) h.T[1] = h.T[0] - 1;                              /* a failing call */
        mw_begin(rb(r, .3) ? ri(r, 0, 12) : -1, rb(r, .5), ri(r, 0, 255)); call_run(&h); mw_end(); mw_forget(); call_free(&h);
    }
}
void c02(long idx) {
    rng_t r = rng_make(h_seed, 2, (uint64_t)idx); call_t c;
    gen(&r, idx, &c, rb(&r, .2) ? 128 : 40, 300, 0, 0);
    snap_t a, b;
    call_reset(&c, 0); h_stack_poison(0); msgs_reset(); mw_begin(-1, 0, 0); call_run(&c); mw_end(); mw_forget(); snap_take(&a, &c);
    rng_t hr = rng_make(h_seed, 102, (uint64_t)idx); history(&hr);
    call_reset(&c, 0xfff8a5a5fff85a5aull); h_stack_poison(0xff); msgs_reset(); mw_begin(-1, 0, 0xff); call_run(&c); mw_end(); mw_forget(); snap_take(&b, &c);
    const char *d = snap_cmp(&a, &b, 1);
    if (d) { char sig[64]; snprintf(sig, sizeof sig, "differs-%s-%.20s", kind_name[c.kind], d); h_violation(sig, "%s differ(s) between two identical calls (rc %d/%d, K %zu/%zu, warnings %ld/%ld): %s", d, a.rc, b.rc, (size_t)a.K, (size_t)b.K, a.nw, b.nw, c.desc); }
    h_metric("calls_compared", 2); h_metric(a.rc ? "failing_calls" : "successful_calls", 1);
    h_eval(a.rc == 0, "%s", c.desc);
    snap_free(&a); snap_free(&b); call_free(&c);
}
void c02m(long idx) {
#ifdef VARIANT_msan
    rng_t r = rng_make(h_seed, 202, (uint64_t)idx); call_t c;
    gen(&r, idx, &c, rb(&r, .1) ? 100 : 32, 200, 0, 0);
    if (c.kind != K_INV) { if (c.cs) __msan_poison(c.cs, c.ncs * 16); size_t a = c.gs ? (c.ngs < c.nbs ? c.ngs : c.nbs) : 0; if (c.bs) __msan_poison(c.bs + a, (c.nbs - a) * 16);
        if (c.nc && !(c.kind == K_NSEP && c.gs)) __msan_poison(c.nc, c.nnc * 16); }
    else if (!c.qseed) __msan_poison(c.q, c.D * 16);
    mw_begin(-1, 0, -1); call_run(&c); mw_end(); mw_forget();
    if (c.rc == 0) {
        h_metric("checked_outputs", 1);
        if (c.kind == K_INV) { __msan_check_mem_is_initialized(c.q, c.D * 16); }
        else {
            if (c.cs) __msan_check_mem_is_initialized(c.cs, c.ncs * 16);
            if (c.bs && c.useK) __msan_check_mem_is_initialized(c.bs, (c.Kio < c.nbs ? c.Kio : c.nbs) * 16);
            size_t v = call_valid_nc(&c); if (c.nc && v <= c.nnc) __msan_check_mem_is_initialized(c.nc, v * 16);
        }
    }
    h_eval(c.rc == 0, "m %s", c.desc); call_free(&c);
#else
    (void)idx;
#endif
}

/* ---------------- C03 ---------------- */
typedef struct { call_t *c; int n; snap_t *s; pthread_barrier_t *bar; uint64_t seed; int rounds; int bad; char what[600]; snap_t *ref; } thr_t;
static void *thr(void *p) {
    thr_t *t = p; fnft_errwarn_setprintf(h_printf); rng_t r = { t->seed };
    pthread_barrier_wait(t->bar);
    for (int k = 0; k < t->rounds; k++) for (int i = 0; i < t->n; i++) {
        call_t *c = &t->c[i]; call_reset(c, r64(&r)); msgs_reset(); call_run(c);
        snap_t s; snap_take(&s, c); const char *d = snap_cmp(&t->ref[i], &s, 1);
        if (d && !t->bad) { t->bad = 1; snprintf(t->what, sizeof t->what, "%s differ(s) (rc %d/%d): %.400s", d, t->ref[i].rc, s.rc, c->desc); }
        snap_free(&s);
    }
    return NULL;
}
void c03(long idx) {
    rng_t r = rng_make(h_seed, 3, (uint64_t)idx);
    enum { MAXT = 4, NC = 3 };
    int nt = 2 + (int)(idx % 3), same = rb(&r, .5);
    static call_t base[MAXT][NC]; static snap_t ref[MAXT][NC]; thr_t t[MAXT]; pthread_t id[MAXT]; pthread_barrier_t bar;
    memset(base, 0, sizeof base);
    for (int k = 0; k < nt; k++) for (int i = 0; i < NC; i++) {
        if (k && same) { /* same call, inputs shared, outputs separate */
            call_t *s = &base[0][i], *d = &base[k][i]; *d = *s;
            if (s->kind == K_INV) d->q = (cplx *)1;
            call_alloc(d); if (s->kind == K_INV && s->K) { /* eigenvalues are pure inputs too: shared */ }
            call_reset(d, 0); ref[k][i] = ref[0][i]; continue; }
        gprof_t pf = { .kinds = 1 << ((idx + i) % NKINDS), .maxD = 24, .budget = 120 };
        call_t *c = &base[k][i]; call_gen(&r, c, &pf); 
        call_alloc(c); call_reset(c, 0); msgs_reset(); call_run(c); snap_take(&ref[k][i], c);
        h_metric("distinct_calls", 1); h_metric(c->rc ? "failing" : "successful", 1);
        if (idx < 3) h_sample("threads=%d shared=%d %s", nt, same, c->desc);
    }
    pthread_barrier_init(&bar, NULL, (unsigned)nt);
    for (int k = 0; k < nt; k++) { t[k] = (thr_t){ base[k], NC, NULL, &bar, r64(&r), 2, 0, "", ref[k] }; if (pthread_create(&id[k], NULL, thr, &t[k])) { h_incon("no thread"); return; } }
    for (int k = 0; k < nt; k++) pthread_join(id[k], NULL);
    for (int k = 0; k < nt; k++) if (t[k].bad) { h_violation("concurrent-result-differs", "thread %d: %s", k, t[k].what); break; }
    h_metric("concurrent_calls", nt * NC * 2);
    h_eval(1, "%d %d %s", nt, same, base[0][0].desc);
    pthread_barrier_destroy(&bar);
    for (int k = 0; k < nt; k++) for (int i = 0; i < NC; i++) {
        if (k && same) { call_t *d = &base[k][i]; h_free(d->cs); h_free(d->bs); h_free(d->nc); if (d->kind == K_INV) h_free(d->q); memset(d, 0, sizeof *d); }
        else { snap_free(&ref[k][i]); call_free(&base[k][i]); }
    }
}

/* ---------------- C04 ---------------- */
static void *ro_page(const void *src, size_t n, size_t *len) {
    size_t ps = (size_t)sysconf(_SC_PAGESIZE), L = (n + ps - 1) / ps * ps; if (!L) L = ps;
    char *p = mmap(NULL, L, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) return NULL;
    memcpy(p + L - n, src, n); mprotect(p, L, PROT_READ); *len = L; return p + L - n;
}
static void ro_free(const void *q, size_t n, size_t L) { munmap((void *)((char *)q + n - L), L); }
static int mutate(rng_t *r, call_t *c, char *what);
void c04(long idx) {
    rng_t r = rng_make(h_seed, 4, (uint64_t)idx); call_t c;
    gprof_t pf = { .kinds = 1 << (idx % NKINDS), .maxD = 32, .budget = 200, .allow_invalid = rb(&r, .3) };
    call_gen(&r, &c, &pf); call_alloc(&c); call_reset(&c, 1);
    char mode[80] = "normal"; long fail = -1; size_t nq = c.D * sizeof(cplx);
    int m = ri(&r, 0, 9);
    if (m == 0) { fail = ri(&r, 0, 30); snprintf(mode, sizeof mode, "allocation %ld fails", fail); }
    if (m == 1) { char w[64] = ""; if (mutate(&r, &c, w)) snprintf(mode, sizeof mode, "invalid: %s", w); }
    h_log("%s [%s]", c.desc, mode); if (idx < 5) h_sample("%s [%s]", c.desc, mode);
    /* pure inputs live in read-only pages: even a temporary write is a fault */
    cplx *q = c.q, *q2 = c.q2, *bs = c.bs, *nc = c.nc; double *T = c.T, *XI = c.XI; size_t l[6] = { 0 };
    int isinv = c.kind == K_INV;
    if (!isinv && q) c.q = ro_page(q, nq, &l[0]);
    if (q2) c.q2 = ro_page(q2, nq, &l[1]);
    if (T) c.T = ro_page(T, 16, &l[2]);
    if (XI) c.XI = ro_page(XI, 16, &l[3]);
    if (isinv && c.K && bs) c.bs = ro_page(bs, c.nbs * sizeof(cplx), &l[4]);
    if (isinv && c.K && nc) c.nc = ro_page(nc, c.nnc * sizeof(cplx), &l[5]);
    union { char b[512]; double a; } d0[NKINDS], d1[NKINDS]; memset(d0, 0, sizeof d0); memset(d1, 0, sizeof d1);
    for (int k = 0; k < NKINDS; k++) opts_defaults(k, &d0[k]);
    typeof(c.o) before; memcpy(&before, &c.o, sizeof before);
    msgs_reset(); mw_begin(fail, 0, -1); call_run(&c); mw_end(); mw_forget();
    for (int k = 0; k < NKINDS; k++) { opts_defaults(k, &d1[k]); if (memcmp(&d0[k], &d1[k], opts_size(k))) { char sig[64]; snprintf(sig, sizeof sig, "defaults-changed-%s", kind_name[k]); h_violation(sig, "default options of %s changed by: %s [%s]", kind_name[k], c.desc, mode); } }
    if (c.has_opts && memcmp(&before, &c.o, opts_size(c.kind))) { char sig[64]; snprintf(sig, sizeof sig, "opts-changed-%s", kind_name[c.kind]); size_t k = 0; while (((char *)&before)[k] == ((char *)&c.o)[k]) k++; h_violation(sig, "options changed at byte %zu (rc=%d): %s [%s]", k, c.rc, c.desc, mode); }
    h_metric(c.rc ? "calls_error" : "calls_success", 1);
    h_eval(1, "%s [%s]", c.desc, mode);
    if (l[0]) { ro_free(c.q, nq, l[0]); c.q = q; } if (l[1]) { ro_free(c.q2, nq, l[1]); c.q2 = q2; } if (l[2]) { ro_free(c.T, 16, l[2]); c.T = T; } if (l[3]) { ro_free(c.XI, 16, l[3]); c.XI = XI; }
    if (l[4]) { ro_free(c.bs, c.nbs * sizeof(cplx), l[4]); c.bs = bs; }
    if (l[5]) { ro_free(c.nc, c.nnc * sizeof(cplx), l[5]); c.nc = nc; }
    call_free(&c);
}

/* ---------------- C05 ---------------- */
void c05(long idx) {
    rng_t r = rng_make(h_seed, 5, (uint64_t)idx); call_t c;
    gen(&r, idx, &c, rb(&r, .1) ? 40 : 14, 60, 1, 0);
    call_reset(&c, 3); msgs_reset(); mw_begin(-1, 0, -1); call_run(&c); mw_end(); long N = mw.count; mw_forget();
    snap_t a, b; snap_take(&a, &c);
    h_metric("allocations_enumerated", (double)N); h_max("max_allocations_of_a_call", (double)N);
    long maxk = h_thorough ? 400 : 70, step = N > maxk ? N / maxk + 1 : 1, off = step > 1 ? ri(&r, 0, (int)step - 1) : 0;
    for (long k = off; k < N; k += step) for (int from = 0; from < 2; from++) {
        if (from && (k % 3)) continue;
        call_reset(&c, 3); msgs_reset(); mw_begin(k, from, -1); call_run(&c); mw_end();
        h_metric("faults_injected", 1);
        char sig[96];
        if (mw.nfailed == 0) { mw_forget(); continue; }      /* not reached (cannot happen for identical calls) */
        if (c.rc == 0 && a.rc == 0) { snprintf(sig, sizeof sig, "success-despite-failed-allocation-%s", kind_name[c.kind]); h_violation(sig, "allocation %ld of %ld failed (%s) but the call reports success: %s", k, N, from ? "and all later ones" : "only this one", c.desc); }
        if (mw.live) { snprintf(sig, sizeof sig, "leak-after-failed-allocation-%s", kind_name[c.kind]); h_violation(sig, "allocation %ld of %ld failed (%s): %ld blocks (%zu bytes) leaked, rc=%d: %s", k, N, from ? "and all later ones" : "only this one", mw.live, mw.live_bytes, c.rc, c.desc); }
        if (mw.badfree) { snprintf(sig, sizeof sig, "bad-free-after-failed-allocation-%s", kind_name[c.kind]); h_violation(sig, "allocation %ld failed: %ld invalid frees: %s", k, mw.badfree, c.desc); }
        if (c.has_opts && memcmp(&c.o, &c.o0, opts_size(c.kind))) { snprintf(sig, sizeof sig, "opts-changed-after-failed-allocation-%s", kind_name[c.kind]); h_violation(sig, "allocation %ld failed: options not restored: %s", k, c.desc); }
        if (c.rc && !msgs.nerr) { snprintf(sig, sizeof sig, "silent-failure-%s", kind_name[c.kind]); h_violation(sig, "allocation %ld failed: rc=%d without any message: %s", k, c.rc, c.desc); }
        mw_forget();
        if (h_nviol() > 20) break;
    }
    call_reset(&c, 3); msgs_reset(); mw_begin(-1, 0, -1); call_run(&c); mw_end(); mw_forget(); snap_take(&b, &c);
    const char *d = snap_cmp(&a, &b, 0); if (d) h_violation("later-call-differs", "%s differ(s) after failed calls: %s", d, c.desc);
    h_eval(N > 0 && a.rc == 0, "%s", c.desc); snap_free(&a); snap_free(&b); call_free(&c);
}

/* ---------------- C06 ---------------- */
void c06(long idx) {
    rng_t r = rng_make(h_seed, 6, (uint64_t)idx); call_t c;
    gprof_t pf = { .kinds = 1 << (idx % NKINDS), .maxD = rb(&r, .2) ? 128 : 32, .budget = 300, .allow_invalid = rb(&r, .3) };
    call_gen(&r, &c, &pf); call_alloc(&c); call_reset(&c, r64(&r));
    char w[64] = ""; if (rb(&r, .15)) mutate(&r, &c, w);
    h_log("%s %s", c.desc, w); if (idx < 5) h_sample("%s %s", c.desc, w);
    msgs_reset(); mw_begin(-1, 0, -1); call_run(&c); mw_end();
    h_metric("allocations", (double)mw.count); h_metric(c.rc ? "calls_error" : "calls_success", 1); h_max("peak_bytes", (double)mw.peak_bytes);
    if (mw.live) { char sig[64]; snprintf(sig, sizeof sig, "leak-%s-%s", kind_name[c.kind], c.rc ? "error" : "success"); h_violation(sig, "%ld blocks (%zu bytes) still allocated after the call, rc=%d (%s): %s %s", mw.live, mw.live_bytes, c.rc, msgs.first, c.desc, w); }
    if (mw.badfree) h_violation("bad-free", "%ld invalid frees: %s", mw.badfree, c.desc);
    mw_forget(); h_eval(1, "%s", c.desc); call_free(&c);
}

/* ---------------- C07 ---------------- */
/* makes the arguments of a valid call invalid; returns 0 if nothing applicable was chosen */
static double *two_(double a, double b) { double *p = h_malloc(16); p[0] = a; p[1] = b; return p; }
static int mutate(rng_t *r, call_t *c, char *what) {
    int k = c->kind;
#define M(n, cond, act) case n: if (!(cond)) return 0; act; snprintf(what, 64, "%s", #act); return 1
    for (int tries = 0; tries < 1; tries++) switch (ri(r, 0, 21)) {
    M(0, 1, c->D = (k == K_INV && 0) ? 0 : 1);
    M(1, 1, c->D = 0);
    M(2, 1, (h_free(c->T), c->T = NULL));
    M(3, 1, c->T[1] = c->T[0]);
    M(4, 1, (c->T[0] = c->T[1] + 1));
    M(5, k != K_INV, (h_free(c->q), c->q = NULL));
    M(6, k == K_INV, (h_free(c->q), c->q = NULL));
    M(7, k == K_MANA, (h_free(c->q2), c->q2 = NULL));
    M(8, c->cs && c->XI && k != K_INV, (h_free(c->XI), c->XI = NULL));
    M(9, c->cs && c->XI && k != K_INV, (c->XI[1] = c->XI[0]));
    M(10, c->cs && c->XI && k != K_INV, (c->XI[0] = c->XI[1] + 1));
    M(11, k != K_KDVV, c->kappa = 0);
    M(12, k != K_KDVV, c->kappa = rb(r, .5) ? 2 : -3);
    M(13, c->bs && k != K_INV, c->useK = 0);
    M(14, c->nc && k == K_NSEP, c->useM = 0);
    M(15, (k == K_NSEP || k == K_INV) && c->D > 3, c->D -= 1);
    M(16, k == K_KDVV, (c->q[c->D / 2] += 0.5 * I));
    M(17, k == K_INV && c->M > c->D && c->cs, (c->M -= 1));
    M(18, k == K_INV && c->cs && c->XI && c->M && (!c->has_opts || c->o.i.contspec_type != fnft_nsev_inverse_cstype_B_OF_TAU), (h_free(c->XI), c->XI = NULL));
    case 19: if (!c->has_opts) return 0;
        switch (k) {
        case K_NSEV: { int w = ri(r, 0, 3); if (w == 0) { c->o.v.discretization = 77; snprintf(what, 64, "discretization=77"); return 1; }
            if (w == 1 && c->cs) { c->o.v.contspec_type = 9; snprintf(what, 64, "contspec_type=9"); return 2; }
            if (w == 2 && c->bs && c->kappa == 1 && c->o.v.bound_state_localization != fnft_nsev_bsloc_NEWTON && 0) return 0;
            if (w == 3 && c->bs && c->kappa == 1) { c->o.v.bound_state_localization = 9; snprintf(what, 64, "bound_state_localization=9"); return 2; }
            return 0; }
        case K_NSEP: { int w = ri(r, 0, 1); if (w == 0) { c->o.p.discretization = 77; snprintf(what, 64, "discretization=77"); return 1; }
            if (w == 1) { c->o.p.localization = 9; snprintf(what, 64, "localization=9"); return 1; }
            return 0; }
        case K_KDVV: { int w = ri(r, 0, 2); if (w == 0) { c->o.k.discretization = 77; snprintf(what, 64, "discretization=77"); return 1; }
            if (w == 1 && c->cs) { c->o.k.contspec_type = 9; snprintf(what, 64, "contspec_type=9"); return 2; }
            if (w == 2 && c->bs && c->K > 0 && c->o.k.bound_state_localization == fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE && cmaxabs(c->q, c->D) > 1e-3) { double m = 0; FOR(i, c->D) if (creal(c->q[i]) > m) m = creal(c->q[i]); if (m < 1e-3) return 0; c->o.k.grid_spacing = rb(r, .5) ? 0 : -0.1; snprintf(what, 64, "grid_spacing<=0"); return 2; }
            return 0; }
        case K_MANA: { int w = ri(r, 0, 2); if (w == 0) { c->o.m.discretization = 77; snprintf(what, 64, "discretization=77"); return 1; }
            if (w == 1 && c->cs) { c->o.m.contspec_type = 9; snprintf(what, 64, "contspec_type=9"); return 2; }
            if (w == 2 && c->bs && c->kappa == 1 && 0) return 0;
            return 0; }
        case K_INV: { int w = ri(r, 0, 3); if (w == 0) { c->o.i.discretization = rb(r, .5) ? 77 : fnft_nse_discretization_BO; snprintf(what, 64, "unsupported discretization"); return 1; }
            if (w == 1 && c->cs && c->M) { c->o.i.contspec_type = 9; snprintf(what, 64, "contspec_type=9"); return 2; }
            if (w == 2 && c->cs && c->M && c->o.i.contspec_type == fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT) { c->o.i.contspec_inversion_method = 9; snprintf(what, 64, "method=9"); return 1; }
            return 0; } }
        return 0;
    case 20: if (k == K_INV && c->K) { int w = ri(r, 0, 4);
            if (w == 0) { c->kappa = -1; snprintf(what, 64, "bound states with kappa=-1"); return 1; }
            if (w == 1) { c->bs[ri(r, 0, (int)c->K - 1)] = 1 - .5 * I; snprintf(what, 64, "bound state in lower half plane"); return 1; }
            if (w == 2) { c->bs[ri(r, 0, (int)c->K - 1)] = 1; snprintf(what, 64, "real bound state"); return 1; }
            if (w == 3 && c->K > 1) { int a = ri(r, 0, (int)c->K - 1), b; do b = ri(r, 0, (int)c->K - 1); while (b == a); c->bs[a] = c->bs[b]; snprintf(what, 64, "repeated bound states"); return 1; }
            if (w == 4) { h_free(c->nc); c->nc = NULL; snprintf(what, 64, "no norming constants"); return 1; } }
        if (k == K_INV) { if (c->cs && c->M && c->has_opts && c->o.i.contspec_type == 0) { c->M = c->D / 2; snprintf(what, 64, "M<D"); return c->D >= 4; } return 0; }
        if (k == K_NSEV && c->bs && c->kappa == 1 && c->has_opts) { c->o.v.discretization = rb(r, .5) ? fnft_nse_discretization_BO : fnft_nse_discretization_ES4; c->o.v.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; snprintf(what, 64, "fast eigenvalues with a slow discretization"); return 2; }
        if (k == K_NSEP && c->has_opts && c->o.p.localization != fnft_nsep_loc_NEWTON) { c->o.p.discretization = rb(r, .5) ? fnft_nse_discretization_BO : fnft_nse_discretization_CF4_2; snprintf(what, 64, "slow discretization without Newton"); return 2; }
        if (k == K_MANA && c->has_opts && c->bs && c->kappa == 1) { c->o.m.discretization = fnft_manakov_discretization_BO; c->o.m.bound_state_localization = fnft_manakovv_bsloc_FAST_EIGENVALUE; snprintf(what, 64, "bound states with a slow discretization"); return 2; }
        if (k == K_KDVV && c->cs && c->XI && c->M >= 3) { double w = ldexp(1, ri(r, -2, 2)); int v = ri(r, 0, 3); c->XI[0] = -w; c->XI[1] = w; if (v == 0) { if (!(c->M & 1)) c->M--; } else if (v == 1) { c->XI[0] = 0; } else if (v == 2) { c->XI[0] = -1; c->XI[1] = 0; } else { c->XI[0] = 0; c->M = 1; } snprintf(what, 64, "frequency zero on the grid (%s)", v == 0 ? "middle" : v == 1 ? "first" : v == 2 ? "last" : "only"); return 1; }
        return 0;
    case 21: if (k == K_INV && c->has_opts && c->cs && c->M && c->o.i.contspec_type == fnft_nsev_inverse_cstype_B_OF_TAU) { c->T[1] += 1; snprintf(what, 64, "B_OF_TAU with asymmetric T"); return 1; }
        if (k == K_MANA && c->has_opts) { c->o.m.discretization = fnft_manakov_discretization_FTES4_4B; snprintf(what, 64, "FTES4_4B"); return 1; }
        return 0;
    }
    return 0;
}
void c07(long idx) {
    rng_t r = rng_make(h_seed, 7, (uint64_t)idx); call_t c; char what[64] = ""; int m = 0;
    for (int t = 0; t < 60 && !m; t++) {
        gprof_t pf = { .kinds = 1 << (idx % NKINDS), .maxD = 24, .budget = 150, .tame = 1 };
        call_gen(&r, &c, &pf); call_alloc(&c); call_reset(&c, 0x1234567811223344ull);
        m = mutate(&r, &c, what); if (!m) call_free(&c);
    }
    if (!m) { h_incon("no mutation"); return; }
    (void)two_;
    h_log("%s | %s", c.desc, what); if (idx < 8) h_sample("%s | %s", c.desc, what);
    size_t nq = c.kind == K_INV && c.q ? c.D : 0; if (nq > c.D) nq = c.D;
    cplx *cs = c.cs ? h_dup_c(c.cs, c.ncs) : 0, *bs = c.bs ? h_dup_c(c.bs, c.nbs) : 0, *nc = c.nc ? h_dup_c(c.nc, c.nnc) : 0, *q = nq ? h_dup_c(c.q, nq) : 0;
    typeof(c.o) before; memcpy(&before, &c.o, sizeof before);
    msgs_reset(); mw_begin(-1, 0, -1); call_run(&c); mw_end(); mw_forget();
    char sig[160], wk[64]; int j = 0; for (char *p = what; *p && j < 60; p++) wk[j++] = strchr(" ;()", *p) ? '_' : *p; wk[j] = 0;
    if (c.rc == 0) { snprintf(sig, sizeof sig, "accepted-%s-%s", kind_name[c.kind], wk); h_violation(sig, "success for invalid arguments (%s): %s", what, c.desc); }
    else {
        h_metric("rejected", 1);
        const char *t = NULL;
        if (m == 2) ; /* detected while the requested quantities are computed */
        else if (cs && c.kind != K_INV /* documented as overwritten */ && memcmp(cs, c.cs, c.ncs * sizeof(cplx))) t = "continuous spectrum";
        else if (bs && memcmp(bs, c.bs, c.nbs * sizeof(cplx))) t = "bound states";
        else if (nc && memcmp(nc, c.nc, c.nnc * sizeof(cplx))) t = "norming constants";
        else if (q && memcmp(q, c.q, nq * sizeof(cplx))) t = "samples";
        else if (c.Kio != c.K) t = "*K_ptr"; else if (c.Mio != c.Mx) t = "*M_ptr";
        else if (memcmp(&before, &c.o, opts_size(c.kind))) t = "options";
        if (t) { snprintf(sig, sizeof sig, "touched-%s-%s-%s", kind_name[c.kind], t, wk); for (char *p = sig; *p; p++) if (*p == ' ') *p = '_'; h_violation(sig, "%s modified although the call was rejected with %d (%s): %s", t, c.rc, what, c.desc); }
    }
    h_eval(1, "%s|%s", what, c.desc);
    h_free(cs); h_free(bs); h_free(nc); h_free(q); call_free(&c);
}

/* ---------------- C08 ---------------- */
static FNFT_INT other_printf(const char *f, ...) { (void)f; return 0; }
static void *c08_thread(void *p) {
    long *res = p; fnft_printf_ptr_t a = fnft_errwarn_getprintf(); res[0] = a == h_printf;   /* must not inherit */
    fnft_errwarn_setprintf(other_printf); res[1] = fnft_errwarn_getprintf() == other_printf;
    return NULL;
}
void c08(long idx) {
    rng_t r = rng_make(h_seed, 8, (uint64_t)idx); call_t c; char what[64] = "";
    gprof_t pf = { .kinds = 1 << (idx % NKINDS), .maxD = 24, .budget = 150, .allow_invalid = 1 };
    call_gen(&r, &c, &pf); call_alloc(&c); call_reset(&c, 5); long fail = -1;
    int m = ri(&r, 0, 3); if (m == 1) mutate(&r, &c, what); if (m == 2) { fail = ri(&r, 0, 25); snprintf(what, sizeof what, "allocation %ld fails", fail); }
    h_log("%s | %s", c.desc, what); if (idx < 6) h_sample("%s | %s", c.desc, what);
    int silent = rb(&r, .3); char sig[96];
    fnft_errwarn_setprintf(silent ? NULL : h_printf);
    if (fnft_errwarn_getprintf() != (silent ? NULL : h_printf)) h_violation("getprintf", "installed message function is not returned");
    /* nothing may reach the standard streams: point them to a scratch file for the time of the call */
    fflush(stdout); fflush(stderr);
    static int scratch = -1; if (scratch < 0) scratch = memfd_create("c08", 0);
    int so = dup(1), se = dup(2);
    if (scratch >= 0) { if (ftruncate(scratch, 0)) {} lseek(scratch, 0, SEEK_SET); dup2(scratch, 1); dup2(scratch, 2); }
    msgs_reset(); mw_begin(fail, 0, -1); call_run(&c); mw_end();
    fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); close(so); close(se);
    off_t n = scratch >= 0 ? lseek(scratch, 0, SEEK_END) : 0;
    mw_forget();
    if (n > 0) { char b[200] = ""; if (pread(scratch, b, 199, 0) < 0) {} snprintf(sig, sizeof sig, "output-on-std-stream-%s", kind_name[c.kind]); h_violation(sig, "%ld bytes written to stdout/stderr (silent=%d): '%.100s' %s | %s", (long)n, silent, b, c.desc, what); }
    int a = abs(c.rc);
    if (a > 8) h_violation("undocumented-code", "rc=%d: %s | %s", c.rc, c.desc, what);
    if (!silent) {
        if (c.rc && !msgs.nerr) { snprintf(sig, sizeof sig, "error-without-message-%s", kind_name[c.kind]); h_violation(sig, "rc=%d without an error message: %s | %s", c.rc, c.desc, what); }
        if (!c.rc && msgs.nerr) { snprintf(sig, sizeof sig, "message-without-error-%s", kind_name[c.kind]); h_violation(sig, "success but '%s': %s | %s", msgs.first, c.desc, what); }
        h_metric("messages", (double)(msgs.nerr + msgs.nwarn));
    } else if (msgs.nerr + msgs.nwarn + msgs.nother) h_violation("not-silent", "message function called although none is installed");
    fnft_errwarn_setprintf(h_printf);
    /* a short array is announced */
    if (!c.rc && !*what && c.kind != K_INV && c.bs && c.useK && c.K >= 2 && c.Kio >= 2 && c.kappa != -7) {
        int newton = (c.kind == K_NSEV && c.has_opts && c.o0.v.bound_state_localization == fnft_nsev_bsloc_NEWTON) || (c.kind == K_KDVV && c.has_opts && c.o0.k.bound_state_localization == fnft_kdvv_bsloc_NEWTON) || (c.kind == K_NSEP && c.has_opts && c.o0.p.localization == fnft_nsep_loc_NEWTON);
        if (!newton) {
            uint_ full = c.Kio, k0 = c.K; int dt = c.kind == K_NSEV ? (c.has_opts && c.o0.v.discspec_type == 2) : c.kind == K_KDVV ? c.o0.k.discspec_type == 2 : 0; (void)dt;
            c.K = full - 1; call_reset(&c, 5); msgs_reset(); call_run(&c);
            if (c.rc == 0 && c.Kio < full && !msgs.nwarn) { snprintf(sig, sizeof sig, "silent-truncation-%s", kind_name[c.kind]); h_violation(sig, "only %zu of %zu points returned without a warning: %s", (size_t)c.Kio, (size_t)full, c.desc); }
            h_metric("truncations", c.rc == 0); c.K = k0;
        }
    }
    if (idx % 16 == 0) {
        long res[2] = { 0, 0 }; pthread_t t; if (!pthread_create(&t, NULL, c08_thread, res)) { pthread_join(t, NULL);
            if (res[0]) h_violation("message-function-shared", "a new thread sees the message function of another thread");
            if (!res[1]) h_violation("getprintf", "installed message function is not returned in a thread");
            if (fnft_errwarn_getprintf() != h_printf) h_violation("message-function-shared", "another thread replaced the message function of this thread");
            h_metric("threads", 1); }
    }
    h_eval(1, "%s|%s|%d", c.desc, what, silent); call_free(&c);
}
