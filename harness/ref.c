#include "ref.h"
m2 m2mul(m2 x, m2 y) { return (m2){ x.a * y.a + x.b * y.c, x.a * y.b + x.b * y.d, x.c * y.a + x.d * y.c, x.c * y.b + x.d * y.d }; }
static m2 m2lin(double s, m2 x, double t, m2 y) { return (m2){ s * x.a + t * y.a, s * x.b + t * y.b, s * x.c + t * y.c, s * x.d + t * y.d }; }
static m2 m2sc(double s, m2 x) { return (m2){ s * x.a, s * x.b, s * x.c, s * x.d }; }
static cplx sinhc(cplx z) { /* sinh(z)/z */
    if (cabs(z) < 1e-2) { cplx w = z * z; return 1 + w / 6 * (1 + w / 20 * (1 + w / 42)); }
    return csinh(z) / z;
}
m2 ref_expm2(m2 x) {
    cplx tr = (x.a + x.d) / 2, a = x.a - tr, d = x.d - tr, det = a * d - x.b * x.c, s = csqrt(-det);
    cplx c = ccosh(s), k = sinhc(s), e = cexp(tr);
    return (m2){ e * (c + k * a), e * k * x.b, e * k * x.c, e * (c + k * d) };
}
m2 ref_expU(cplx xi, cplx q, cplx r, double h) { return ref_expm2((m2){ -I * xi * h, q * h, r * h, I * xi * h }); }
static m2 eA(cplx xi, double h) { return (m2){ cexp(-I * xi * h), 0, 0, cexp(I * xi * h) }; }
static m2 eB(cplx q, cplx r, double h) { return ref_expm2((m2){ 0, q * h, r * h, 0 }); }
typedef struct { cplx xi, q, r; double h; int sw; } st_t;
/* e^{A f h} or e^{B f h}; sw exchanges the roles of A and B */
static m2 X(const st_t *s, double f) { return s->sw ? eB(s->q, s->r, f * s->h) : eA(s->xi, f * s->h); }
static m2 Y(const st_t *s, double f) { return s->sw ? eA(s->xi, f * s->h) : eB(s->q, s->r, f * s->h); }
static m2 strang(const st_t *s, double f) { return m2mul(X(s, f / 2), m2mul(Y(s, f), X(s, f / 2))); }
static m2 lie(const st_t *s, double f) { return m2mul(X(s, f), Y(s, f)); }
static m2 pw(m2 x, int n) { m2 p = x; for (int i = 1; i < n; i++) p = m2mul(p, x); return p; }
/* the third order building block of 3A/3B with step f */
static m2 third(const st_t *s, double f) {
    return m2lin(9. / 8, m2mul(X(s, f / 3), m2mul(Y(s, 2 * f / 3), m2mul(X(s, 2 * f / 3), Y(s, f / 3)))), -1. / 8, lie(s, f));
}
m2 ref_split(int d, cplx xi, cplx q, cplx r, double h) {
    st_t s = { xi, q, r, h, 0 };
    switch (d) {
    case 0: { cplx n = 1 / csqrt(1 - q * r * h * h); return (m2){ n * cexp(-I * xi * h), n * q * h, n * r * h, n * cexp(I * xi * h) }; }
    case 2: return lie(&s, 1);
    case 3: s.sw = 1; return lie(&s, 1);
    case 4: return strang(&s, 1);
    case 5: s.sw = 1; return strang(&s, 1);
    case 6: { m2 x = lie(&s, 1); s.sw = 1; return m2lin(.5, x, .5, lie(&s, 1)); }
    case 7: return third(&s, 1);
    case 8: s.sw = 1; return third(&s, 1);
    case 9: { m2 sa = strang(&s, 1), l = lie(&s, 1); s.sw = 1; m2 sb = strang(&s, 1), l2 = lie(&s, 1);
        return m2lin(2. / 3, m2lin(1, sa, 1, sb), -1. / 6, m2lin(1, l, 1, l2)); }
    case 11: s.sw = 1; /* fall through */
    case 10: return m2lin(4. / 3, pw(strang(&s, .5), 2), -1. / 3, strang(&s, 1));
    case 13: s.sw = 1; /* fall through */
    case 12: {
        /* composition of first-order flows with fractions 1/5, 1/3 and 1 */
        m2 p5 = m2mul(X(&s, .2), m2mul(Y(&s, .4), m2mul(X(&s, .4), m2mul(Y(&s, .4), m2mul(X(&s, .4), Y(&s, .2))))));
        m2 p3 = m2mul(X(&s, 1. / 3), m2mul(Y(&s, 2. / 3), m2mul(X(&s, 2. / 3), Y(&s, 1. / 3))));
        return m2lin(1, m2lin(625. / 384, p5, -81. / 128, p3), 1. / 192, lie(&s, 1)); }
    case 15: s.sw = 1; /* fall through */
    case 14: return m2lin(1, m2lin(81. / 40, pw(strang(&s, 1. / 3), 3), -16. / 15, pw(strang(&s, .5), 2)), 1. / 24, strang(&s, 1));
    case 17: s.sw = 1; /* fall through */
    case 16: {
        /* fractions 1/7, 1/5, 1/3, 1 */
        m2 p7 = m2mul(X(&s, 1. / 7), Y(&s, 2. / 7)); for (int k = 0; k < 2; k++) p7 = m2mul(p7, m2mul(X(&s, 2. / 7), Y(&s, 2. / 7))); p7 = m2mul(p7, m2mul(X(&s, 2. / 7), Y(&s, 1. / 7)));
        m2 p5 = m2mul(X(&s, .2), m2mul(Y(&s, .4), m2mul(X(&s, .4), m2mul(Y(&s, .4), m2mul(X(&s, .4), Y(&s, .2))))));
        m2 p3 = m2mul(X(&s, 1. / 3), m2mul(Y(&s, 2. / 3), m2mul(X(&s, 2. / 3), Y(&s, 1. / 3))));
        return m2lin(1, m2lin(117649. / 46080, p7, -15625. / 9216, p5), 1, m2lin(729. / 5120, p3, -1. / 9216, lie(&s, 1))); }
    case 19: s.sw = 1; /* fall through */
    case 18: return m2lin(1, m2lin(1024. / 315, pw(strang(&s, .25), 4), -729. / 280, pw(strang(&s, 1. / 3), 3)), 1, m2lin(16. / 45, pw(strang(&s, .5), 2), -1. / 360, strang(&s, 1)));
    }
    return m2sc(NAN, eA(xi, h));
}
void ref_shift(size_t D, const cplx *q, double frac, cplx *out) {
    cplx *F = h_malloc(D * sizeof *F), *tw = h_malloc(D * sizeof *tw);
    FOR(j, D) tw[j] = cexp(-2 * M_PI * I * (double)j / (double)D);
    FOR(k, D) { cplx s = 0; FOR(j, D) s += q[j] * tw[(k * j) % D]; F[k] = s / (double)D; }
    FOR(k, D) { double f = k < (D + 1) / 2 ? (double)k : k == D / 2 && D % 2 == 0 ? -(double)k : (double)k - (double)D; F[k] *= cexp(2 * M_PI * I * f * frac / (double)D); }
    FOR(j, D) { cplx s = 0; FOR(k, D) s += F[k] * conj(tw[(k * j) % D]); out[j] = s; }
    h_free(F); h_free(tw);
}
static cplx rof(cplx q, int kappa) { return kappa == 0 ? -1 : -kappa * conj(q); }
static const double GP = 0.38729833462074168852; /* sqrt(15)/10 */
void ref_preprocess(int d, size_t D, const cplx *q, int kappa, double h, cplx *qp, cplx *rp) { ref_preprocess_n(d, D, q, kappa, h, 1, qp, rp); }
/* interpolation points for steps of size n*h around the given samples */
void ref_preprocess_n(int d, size_t D, const cplx *q, int kappa, double h, double n_, cplx *qp, cplx *rp) {
    cplx *u = h_malloc(D * sizeof *u), *v = h_malloc(D * sizeof *v);
    int kk = kappa == 2 ? 0 : kappa;
    switch (d) {
    case 20: case 21: case 22: { double s = sqrt(3) / 6, w = .5 + 1 / sqrt(3), z = .5 - 1 / sqrt(3);
        ref_shift(D, q, -s * n_, u); ref_shift(D, q, s * n_, v);
        FOR(i, D) { qp[2 * i] = w * u[i] + z * v[i]; qp[2 * i + 1] = z * u[i] + w * v[i]; rp[2 * i] = w * rof(u[i], kk) + z * rof(v[i], kk); rp[2 * i + 1] = z * rof(u[i], kk) + w * rof(v[i], kk); }
        break; }
    case 23: { /* Gauss-Legendre with Legendre moments */
        static const double f[3][3] = { { 11. / 40, 20. / 87, 7. / 50 }, { 9. / 20, 0, -7. / 25 }, { 11. / 40, -20. / 87, 7. / 50 } };
        double x[3] = { 2 * GP, 0, -2 * GP }, w[3] = { 5. / 18, 4. / 9, 5. / 18 };
        ref_shift(D, q, -GP * n_, u); ref_shift(D, q, GP * n_, v);
        for (int i = 0; i < 3; i++) { double c[3], t = 0; for (int m = 0; m < 3; m++) { double P[3] = { 1, x[m], (3 * x[m] * x[m] - 1) / 2 }; c[m] = w[m] * (f[i][0] * P[0] + 3 * f[i][1] * P[1] + 5 * f[i][2] * P[2]); t += c[m]; }
            FOR(j, D) { qp[3 * j + i] = (c[0] * u[j] + c[1] * q[j] + c[2] * v[j]) / t; rp[3 * j + i] = (c[0] * rof(u[j], kk) + c[1] * rof(q[j], kk) + c[2] * rof(v[j], kk)) / t; } }
        break; }
    case 24: case 25: {
        double s15 = sqrt(15);
        cplx w5[9] = { (145 + 37 * s15) / 900 + I * (5 + 3 * s15) / 300, -1. / 45 + I * (1. / 15), (145 - 37 * s15) / 900 + I * (5 - 3 * s15) / 300, -2. / 45 - I * s15 / 50, 22. / 45, -2. / 45 + I * s15 / 50, 0, 0, 0 };
        w5[6] = conj(w5[2]); w5[7] = conj(w5[1]); w5[8] = conj(w5[0]);
        cplx w6[12] = { 0.245985577298764 + 0.038734389227165 * I, -0.046806149832549 + 0.012442141491185 * I, 0.010894359342569 - 0.004575808769067 * I,
            0.062868370946917 - 0.048761268117765 * I, 0.269028372054771 - 0.012442141491185 * I, -0.041970529810473 + 0.014602687659668 * I };
        for (int k = 0; k < 6; k++) w6[11 - k] = w6[k];
        int n = d == 24 ? 3 : 4; cplx *w = d == 24 ? w5 : w6;
        ref_shift(D, q, -GP * n_, u); ref_shift(D, q, GP * n_, v);
        for (int i = 0; i < n; i++) { cplx *c = w + 3 * i, t = c[0] + c[1] + c[2]; FOR(j, D) { qp[n * j + (size_t)i] = (c[0] * u[j] + c[1] * q[j] + c[2] * v[j]) / t; rp[n * j + (size_t)i] = (c[0] * rof(u[j], kk) + c[1] * rof(q[j], kk) + c[2] * rof(v[j], kk)) / t; } }
        break; }
    case 26: case 27:
        FOR(i, D) { cplx p = i ? q[i - 1] : 0, n = i + 1 < D ? q[i + 1] : 0; cplx d1 = (n - p) / (2 * h), d2 = (n - 2 * q[i] + p) / (h * h);
            qp[3 * i] = q[i]; qp[3 * i + 1] = d1; qp[3 * i + 2] = d2; rp[3 * i] = rof(q[i], kk); rp[3 * i + 1] = kk ? rof(d1, kk) : 0; rp[3 * i + 2] = kk ? rof(d2, kk) : 0; }
        break;
    default: FOR(i, D) { qp[i] = q[i]; rp[i] = rof(q[i], kk); }
    }
    if (kappa == 2) FOR(i, D * (size_t)nse_ups[d]) { cplx t = qp[i]; qp[i] = rp[i]; rp[i] = t; }
    h_free(u); h_free(v);
}
static m2 Um(cplx xi, cplx q, cplx r) { return (m2){ -I * xi, q, r, I * xi }; }
static m2 comm(m2 x, m2 y) { return m2lin(1, m2mul(x, y), -1, m2mul(y, x)); }
static m2 step_pre(int d, size_t i, const cplx *q, const cplx *r, double h, cplx xi) {
        m2 s;
        switch (d) {
        case 1: s = ref_expU(xi, q[i], r[i], h); break;
        case 20: case 21: { int b = d == 20 ? 10 : 11; s = m2mul(ref_split(b, xi, q[2 * i + 1], r[2 * i + 1], h / 2), ref_split(b, xi, q[2 * i], r[2 * i], h / 2)); break; }
        case 22: s = m2mul(ref_expU(xi, q[2 * i + 1], r[2 * i + 1], h / 2), ref_expU(xi, q[2 * i], r[2 * i], h / 2)); break;
        case 23: case 24: case 25: {
            static const double e3[3] = { 11. / 40, 9. / 20, 11. / 40 };
            cplx e5[3] = { 0.3 + .1 * I, .4, .3 - .1 * I };
            cplx e6[4] = { 0.210073786808784 + 0.046600721949282 * I, 0.289926213191216 - 0.046600721949282 * I, 0.289926213191216 - 0.046600721949282 * I, 0.210073786808784 + 0.046600721949282 * I };
            size_t n = d == 25 ? 4 : 3; s = (m2){ 1, 0, 0, 1 };
            FOR(k, n) { cplx e = h * (d == 23 ? e3[k] : d == 24 ? e5[k] : e6[k]); cplx Q = q[n * i + k], R = r[n * i + k]; s = m2mul(ref_expm2((m2){ -I * xi * e, Q * e, R * e, I * xi * e }), s); }
            break; }
        case 26: case 27: { m2 U0 = Um(xi, q[3 * i], r[3 * i]), U1 = { 0, q[3 * i + 1], r[3 * i + 1], 0 }, U2 = { 0, q[3 * i + 2], r[3 * i + 2], 0 };
            if (d == 26) s = ref_expm2(m2lin(1, m2lin(h, U0, h * h * h / 24, U2), h * h * h / 12, comm(U1, U0)));
            else s = m2mul(ref_expm2(m2lin(h * h / 12, U1, h * h * h / 48, U2)), m2mul(ref_expm2(m2sc(h, U0)), ref_expm2(m2lin(-h * h / 12, U1, h * h * h / 48, U2))));
            break; }
        default: s = ref_split(d, xi, q[i], r[i], h);
        }
        return s;
}
static m2 transfer_pre(int d, size_t D, const cplx *q, const cplx *r, double h, cplx xi) {
    m2 P = { 1, 0, 0, 1 };
    FOR(i, D) P = m2mul(step_pre(d, i, q, r, h, xi), P);
    return P;
}
m2 ref_transfer(int d, size_t D, const cplx *q, int kappa, double h, cplx xi) {
    size_t n = D * (size_t)nse_ups[d]; cplx *qp = h_malloc(n * sizeof *qp), *rp = h_malloc(n * sizeof *rp);
    ref_preprocess(d, D, q, kappa, h, qp, rp);
    m2 P = transfer_pre(d, D, qp, rp, h, xi);
    h_free(qp); h_free(rp); return P;
}
void ref_nse(int d, size_t D, const cplx *q, const double *T, int kappa, cplx xi, cplx *a, cplx *b) { scat_t s; scat_init(&s, d, D, q, T, kappa); scat_ab(&s, xi, a, b); scat_free(&s); }
int ref_base(int d) { return !nse_is_fast(d) ? d : nse_ups[d] == 1 ? 1 : 22; }
void scat_init(scat_t *s, int d, size_t D, const cplx *q, const double *T, int kappa) {
    double h = (T[1] - T[0]) / (double)(D - 1); size_t n = D * (size_t)nse_ups[d];
    *s = (scat_t){ d, kappa, D, h_malloc(n * sizeof(cplx)), h_malloc(n * sizeof(cplx)), { T[0], T[1] }, h, T[0] - h / 2, T[1] + h / 2 };
    ref_preprocess(d, D, q, kappa, h, s->qp, s->rp);
}
/* every nskip-th sample only (Dsub of them); steps nskip times as large */
void scat_init_sub(scat_t *s, int d, size_t D, const cplx *q, const double *T, int kappa, size_t nskip, size_t Dsub) {
    double h = (T[1] - T[0]) / (double)(D - 1), H = h * (double)nskip; size_t u = (size_t)nse_ups[d], n = Dsub * u; double T1 = T[0] + H * (double)(Dsub - 1);
    *s = (scat_t){ d, kappa, Dsub, h_malloc(n * sizeof(cplx)), h_malloc(n * sizeof(cplx)), { T[0], T1 }, H, T[0] - H / 2, T1 + H / 2 };
    if (u == 1 || d == 26 || d == 27) { cplx *qs = h_malloc(Dsub * sizeof *qs); FOR(i, Dsub) qs[i] = q[i * nskip]; ref_preprocess(d, Dsub, qs, kappa, H, s->qp, s->rp); h_free(qs); return; }
    cplx *a = h_malloc(D * u * sizeof *a), *b = h_malloc(D * u * sizeof *b); ref_preprocess_n(d, D, q, kappa, h, (double)nskip, a, b);
    FOR(i, Dsub) FOR(k, u) { s->qp[i * u + k] = a[i * nskip * u + k]; s->rp[i * u + k] = b[i * nskip * u + k]; }
    h_free(a); h_free(b);
}
void scat_free(scat_t *s) { h_free(s->qp); h_free(s->rp); }
m2 scat_m(const scat_t *s, cplx xi) { return transfer_pre(s->d, s->D, s->qp, s->rp, s->h, xi); }
void scat_ab(const scat_t *s, cplx xi, cplx *a, cplx *b) { m2 P = scat_m(s, xi); *a = P.a * cexp(I * xi * (s->tp - s->tm)); *b = P.c * cexp(-I * xi * (s->tp + s->tm)); }
void ref_phipsi(const scat_t *z, cplx xi, cplx *f, cplx *g) { cplx a[2] = { cexp(-I * xi * z->tm), 0 }, b[2] = { 0, cexp(I * xi * z->tp) }; ref_phipsi0(z, xi, a, b, f, g); }
void ref_phipsi0(const scat_t *z, cplx xi, const cplx *f0, const cplx *gD, cplx *f, cplx *g) {
    size_t D = z->D; f[0] = f0[0]; f[1] = f0[1]; g[2 * D] = gD[0]; g[2 * D + 1] = gD[1];
    m2 *S = h_malloc(D * sizeof *S);
    FOR(i, D) { m2 s = S[i] = step_pre(z->d, i, z->qp, z->rp, z->h, xi); f[2 * i + 2] = s.a * f[2 * i] + s.b * f[2 * i + 1]; f[2 * i + 3] = s.c * f[2 * i] + s.d * f[2 * i + 1]; }
    for (size_t i = D; i-- > 0;) { m2 s = S[i]; cplx det = s.a * s.d - s.b * s.c; g[2 * i] = (s.d * g[2 * i + 2] - s.b * g[2 * i + 3]) / det; g[2 * i + 1] = (-s.c * g[2 * i + 2] + s.a * g[2 * i + 3]) / det; }
    h_free(S);
}
cplx ref_nse_da(const scat_t *z, cplx xi) {
    double e = 5e-3 / fmax(1, (z->T[1] - z->T[0]) * .2); cplx s = 0, a, b;
    for (int k = 0; k < 8; k++) { cplx w = cexp(I * M_PI * k / 4.); scat_ab(z, xi + e * w, &a, &b); s += a * conj(w); }
    return s / (8 * e);
}
double ref_nse_b(const scat_t *z, cplx xi, cplx *best, cplx want, double *dist) {
    size_t D = z->D; cplx *f = h_malloc(2 * (D + 1) * sizeof *f), *g = h_malloc(2 * (D + 1) * sizeof *g); double m = INFINITY, dd = INFINITY;
    ref_phipsi(z, xi, f, g);
    FOR(i, D + 1) {
        cplx *x = f + 2 * i, *y = g + 2 * i; double yy = creal(y[0] * conj(y[0]) + y[1] * conj(y[1])), xx = creal(x[0] * conj(x[0]) + x[1] * conj(x[1]));
        cplx b = (x[0] * conj(y[0]) + x[1] * conj(y[1])) / yy; double r = sqrt((pow(cabs(x[0] - b * y[0]), 2) + pow(cabs(x[1] - b * y[1]), 2)) / xx);
        if (r < m) { m = r; *best = b; }
        for (int k = 0; k < 2; k++) { double v = cabs(x[k] / y[k] / want - 1); if (v < dd) dd = v; }
    }
    if (dist) *dist = dd;
    h_free(f); h_free(g); return m;
}
typedef struct { cfun_t f; void *p; size_t ev, maxev; double mn; int bad; } cz_t;
static double seg(cz_t *z, cplx a, cplx fa, cplx b, cplx fb, int depth) {
    double t = carg(fb / fa), r = cabs(fb) / cabs(fa);
    if (fabs(t) < .7 && r < 3 && r > .33 && depth >= 1) return t;
    if (depth > 14 || z->ev >= z->maxev) { z->bad = 1; return 0; }
    cplx m = (a + b) / 2, fm = z->f(m, z->p); z->ev++; z->mn = fmin(z->mn, cabs(fm));
    return seg(z, a, fa, m, fm, depth + 1) + seg(z, m, fm, b, fb, depth + 1);
}
int ref_count_zeros(cfun_t f, void *p, double x0, double x1, double y0, double y1, size_t n0, size_t maxev, double *minabs) {
    cz_t z = { f, p, 0, maxev, INFINITY, 0 }; cplx c[5] = { x0 + I * y0, x1 + I * y0, x1 + I * y1, x0 + I * y1, x0 + I * y0 }; double tot = 0;
    cplx fa = f(c[0], p);
    for (int k = 0; k < 4 && !z.bad; k++) { size_t n = n0; for (size_t i = 0; i < n && !z.bad; i++) { cplx a = c[k] + (c[k + 1] - c[k]) * (double)i / (double)n, b = c[k] + (c[k + 1] - c[k]) * (double)(i + 1) / (double)n, fb = f(b, p); z.ev++; z.mn = fmin(z.mn, cabs(fb)); tot += seg(&z, a, fa, b, fb, 0); fa = fb; } }
    if (minabs) *minabs = z.mn;
    if (z.bad) return -1;
    double w = tot / (2 * M_PI); return fabs(w - round(w)) < .05 ? (int)round(w) : -1;
}
void ref_kdv(int dd, size_t D, const cplx *q, const double *T, cplx xi, cplx *a, cplx *b) {
    int d = dd % 28; double h = (T[1] - T[0]) / (double)(D - 1), tm = T[0] - h / 2, tp = T[1] + h / 2;
    cplx em = cexp(-I * xi * tm), f1, f2, A, B;
    if (dd < 28) { m2 P = ref_transfer(d, D, q, 0, h, xi); f1 = P.a * 2 * I * xi + P.b; f2 = P.c * 2 * I * xi + P.d; A = f1 / (2 * I * xi); B = f2 - A; }
    else { m2 P = ref_transfer(d, D, q, 2, h, xi); f1 = P.a; f2 = P.c; A = f1 + f2 / (2 * I * xi); B = -f2 / (2 * I * xi); }
    *a = A * em * cexp(I * xi * tp); *b = B * em * cexp(-I * xi * tp);
}

/* ---- analytic signals: sums of Gaussians with chirp and carrier ---- */
void asig_gen(rng_t *r, asig_t *s, const double *T, double area, int real_only) {
    double L = T[1] - T[0]; memset(s, 0, sizeof *s);
    s->n = ri(r, 1, 3); s->real_only = real_only;
    for (int k = 0; k < s->n; k++) {
        s->w[k] = L * rr(r, .045, .065); s->c[k] = T[0] + L * rr(r, .43, .57); s->A[k] = area / (s->w[k] * 2.5 * s->n) * rr(r, .6, 1.4) * (rb(r, .5) ? 1 : -1);
        s->f[k] = rr(r, -1.5, 1.5) / s->w[k]; s->ch[k] = rr(r, -.4, .4) / (s->w[k] * s->w[k]); s->ph[k] = rr(r, 0, 6.28);
    }
}
cplx asig_eval(const asig_t *s, double t) {
    cplx v = 0;
    for (int k = 0; k < s->n; k++) { double x = t - s->c[k], e = s->A[k] * exp(-x * x / (2 * s->w[k] * s->w[k])); v += s->real_only ? e * cos(.3 * s->f[k] * x) : e * cexp(I * (s->f[k] * x + s->ch[k] * x * x + s->ph[k])); }
    return v;
}
void asig_sample(const asig_t *s, size_t D, const double *T, cplx *q) { FOR(i, D) q[i] = asig_eval(s, T[0] + (T[1] - T[0]) * (double)i / (double)(D - 1)); }
static m2 magnus4(const asig_t *s, double t, double h, int kappa, cplx xi) {
    double g = sqrt(3) / 6; cplx q1 = asig_eval(s, t + h * (.5 - g)), q2 = asig_eval(s, t + h * (.5 + g));
    m2 A1 = Um(xi, q1, rof(q1, kappa)), A2 = Um(xi, q2, rof(q2, kappa));
    return ref_expm2(m2lin(1, m2lin(h / 2, A1, h / 2, A2), -h * h * sqrt(3) / 12, comm(A1, A2)));
}
static m2 true_transfer(const asig_t *s, const double *T, int kappa, cplx xi, size_t N) {
    m2 P = { 1, 0, 0, 1 }; double h = (T[1] - T[0]) / (double)N;
    FOR(i, N) P = m2mul(magnus4(s, T[0] + h * (double)i, h, kappa, xi), P);
    return P;
}
/* Richardson extrapolated Magnus integrator: order 6 */
static m2 true_rich(const asig_t *s, const double *T, int kappa, cplx xi, size_t N) { return m2lin(16. / 15, true_transfer(s, T, kappa, xi, N), -1. / 15, true_transfer(s, T, kappa, xi, N / 2)); }
void ref_true_nse(const asig_t *s, const double *T, int kappa, cplx xi, size_t N, cplx *a, cplx *b) {
    m2 P = true_rich(s, T, kappa, xi, N & ~(size_t)1);
    *a = P.a * cexp(I * xi * (T[1] - T[0])); *b = P.c * cexp(-I * xi * (T[1] + T[0]));
}
void ref_true_kdv(const asig_t *s, const double *T, cplx xi, size_t N, cplx *a, cplx *b) {
    m2 P = true_rich(s, T, 0, xi, N & ~(size_t)1); cplx em = cexp(-I * xi * T[0]);
    cplx f1 = P.a * 2 * I * xi + P.b, f2 = P.c * 2 * I * xi + P.d, A = f1 / (2 * I * xi);
    *a = A * em * cexp(I * xi * T[1]); *b = (f2 - A) * em * cexp(-I * xi * T[1]);
}
