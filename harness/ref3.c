/* Reference computations for the Manakov equation (3x3). */
#include "ref.h"
m3 m3mul(const m3 *x, const m3 *y) { m3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[3 * i + j] = x->m[3 * i] * y->m[j] + x->m[3 * i + 1] * y->m[3 + j] + x->m[3 * i + 2] * y->m[6 + j]; return r; }
static m3 mm(m3 x, m3 y) { return m3mul(&x, &y); }
static m3 m3lin(double s, m3 x, double t, m3 y) { m3 r; FOR(i, 9) r.m[i] = s * x.m[i] + t * y.m[i]; return r; }
static const m3 I3 = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 } };
m3 ref_expm3(const m3 *x) {
    double n = 0; FOR(i, 9) n = fmax(n, cabs(x->m[i])); int s = 0; m3 a = *x; while (n > .12) { n /= 2; s++; } double f = ldexp(1, -s); FOR(i, 9) a.m[i] *= f;
    m3 r = I3; for (int k = 13; k >= 1; k--) { r = mm(a, r); FOR(i, 9) r.m[i] /= k; r.m[0] += 1; r.m[4] += 1; r.m[8] += 1; }
    while (s--) r = mm(r, r); return r;
}
static m3 Pm(cplx xi, cplx q1, cplx q2, int kappa) { return (m3){ { -I * xi, q1, q2, -kappa * conj(q1), I * xi, 0, -kappa * conj(q2), 0, I * xi } }; }
m3 ref_expU3(cplx xi, cplx q1, cplx q2, int kappa, double h) { m3 x = Pm(xi, q1, q2, kappa); FOR(i, 9) x.m[i] *= h; return ref_expm3(&x); }
typedef struct { cplx xi, q1, q2; int kappa, sw; double h; } s3_t;
static m3 eA(const s3_t *s, double f) { cplx a = cexp(-I * s->xi * f * s->h), b = cexp(I * s->xi * f * s->h); return (m3){ { a, 0, 0, 0, b, 0, 0, 0, b } }; }
/* closed form: B^3 = -kappa |q|^2 B */
static m3 eB(const s3_t *s, double f) {
    m3 B = Pm(0, s->q1, s->q2, s->kappa); double h = f * s->h; FOR(i, 9) B.m[i] *= h;
    double n2 = creal(s->q1 * conj(s->q1) + s->q2 * conj(s->q2)) * h * h, n = sqrt(n2), c1, c2;
    if (n < 1e-2) { double w = s->kappa * n2; c1 = 1 - w / 6 * (1 - w / 20 * (1 - w / 42)); c2 = .5 - w / 24 * (1 - w / 30 * (1 - w / 56)); }
    else if (s->kappa > 0) { c1 = sin(n) / n; c2 = (1 - cos(n)) / n2; } else { c1 = sinh(n) / n; c2 = (cosh(n) - 1) / n2; }
    m3 B2 = mm(B, B), r = I3; FOR(i, 9) r.m[i] += c1 * B.m[i] + c2 * B2.m[i]; return r;
}
static m3 X(const s3_t *s, double f) { return s->sw ? eB(s, f) : eA(s, f); }
static m3 Y(const s3_t *s, double f) { return s->sw ? eA(s, f) : eB(s, f); }
static m3 strang(const s3_t *s, double f) { return mm(X(s, f / 2), mm(Y(s, f), X(s, f / 2))); }
static m3 third(const s3_t *s) { return m3lin(9. / 8, mm(X(s, 1. / 3), mm(Y(s, 2. / 3), mm(X(s, 2. / 3), Y(s, 1. / 3)))), -1. / 8, mm(X(s, 1), Y(s, 1))); }
static m3 four(const s3_t *s) { m3 a = strang(s, .5); return m3lin(4. / 3, mm(a, a), -1. / 3, strang(s, 1)); }
static m3 six(const s3_t *s) { m3 a = strang(s, 1. / 3), b = strang(s, .5); return m3lin(1, m3lin(81. / 40, mm(a, mm(a, a)), -16. / 15, mm(b, b)), 1. / 24, strang(s, 1)); }
static m3 suzuki(const s3_t *s) {
    static const double c[11] = { 7. / 48, 1. / 3, 3. / 8, -1. / 3, -1. / 48, 1, -1. / 48, -1. / 3, 3. / 8, 1. / 3, 7. / 48 }; m3 r = I3;
    for (int i = 0; i < 11; i++) r = mm(r, i & 1 ? eA(s, c[i]) : eB(s, c[i])); return r;
}
static m3 corr(const man_t *z, size_t n, int first) {
    double h = z->h; m3 E = { { 0 } }; cplx *qs[2] = { z->q1, z->q2 };
    for (int k = 0; k < 2; k++) { cplx p = n ? qs[k][n - 1] : qs[k][0], q = qs[k][n], x = n + 1 < z->D ? qs[k][n + 1] : qs[k][z->D - 1], d1 = (x - p) / (2 * h), d2 = (x - 2 * q + p) / (h * h), s = (first ? 1 : -1) * h * h / 12 * d1 + h * h * h / 48 * d2; E.m[1 + k] = s; E.m[3 + 3 * k] = -z->kappa * conj(s); }
    return ref_expm3(&E);
}
static m3 man_step(const man_t *z, size_t n, cplx xi) {
    s3_t s = { xi, z->q1[n], z->q2[n], z->kappa, 0, z->h };
    switch (z->d) {
    case 12: return ref_expU3(xi, s.q1, s.q2, z->kappa, z->h);
    case 1: s.sw = 1; /* fall through */
    case 0: return third(&s);
    case 3: s.sw = 1; /* fall through */
    case 2: return four(&s);
    case 4: s.sw = 1; return six(&s);
    case 8: return mm(corr(z, n, 1), mm(four(&s), corr(z, n, 0)));
    case 10: return mm(corr(z, n, 1), mm(suzuki(&s), corr(z, n, 0)));
    case 5: case 6: case 7: case 11: { m3 r = I3; s.xi = xi / 2; s.sw = z->d != 5;
        for (int k = 0; k < 2; k++) { s.q1 = z->q1[2 * n + (size_t)k]; s.q2 = z->q2[2 * n + (size_t)k]; m3 t = z->d == 11 ? ref_expU3(xi / 2, s.q1, s.q2, z->kappa, z->h) : z->d == 7 ? six(&s) : four(&s); r = mm(t, r); }
        return r; }
    }
    m3 r; FOR(i, 9) r.m[i] = NAN; return r;
}
void man_init(man_t *z, int d, size_t D, const cplx *q1, const cplx *q2, const double *T, int kappa) {
    size_t u = (size_t)man_ups[d]; double h = (T[1] - T[0]) / (double)(D - 1);
    *z = (man_t){ d, kappa, D, h_malloc(u * D * sizeof(cplx)), h_malloc(u * D * sizeof(cplx)), h, u == 2 ? T[0] : T[0] - h / 2, u == 2 ? T[1] + h : T[1] + h / 2 };
    const cplx *in[2] = { q1, q2 }; cplx *out[2] = { z->q1, z->q2 };
    for (int k = 0; k < 2; k++) {
        if (u == 1) { memcpy(out[k], in[k], D * sizeof(cplx)); continue; }
        cplx *a = h_malloc(D * sizeof *a), *b = h_malloc(D * sizeof *b); double s = sqrt(3) / 6;
        ref_shift(D, in[k], .5 - s, a); ref_shift(D, in[k], .5 + s, b);
        FOR(i, D) { out[k][2 * i] = (.25 + s) * a[i] + (.25 - s) * b[i]; out[k][2 * i + 1] = (.25 - s) * a[i] + (.25 + s) * b[i]; }
        h_free(a); h_free(b);
    }
}
void man_free(man_t *z) { h_free(z->q1); h_free(z->q2); }
m3 man_m(const man_t *z, cplx xi) { m3 P = I3; FOR(n, z->D) P = mm(man_step(z, n, xi), P); return P; }
void man_ab(const man_t *z, cplx xi, cplx *a, cplx *b1, cplx *b2) { m3 P = man_m(z, xi); cplx e = cexp(-I * xi * (z->tp + z->tm)); *a = P.m[0] * cexp(I * xi * (z->tp - z->tm)); *b1 = P.m[3] * e; *b2 = P.m[6] * e; }
static m3 transfer(const asig_t *s1, const asig_t *s2, const double *T, int kappa, cplx xi, size_t N) {
    m3 P = I3; double h = (T[1] - T[0]) / (double)N, g = sqrt(3) / 6;
    FOR(i, N) { double t = T[0] + h * (double)i, ta = t + h * (.5 - g), tb = t + h * (.5 + g);
        m3 A = Pm(xi, asig_eval(s1, ta), asig_eval(s2, ta), kappa), B = Pm(xi, asig_eval(s1, tb), asig_eval(s2, tb), kappa), C = m3lin(1, mm(A, B), -1, mm(B, A));
        m3 W = m3lin(1, m3lin(h / 2, A, h / 2, B), -h * h * sqrt(3) / 12, C); P = mm(ref_expm3(&W), P); }
    return P;
}
void ref_true_mana(const asig_t *s1, const asig_t *s2, const double *T, int kappa, cplx xi, size_t N, cplx *a, cplx *b1, cplx *b2) {
    N &= ~(size_t)1; m3 P = m3lin(16. / 15, transfer(s1, s2, T, kappa, xi, N), -1. / 15, transfer(s1, s2, T, kappa, xi, N / 2)); cplx e = cexp(-I * xi * (T[1] + T[0]));
    *a = P.m[0] * cexp(I * xi * (T[1] - T[0])); *b1 = P.m[3] * e; *b2 = P.m[6] * e;
}
