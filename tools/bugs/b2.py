exec(open('/verif/tools/bugs/b1.py').read().split('BUGS = [')[0])
G='''static void gs(int D, double T0, double T1, double A, complex double *q) { for (int i = 0; i < D; i++) { double t = T0 + i * (T1 - T0) / (D - 1); q[i] = A / cosh(t); } }
'''
BUGS = [
dict(id='C12-residue-scale', prop='C12',
  edits=[('src/fnft_nsev.c','            if (Ws != NULL) // normalization is on\n                normconsts_or_residues[offset + i] /= POW(2, Ws[i]);\n','            if (Ws != NULL && opts->discspec_type == nsev_dstype_RESIDUES) // normalization is on\n                normconsts_or_residues[offset + i] /= POW(2, Ws[i]);\n')],
  needs='norming constants and residues requested together, normalization on, and a derivative large enough for a nonzero scaling exponent (long window, large imaginary part)',
  breaks='residues returned next to norming constants are off by a power of two',
  demo=H+G+'''
int main(void) { enum { D = 512 }; static complex double q[D]; double T[2] = { -40, 40 }; gs(D, T[0], T[1], 5.3, q);
  for (int n = 0; n < 2; n++) { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_NEWTON; o.bound_state_filtering = fnft_nsev_bsfilt_BASIC;
    o.normalization_flag = n; complex double g1[3] = { 4.8 * I, 3.8 * I, 2.8 * I }, g2[3], r[3], b[6]; memcpy(g2, g1, sizeof g1); FNFT_UINT K1 = 3, K2 = 3;
    o.discspec_type = fnft_nsev_dstype_RESIDUES; CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K1, g1, r, 1, &o), "rc"); o.discspec_type = fnft_nsev_dstype_BOTH; CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K2, g2, b, 1, &o), "rc");
    CHECK(K1 == K2, "K"); for (int i = 0; i < (int)K1; i++) CHECK(cabs(b[K1 + i] - r[i]) <= 1e-6 * cabs(r[i]), "residue %d: %g%+gi %g%+gi", i, creal(b[K1 + i]), cimag(b[K1 + i]), creal(r[i]), cimag(r[i])); }
  return 0; }
'''),
dict(id='C10-slow-scale', prop='C10',
  edits=[('src/fnft_nsev.c','                H11_vals[i] *= scl;\n                H21_vals[i] *= scl;','                H11_vals[i] *= scl;\n                if (kappa == +1)\n                    H21_vals[i] *= scl;')],
  needs='a defocusing signal so strong that the slow scattering is rescaled',
  breaks='b and the reflection coefficient of strong defocusing signals are too small by a power of two',
  demo=H+G+'''
int main(void) { enum { D = 256, M = 8 }; static complex double q[D], c[2 * M]; double T[2] = { -10, 10 }, XI[2] = { -2, 2 }; gs(D, T[0], T[1], 14., q);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_BO; o.contspec_type = fnft_nsev_cstype_AB; o.normalization_flag = 1; CHECK(!fnft_nsev(D, q, T, M, c, XI, NULL, NULL, NULL, -1, &o), "rc");
  for (int i = 0; i < M; i++) { double a2 = pow(cabs(c[i]), 2), b2 = pow(cabs(c[M + i]), 2); CHECK(fabs(a2 - b2 - 1) <= 1e-6 * a2, "|a|^2=%g |b|^2=%g", a2, b2); } return 0; }
'''),
dict(id='C13-merge-neighbours', prop='C13',
  edits=[('src/private/fnft__misc.c','        for (j = 0; j < i; j++) {\n            dist','        for (j = i - 1; j < i; j++) {\n            dist')],
  needs='two initial guesses that are not adjacent converge to the same bound state',
  breaks='a bound state is reported twice although filtering promises to merge duplicates',
  demo=H+G+'''
int main(void) { enum { D = 256 }; static complex double q[D]; double T[2] = { -15, 15 }; gs(D, T[0], T[1], 3.3, q); fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_NEWTON;
  complex double g[4] = { 2.83 * I, 1.79 * I, 2.77 * I, 1.81 * I }, b[8]; FNFT_UINT K = 4; CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K, g, b, 1, &o), "rc");
  CHECK(K == 2, "K=%u", (unsigned)K); return 0; }
'''),
dict(id='C13-box-edge', prop='C13',
  edits=[('src/private/fnft__misc.c','if (! (CREAL(vals[i]) >= bounding_box[0]) )','if (! (CREAL(vals[i]) > bounding_box[0]) )')],
  needs='a bound state exactly on the left edge of the bounding box',
  breaks='the box of manual filtering does not contain its left edge, although documented with <=',
  demo=H+G+'''
int main(void) { enum { D = 256 }; static complex double q[D]; double T[2] = { -15, 15 }; gs(D, T[0], T[1], 1.3, q); fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_NEWTON; o.bound_state_filtering = fnft_nsev_bsfilt_NONE;
  complex double g[1] = { .81 * I }, b[2], l; FNFT_UINT K = 1; CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K, g, b, 1, &o) && K == 1, "rc"); l = g[0];
  o.bound_state_filtering = fnft_nsev_bsfilt_MANUAL; o.niter = 0; o.bounding_box[0] = creal(l); o.bounding_box[1] = creal(l) + 1; o.bounding_box[2] = cimag(l) - .1; o.bounding_box[3] = cimag(l) + .1;
  K = 1; CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K, g, b, 1, &o), "rc"); CHECK(K == 1, "lost"); return 0; }
'''),
dict(id='C13-capacity-off-by-one', prop='C13',
  edits=[('src/fnft_nsev.c','            WARN("Found more than *K_ptr bound states. Returning as many as possible.");\n            K = *K_ptr;','            if (K - *K_ptr > 1)\n                WARN("Found more than *K_ptr bound states. Returning as many as possible.");\n            K = *K_ptr;')],
  needs='the capacity for bound states is too small by exactly one',
  breaks='one bound state is dropped without any warning',
  demo=H+G+'''
static int nw; static FNFT_INT cnt(const char *f, ...) { (void)f; nw++; return 0; }
int main(void) { enum { D = 128 }; static complex double q[D], l[4]; double T[2] = { -15, 15 }; gs(D, T[0], T[1], 2.3, q); fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.bound_state_filtering = fnft_nsev_bsfilt_FULL;
  static complex double big[1000]; FNFT_UINT K = fnft_nsev_max_K(D, &o), K0; CHECK(K <= 1000, "maxK"); CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K, big, NULL, 1, &o), "rc"); CHECK(K == 2, "K=%u", (unsigned)K);
  fnft_errwarn_setprintf(cnt); K0 = 1; CHECK(!fnft_nsev(D, q, T, 0, NULL, NULL, &K0, l, NULL, 1, &o) && K0 == 1, "rc"); CHECK(nw > 0, "no warning"); return 0; }
'''),
dict(id='C20-aux-second-filter', prop='C20',
  edits=[('src/fnft_nsep.c','            ret_code = misc_filter(&M, roots, NULL, opts_ptr->bounding_box);\n            CHECK_RETCODE(ret_code, release_mem);\n','            if (refine_tol < 0)\n                ret_code = misc_filter(&M, roots, NULL, opts_ptr->bounding_box);\n            CHECK_RETCODE(ret_code, release_mem);\n',2)],
  needs='an auxiliary spectrum point that the refinement moves out of the bounding box',
  breaks='points outside of the bounding box are returned',
  demo=H+'''
int main(void) { enum { D = 256 }; static complex double q[D], m[4000], a[4000]; double T[2] = { 0, 6.283185307179586 }; int bad = 0;
  for (int c = 0; c < 40; c++) { for (int i = 0; i < D; i++) { double t = i * T[1] / D; q[i] = (1 + .05 * c) * (1 + .6 * cos(t + c) + .3 * I * sin(2 * t)); }
    fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE; o.filtering = fnft_nsep_filt_MANUAL; o.Dsub = 32; o.bounding_box[0] = -1.7; o.bounding_box[1] = 1.3 + .01 * c; o.bounding_box[2] = -.9; o.bounding_box[3] = 1.1;
    FNFT_UINT K = 4000, M = 4000; fnft_errwarn_setprintf(NULL); if (fnft_nsep(D, q, T, 0, &K, m, &M, a, NULL, 1, &o)) continue; for (int i = 0; i < (int)M; i++) if (!(creal(a[i]) >= -1.7 && creal(a[i]) <= 1.3 + .01 * c && cimag(a[i]) >= -.9 && cimag(a[i]) <= 1.1)) { bad++; break; } }
  CHECK(!bad, "%d runs with points outside of the box", bad); return 0; }
'''),
dict(id='C14-nsev-short', prop='C14',
  edits=[('src/fnft_nsev.c','        if (contspec != NULL && M > 0 && scl_den > 0){\n            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;\n            for (i=0; i<M; i++){\n                if (FABS(','        if (contspec != NULL && M > 0 && scl_den > 0){\n            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;\n            for (i=0; i<M; i++){\n                if ((')],
  needs='Richardson extrapolation and frequencies below minus the Nyquist frequency of the subsampled signal',
  breaks='values at large negative frequencies are extrapolated from aliased results, so the spectrum gets worse instead of being left alone',
  demo=H+'''
int main(void) { enum { D = 128, M = 65 }; static complex double q[D], r[D], c[M], s[M]; double T[2] = { -8, 8 }; for (int i = 0; i < D; i++) { double t = T[0] + i * 16. / (D - 1); q[i] = .7 / cosh(t) * cexp(.3 * I * t); r[i] = conj(q[i]); }
  double W = .8 * M_PI / (2 * 16. / (D - 1)) * 2, XI[2] = { -W, W }; fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_BO; o.contspec_type = fnft_nsev_cstype_REFLECTION_COEFFICIENT; o.richardson_extrapolation_flag = 1;
  complex double c0[M]; CHECK(!fnft_nsev(D, q, T, M, c, XI, NULL, NULL, NULL, 1, &o), "rc"); o.richardson_extrapolation_flag = 0; CHECK(!fnft_nsev(D, q, T, M, c0, XI, NULL, NULL, NULL, 1, &o), "rc");
  CHECK(cabs(c[0] - c0[0]) == 0 && cabs(c[M - 1] - c0[M - 1]) == 0, "extrapolated beyond the band: %g %g", cabs(c[0] - c0[0]), cabs(c[M - 1] - c0[M - 1])); (void)s; return 0; }
'''),
dict(id='C04-kdv-opts', prop='C02',
  edits=[('src/fnft_kdvv.c','    .grid_spacing = ','    .grid_spacing = ')], needs='x', breaks='x', demo=''),
]
BUGS=[b for b in BUGS if b['demo']]
