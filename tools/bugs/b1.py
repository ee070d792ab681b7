H = '''#define FNFT_ENABLE_SHORT_NAMES
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include "fnft.h"
#include "fnft_nsev.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_nsev_inverse.h"
#include "fnft_errwarn.h"
#include "fnft__misc.h"
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\\n"); return 1; } } while (0)
'''
BUGS = [
dict(id='C10-resample-odd', prop='C10',
  edits=[('src/private/fnft__misc.c', '    for (i = 0; i < (D+1)/2; i++)\n        freq[i] = i/scl_factor;\n    for (i = (D+1)/2; i < D; i++)', '    for (i = 0; i < D/2; i++)\n        freq[i] = i/scl_factor;\n    for (i = D/2; i < D; i++)')],
  needs='an odd number of samples and a discretization that resamples, with energy in the highest frequency bin',
  breaks='band-limited interpolation of signals with an odd number of samples treats the highest positive frequency as negative',
  demo=H+'''
int main(void) { enum { D = 65 }; complex double q[D], o[D]; for (int i = 0; i < D; i++) q[i] = cexp(2 * I * M_PI * 32. * i / D); CHECK(!fnft__misc_resample(D, .1, q, .03, o), "rc");
  for (int i = 0; i < D; i++) CHECK(cabs(o[i] - cexp(2 * I * M_PI * 32. * (i + .3) / D)) < 1e-9, "sample %d", i); return 0; }
'''),
dict(id='C05-xi-alloc', prop='C05',
  edits=[('src/fnft_nsev.c', '    xi = malloc(M * sizeof(COMPLEX));\n    if (xi == NULL) {\n        ret_code = E_NOMEM;\n        goto leave_fun;\n    }\n    for (i = 0; i < M; i++)', '    xi = malloc(M * sizeof(COMPLEX));\n    for (i = 0; i < M; i++)')],
  needs='the allocation of the frequency grid fails',
  breaks='a failing allocation crashes the process instead of being reported',
  demo=H+'''
#include <sys/wait.h>
#include <unistd.h>
static long n = -1, at = -1; void *__libc_malloc(size_t); void *malloc(size_t s) { if (at >= 0 && ++n == at) return NULL; return __libc_malloc(s); }
int main(void) { enum { D = 64, M = 16 }; double T[2] = { -4, 4 }, XI[2] = { -2, 2 }; static complex double q[D], cs[M]; for (int i = 0; i < D; i++) q[i] = 1 / cosh(T[0] + i * 8. / (D - 1)); fnft_errwarn_setprintf(NULL);
  for (int k = 0; k < 30; k++) { fflush(stdout); pid_t p = fork(); if (!p) { at = k; n = -1; fnft_nsev_opts_t o = fnft_nsev_default_opts(); int rc = fnft_nsev(D, q, T, M, cs, XI, NULL, NULL, NULL, 1, &o); at = -1; _exit(rc != 0 ? 1 : 0); }
    int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st), "crash when allocation %d fails", k); } return 0; }
'''),
dict(id='C07-grid-order', all=1, prop='C07',
  edits=[('src/fnft_nsev.c', 'XI == NULL || XI[0] >= XI[1]', 'XI == NULL || XI[0] == XI[1]')]*1,
  needs='a reversed frequency interval',
  breaks='XI[0]>XI[1] is accepted although the documentation requires XI[0]<XI[1]',
  demo=H+"""
int main(void) { enum { D = 64, M = 16 }; double T[2] = { -4, 4 }, XI[2] = { 2, -2 }; static complex double q[D], cs[M]; for (int i = 0; i < D; i++) q[i] = 1 / cosh(T[0] + i * 8. / (D - 1)); fnft_errwarn_setprintf(NULL);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); CHECK(fnft_nsev(D, q, T, M, cs, XI, NULL, NULL, NULL, 1, &o) != 0, "accepted"); return 0; }
"""),
dict(id='C06-leak-reserve', prop='C06',
  edits=[('src/fnft_nsev.c', '        if (normconsts_or_residues_reserve != normconsts_or_residues)\n            free(normconsts_or_residues_reserve);', '        if (normconsts_or_residues_reserve != normconsts_or_residues && ret_code == SUCCESS)\n            free(normconsts_or_residues_reserve);')],
  needs='Richardson extrapolation with residues in a call that fails after the working memory has been allocated',
  breaks='memory is leaked by failing calls',
  demo=H+"""
#include <malloc.h>
int main(void) { enum { D = 64, M = 16 }; double T[2] = { -4, 4 }, XI[2] = { -2, 2 }; static complex double q[D], cs[3 * M], bs[4 * D], nr[8 * D]; for (int i = 0; i < D; i++) q[i] = 2 / cosh(T[0] + i * 8. / (D - 1)); fnft_errwarn_setprintf(NULL);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.richardson_extrapolation_flag = 1; o.discspec_type = nsev_dstype_RESIDUES; o.contspec_type = 77; size_t u0 = 0, u1;
  for (int k = 0; k < 200; k++) { FNFT_UINT K = 4 * D; CHECK(fnft_nsev(D, q, T, M, cs, XI, &K, bs, nr, 1, &o), "accepted"); if (k == 20) u0 = mallinfo2().uordblks; } u1 = mallinfo2().uordblks; CHECK(u1 <= u0 + 1000, "leaked %zu", u1 - u0); return 0; }
"""),
dict(id='C03-static-freq', prop='C03',
  edits=[('src/private/fnft__misc.c', '    REAL *freq = NULL;\n    INT ret_code;', '    static REAL *freq = NULL;\n    static UINT freq_len = 0;\n    INT ret_code;'),
         ('src/private/fnft__misc.c', '    freq = malloc(D * sizeof(REAL));', '    if (freq_len != D) {\n        free(freq);\n        freq = malloc(D * sizeof(REAL));\n        freq_len = (freq != NULL) ? D : 0;\n    }'),
         ('src/private/fnft__misc.c', '    fft_wrapper_free(buf1);\n    free(freq);', '    fft_wrapper_free(buf1);')],
  needs='two concurrent calls that resample signals of different lengths or step sizes',
  breaks='a frequency grid cached between calls is shared by all threads',
  extra='-pthread',
  demo=H+"""
#include <pthread.h>
static int bad; static void *w(void *p) { int D = 2048 + 16 * (int)(long)p; complex double *q = malloc(sizeof *q * D), *o = malloc(sizeof *q * D); for (int i = 0; i < D; i++) q[i] = cexp(2 * I * M_PI * 5. * i / D);
  for (int k = 0; k < 400; k++) { if (fnft__misc_resample(D, .1 + .01 * (long)p, q, .03, o)) bad++; double s = .03 / (.1 + .01 * (long)p); for (int i = 0; i < D; i += 7) if (!(cabs(o[i] - cexp(2 * I * M_PI * 5. * (i + s) / D)) < 1e-9)) { bad++; break; } } free(q); free(o); return NULL; }
int main(void) { pthread_t t[4]; for (long i = 0; i < 4; i++) pthread_create(t + i, 0, w, (void *)i); for (int i = 0; i < 4; i++) pthread_join(t[i], 0); CHECK(!bad, "%d wrong results", bad); return 0; }
"""),
]
