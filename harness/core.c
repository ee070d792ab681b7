#include "h.h"
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <fcntl.h>
#include <pthread.h>
#ifdef VARIANT_msan
#include <sanitizer/msan_interface.h>
#endif

/* ---------- rng ---------- */
uint64_t r64(rng_t *r) { uint64_t z = (r->s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
rng_t rng_make(uint64_t seed, uint64_t stream, uint64_t idx) { rng_t r = { seed * 0x632be59bd9b4e019ull + stream * 0x9e3779b97f4a7c15ull + 77 }; r64(&r); r.s ^= idx * 0xd6e8feb86659fd93ull; r64(&r); r64(&r); return r; }
double ru(rng_t *r) { return (double)(r64(r) >> 11) * 0x1p-53; }
double rr(rng_t *r, double a, double b) { return a + (b - a) * ru(r); }
int ri(rng_t *r, int a, int b) { return a + (int)(r64(r) % (uint64_t)(b - a + 1)); }
double rn(rng_t *r) { double u = ru(r), v = ru(r); return sqrt(-2 * log(1 - u)) * cos(2 * M_PI * v); }
int rb(rng_t *r, double p) { return ru(r) < p; }
double rlog(rng_t *r, double a, double b) { return exp(rr(r, log(a), log(b))); }
cplx rc(rng_t *r) { double a = rn(r), b = rn(r); return a + I * b; }

/* ---------- reporting ---------- */
int h_verbose, h_thorough; uint64_t h_seed = 1;
static FILE *OUT; static long cur = -1; static int nviol;
static struct { char n[64]; double v; int ismax; } mets[256]; static int nmets;
static pthread_mutex_t rmx = PTHREAD_MUTEX_INITIALIZER;
static int case_seconds = 180;
static void arm(void) { struct itimerval t = { {0,0}, {case_seconds,0} }; setitimer(ITIMER_VIRTUAL, &t, 0); struct itimerval w = { {0,0}, {4 * case_seconds + 60,0} }; setitimer(ITIMER_REAL, &w, 0); /* deadlocks use no CPU time */ }
static void on_vtalrm(int s) { (void)s; char b[128]; int n = snprintf(b, sizeof b, "V\t%ld\thang\tcase used more than %d s of CPU, or %d s in total\n", cur, case_seconds, 4 * case_seconds + 60); if (write(fileno(OUT), b, (size_t)n)) {} _exit(77); }
void h_case_begin(long idx) { cur = idx; fprintf(OUT, "B\t%ld\n", idx); fflush(OUT); arm(); }
static void vline(const char *tag, const char *a, const char *fmt, va_list ap) {
    char buf[1500]; vsnprintf(buf, sizeof buf, fmt, ap);
    for (char *p = buf; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
    pthread_mutex_lock(&rmx);
    if (a) fprintf(OUT, "%s\t%ld\t%s\t%s\n", tag, cur, a, buf); else fprintf(OUT, "%s\t%ld\t%s\n", tag, cur, buf);
    if (*tag == 'V') { nviol++; fflush(OUT); }
    if (h_verbose) fprintf(stdout, "%s case=%ld %s %s\n", tag, cur, a ? a : "", buf);
    pthread_mutex_unlock(&rmx);
}
void h_violation(const char *sig, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vline("V", sig, fmt, ap); va_end(ap); }
void h_incon(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vline("I", 0, fmt, ap); va_end(ap); }
void h_sample(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vline("S", 0, fmt, ap); va_end(ap); }
void h_eval(int nt, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vline("C", nt ? "1" : "0", fmt, ap); va_end(ap); }
void h_log(const char *fmt, ...) { if (!h_verbose) return; va_list ap; va_start(ap, fmt); printf("   "); vprintf(fmt, ap); printf("\n"); va_end(ap); }
static void met(const char *n, double v, int ismax) {
    pthread_mutex_lock(&rmx); int i;
    for (i = 0; i < nmets; i++) if (!strcmp(mets[i].n, n)) break;
    if (i == nmets && nmets < 256) { snprintf(mets[i].n, 64, "%s", n); mets[i].v = ismax ? -INFINITY : 0; mets[i].ismax = ismax; nmets++; }
    if (i < 256) { if (ismax) { if (v > mets[i].v) mets[i].v = v; } else mets[i].v += v; }
    pthread_mutex_unlock(&rmx);
}
void h_metric(const char *n, double v) { met(n, v, 0); }
void h_max(const char *n, double v) { met(n, v, 1); }
int h_nviol(void) { return nviol; }

/* ---------- allocation interposer ---------- */
__thread mw_t mw = { 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, -1, 0 };
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define TBITS 15
#define TSZ (1 << TBITS)
static __thread struct { void *p; size_t n; } *tab;
static size_t slot_(void *p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> (64 - TBITS); }
static void tput(void *p, size_t n) {
    if (!tab) tab = __real_calloc(TSZ, sizeof *tab);
    size_t i = slot_(p), c = 0;
    while (tab[i].p && tab[i].p != (void *)-1 && c++ < TSZ) i = (i + 1) & (TSZ - 1);
    tab[i].p = p; tab[i].n = n; mw.live++; mw.live_bytes += n; if (mw.live_bytes > mw.peak_bytes) mw.peak_bytes = mw.live_bytes;
}
static int tdel(void *p) {
    if (!tab) return 0;
    size_t i = slot_(p), c = 0;
    while (tab[i].p && c++ < TSZ) { if (tab[i].p == p) { mw.live--; mw.live_bytes -= tab[i].n; tab[i].p = (void *)-1; return 1; } i = (i + 1) & (TSZ - 1); }
    return 0;
}
void mw_begin(long fail_at, int fail_from, int poison) {
    if (tab) memset(tab, 0, TSZ * sizeof *tab);
    memset(&mw, 0, sizeof mw); mw.fail_at = fail_at; mw.fail_from = fail_from; mw.poison = poison; mw.active = 1;
}
void mw_end(void) { mw.active = 0; }
void mw_forget(void) { if (!tab) return; FOR(i, TSZ) if (tab[i].p && tab[i].p != (void *)-1) { void *p = tab[i].p; tab[i].p = (void *)-1; __real_free(p); } mw.live = 0; mw.live_bytes = 0; }
static int shall_fail(void) {
    long k = mw.count++;
    if (mw.fail_at >= 0 && (k == mw.fail_at || (mw.fail_from && k >= mw.fail_at))) { mw.nfailed++; return 1; }
    return 0;
}
static void fillp(void *p, size_t n) {
#ifndef VARIANT_msan
    if (mw.poison >= 0) memset(p, mw.poison, n);
#endif
}
void *__wrap_malloc(size_t n) {
    if (!mw.active) return __real_malloc(n);
    if (shall_fail()) return NULL;
    void *p = __real_malloc(n); if (p) { tput(p, n); fillp(p, n); } return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!mw.active) return __real_calloc(a, b);
    if (shall_fail()) return NULL;
    void *p = __real_calloc(a, b); if (p) tput(p, a * b); return p;
}
void *__wrap_realloc(void *q, size_t n) {
    if (!mw.active) return __real_realloc(q, n);
    if (shall_fail()) return NULL;
    if (q && !tdel(q)) mw.badfree++;
    void *p = __real_realloc(q, n); if (p) tput(p, n); return p;
}
void __wrap_free(void *p) {
    if (mw.active && p && !tdel(p)) { mw.badfree++;
#ifndef VARIANT_asan
        return;   /* under ASan let the real free diagnose it */
#endif
    }
    if (!mw.active && p && tab && mw.live) tdel(p);
    __real_free(p);
}
void *h_malloc(size_t n) { void *p = __real_malloc(n); if (!p && n) { fprintf(stderr, "harness: out of memory\n"); _exit(99); } return p; }
void h_free(void *p) { __real_free(p); }
cplx *h_calloc_c(size_t n) { cplx *p = h_malloc(n * sizeof *p); memset(p, 0, n * sizeof *p); return p; }
double *h_calloc_r(size_t n) { double *p = h_malloc(n * sizeof *p); memset(p, 0, n * sizeof *p); return p; }
cplx *h_dup_c(const cplx *q, size_t n) { cplx *p = h_malloc(n * sizeof *p); if (n) memcpy(p, q, n * sizeof *p); return p; }
void h_fill(void *p, size_t n, uint64_t pat) { unsigned char *b = p; FOR(i, n) b[i] = (unsigned char)(pat >> (8 * (i & 7))); }
uint64_t h_hash(const void *p, size_t n, uint64_t h) { const unsigned char *b = p; FOR(i, n) { h ^= b[i]; h *= 0x100000001b3ull; } return h ^ (h >> 29); }
__attribute__((noinline)) void h_stack_poison(int byte) { volatile unsigned char buf[192 * 1024]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)byte; __asm__ volatile("" : : "r"(buf) : "memory"); }

#ifdef VARIANT_msan
/* the Fortran root finder is not instrumented: declare its outputs initialised */
void __real_z_poly_roots_modified_(int *N, const void *coeffs, void *roots, int *info);
void __wrap_z_poly_roots_modified_(int *N, const void *coeffs, void *roots, int *info) {
    __msan_check_mem_is_initialized(coeffs, (size_t)(*N + 1) * 16);
    __real_z_poly_roots_modified_(N, coeffs, roots, info);
    __msan_unpoison(roots, (size_t)*N * 16); __msan_unpoison(info, sizeof(int));
}
#endif

/* ---------- messages ---------- */
__thread msgs_t msgs;
FNFT_INT h_printf(const char *fmt, ...) {
    int act = mw.active; mw.active = 0;
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (strstr(b, "FNFT Error")) { if (!msgs.nerr) snprintf(msgs.first, 256, "%.255s", b); msgs.nerr++; snprintf(msgs.last, 256, "%.255s", b); }
    else if (strstr(b, "Warning")) { msgs.nwarn++; snprintf(msgs.lastwarn, 256, "%.255s", b); }
    else msgs.nother++;
    if (h_verbose > 1) printf("   [fnft] %s", b);
    mw.active = act; return 0;
}
void msgs_reset(void) { memset(&msgs, 0, sizeof msgs); }

double cdist(const cplx *a, const cplx *b, size_t n) { double m = 0; FOR(i, n) { double d = cabs(a[i] - b[i]); if (nan_gt(d, m)) m = d; } return m; }
double cmaxabs(const cplx *a, size_t n) { double m = 0; FOR(i, n) { double d = cabs(a[i]); if (nan_gt(d, m)) m = d; } return m; }
int all_finite(const cplx *a, size_t n) { FOR(i, n) if (!isfinite(creal(a[i])) || !isfinite(cimag(a[i]))) return 0; return 1; }

int main(int argc, char **argv) {
    const char *id = 0, *out = 0; long from = 0, to = 1, step = 1;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--seed")) h_seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--from")) from = atol(argv[++i]);
        else if (!strcmp(argv[i], "--to")) to = atol(argv[++i]);
        else if (!strcmp(argv[i], "--step")) step = atol(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--case-seconds")) case_seconds = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-v")) h_verbose++;
        else if (!strcmp(argv[i], "--thorough")) h_thorough = 1;
        else if (!strcmp(argv[i], "--list")) { for (const prop_t *p = props; p->id; p++) printf("%s %ld %ld %s\n", p->id, p->quick, p->thorough, p->variants); return 0; }
        else id = argv[i];
    }
    if (!id) return 2;
    const prop_t *p; for (p = props; p->id; p++) if (!strcmp(p->id, id)) break;
    if (!p->id) { fprintf(stderr, "unknown property %s\n", id); return 2; }
    OUT = out ? fopen(out, "w") : fopen("/dev/null", "w");
    if (!OUT) return 2;
    signal(SIGVTALRM, on_vtalrm); signal(SIGALRM, on_vtalrm);
    fnft_errwarn_setprintf(h_printf);
    for (long i = from; i < to; i += step) { h_case_begin(i); p->run(i); }
    for (int i = 0; i < nmets; i++) fprintf(OUT, "M\t%s\t%d\t%.17g\n", mets[i].n, mets[i].ismax, mets[i].v);
    fprintf(OUT, "E\t%d\n", nviol); fclose(OUT);
    return 0;
}
