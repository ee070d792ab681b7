/* C01: memory safety / defined behaviour. The oracle is ASan+UBSan; here only the workload. */
#include "h.h"
void c01(long idx) {
    rng_t r = rng_make(h_seed, 1, (uint64_t)idx);
    gprof_t pf = { .kinds = 1 << (idx % NKINDS), .maxD = rb(&r, .2) ? 200 : 48, .budget = 400 };
    call_t c; call_gen(&r, &c, &pf); call_alloc(&c); call_reset(&c, r64(&r));
    h_log("%s", c.desc); if (idx < 5) h_sample("%s", c.desc);
    mw_begin(-1, 0, -1); msgs_reset(); call_run(&c); mw_end();
    if (mw.badfree) h_violation("bad-free", "%ld frees of memory the library does not own: %s", mw.badfree, c.desc);
    h_metric(c.rc == 0 ? "calls_success" : "calls_error", 1); h_metric("library_allocations", (double)mw.count);
    h_log("rc=%d K=%zu M=%zu err=%s", c.rc, (size_t)c.Kio, (size_t)c.Mio, msgs.first);
    if (c.rc == 0 && c.useK && c.bs && c.kind != K_INV && !(c.kind == K_NSEP) && c.Kio > c.K) h_violation("count-exceeds-capacity", "K=%zu > capacity %zu: %s", (size_t)c.Kio, (size_t)c.K, c.desc);
    h_eval(c.rc == 0, "%s", c.desc);
    mw_forget(); call_free(&c);
}
