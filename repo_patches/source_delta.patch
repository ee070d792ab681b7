From 15c5b6eb20078a5a4d4674305b47c28d71978bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 01/62] fix: fnft_nsev must not modify the options of the user
 or the default options

---
 src/fnft_nsev.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..7816456 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -183,8 +183,10 @@ INT fnft_nsev(
         if (K_ptr == NULL)
             return E_INVALID_ARGUMENT(K_ptr);
     }
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy of the options since some of them are temporarily changed
+    // below. Neither the options of the user nor the defaults may be affected.
+    fnft_nsev_opts_t opts_copy = (opts != NULL) ? *opts : default_opts;
+    opts = &opts_copy;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From 39ba22cc6e5a58c21f02818ffd9d4684f002c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 02/62] fix: fnft_nsev with Richardson extrapolation: use the
 internal buffer for residues in all code paths and allow optional arguments
 to be omitted

---
 src/fnft_nsev.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 7816456..f7efbdf 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -261,7 +261,8 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && kappa == +1
+                && bound_states != NULL && normconsts_or_residues != NULL){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -319,7 +320,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -364,8 +365,10 @@ INT fnft_nsev(
                     ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
                     goto leave_fun;
             }
-            normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
-            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {
+            if (normconsts_or_residues != NULL)
+                normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
+            if ((normconsts_or_residues != NULL && normconsts_or_residues_sub == NULL)
+                    || bound_states_sub == NULL) {
                 ret_code = E_NOMEM;
                 goto leave_fun;
             }
@@ -409,8 +412,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -437,7 +440,7 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -448,11 +451,10 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Return the residues if norming constants and residues were computed internally
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From d8647fa8157e722f0c47272a1697eb90b3927ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 03/62] fix: fnft_nsev leaked memory when it returned with
 certain errors

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index f7efbdf..3e22744 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -828,7 +828,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -894,7 +894,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1006,13 +1006,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 418fbe8e76c8b626d1bf35ffcfde4760e9723233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 04/62] fix: fnft_nsev returned NaN's if the continuous
 spectrum is requested at a single frequency (M==1)

---
 src/fnft_nsev.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 3e22744..035b500 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -413,7 +413,7 @@ INT fnft_nsev(
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
         if (contspec != NULL && M > 0){
-            REAL const dxi = (XI[1]-XI[0])/(M-1);
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -814,7 +814,7 @@ static inline INT nsev_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 394b327363a84b6cc405dab6d8836606d4d4d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 05/62] fix: fnft_nsev divided by zero if opts->Dsub is more
 than twice the number of samples

---
 src/fnft_nsev.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 035b500..005993a 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -293,6 +293,8 @@ INT fnft_nsev(
         Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = (UINT) SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
         nskip_per_step = (UINT) ROUND((REAL)D / Dsub);
         Dsub = (UINT) ROUND((REAL)D / nskip_per_step); // actual Dsub
 
-- 
2.43.0


From 076b116ffa939acba6989276b105b68f7be8bcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 06/62] fix: fnft_nsev with Richardson extrapolation divided by
 zero for D==2

---
 src/fnft_nsev.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 005993a..82b1094 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -414,7 +414,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        if (contspec != NULL && M > 0){
+        // scl_den is zero if there are too few samples (D==2) to subsample
+        if (contspec != NULL && M > 0 && scl_den > 0){
             REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
@@ -424,7 +425,7 @@ INT fnft_nsev(
             }
         }
         // Richardson extrapolation of the discrete spectrum
-        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0) {
+        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0 && scl_den > 0) {
             UINT loc = K_sub;
             REAL bs_err_thres = eps_t;
             REAL bs_err = eps_t;
-- 
2.43.0


From 08d6b0ffbecbc927dec5e6d4349be9996d716762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 07/62] fix: fnft_kdvv must not modify the options of the user
 or the default options

---
 src/fnft_kdvv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..e54d822 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -168,8 +168,10 @@ INT fnft_kdvv(
             return E_INVALID_ARGUMENT(XI);
     }
 
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy of the options since some of them are temporarily changed
+    // below. Neither the options of the user nor the defaults may be affected.
+    fnft_kdvv_opts_t opts_copy = (opts != NULL) ? *opts : default_opts;
+    opts = &opts_copy;
 
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
-- 
2.43.0


From 1e935f7da31753d4b8c0137ffb8889cb33a67ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 08/62] fix: fnft_kdvv read XI if no continuous spectrum is
 requested and returned NaN's for M==1

---
 src/fnft_kdvv.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index e54d822..4473eac 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -163,9 +163,11 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
     }
-    for (i=0; i<M; i++){
-        if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
-            return E_INVALID_ARGUMENT(XI);
+    if (contspec != NULL) {
+        for (i=0; i<M; i++){
+            if (XI[0]+((M > 1) ? i*(XI[1]-XI[0])/(M-1) : 0.0) == 0)
+                return E_INVALID_ARGUMENT(XI);
+        }
     }
 
     // Work on a copy of the options since some of them are temporarily changed
@@ -732,7 +734,7 @@ static inline INT kdvv_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 933477d907cae2b49a99995e3fb9805e3f2aa7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 09/62] fix: fnft_kdvv with Richardson extrapolation: use the
 internal buffer for residues and allow optional arguments to be omitted

---
 src/fnft_kdvv.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 4473eac..02f1884 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -219,7 +219,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -242,7 +243,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -286,8 +287,10 @@ INT fnft_kdvv(
                     ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
                     goto leave_fun;
             }
-            normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
-            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {
+            if (normconsts_or_residues != NULL)
+                normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
+            if ((normconsts_or_residues != NULL && normconsts_or_residues_sub == NULL)
+                    || bound_states_sub == NULL) {
                 ret_code = E_NOMEM;
                 goto leave_fun;
             }
@@ -327,8 +330,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -355,7 +358,7 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -366,11 +369,10 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Return the residues if norming constants and residues were computed internally
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 02e47395d7805c18f920ed4f12241e4518512de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 10/62] fix: fnft_kdvv with Richardson extrapolation divided by
 zero for D==2

---
 src/fnft_kdvv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 02f1884..a74cdfe 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -330,7 +330,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        if (contspec != NULL && M > 0){
+        // scl_den is zero if there are too few samples (D==2) to subsample
+        if (contspec != NULL && M > 0 && scl_den > 0){
             REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
@@ -340,7 +341,7 @@ INT fnft_kdvv(
             }
         }
         // Richardson extrapolation of the discrete spectrum
-        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0) {
+        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0 && scl_den > 0) {
             UINT loc = K_sub;
             REAL bs_err_thres = eps_t;
             REAL bs_err = eps_t;
-- 
2.43.0


From 1d85184caf0c4dbff560edf437f785f834f8828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 11/62] fix: fnft_kdvv leaked memory when it returned with
 certain errors

---
 src/fnft_kdvv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index a74cdfe..7f93f11 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -751,7 +751,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -856,7 +856,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -960,13 +960,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 13e7dd1c6de3cbe4cb52881918863818e8459ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 12/62] fix: fnft_kdvv: return as many bound states as possible
 with a warning, as documented, if the array is too short

---
 src/fnft_kdvv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 7f93f11..2b00914 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -635,15 +635,15 @@ static inline INT kdvv_compute_boundstates(
             for (i = 0; i < M; i++) {
                 if (scatter_coeffs[4*i]==0) {
                     if (K>=*K_ptr) { // Lucky us: Exact bound state found
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     bound_states[K]=xi[i];
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     
                     // Zero crossing estimate with regula falsi:
-- 
2.43.0


From 5b8e87c8914fc1ba57d2a214a7ce5730c69e2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 13/62] fix: fnft_manakovv must not modify the options of the
 user or the default options

---
 src/fnft_manakovv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..ddf3a5f 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -159,6 +159,10 @@ INT fnft_manakovv(
 	if (opts == NULL)
 		opts = &default_opts;
 
+	// Work on a local copy because some options are changed temporarily below
+	fnft_manakovv_opts_t opts_local = *opts;
+	opts = &opts_local;
+
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case manakov_discretization_2SPLIT3A:
-- 
2.43.0


From f698a6922b95baf03d46d03312c43665ee1b00c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 14/62] fix: fnft_manakovv with Richardson extrapolation
 dereferenced the optional K_ptr in order to allocate an unused buffer

---
 src/fnft_manakovv.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index ddf3a5f..64544f7 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -131,7 +131,6 @@ INT fnft_manakovv(
 	UINT first_last_index[2] = { 0 };
 	UINT K_sub;
 	COMPLEX* contspec_sub = NULL;
-	COMPLEX* normconsts_or_residues_reserve = NULL;
 	fnft_manakovv_bsloc_t bs_loc_opt = 0;
 	fnft_manakovv_dstype_t ds_type_opt = 0;
 	INT ret_code = SUCCESS;
@@ -205,14 +204,8 @@ INT fnft_manakovv(
 
 	if (opts->richardson_extrapolation_flag == 1) {
 		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
+		if (ds_type_opt == manakovv_dstype_RESIDUES)
 			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
-			}
-		}
 	}
 
 	// Some higher-order discretizations require samples on a non-equidistant grid
@@ -335,8 +328,7 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
+	(void)normconsts_or_residues; // not computed at the moment
 	return ret_code;
 }
 
-- 
2.43.0


From 1dec2a3f7d6c38f44342d2f7ddefffcd44243080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 15/62] fix: fnft_manakovv read XI if no continuous spectrum is
 requested, returned NaN's for M==1, and divided by zero with Richardson
 extrapolation for D==2

---
 src/fnft_manakovv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 64544f7..c59c63d 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -311,8 +311,8 @@ INT fnft_manakovv(
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
-		if (contspec != NULL && M > 0) {
+		if (contspec != NULL && M > 0 && scl_den > 0.0) {
+			REAL const dxi = M > 1 ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -537,7 +537,7 @@ static inline INT manakovv_compute_contspec(
 	}
 	D_given = D / upsampling_factor;
 	const REAL eps_t = (T[1] - T[0]) / (D_given - 1);
-	const REAL eps_xi = (XI[1] - XI[0]) / (M - 1);
+	const REAL eps_xi = M > 1 ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 
 
 	// Build xi-grid which is required for applying boundary conditions
-- 
2.43.0


From 19c16a2d1b943664becdba0ce5adb511abc2de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 16/62] fix: fnft_manakovv let the number of bound states from
 an internal computation replace the size of the user's array if the
 continuous spectrum is requested

---
 src/fnft_manakovv.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index c59c63d..bc5c0fe 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -221,10 +221,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From ad2354b672f31fc0a957fffe0b87433c3c9d9fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 17/62] fix: fnft_manakovv computed the bound states with a
 wrong step size because the boundaries of the subsampled signal were not
 adapted

---
 src/fnft_manakovv.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bc5c0fe..d6c06a0 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -233,14 +233,15 @@ INT fnft_manakovv(
 		Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = SQRT(D * LOG2(D) * LOG2(D));
-        UINT nskip_per_step = ROUND((REAL)D / Dsub);
-        Dsub = ROUND((REAL)D / nskip_per_step); // actual Dsub
 
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
 
-		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
+		Tsub[0] = T[0] + first_last_index[0] * eps_t;
+		Tsub[1] = T[0] + first_last_index[1] * eps_t;
+
+		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
 	}
-- 
2.43.0


From c9d3bd44b7fdea0ddea2fb8920af4c1977071ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 18/62] fix: fnft_manakovv could free buffers twice or leak
 them when it returned with an error

---
 src/fnft_manakovv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index d6c06a0..93ca54a 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -284,10 +284,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -549,7 +549,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -616,7 +616,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 03eecbae8a48defd2856b238543ded5d9f979b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 19/62] fix: fnft_manakovv did not report that no bound states
 were returned if kappa==-1 or bound_states==NULL

---
 src/fnft_manakovv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 93ca54a..42de61e 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -244,6 +244,8 @@ INT fnft_manakovv(
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From 9e9bd3ed97fe0d90f93166dd3accd968948bdd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 20/62] fix: manakov_discretization_preprocess_signal ignored
 failing allocations and errors during resampling, and leaked memory

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..7acd3e8 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -119,6 +119,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     COMPLEX *q2_c2 = NULL;
     COMPLEX *q1_sub = NULL;
     COMPLEX *q2_sub = NULL;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -156,15 +158,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL || q1_c1 == NULL
+        || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL || q1_sub == NULL
+        || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +204,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -232,6 +240,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         free(q2_c2);
         free(q1_sub);
         free(q2_sub);
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         return ret_code;
 }
 
-- 
2.43.0


From 46acce4f48369e6d15ccbca8547503c50384383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 21/62] fix: fnft_nsev freed buffers twice if the preprocessing
 for the Richardson extrapolation failed

---
 src/fnft_nsev.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 82b1094..f522df1 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -389,10 +389,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 1d2a61d723121b354930429b5e60843913135942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 22/62] fix: akns_discretization_preprocess_signal leaked
 memory when it returned with an error

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..d24dd64 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -434,6 +434,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     COMPLEX *q_1 = NULL;
     COMPLEX *q_2 = NULL;
     COMPLEX *q_3 = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -671,6 +673,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         free(q_3);
         free(qr_weights);
         free(eps_t_weights);
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         return ret_code;
 }
 
-- 
2.43.0


From b184b032649ab0e9116774ed896d2ef81af3143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 23/62] fix: misc_resample assigned the highest positive
 frequency to the wrong bin if the number of samples is odd

---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 43d24dc..9a6e42c 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -350,9 +350,9 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
     
     const REAL scl_factor = (REAL)D*eps_t;
     // Applying phase shift
-    for (i = 0; i <D/2; i++)
+    for (i = 0; i < (D+1)/2; i++)
         freq[i] = i/scl_factor;
-    for (i = D/2; i < D; i++)
+    for (i = (D+1)/2; i < D; i++)
         freq[i] = ((REAL)i - (REAL)D)/scl_factor;
 
     for (i = 0; i < D; i++) {
-- 
2.43.0


From 1ffa2f065d66cd59747a221415e468131e970acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 24/62] fix: fnft_kdvv returned no bound states at all if
 opts->grid_spacing exceeds the size of the search interval

---
 src/fnft_kdvv.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 2b00914..9a08fa8 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -592,10 +592,8 @@ static inline INT kdvv_compute_boundstates(
             UINT M = 0;
             if (opts->grid_spacing > 0) {
                 M = CEIL(dist/opts->grid_spacing);
-                if (M<2) {
-                    *K_ptr = 0;
-                    goto leave_fun;
-                }   
+                if (M<2)
+                    M = 2;
             } else {
                 ret_code = E_INVALID_ARGUMENT(opts->grid_spacing);
                 goto leave_fun;
-- 
2.43.0


From ff21680910a9222af9bcf72d0b002e3544190789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 25/62] fix: akns_scatter_bound_states used uninitialized
 scaling factors at the boundaries and did not check an allocation

---
 src/private/fnft__akns_scatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..b105606 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -496,7 +496,9 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        WPHI[0] = 0; // the initial conditions are not scaled
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 503e3ed42f9068e91e6f4a79cd17a368b7639221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 26/62] fix: akns_scatter_bound_states returned uninitialized
 memory if the norming constant could not be computed

---
 src/private/fnft__akns_scatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index b105606..cca46e8 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -833,6 +833,7 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            b_vals[neig] = NAN; // in case that no sample is suitable
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
                 // Calculate phi and psi for this sample in S basis
-- 
2.43.0


From e3b6b1dd60e7ce51f8933c77aaac48c6a046ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 27/62] fix: eiscor read beyond the end of the array of
 position flags for 2x2 blocks, which could spoil the computed roots

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index b9538f0..4bb709f 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -58,7 +58,7 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   
   ! compute variables
   integer :: ir1, ir2, id1, id2
-  logical :: tp(2)
+  logical :: tp(2), inv
   real(8) :: Ginv(3)
   real(8) :: tq(6), td(6), tc(9), tb(9)
   complex(8) :: shift, A(2,2)
@@ -111,8 +111,12 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
 !print*," shift =",shift
 !print*,""
 
+  ! there is no position flag for 2x2 blocks (P is empty)
+  inv = .FALSE.
+  if (N.GE.3) inv = P(1)
+
   ! build bulge
-  call z_upr1fact_buildbulge(P(1),Q(1:3),D(1:4),C(1:6),B(1:6),shift,G)
+  call z_upr1fact_buildbulge(inv,Q(1:3),D(1:4),C(1:6),B(1:6),shift,G)
 
   ! set Ginv
   Ginv(1) = G(1)
@@ -133,7 +137,7 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   
   ! initialize turnover 
   ! hess
-  if (.NOT.P(1)) then
+  if (.NOT.inv) then
   
     ! fuse Ginv and Q, Ginv is now a diagonal rotation
     call z_rot3_fusion(.FALSE.,Ginv,Q(1:3))
-- 
2.43.0


From 2e3cb219fc9be9bdb00b6a37d439955319127553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 28/62] fix: derivatives of the scattering matrix were NaN if
 the eigenvalues of a transfer matrix coincide

---
 src/private/fnft__akns_scatter.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index cca46e8..9963924 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -47,14 +47,17 @@ static inline void akns_scatter_U_BO(COMPLEX const qn,
         U[5] = ch + u1;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX const chi = ch/ks;
-        COMPLEX const ud1 = eps_t*ln2*chi*I;
-        COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
-
-        U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
+        // s = (eps_t*ch - sh)/ks, which also has to be finite if ks is zero
+        COMPLEX const x = I*eps_t*k;
+        COMPLEX const s = -eps_t*eps_t*eps_t
+            * (x == 0.0 ? -1.0/3.0 : misc_CSINC_derivative(x)/x);
+        COMPLEX const ud1 = ln2*s*I;
+        COMPLEX const ud2 = ln*s;
+
+        U[8]  = ud1 - ( ln*eps_t + I )*sh;
         U[9]  = -qn*ud2;
         U[12] = -rn*ud2;
-        U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        U[13] = -ud1 - ( ln*eps_t - I )*sh;
     } else {
         U[2] = rn*sh;
         U[3] = ch + u1;
@@ -78,10 +81,9 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
         U[5] = c - s*a3;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
+        COMPLEX const w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
         COMPLEX const c_d = -misc_CSINC(w)*w_d;
-        w_d /= w;
-        COMPLEX const s_d = w_d * misc_CSINC_derivative(w);
+        COMPLEX const s_d = w_d * (w == 0.0 ? -1.0/3.0 : misc_CSINC_derivative(w)/w);
         U[8] = c_d+s_d*a3+s*tmp2[2];
         U[9] = s_d*a1+s*tmp2[0]-I*s_d*a2-I*s*tmp2[1];
         U[12] = s_d*a1+s*tmp2[0]+I*s_d*a2+I*s*tmp2[1];
-- 
2.43.0


From 3c483007f9dc536c5ce43b27cbbdebc82aa57c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 29/62] fix: poly_fmult, poly_fmult2x2 and poly_fmult3x3
 returned undefined values if there is only one factor

---
 src/private/fnft__poly_fmult.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..a5a8a56 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -613,7 +613,7 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -678,6 +678,10 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // Nothing to multiply
+    if (n == 1)
+        memcpy(result, p, 4*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -783,7 +787,7 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -889,6 +893,10 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // Nothing to multiply
+    if (n == 1)
+        memcpy(result, p, 9*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From 610aa3ced8681dcb79495eb66b76b51d6afabc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 30/62] fix: fnft_nsep must not modify the options of the user
 or the default options

---
 src/fnft_nsep.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..019c7b1 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -102,6 +102,7 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
     INT warn_flags[2] = { 0, 0 }; // 0 = no warning about too many points so
     // far, 1st val is for main spec, 2nd for aux
     COMPLEX *q_preprocessed = NULL;
+    fnft_nsep_opts_t opts;
 
     // Check inputs
     // D (and Dsub in line 493) only need to be even to ensure that deg in line 279 and 537 are also even for all discretizations.
@@ -122,8 +123,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_INVALID_ARGUMENT(M_ptr);
     if (sheet_indices != NULL)
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
-    if (opts_ptr == NULL)
-        opts_ptr = &default_opts;
+    // Work with a local copy of the options, such that neither the options of
+    // the user nor the default options are changed
+    opts = (opts_ptr == NULL) ? default_opts : *opts_ptr;
+    opts_ptr = &opts;
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +228,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From d7b28006019634cf3c518af9827ae043f9fe7074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 31/62] fix: fnft_nsep returned an undefined number of main
 spectrum points if localization==GRIDSEARCH and main_spec==NULL

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 019c7b1..954ed9b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -250,7 +250,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From e0bcd40dd0a12d07ff7ec3e1a11e4ae3f63f8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 32/62] fix: fnft_nsep leaked memory when it returned with
 certain errors

---
 src/fnft_nsep.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 954ed9b..d5b9872 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -175,8 +175,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -217,7 +219,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -518,10 +521,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
-- 
2.43.0


From 69ba83a23d2ab2e8d083d02787aa83cf953defba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 33/62] fix: fnft_nsep ignored errors of the root finder for
 the auxiliary spectrum and returned undefined values

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index d5b9872..393dfa1 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -671,7 +671,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
-- 
2.43.0


From c975446099a4f1c30f6a1ed1cb03a24293a5dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 34/62] fix: fnft_nsep with localization==MIXED performed
 pointer arithmetic on NULL pointers

---
 src/fnft_nsep.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 393dfa1..3fc124d 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -184,8 +184,9 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Compute real points in the spectra via gridsearch
 
-            ret_code = gridsearch(D, q_preprocessed, T, &K2, main_spec+K1,
-                    &M2, aux_spec+M1, sheet_indices, kappa, opts_ptr, warn_flags);
+            ret_code = gridsearch(D, q_preprocessed, T, &K2,
+                    (main_spec == NULL) ? NULL : main_spec+K1, &M2,
+                    (aux_spec == NULL) ? NULL : aux_spec+M1, sheet_indices, kappa, opts_ptr, warn_flags);
             CHECK_RETCODE(ret_code, leave_fun);
 
             // Signal numbers of found main and aux spec points to the user
-- 
2.43.0


From 6bef383178d7e2c51f31a04e31ff5f05af794cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 35/62] fix: eiscor used random shifts, such that identical
 calls could return different roots

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index 4bb709f..ebf50c2 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -64,10 +64,10 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   complex(8) :: shift, A(2,2)
   
   ! compute shift
-  ! random shift
+  ! exceptional shift (pseudo-random, but reproducible)
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
-    call random_number(G(1))
-    call random_number(G(2))
+    G(1) = mod(6.180339887498949d-1*ITCNT,1d0)
+    G(2) = mod(7.548776662466927d-1*ITCNT,1d0)
     shift = cmplx(G(1),G(2),kind=8)
           
   ! wilkinson shift
-- 
2.43.0


From bbef016a3feba135f837daa7ce14a9e77e9e280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 36/62] fix: poly_roots_fasteigen aborted the program if memory
 could not be allocated

---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 11 +++++++++--
 src/private/fnft__poly_roots_fasteigen.c       |  5 +++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 4d7d2bf..daa05f1 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -34,6 +34,7 @@
 !
 !  INFO            INTEGER
 !                    INFO = 1 implies companion QR algorithm failed
+!                    INFO = 2 implies that memory could not be allocated
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
 subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
@@ -85,8 +86,14 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
-  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
+  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),stat=ii)
+  if (ii.EQ.0) then
+     allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),stat=ii)
+  end if
+  if (ii.NE.0) then
+     INFO = 2
+     return
+  end if
 
   ! initialize INFO
   INFO = 0
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..835bac2 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -43,6 +43,7 @@ INT poly_roots_fasteigen(const UINT deg,
 
     if (info == 0)
         return SUCCESS;
-    else
-        return E_SUBROUTINE(FNFT_EC_OTHER);
+    if (info == 2)
+        return E_NOMEM;
+    return E_SUBROUTINE(FNFT_EC_OTHER);
 }
-- 
2.43.0


From ca8dbf0fd59ae56eac45744eb1f5810a1a329945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 37/62] fix: kiss_fft wrote to a NULL pointer if memory could
 not be allocated during an FFT whose length has prime factors larger than
 five

---
 src/3rd_party/kiss_fft/kiss_fft.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/kiss_fft/kiss_fft.c b/src/3rd_party/kiss_fft/kiss_fft.c
index f051be3..368a000 100644
--- a/src/3rd_party/kiss_fft/kiss_fft.c
+++ b/src/3rd_party/kiss_fft/kiss_fft.c
@@ -211,7 +211,9 @@ static void kf_bfly_generic(
     kiss_fft_cpx t;
     FNFT_UINT Norig = st->nfft;
 
-    kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+    /* The scratch memory has been reserved by kiss_fft_alloc: There is no way to
+       report a failing allocation from here. */
+    kiss_fft_cpx * scratch = twiddles + Norig;
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -234,7 +236,6 @@ static void kf_bfly_generic(
             k += m;
         }
     }
-    KISS_FFT_TMP_FREE(scratch);
 }
 
 static
@@ -342,8 +343,16 @@ void kf_factor(FNFT_UINT n, FNFT_UINT * facbuf)
 kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT_UINT * lenmem )
 {
     kiss_fft_cfg st=NULL;
-    FNFT_UINT memneeded = sizeof(struct kiss_fft_state)
-        + sizeof(kiss_fft_cpx)*(nfft-1); /* twiddle factors*/
+    FNFT_UINT nscratch = nfft;
+    FNFT_UINT memneeded;
+
+    /* The radices used by kf_bfly_generic divide nscratch */
+    while ( nscratch>1 && (nscratch%2) == 0 ) nscratch/=2;
+    while ( nscratch>1 && (nscratch%3) == 0 ) nscratch/=3;
+    while ( nscratch>1 && (nscratch%5) == 0 ) nscratch/=5;
+    memneeded = sizeof(struct kiss_fft_state)
+        + sizeof(kiss_fft_cpx)*(nfft-1) /* twiddle factors*/
+        + sizeof(kiss_fft_cpx)*nscratch; /* memory for kf_bfly_generic */
 
     if ( lenmem==NULL ) {
         st = ( kiss_fft_cfg)KISS_FFT_MALLOC( memneeded );
-- 
2.43.0


From f3f2fc5ee2e81bbc27686f50ca09fe4672c194ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 38/62] fix: fnft_nsev_inverse leaked memory if
 opts->contspec_inversion_method was invalid

---
 src/fnft_nsev_inverse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..d17d0dd 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -901,8 +901,10 @@ static INT add_discrete_spectrum(
             q[n] = qn;
         }
     }
-    else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+    else {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        goto leave_fun;
+    }
 
     leave_fun:
         free(t);
-- 
2.43.0


From 4cd31f7d730816eb714bd45f8493402dbfede356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 39/62] fix: fnft_nsev_inverse did not always detect bound
 states with multiplicity larger than one, and changed q and contspec before
 rejecting them

---
 src/fnft_nsev_inverse.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index d17d0dd..e9125e1 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -150,10 +150,14 @@ INT fnft_nsev_inverse(
         return E_SANITY_CHECK_FAILED(Discrete spectrum is present only in the focusing case(kappa=1).);
     if (K > 0 && bound_states == NULL)
         return E_INVALID_ARGUMENT(bound_states);
-    UINT i;
+    UINT i, j;
     for (i = 0; i < K; i++) {
         if (CIMAG(bound_states[i]) <= 0)
             return E_SANITY_CHECK_FAILED(bound_states should be stricly in the upper-half complex-plane.);
+        for (j = 0; j < i; j++) {
+            if (bound_states[i] == bound_states[j])
+                return E_SANITY_CHECK_FAILED(bound_states should be simple (multiplicity should be 1).);
+        }
     }
     if (K > 0 && normconsts_or_residues == NULL)
         return E_INVALID_ARGUMENT(normconsts_or_residues);
@@ -751,14 +755,6 @@ static INT add_discrete_spectrum(
             }
         }
     }
-    //Checking for multiplicity of bound_states.
-    for (i = 0; i < K-1; i++){
-        if (bnd_states[i+1] == bnd_states[i]){
-            ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
-            goto leave_fun;
-        }
-    }
-
     //Computing few values which will be used repeatdely in the code below
 
     for (i = 0; i < K; i++){
-- 
2.43.0


From 933297f5c02cf1f957947c339020ae9f87ec36e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 40/62] fix: fnft_nsev_inverse used uninitialized memory if
 opts->max_iter==0

---
 src/fnft_nsev_inverse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index e9125e1..258f2f3 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -402,6 +402,8 @@ static inline INT
         return E_ASSERTION_FAILED;
     if (kappa != -1)
         return E_INVALID_ARGUMENT(kappa);
+    if (opts_ptr->max_iter == 0)
+        return E_INVALID_ARGUMENT(opts_ptr->max_iter);
 
     // Allocate some memory and initial (inverse) FFT plans
 
-- 
2.43.0


From 7db840a778387d97bcbef6485ca3acc92eb404c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 41/62] fix: eiscor wrote to a NULL pointer if memory for a
 temporary array could not be allocated

---
 src/3rd_party/eiscor/z_upr1utri_decompress.f90 | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1utri_decompress.f90 b/src/3rd_party/eiscor/z_upr1utri_decompress.f90
index c426ebe..2764c19 100644
--- a/src/3rd_party/eiscor/z_upr1utri_decompress.f90
+++ b/src/3rd_party/eiscor/z_upr1utri_decompress.f90
@@ -47,8 +47,8 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
   complex(8), intent(inout) :: T(N,N)
   
   ! compute variables
-  integer :: ii,ind
-  complex(8) :: g, p, temp(2,2)
+  integer :: ii,jj,ind
+  complex(8) :: g, p, tjj, temp(2,2)
   
   ! diagonals only
   if (DIAG) then
@@ -77,7 +77,12 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
       temp(2,1) = cmplx(B(ind+3),0d0,kind=8)
       temp(1,2) = -temp(2,1)
       temp(2,2) = conjg(temp(1,1))
-      T(1:(ii+1),ii:(ii+1)) = matmul(T(1:(ii+1),ii:(ii+1)),temp)
+      ! (no matmul here since it would allocate memory without checking)
+      do jj=1,(ii+1)
+        tjj = T(jj,ii)*temp(1,1) + T(jj,ii+1)*temp(2,1)
+        T(jj,ii+1) = T(jj,ii)*temp(1,2) + T(jj,ii+1)*temp(2,2)
+        T(jj,ii) = tjj
+      end do
     end do
     T(:,N) = T(:,N)*cmplx(B(3*(N-1)+1),B(3*(N-1)+2),kind=8)
     
@@ -103,7 +108,11 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
       temp(2,1) = cmplx(C(ind+3),0d0,kind=8)
       temp(1,2) = -temp(2,1)
       temp(2,2) = conjg(temp(1,1))
-      T(ii:(ii+1),(ii+1):N) = matmul(temp,T(ii:(ii+1),(ii+1):N))
+      do jj=(ii+1),N
+        tjj = temp(1,1)*T(ii,jj) + temp(1,2)*T(ii+1,jj)
+        T(ii+1,jj) = temp(2,1)*T(ii,jj) + temp(2,2)*T(ii+1,jj)
+        T(ii,jj) = tjj
+      end do
       T(ii,ii) = temp(1,1)*T(ii,ii) + temp(1,2)*T(ii+1,ii)
       T(ii+1,ii) = cmplx(0d0,0d0,kind=8)
     end do
-- 
2.43.0


From 3e209cf1b6afad607694658b3c3e29bd8fb259d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 42/62] fix: misc_normalize_vector converted an infinite
 logarithm to an integer

---
 include/private/fnft__misc.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/private/fnft__misc.h b/include/private/fnft__misc.h
index 0b84e21..9dd3832 100644
--- a/include/private/fnft__misc.h
+++ b/include/private/fnft__misc.h
@@ -414,8 +414,9 @@ static inline FNFT_INT fnft__misc_normalize_vector(const FNFT_UINT len, FNFT_COM
             max_abs = cur_abs;
     }
 
-    // Return if polynomial is identical to zero
-    if (max_abs == 0.0)
+    // Return if polynomial is identical to zero, or if there was an overflow
+    // (the logarithm of infinity does not fit into an integer)
+    if (max_abs == 0.0 || max_abs > DBL_MAX)
         return 0;
 
     // Otherwise, rescale
-- 
2.43.0


From 6437adfa8ffcd4c56c8e3dfbba180349db80efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 43/62] fix: norming constants were matched by magnitude only,
 so that phase mismatches went unnoticed

---
 src/private/fnft__akns_scatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 9963924..bc23170 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -851,7 +851,7 @@ INT akns_scatter_bound_states(UINT const D,
                         b_temp[i] *= POW(2, WPHI[n] - WPSI[n]);
                 }
                 if (PDE!=akns_pde_KdV || CREAL(b_temp[0]*b_temp[1])>0) {
-                    tmp = FABS( 0.5* LOG( (REAL)CABS( b_temp[1]/b_temp[0] ) ) );
+                    tmp = CABS( 0.5* CLOG( b_temp[1]/b_temp[0] ) );
                     if (tmp < error_metric){
                         b_vals[neig] = b_temp[0];
                         error_metric = tmp;
-- 
2.43.0


From db60cbf050ff3fbd3df7ed50cbc570fa69617045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 44/62] fix: poly_roots_fasteigen failed if leading
 coefficients were exactly zero, or for degree one

---
 include/private/fnft__poly_roots_fasteigen.h |  1 +
 src/private/fnft__poly_roots_fasteigen.c     | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/private/fnft__poly_roots_fasteigen.h b/include/private/fnft__poly_roots_fasteigen.h
index 69f6e3c..5425af0 100644
--- a/include/private/fnft__poly_roots_fasteigen.h
+++ b/include/private/fnft__poly_roots_fasteigen.h
@@ -45,6 +45,7 @@
  *  descending order (i.e., \f$ p_{deg}, p_{deg-1}, \dots, p_1, p_0 \f$).
  * @param[out] roots Array of deg+1 points. Will be filled with the roots of
  *  \f$ p(z) \f$.
+ *  If leading coefficients are zero, the corresponding roots are INFINITY.
  * @return \link FNFT_SUCCESS \endlink or one of the FNFT_EC_... error codes
  *  defined in \link fnft_errwarn.h \endlink.
  */
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 835bac2..27af95f 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -30,6 +30,7 @@ INT poly_roots_fasteigen(const UINT deg,
     COMPLEX const * const p, COMPLEX * const roots)
 {
     INT int_deg, info;
+    UINT nz = 0; // number of leading coefficients that are zero
 
   // Check inputs
   if (p == NULL)
@@ -37,9 +38,24 @@ INT poly_roots_fasteigen(const UINT deg,
   if (roots == NULL)
     return E_INVALID_ARGUMENT(roots);
 
+    // The Fortran routine divides by the leading coefficient. If the leading
+    // coefficients vanish, the corresponding roots are at infinity.
+    while (nz < deg && p[nz] == 0.0)
+        nz++;
+    for (UINT i=deg-nz; i<deg; i++)
+        roots[i] = INFINITY;
+    if (nz == deg && p[deg] == 0.0)
+        return E_INVALID_ARGUMENT(p);
+    if (nz == deg) // constant polynomial
+        return SUCCESS;
+    if (deg - nz == 1) { // not supported by the Fortran routine
+        roots[0] = -p[deg]/p[deg-1];
+        return SUCCESS;
+    }
+
     // Call Fortran root finding routine
-    int_deg = (int)deg;
-    z_poly_roots_modified_(&int_deg, p, roots, &info);
+    int_deg = (int)(deg - nz);
+    z_poly_roots_modified_(&int_deg, p + nz, roots, &info);
 
     if (info == 0)
         return SUCCESS;
-- 
2.43.0


From 0dae8f9bd64edad595c9ad32a28673828b753307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 45/62] fix: max_K of fnft_nsev and fnft_manakovv ignored the
 upsampling factor of the 4SPLIT discretizations

---
 src/fnft_manakovv.c | 8 ++++----
 src/fnft_nsev.c     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 42de61e..02926e1 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -52,10 +52,10 @@ fnft_manakovv_opts_t fnft_manakovv_default_opts()
  */
 UINT fnft_manakovv_max_K(const UINT D, fnft_manakovv_opts_t const* const opts)
 {
-	if (opts != NULL)
-		return manakov_discretization_degree(opts->discretization) * D;
-	else
-		return manakov_discretization_degree(default_opts.discretization) * D;
+	manakov_discretization_t const discretization =
+		(opts != NULL) ? opts->discretization : default_opts.discretization;
+	return manakov_discretization_degree(discretization)
+		* manakov_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index f522df1..010ea58 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -54,10 +54,10 @@ fnft_nsev_opts_t fnft_nsev_default_opts()
  */
 UINT fnft_nsev_max_K(const UINT D, fnft_nsev_opts_t const * const opts)
 {
-    if (opts != NULL)
-        return nse_discretization_degree(opts->discretization) * D;
-    else
-        return nse_discretization_degree(default_opts.discretization) * D;
+    nse_discretization_t const discretization =
+        (opts != NULL) ? opts->discretization : default_opts.discretization;
+    return nse_discretization_degree(discretization)
+        * nse_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
-- 
2.43.0


From 194b22599f36732f4b62025bb0c028459fa2eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 46/62] fix: kdvv grid search returned NaN for, or missed,
 bound states in the first grid cell, and its zero estimates were biased

---
 src/fnft_kdvv.c | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 9a08fa8..9f52a74 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -525,6 +525,7 @@ static inline INT kdvv_compute_boundstates(
         ret_code = E_INVALID_ARGUMENT(opts->discretization);
         goto leave_fun;
     }
+    UINT const D_given = D/upsampling_factor;
 
     // Copy the values of opts and modify it from fast to slow discretization if needed.
     fnft_kdvv_opts_t opts_slow = *opts;
@@ -605,7 +606,10 @@ static inline INT kdvv_compute_boundstates(
                 goto leave_fun;
             }
 
-            xi[0] = I*nexttoward(bounding_box[2],bounding_box[3]);
+            // The function a(xi) has in general a pole at xi=0, and the matrix that
+            // changes the basis is singular there. We therefore have to stay
+            // sufficiently far away from zero.
+            xi[0] = I*SQRT(EPSILON)*dist;
             for (i = 1; i < M-1; i++)
                 xi[i] = I * CIMAG(eps_xi*i);
             xi[M-1] = I*nexttoward(bounding_box[3],bounding_box[2]);
@@ -644,31 +648,22 @@ static inline INT kdvv_compute_boundstates(
                         break;
                     }
                     
-                    // Zero crossing estimate with regula falsi:
-                    REAL scl1 = 1, scl2 = 1;
-                    if (opts->normalization_flag) {
-                        // The regula falsi without normalization is simply
-                        //
-                        //   (xi[i-1]*a[i] - xi[i]*a[i-1])/(a[i] - a[i-1]).
-                        //
-                        // With normalization, taking the scaling factors l[i]=log_scaling_factors[i]
-                        // into account, we get
-                        //    
-                        //  [Eq 1]  (xi[i]*2^l[i-1]*a[i-1] - xi[i]*2^l[i]*a[i-1])/(2^l[i]*a[i] - 2^l[i-1]*a[i-1]),
-                        //
-                        // where the hat indicates a power. To use the true values of the scattering
-                        // function a(xi), the scaling factors used in the code below should be
-                        //
-                        //  scl1 = POW(2, log_scaling_factors[i]);
-                        //  scl2 = POW(2, log_scaling_factors[i-1]);
-                        //
-                        // However, this can quickly lead to overflow problems. By multiplying both
-                        // the numerator and denominator in Eq 1 with the factor 2^-(l[i]-l[i-1])/2,
-                        // we instead arrive at the following scaling factors.
-                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2;
-                        scl1 = POW(2, s);
-                        scl2 = POW(2, -s);
-                    }
+                    // Zero crossing estimate with regula falsi, applied to
+                    // f(xi)=xi*a(xi) since a(xi) has in general a pole at xi=0. Up to
+                    // constants, we have a(xi)=scatter_coeffs*exp(I*xi*D_given*eps_t).
+                    // The estimate
+                    //
+                    //   (xi[i-1]*f[i] - xi[i]*f[i-1])/(f[i] - f[i-1])
+                    //
+                    // does not change if f is multiplied with a constant. The
+                    // factors that relate f to the values in scatter_coeffs are
+                    // distributed symmetrically over both grid points to avoid
+                    // overflow problems.
+                    REAL log2_scl = -CIMAG(xi[i]-xi[i-1])*D_given*eps_t/LOG(2.0);
+                    if (opts->normalization_flag) // a = scatter_coeffs * 2^log_scaling_factors
+                        log2_scl += log_scaling_factors[i]-log_scaling_factors[i-1];
+                    REAL const scl1 = CIMAG(xi[i])*POW(2.0, 0.5*log2_scl);
+                    REAL const scl2 = CIMAG(xi[i-1])*POW(2.0, -0.5*log2_scl);
                     bound_states[K] = (xi[i-1] * scl1*CREAL(scatter_coeffs[4*i]) - xi[i] * scl2*CREAL(scatter_coeffs[4*(i-1)])) / CREAL( scl1*scatter_coeffs[4*i] - scl2*scatter_coeffs[4*(i-1)]);
                     K++;
                 }
-- 
2.43.0


From f7597ad76e425c899996acb75c4958b7a45f4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 47/62] fix: kdvv grid search used a coarser grid than the
 requested grid_spacing

---
 include/fnft_kdvv.h | 2 +-
 src/fnft_kdvv.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fnft_kdvv.h b/include/fnft_kdvv.h
index a9aa2b3..7c5a2af 100644
--- a/include/fnft_kdvv.h
+++ b/include/fnft_kdvv.h
@@ -53,7 +53,7 @@
  *  initial guesses for the bound states are available. The complexity is
  *  \f$ O(niter (*K\_ptr) D) \f$. \n \n
  *  fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE: The algorithm evaluates \f$ a(\xi) \f$ on the grid
- *  \f$ \xi = \{j nexttoward(0,1), jh,2jh,3jh,\ldots,(M-3)jh\,(M-2)jh,j nexttoward((M-1)h,0)\}\f$,
+ *  \f$ \xi = \{j\sqrt{\epsilon}(M-1)h, jh,2jh,3jh,\ldots,(M-3)jh\,(M-2)jh,j nexttoward((M-1)h,0)\}\f$,
  *  where \f$ h:= \sqrt{c \max_t q(t)} / (M-1)\f$, where \f$ c=1\f$ for all second order discretizations,
  *  `fnft_kdv_discretization_4SPLIT4A'/'B'('_VANILLA'), and `fnft_kdv_discretization_CF4_2`(`_VANILLA`);
  *  \f$ c \f$ is approximately 2 for other discretizations. The constant \f$ M \f$ is chosen
diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 9f52a74..593d205 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -592,7 +592,7 @@ static inline INT kdvv_compute_boundstates(
             }
             UINT M = 0;
             if (opts->grid_spacing > 0) {
-                M = CEIL(dist/opts->grid_spacing);
+                M = (UINT) CEIL(dist/opts->grid_spacing) + 1;
                 if (M<2)
                     M = 2;
             } else {
-- 
2.43.0


From e0d3b8fac88773f4fa47956c599f880b9f6e76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 48/62] fix: Richardson extrapolation for the Manakov
 discretizations BO and CF4_2

The method order was not known, so that all calls failed.
---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index 7acd3e8..fcfcb10 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,6 +91,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
@@ -98,6 +99,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
+        case manakov_discretization_CF4_2:
             return 4;
 
         default: // discretization not implemented for manakov
-- 
2.43.0


From c335d9db89132c7a306859818b8cef8d9692693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 49/62] fix: do not leave converged main spectrum points with
 an overshooting step

Close to double roots, f/f' can be large although |f| is below the tolerance.
The refinement then returned points that were much worse than the one it had.
---
 src/fnft_nsep.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 3fc124d..fb5cabd 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -953,6 +953,13 @@ static inline INT refine_mainspec(
                 }
             }
             best_incr = best_m*incr;
+
+            // Keep a point that already fulfills the tolerance if the next step
+            // would only make it worse. (Close to double roots, f_prime can be
+            // so small that the step overshoots.)
+            if ( CABS(f) <= tol && min_abs > CABS(f) )
+                break;
+
             mainspec[k] -= best_incr; // Newton step
 
 	        // printf("MAIN k=%zu, nevals=%zu: lam=%e+%ej, |f|=%e, |f_prime|=%e, |incr|=%e, best_m=%d\n", k, nevals, CREAL(mainspec[k]), CIMAG(mainspec[k]), CABS(f), CABS(f_prime),CABS(incr),best_m);
-- 
2.43.0


From 023785253ec6c1ffbaad062e0c335a33d42c2e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 50/62] fix: nsep Newton refinement with non-zero phase shift

The spectra are returned for the signal with the phase rotation, but the initial
guesses were interpreted as guesses for the signal without it.
---
 src/fnft_nsep.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index fb5cabd..40e76d9 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -206,6 +206,16 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         case fnft_nsep_loc_NEWTON:
 
+            // The initial guesses are given in the coordinates of the user
+            if (main_spec != NULL) {
+                for (i=0; i < *K_ptr * opts_ptr->points_per_spine; i++)
+                    main_spec[i] -= Lam_shift;
+            }
+            if (aux_spec != NULL) {
+                for (i=0; i < *M_ptr; i++)
+                    aux_spec[i] -= Lam_shift;
+            }
+
             ret_code = newton(D, q_preprocessed, T, K_ptr, main_spec, M_ptr, aux_spec,
                               sheet_indices, kappa, opts_ptr);
             CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 473aa2a9fe45c3f789bcf39503bca3a6db451da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 51/62] fix: poly_roots_fasteigen failed if trailing
 coefficients were exactly zero

---
 src/private/fnft__poly_roots_fasteigen.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 27af95f..3111778 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -31,6 +31,7 @@ INT poly_roots_fasteigen(const UINT deg,
 {
     INT int_deg, info;
     UINT nz = 0; // number of leading coefficients that are zero
+    UINT last = deg; // index of the last coefficient that is not zero
 
   // Check inputs
   if (p == NULL)
@@ -46,15 +47,20 @@ INT poly_roots_fasteigen(const UINT deg,
         roots[i] = INFINITY;
     if (nz == deg && p[deg] == 0.0)
         return E_INVALID_ARGUMENT(p);
-    if (nz == deg) // constant polynomial
+
+    // It also fails if the last coefficients vanish. Then, the corresponding
+    // roots are zero.
+    while (last > nz && p[last] == 0.0)
+        roots[--last - nz] = 0.0;
+    if (nz == last) // constant polynomial
         return SUCCESS;
-    if (deg - nz == 1) { // not supported by the Fortran routine
-        roots[0] = -p[deg]/p[deg-1];
+    if (last - nz == 1) { // not supported by the Fortran routine
+        roots[0] = -p[last]/p[nz];
         return SUCCESS;
     }
 
     // Call Fortran root finding routine
-    int_deg = (int)(deg - nz);
+    int_deg = (int)(last - nz);
     z_poly_roots_modified_(&int_deg, p + nz, roots, &info);
 
     if (info == 0)
-- 
2.43.0


From 35177e527b5fd64c232a86b9d1d9d3115ef53ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 52/62] fix: final step of the main spectrum refinement must
 not overshoot

Close to double roots, next_f/next_f_prime can be much larger than the distance to
the root. The step was then larger than the one before, for a converged point.
---
 src/fnft_nsep.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 40e76d9..578374c 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -979,7 +979,9 @@ static inline INT refine_mainspec(
                 // let's use that for a final first-order Newton step.
                 if (next_f_prime == 0.0)
                     return E_DIV_BY_ZERO;
-                mainspec[k] -= next_f / next_f_prime;
+                incr = next_f / next_f_prime;
+                if ( CABS(incr) <= CABS(best_incr) ) // do not overshoot
+                    mainspec[k] -= incr;
                 break;
             }
 
-- 
2.43.0


From af20ac85f53f5937a3b691dd04c634c6a48e4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:41 +0000
Subject: [PATCH 53/62] fix: inverse scattering with 2SPLIT2A used the focusing
 formula also in the defocusing case

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..0a2192b 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -208,6 +208,12 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
+                if (kappa == -1) { // |X| = TANH(|q|*eps_t) in this case
+                    *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
+                    break;
+                }
+                #endif
                 *s[i].q = ATAN(CABS(X))*CEXP(I*CARG(X))/eps_t;
                 break;
             default: // discretization is unknown or not supported
-- 
2.43.0


From d56f23fc4e7e943d73acd8ecc19e69d7c096da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 54/62] fix: poly_evalderiv returned NaN for constant
 polynomials outside the unit circle

---
 src/private/fnft__poly_eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_eval.c b/src/private/fnft__poly_eval.c
index 001a88b..9489371 100644
--- a/src/private/fnft__poly_eval.c
+++ b/src/private/fnft__poly_eval.c
@@ -83,7 +83,7 @@ INT poly_evalderiv(const UINT deg, COMPLEX const * const p, \
                 tmp2 = tmp + tmp2/z[i];
                 tmp = p[deg - j] + tmp/z[i];
             }
-            deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            deriv[i] = CPOW(z[i], (REAL)deg - 1.0)*(deg*tmp - tmp2/z[i]);
             z[i] = tmp * CPOW(z[i], deg);
         }
     }
-- 
2.43.0


From 9a16b2c6fc39dc78e845d4b418cf4781ca10a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 55/62] fix: poly_specfact scaled the Hilbert transform in
 single precision

---
 src/private/fnft__poly_specfact.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7e3fcf7..ad804b8 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -117,10 +117,10 @@ INT poly_specfact(const UINT deg,
 
     buf_in[0] = 0.0;
     for (i=1; i<M/2-1; i++)
-        buf_in[i] *= -I/M;
+        buf_in[i] *= -I/(REAL)M;
     buf_in[M/2-1] = 0.0;
     for (i=M/2; i<M; i++)
-        buf_in[i] *= I/M;
+        buf_in[i] *= I/(REAL)M;
 
     ret_code = fft_wrapper_execute_plan(plan_inv, buf_in, buf_out);
     CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 11e6645b1a2bf161f6146cee7f96364c787955f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 56/62] fix: nsep changed the initial guesses for Newton's
 method if it rejected the discretization

---
 src/fnft_nsep.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 578374c..f4b97e2 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -77,7 +77,7 @@ static inline INT newton(
         const UINT D, COMPLEX const * const q, REAL const * const T,
         UINT * const K_ptr, COMPLEX * const main_spec, UINT * const M_ptr,
         COMPLEX * const aux_spec, REAL * const sheet_indices,
-        const INT kappa, fnft_nsep_opts_t * opts_ptr);
+        const INT kappa, const REAL Lam_shift, fnft_nsep_opts_t * opts_ptr);
 
 static inline INT gridsearch(const UINT D,
         COMPLEX const * const q,
@@ -206,18 +206,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         case fnft_nsep_loc_NEWTON:
 
-            // The initial guesses are given in the coordinates of the user
-            if (main_spec != NULL) {
-                for (i=0; i < *K_ptr * opts_ptr->points_per_spine; i++)
-                    main_spec[i] -= Lam_shift;
-            }
-            if (aux_spec != NULL) {
-                for (i=0; i < *M_ptr; i++)
-                    aux_spec[i] -= Lam_shift;
-            }
-
             ret_code = newton(D, q_preprocessed, T, K_ptr, main_spec, M_ptr, aux_spec,
-                              sheet_indices, kappa, opts_ptr);
+                              sheet_indices, kappa, Lam_shift, opts_ptr);
             CHECK_RETCODE(ret_code, leave_fun);
             break;
 
@@ -747,7 +737,7 @@ static inline INT newton(const UINT D,
         REAL const * const T, UINT * const K_ptr,
         COMPLEX * const main_spec, UINT * const M_ptr,
         COMPLEX * const aux_spec, REAL * const sheet_indices,
-        const INT kappa, fnft_nsep_opts_t * opts_ptr)
+        const INT kappa, const REAL Lam_shift, fnft_nsep_opts_t * opts_ptr)
 {
     COMPLEX * initial_guesses = NULL;
     REAL degree1step, map_coeff;
@@ -826,6 +816,10 @@ static inline INT newton(const UINT D,
             rhs_step /= nvals - 1;
         initial_guesses = main_spec;
 
+        // The initial guesses are given in the coordinates of the user
+        for (UINT i=0; i<K*nvals; i++)
+            main_spec[i] -= Lam_shift;
+
         for (UINT nval=0; nval<nvals; nval++) {
 
             const REAL rhs = 2.0*(rhs_0 + nval*rhs_step);
@@ -855,6 +849,10 @@ static inline INT newton(const UINT D,
     // Refine aux spectrum if desired
     if (aux_spec != NULL) {
 
+        // The initial guesses are given in the coordinates of the user
+        for (UINT i=0; i<M; i++)
+            aux_spec[i] -= Lam_shift;
+
         // Refine the roots
         ret_code = refine_auxspec(D_effective, q_preprocessed, r_preprocessed, eps_t, M,
                                   aux_spec, opts_ptr->max_evals, refine_tol,
-- 
2.43.0


From d6dbc11ca779481be997f54b5bb56ddde5328cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:42 +0000
Subject: [PATCH 57/62] fix: nsev carried out only half of the requested number
 of Newton iterations

---
 src/fnft_nsev.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 010ea58..d342c5d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1097,7 +1097,6 @@ static inline INT nsev_refine_bound_states_newton(
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = a_val / aprime_val;
             bound_states[i] -= error;
-            iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From 46fe8add6e40ecca8bd4ae76ef20aafac151732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:25 +0000
Subject: [PATCH 58/62] fix: the BO and CF4_2 Manakov scattering returned NaN
 if lambda^2+kappa*|q|^2 vanished

---
 src/private/fnft__manakov_scatter.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/private/fnft__manakov_scatter.c b/src/private/fnft__manakov_scatter.c
index 4d63958..499dc7e 100644
--- a/src/private/fnft__manakov_scatter.c
+++ b/src/private/fnft__manakov_scatter.c
@@ -52,18 +52,20 @@ static inline void manakov_scatter_U_BO(COMPLEX const q1,       // calculates th
     COMPLEX x1 = CSQRT(lam*lam + kappa*q1*CONJ(q1) + kappa*q2*CONJ(q2));
     COMPLEX x2  = eps_t*x1*I;
     COMPLEX x3 = q1*CONJ(q1)+q2*CONJ(q2);
+    // sinh(x2)/x1 has a removable singularity at x1=0
+    COMPLEX const sx = (x1 == 0.0) ? I*eps_t : CSINH(x2)/x1;
 
-        U[0] = -(lam/x1)*CSINH(x2)+CCOSH(x2);
-        U[1] = -(I*q1/x1)*CSINH(x2);
-        U[2] = -(I*q2/x1)*CSINH(x2);
+        U[0] = -lam*sx+CCOSH(x2);
+        U[1] = -I*q1*sx;
+        U[2] = -I*q2*sx;
 
-        U[3] = (I*kappa*CONJ(q1)/x1)*CSINH(x2);
-        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
-        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
+        U[3] = I*kappa*CONJ(q1)*sx;
+        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + lam*sx) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
+        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*sx);
 
-        U[6] = (I*kappa*CONJ(q2)/x1)*CSINH(x2);
-        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
-        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
+        U[6] = I*kappa*CONJ(q2)*sx;
+        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*sx);
+        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + lam*sx) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
     }
 
 }
-- 
2.43.0


From a0b5645a5e8e151d629483ccab85adbc572e075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:12 +0000
Subject: [PATCH 59/62] fix: multi-solitons of fnft_nsev_inverse were NaN if
 all times are negative and far away from zero

---
 src/fnft_nsev_inverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 258f2f3..ef25a9d 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -730,6 +730,7 @@ static INT add_discrete_spectrum(
     }
     //Building time vector
     // zero-crossing point is used to improve numerical conditioning
+    zc_point = D; // in case that all times are negative
     j = 0; //Using j as flag to find zero-crossing
     for (i = 0; i < D; i++){
         t[i] = T[0] + eps_t*i;
-- 
2.43.0


From bef69fc9d7730b147aa6ede5890a28677e78a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:11 +0000
Subject: [PATCH 60/62] fix: fnft_nsev_inverse propagated the eigenfunctions of
 seed potentials incorrectly if lambda^2+|q|^2 vanished

---
 src/fnft_nsev_inverse.c | 52 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index ef25a9d..e13eb4a 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -948,30 +948,22 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[0])*CABS(q[0]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = 1; n < D; n++){
             //First half-step
-            if (ks != 0){
-                phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
-                phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
-            }
-            else{
-                phi1_ptr[n] = phi1_ptr[n-1];
-                phi2_ptr[n] = phi2_ptr[n-1];
-            }
+            phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
+            phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
             //Second half-step
             ks = (-(CABS(q[n])*CABS(q[n]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
-                tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
-                phi1_ptr[n] = tmp1;
-                phi2_ptr[n] = tmp2;
-            }
+            tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
+            tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
+            phi1_ptr[n] = tmp1;
+            phi2_ptr[n] = tmp2;
         }
     }
     // computing-psi
@@ -987,32 +979,24 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[D-1])*CABS(q[D-1]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = D-1; n > 0; n--){
             //First half-step
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
-                psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
-                psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
-            }
-            else{
-                psi1_ptr[n-1] = psi1_ptr[n];
-                psi2_ptr[n-1] = psi2_ptr[n];
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
+            psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
+            psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
             //Second half-step
             ks = (-(CABS(q[n-1])*CABS(q[n-1]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
-                tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
-                tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
-                psi1_ptr[n-1] = tmp1;
-                psi2_ptr[n-1] = tmp2;
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
+            tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
+            tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
+            psi1_ptr[n-1] = tmp1;
+            psi2_ptr[n-1] = tmp2;
         }
     }
     return ret_code;
-- 
2.43.0


From 7ff70300774e5e354e85dcf5c94b27d06a0a1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:28 +0000
Subject: [PATCH 61/62] fix: bound states in wide windows were not refined and
 their norming constants were NaN despite normalization

---
 src/private/fnft__akns_scatter.c | 49 +++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index bc23170..ed58165 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -94,6 +94,21 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
     }
 }
 
+// Computes exp(z). If normalization_flag is set, then the part of the amplitude
+// that is a power of two is not part of the result, but its exponent is added to
+// *W_ptr. This way, the result neither overflows nor underflows.
+static inline COMPLEX akns_scatter_scaled_exp(COMPLEX const z,
+                                              INT const normalization_flag,
+                                              INT * const W_ptr)
+{
+    REAL const log2_abs = CREAL(z)/LOG(2.0);
+    if (!normalization_flag || !(FABS(log2_abs) < 1e8))
+        return CEXP(z);
+    INT const v = ROUND(log2_abs);
+    *W_ptr += v;
+    return CEXP((log2_abs - v)*LOG(2.0) + I*CIMAG(z)); // exponent is between -LOG(2)/2 and LOG(2)/2
+}
+
 /**
  * If derivative_flag=0 returns [S11 S12 S21 S22] in result where
  * S = [S11, S12; S21, S22] is the scattering matrix computed using the
@@ -499,8 +514,6 @@ INT akns_scatter_bound_states(UINT const D,
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPSI, ret_code, leave_fun);
-        WPHI[0] = 0; // the initial conditions are not scaled
-        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
@@ -595,7 +608,9 @@ INT akns_scatter_bound_states(UINT const D,
         // accurate computation of b-coefficient.
         // Set initial condition for PHI in S basis:
         COMPLEX f_S[4];
-        f_S[0] = 1.0*CEXP(-I*l_curr*(T[0]-eps_t*boundary_coeff));
+        f_S[0] = akns_scatter_scaled_exp(-I*l_curr*(T[0]-eps_t*boundary_coeff), normalization_flag, &WPHI_acc);
+        if (WPHI != NULL)
+            WPHI[0] = WPHI_acc;
         f_S[1] = 0.0;
         f_S[2] = f_S[0]*(-I*(T[0]-eps_t*boundary_coeff));
         f_S[3] = 0.0;
@@ -701,7 +716,9 @@ INT akns_scatter_bound_states(UINT const D,
 
             // Set final condition for PSI in S basis:
             f_S[0] = 0.0;
-            f_S[1] = 1.0*CEXP(I*l_curr*(T[1]+eps_t*boundary_coeff));
+            f_S[1] = akns_scatter_scaled_exp(I*l_curr*(T[1]+eps_t*boundary_coeff), normalization_flag, &WPSI_acc);
+            if (WPSI != NULL)
+                WPSI[D_given] = WPSI_acc;
 
             // Fetch the change of basis matrix from S to the basis of the discretization
             derivative_flag = 0;
@@ -803,22 +820,14 @@ INT akns_scatter_bound_states(UINT const D,
 
         // Calculate the final state for PHI in E basis
         const COMPLEX exponent = I*l_curr*(T[1]+eps_t*boundary_coeff);
-        if (!normalization_flag) {
-            a_vals[neig] = f_S[0]*CEXP(exponent);
-            aprime_vals[neig] = f_S[2]*CEXP(exponent) + I*(T[1]+eps_t*boundary_coeff)*a_vals[neig];
-        } else {
-            const REAL l2 = LOG(2); // to mix powers of 2 and e
-            // We'll have to multiply with CEXP(exponent), which can drastically
-            // change the absolute values of the results. Therefore, we write the
-            // amplitude of that term as 2^u*2^v, with -1/2<=u<=1/2 and v integer,
-            // and we shift the 2^v part into the scaling factor 2^Ws.
-            const INT v = ROUND(CREAL(exponent)/l2);
-            const COMPLEX u = CREAL(exponent)/l2 - v; // between -1/2 and 1/2
-            a_vals[neig] = f_S[0] * CEXP(I*CIMAG(exponent) + u*l2);
-            Ws[neig] = v + WPHI_acc;
-            aprime_vals[neig] = f_S[2] + I*(T[1]+eps_t*boundary_coeff)*f_S[0];
-            aprime_vals[neig] *= CEXP(I*CIMAG(exponent) + u*l2);
-        }
+        // With normalization, the multiplication with CEXP(exponent) can
+        // drastically change the absolute values of the results. Its amplitude
+        // is therefore shifted into the scaling factor 2^Ws.
+        const COMPLEX scl = akns_scatter_scaled_exp(exponent, normalization_flag, &WPHI_acc);
+        a_vals[neig] = f_S[0]*scl;
+        aprime_vals[neig] = (f_S[2] + I*(T[1]+eps_t*boundary_coeff)*f_S[0])*scl;
+        if (normalization_flag)
+            Ws[neig] = WPHI_acc;
         if (PDE==akns_pde_KdV) {
             a_vals[neig] = CREAL(a_vals[neig]);
             aprime_vals[neig] = I * CIMAG(aprime_vals[neig]);
-- 
2.43.0


From 094f1f5100a3b573b8d9191967a53d9df14e3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:54 +0000
Subject: [PATCH 62/62] fix: norming constants were NaN or inaccurate if one
 component of the eigenfunctions vanished at every sample

---
 src/private/fnft__akns_scatter.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index ed58165..a4060fc 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -844,6 +844,8 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            REAL min_sine = INFINITY;
+            COMPLEX b_min_sine = NAN;
             b_vals[neig] = NAN; // in case that no sample is suitable
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
@@ -866,7 +868,24 @@ INT akns_scatter_bound_states(UINT const D,
                         error_metric = tmp;
                     }
                 }
+
+                // Find the sample at which phi and psi are closest to being
+                // parallel. There, b is the ratio of the larger components.
+                const UINT k = CABS(psi_S[0]) > CABS(psi_S[1]) ? 0 : 1;
+                const COMPLEX tan_phi = phi_S[1-k]/phi_S[k], tan_psi = psi_S[1-k]/psi_S[k];
+                tmp = CABS(tan_phi - tan_psi) / SQRT( (1 + CABS(tan_phi)*CABS(tan_phi))
+                                                    * (1 + CABS(tan_psi)*CABS(tan_psi)) );
+                if (tmp < min_sine) {
+                    b_min_sine = b_temp[k];
+                    min_sine = tmp;
+                }
             }
+
+            // The metric is not reliable if one of the components of phi and psi
+            // vanishes or consists of rounding errors at all samples, e.g. if there
+            // is only one non-zero sample.
+            if (!(error_metric < SQRT(EPSILON)) && min_sine < SQRT(EPSILON))
+                b_vals[neig] = b_min_sine;
         }
     }
 
-- 
2.43.0

