From 052ed1def02b07767fc59fb6bd949909f04ae1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:41 +0000
Subject: [PATCH 01/29] fix: preconditioned CG reported r'z instead of the
 residual norm for the starting point

---
 src/cgsolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..bd51684 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,8 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  nrm_r_sqrd = cblas_ddot(N, r, 1, r, 1);
+  best_rel_res = sqrt(nrm_r_sqrd / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From 2d205bbdbea1788a0c3d5372acd9092b53f57577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:08 +0000
Subject: [PATCH 02/29] fix: one-variable line search tests decrease against
 the objective at entry, as the two-variable one does

---
 src/linesearch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linesearch.c b/src/linesearch.c
index 99b1337..45ccc59 100644
--- a/src/linesearch.c
+++ b/src/linesearch.c
@@ -187,6 +187,7 @@ LSStat l1c_linesearch(l1c_int n,
   LSStat ls_stat = {.flin = 0, .step = 0, .status = 0};
   int iter = 0;
   double flin = 0.0, fx0_prime = 0.0;
+  double fx0_orig = *fx0;
 
   double step = ls_params.s;
 
@@ -207,7 +208,7 @@ LSStat l1c_linesearch(l1c_int n,
 
     /* need gradf'*dx
      */
-    flin = *fx0 + ls_params.alpha * step * g_dot_dx;
+    flin = fx0_orig + ls_params.alpha * step * g_dot_dx;
 
     if (fx0_prime <= flin) { /* Sufficient decrease test */
       cblas_dcopy(n, xp, 1, x, 1);
-- 
2.43.0


From 6455cda2189acd5f88e9b9d13947c583eb4c227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 03/29] fix: DCT set-up failure paths release what was acquired
 and never destroy stale plans

---
 src/dct1.c | 4 ++++
 src/dct2.c | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..8dc1d7a 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -101,6 +101,10 @@ int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* pix_mask_idx, l1c_AxFuns* ax_f
   fftw_plan_with_nthreads(n_thread);
 #endif
 
+  /* So that dct_destroy() never sees plans from an earlier setup. */
+  dct_plan_MtEty = NULL;
+  dct_plan_EMx = NULL;
+
   dct_Ety_sparse = l1c_calloc_double(m);
   dct_x = l1c_calloc_double(m);
   dct_y = l1c_calloc_double(m);
diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..101ddfd 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -125,6 +125,10 @@ int l1c_dct2_setup(
 #endif
 
   l1c_int i = 0;
+  /* So that dct2_destroy() never sees plans from an earlier setup. */
+  dct2_plan_MtEty = NULL;
+  dct2_plan_EMx = NULL;
+
   dct2_Ety_sparse = l1c_malloc_double(mrow * mcol);
   dct2_x = l1c_malloc_double(mrow * mcol);
   dct2_y = l1c_malloc_double(mrow * mcol);
@@ -188,7 +192,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
-- 
2.43.0


From 38f14d50f56cd4fe2f77a292126b1f299763783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 04/29] fix: dct_Mx gives its input back exactly
 (x*sqrt(2)/sqrt(2) is not x in floating point)

---
 src/dct1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dct1.c b/src/dct1.c
index 8dc1d7a..463552b 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -183,6 +183,7 @@ static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
 static void dct_Mx(double* x, double* y) {
   // double *x_ = __builtin_assume_aligned(x, DALIGN);
 
+  double x0_tmp = x[0];
   x[0] = x[0] * sqrt(2.0); // proper scaling
 
   fftw_execute_r2r(dct_plan_EMx, x, y);
@@ -191,7 +192,7 @@ static void dct_Mx(double* x, double* y) {
     y[i] = y[i] * dct_root_1_by_2N;
   }
 
-  x[0] = x[0] / sqrt(2.0); // undo scaling
+  x[0] = x0_tmp; // undo scaling
 }
 
 static void dct_Mty(double* y, double* x) {
-- 
2.43.0


From ec2c085e49b57c71f1bc8269fad635e4dd00cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:26 +0000
Subject: [PATCH 05/29] fix: dctTV work vector is initialized before it is
 handed to Rty

---
 src/dct_tv_transforms.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..46ea532 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -131,7 +131,8 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->m = _m;
   }
 
-  u = l1c_malloc_double(_p);
+  /* Rty() requires an initialized output, and u is used as one. */
+  u = l1c_calloc_double(_p);
 
   if (!u) {
     return L1C_OUT_OF_MEMORY;
-- 
2.43.0


From 7756f9d6c5d5fa67a9e5be4bd79cab838fd211f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 06/29] fix: dctTV transform set provides AtAx, which it left
 unset

---
 src/dct_tv_transforms.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 46ea532..285761b 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,8 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void AtAv(double* v, double* z);
+static void RtRx(double* x, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -31,6 +33,7 @@ static double _alp_v;
 
 static l1c_AxFuns ax_funs_local;
 static double* u;
+static double* Av_tmp; // length n, intermediate result of A^T * (A * v)
 static l1c_int _inc_TVH, _inc_TVV;
 static unsigned jobs;
 
@@ -134,8 +137,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   /* Rty() requires an initialized output, and u is used as one. */
   u = l1c_calloc_double(_p);
 
-  if (!u) {
-    return L1C_OUT_OF_MEMORY;
+  Av_tmp = l1c_calloc_double(n);
+
+  if (!u || !Av_tmp) {
+    status = L1C_OUT_OF_MEMORY;
+    goto fail;
   }
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
@@ -149,6 +155,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   if (bp_mode == synthesis) {
     ax_funs->Ax = Av;
     ax_funs->Aty = Aty;
+    ax_funs->AtAx = AtAv;
     ax_funs->Mx = Wv;
     ax_funs->Mty = Wtx;
     ax_funs->Wz = Identity;
@@ -158,6 +165,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Mty = Identity;
     ax_funs->Ax = Rx;
     ax_funs->Aty = Rty;
+    ax_funs->AtAx = RtRx;
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
@@ -168,12 +176,14 @@ int l1c_setup_dctTV_transforms(l1c_int n,
 
 fail:
   l1c_free_double(u);
+  l1c_free_double(Av_tmp);
   return status;
 }
 
 static void destroy() {
   ax_funs_local.destroy();
   l1c_free_double(u);
+  l1c_free_double(Av_tmp);
 }
 
 static void Identity(double* x, double* z) { cblas_dcopy(_m, x, 1, z, 1); }
@@ -239,6 +249,16 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+static void AtAv(double* v, double* z) {
+  Av(v, Av_tmp);
+  Aty(Av_tmp, z);
+}
+
+static void RtRx(double* x, double* z) {
+  Rx(x, Av_tmp);
+  Rty(Av_tmp, z);
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From bdee3712d338386624f3265a0fd3827359c0f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:31 +0000
Subject: [PATCH 07/29] fix: nesta takes the absolute value of all p dictionary
 coefficients before their maximum

---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..94e757b 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -301,7 +301,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
-- 
2.43.0


From aa2126ad056b6887ebf7402dfddf311c4f60d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:31 +0000
Subject: [PATCH 08/29] fix: l1c_nesta no longer prints a debug message on
 every call

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index 94e757b..c1bbbf6 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -371,7 +371,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From be0b9cda48d75a5987c6f13911b39e028c695ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:31 +0000
Subject: [PATCH 09/29] fix: l1c_nesta releases its problem when set-up fails
 and reports a failed window allocation

---
 src/nesta.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index c1bbbf6..491b180 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -45,7 +45,7 @@
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
   double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
 
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
+  for (int i = 0; fvals && i < L1C_NESTA_NMEAN; i++) {
     fvals[i] = 0.0;
   }
 
@@ -384,10 +384,15 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
-- 
2.43.0


From 2df7e5b97758378a245f4a664a515723ea01fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:31 +0000
Subject: [PATCH 10/29] fix: nesta does not hand a plainly malloced window to a
 routine that assumes 64-byte alignment

---
 src/nesta.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index 491b180..f4d7b1a 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -401,7 +401,9 @@ int l1c_nesta(l1c_int m,
     NP->tol_j = NP->tol_j * beta_tol;
 
     /* Reset everthing.*/
-    l1c_init_vec(L1C_NESTA_NMEAN, fbar_fifo.f_vals, 0);
+    for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
+      fbar_fifo.f_vals[i] = 0.0; /* from malloc: not aligned as l1c_init_vec assumes */
+    }
     fbar_fifo.next = fbar_fifo.f_vals;
     fbar_fifo.n_total = 0;
 
-- 
2.43.0


From e8b603aa15e7652a7d8fe7a2ea85e7eda793de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:20 +0000
Subject: [PATCH 11/29] fix: initialise the l1qc problem record before the
 first exit that releases it

When the allocation of u fails, l1c_l1qc_newton() jumps to its cleanup code,
which releases the arrays of a record that has not been set up yet and so
frees indeterminate pointers.
---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..5d094d5 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From 1a8b5811d429b0ef64d105ebdaddac4f3d497261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:42 +0000
Subject: [PATCH 12/29] fix: do not overrun the buffer when the length of a
 JSON file is unknown or exceeds an int

---
 src/json_utils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..e88bc9e 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -19,7 +19,7 @@ void print_vec(l1c_int N, double* x, char* name) {
 }
 
 int load_file_as_text(char* fname, char** file_data) {
-  int file_len;
+  long file_len;
   FILE* file_ptr;
 
   file_ptr = fopen(fname, "r"); /* Open in TEXT mode */
@@ -30,7 +30,12 @@ int load_file_as_text(char* fname, char** file_data) {
   }
 
   file_len = get_file_length(file_ptr);
-  *file_data = calloc(file_len + 1, sizeof(char));
+  if (file_len < 0) { /* e.g., a pipe */
+    fprintf(stderr, "Error: cannot determine the length of %s\n", fname);
+    fclose(file_ptr);
+    return 1;
+  }
+  *file_data = calloc((size_t)file_len + 1, sizeof(char));
 
   if (*file_data == NULL) {
     fprintf(stderr, "\nInsufficient memory to read file.\n");
-- 
2.43.0


From cc4509b1739131c403f06e159ccdc314c826093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:42 +0000
Subject: [PATCH 13/29] fix: release the text buffer when reading a file fails

---
 src/json_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index e88bc9e..85d81f0 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -50,6 +50,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From 27373b485f6d21514a4f75abd29a70a7bea8bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:42 +0000
Subject: [PATCH 14/29] fix: report files that do not hold valid JSON

---
 src/json_utils.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index 85d81f0..d928080 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -64,17 +64,17 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   *data_json = cJSON_Parse(file_data);
 
-  free(file_data);
-
-  if (data_json == NULL) {
-    const char* error_ptr = cJSON_GetErrorPtr();
+  int status = 0;
+  if (*data_json == NULL) {
+    const char* error_ptr = cJSON_GetErrorPtr(); /* points into file_data */
     if (error_ptr != NULL) {
       fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
     }
+    status = 1;
   }
 
-  return 0;
+  free(file_data);
+  return status;
 }
 
 int extract_json_int(cJSON* data_json, char* name, l1c_int* N) {
-- 
2.43.0


From 4c1c3c0a1dc6a3fda0e99492f8a513292133304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:10 +0000
Subject: [PATCH 15/29] fix: report exhausted memory when reading an int array

---
 src/json_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index d928080..3757361 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -166,6 +166,12 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x) {
+    status = 1;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From a60afdb5d667d905859a3fae9cad0664a94cdc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:47 +0000
Subject: [PATCH 16/29] fix: python: do not leak a reference to every result
 array and dictionary

---
 interfaces/python/l1cPy.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..c721f65 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,7 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +319,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return uk_out_npA;
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +460,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From b5bc919d2bf165797ab2ca7388ec3583030cfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:47 +0000
Subject: [PATCH 17/29] fix: python: release the transforms set up by
 _nesta_dctTV

---
 interfaces/python/l1cPy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index c721f65..cabe076 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -446,6 +446,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  ax_funs.destroy();
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
-- 
2.43.0


From 2ebca9c1e599134ad90fb656f832a46ec3637b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:47 +0000
Subject: [PATCH 18/29] fix: python: _breg_anistropic_TV leaked the input array
 when its buffers could not be allocated

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index cabe076..a97727f 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -298,7 +298,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From c0cae3fcea318d635a0f8932bab9ff85d9e81fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 19/29] fix: python: _nesta_dctTV returned the coefficients
 instead of the image in synthesis mode

---
 interfaces/python/l1cPy.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index a97727f..f6d96aa 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -333,7 +333,7 @@ fail1:
 
 static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   (void)self;
-  double *x_ours = NULL, *b = NULL, *b_ours = NULL;
+  double *x_ours = NULL, *b = NULL, *b_ours = NULL, *v_ours = NULL;
 
   PyObject *b_obj = NULL, *pix_idx_obj = NULL, *x_out_npA = NULL;
 
@@ -445,8 +445,18 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
     goto fail;
   }
 
-  status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  /* In synthesis mode, the unknown is the coefficient vector, not the image. */
+  v_ours = l1c_calloc_double(ax_funs.m);
+  if (!v_ours) {
+    ax_funs.destroy();
+    PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
+    goto fail;
+  }
+
+  status = l1c_nesta(ax_funs.m, v_ours, n, b_ours, ax_funs, opts);
+  ax_funs.Mx(v_ours, x_ours); // A straight copy in analysis mode
   ax_funs.destroy();
+  l1c_free_double(v_ours);
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
-- 
2.43.0


From 67e44aff6dbdfee36d202e6c5e87d50e0d89cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 20/29] fix: mex: refuse sparse and complex arrays instead of
 reading past their data

---
 interfaces/mex/l1c_mex_utils.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/interfaces/mex/l1c_mex_utils.c b/interfaces/mex/l1c_mex_utils.c
index 8556402..2232885 100644
--- a/interfaces/mex/l1c_mex_utils.c
+++ b/interfaces/mex/l1c_mex_utils.c
@@ -32,10 +32,20 @@ void _mex_assert_scalar_struct(const mxArray** mxa, size_t idx) {
   }
 }
 
+/* mxGetPr() of a sparse array holds only its nonzeros, and of a complex one only the
+   real part. */
+static void _mex_assert_full_real(const mxArray** mxa, size_t idx) {
+  if (mxIsSparse(mxa[idx]) || mxIsComplex(mxa[idx])) {
+    mexErrMsgIdAndTxt(
+        "l1c:notFullReal", "Argument %d must not be sparse or complex.", idx + 1);
+  }
+}
+
 void _mex_assert_double(const mxArray** mxa, size_t idx) {
   if (!mxIsDouble(mxa[idx])) {
     mexErrMsgIdAndTxt("l1c:notDouble", "Argument %d must be a double.", idx + 1);
   }
+  _mex_assert_full_real(mxa, idx);
 }
 
 void _mex_assert_double_scalar(const mxArray** mxa, size_t idx) {
@@ -149,6 +159,7 @@ void _mex_get_double_array_or_fail(const mxArray** mxa,
   if (!mxIsDouble(mxa[idx])) {
     mexErrMsgIdAndTxt("l1c:notDouble", "Input %d must be a double.", idx);
   }
+  _mex_assert_full_real(mxa, idx);
   _mex_assert_1darray(mxa, idx);
 
   nm = n * m;
-- 
2.43.0


From 3c7facd2a32990cf39637d68f6623c3be1d5af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 21/29] fix: mex: l1qc_dct returned uninitialised memory when
 the solver failed early

---
 interfaces/mex/l1qc_dct_mex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..45175ca 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -113,7 +113,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* We are going to change x, so we must allocate and make a copy, so we
      dont change data in Matlabs workspace.
   */
-  x_ours = l1c_malloc_double(mrow * mcol);
+  x_ours = l1c_calloc_double(mrow * mcol); /* Not written if l1qc_dct fails early. */
   pix_idx = calloc(n, sizeof(l1c_int));
   if (!x_ours || !pix_idx) {
     status = L1C_OUT_OF_MEMORY;
-- 
2.43.0


From 78cdac1e192bbb39a41c8ec0d12f510c142225f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 22/29] fix: mex: breg_anistropic_TV mixed up rows and columns
 of images that are not square

---
 interfaces/mex/breg_anistropic_TV_mex.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..10f01e0 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -43,7 +43,8 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* check that f is a matrix, at least 3 by 3. */
   _mex_assert_2Darray_with_size(prhs, 0, 3, 3);
 
-  /*Matlab give us column major order.*/
+  /* Matlab gives us column major order: what we see in memory is the transpose, M rows of
+     length N. */
   M = (l1c_int)mxGetN(prhs[0]);
   N = (l1c_int)mxGetM(prhs[0]);
   f = mxGetPr(prhs[0]);
@@ -63,13 +64,13 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
-- 
2.43.0


From 29c2d9ba280a43d225ea7a1831ba9a36b1447251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 23/29] fix: mex: breg_anistropic_TV leaked its buffers when
 raising and did not report failure

---
 interfaces/mex/breg_anistropic_TV_mex.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index 10f01e0..6d22d31 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -33,7 +33,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   double tol = 0, mu = 0;
   l1c_int i = 0, N = 0, M = 0;
   /*--- Defaults --- */
-  int max_iter = 1000, max_jac_iter = 1;
+  int max_iter = 1000, max_jac_iter = 1, status = 0;
 
   _mex_assert_num_outputs(nlhs, 1);
   _mex_assert_num_inputs(nrhs, 4);
@@ -60,13 +60,12 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
   if (!f_ours || !uk) {
-    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+    status = L1C_OUT_OF_MEMORY;
     goto exit;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
-  if (stat) {
-    plhs[0] = NULL;
+  status = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  if (status) {
     goto exit;
   }
   /* Prepare output data. */
@@ -82,4 +81,13 @@ exit:
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
+  /* mexErrMsgIdAndTxt does not return, so only call it once everything is released. */
+  if (status == L1C_OUT_OF_MEMORY) {
+    mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
+  } else if (status) {
+    mexErrMsgIdAndTxt("l1c:breg_anistropic_TV:failure",
+                      "breg_anistropic_TV failed with status %d.",
+                      status);
+  }
+
 } /* ------- mexFunction ends here ----- */
-- 
2.43.0


From bc644f02687b5b60fa9a3236e1623a67478165d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 24/29] fix: mex: nesta_dctTV mixed up rows and columns, and
 alpha_v and alpha_h

---
 interfaces/mex/nesta_dctTV_mex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..2737604 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -117,9 +117,11 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     }
     pix_idx[i] = idx;
   }
+  /* Matlab indexes in column major order: what we see is the transpose of the image, so
+     rows and columns, and with them the two directions, trade places. */
   l1c_AxFuns ax_funs;
   status |= l1c_setup_dctTV_transforms(
-      n, mrow, mcol, alp_v, alp_h, dct_mode, bp_mode, pix_idx, &ax_funs);
+      n, mcol, mrow, alp_h, alp_v, dct_mode, bp_mode, pix_idx, &ax_funs);
   if (status) {
     goto exit1;
   }
-- 
2.43.0


From f9068bac61b7ff6ea0c9b7f9a77a0453ca0323c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 25/29] fix: mex: nesta_dctTV always failed with TV in
 synthesis mode and took any dct_mode

---
 interfaces/mex/nesta_dctTV_mex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index 2737604..04e8031 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -61,6 +61,9 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   alp_v = _mex_get_double_from_struct_or_fail(prhs, 4, "alpha_v");
   alp_h = _mex_get_double_from_struct_or_fail(prhs, 4, "alpha_h");
   dct_mode = (DctMode)_mex_get_double_from_struct_or_fail(prhs, 4, "dct_mode");
+  if (dct_mode != dct1 && dct_mode != dct2) {
+    mexErrMsgIdAndTxt("l1c:badField", "Field 'dct_mode' of opts must be 1 or 2.");
+  }
   mxArray* mxA_mode = mxGetField(prhs[4], 0, "bp_mode");
   if (!mxA_mode) {
     mexErrMsgIdAndTxt("l1c:notAField", "Error loading field '%s'.", "mode");
@@ -135,7 +138,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   cblas_dcopy(n, b, 1, b_ours, 1);
 
-  status |= l1c_nesta(mtot, x0, n, b_ours, ax_funs, opts);
+  status |= l1c_nesta(ax_funs.m, x0, n, b_ours, ax_funs, opts);
 
   /* Prepare output data.
    */
-- 
2.43.0


From 82d5be13a9f8440abebb798580c9bb495eea04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:02 +0000
Subject: [PATCH 26/29] fix: mex: nesta_dctTV used memory it had not checked,
 leaked the transforms and wrote to an unaligned array

---
 interfaces/mex/nesta_dctTV_mex.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index 04e8031..9abc702 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -25,7 +25,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   l1c_NestaOpts opts = {.mu = 1e-5, .sigma = 1e-3, .tol = 1e-3, .n_continue = 5};
 
-  double *z_out = NULL, *b = NULL, *b_ours = NULL;
+  double *z_out = NULL, *z_ours = NULL, *b = NULL, *b_ours = NULL;
   double *pix_idx_double = NULL, *x0 = NULL;
   double alp_v = 0, alp_h = 0;
 
@@ -107,6 +107,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (!pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -129,11 +133,12 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit1;
   }
 
-  x0 = l1c_malloc_double(ax_funs.m);
+  x0 = l1c_calloc_double(ax_funs.m);
+  z_ours = l1c_malloc_double(mtot);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == z_ours || NULL == b_ours || NULL == x0) {
     status = L1C_OUT_OF_MEMORY;
-    goto exit1;
+    goto exit2;
   }
 
   cblas_dcopy(n, b, 1, b_ours, 1);
@@ -147,12 +152,16 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   z_out = mxGetPr(plhs[0]);
 
-  ax_funs.Mx(x0, z_out); // A straigt copy in analysis mode
+  /* Matlab does not align z_out on a DALIGN byte boundary. */
+  ax_funs.Mx(x0, z_ours); // A straigt copy in analysis mode
+  cblas_dcopy(mtot, z_ours, 1, z_out, 1);
 
+exit2:
   ax_funs.destroy();
 
 exit1:
   free(pix_idx);
+  l1c_free_double(z_ours);
   l1c_free_double(x0);
   l1c_free_double(b_ours);
 
-- 
2.43.0


From 0db8e02059c01f2a07c9d56d8a35203c2a665df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:38 +0000
Subject: [PATCH 27/29] fix: reject sizes whose product overflows an int in the
 set-up functions

---
 src/dct_transforms.c    |  6 ++++++
 src/dct_tv_transforms.c | 13 +++++++++++--
 src/l1qc_dct.c          |  3 ++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/dct_transforms.c b/src/dct_transforms.c
index cd8d858..5b51324 100644
--- a/src/dct_transforms.c
+++ b/src/dct_transforms.c
@@ -1,4 +1,6 @@
 #include "config.h"
+#include <limits.h>
+#include <stdint.h>
 #include "l1c.h"
 
 /* Helper Routines*/
@@ -49,6 +51,10 @@ int l1c_setup_dct_transforms(l1c_int n,
   if (n <= 0 || mrow <= 0 || mcol <= 0) {
     return L1C_INVALID_ARGUMENT;
   }
+  /* The transforms index the signal with an l1c_int. */
+  if ((int64_t)mrow * mcol > INT_MAX) {
+    return L1C_INVALID_ARGUMENT;
+  }
 
   if (check_pix_idx(n, pix_idx, mrow * mcol - 1)) {
     return L1C_INVALID_ARGUMENT;
diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 285761b..64c7943 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -1,5 +1,7 @@
 #include "TV.h"
 #include "config.h"
+#include <limits.h>
+#include <stdint.h>
 #include "l1c.h"
 #include <cblas.h>
 #include <math.h>
@@ -74,10 +76,9 @@ int l1c_setup_dctTV_transforms(l1c_int n,
                                l1c_AxFuns* ax_funs) {
   jobs = 0;
   int status = L1C_SUCCESS;
+  int n_blocks = 1;
   _mrow = mrow;
   _mcol = mcol;
-  _m = mrow * mcol;
-  _p = _m;
   _alp_v = alp_v;
   _alp_h = alp_h;
   _inc_TVV = 0;
@@ -91,6 +92,14 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     return L1C_INVALID_ARGUMENT;
   }
 
+  /* u holds one image for the dct, and one for each direction of TV. */
+  n_blocks = 1 + (alp_v > 0) + (alp_h > 0);
+  if ((int64_t)mrow * mcol > INT_MAX / n_blocks) {
+    return L1C_INVALID_ARGUMENT;
+  }
+  _m = mrow * mcol;
+  _p = _m;
+
   if (check_pix_idx(n, pix_idx, mrow * mcol - 1)) {
     return L1C_INVALID_ARGUMENT;
   }
diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..add2037 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -39,7 +39,7 @@ int l1qc_dct(int mrow,
   tv_start = l1c_get_time();
 
   int status = 0;
-  int mtot = mrow * mcol;
+  int mtot = 0;
   l1c_AxFuns ax_funs;
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, opts.dct_mode, pix_idx, &ax_funs);
@@ -50,6 +50,7 @@ int l1qc_dct(int mrow,
     goto exit0;
   }
 
+  mtot = mrow * mcol; // Known to be in range, now.
   /* l1c_l1qc_newton requires eta and b aligned to DALIGN.
      Pointer address from caller probably wont be properly aligned.  */
   double* eta_0 = l1c_calloc_double(mtot);
-- 
2.43.0


From 1fcfd8e77c28f690e89d51dfb3ef3b9d2dcb56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:38 +0000
Subject: [PATCH 28/29] fix: python binding: check that mrow * mcol fits an int

---
 interfaces/python/l1cPy.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index f6d96aa..2d3f74f 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -1,5 +1,7 @@
 #include "config.h"
 #include <cblas.h>
+#include <limits.h>
+#include <stdint.h>
 #include <stdlib.h>
 
 #include "l1c.h"
@@ -181,6 +183,11 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   /*--------------- Check Sizes ----------------- */
+  if (mrow <= 0 || mcol <= 0 || (int64_t)mrow * mcol > INT_MAX) {
+    PyErr_SetString(PyExc_ValueError,
+                    "mrow and mcol must be positive and mrow * mcol must fit an int.");
+    goto fail;
+  }
   mtot = mrow * mcol;
   n = PyArray_DIM(b_npA, 0);
   n_ = PyArray_DIM(pix_idx_npA, 0);
@@ -415,6 +422,11 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   /*--------------- Check Sizes ----------------- */
+  if (mrow <= 0 || mcol <= 0 || (int64_t)mrow * mcol > INT_MAX) {
+    PyErr_SetString(PyExc_ValueError,
+                    "mrow and mcol must be positive and mrow * mcol must fit an int.");
+    goto fail;
+  }
   mtot = mrow * mcol;
   n = PyArray_DIM(b_npA, 0);
   n_ = PyArray_DIM(pix_idx_npA, 0);
-- 
2.43.0


From c8f9630cd8bb1184a891fc68155e5d376e695e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:38 +0000
Subject: [PATCH 29/29] fix: mex bindings: check that mrow * mcol fits an int

---
 interfaces/mex/l1qc_dct_mex.c    | 6 ++++++
 interfaces/mex/nesta_dctTV_mex.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 45175ca..12da1ab 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -7,6 +7,8 @@
 #ifdef L1C_MEX_MATLAB
 #include "matrix.h"
 #endif
+#include <limits.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -59,6 +61,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   /* -------- Check mcol -------------*/
   mcol = (l1c_int)_mex_get_double_scalar_or_fail(prhs, 1);
+  if (mrow <= 0 || mcol <= 0 || (int64_t)mcol * mrow > INT_MAX) {
+    mexErrMsgIdAndTxt("l1c:incompatible_dimensions",
+                      "The sizes must be positive and their product must fit an int.");
+  }
   mtot = mcol * mrow;
 
   /* -------- Check b -------------*/
diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index 9abc702..105409c 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -1,6 +1,8 @@
 #include "config.h"
 #include <math.h>
 
+#include <limits.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -42,6 +44,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   mrow = (l1c_int)_mex_get_double_scalar_or_fail(prhs, 0);
   mcol = (l1c_int)_mex_get_double_scalar_or_fail(prhs, 1);
+  if (mrow <= 0 || mcol <= 0 || (int64_t)mcol * mrow > INT_MAX) {
+    mexErrMsgIdAndTxt("l1c:incompatible_dimensions",
+                      "The sizes must be positive and their product must fit an int.");
+  }
   mtot = mcol * mrow;
 
   /* -------- Check b -------------*/
-- 
2.43.0

