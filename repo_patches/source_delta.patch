From 7e06cd3de6c51104a651507c24b7ca567454f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 001/195] fix: column-major tril/triu_indices of a rectangular
 array swapped rows and columns

---
 pystatsm/utilities/indexing_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index 9a0a12e..f792a3d 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -78,8 +78,8 @@ def tril_indices(n, k=0, m=None, order='F'):
 
     """
     if order == 'F':
-        k = int(k * -1)
-        inds = np.triu_indices(n=n, k=k, m=m)[::-1]
+        k, m = int(k * -1), n if m is None else m
+        inds = np.triu_indices(n=m, k=k, m=n)[::-1]
     elif order == 'C':
         inds = np.tril_indices(n=n, k=k, m=m)
     return inds
@@ -112,8 +112,8 @@ def triu_indices(n, k=0, m=None, order='F'):
 
     """
     if order == 'F':
-        k = int(k * -1)
-        inds = np.tril_indices(n=n, k=k, m=m)[::-1]
+        k, m = int(k * -1), n if m is None else m
+        inds = np.tril_indices(n=m, k=k, m=n)[::-1]
     elif order == 'C':
         inds = np.triu_indices(n=n, k=k, m=m)
     return inds
-- 
2.43.0


From f88700d64c23d66d202a2aa62d2c9878ed013312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 002/195] fix: inv_tril_indices doubled the index of diagonal
 entries

---
 pystatsm/utilities/indexing_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index f792a3d..5cb71a7 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -88,7 +88,7 @@ def inv_tril_indices(n, k=0, m=None, order='F', indexing=0):
     arr = np.zeros((n, n), dtype=int)
     ij = tril_indices(n, k, m, order)
     arr[ij] = np.arange(indexing, indexing+len(ij[0]))
-    arr = arr + arr.T
+    arr = arr + arr.T - np.diag(np.diag(arr))
     return arr
 
 def triu_indices(n, k=0, m=None, order='F'):
-- 
2.43.0


From 0922f9c3d9721a600bd1b5ffa1a88a2eb2b87647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 003/195] fix: id_sp_kron used the column count of B as its row
 count

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..3b30660 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -253,7 +253,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -263,7 +263,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From a668bd4e7db6bca61c4870d0f18388749bcd926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 004/195] fix: bivariate normal cdf and pdf truncated to zero
 for integer arguments

---
 pystatsm/utilities/func_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3be3838..e59ad16 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -743,14 +743,14 @@ def _binorm_cdf_arr(h, k, r):
         The values of the bivariate normal CDF at the specified arrays of `h` 
         and `k` values, and the given correlation coefficient `r`.
     """
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     for ii in np.ndindex(*h.shape):
         res[ii] = binorm_cdf_jit(h[ii], k[ii], r)
     return res
 
 @numba.jit(nopython=True)
 def _binorm_pdf_arr(h, k, r):
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     """
     Calculate the bivariate normal probability density function for each element
     of the input arrays.
-- 
2.43.0


From 4a9f1cf377acbf700c4058b77c97ab38bc9479b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 005/195] fix: sum_preserving_round added one to every element
 when nothing was to be rounded up

---
 pystatsm/utilities/func_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index e59ad16..3433337 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -311,7 +311,7 @@ def sum_preserving_round(arr):
     arr_fract = arr - arr_floor
     arr_fract_sort = np.argsort(arr_fract)
     sum_diff = int(np.round(np.sum(arr) -  np.sum(arr_floor)))
-    ind = arr_fract_sort[-sum_diff:]
+    ind = arr_fract_sort[len(arr_fract_sort)-sum_diff:]
     arr_floor[ind] = arr_floor[ind] + 1
     return arr_floor
 
-- 
2.43.0


From 4d7366d83d56560d2b1705403fa73177f8b2f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 006/195] fix: allocate_from_proportions failed for a list of
 proportions

---
 pystatsm/utilities/func_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3433337..34e0cbd 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -414,7 +414,7 @@ def allocate_from_proportions(n, proportions):
 
     if np.abs(1.0 - np.sum(proportions)) > 1e-12:
         raise ValueError("Proportions Don't Sum to One")
-    k = proportions * n
+    k = np.asarray(proportions) * n
     k = sum_preserving_min(k, 1)
     k = sum_preserving_round(k).astype(int)
     slice_vals = sizes_to_slice_vals(k)
-- 
2.43.0


From 3a7fde883539012f7574b38d5feea3582a5fc027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 007/195] fix: extra arguments of jac_approx and hess_approx
 were unpacked twice

---
 pystatsm/utilities/numerical_derivs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index bb414ca..be7ebf7 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -192,7 +192,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 
 
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -240,7 +240,7 @@ def jac_approx2(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
     return A
 
 def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     
     X = np.asarray(X)
@@ -265,7 +265,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
@@ -288,7 +288,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X)
     Y = np.asarray(Func(X, *args))
-- 
2.43.0


From f5bb4f1aa972f32265d31d043a25e091f9cf06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 008/195] fix: hessian of LMM ignored reml=False

---
 pystatsm/pylmm/lmm.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 80eb4c1..a218efa 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -458,6 +458,9 @@ class LMM(object):
         ZtWX = Z.T.dot(WX)
         U = np.linalg.solve(XtWX, WX.T)
         ZtP = WZ.T - ZtWX.dot(np.linalg.solve(XtWX, WX.T))
+        # the trace terms involve P under REML but inv(V) under ML
+        ZtS = ZtP if reml else WZ.T.toarray()
+        ZtSZ = Z.T.dot(ZtS.T)
         ZtPZ = Z.T.dot(ZtP.T)
         Py = W.dot(y) - WX.dot(U.dot(y))
         ZtPy = Z.T.dot(Py)
@@ -468,13 +471,13 @@ class LMM(object):
         ix = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-            ZtPZi = ZtPZ[ind]
+            ZtSZi = ZtSZ[ind]
             ZtPyi = ZtPy[ind]
-            ZtPi = ZtP[ind]
+            ZtSi = ZtS[ind]
             for dGdi in self.random_effects.terms[i].G_deriv:
-                PJ.append(dGdi.dot(ZtPZi))
+                PJ.append(dGdi.dot(ZtSZi))
                 yPZJ.append(dGdi.dot(ZtPyi))
-                ZPJ.append((dGdi.dot(ZtPi)).T)
+                ZPJ.append((dGdi.dot(ZtSi)).T)
                 ix.append(ind)
 
         t_indices = list(zip(*np.triu_indices(len(self.theta)-1)))
@@ -486,13 +489,13 @@ class LMM(object):
                     + (2 * (yPZJi.T.dot(ZtPZij)).dot(JjZPy))[0]
             H[i, j] = H[j, i] = Hij
         dR = self.dR
-        dRZtP = (dR.dot(ZtP.T))
+        dRZtP = (dR.dot(ZtS.T))
         for i in range(len(self.theta)-1):
             yPZJi = yPZJ[i]
             ZPJi = ZPJ[i]
             ZtPPyi = ZtPPy[ix[i]]
             H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZPJi.T, dRZtP[:, ix[i]])
-        P = W - WX.dot(U)
+        P = W - WX.dot(U) if reml else W.toarray()
         H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", P, P)
         return H
 
-- 
2.43.0


From a8b245b576d7cafb6f0169a55bcec8fcb2a7c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 009/195] fix: LMM.loglike took the wrong pivot of a permuted
 sparse factor for y'Py

---
 pystatsm/pylmm/lmm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index a218efa..b84d014 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -158,14 +158,18 @@ class LMM(object):
         Ginv = self.update_gmat(theta, inverse=True)
         M = self.update_mme(Ginv, theta)
         if (M.nnz / np.prod(M.shape) < sparsity_threshold) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # the factor's rows are permuted, so border the X, Z block by hand
+            M = M.tocsc()
+            factor, XZy = cholesky(M[:-1, :-1]), M[:-1, -1].toarray()
+            ytPy = M[-1, -1] - np.sum(XZy * factor.solve_A(XZy))
+            logdetC = factor.slogdet()[1]
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = self.lndet_gmat(theta)
         logdetR = np.log(theta[-1]) * self.Z.shape[0]
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Q = Ginv + self.ZtZ / theta[-1]
-- 
2.43.0


From 86628882002096c9871b87dbb20b561cc7774353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 010/195] fix: LMM.pls ignored the permutation of the sparse
 factor

---
 pystatsm/pylmm/lmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index b84d014..e497c81 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -188,11 +188,11 @@ class LMM(object):
         ZtWy = ZtW.dot(Wy)
         LtZtW = (L.T.dot(ZtW)).tocsc()
         Lfactor = cholesky_AAt(LtZtW, beta=1)
-        cu    = Lfactor.solve_L(L.T.dot(ZtWy), use_LDLt_decomposition=False)
-        RZX   = Lfactor.solve_L(L.T.dot(ZtWX), use_LDLt_decomposition=False)
+        cu    = Lfactor.solve_L(Lfactor.apply_P(L.T.dot(ZtWy)), use_LDLt_decomposition=False)
+        RZX   = Lfactor.solve_L(Lfactor.apply_P(L.T.dot(ZtWX)), use_LDLt_decomposition=False)
         RXtRX = XtWX - RZX.T.dot(RZX)
         b = np.linalg.solve(RXtRX, XtWy - RZX.T.dot(cu))
-        v = Lfactor.solve_Lt(cu - RZX.dot(b), use_LDLt_decomposition=False)
+        v = Lfactor.apply_Pt(Lfactor.solve_Lt(cu - RZX.dot(b), use_LDLt_decomposition=False))
         u = L.dot(v)
         mu = X.dot(b) + Z.dot(u)
         wtres = W.dot(y - mu)
-- 
2.43.0


From 4f96f32ade1bc7f481354ac3b28256ee2dc4ef4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 011/195] fix: LMM standard errors of variance parameters
 always used the REML curvature

---
 pystatsm/pylmm/lmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index e497c81..cb18685 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -587,11 +587,11 @@ class LMM(object):
             re_corrs[i] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From bdb033207c0f52afc629766564df257aaed31206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:59 +0000
Subject: [PATCH 012/195] fix: LMM2 dropped mixed-model-equation entries that
 cancel exactly (e.g. centred balanced slopes)

---
 pystatsm/pylmm/re_mod.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..66f59a5 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,17 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _pad_pattern(A, B):
+    """A stored on the union of the sparsity patterns of A and B."""
+    a, b = A.tocoo(), B.tocoo()
+    C = sp.sparse.csc_array(
+        (np.r_[a.data, np.zeros(b.nnz)], (np.r_[a.row, b.row], np.r_[a.col, b.col])),
+        shape=A.shape)
+    C.sum_duplicates()
+    C.indptr, C.indices = C.indptr.astype(np.int32), C.indices.astype(np.int32)
+    return C
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,7 +666,7 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _pad_pattern(self.ZtRZ, self.G)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
@@ -663,7 +674,8 @@ class MMEBlocked(BaseMME):
         ZtR_dR_RZ = sp.sparse.csc_array.dot(ZtRdR, ZtR.T).tocsc()
 
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
-        ZtZ.sort_indices()
+        # exact cancellation must not drop entries that G fills in
+        ZtZ = _pad_pattern(ZtZ, self.G)
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From d3c3ce327002f02cf51bb2831e83bcc947fa640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 013/195] fix: sparse_dense_kron failed for a C-ordered dense
 factor

---
 pystatsm/utilities/python_wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 3b30660..8374064 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -269,6 +269,7 @@ def id_sp_kron_inplace(m, B, C):
 
 
 def sparse_dense_kron(A, B, out=None):
+    B = np.asfortranarray(B, dtype=np.double)
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Anz = A.nnz
@@ -322,6 +323,7 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     return out
 
 def sparse_dense_kron_inplace(A, B, C):
+    B = np.asfortranarray(B, dtype=np.double)
     Anr, Anc = A.shape
     Bnr, Bnc = B.shape
     Ap, Ai, Ax = A.indptr, A.indices, A.data
-- 
2.43.0


From fc4d4b0c49e81e886be77dde10f7d2ed10940373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:32 +0000
Subject: [PATCH 014/195] fix: gradient of LMM2 with related levels (storage
 pattern of the inverse, unsorted factor)

---
 pystatsm/pylmm/re_mod.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 66f59a5..d6e91c7 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -94,11 +94,13 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
+        # one pattern for both: the inverse is written into the same storage
+        return _pad_pattern(a_csc, a_inv), _pad_pattern(a_inv, a_csc)
     A = np.asarray(a_cov)
     L = np.linalg.cholesky(A)
     A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    A, A_inv = sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    return _pad_pattern(A, A_inv), _pad_pattern(A_inv, A)
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
@@ -211,8 +213,9 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk_t = (L_zz_sl if L_zz_sl is not None else L_zz[sl]).T.tocsc()
+        L_zz_blk_t.sort_indices()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
-- 
2.43.0


From f7be6c105c2ecb723b3ebc37840e6d5526da8d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 015/195] fix: Satterthwaite degrees of freedom of LMM2 were
 half their value

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index d6e91c7..404bf9e 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1320,7 +1320,7 @@ class LMM2(object):
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
             nu_d = np.array([D[i].dot(Vtheta).dot(D[i]) for i in range(q)])
-            nu_m = u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
+            nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
             nu = float(2.0 * E / (E - q)) if E > q else np.nan
-- 
2.43.0


From 2952e10c3d022e134bae6d2034e5f6111faa0e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 016/195] fix: approx_degfree of LMM2 used the fitted curvature
 at any theta

---
 pystatsm/pylmm/re_mod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 404bf9e..ad1bd27 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1298,11 +1298,12 @@ class LMM2(object):
                        method='satterthwaite', reml=True):
         n_fe = self.mme.n_fixef
         L_list = [np.eye(n_fe)[[i]] for i in range(n_fe)] if L_list is None else L_list
+        fitted = theta is None and hasattr(self, 'Hinv_theta')
         theta = self.theta if theta is None else theta
         beta = self.beta if beta is None else beta
         self._factor_C(theta)
         C = np.linalg.inv(self.vinvcrossprod(self.mme.X, self.mme.X, theta))
-        if hasattr(self, 'Hinv_theta'):
+        if fitted:
             Vtheta = self.Hinv_theta
         else:
             Vtheta = np.linalg.pinv(so_gc_cd(self.gradient, theta, args=(reml,)) / 2.0)
-- 
2.43.0


From 9ed0615a3626287c18fbe3f5eb3e64f1dd198b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 017/195] fix: random_effects_se of LMM2 used the fitted
 fixed-effect covariance at any theta

---
 pystatsm/pylmm/re_mod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index ad1bd27..282bd4f 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1211,7 +1211,8 @@ class LMM2(object):
         self._factor_C(theta)
         ZtRX = self.mme.ZtRXy[:, :-1]
         M_X = self.mme.chol_fac.solve_A(ZtRX)
-        T_xx_inv = self.XtVinvX_inv
+        T_xx = self.mme.XytRXy[:-1, :-1] - ZtRX.T.dot(M_X)
+        T_xx_inv = np.linalg.inv(T_xx)
         var_x = np.einsum('ik,kl,il->i', M_X, T_xx_inv, M_X, optimize=True)
 
         if not full:
-- 
2.43.0


From 61b388f33ae81f5bd64e4b1299a221229cfb9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 018/195] fix: PowerLink.d2inv_link has the wrong sign

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..2418c36 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -293,7 +293,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..c8ab435 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -372,7 +372,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From e0ee9055c1ba4e931f695cf456d3e640ac67e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 019/195] fix: even derivatives of the negative binomial link
 have the wrong sign

---
 pystatsm/pyglm/links.py  | 4 ++--
 pystatsm/pyglm2/links.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 2418c36..c5e3a09 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -399,7 +399,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -411,7 +411,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index c8ab435..f7f1f82 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -486,7 +486,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -498,7 +498,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
-- 
2.43.0


From 7ac32adcef3b3f69293c7afad66d559b69fa5cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 020/195] fix: probit inverse link fails for scalar predictors

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index c5e3a09..dbc405c 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -116,7 +116,7 @@ class ProbitLink(Link):
         
     def inv_link(self, eta):
         mu = sp.stats.norm.cdf(eta, loc=0, scale=1)
-        mu[mu==1.0]-=1e-16
+        mu = mu - 1e-16 * (mu == 1.0)
         return mu
     
     def dinv_link(self, eta):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index f7f1f82..1a20c9c 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -162,7 +162,7 @@ class ProbitLink(Link):
     @staticmethod
     def inv_link(eta):
         mu = sp.special.ndtr(eta)
-        mu[mu==1.0]-=1e-16
+        mu = mu - 1e-16 * (mu == 1.0)
         return mu
     
     @staticmethod
-- 
2.43.0


From d2c4997082e576678024e1bbdb52ed63c5bf6ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 021/195] fix: fourth derivative of the probit link calls a
 function that does not exist

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index dbc405c..d0ba44d 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -148,7 +148,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 1a20c9c..e6aa4d1 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -201,7 +201,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From 66ef8a82e67094f3ccf5f84bd57d8aad1640af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 022/195] fix: static IdentityLink.dinv_link takes a self
 argument

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index e6aa4d1..e9c843a 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
-- 
2.43.0


From 7e222e9b69c53a37c5c0ff903cf6d6e1765a0395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 023/195] fix: full Gaussian log likelihood fails with default
 weights

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..7db93dd 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -251,7 +251,7 @@ class Gaussian(ExponentialFamily):
         ll = ll / 2.0
         return ll
 
-    def _full_loglike(self, y, mu, weights=None, phi=1.0, dispersion=1.0):
+    def _full_loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll = self._loglike(y, mu, weights, phi, dispersion)
         llf = ll + LN2PI / 2.0
         return llf
-- 
2.43.0


From a0b0cca426b2124817a2abc4a3608ab07e345b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 024/195] fix: expected information weight applies the weights
 twice

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 7db93dd..7b74c64 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From bae22cbdb5c9477698e3d530370fa662692a2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 025/195] fix: working weight derivatives call methods that do
 not exist

---
 pystatsm/pyglm2/families.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 7b74c64..8ac24ee 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
@@ -175,7 +175,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -184,7 +183,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -197,7 +195,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -207,7 +204,6 @@ class ExponentialFamily(metaclass=ABCMeta):
         return res
 
     def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From e6340747eb00bde91c12f29db89371f7b27b4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 026/195] fix: pearson_resid ignores its weights argument

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..fff572d 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
-- 
2.43.0


From 3f17d4df4aba36292bf9381d4a8fb24655f049f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 027/195] fix: signed_resid ignores its weights argument

---
 pystatsm/pyglm/families.py  | 2 +-
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index fff572d..8dbc63c 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -98,7 +98,7 @@ class ExponentialFamily(object):
     def signed_resid(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         y, mu = self.cshape(y, mu)
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8ac24ee..92d4156 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -116,7 +116,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         return chi2
 
     def signed_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
-- 
2.43.0


From cbdd2c5bba8a7a4842cff3e826d89cd86e0d0a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 028/195] fix: canonical parameter of the inverse Gaussian
 disagrees with its mean function

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8dbc63c..d6bd042 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -351,7 +351,7 @@ class InverseGaussian(ExponentialFamily):
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -1.0 / (2.0 * np.power(mu, 2.0))
         return T
 
     def cumulant(self, T, dispersion=1.0):
@@ -368,7 +368,7 @@ class InverseGaussian(ExponentialFamily):
         return V
 
     def d2canonical(self, mu, dispersion=1.0):
-        res = 3.0 / (np.power(mu, 4))
+        res = -3.0 / (np.power(mu, 4))
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
-- 
2.43.0


From 3c06dfd86be218e71d7ba2fe16e33e54f8299f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 029/195] fix: negative binomial mean and cumulant functions
 disagree with the canonical parameter

---
 pystatsm/pyglm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index d6bd042..6dc0a39 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -572,12 +572,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
 
     def cumulant(self, T, dispersion=1.0):
-        b = (-1.0 / dispersion) * np.log(1 - dispersion * np.exp(T))
+        b = (-1.0 / dispersion) * np.log(1 - np.exp(T))
         return b
 
     def mean_func(self, T, dispersion=1.0):
         u = np.exp(T)
-        mu = -1.0 / dispersion * (u / (1 - u))
+        mu = 1.0 / dispersion * (u / (1 - u))
         return mu
 
     def var_func(self, T=None, mu=None, eta=None, dispersion=1.0):
-- 
2.43.0


From e5496bf79f64109de8e76c7f406de8ef48e31060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 030/195] fix: second derivative of the Gaussian canonical
 parameter is zero

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 6dc0a39..7d57644 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -269,7 +269,7 @@ class Gaussian(ExponentialFamily):
         return V
     
     def d2canonical(self, mu, dispersion=1.0):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
-- 
2.43.0


From 03dd369f43e03cbff234c178da04e9a124a2e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 031/195] fix: inverse Gaussian draws and quantiles have the
 wrong mean and dispersion

---
 pystatsm/pyglm/families.py  | 4 ++--
 pystatsm/pyglm2/families.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 7d57644..fd9026f 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -425,10 +425,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu*phi, scale=1.0/phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 92d4156..4980632 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -408,10 +408,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0/phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu*phi, scale=1.0/phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
-- 
2.43.0


From efd920ee5b5caf8f429cbc107b0f7c1361b187fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 032/195] fix: Poisson quantiles pass a scale to a discrete
 distribution

---
 pystatsm/pyglm/families.py  | 2 +-
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index fd9026f..45fa2aa 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -758,7 +758,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 4980632..c2dd345 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -704,7 +704,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
-- 
2.43.0


From 7be5750f8d4c26b38e1db6896d4ef3feffd722d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 033/195] fix: curvature of the inverse Gaussian scale term has
 the wrong sign

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index c2dd345..2ee70b9 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -404,7 +404,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From 482c3e3b26b214b5b92b03856c3d1c73fe391ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 034/195] fix: equality constraints for fixed parameters all
 bind the last one

---
 pystatsm/pyglm/linear_model.py      | 6 +++---
 pystatsm/pyglm2/likelihood_model.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..7918be4 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -238,9 +238,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.flatnonzero(fixed_indices)
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -282,7 +282,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..fc297a0 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -233,9 +233,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.flatnonzero(fixed_indices)
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -277,7 +277,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From 3dd9a808bd382afff4751d8c8d3744faf9bfa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 035/195] fix: adjusted pseudo R-squared reward extra
 parameters

---
 pystatsm/pyglm/linear_model.py      | 2 +-
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 7918be4..6a20ef0 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -191,7 +191,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         llr = 2.0 * (ll_null - ll_model)
         return r2_cs, r2_nk, r2_mc, r2_mb, llr
 
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index fc297a0..6c03ee4 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params + ll_model) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From c2952aeb531b1f3f7e9c616812e388a6d1af9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 036/195] fix: models given a Series response have no column
 labels and cannot be built

---
 pystatsm/pyglm/linear_model.py      | 2 ++
 pystatsm/pyglm2/regression_model.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 6a20ef0..85cb26b 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -629,6 +629,8 @@ class ModelData(object):
                 self.design_info.append(design_info)
             else:  # pd.Series
                 self.names.append(data.name)
+                self.columns.append(pd.Index([data.name]))
+                self.design_info.append(None)
                 self.data.append(data.to_numpy().reshape(-1, 1))
         else:  # numpy array
             self.design_info.append(None)
diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index a4e9e36..51e3265 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -92,6 +92,8 @@ class ModelData(object):
                 self.design_info.append(design_info)
             else:  # pd.Series
                 self.names.append(data.name)
+                self.columns.append(pd.Index([data.name]))
+                self.design_info.append(None)
                 self.data.append(data.to_numpy().reshape(-1, 1))
         else:  # numpy array
             self.design_info.append(None)
-- 
2.43.0


From f316e1bf8cd7ea375b1d46977ca005dc3828a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 037/195] fix: dropping missing rows fails on a flattened
 response

---
 pystatsm/pyglm2/regression_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index 51e3265..4ef5209 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -215,7 +215,8 @@ class ModelData(object):
         Drop rows containing nan values from the data arrays.
         """
         # Find rows with nan values
-        nan_rows = np.any([np.isnan(arr).any(axis=1) for arr in self.data], axis=0)
+        nan_rows = np.any([np.isnan(arr).reshape(len(arr), -1).any(axis=1)
+                           for arr in self.data], axis=0)
     
         # Remove rows with nan values from data arrays
         for i, arr in enumerate(self.data):
-- 
2.43.0


From 7189e859ede07715b920b053876b09d8ed824557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:06 +0000
Subject: [PATCH 038/195] fix: OLS rejects Series and single column DataFrame
 responses

---
 pystatsm/pyglm/ols.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index cb34e74..e12d05a 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -24,6 +24,8 @@ class OLS:
             ycols, yinds = y.columns, y.index
             X, y = X.values, y.values[:, 0]
         elif X is not None and y is not None:
+            X = X.to_frame() if isinstance(X, pd.Series) else X
+            y = y.to_frame() if isinstance(y, pd.Series) else y
             if type(X) not in [pd.DataFrame, pd.Series]:
                 xcols = [f'x{i}' for i in range(1, X.shape[1]+1)]
                 xinds = np.arange(X.shape[0])
@@ -35,7 +37,7 @@ class OLS:
                 yinds = np.arange(y.shape[0])
             else:
                  ycols, yinds = y.columns, y.index
-                 y = y.values
+                 y = y.values[:, 0]
         
         if X.ndim==1:
             X = X[:, None]
-- 
2.43.0


From 802a0fc3812d2ea5e8bf3d9641d14493bcb10f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 039/195] fix: multivariate regression cannot be fitted to a
 one dimensional response

---
 pystatsm/pyglm2/mvols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/mvols.py b/pystatsm/pyglm2/mvols.py
index 5c78655..1b8c331 100644
--- a/pystatsm/pyglm2/mvols.py
+++ b/pystatsm/pyglm2/mvols.py
@@ -251,7 +251,7 @@ class MVOLS(RegressionMixin, LikelihoodModel):
         self.xcols, self.ycols = self.model_data.columns
         self.X, self.Y, self.weights = self.model_data
         if self.Y.ndim == 1:
-            self.Y = self.Y.reshape(-1, 1)
+            self.Y = self.model_data.data[-1] = self.Y.reshape(-1, 1)
         self.n = self.n_obs = self.X.shape[0]
         self.p = self.n_var = self.X.shape[1]
         self.q = self.Y.shape[1]
-- 
2.43.0


From f9049cb985b18413dd37cb2209b481cd656e4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 040/195] fix: moment estimate of the scale ignores prior
 weights in the objective and covariance

---
 pystatsm/pyglm/linear_model.py | 3 ++-
 pystatsm/pyglm2/glm.py         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 85cb26b..3505ed5 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1528,7 +1528,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
         
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion,
+                                 weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..980ec1b 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -135,7 +135,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
 
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion,
+                                 weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
-- 
2.43.0


From 03aa4b629b98c373331ce7e07d1cd08c2fba180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 041/195] fix: leverages and residuals of weighted fits ignore
 the weights

---
 pystatsm/pyglm/linear_model.py | 12 ++++++++----
 pystatsm/pyglm2/glm.py         | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 3505ed5..bcdd2f5 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1716,13 +1716,17 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                   weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                            weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                            weights=weights)
+        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                            weights=weights)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
         self.resid_pearson_sst = self.resid_pearson_s / np.sqrt(1 - h)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 980ec1b..ba1e657 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -325,13 +325,17 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                   weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                            weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                            weights=weights)
+        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                            weights=weights)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
         self.resid_pearson_sst = self.resid_pearson_s / np.sqrt(1 - h)
-- 
2.43.0


From 0e4a0e4a5325b7c2845e94639beed3f2b0b5bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 042/195] fix: negative binomial cross derivative ignores the
 weights

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index bcdd2f5..fb1ec95 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1609,7 +1609,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index ba1e657..fa0083f 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -216,7 +216,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
-- 
2.43.0


From 474012dbcda2df09efc81cc859125aa93a5393dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 043/195] fix: null negative binomial model ignores weights and
 needs an estimated dispersion

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index fb1ec95..70fa110 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1764,7 +1764,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, None))
+                n_params - self.p + 1), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index fa0083f..7771293 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -373,7 +373,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, 1.0))
+                n_params - self.p + 1), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
-- 
2.43.0


From abbbe0dde095e552509b9de2fc6b73ff5e236b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 044/195] fix: null model of weighted fits uses the unweighted
 mean

---
 pystatsm/pyglm/linear_model.py | 4 +++-
 pystatsm/pyglm2/glm.py         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 70fa110..d1b3b2c 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1769,7 +1769,9 @@ class GLM(RegressionMixin, LikelihoodModel):
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(
+                    y, weights=np.broadcast_to(weights, y.shape)),
+                phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 7771293..8eab40e 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -378,7 +378,9 @@ class GLM(RegressionMixin, LikelihoodModel):
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(
+                    y, weights=np.broadcast_to(weights, y.shape)),
+                phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From a2465a83cb9419b4ffdfd4474cc7b3941f72987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 045/195] fix: prediction intervals use the variance of the
 linear predictor as its standard error

---
 pystatsm/pyglm/linear_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index d1b3b2c..985ac32 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1829,7 +1829,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         res = {}
         eta = np.dot(X, coefs)
         if linpred_se or mean_ci:
-            eta_se = wdiag_outer_prod(X, coefs_cov, X)
+            eta_se = np.sqrt(wdiag_outer_prod(X, coefs_cov, X))
 
         if mean or mean_ci or predicted_ci:
             mu = f.inv_link(eta)
-- 
2.43.0


From ccf0cbe7bff0dad78b7312c3042085496757039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 046/195] fix: predicted intervals pass quantile functions an
 argument they do not have

---
 pystatsm/pyglm/linear_model.py | 11 ++++++++---
 pystatsm/pyglm2/glm.py         | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 985ac32..6fe429f 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1852,11 +1852,16 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
+            if f.name == "NegativeBinomial":
+                ppf_kws = dict(dispersion=dispersion)
+            elif f.name in ["Binomial", "Poisson"]:
+                ppf_kws = {}
+            else:
+                ppf_kws = dict(phi=phi)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, **ppf_kws)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, **ppf_kws)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 8eab40e..45459a0 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -468,11 +468,16 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
+            if f.name == "NegativeBinomial":
+                ppf_kws = dict(dispersion=dispersion)
+            elif f.name in ["Binomial", "Poisson"]:
+                ppf_kws = {}
+            else:
+                ppf_kws = dict(phi=phi)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, **ppf_kws)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, **ppf_kws)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-- 
2.43.0


From 2bf6cefab910a5cce27f6989e8caa9fdff5bffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 047/195] fix: robust errors, jackknife and bootstrap of
 weighted fits ignore the weights

---
 pystatsm/pyglm/linear_model.py | 10 +++-------
 pystatsm/pyglm2/glm.py         | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 6fe429f..69825fa 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1809,7 +1809,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -1865,10 +1865,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.broadcast_to(self.weights, self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -1898,8 +1895,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.broadcast_to(self.weights, n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot) if verbose else None
         boot_samples = np.zeros((n_boot, q))
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 45459a0..89197c2 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -425,7 +425,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -481,10 +481,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.broadcast_to(self.weights, self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -514,8 +511,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.broadcast_to(self.weights, n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
         boot_samples = np.zeros((n_boot, q))
-- 
2.43.0


From f53ec92b2ee284ee75c88bba076087738748cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 048/195] fix: prior weights stored in the family are ignored
 by the objective

---
 pystatsm/pyglm/linear_model.py | 2 ++
 pystatsm/pyglm2/glm.py         | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 69825fa..eaa0f72 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1489,6 +1489,8 @@ class GLM(RegressionMixin, LikelihoodModel):
                 pass
 
         self.f = family
+        if weights is None:
+            self.weights = self.model_data.weights = np.ones(self.n) * family.weights
         self.param_labels = list(self.xcols)
         self.beta_init, self.phi_init = self.get_start_values()
         self.params_init = self.beta_init
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 89197c2..c4752dc 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -76,7 +76,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         Scale estimator method.
     """
     def __init__(self, formula=None, data=None, X=None, y=None,
-                 family=Gaussian, scale_estimator="M", weights=1.0, *args,
+                 family=Gaussian, scale_estimator="M", weights=None, *args,
                  **kwargs):
         super().__init__(formula=formula, data=data, X=X, y=y, weights=weights, 
                          *args, **kwargs)
@@ -96,6 +96,8 @@ class GLM(RegressionMixin, LikelihoodModel):
                 pass
 
         self.f = family
+        if weights is None:
+            self.weights = self.model_data.weights = np.ones(self.n) * family.weights
         self.param_labels = list(self.xcols)
         self.beta_init, self.phi_init = self.get_start_values()
         self.params_init = self.beta_init
-- 
2.43.0


From 52faf2fb8fbe088e145be13e1210d80749a6a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 049/195] fix: one-step jackknife applies the working weights
 twice

---
 pystatsm/pyglm/linear_model.py | 4 ++--
 pystatsm/pyglm2/glm.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index eaa0f72..ed96462 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1805,7 +1805,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -1885,7 +1885,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index c4752dc..b49b62a 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -421,7 +421,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -501,7 +501,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
-- 
2.43.0


From 55f05a4b75b8b1030bc48f73a96a7d748d3a1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 050/195] fix: AIC counts each parameter once and adjusted
 McFadden rewards parameters

---
 pystatsm/pyglm/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8406d24..7e98a1b 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -278,7 +278,7 @@ class GLM:
         k = len(params)
         N = self.X.shape[0]
         sumstats = {}
-        sumstats['aic'] = 2*llf + k
+        sumstats['aic'] = 2*llf + 2*k
         sumstats['aicc'] = 2*llf + (2 * k * N) / (N - k - 1)
         sumstats['bic'] = 2*llf + np.log(N)*k
         sumstats['caic'] = 2*llf + k*(np.log(N) + 1.0)
@@ -292,7 +292,7 @@ class GLM:
         LLR = 2*(lln - llf)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] = 1 - self.LLA / self.LL0
-        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA - k) / self.LL0
+        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA + 2*k) / self.LL0
         sumstats['PseudoR2_MFA'] =  (LLR) / (LLR + N)
         
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
-- 
2.43.0


From bc49b18e9d5dcac9e26c00a66aefeceb5b1b46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 051/195] fix: GLM hessian with estimated scale ignores the
 data it is given

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 7e98a1b..4c3c028 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -155,7 +155,7 @@ class GLM:
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params)[:-1])
+            dbdt = -np.atleast_2d(self.gradient(params, X, Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
-- 
2.43.0


From b9e6e07cd9dcd13a94174e733c2af535f12f8a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 052/195] fix: GLM cannot start gamma and inverse gaussian fits
 of one dimensional responses

---
 pystatsm/pyglm/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 4c3c028..3b1f011 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -60,7 +60,8 @@ class GLM:
             else:
                 mu0 = self.Y
             nu, gp, vmu = self.f.link(mu0), self.f.dlink(mu0), self.f.var_func(mu=mu0)
-            w = 1 / (vmu[:, None] * gp**2)
+            nu, gp, vmu = (np.reshape(a, (-1, 1)) for a in (nu, gp, vmu))
+            w = 1 / (vmu * gp**2)
             b0 = np.linalg.solve((self.X * w).T.dot(self.X), (self.X * w).T.dot(nu))
             self.theta_init = _check_shape(b0, 1)
         
-- 
2.43.0


From 01c25711a50b960bc70d3acfdfc214288b39efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 053/195] fix: null model of weighted GLM uses the unweighted
 mean

---
 pystatsm/pyglm/glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 3b1f011..b0be3b3 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -272,7 +272,9 @@ class GLM:
         self.phi = phi
         
         llf = self.f.full_loglike(y, mu=mu, phi=phi)
-        lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*y.mean(), 
+        lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*np.average(
+                                      y, weights=np.broadcast_to(
+                                          np.ravel(self.f.weights), y.shape)),
                                   phi=phi)
         self.LLA = llf*2.0
         self.LL0 = lln*2.0
-- 
2.43.0


From 5c80d03a4cfc1c5083dced64424e65e96b7451e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 054/195] fix: full likelihood of column responses sums over
 all pairs of rows

---
 pystatsm/pyglm/families.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 45fa2aa..db2154f 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -448,7 +448,7 @@ class Gamma(ExponentialFamily):
 
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         ll = self._loglike(y, eta, mu, T, phi, dispersion, weights)
-        llf = ll + np.log(y)
+        llf = ll + np.log(_check_shape(_check_np(y), 1))
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
@@ -563,7 +563,7 @@ class NegativeBinomial(ExponentialFamily):
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         weights = self.weights if weights is None else weights
         ll = self._loglike(y, eta, mu, T, phi, dispersion, weights)
-        llf = ll + weights / 1.0 * loggamma(y + 1.0)
+        llf = ll + weights / 1.0 * loggamma(_check_shape(_check_np(y), 1) + 1.0)
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
@@ -695,7 +695,7 @@ class Poisson(ExponentialFamily):
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         weights = self.weights if weights is None else weights
         ll = self._loglike(y, eta, mu, T, phi, dispersion, weights)
-        llf = ll + weights / phi * sp.special.gammaln(y+1)
+        llf = ll + weights / phi * sp.special.gammaln(_check_shape(_check_np(y), 1)+1)
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-- 
2.43.0


From 0f51fc4a79766af47cd8ba0c43a074fa6f1742e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 055/195] fix: one-step jackknife moves the wrong way for
 decreasing links

---
 pystatsm/pyglm/linear_model.py | 2 ++
 pystatsm/pyglm2/glm.py         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index ed96462..f52ee8b 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1887,6 +1887,8 @@ class GLM(RegressionMixin, LikelihoodModel):
                                weights=weights).reshape(-1, 1)
             WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
+            # the working residual has the sign of the link's derivative
+            WX = WX * np.sign(self.f.dlink(self.mu)).reshape(-1, 1)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index b49b62a..e41b83f 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -503,6 +503,8 @@ class GLM(RegressionMixin, LikelihoodModel):
                                weights=weights).reshape(-1, 1)
             WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
+            # the working residual has the sign of the link's derivative
+            WX = WX * np.sign(self.f.dlink(self.mu)).reshape(-1, 1)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
-- 
2.43.0


From 7f602f6f51472797f1096c8fd24a47c5f2b5cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 056/195] fix: fits with moment scale stop away from the
 optimum

---
 pystatsm/pyglm/glm.py          | 23 +++++++++++++++++++----
 pystatsm/pyglm/linear_model.py |  2 ++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index b0be3b3..e8b0d38 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -6,6 +6,7 @@ Created on Sun Oct  4 19:23:32 2020
 @author: lukepinkel
 """
 
+import contextlib
 import tqdm
 import patsy  # analysis:ignore
 import numpy as np # analysis:ignore
@@ -125,6 +126,18 @@ class GLM:
             tau = np.log(phi)
         return mu, phi, tau
     
+    @contextlib.contextmanager
+    def _unit_scale(self):
+        # the moment estimate of the scale changes with the coefficients but
+        # does not enter their estimating equations
+        scale_handling = self.scale_handling
+        if scale_handling == 'M':
+            self.scale_handling = 'fixed'
+        try:
+            yield
+        finally:
+            self.scale_handling = scale_handling
+
     def loglike(self, params, X=None, Y=None):
         params, X, Y = self._check_mats(params, X, Y)
         mu, phi, _ = self._handle_scale(params, X, Y)
@@ -174,9 +187,10 @@ class GLM:
         default_kws = dict(method='trust-constr', options=dict(verbose=0, gtol=1e-6, xtol=1e-6))
         opt_kws = {**default_kws, **opt_kws}
 
-        optimizer = sp.optimize.minimize(self.loglike, t_init, args=(X, Y),
-                                         jac=self.gradient, hess=self.hessian, 
-                                         **opt_kws)
+        with self._unit_scale():
+            optimizer = sp.optimize.minimize(self.loglike, t_init, args=(X, Y),
+                                             jac=self.gradient, hess=self.hessian, 
+                                             **opt_kws)
         return optimizer
     
     def _fit_estimating_equations(self, theta_init=None, n_iters=500, tol=1e-12, X=None, Y=None):
@@ -251,7 +265,8 @@ class GLM:
             params = res.x
         elif method == "mn":
             opt_kws = {} if opt_kws is None else opt_kws
-            params, res = self._fit_manual(**opt_kws)
+            with self._unit_scale():
+                params, res = self._fit_manual(**opt_kws)
         elif method == "ee":
             opt_kws = {} if opt_kws is None else opt_kws
             params, res = self._fit_estimating_equations(**opt_kws)
diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index f52ee8b..85f8240 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1634,6 +1634,8 @@ class GLM(RegressionMixin, LikelihoodModel):
         t_init = self.params_init if t_init is None else t_init
         data = self.model_data if data is None else data #(self.X, self.y, None) if data is None else data
         s = self.scale_estimator if s is None else s
+        if s == "M":
+            s = "fixed"
         f = self.f if f is None else f
         opt_kws = {} if opt_kws is None else opt_kws
         default_kws = dict(method='trust-constr',
-- 
2.43.0


From bc3b7828ffdcea1ca5ceb6c7bb3053cabdddc8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 057/195] fix: constrain every pair of adjacent thresholds

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..9da9f53 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -31,7 +31,7 @@ class CLM:
         self.W = np.ones(self.X.shape[0])
         self.constraints = [dict(zip(
                 ['type', 'fun'], 
-                ['ineq', lambda params: params[i+1]-params[i]])) 
+                ['ineq', lambda params, *args, i=i: params[i+1]-params[i]])) 
                 for i in range(self.n_cats-2)]
         self.A1, self.A2 = self.Y[:, :-1], self.Y[:, 1:]
         self.o1, self.o2 = self.Y[:, -1]*30e1, self.Y[:, 0]*-10e5
-- 
2.43.0


From 0294b8cdd6c807e17cbfd4450ea9bd24852d40e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 058/195] fix: likelihood ratio test of the cumulative link
 model

---
 pystatsm/pyglm/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 9da9f53..15b2699 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -152,11 +152,11 @@ class CLM:
     def _summarystats(self, paramsf, paramsr):
         LLf = self.loglike(paramsf)
         LL0 = self.loglike(paramsr, self.B1_intercept, self.B2_intercept)
-        degfree_f = len(paramsf)
-        degfree_r = len(paramsr)
-        degfree_llr = degfree_f - degfree_r
+        # an intercept is absorbed by the thresholds
+        intercept = np.ones((self.X.shape[0], 1))
+        degfree_llr = np.linalg.matrix_rank(np.hstack([intercept, self.X])) - 1
         chi2_dist = sp.stats.chi2(degfree_llr)
-        LLR = LL0 - LLf
+        LLR = 2.0 * (LL0 - LLf)
         LLR_pvalue = chi2_dist.sf(LLR)
         n, p = self.X.shape
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
-- 
2.43.0


From 99e787bbab59a74eb46de2c0aad54abec36ccca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 059/195] fix: sign of the penalty in the adjusted McFadden R2
 of the cumulative link model

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 15b2699..33f9bb3 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -162,7 +162,7 @@ class CLM:
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
         r2_coxsnell = 1 - np.exp(2.0/n*(LLf - LL0))
         r2_mcfadden = 1 - LLf / LL0
-        r2_mcfadden_adj = 1 - (LLf-p) / LL0
+        r2_mcfadden_adj = 1 - (LLf+p) / LL0
         r2_nagelkerke = r2_coxsnell / rmax
         
         statistic = dict(LLR=LLR, 
-- 
2.43.0


From 7bafa70055328bb1e791867e078cde7e75cbaad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 060/195] fix: weights in the Hessian of the cumulative link
 model

---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From 50f13f3771986347b4a8fb1a17043a594a2f00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 061/195] fix: fit a beta regression given as arrays

---
 pystatsm/pyglm/betareg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index e2f043c..ee20563 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -148,7 +148,7 @@ class BetaReg:
         se = np.sqrt(np.diag(np.linalg.inv(H)))
         theta = opt.x
         res = pd.DataFrame(np.vstack((theta, se, theta/se)).T, columns=['param', 'SE', 't'])
-        res.index = self.xcols.tolist() + self.zcols.tolist()
+        res.index = list(self.xcols) + list(self.zcols)
         res['p'] = sp.stats.t(df=self.n_obs-self.n_xvar-self.n_zvar).sf(np.abs(res['t']))*2.0
         self.res = res
         self.theta = theta
-- 
2.43.0


From 281234952a2225cabcb08019ac55a72cfa2a1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 062/195] fix: information criteria of the beta regression from
 its negative log likelihood

---
 pystatsm/pyglm/betareg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index ee20563..cd28397 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -167,10 +167,10 @@ class BetaReg:
         k = len(self.theta)
         N = self.n_obs
         sumstats = {}
-        sumstats['aic'] = -2.0*self.llf + k
-        sumstats['aicc'] = -2*self.llf + (2 * k * N) / (N - k - 1)
-        sumstats['bic'] = -2*self.llf + np.log(N)*k
-        sumstats['caic'] = -2*self.llf + k*(np.log(N) + 1.0)
+        sumstats['aic'] = 2.0*self.llf + 2.0*k
+        sumstats['aicc'] = 2*self.llf + (2 * k * N) / (N - k - 1)
+        sumstats['bic'] = 2*self.llf + np.log(N)*k
+        sumstats['caic'] = 2*self.llf + k*(np.log(N) + 1.0)
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-- 
2.43.0


From dc7d3957917606074df1622e1cd47a12bed87822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 063/195] fix: pseudo R2 of the beta regression

---
 pystatsm/pyglm/betareg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index cd28397..eb29775 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -174,11 +174,11 @@ class BetaReg:
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-        rmax = 1-np.exp(2.0 / N *self.lln)
+        rmax = 1-np.exp(-2.0 / N *self.lln)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
-        sumstats['PseudoR2_MCF'] = 1 - self.lln / self.llf
-        sumstats['PseudoR2_MCFA'] = 1 - (self.lln - k) / (self.llf)
-        sumstats['PseudoR2_MFA'] = 1 - (self.llr) / (self.llr + N)
+        sumstats['PseudoR2_MCF'] = 1 - self.llf / self.lln
+        sumstats['PseudoR2_MCFA'] = 1 - (self.llf + k) / (self.lln)
+        sumstats['PseudoR2_MFA'] = (self.llr) / (self.llr + N)
         self.sumstats = sumstats
     
     def predict(self, theta=None, X=None, Z=None):
-- 
2.43.0


From 73942ec316b15bfb2796d20f4d81e93fbe745b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 064/195] fix: residual degrees of freedom of the negative
 binomial model

---
 pystatsm/pyglm/nb2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index f843d93..0511242 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -124,7 +124,7 @@ class NegativeBinomial(object):
                                            self.params/self.se_params)).T,
                                 columns=['param', 'SE', 't'])
         self.res.index = self.xcols.tolist() + ['variance']
-        nu = self.X.shape[0]-2
+        nu = self.X.shape[0]-len(self.params)
         self.res['p'] = sp.stats.t(nu).sf(np.abs(self.res['t'])) * 2.0
         self.LLR = 2.0*(self.ll_full - self.ll_null)
         self.BIC = (np.log(self.n_obs) * len(self.params) - 2 * self.ll_full)
-- 
2.43.0


From 98f9e5f96def95853c6a43195e376181be5628fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 065/195] fix: predict from a fitted negative binomial model

---
 pystatsm/pyglm/nb2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index 0511242..deafbc8 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -164,6 +164,7 @@ class NegativeBinomial(object):
         if X is None:
             X = self.X
         if b is None:
+            params = self.params if params is None else params
             b = params[:-1]
         mu_hat = np.exp(X.dot(b))
         return mu_hat
-- 
2.43.0


From 5c3c4515b940ed64f3529bbec95ffb20c08c6350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 066/195] fix: log factorial of the zero inflated Poisson

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 2da5216..70631d2 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -50,7 +50,7 @@ class ZIP:
         self.X0, self.X1 = self.X[self.ix0], self.X[self.ix1]
         self.y0, self.y1 = self.y[self.ix0], self.y[self.ix1]
         self.Z0, self.Z1 = self.Z[self.ix0], self.Z[self.ix1]
-        self._llc = sp.special.gammaln(self.y1)
+        self._llc = sp.special.gammaln(self.y1 + 1.0)
     
     def _check_params(self, params, X):
         b, a = params[:X.shape[1]], params[X.shape[1]:]
-- 
2.43.0


From 4b85ffca885db50280790a9f75b90a0047a518d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 067/195] fix: residual degrees of freedom of the zero inflated
 Poisson

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 70631d2..9f39b7f 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -175,7 +175,7 @@ class ZIP:
         self.params = self.opt.x
         self.se_params = np.diag(np.linalg.inv(self.hessian(self.params)))**0.5
         t = self.params / self.se_params
-        p = sp.stats.t(self.n_params).sf(np.abs(t))*2.0
+        p = sp.stats.t(self.n_obs - self.n_params).sf(np.abs(t))*2.0
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
-- 
2.43.0


From 76c087876bd20f0ece44ef6dfb2c92bb71970da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 068/195] fix: label the coefficients of a zero inflated
 Poisson given as frames

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 9f39b7f..cfa8743 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -179,7 +179,7 @@ class ZIP:
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
-        res.index = self.xcols+self.zcols
+        res.index = list(self.xcols) + list(self.zcols)
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-- 
2.43.0


From 10a9df92e7403fee6fc7b807ad679437b827bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 069/195] fix: AICc of the zero inflated Poisson

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index cfa8743..7602a36 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -183,7 +183,7 @@ class ZIP:
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-        self.aicc = self.aic + (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
+        self.aicc = self.aic + 2.0 * (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
         self.yhat, self.yhvar = self.predict(self.params)
         self.resids = self.y - self.yhat
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
-- 
2.43.0


From 6527bf9bd32ba675c42352b5522eb40f5679dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 070/195] fix: pseudo R2 of the zero inflated Poisson

---
 pystatsm/pyglm/zimodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 7602a36..e84a453 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -189,11 +189,11 @@ class ZIP:
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
         sumstats = dict(AIC=self.aic, AICc=self.aicc, BIC=self.bic, LLR=self.ll_ratio,
                         LLRp=self.ll_rpval)
-        sumstats['PseudoR2_CS'] = 1 - np.exp(1.0/ self.n_obs * (self.ll_null - self.ll_model))
-        rmax = 1-np.exp(1.0 / self.n_obs *(self.ll_null))
+        sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/ self.n_obs * (self.ll_null - self.ll_model))
+        rmax = 1-np.exp(2.0 / self.n_obs *(self.ll_null))
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] =  1.0 - self.ll_model / self.ll_null
-        sumstats['PseudoR2_MCFA'] = 1.0 - (-self.ll_model - self.n_params) / -self.ll_null
+        sumstats['PseudoR2_MCFA'] = 1.0 - (self.ll_model - self.n_params) / self.ll_null
         sumstats['PseudoR2_MFA'] = (self.ll_ratio) / (self.ll_ratio + self.n_obs)
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
 
-- 
2.43.0


From 20ae46a03b17ae1f90516059f2db013e7ebc3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 071/195] fix: log factorial of the zero inflated Poisson
 (pyglm2)

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..00058d9 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -58,7 +58,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ll[ix] = -w[ix] * np.log(mu2[ix] + (1 - mu2[ix]) * np.exp(-mu1[ix]))
         ix = ~ix
         ll[ix] = -w[ix] * (np.log(1 - mu2[ix]) + y[ix] * np.log(mu1[ix]) \
-                          - mu1[ix] - sp.special.gammaln(y[ix]))
+                          - mu1[ix] - sp.special.gammaln(y[ix] + 1.0))
         return ll
     
     def loglike_i(self, params, data=None, link=None, zero_link=None):
@@ -79,7 +79,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ix = ~ix
         ll = ll + np.sum(-w[ix] * (np.log(1 - omega[ix]) \
                          + y[ix] * np.log(lambd[ix]) - lambd[ix]\
-                         - sp.special.gammaln(y[ix])))
+                         - sp.special.gammaln(y[ix] + 1.0)))
 
         return ll
     
-- 
2.43.0


From e33f28cdc901c4b30cedc155d30d1f415686ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 072/195] fix: weights in the gradient of the zero inflated
 Poisson

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 00058d9..d76c652 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From d5d163611bc8b33ffff2860f851700c56e2afaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 073/195] fix: zero inflated models from arrays

---
 pystatsm/pyglm2/zinf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d76c652..c096cb7 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -41,8 +41,8 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         self.q = self.model_data.data[1].shape[1]
         self.X, self.Z, self.y, self.weights = self.model_data
         self.params_init = np.zeros(self.p+self.q)
-        poiss_labels = [("Poiss",x) for x in self.model_data.columns[0].to_list()]
-        binom_labels = [("Binom",x) for x in self.model_data.columns[1].to_list()]
+        poiss_labels = [("Poiss",x) for x in list(self.model_data.columns[0])]
+        binom_labels = [("Binom",x) for x in list(self.model_data.columns[1])]
         labels = poiss_labels + binom_labels
         labels = pd.MultiIndex.from_tuples(labels, names=["ModelComponent", "Parameter"])
         self.param_labels = labels#[f"beta{i}" for i in range(1, self.p+1)]+[f"gamma{i}" for i in range(1, self.q+1)]
@@ -490,8 +490,8 @@ class ZeroInflatedModel(RegressionMixin, LikelihoodModel):
            self.n_params += 1
        
         self.params_init = np.zeros(self.n_params)
-        labels = [(self.f.name,x) for x in self.model_data.columns[0].to_list()]
-        labels.extend([("Binom",x) for x in self.model_data.columns[1].to_list()])
+        labels = [(self.f.name,x) for x in list(self.model_data.columns[0])]
+        labels.extend([("Binom",x) for x in list(self.model_data.columns[1])])
         if self.has_scale:
             labels.append((self.f.name, "Scale"))
         labels = pd.MultiIndex.from_tuples(labels, names=["ModelComponent", "Parameter"])
-- 
2.43.0


From 991f5dc4e3c4e336850e27362ffdaabbb621b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 074/195] fix: import the family class used by the zero
 inflated negative binomial

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index c096cb7..ca16918 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From 6fb89a1fc683f4518b50fd009e8e1644de66d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 075/195] fix: outcome of the beta regression given as a series
 or one-column frame

---
 pystatsm/pyglm/betareg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index eb29775..5c563ef 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -50,8 +50,8 @@ class BetaReg:
                 ycols = ['y']
                 yinds = np.arange(y.shape[0])
             else:
-                 ycols, yinds = y.columns, y.index
-                 y = y.values
+                 ycols, yinds = getattr(y, "columns", [getattr(y, "name", None)]), y.index
+                 y = y.values.reshape(-1)
         
         self.X, self.Z, self.y = X, Z, y
         self.xcols, self.zcols, self.ycols = xcols, zcols, ycols
-- 
2.43.0


From 1c76bd8268d87eda6462c7a028f4d0dbd8d50696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 076/195] fix: log likelihood by observation of the zero
 inflated negative binomial

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index ca16918..4c47839 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -568,7 +568,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         ix = y==0
         ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
         ix = ~ix
-        ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
+        ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
         return ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
-- 
2.43.0


From dab0030c5f2c38b2ffffb1183341453fe486fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 077/195] fix: dispersion in the predictive intervals of the
 zero inflated negative binomial

---
 pystatsm/pyglm2/zinf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 4c47839..3fdf1da 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -1089,11 +1089,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
                               ]).T
         if predicted_ci:
              predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-             v = f.variance(mu=mu1, phi=1.0, dispersion=k)
              res["predicted_lower_ci"] = f.ppf(
-                 1-predicted_ci_level, mu=mu1, dispersion=v)
+                 1-predicted_ci_level, mu=mu1, dispersion=k)
              res["predicted_upper_ci"] = f.ppf(
-                 predicted_ci_level, mu=mu1, dispersion=v)
+                 predicted_ci_level, mu=mu1, dispersion=k)
         return res  
 
     def predict(self, X=None, Z=None, params=None, params_cov=None, **kws):
-- 
2.43.0


From bf6b6891d226ad476c7fd4c2bd6dce115642e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 078/195] fix: frequency weights in the zero inflated negative
 binomial

---
 pystatsm/pyglm2/zinf.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 3fdf1da..5489c22 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -560,7 +560,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
                          **kwargs) 
     @staticmethod
     def _loglike_i(params, data, link, f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         coefs, k = params[:-1], np.exp(params[-1])
         eta1, eta2 = X.dot(coefs[:X.shape[1]]), Z.dot(coefs[X.shape[1]:])
         mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
@@ -569,7 +570,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
         ix = ~ix
         ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
-        return ll
+        return weights * ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
         data = self.model_data if data is None else data 
@@ -580,7 +581,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     
     @staticmethod
     def _loglike(params, data, link, f):
-      X, Z, y, w = data
+      X, Z, y, weights = data
+      w = np.ones(len(y))
       coefs, k = params[:-1], np.exp(params[-1])
       eta1, eta2 = X.dot(coefs[:X.shape[1]]), Z.dot(coefs[X.shape[1]:])
       mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
@@ -589,7 +591,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
       ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
       ix = ~ix
       ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
-      return np.sum(ll)
+      return np.sum(weights * ll)
     
     def loglike(self, params, data=None, link=None, f=None):
         data = self.model_data if data is None else data 
@@ -601,7 +603,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
 
     @staticmethod
     def _gradient(params, data, link, f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         # Compute lambda_lp, omega_lp, lambd, and omega
@@ -647,6 +650,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         d1[i] = link.dinv_link(eta2[i]) / (x5 - 1.0)
         d2[i] = -x4 * x6 * (-x2 * x8 + x3 * x7 + x3 * x9)
                                
+        d0, d1, d2 = weights * d0, weights * d1, weights * d2
         g1 = np.dot(X.T, d0)
         g2 = np.dot(Z.T, d1)
         g3 = np.sum(d2)
@@ -665,7 +669,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     
     @staticmethod
     def _gradient_i(params, data, link, f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         # Compute lambda_lp, omega_lp, lambd, and omega
@@ -741,6 +746,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         d2[i] += w[i]*x4*sp.special.polygamma(0, x6) + x0*x2*x3*x6*x8 - \
                 x5*np.log(x7) - x5*sp.special.polygamma(0, x5) - y[i]
                                        
+        d0, d1, d2 = weights * d0, weights * d1, weights * d2
         g1 = d0.reshape(-1, 1) * X
         g2 = d1.reshape(-1, 1) * Z
         g3 = d2.reshape(-1, 1)
@@ -758,7 +764,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         
     @staticmethod
     def _hessian_i(params, data, link,f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         eta1 = X.dot(coefs[:p])  
@@ -837,7 +844,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = weights * (h0 + h1)
       
         h00 = np.einsum("ij,ik->ijk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->ijk", Z*h[[1]].T, X)
@@ -868,7 +875,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         return g
     @staticmethod
     def _hessian(params, data, link,f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         eta1 = X.dot(coefs[:p])  
@@ -947,7 +955,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = weights * (h0 + h1)
       
         h00 = np.einsum("ij,ik->jk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->jk", Z*h[[1]].T, X)
-- 
2.43.0


From b3efb3ae9e7e3de611917140a6bb00c7689cbfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 079/195] fix: keep the transformed values when a combined
 transform's ranges are not in order

---
 pystatsm/utilities/param_transforms.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pystatsm/utilities/param_transforms.py b/pystatsm/utilities/param_transforms.py
index e3d497b..3d4bd6b 100644
--- a/pystatsm/utilities/param_transforms.py
+++ b/pystatsm/utilities/param_transforms.py
@@ -119,19 +119,14 @@ class CombinedTransform(ParameterTransformBase):
     def _apply_transform(self, params, method_name):
         input_len = params.shape[-1]
         if method_name in ('_fwd', '_rvs'):
-            result = np.zeros_like(params)
+            # parameters outside of every range keep their value
+            result = np.array(params)
         elif method_name in ('_jac_fwd', '_jac_rvs'):
             result = np.eye(input_len)
         elif method_name in ('_hess_fwd', '_hess_rvs'):
             result = np.zeros((input_len, input_len, input_len))
 
-        prev_stop = 0
         for (start, stop), transform in zip(self.index_ranges, self.transforms):
-            # Apply the identity transform for the range between the previous stop and the current start
-            if prev_stop < start:
-                if method_name in ('_fwd', '_rvs'):
-                    result[..., prev_stop:start] = params[..., prev_stop:start]
-
             method = getattr(transform, method_name)
             sliced_params = params[..., start:stop]
             transformed_slice = method(sliced_params)
@@ -143,13 +138,6 @@ class CombinedTransform(ParameterTransformBase):
             elif method_name in ('_hess_fwd', '_hess_rvs'):
                 result[..., start:stop, start:stop, start:stop] = transformed_slice
 
-            prev_stop = stop
-
-        # Apply the identity transform for the remaining range after the last stop
-        if prev_stop < input_len:
-            if method_name in ('_fwd', '_rvs'):
-                result[..., prev_stop:] = params[..., prev_stop:]
-
         return result
 
     def _fwd(self, params):
-- 
2.43.0


From ebc1d6ba19158a81e5177e9cba1e4789a76b4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 080/195] fix: use the proportion of bootstrap samples below
 the estimate in the BCa bias correction

---
 pystatsm/utilities/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/output.py b/pystatsm/utilities/output.py
index 50f6938..b99830e 100644
--- a/pystatsm/utilities/output.py
+++ b/pystatsm/utilities/output.py
@@ -86,7 +86,7 @@ def compute_bias_corrected_bootstrap_intervals(params, jack_samples, boot_sample
     jack_samples = np.asarray(jack_samples)
     boot_samples = np.asarray(boot_samples)
 
-    z0 = sp.special.ndtri(np.mean(params < boot_samples, axis=0)).reshape(-1, 1)
+    z0 = sp.special.ndtri(np.mean(boot_samples < params, axis=0)).reshape(-1, 1)
     jack_mean = np.mean(jack_samples, axis=0)
     d = jack_mean - jack_samples
     d2 = d * d
-- 
2.43.0


From 5d2ff76a786973da54739761d1e0397c005506fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 081/195] fix: permutation test from stored samples compares
 absolute statistics

---
 pystatsm/pyglm/ols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index e12d05a..d2a19cf 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -220,8 +220,8 @@ class OLS:
         L, Linv, X, y = self.L, self.Linv, self.X, self.y
         if store_samples:
             t_samples = self._permutation_test_store(n_perms, L, Linv, X, y, verbose)
-            abst = t_samples
-            p_values_fwer = (abst.max(axis=1)>np.abs(self.tvalues)).sum(axis=0)/n_perms
+            abst = np.abs(t_samples)
+            p_values_fwer = (abst.max(axis=1)[:, None]>np.abs(self.tvalues)).sum(axis=0)/n_perms
             p_values = (abst > np.abs(self.tvalues)).sum(axis=0) / n_perms
         else:
             p_values_fwer, p_values =  self._permutation_test(n_perms, L, Linv, X, y, verbose)
-- 
2.43.0


From 8a0e06333ac64caba34708c600ca299e6585f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 082/195] fix: linear model permutation test: statistics of the
 fit and the permuted response's own residual variance

---
 pystatsm/pyglm/linear_model.py | 5 +++--
 pystatsm/pyglm2/ols.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 85f8240..17d5fd7 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1381,7 +1381,6 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -1390,6 +1389,8 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         L = np.linalg.cholesky(G)
         Linv = np.linalg.inv(L)
         Ginv = np.diag(np.dot(Linv.T, Linv))
+        tvalues = self.beta / (self.scale_unbiased * np.sqrt(Ginv))
+        abst = np.abs(tvalues[vars_of_interest])
         Xc = X[:, ixc]
         
         Gc = G[ixc][:, ixc]
@@ -1403,7 +1404,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..2a5e8f5 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -503,7 +503,6 @@ class OLS(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -512,6 +511,8 @@ class OLS(RegressionMixin, LikelihoodModel):
         L = np.linalg.cholesky(G)
         Linv = np.linalg.inv(L)
         Ginv = np.diag(np.dot(Linv.T, Linv))
+        tvalues = self.beta / (self.scale_unbiased * np.sqrt(Ginv))
+        abst = np.abs(tvalues[vars_of_interest])
         Xc = X[:, ixc]
         
         Gc = G[ixc][:, ixc]
@@ -525,7 +526,7 @@ class OLS(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From 41e531704ec17c71cae60328d89e9d581dea70e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 083/195] fix: allow a quiet GLM bootstrap

---
 pystatsm/pyglm/linear_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 17d5fd7..076e612 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1910,7 +1910,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             ii = rng.choice(n, size=n, replace=True)
             opt = self._optimize(data=(X[ii], y[ii], w[ii]), f=self.f)
             boot_samples[i] = opt.x
-            pbar.update(1)
+            if verbose:
+                pbar.update(1)
         if verbose:
             pbar.close()
         boot_samples = pd.DataFrame(boot_samples,columns=self.param_labels)
-- 
2.43.0


From 399c9ee2c6d764845289ab5142b3af8f027e2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 084/195] fix: restore the response after the negative binomial
 bootstrap

---
 pystatsm/pyglm/nb2.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index deafbc8..05db455 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -171,13 +171,11 @@ class NegativeBinomial(object):
     
     def bootstrap(self, n_boot=2000, opt_kws={}):
         default_opt_kws = dict(gtol=1e-4, xtol=1e-4, verbose=0)
-        for key, val in default_opt_kws.items():
-            if key not in opt_kws.keys():
-                opt_kws[key] = val
+        opt_kws = {**default_opt_kws, **opt_kws}
         self.fit()
         t_init = self.params.copy()
         beta_samples = np.zeros((n_boot, len(t_init)))
-        X, Y = self.X.copy(), self.Y.copy()
+        X, Y, y = self.X.copy(), self.Y.copy(), self.y
         n = self.X.shape[0]
         ix = np.random.choice(n, n)
         
@@ -195,7 +193,7 @@ class NegativeBinomial(object):
             pbar.update(1)
         pbar.close()
         self.beta_samples = beta_samples
-        self.X, self.Y = X, Y
+        self.X, self.Y, self.y = X, Y, y
         samples_df = pd.DataFrame(self.beta_samples, columns=self.res.index)
         boot_res = samples_df.agg(["mean", "std", "min"]).T
         boot_res["pct1.0%"] = sp.stats.scoreatpercentile(beta_samples, 1.0, axis=0)
-- 
2.43.0


From ca4769189c829db99bb4e86ba885f6596df8f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 085/195] fix: count only the observed stratum and PSU
 combinations of categorical labels

---
 pystatsm/utilities/complexdesign/sample_design.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index da9d63b..000245d 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -46,16 +46,16 @@ def _ensure_columns(df, strata, psuind):
 
 
 def _has_singletons(df, strata, psuind):
-    sizes = df.groupby([strata, psuind]).size()
-    return bool((sizes.groupby(strata).size() == 1).any())
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    return bool((sizes.groupby(strata, observed=True).size() == 1).any())
 
 
 def _aggregate_singletons(df, strata, psuind):
     # Each stratum that has exactly one PSU gets folded into a single new
     # stratum, with its sole PSU re-numbered 0..k-1 to guarantee no collision
     # with existing PSU ids in the new stratum.
-    sizes = df.groupby([strata, psuind]).size()
-    n_psu_per_str = sizes.groupby(strata).size()
+    sizes = df.groupby([strata, psuind], observed=True).size()
+    n_psu_per_str = sizes.groupby(strata, observed=True).size()
     singletons = n_psu_per_str[n_psu_per_str == 1].index
     if len(singletons) == 0:
         return df
@@ -69,8 +69,8 @@ def _aggregate_singletons(df, strata, psuind):
 
 
 def _build_layout(df, strata, psuind, fpc):
-    sizes = df.groupby([strata, psuind]).size().reset_index(name="n")
-    n_psu_per_str = sizes.groupby(strata).size().to_numpy(dtype=np.int64)
+    sizes = df.groupby([strata, psuind], observed=True).size().reset_index(name="n")
+    n_psu_per_str = sizes.groupby(strata, observed=True).size().to_numpy(dtype=np.int64)
     n_psu_obs = sizes["n"].to_numpy(dtype=np.int64)
     n_str = n_psu_per_str.size
     n_grp = n_psu_obs.size
-- 
2.43.0


From b9da9a48502b0767690098123ad3f6b1183b1768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 086/195] fix: fold singleton strata whose labels are not
 numbers

---
 pystatsm/utilities/complexdesign/sample_design.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 000245d..98097c4 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -60,6 +60,12 @@ def _aggregate_singletons(df, strata, psuind):
     if len(singletons) == 0:
         return df
     df = df.copy()
+    for col in (strata, psuind):
+        if not pd.api.types.is_numeric_dtype(df[col]):
+            codes, levels = pd.factorize(df[col], sort=True)
+            if col == strata:
+                singletons = levels.get_indexer(singletons)
+            df[col] = codes
     new_stratum = df[strata].max() + 1
     new_psu = {s: i for i, s in enumerate(singletons)}
     mask = df[strata].isin(singletons)
-- 
2.43.0


From a850ec507575ed20f8692845522e6da6d333af19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 087/195] fix: refuse missing stratum and PSU labels instead of
 shifting the layout

---
 pystatsm/utilities/complexdesign/sample_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index 98097c4..5eecbc2 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -42,6 +42,8 @@ def _ensure_columns(df, strata, psuind):
     if psuind is None:
         psuind = "_psuind"
         df[psuind] = np.arange(len(df))
+    if df[[strata, psuind]].isna().to_numpy().any():
+        raise ValueError("strata and psuind must not have missing values")
     return df, strata, psuind
 
 
-- 
2.43.0


From 65e6ba743dde467b26c915ea0a329f2f3c406a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 088/195] fix: variances of observed variables in regressions
 are not counted twice

---
 pystatsm/pysem2/model_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..3a6c028 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,7 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                inx = [ov_order[x] for x in var_names["obs"] - var_names["lvo"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From d152ec3fe6eb2c1bc0aeb52106f799a85d6c99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 089/195] fix: second derivative of implied means in two
 structural coefficients

---
 pystatsm/pysem2/derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..580ed7e 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C3.dot(Ji) + C2.dot(Jj)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From d4350d5555c587bd97a52592be77f83eeb30081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 090/195] fix: honour lvx_cov and y_cov when adding default
 covariances

---
 pystatsm/pysem2/model_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ff0d73e..6bec004 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -27,7 +27,7 @@ class ModelBuilder:
         fix_lv_var : bool, optional
             whether to fix the latent variable variance to 1.0. Default is False.
         lvx_cov : bool, optional
-            whether to include covariances for all latent exogenous variables. Default is False.
+            whether to include covariances for all latent exogenous variables. Default is True.
         y_cov : bool, optional
             whether to include covariances for all observed variables. Default is True.
         fix_lv_mean : bool, optional
@@ -35,7 +35,7 @@ class ModelBuilder:
         """
         self.add_variances(fix_lv_cov=kwargs.get('fix_lv_var', False))
         self.fix_first(vars_to_fix=kwargs.get('fix_first', True))
-        self.add_covariances(lvx_cov=~kwargs.get('lvx_cov', False), y_cov=~kwargs.get('y_cov', True))
+        self.add_covariances(lvx_cov=kwargs.get('lvx_cov', True), y_cov=kwargs.get('y_cov', True))
         self.add_means(fix_lv_mean=kwargs.get('fix_lv_mean', True))
         self.add_latent_dummies()
         self.check_initital_loadings()
-- 
2.43.0


From e04b85adde033ab4a40e90a4a4ee07f0da533010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 091/195] fix: fix_lv_var fixes latent variances to one

---
 pystatsm/pysem2/model_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 6bec004..e302a83 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -91,6 +91,7 @@ class ModelBuilder:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             else:
                 row["fixed"] = False
             list_of_param_dicts.append(row)
-- 
2.43.0


From ada04a3e822089c5da82d7a315cd5a26f8688ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 092/195] fix: SEM.fit works without minimize_options

---
 pystatsm/pysem2/sem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..d96728a 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -405,6 +405,7 @@ class SEM(ModelSpecification):
         else:
             hess = None
         theta = self.theta if theta_init is None else theta_init
+        minimize_options = {} if minimize_options is None else minimize_options
         if "method" in minimize_options:
             if minimize_options["method"] == "trust-constr":
                 default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
-- 
2.43.0


From 209bf777ceeeb84705febf76220ad99c6ba3ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 093/195] fix: derivatives of models whose last free parameters
 are all shared

---
 pystatsm/pysem2/indexers.py   | 4 ++--
 pystatsm/pysem2/model_base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem2/indexers.py b/pystatsm/pysem2/indexers.py
index e21bb07..c5b79ff 100644
--- a/pystatsm/pysem2/indexers.py
+++ b/pystatsm/pysem2/indexers.py
@@ -205,8 +205,8 @@ class BlockFlattenedArrays:
         self.colex_descending_inds = np.vstack(self._tril_inds).T
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max() + 1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 3a6c028..07e3006 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From c9c37089bf21d2197297f43969a47635bb2dc372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 094/195] fix: saturated log-likelihood of a SEM uses the
 variables of the model only

---
 pystatsm/pysem2/model_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..3d7e8e1 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,8 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From ed3394aa92260c84ea3f9828d5cb38e325c3657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 095/195] fix: quartimax weights of the Crawford-Ferguson
 family (kappa = 0)

---
 pystatsm/pyfa/rotation.py   | 4 ++--
 pystatsm/pyfa2/criterion.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 856026c..ae0c2df 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -175,7 +175,7 @@ def get_gcf_constants(method, p, m):
     if method == 'varimax':
         consts = dict(k1=0.0, k2=(p-1)/p, k3=1/p, k4=-1)
     elif method == 'quartimax':
-        consts = dict(k1=0.0, k2=1, k3=1, k4=-1)
+        consts = dict(k1=0.0, k2=1, k3=0.0, k4=-1)
     elif method == 'equamax':
         consts = dict(k1=0.0, k2=1-m/(2.0 * p), k3=m/(2.0 * p), k4=-1)
     elif method == 'parsimax':
@@ -197,7 +197,7 @@ class GeneralizedCrawfordFerguson(RotationMethod):
         elif method == 'quartimax':
             k1 = 0.0
             k2 = 1.0
-            k3 = 1.0
+            k3 = 0.0
             k4 = -1.0
         elif method == 'equamax':
             k1 = 0.0
diff --git a/pystatsm/pyfa2/criterion.py b/pystatsm/pyfa2/criterion.py
index 8cda5b7..3d8b71c 100644
--- a/pystatsm/pyfa2/criterion.py
+++ b/pystatsm/pyfa2/criterion.py
@@ -6,7 +6,7 @@ def _gcf_constants(method, p, m):
     if method == 'varimax':
         return (0.0, (p - 1) / p, 1 / p, -1.0)
     if method == 'quartimax':
-        return (0.0, 1.0, 1.0, -1.0)
+        return (0.0, 1.0, 0.0, -1.0)
     if method == 'equamax':
         return (0.0, 1 - m / (2.0 * p), m / (2.0 * p), -1.0)
     if method == 'parsimax':
-- 
2.43.0


From 9cd133a309c2860e2bbd309a68b0d75b96f792ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 096/195] fix: random factor correlation matrices are m by m

---
 pystatsm/pyfa/simulate_factor_model.py | 1 +
 pystatsm/pyfa2/simulation.py           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6bee17f..6ebd04c 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -50,6 +50,7 @@ class FactorModelSim(object):
         r_kws = {**default_r_kws, **r_kws}
         if random:
             Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)
+            Phi = Phi.reshape(self.n_facs, self.n_facs)
         else:
             Phi = rho**sp.linalg.toeplitz(np.arange(self.n_facs))
             s = (-1)**np.arange(self.n_facs).reshape(-1, 1)
diff --git a/pystatsm/pyfa2/simulation.py b/pystatsm/pyfa2/simulation.py
index 7c52563..ac0bbdf 100644
--- a/pystatsm/pyfa2/simulation.py
+++ b/pystatsm/pyfa2/simulation.py
@@ -32,7 +32,7 @@ def generate_loadings(p, m, low=0.4, high=0.9, random=False, rng=None):
 
 def generate_factor_corr(m, rho=0.5, random=False, eta=2.0, rng=None):
     if random:
-        return r_lkj(n=1, dim=m, eta=eta, rng=rng)
+        return r_lkj(n=1, dim=m, eta=eta, rng=rng).reshape(m, m)
     Phi = rho ** sp.linalg.toeplitz(np.arange(m))
     s = (-1) ** np.arange(m).reshape(-1, 1)
     return s * Phi * s.T
-- 
2.43.0


From 331357b4640b13a88cf89eeb765d44767de4cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 097/195] fix: exact factor data are drawn from the generator
 of the simulator

---
 pystatsm/pyfa/simulate_factor_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6ebd04c..e445dc7 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -82,7 +82,8 @@ class FactorModelSim(object):
         
     def simulate_data(self, n_obs=1000, exact=True):
         if exact:
-            Z = exact_rmvnorm(n=n_obs, S=self.C)
+            seed = self.rng.integers(2**31 - 1)
+            Z = exact_rmvnorm(n=n_obs, S=self.C, seed=seed)
         else:
             Z = self.rng.multivariate_normal(mean=np.zeros(self.n_vars+self.n_facs),
                                              cov=self.C, size=n_obs)
-- 
2.43.0


From 88230c9fff99b9fb7a50e16b92096fea7637a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 098/195] fix: target rotation criterion agrees with its
 gradient for non-binary weights

---
 pystatsm/pyfa/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index ae0c2df..fed4ea3 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -337,7 +337,7 @@ class TargetRotation(RotationMethod):
         self.W, self.H = W, H
 
     def Q(self, L):
-        f = np.sum((self.W * (L - self.H))**2) / 2
+        f = np.sum(self.W * (L - self.H)**2) / 2
         return f
 
     def dQ(self, L):
@@ -346,7 +346,7 @@ class TargetRotation(RotationMethod):
 
     def vgQ(self, L):
         Gq = self.W * (L - self.H)
-        fq = np.sum(Gq**2) / 2
+        fq = np.sum(self.W * (L - self.H)**2) / 2
         return fq, Gq
 
 
-- 
2.43.0


From c4d34bc322580a8b6fc3fb24edd580804f5feb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 099/195] fix: likelihood ratio test uses the degrees of
 freedom it is given

---
 pystatsm/pyfa/fit_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 8bb11d7..582af9a 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -38,7 +38,7 @@ def lr_test(Sigma, S, df, n):
     Sigma_inv = np.linalg.pinv(Sigma)
     chi2 = (lndSigma + np.trace(Sigma_inv.dot(S)) - lndS - p) * n
     chi2 = np.maximum(chi2, 1e-12)
-    pval = sp.stats.chi2.sf(chi2, (p + 1)*p/2)
+    pval = sp.stats.chi2.sf(chi2, df)
     return chi2, pval
 
 def gfi(Sigma, S):
-- 
2.43.0


From eb9601095092c13fd31b7cd517fd4170ee4f1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 100/195] fix: starting uniquenesses of a factor analysis are
 positive whatever the scale of the data

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index a472700..275096b 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -85,7 +85,7 @@ class FactorAnalysis(object):
 
     def _init_psi(self):
         self.pix = np.arange(self.n_vars*self.n_facs, self.n_vars*self.n_facs+self.n_vars)
-        L = self.V[:, :self.n_facs]
+        L = self.V[:, :self.n_facs] * np.sqrt(self.u[:self.n_facs])
         psi = np.diag(self.S - np.dot(L, L.T))
         self.psi_init = psi
         self.rho_init = np.log(psi)
-- 
2.43.0


From b33a3c27ad6a63b75592b19a496d5e202a06664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 101/195] fix: labels of the factor correlations follow the
 order of the parameters

---
 pystatsm/pyfa/efa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 275096b..7825a29 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -350,8 +350,8 @@ class FactorAnalysis(object):
             for i in range(self.n_vars):
                 param_labels.append(f"L[{i}][{j}]")
         if self.rotation_type == "oblique":
-            for i in range(self.n_facs):
-                for j in range(i):
+            for j in range(self.n_facs):
+                for i in range(j + 1, self.n_facs):
                     param_labels.append(f"Phi[{i}][{j}]")
         for i in range(self.n_vars):
             param_labels.append(f"Psi[{i}]")
-- 
2.43.0


From af6ca82bc19b64747b14fe404b6ff2cbb8e462c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 102/195] fix: signs follow the factors when loadings are
 ordered

---
 pystatsm/pyfa/efa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 7825a29..96c0b58 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -373,6 +373,7 @@ class FactorAnalysis(object):
         order = np.argsort(np.sum(L**2, axis=0))
         sign = np.sign(np.sum(L, axis=0))
         perm_mat = np.diag(sign)[:, order]
+        sign = sign[order]
         L = L[:, order] * sign
         T = T[:, order] * sign
         Phi = Phi[order, order[None].T]
-- 
2.43.0


From 8564f1f11be9a9bcd471ab42de644e1304db0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 103/195] fix: RMSEA of a factor analysis uses the degrees of
 freedom of the model

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 96c0b58..d662d62 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -590,7 +590,7 @@ class FactorAnalysis(object):
         rni = ((chi2_null - df_null) - (chi2_full - df_full)) / (chi2_null - df_null)
         cfi = (np.maximum(chi2_null - df_null, 0) - np.maximum(chi2_full - df_full, 0))\
              /np.maximum(chi2_null - df_null, 0)
-        rmsea = np.sqrt(np.max(chi2_full - df_full, 0) / (df_null * (self.n_obs - 1)))
+        rmsea = np.sqrt(np.maximum(chi2_full - df_full, 0) / (df_full * (self.n_obs - 1)))
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
-- 
2.43.0


From 9a96e47436aa9ba211e7351f0efda4ba78d8b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 104/195] fix: degrees of freedom of a factor analysis account
 for the identification constraints

---
 pystatsm/pyfa/efa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index d662d62..c38da58 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -574,7 +574,8 @@ class FactorAnalysis(object):
         Sigma = self.sigma_params(self.params)
         Sigma_null = np.diag(np.diag(self.S)) if Sigma_null is None else Sigma_null
         df_null = int(self.p * (self.p - 1) // 2) if df_null is None else df_null
-        df_full = int(self.p * (self.p + 1) // 2) - self.n_params
+        n_free = self.n_params - self.nc
+        df_full = int(self.p * (self.p + 1) // 2) - n_free
 
         f_null = self._full_loglike(Sigma=Sigma_null, nscale=False)
         f_full = self._full_loglike(Sigma=Sigma, nscale=False)
@@ -594,8 +595,8 @@ class FactorAnalysis(object):
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
-        BIC = self.n_params * np.log(self.n_obs) -2 * ll_full
-        AIC = 2 * self.n_params - 2*ll_full
+        BIC = n_free * np.log(self.n_obs) -2 * ll_full
+        AIC = 2 * n_free - 2*ll_full
 
         chi2_table = pd.DataFrame([[chi2_full, df_full, chi2_full_pval],
                                    [chi2_null, df_null, chi2_null_pval]],
-- 
2.43.0


From 7cc311d0a759795ef43a7143d4c5356a4680388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 105/195] fix: profile Hessian of a factor analysis drops the
 null direction exactly

---
 pystatsm/pyfa/efa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index c38da58..aa57b6c 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -230,11 +230,12 @@ class FactorAnalysis(object):
         W = s.T * S * s
         u, V = np.linalg.eigh(W)
         B = np.zeros((p, p))
-        Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            diff = u[i] - u
+            diff[i] = np.inf
+            b2 = 2 * u[i] * (u[i] - 1) * (V / diff).dot(V.T)
             B+= (b1 + b2) * A
         H = Psi_inv.dot(B).dot(Psi_inv)
         return H
-- 
2.43.0


From c823737c126dce86c5455303c292db556c18daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 106/195] fix: Polychor codes categories by rank, so codes with
 gaps can be fitted

---
 pystatsm/pylvcorr/polychoric.py  | 2 +-
 pystatsm/pylvcorr/polychoric2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index c5ff611..b3b7ece 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -24,7 +24,7 @@ class Polychor(object):
     def __init__(self, data):
         self.data = data
         self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.column_stack([np.unique(x, return_inverse=True)[1] for x in self.X.T])
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b4c09e6..d0f5e67 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -61,7 +61,7 @@ class Polychor(object):
         self.data = data
         self.cols = self.data.columns.tolist()
         self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.column_stack([np.unique(x, return_inverse=True)[1] for x in self.X.T])
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
-- 
2.43.0


From d69cc48c3601f11b8960d6e461cc601b2d557d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 107/195] fix: Polychoric does not count missing values as a
 category

---
 pystatsm/pylvcorr/lvcorr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3896a13..0700321 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -423,7 +423,7 @@ class Polychoric(object):
     def __init__(self, data):
         X = data.values
         n, p = X.shape
-        N_cats = np.array([len(np.unique(X[:, i])) for i in range(p)]).astype(int)
+        N_cats = np.array([len(np.unique(X[~np.isnan(X[:, i]), i])) for i in range(p)]).astype(int)
         Thresholds = {}
         for i in range(p):
             Thresholds[i] = self._get_threshold(X[:, i], outer=True)
@@ -440,7 +440,8 @@ class Polychoric(object):
                                                             Thresholds[i],
                                                             Thresholds[j]
                                                             )
-            rho_inits[ii] = corr(X[:,i], X[:, j])
+            ind = ~np.isnan(X[:, [i, j]]).any(axis=1)
+            rho_inits[ii] = corr(X[ind, i], X[ind, j])
             
             
         
@@ -456,6 +457,7 @@ class Polychoric(object):
         self.XThresholds, self.Xtab = XThresholds, Xtab
         
     def _get_threshold(self, x, outer=True):
+        x = x[~np.isnan(x)]
         vals, counts = np.unique(x, return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         if outer:
@@ -602,7 +604,7 @@ class PolychoricCorr(object):
         self.xthresh = xthresh
         self.xcounts = xcounts
         self.rho_inits =rho_inits
-        self.cats = {i:np.unique(X[:, i]) for i in range(self.p)}
+        self.cats = {i:np.unique(X[~np.isnan(X[:, i]), i]) for i in range(self.p)}
         self.ncats = {i:len(self.cats[i]) for i in range(self.p)}
         self.taus = {i:self._get_threshold(X[:, i]) for i in range(self.p)}
         self.opts = {i:{} for i in range(self.p)}
@@ -610,6 +612,7 @@ class PolychoricCorr(object):
         self.R_se = np.zeros((self.p, self.p))
     
     def _get_threshold(self, x):
+        x = x[~np.isnan(x)]
         vals, counts = np.unique(x, return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         t = np.r_[-1e6, t_inner, 1e6]
-- 
2.43.0


From 6b3b5b05d26349245b53b01a1edb57368ef98527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 108/195] fix: Polyserial standardises the continuous variable,
 so the correlation does not depend on its location and scale

---
 pystatsm/pylvcorr/lvcorr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 0700321..b715a42 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -299,6 +299,7 @@ class Polyserial:
                             tau_arr.tolist()))
         y_ordered = dcrep(y, order)
         tau1, tau2 = dcrep(y_ordered, tau_dict),  dcrep(y_ordered+1, tau_dict)
+        x = (x - np.mean(x)) / np.std(x)
         self.order, self.marginal_counts = order, marginal_counts
         self.tau_arr, self.y_ordered = tau_arr, y_ordered
         self.tau1, self.tau2 = tau1, tau2
-- 
2.43.0


From c930ac57f70b1bd1843d914dda44f317b71b4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 109/195] fix: LARS: dropping a variable only downdates the
 factor of the active set

---
 pystatsm/pyglmnet/lars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..3b20b6f 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,10 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    n_act = len(active)
+    for k in drop_ix[::-1]:
+        L[:n_act, :n_act] = chol_downdate(L[:n_act, :n_act].copy(), k)
+        n_act -= 1
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From 7514b58e086b578bbaeb7b4f646d9c19ef66c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 110/195] fix: Gaussian elastic net: variables that left the
 active set can re-enter

---
 pystatsm/pyglmnet/gaussian_eln.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..ef1d3bd 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -65,6 +65,8 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
     n2 = n * 2.0
     la, dla = lambda_ * alpha * n, (1.0 - alpha) * lambda_ * n
     index = np.arange(len(b))
+    candidates = active.copy()
+    full_sweep = True
     msr =  np.sum(r**2) / n2
     pen = elnet_penalty(b, alpha, lambda_)
     f_old = msr + pen
@@ -86,11 +88,17 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
         pen = elnet_penalty(b, alpha, lambda_)
         f_new = msr + pen
         if (f_old - f_new)<dtol:
-            fvals[i+1] = msr, pen, f_new
-            break
+            if full_sweep:
+                fvals[i+1] = msr, pen, f_new
+                break
+            # converged on the active set: variables that left it get another
+            # sweep before the solution is accepted
+            active[:] = candidates
+            full_sweep = True
         else:
-            f_old = f_new
-            beta_hat = b
+            full_sweep = False
+        f_old = f_new
+        beta_hat = b
     return beta_hat, fvals, active, i
 
 
@@ -99,8 +107,12 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
           btol=1e-9, intercept=True):
     if b is None:
         b = X.T.dot(y) / X.shape[0]
+    else:
+        b = b.copy()
     if active is None:
         active = np.ones(X.shape[1], dtype=bool)
+    else:
+        active = active.copy()
     if intercept:
         y = y - y.mean()
     Xsq = (X**2).sum(axis=0)
-- 
2.43.0


From badd8219d709cfe754e061cc6d03b98399c17b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 111/195] fix: elnet_grad: the L1 part of the gradient carries
 the sign of the coefficient

---
 pystatsm/pyglmnet/gaussian_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index ef1d3bd..e4dc099 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -123,7 +123,7 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
 def elnet_grad(b, X, y, lambda_, alpha):
     n = y.shape[0]
     r = y - X.dot(b)
-    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha
+    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_ * alpha * np.sign(b)
     return g
   
 
-- 
2.43.0


From 59161b5e2f9484b6706c245d093249cea716896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 112/195] fix: Accelerated lasso: start at beta and restart the
 momentum instead of stopping when it overshoots

---
 pystatsm/pyglmnet/lasso.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/lasso.py b/pystatsm/pyglmnet/lasso.py
index 0a72449..895ec2c 100644
--- a/pystatsm/pyglmnet/lasso.py
+++ b/pystatsm/pyglmnet/lasso.py
@@ -46,13 +46,19 @@ def lasso_accelerated_grad(beta, X, y, Xty, XtX, lambda_, max_eig, n_iters=500,
     alpha = 1.0 / (2 * max_eig) 
     tau = alpha * lambda_
     fhist = np.array([lasso_obj(beta, X, y, lambda_ )])
-    theta = beta.copy()*0.0
+    theta, k = beta.copy(), 0
     for i in range(n_iters):
         g = (Xty - XtX.dot(theta)) / n
         beta_new = soft_threshold(theta + alpha * g, tau)
-        theta_new = beta_new + (1+i) / (4 + i) * (beta_new - beta)
-        fhist = np.append(fhist, np.array([lasso_obj(beta_new, X, y, lambda_)]), axis=0)
-        if fhist[i+1, 2] > fhist[i, 2]:
+        theta_new = beta_new + (1+k) / (4 + k) * (beta_new - beta)
+        f_new = np.array([lasso_obj(beta_new, X, y, lambda_)])
+        if f_new[0, 2] > fhist[-1, 2] and k > 0:
+            # the extrapolated step overshot: restart the momentum
+            theta, k = beta, 0
+            continue
+        fhist = np.append(fhist, f_new, axis=0)
+        k += 1
+        if fhist[-1, 2] > fhist[-2, 2]:
             break
         dt = np.abs(beta_new - beta)
         bt = np.abs(beta) 
-- 
2.43.0


From a721a2c48874de22c2e912673d7c398ae235502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 113/195] fix: Binomial elastic net: variables that left the
 active set can re-enter, and the intercept must have converged

---
 pystatsm/pyglmnet/binomial_eln.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..c2f30cb 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -261,6 +261,7 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
     lb = -ub
     fvals = np.zeros(n_iters+1)
     xv = np.zeros_like(b)
+    candidates = acs.copy()
     yconj = 1.0 - y
     for i in range(n_iters):
         eta = X.dot(b) + b0 * intercept
@@ -271,18 +272,22 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         w = mu * muconj
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
-        b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
-                                               acs, ix, n)
-        
-        if np.max(xvd) < btol:
-            break
+        full_sweep = np.all(acs == candidates)
+        xv[:] = 0.0
+        b_new, b0_new, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
+                                                   acs.copy(), ix, n)
+        d0 = (b0_new - b0)**2 * intercept * np.sum(w) / n
+        small = max(np.max(xvd), d0) < btol
         if i>0 and 0<(fvals[i-1]-fvals[i])<dtol:
-            break
-        else:
-            b = b_new
-        if nr_ent:
+            small = True
+        b, b0 = b_new, b0_new
+        if small and full_sweep:
             acs = acs_new
-    return b, b0, acs, fvals[:i]
+            break
+        # variables that left the active set get another sweep before the
+        # solution is accepted
+        acs = acs_new if nr_ent and not small else candidates.copy()
+    return b, b0 * intercept, acs, fvals[:i]
 
 
 def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000, 
-- 
2.43.0


From e6f1cc210eb81603e68748863959344dee02a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 114/195] fix: cv_binom_glmnet: the held-out deviance includes
 the fitted intercept

---
 pystatsm/pyglmnet/binomial_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index c2f30cb..a9fb0e9 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -497,7 +497,7 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
                                        active=active, btol=btol, dtol=dtol,
                                        n_iters=n_iters, pmin=pmin,nr_ent=nr_ent, 
                                        intercept=intercept)
-            fi = binom_eval(yt[k], Xt[k].dot(bi), bi, alpha, lambda_)
+            fi = binom_eval(yt[k], Xt[k].dot(bi) + b0, bi, alpha, lambda_)
             betas_cv[i+1, k] = bi
             b0s_cv[i+1, k] = b0
             fvals[i, k] = fi
-- 
2.43.0


From 33af98c72e81013827baea4f4595f0d592fe3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 115/195] fix: cv_binom_glmnet: the penalty grid starts from
 the residuals of the null model

---
 pystatsm/pyglmnet/binomial_eln.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index a9fb0e9..b895745 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -457,7 +457,8 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
             nl = 150
         else:
             nl = int(lambdas)
-        b0 = X.T.dot(y - np.log(y.mean() / (1.0 - y.mean()))) / X.shape[0]
+        mu0 = y.mean() if intercept else 0.5
+        b0 = X.T.dot(y - mu0) / X.shape[0]
         if lmin_pct is None:
             lmin_pct = X.shape[1] / X.shape[0] * 100.0
         lambda_min = sp.stats.scoreatpercentile(np.abs(b0), lmin_pct) if lmin is None else lmin
-- 
2.43.0


From 5fe3d2da98b126650abd1ae184095029fdab8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 116/195] fix: binom_elnet_path: a fit does not overwrite the
 previous point of the path

---
 pystatsm/pyglmnet/binom_eln2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 20b3696..6afd847 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -132,6 +132,7 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         betas[0] = beta
     else:
         betas = None
+    beta = beta.copy()
     eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
     r = (y - mu)
-- 
2.43.0


From 7ce839d5dc96537c6b46e0832640150698b16a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 117/195] fix: binom_eln2: variables that left the active set
 can re-enter

---
 pystatsm/pyglmnet/binom_eln2.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 6afd847..9cd4ba5 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -53,7 +53,10 @@ def objective_function(y, mu, weights, b, alpha, halc, lam):
 @numba.jit(nopython=True)
 def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000, 
                dtol=1e-10):
-    active_vars = index[active]
+    active = active.copy()
+    candidates = index[active]
+    active_vars = candidates
+    full_sweep = True
     xv = np.zeros(X.shape[1])
     la, dla = lam * alpha, lam * (1.0 - alpha)
     b0, b = beta[0], beta[1:]
@@ -75,17 +78,19 @@ def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000,
                 d = b[j] - bj
                 xv[j] = d**2 * xwx[j]
                 r = r - d * w * xj
-                dlx = max(xv[j]*d**2, dlx)
-            if b[j]==0:
-                active[j] = False
-        if i==0:
-            active_vars = index[active]
+                dlx = max(xv[j], dlx)
+            active[j] = b[j]!=0
         d = np.sum(r) / wsum
         b0 = b0 + d
         r = r - d * w
         dlx = max(dlx, wsum * d**2)
         if abs(dlx)<dtol:
-            break
+            if full_sweep:
+                break
+            # converged on the active set: the others get another sweep
+            active_vars, full_sweep = candidates, True
+        else:
+            active_vars, full_sweep = index[active], False
     return b, b0, active
     
     
@@ -138,8 +143,8 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
     r = (y - mu)
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
-        b, b0, active = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
-                                   active, index, max_iters, dtol)
+        b, b0, _ = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
+                              active, index, max_iters, dtol)
         eta, mu, w = get_eta_mu(X, b, b0)
         r = (y - mu)
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
-- 
2.43.0


From 2eed0c6533aa916b81069e9bf22d787ecd0e160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 118/195] fix: binom_eln2: observation weights enter the fit,
 and the penalty grid is that of the standardised design

---
 pystatsm/pyglmnet/binom_eln2.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 9cd4ba5..1506147 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -138,15 +138,18 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
     else:
         betas = None
     beta = beta.copy()
-    eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
+    eta, mu, v = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
-    r = (y - mu)
+    wn = weights * len(y)
+    w = v * wn
+    r = (y - mu) * wn
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
         b, b0, _ = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
                               active, index, max_iters, dtol)
-        eta, mu, w = get_eta_mu(X, b, b0)
-        r = (y - mu)
+        eta, mu, v = get_eta_mu(X, b, b0)
+        w = v * wn
+        r = (y - mu) * wn
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         ii = 0
         if fvals[i]>fvals[i-1]+1e-7:
@@ -156,8 +159,9 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
                     break
                 b = (beta[1:] + b) / 2
                 b0 = (beta[0] + b0) / 2
-                eta, mu, w = get_eta_mu(X, b, b0)
-                r = (y - mu)
+                eta, mu, v = get_eta_mu(X, b, b0)
+                w = v * wn
+                r = (y - mu) * wn
                 fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         step_halves[i] = ii
         if store_betas:
@@ -200,7 +204,8 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
             n_lambdas = 150
         else:
             n_lambdas = int(lambdas)
-        lambdas = get_lambdas(X, y, np.ones_like(y), n_lambdas, alpha)
+        lambdas = get_lambdas((X - X.mean(axis=0)) / X.std(axis=0), y, weights,
+                              n_lambdas, alpha)
     else:
         n_lambdas = len(lambdas)
     X = (X - X.mean(axis=0)) / X.std(axis=0)
@@ -211,7 +216,6 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     betas = np.zeros((n_lambdas+1, n_var+1))
     fvals_hist = []
     fvals, active, index = np.zeros(n_lambdas+1), np.ones(n_var, dtype=bool), np.arange(n_var)
-    weights = np.ones_like(y)
     betas[0, 0] = b0
     
     default_cd_kws = dict(X=X, Xsq=Xsq, y=y, weights=weights, alpha=alpha,
-- 
2.43.0


From b6924474c76da66686664ffe943cd035719286f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 119/195] fix: binom_glmnet_cv: held-out rows are put on the
 scale of the fitted coefficients

---
 pystatsm/pyglmnet/binom_eln2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 1506147..70216f1 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -245,7 +245,8 @@ def binom_glmnet_cv(X, y, alpha=0.99, lambdas=None, cv=10, n_rep=1,
             n_lambdas = 150
         else:
             n_lambdas = int(lambdas)
-        lambdas = get_lambdas(X, y, np.ones_like(y), n_lambdas, alpha)
+        lambdas = get_lambdas((X - X.mean(axis=0)) / X.std(axis=0), y,
+                              np.ones_like(y), n_lambdas, alpha)
     else:
         n_lambdas = len(lambdas)
     n_obs, n_vars = X.shape
@@ -265,7 +266,8 @@ def binom_glmnet_cv(X, y, alpha=0.99, lambdas=None, cv=10, n_rep=1,
                              random_state=rng)
         for k, (f_ix, v_ix) in enumerate(kfix):
             Xf, yf = X[f_ix], y[f_ix]
-            Xt, yt = X[v_ix], y[v_ix]
+            # the path is on the scale of the standardised fitting fold
+            Xt, yt = (X[v_ix] - Xf.mean(axis=0)) / Xf.std(axis=0), y[v_ix]
             betas[j, k], _, _ , _= binom_elnet_path(Xf, yf, np.ones_like(yf), alpha, lambdas,
                                               progress_bar=pbar, cd_kws=cd_kws)
             w  = np.ones_like(yt)
-- 
2.43.0


From 62fe5eb0481e1d6bb1828aae2ff94fc8460e4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 120/195] fix: ElasticNetGLM: screened or dropped variables
 re-enter when the optimality conditions require it

---
 pystatsm/pyglmnet/glmen2.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..2600473 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -91,7 +91,7 @@ class ElasticNetGLM(object):
         self.wobs = wobs
         self.family = family
         self.alpha = alpha
-        self.Xsq = X**2
+        self.Xsq = self.X**2
         self.halc = (1.0 - alpha) / 2.0
         self._categorical = isinstance(family, Binomial)
         
@@ -227,7 +227,7 @@ class ElasticNetGLM(object):
         eta = overflow_adjust(beta[0] + X.dot(beta[1:]), lower, upper)
         mu = self.family.inv_link(eta)
         g = np.abs(np.dot(X.T, wobs * (y - mu)))
-        active[g<(2.0 * lam - lam0)] = False
+        active[g<self.alpha * (2.0 * lam - lam0)] = False
         f_curr = self._obj_func_mu(mu, beta, lam, X, y, wobs)
         f_hist = [[f_curr, 0]]
         for i in range(n_iters):
@@ -243,11 +243,17 @@ class ElasticNetGLM(object):
             f_new = self._obj_func_mu(mu_new, beta_new, lam, X, y, wobs)
             f_hist.append([f_new, i])
             fdiff = np.abs(f_new - f_curr) / (0.1 + np.abs(f_new))
+            eta, mu, beta, f_curr = eta_new, mu_new, beta_new, f_new
             if fdiff<ftol:
-                beta = beta_new
-                break
-            else:
-                eta, mu, beta, f_curr = eta_new, mu_new, beta_new, f_new
+                # screened or dropped variables re-enter when they violate the
+                # optimality conditions by more than the convergence tolerance
+                tol = np.sqrt(2.0 * ftol * (0.1 + np.abs(f_new)))
+                dmu_deta, var_mu = self.family.dinv_link(eta), self.family.var_func(mu=mu)
+                g = np.abs(np.dot(X.T, wobs * (y - mu) * dmu_deta / var_mu))
+                violations = (~active) & (g > lam * self.alpha + tol)
+                if not np.any(violations):
+                    break
+                active[violations] = True
         return beta, f_hist#, np.vstack(beta_hist)
     
     def _glm_elnet_path(self, X, Xsq, y, wobs, lambdas, progress_bar=None, 
-- 
2.43.0


From 0e9339ff51bb8f031e6cccc60367422fb1f1d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 121/195] fix: ElasticNetGLM.dev_grad: gradient of the
 deviance, as dev_hess is its hessian

---
 pystatsm/pyglmnet/glmen2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 2600473..5178e4c 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -143,7 +143,7 @@ class ElasticNetGLM(object):
         y = self.y if y is None else y
         wobs = self.wobs if wobs is None else wobs
         dL = np.r_[-np.dot(wobs, y-mu), -wdcrossp(X, wobs, y-mu)]
-        return dL
+        return dL * 2.0
     
     
     def obj_grad(self, beta, lam, X=None, y=None, wobs=None):
-- 
2.43.0


From b94380f0dc76109a28a8594afc55ff3888b2e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 122/195] fix: GLMEN: fit unpacks what the solvers return,
 passes the intercept on, and predicts with it

---
 pystatsm/pyglmnet/glmen.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..174e491 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -20,6 +20,8 @@ class GLMEN:
         
         if formula is not None and data is not None:
             y, X = patsy.dmatrices(formula, data, return_type="dataframe")
+            # the intercept is not penalised, and is not a column of X
+            X = X.drop(columns="Intercept", errors="ignore")
             xcols, xinds = X.columns, X.index
             ycols, yinds = y.columns, y.index
             X, y = X.values, y.values[:, 0]
@@ -61,7 +63,13 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        res = self._fit(X, y, lambda_, alpha, intercept=intercept, 
+                        n_iters=n_iters, **kws)
+        if self.family == "binomial":
+            beta, self.intercept, active, fvals, _ = res
+        else:
+            beta, fvals, active, _ = res
+            self.intercept = intercept * np.mean(y)
         self.beta = beta 
         self.active = active
         self.fvals = fvals
@@ -74,7 +82,9 @@ class GLMEN:
                                                             cv, X, y, alpha, 
                                                             lambdas=lambdas,
                                                             n_iters=n_iters, b=b, 
-                                                            refit=refit, **kws)
+                                                            refit=refit, 
+                                                            intercept=intercept,
+                                                            **kws)
         self.beta_path = b_path
         self.f_path = f_path
         self.lambdas = lambdas
@@ -85,6 +95,10 @@ class GLMEN:
         self.beta = bfits[self.lmin_idx]
         self.n_its = n_its
         self.b0_path, self.b0 = b0_path, b0
+        if b0 is not None:
+            self.intercept = b0[self.lmin_idx]
+        else:
+            self.intercept = intercept * np.mean(y)
         
     
     def plot_cv(self, f_path=None, lambdas=None, bfits=None):
@@ -97,7 +111,7 @@ class GLMEN:
     def predict(self, beta=None, X=None, intercept=True):
         beta = self.beta if beta is None else beta
         X = self.X if X is None else X
-        yhat = X.dot(beta) + intercept * self.y.mean()
+        yhat = X.dot(beta) + intercept * self.intercept
         return yhat
     
     
-- 
2.43.0


From e48a464f3a63653b80f2e538e1897aa59a7db351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 123/195] fix: SparseRegressionModel: rho sets the correlation
 of the design

---
 pystatsm/pyglmnet/sparse_model_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/sparse_model_sim.py b/pystatsm/pyglmnet/sparse_model_sim.py
index 9bbb7c2..5381ebe 100644
--- a/pystatsm/pyglmnet/sparse_model_sim.py
+++ b/pystatsm/pyglmnet/sparse_model_sim.py
@@ -19,7 +19,7 @@ class SparseRegressionModel:
         rng = np.random.default_rng(seed) if rng is None else rng
         if x_cov is None:
             rho = 0.9 if rho is None else rho
-            x_cov = 0.99**sp.linalg.toeplitz(np.arange(n_var))
+            x_cov = rho**sp.linalg.toeplitz(np.arange(n_var))
         
         X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), seed=123)[:n_obs]
         if xw is not None:
-- 
2.43.0


From f67ffd013f093bc7aa76ccf00cd904f063fa0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 124/195] fix: ElasticNetGLM: a variable with a nonzero
 starting value is not screened out

---
 pystatsm/pyglmnet/glmen2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 5178e4c..b35bddb 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -227,7 +227,7 @@ class ElasticNetGLM(object):
         eta = overflow_adjust(beta[0] + X.dot(beta[1:]), lower, upper)
         mu = self.family.inv_link(eta)
         g = np.abs(np.dot(X.T, wobs * (y - mu)))
-        active[g<self.alpha * (2.0 * lam - lam0)] = False
+        active[(g<self.alpha * (2.0 * lam - lam0)) & (beta[1:]==0)] = False
         f_curr = self._obj_func_mu(mu, beta, lam, X, y, wobs)
         f_hist = [[f_curr, 0]]
         for i in range(n_iters):
-- 
2.43.0


From e190905b5fae47a44f5233a05ff2dde35ee96424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 125/195] fix: bspline_penalty: the penalty of a B-spline basis
 can be computed

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..dcc12cb 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -164,11 +164,11 @@ def ccspline_basis(x, knots, F):
     X = A * d1 + B * d2 - A * d3 - B * d4 + C * d5 + D * d6
     return X
 
-def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
+def bspline_penalty(all_knots, knots, degree=3, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
-- 
2.43.0


From a4ecaaf7b1b5e5d2b8a3afb5233791e27b7fb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 126/195] fix: parse_smooths: functions whose name ends in s
 are not smooth terms

---
 pystatsm/pygam/smooth_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index f152958..e980234 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -14,7 +14,7 @@ from ..utilities.splines import (_get_crsplines, _get_bsplines, _get_ccsplines,
 
 def parse_smooths(smoother_formula, data):
     smooths = {}
-    smooth_terms = re.findall("(?<=s[(])(.*?)(?=[)])", smoother_formula)
+    smooth_terms = re.findall(r"(?<![\w.])s[(](.*?)[)]", smoother_formula)
     arg_order = ['x', 'df', 'kind', 'by']
     for term in smooth_terms:
         tokens = [t.strip() for t in term.split(',')]
@@ -44,7 +44,7 @@ def parse_smooths(smoother_formula, data):
 
 def get_parametric_formula(formula):
     frm = re.sub(r"\s+", "", formula)
-    for x in re.findall(r"s\([^()]*\)", frm):
+    for x in re.findall(r"(?<![\w.])s\([^()]*\)", frm):
         frm = frm.replace(x, "")
     frm = re.sub(r"[+\-]{2,}", lambda m: m.group()[-1], frm)
     frm = re.sub(r"~[+\-]+", "~", frm)
-- 
2.43.0


From c8a0fdefcec62bc75c8706ca52dd399d9fbcb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 127/195] fix: parse_smooths: the kind of a smooth may be
 quoted either way

---
 pystatsm/pygam/smooth_setup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index e980234..0052a6c 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -27,10 +27,9 @@ def parse_smooths(smoother_formula, data):
                 key, val = arg_order[i], token.strip()
                 smooth_info[key] = val
         smooth_info['df'] = int(smooth_info['df'])
-        smooth_info['kind'] = smooth_info['kind'].replace("'", "")
+        smooth_info['kind'] = smooth_info['kind'].strip("'\"")
         var = smooth_info['x']
         smooth_info['x'] = data[smooth_info['x']].values
-        smooth_info['kind'] = smooth_info['kind'].replace("'", "")
         if smooth_info['by'] is not None:
             by_design_mat = patsy.dmatrix(f"C({smooth_info['by']})-1", data, 
                                           return_type='dataframe',
-- 
2.43.0


From 472988059dc84c5526784b9bab12a529b5e05957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 128/195] fix: parse_smooths: a second smooth of the same
 variable does not replace the first

---
 pystatsm/pygam/smooth_setup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index 0052a6c..67b8778 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -38,7 +38,11 @@ def parse_smooths(smoother_formula, data):
             cats = finfo[list(finfo.keys())[0]].categories
             smooth_info['by'] = dict(by_vals=by_design_mat.values,
                                      by_cats=cats)
-        smooths[var] = smooth_info
+        key, k = var, 1
+        while key in smooths:
+            k += 1
+            key = f"{var}.{k}"
+        smooths[key] = smooth_info
     return smooths
 
 def get_parametric_formula(formula):
-- 
2.43.0


From 4039b0a783f2cb229a8c1c647fea475ea64c68af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 129/195] fix: get_parametric_formula: a removed intercept
 stays removed when a smooth comes first

---
 pystatsm/pygam/smooth_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index 67b8778..dc1f0bd 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -50,7 +50,7 @@ def get_parametric_formula(formula):
     for x in re.findall(r"(?<![\w.])s\([^()]*\)", frm):
         frm = frm.replace(x, "")
     frm = re.sub(r"[+\-]{2,}", lambda m: m.group()[-1], frm)
-    frm = re.sub(r"~[+\-]+", "~", frm)
+    frm = re.sub(r"~\++", "~", frm)
     frm = re.sub(r"[+\-]+$", "", frm)
     if frm.endswith("~") or "~" not in frm:
         frm = frm + "1" if frm.endswith("~") else frm
-- 
2.43.0


From 8a9cf1b6bcf2b75f9733eabd3fe425e8af4c9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 130/195] fix: LogbLink: the lower bound is the one asked for

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..7de7c92 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From dfe7ce4a51144381a5dbb6c7a694cd894b0d75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 131/195] fix: GauLS: the location needs no smooth

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7de7c92..b64d89b 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -661,7 +661,7 @@ class GauLS:
         for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
             logdet += r * rho[i] + lds
         for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
+            logdet += r * rho[j+self.ns_m] + lds
         return logdet
 
     def reml(self, rho):
-- 
2.43.0


From a08ab9bdda4535d41c85cdbcef7f1b438eb14202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 132/195] fix: GauLS.predict_component: each predictor has its
 own intercept and smooths

---
 pystatsm/pygam/gauls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index b64d89b..be58e2c 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -82,7 +82,7 @@ class PredictorTerm:
         self.theta = theta
         self.smooth_info = smooth_info
         self.link = link
-        self.component_varnames = list(self.smooth_info.keys())
+        self.component_varnames = list(self.smooths.keys())
         self.methods = {"cr":crspline_basis, "cc":ccspline_basis,"bs":bspline_basis}
 
 
@@ -915,7 +915,7 @@ class GauLS:
             eta_s = s.evaluate_component_basis(comp, points).dot(self.beta[self.ixs][s.smooths[comp]['ix']])
         else:
             eta_s = np.zeros_like(points)
-        if "Intercept" in m.x_varnames:
+        if "Intercept" in s.x_varnames:
             eta_s = eta_s + self.res.loc["s(Intercept)", "param"]
 
 
-- 
2.43.0


From f8eb05fa8a5aec3efeb5297f7349ffb0055ffbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 133/195] fix: GauLS: R-squared compares the response with the
 fitted mean

---
 pystatsm/pygam/gauls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index be58e2c..a7c3713 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1093,11 +1093,12 @@ class GauLS:
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
                                          'SE', 't', 'p'])
-        yhat = self.m.X.dot(self.beta[self.ixm])
+        eta = self.m.X.dot(self.beta[self.ixm])
+        yhat = self.m.link.inv_link(eta)
         resids = self.y - yhat
         ssr = np.sum(resids**2)
         sst =  np.sum((self.y - self.y.mean())**2)
-        self.mu = self.m.link.inv_link(yhat)
+        self.mu = yhat
         self.tau = self.s.link.inv_link(self.s.X.dot(self.beta[self.ixs]))
         self.resids = self.y - self.mu
         self.pearson_resids = self.resids * self.tau
-- 
2.43.0


From bb2baa9ef06765784b92341c20135c6f3423489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 134/195] fix: additive models: p-values are two-sided with the
 residual degrees of freedom

---
 pystatsm/pygam/gam.py                     | 2 +-
 pystatsm/pygam/gauls.py                   | 2 +-
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index ddae4b4..a7ea0c6 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -675,7 +675,7 @@ class GAM:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = 2.0 * sp.stats.t(self.n_obs - self.edf).sf(np.abs(t))
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index a7c3713..17ab40e 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1088,7 +1088,7 @@ class GauLS:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = 2.0 * sp.stats.t(self.m.n_obs - self.edf).sf(np.abs(t))
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..6303981 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -284,7 +284,7 @@ class GaussianAdditiveModel:
         
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = 2.0 * sp.stats.t(self.n_obs - self.edf).sf(np.abs(t))
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
-- 
2.43.0


From d3b457c5007c6bf34cb65bbcd32e85bfc4cdbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 135/195] fix: GaussianAdditiveModel: effective degrees of
 freedom and sampling covariance

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 6303981..ab02e68 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -268,12 +268,12 @@ class GaussianAdditiveModel:
         Jb = self.grad_beta_rho(beta, lambda_)
         C = Jb.dot(Vp[:-1, :-1]).dot(Jb.T)
         Vc = Vb + C
-        Vf = Vb.dot(XtX*scale).dot(Vb) + C
+        Vf = Vb.dot(XtX / scale).dot(Vb) + C
         self.Slambda = Slambda
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX / scale))
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
-- 
2.43.0


From b6953ce7efa8bb1c138e4c1aab7cb9abe953bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 136/195] fix: crspline_penalty: a cubic regression spline may
 have three knots

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index dcc12cb..96845b0 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -210,8 +210,8 @@ def crspline_penalty(knots, ret_s=True):
     n, h = len(knots), np.diff(knots)
     D, ldb = _cr_mats(n, h)
     sdb = h[1:-1]/6
-    dptsv = sp.linalg.get_lapack_funcs("ptsv")
-    ldb, sdb, BinvD, info = dptsv(ldb, sdb, D)
+    B = np.diag(ldb) + np.diag(sdb, 1) + np.diag(sdb, -1)
+    BinvD = np.linalg.solve(B, D)
     F = np.concatenate((np.zeros((1, n)), BinvD, np.zeros((1, n))), axis=0)
     S = D.T.dot(BinvD) if ret_s else None
     return S, F
-- 
2.43.0


From 6de26d1b4ed32435d87aef6b55d203e30653c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 137/195] fix: additive models: rounding noise does not enter
 the log determinant of a penalty

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 pystatsm/pygam/smooth_setup.py            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index ab02e68..21c4d33 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -56,8 +56,8 @@ class GaussianAdditiveModel:
             S[i] = Si
             Sj.append(s['S'])
             ranks.append(np.linalg.matrix_rank(Si))
-            u = np.linalg.eigvals(s['S'])
-            ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+            u = np.linalg.eigvalsh(s['S'])
+            ldS.append(np.log(u[len(u)-ranks[-1]:]).sum())
         self.X, self.Xp, self.y = np.concatenate(X, axis=1), Xp.values, y.values[:, 0]
         self.S, self.Sj, self.ranks, self.ldS = S, Sj, ranks, ldS
         self.f, self.smooths = family, smooths
diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index dc1f0bd..8546de4 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -116,7 +116,7 @@ def get_smooth_matrices(Xp, smooths, n_smooth_terms, n_total_params):
         X.append(smooths[var]['X'])
         S[i] = Si
         ranks.append(np.linalg.matrix_rank(Si))
-        u = np.linalg.eigvals(s['S'])
-        ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+        u = np.linalg.eigvalsh(s['S'])
+        ldS.append(np.log(u[len(u)-ranks[-1]:]).sum())
     return X, S, ranks, ldS
 
-- 
2.43.0


From 36a61cae536ad89585b5578c0c455f2964dedb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 138/195] fix: Huber keeps the tuning constant it is given

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..838acb9 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
-- 
2.43.0


From 4bbfe271a414ceedc5b53e22e5e4258e94e889d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 139/195] fix: expected psi of an M-estimator integrates psi,
 not rho

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 838acb9..810e17c 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From 6125037c406b169890bfb784071ef187e9aca5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 140/195] fix: M-estimator functions no longer truncate for
 integer input

---
 pystatsm/pyrobust/m_estimators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 810e17c..8546925 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -91,7 +91,7 @@ class Huber(MEstimator):
         
     def rho(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -101,7 +101,7 @@ class Huber(MEstimator):
     
     def psi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -111,7 +111,7 @@ class Huber(MEstimator):
     
     def phi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -120,7 +120,7 @@ class Huber(MEstimator):
     
     def weights(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -163,7 +163,7 @@ class Bisquare(MEstimator):
         self.c = c
     
     def rho(self, x, c=None):
-        x = np.atleast_1d(x)
+        x = np.atleast_1d(np.asarray(x, dtype=float))
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -176,7 +176,7 @@ class Bisquare(MEstimator):
         return y
         
     def psi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -187,7 +187,7 @@ class Bisquare(MEstimator):
         return y
 
     def phi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -198,7 +198,7 @@ class Bisquare(MEstimator):
         return y
         
     def weights(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
-- 
2.43.0


From 72c691d72e16905e546d8da7f8d6c908bba860a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 141/195] fix: estimate_simultaneous uses the rho function the
 estimators have

---
 pystatsm/pyrobust/m_estimators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 8546925..aba85e2 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -223,7 +223,7 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
    
     mu, sd = np.median(x, axis=0), dispersion_est(x)
     r = (x - mu) / sd
-    f_prev = func.rho_func(r).sum()
+    f_prev = func.rho(r).sum()
     
     mu_vec = np.zeros(n_iters)
     sd_vec = np.ones(n_iters)
@@ -235,15 +235,14 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
     
     for i in range(n_iters):
         w_mu = func.weights(r)
-        w_sd =func.scale_weights(r)
         
         mu = np.sum((w_mu * x)) / np.sum(w_mu)
-        sd = np.sqrt((sd**2) / (d * n) * np.sum(w_sd * r**2))
+        sd = np.sqrt((sd**2) / (d * n) * np.sum(func.rho(r)))
         mu_vec[i] = mu
         sd_vec[i] = sd
         r = (x - mu) / sd
         
-        f_new = func.rho_func(r).sum()
+        f_new = func.rho(r).sum()
         fvals[i] = f_new
         if np.abs(f_new - f_prev)<tol:
             break
-- 
2.43.0


From 534cfc96e2f0dc86abbbcb5f5c60192cb0b8f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 142/195] fix: RobustLM uses the tuning constant it is given

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..1af069e 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c=c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From ab244ab88b2baa13d5bdafc3e3cf1df2c119e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 143/195] fix: RobustLM.irwls weights are psi(u)/u, also at
 zero residuals

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 1af069e..d1f6f01 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -119,7 +119,7 @@ class RobustLM:
                 v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
                 s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
             u = r /s
-            w = np.sqrt(self.f.psi(u) / u)
+            w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
             r_new = self.y - self.X.dot(b_new)
             
-- 
2.43.0


From 7c5cac4cbce444ca7ac0902532957e2fbf92ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 144/195] fix: RobustLM.irwls with the Huber scale uses the
 estimator's E_psi2

---
 pystatsm/pyrobust/rls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index d1f6f01..d528cba 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -117,7 +117,8 @@ class RobustLM:
                 s = mad(r)
             else:
                 v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
-                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
+                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) *
+                                           self.f.E_psi2() / 2.0))
             u = r /s
             w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
-- 
2.43.0


From c98de3f1d667f34a8ba9a8787583a800a125a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 145/195] fix: RobustLM covariances evaluate psi at the scaled
 residuals

---
 pystatsm/pyrobust/rls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index d528cba..57b7355 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -146,8 +146,8 @@ class RobustLM:
         self.scale = np.exp(self.theta[-1])
         self.resids = self.y - self.X.dot(self.beta)
         
-        self.psi_r = self.f.psi(self.resids)
-        self.phi_r = self.f.phi(self.resids)
+        self.psi_r = self.f.psi(self.resids / self.scale)
+        self.phi_r = self.f.phi(self.resids / self.scale)
         
         self.dfe = (self.n_obs-self.n_var)
         
@@ -156,9 +156,9 @@ class RobustLM:
         
         self.k = 1.0 + self.n_var / self.n_obs * np.var(self.phi_r) / self.E_phi**2
         
-        self.k1 = self.k**2 * self.E_psi_sq / self.E_phi**2
-        self.k2 = self.k * self.E_psi_sq / self.E_phi
-        self.k3 = self.E_psi_sq / self.k
+        self.k1 = self.scale**2 * self.k**2 * self.E_psi_sq / self.E_phi**2
+        self.k2 = self.scale**2 * self.k * self.E_psi_sq / self.E_phi
+        self.k3 = self.scale**2 * self.E_psi_sq / self.k
         
         self.XtX = self.X.T.dot(self.X)
         self.G = np.linalg.inv(self.XtX)
-- 
2.43.0


From 610a22dc5b11ef60f72a934707873807e158aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 146/195] fix: Qn is the k-th smallest pairwise distance,
 diagonal excluded

---
 pystatsm/pyrobust/dispersion_estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index 1125479..49250ce 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -107,9 +107,9 @@ def qn_estimator(x, corrected=True, *args):
     n = len(x)
     a, b = np.tril_indices(n, -1)
     m = np.fabs(x[a] - x[b])
-    h = np.ceil(n / 2) + 1
+    h = n // 2 + 1
     k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    m = m[np.argsort(m)[k - 1]]
     if corrected:
         m = m*PHI58
     return m
@@ -118,9 +118,9 @@ def qn_estimator(x, corrected=True, *args):
 def qn_estimator2(x, corrected=True):
     n = len(x)
     m = vech(np.fabs(np.subtract.outer(x, x)))
-    h = np.ceil(n / 2) + 1
+    h = n // 2 + 1
     k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    m = m[np.argsort(m)[n + k - 1]]
     if corrected:
         m = m*PHI58
     return m
-- 
2.43.0


From 24901460812afe08eab1d4afff6218d88b7cc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 147/195] fix: RobustSLM starts from the residual scale, not
 its logarithm

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 57b7355..dbcd8d3 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -212,7 +212,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = np.log(mad(self.y - self.X.dot(self.beta_init)))
+        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From 46d28575d44d144661820cc3b96e9f77d3b6eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 148/195] fix: nested groupings accept parents with any level
 labels

---
 pystatsm/pylmm/sim_lmm2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/sim_lmm2.py b/pystatsm/pylmm/sim_lmm2.py
index 1f8c647..51919a0 100644
--- a/pystatsm/pylmm/sim_lmm2.py
+++ b/pystatsm/pylmm/sim_lmm2.py
@@ -148,8 +148,8 @@ def build_groupings(n_obs, *factors):
                              f"declared before it")
         if f.n_per_parent is None:
             raise ValueError(f"{f.name}: need n_per_parent or membership")
-        parent = out[f.parent]
-        n_parent_levels = int(parent.max()) + 1
+        parent_levels, parent = np.unique(out[f.parent], return_inverse=True)
+        n_parent_levels = len(parent_levels)
         child = np.zeros(n_obs, dtype=np.int64)
         for p in range(n_parent_levels):
             mask = parent == p
-- 
2.43.0


From cf81be872f56fd8266bf1fe0773960a7aa7f322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 149/195] fix: a rescaled mixed model simulation keeps the
 covariates its ratios refer to

---
 pystatsm/pylmm/sim_lmm2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/sim_lmm2.py b/pystatsm/pylmm/sim_lmm2.py
index 51919a0..5992e61 100644
--- a/pystatsm/pylmm/sim_lmm2.py
+++ b/pystatsm/pylmm/sim_lmm2.py
@@ -278,10 +278,10 @@ def rescale_to_var_ratios(spec, X, re_mod, r_fe, r_re):
 
 class MixedModelSim:
 
-    def __init__(self, spec, rng=None):
+    def __init__(self, spec, rng=None, df=None):
         self.spec = spec
         self.rng = np.random.default_rng() if rng is None else rng
-        self.df = build_frame(spec, self.rng)
+        self.df = build_frame(spec, self.rng) if df is None else df.copy()
         self.X, self.re_mod = build_design(spec, self.df)
         self.Z = self.re_mod.Z
         self.theta_true = spec_to_theta(spec)
@@ -309,7 +309,7 @@ class MixedModelSim:
 
     def rescaled(self, r_fe, r_re):
         new_spec = rescale_to_var_ratios(self.spec, self.X, self.re_mod, r_fe, r_re)
-        return MixedModelSim(new_spec, self.rng)
+        return MixedModelSim(new_spec, self.rng, self.df)
 
     def to_lmm(self, y):
         df = self.df.copy()
-- 
2.43.0


From 50802b68c8bedf984d70f2e313dcfd0d4b726748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 150/195] fix: simulated random effects follow the order of the
 model matrix, not of a set

---
 pystatsm/pylmm/sim_lmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 4280936..b9170f7 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -27,7 +27,7 @@ def parse_vars(formula, model_dict):
         frm = frm.replace(x, "")
     fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
     re_form, re_groupings = list(zip(*groups))
-    re_form, re_groupings = set(re_form), set(re_groupings)
+    re_form, re_groupings = set(re_form), list(dict.fromkeys(re_groupings))
 
     yvars, fe_form = re.split("[~]", fe_form)
     fe_form = re.sub("\+$", "", fe_form)
-- 
2.43.0


From e9b5338afac80ca5d90fb71b9f5bdb8b464558a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 151/195] fix: random effect variance of the mixed model
 simulator includes covariances

---
 pystatsm/pylmm/sim_lmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index b9170f7..b18e71c 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -66,7 +66,7 @@ def _make_sim_theta(model_dict):
 
 
 def get_var_comps(Xb, Z, G):
-    re_var = np.mean(np.einsum("ij,jj,ij->i", Z, G.toarray(), Z))
+    re_var = np.mean(np.einsum("ij,jk,ik->i", Z, G.toarray(), Z, optimize=True))
     fe_var = np.dot(Xb.T, Xb) / Xb.shape[0]
     return fe_var, re_var
 
-- 
2.43.0


From cd02df2dd11edb874d5370daa15d3e7e7948e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 152/195] fix: the mixed model simulator does not rescale its
 caller's covariances

---
 pystatsm/pylmm/sim_lmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index b18e71c..36d193e 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -105,6 +105,7 @@ class MixedModelSim:
         None.
 
         """
+        model_dict = {**model_dict, "gcov": dict(model_dict["gcov"])}
         rng = np.random.default_rng() if rng is None else rng
         ranef_dist =  rng.multivariate_normal if ranef_dist is None else ranef_dist
         resid_dist =  rng.normal if resid_dist is None else resid_dist
-- 
2.43.0


From 8761236748270e0bceacec6bbfcd82a3ba4cf93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 153/195] fix: variables of a mixed model formula are reported
 without blanks

---
 pystatsm/utilities/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index cc178c1..69e523b 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -40,7 +40,7 @@ def parse_random_effects(formula):
     for re_form in re_forms:
         x_vars.extend(re.split("[+]", re_form))
 
-    x_vars = list(dict.fromkeys(x_vars))
+    x_vars = list(dict.fromkeys(x.strip() for x in x_vars if x.strip()))
     consts = ["0", "1"]
     x_vars = [x for x in x_vars if x not in consts]
     model_info = dict(y_vars=y_vars, x_vars=x_vars, fe_form=fe_form,
-- 
2.43.0


From 240960b23ba7a2acc41e341c6b8897669aca1691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 154/195] fix: MixedModelSim.update_model rebuilds the bordered
 matrix of the current LMM

---
 pystatsm/pylmm/sim_lmm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 36d193e..abca50b 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -198,10 +198,13 @@ class MixedModelSim:
         return y, u
     
     def update_model(self, model, y):
+        y = np.asarray(y).reshape(-1, 1)
         model.y = y
-        model.Xty, model.Zty, model.yty = model.X.T.dot(y), model.Z.T.dot(y), y.T.dot(y)
-        model.m = sp.sparse.csc_matrix(np.vstack([model.Xty, model.Zty]))
-        model.M = sp.sparse.bmat([[model.C, model.m], [model.m.T, model.yty]])
+        model.Xty = sp.sparse.csc_matrix(model.X.T.dot(y))
+        model.Zty = sp.sparse.csc_matrix(model.Z.T.dot(y))
+        m = sp.sparse.vstack([model.Xty, model.Zty])
+        yty = sp.sparse.csc_matrix(y.T.dot(y))
+        model.M = sp.sparse.bmat([[model.M[:-1, :-1], m], [m.T, yty]]).tocsc()
         return model
     
     def sim_fit(self, model, theta_init, method='l-bfgs-b', bounds=None,
-- 
2.43.0


From 95d587cd1b2ccf39ca2b91a9e8aef81a91d17e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 155/195] fix: parse_random_effects keeps the operator after a
 random term in spaced formulas

---
 pystatsm/utilities/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index 69e523b..f4b3d2b 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -30,7 +30,7 @@ def parse_random_effects(formula):
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub("(\+|\-)\s*(\+|\-)(\s*(\+|\-))*", replace_duplicate_operators, frm)
     yvars, fe_form = re.split("[~]", fe_form)
     fe_form = re.sub(r"[+\s]+$", "", fe_form).strip()
     y_vars = re.split(",", re.sub("\(|\)", "", yvars))
-- 
2.43.0


From a94da201e28809c654529035605e831bb6a29798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 156/195] fix: scalar_truncnorm without bounds draws from the
 normal it is given

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..13263e7 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -128,7 +128,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = np.random.normal(0.0, 1.0)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
-- 
2.43.0


From 4f800b4a311b4cc3057e8c4ee9cb2fb78daba049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 157/195] fix: trnorm returns draws in double precision, within
 their bounds

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 13263e7..e1be7bd 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -179,7 +179,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
 @numba.jit(nopython=True)
 def trnorm(mu, sd, lb, ub):
     n = len(mu)
-    z = np.zeros((n, ), dtype=numba.float32)
+    z = np.zeros((n, ), dtype=numba.float64)
     for i in range(n):
         z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
     return z
-- 
2.43.0


From af46338bf8b0642993313bc63020ca6695c160bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 158/195] fix: multivariate_t is centred at its mean, not
 scaled around it

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index e1be7bd..2ba6350 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -197,7 +197,7 @@ def cauchy(loc, scale, size=None, rng=None):
 def multivariate_t(mean, cov, nu=1, size=None, rng=None):
     rng = np.random.default_rng() if rng is None else rng
     u = np.sqrt(nu / rng.chisquare(df=nu, size=size))[:, np.newaxis]
-    Y = rng.multivariate_normal(mean=mean, cov=cov, size=size)
+    Y = rng.multivariate_normal(mean=np.zeros_like(mean, dtype=float), cov=cov, size=size)
     X = mean + u * Y
     return X
 
-- 
2.43.0


From b89ea29ec905fe1e878184385cf622faec61c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 159/195] fix: r_lkj accepts dimension one

---
 pystatsm/utilities/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 2ba6350..36f1a40 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -206,6 +206,8 @@ def r_lkj_cholesky(eta=1.0, n=1, dim=1, rng=None, seed=None):
 
     eta = np.atleast_1d(eta)
     batch_shape = np.concatenate([[n], np.shape(eta)], axis=0).astype(np.int32)
+    if dim == 1:
+        return np.ones(list(batch_shape) + [1, 1])
     beta = eta + (dim - 2.) / 2.
     dimension_range = np.arange(1., dim)
     a = dimension_range / 2.
-- 
2.43.0


From bec1a04304f4dfa2295ce808c2f72fcfadc575a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 160/195] fix: antedependence correlations are symmetric for
 four or more variables

---
 pystatsm/utilities/cov_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 00bb423..1be2150 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -180,7 +180,8 @@ def get_antedependence1_corr(rho, n_var=None):
         r.append(np.cumprod(rho[i:]))
     r = np.concatenate(r)
     R = np.eye(n_var)
-    R[np.triu_indices(n_var, 1)[::-1]] = R[np.tril_indices(n_var, -1)[::-1]] = r
+    i, j = np.triu_indices(n_var, 1)
+    R[i, j] = R[j, i] = r
     return R
 
 def get_factor_cov(A, Psi, Phi=None, n_var=None):
-- 
2.43.0


From 899365e84b5efc0c9295dd51a3036d4a3de9f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 161/195] fix: get_exchangeable_corr accepts its default size
 of one

---
 pystatsm/utilities/cov_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 1be2150..7e43549 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -131,7 +131,7 @@ def get_exchangeable_corr(n_var=1, c=0.0):
         Exchangeable/Compound Symmetry correlation matrix.
 
     """
-    lb = -1.0 / (n_var - 1)
+    lb = -1.0 / max(n_var - 1, 1)
     if c < lb or c>1:
         raise ValueError("c must be between -1/(n_var-1) and 1")
     R = np.eye(n_var)
-- 
2.43.0


From 64781570205ab7ea93c59a4d6fe05d6795e1c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 162/195] fix: the Gaussian spatial correlation decays with the
 squared distance

---
 pystatsm/utilities/cov_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 7e43549..9fa7bdc 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -263,9 +263,9 @@ def get_spatialgaussian_corr(s, distances, n_var=None):
     R : array
     """
     if distances.ndim==2:
-        R = np.exp(-distances / s**2)
+        R = np.exp(-distances**2 / s**2)
     else:
-        R = sp.spatial.distance.squareform(np.exp(-distances/s**2))
+        R = sp.spatial.distance.squareform(np.exp(-distances**2/s**2))
         R[np.diag_indices_from(R)] += 1.0
     return R
 
-- 
2.43.0


From 604821437fa16fd5d18992e12eb3991281984dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 163/195] fix: canonical correlations can be set when the first
 set of variables is larger

---
 pystatsm/utilities/cov_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 9fa7bdc..7fef697 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -308,9 +308,10 @@ def _get_joint_corr_r(Sxx, Syy, r):
     
     B_inv = np.linalg.inv(B)
     
-    B1 = B_inv[:Sxx.shape[0]]
+    k = len(r)
+    B1 = B_inv[:k]
                     
-    Sxy = np.linalg.inv(A.T).dot(np.diag(r)).dot(B1)
+    Sxy = np.linalg.inv(A.T)[:, :k].dot(np.diag(r)).dot(B1)
     S = np.block([[Sxx, Sxy], [Sxy.T, Syy]])
     return S
 
-- 
2.43.0


From b3b3c90ad0283ee8116995161500d113c5b622da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 164/195] fix: flat_cross_tabulate works with numpy 2

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..019782a 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -405,7 +405,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(np.prod(counts.shape[:-1]), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From 7bf778d5a7eac8e6f61d675a994bcdad1489f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 165/195] fix: extremal_indices selects along its axis

---
 pystatsm/utilities/data_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 019782a..482830e 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -433,9 +433,11 @@ def expand_crosstab(table):
 
 def extremal_indices(arr, n, axis=-1, largest=True):
     if largest:
-        return np.argpartition(arr, -n, axis=axis)[-n:]
+        ix = np.argpartition(arr, -n, axis=axis)
+        return np.take(ix, np.arange(arr.shape[axis] - n, arr.shape[axis]), axis=axis)
     else:
-        return np.argpartition(arr, n, axis=axis)[:n]
+        ix = np.argpartition(arr, n - 1, axis=axis)
+        return np.take(ix, np.arange(n), axis=axis)
 
 
 
-- 
2.43.0


From 193d858b569c6642ebc90cc55f38aabe428afcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 166/195] fix: the k-th sign change counts changes, not values
 of another sign

---
 pystatsm/utilities/data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 482830e..93ddd6f 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -291,6 +291,7 @@ def _kth_sign_change_1d(arr, b, k=1):
     for i in range(1, n):
         if np.sign(arr[i]-b)!=s:
             j += 1
+            s = np.sign(arr[i]-b)
         if j==k:
             break
     return i-1
-- 
2.43.0


From d0a8b5d132fe1a88e487da33540a10294c2b9dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 167/195] fix: welford_variance along the last axis of an array
 of three or more dimensions

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 93ddd6f..26c9beb 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -350,7 +350,7 @@ def welford_variance(arr, axis=None, unbiased=False):
     n = shape.pop(axis)
     mean = np.zeros(tuple(shape))
     sumsq = np.zeros(tuple(shape))
-    arr = np.swapaxes(arr, 0, axis)
+    arr = np.ascontiguousarray(np.moveaxis(arr, axis, 0))
     mean, sumsq = _welford_variance(arr, n, mean, sumsq)
     variance = sumsq / (n - unbiased)
     return mean, variance
-- 
2.43.0


From afeea56d97df393a5d30867f4cc2c76307d6a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 168/195] fix: welford_cov returns the means in the order of
 its arguments

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 26c9beb..7fd7a6b 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -387,7 +387,7 @@ def welford_cov(arr1, arr2=None, unbiased=False):
         p = arr2.shape[1]
         mean1, mean2, prod = np.zeros(k), np.zeros(p), np.zeros((k, p))
         mean1, mean2, prod = _welford_cov_cross(arr1, arr2, mean1, mean2, prod, n)
-        mean = np.r_[mean2, mean1]
+        mean = np.r_[mean1, mean2]
     cov = prod / (n - unbiased)
     return mean, cov 
 
-- 
2.43.0


From d3fd11a29760d3e563fec1a9d744b2fe990035de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 169/195] fix: ICA convergence check compares components rather
 than rows

---
 pystatsm/pyica/ica.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 4e80424..d0ae82d 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -41,7 +41,8 @@ def _convergence_check(W_new, W_old, n):
     return prods
     
 def convergence_check(W_new, W_old, n):
-    prods = _convergence_check(W_new, W_old, n)
+    prods = _convergence_check(np.ascontiguousarray(W_new.T),
+                               np.ascontiguousarray(W_old.T), n)
     conv = max(abs(abs(prods) - 1))
     return conv
 
-- 
2.43.0


From 2d35fce1c8cf0afa430c496f058a65cbeafd67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 170/195] fix: fast ICA update scales each component by its own
 mean derivative

---
 pystatsm/pyica/ica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index d0ae82d..71b5942 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -54,7 +54,7 @@ def _fast_ica(Xw, W_init, maxiters=500):
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
         E_XtGY, E_dGy = cov(Xw, Gy), np.diag(np.mean(dGy, axis=0))
-        W_new = symmetric_decorr(E_XtGY - (E_dGy).dot(W))
+        W_new = symmetric_decorr(E_XtGY - W.dot(E_dGy))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From bff40e87fcac1da8e6280575d26e997fa92f59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 171/195] fix: maximum likelihood ICA update has the diagonal
 sign and side of its column components

---
 pystatsm/pyica/ica.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 71b5942..5deca0e 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -72,11 +72,11 @@ def _fast_ica2(Xw, W_init, maxiters=500):
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
         EGYYt = cov(Y, Gy)
-        beta = np.diag(EGYYt)
+        beta = -np.diag(EGYYt)
         alpha = -1.0 / (beta + np.mean(dGy, axis=0))
         A = np.diag(alpha)
         B = np.diag(beta)
-        W_new = symmetric_decorr(W + (A.dot(B+EGYYt)).dot(W))
+        W_new = symmetric_decorr(W + W.dot((B+EGYYt).dot(A)))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From 799228a371c084c5b889d44ce8af9df8f6da298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 172/195] fix: CCA extracts min(p, q) components by default

---
 pystatsm/pyscca/base_cca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/base_cca.py b/pystatsm/pyscca/base_cca.py
index afbcfaf..bf74881 100644
--- a/pystatsm/pyscca/base_cca.py
+++ b/pystatsm/pyscca/base_cca.py
@@ -70,7 +70,7 @@ class CCA(object):
         return Zx, Zy
         
     def _fit(self, n_comps=None, compute_projections=True, compute_canvars=True):
-        n_comps = self.p if n_comps is None else n_comps
+        n_comps = min(self.p, self.q) if n_comps is None else n_comps
         Wx, Wy, rhos = self._cca_svd(self.Sxy, self.Sxx_isq, self.Syy_isq)
         Wx, Wy = Wx[:, :n_comps], Wy[:, :n_comps]
         Lx, Ly = self.Sxx.dot(Wx), self.Syy.dot(Wy)
-- 
2.43.0


From 4ec4f23a30e3d210556b67fe599ca5a95c439d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 173/195] fix: SimCCA supports more x variables than y
 variables and fewer canonical correlations

---
 pystatsm/pyscca/cca_sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyscca/cca_sim.py b/pystatsm/pyscca/cca_sim.py
index b5a7e1a..29a337f 100644
--- a/pystatsm/pyscca/cca_sim.py
+++ b/pystatsm/pyscca/cca_sim.py
@@ -22,7 +22,8 @@ class SimCCA(object):
         self.seed, self.rng = seed, rng
         self.n_xvars = self.p = n_xvars
         self.n_yvars = self.q = n_yvars
-        rhos = 1/(np.linspace(1, n_xvars, n_xvars)+1/19) if rhos is None else rhos
+        n_comps = min(n_xvars, n_yvars)
+        rhos = 1/(np.linspace(1, n_comps, n_comps)+1/19) if rhos is None else rhos
         Sxx = r_lkj(eta=1.0, n=1, dim=n_xvars, rng=rng)[0, 0] if x_corr is None else x_corr
         Syy = r_lkj(eta=1.0, n=1, dim=n_yvars, rng=rng)[0, 0] if y_corr is None else y_corr
         if x_coefs is None or y_coefs is None:
@@ -56,9 +57,10 @@ class SimCCA(object):
         
         B_inv = np.linalg.inv(B)
         
-        B1 = B_inv[:self.n_xvars]
+        k = len(rhos)
+        B1 = B_inv[:k]
                         
-        Sxy = np.linalg.inv(A.T).dot(np.diag(rhos)).dot(B1)
+        Sxy = np.linalg.inv(A.T)[:, :k].dot(np.diag(rhos)).dot(B1)
         S = np.block([[Sxx, Sxy], [Sxy.T, Syy]])
         self.corr = self.S = S
         self.x_corr = self.Sxx = Sxx
-- 
2.43.0


From ad7e2021cd4b5910c64f384b2982627e80cb8398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 174/195] fix: SCCA.fit selects the penalty from the canonical
 correlations for any number of components

---
 pystatsm/pyscca/scca.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index b78e73b..8faf650 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -579,7 +579,9 @@ class SCCA:
         self.Wxcv, self.Wycv, self.rf, self.rt, self.lambdas, optinfo = self.crossval(ncv,
                                                                                       n_comps,
                                                                                       **cv_kws)
-        self.lmax = np.argmax(self.rt.mean(axis=1)[:, [0, 2]].mean(axis=1))
+        k = self.Wxcv.shape[-1]
+        ix = np.cumsum(np.r_[0, np.arange(k, 1, -1)])
+        self.lmax = np.argmax(self.rt.mean(axis=1)[:, ix].mean(axis=1))
         self.lam = self.lambdas[self.lmax]
         self.Wx, self.Wy, self.rho, self.optinfo = self._fit(self.lam, self.lam,
                                                              n_comps,
-- 
2.43.0


From 231ac77fb3665d98e14a0b760424e2d959aac203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 175/195] fix: convolutive reconstruction works with numpy 2

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 495f417..25b833d 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -75,7 +75,7 @@ def conv2(A, B, mode='full'):
 
 def reconstruct(W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) + 2 * L
+    t = int(np.prod(H.shape[1:])) + 2 * L
     H = np.pad(H, ((0, 0), (L, L)))
     X_hat = np.zeros((n, t))
     for tau in range(L):
@@ -85,7 +85,7 @@ def reconstruct(W, H):
     
 def seqnmf_objfunc(X, W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) 
+    t = int(np.prod(H.shape[1:])) 
     X_hat = reconstruct(W, H)
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
-- 
2.43.0


From 6b3109ffc7b50eaeeb6d7fdcc108d312da3b37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 176/195] fix: seqnmf penalty shifts the data against each lag
 of the factors

---
 pystatsm/pynmf/hfuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 25b833d..446bd98 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -90,7 +90,7 @@ def seqnmf_objfunc(X, W, H):
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
     for i in range(L):
-        X_shifted = shift(X, ((0, 0), (0, i)))
+        X_shifted = np.pad(X, ((0, 0), (0, i)))[:, i:]
         WtX += W[:, :, i].T.dot(X_shifted)
     WtXSHt = (sp.signal.convolve2d(WtX, Sk, 'same').dot(H.T))
     WtXSHt = WtXSHt * (1 - np.eye(WtXSHt.shape[0])) # probably not very effecient
-- 
2.43.0


From bda693917480b30c1400771c9e5401d5245b9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 177/195] fix: center_factors shifts and returns both factors

---
 pystatsm/pynmf/hfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 446bd98..ce65a5c 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -114,14 +114,14 @@ def center_factors(W, H):
     center = np.maximum(np.floor(L / 2), 1)
     W_pad  = np.pad(W, ((0, 0), (0, 0), (L, L)))
     for i in range(k):
-        tmp = np.sum(np.squeeze(W[:, i]), axis=0)
+        tmp = np.sum(W[:, i], axis=0)
         v = np.arange(1, len(tmp)+1)
         cmass = np.maximum(np.floor(np.sum(tmp*v)/np.sum(tmp)), 1)
-        W_pad[:, i] = np.roll(np.squeeze(W_pad[:, i]), int(center-cmass), 
+        W_pad[:, i] = np.roll(W_pad[:, i], int(center-cmass), 
                               axis=1)
-        H[i] = np.roll(H[i], int(cmass-center), axis=1)
+        H[i] = np.roll(H[i], int(cmass-center))
     W = W_pad[:, :, L:-L]
-    return W
+    return W, H
 
 
 
-- 
2.43.0


From 0b72fe8d6261760ae0f7d154cbe7664bc8c8323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 178/195] fix: distance correlation permutation p-value divides
 by the number of permutations

---
 pystatsm/misc/independence_tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/independence_tests.py b/pystatsm/misc/independence_tests.py
index 60112bc..010e5e3 100644
--- a/pystatsm/misc/independence_tests.py
+++ b/pystatsm/misc/independence_tests.py
@@ -80,7 +80,7 @@ def _dcorr_permutation_test(X, Y, n_perms=1000, unbiased=True):
     for i in numba.prange(n_perms):
         rp =  _dcorr(X, Y[np.random.permutation(n)], unbiased=unbiased)
         c += abs(rp)>abs(r)
-    p = c / n
+    p = c / n_perms
     return r, p
     
 @numba.jit(nopython=True, parallel=True)
-- 
2.43.0


From 804eeb0cd9f5fe03b34fa6866ff452ba8347363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 179/195] fix: conv2 in same mode returns the central part with
 the shape of its input

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index ce65a5c..62e8606 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -65,8 +65,8 @@ def shift(arr, n_shift, constant_value=0.0):
 def conv2(A, B, mode='full'):
     C = sp.signal.convolve2d(A, B, mode='full')
     if mode=='same':
-        a1 = int(np.floor(C.shape[0] / 2) - 1)
-        a2 = int(np.floor(C.shape[1] / 2) - 1)
+        a1 = (B.shape[0] - 1) // 2
+        a2 = (B.shape[1] - 1) // 2
         b1, b2 = int(a1+A.shape[0]), int(a2+A.shape[1])
         C = C[a1:b1, a2:b2]
     return C
-- 
2.43.0


From c68305447412ff8486349e239d835be6b84d8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 180/195] fix: third central moment of shash1.skewness

---
 pystatsm/misc/shash1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index fce3a8e..569b030 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -33,9 +33,9 @@ def variance(m, s, v, t):
 
 def skewness(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
     E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
-    mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z - E_Z**3)
+    mu_3_Y = s**3 * (E_Z_3 - 3 * E_Z_2 * E_Z + 2 * E_Z**3)
     return mu_3_Y / variance(m, s, v, t)**1.5
 
 def excess_kurtosis(m, s, v, t):
-- 
2.43.0


From 1e5f39950d5313fdbb5d47d1684192fe9db1f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 181/195] fix: fourth central moment of shash1.excess_kurtosis

---
 pystatsm/misc/shash1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index 569b030..5e7824b 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -40,9 +40,10 @@ def skewness(m, s, v, t):
 
 def excess_kurtosis(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
     E_Z_4 = (1 / 8) * (np.cosh(4 * v / t) * P(4 / t) - 4 * np.cosh(2 * v / t) * P(2 / t) + 3)
-    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z**3 + 6 * Var_Z * E_Z**2 + 3 * E_Z**4)
+    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z_3 * E_Z + 6 * E_Z_2 * E_Z**2 - 3 * E_Z**4)
     return mu_4_Y / variance(m, s, v, t)**2 - 3
 
 def pdf(y, m, s, v, t):
-- 
2.43.0


From e1aa8384d6949fd69b1701e760435942e3afb8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:48 +0000
Subject: [PATCH 182/195] fix: SkewNorm methods take the three parameters of
 the skew normal

---
 pystatsm/misc/skewnorm_dist.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 6d3f955..288f6e9 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -14,24 +14,24 @@ RT2 = np.sqrt(2.0)
 class SkewNorm:
     
     @staticmethod
-    def loglike(y, mu, sigma, nu, tau):
-        return _logpdf(y, mu, sigma, nu, tau)
+    def loglike(y, mu, sigma, nu):
+        return _logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d1loglike(y, mu, sigma, nu, tau):
-        return _d1logpdf(y, mu, sigma, nu, tau)
+    def d1loglike(y, mu, sigma, nu):
+        return _d1logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d2loglike(y, mu, sigma, nu, tau):
-        return _d2logpdf(y, mu, sigma, nu, tau)
+    def d2loglike(y, mu, sigma, nu):
+        return _d2logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d3loglike(y, mu, sigma, nu, tau):
-        return _d3logpdf(y, mu, sigma, nu, tau)
+    def d3loglike(y, mu, sigma, nu):
+        return _d3logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d4loglike(y, mu, sigma, nu, tau):
-        return _d4logpdf(y, mu, sigma, nu, tau)
+    def d4loglike(y, mu, sigma, nu):
+        return _d4logpdf(y, mu, sigma, nu)
 
     
 def _expand_arrs(*arrs):
-- 
2.43.0


From e494def0526b68ca9288528745bb054485659c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 183/195] fix: SEM aligns every model table with the order of
 the variables

---
 pystatsm/pysem/sem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 17692b6..ff60dc1 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -69,6 +69,9 @@ class SEM:
         if S is None:
             S = data.cov(ddof=0)
         Lambda = Lambda.loc[S.index] #Align loadings and variable order
+        Psi = Psi.loc[S.index, S.index]
+        Beta = Beta.loc[Lambda.columns, Lambda.columns]
+        Phi = Phi.loc[Lambda.columns, Lambda.columns]
         
         n_mvars, n_lvars = Lambda.shape 
         
@@ -88,7 +91,7 @@ class SEM:
                     vi = np.argmax(LAf.loc[:, var])
                     LAf.iloc[vi, i] = 0.0
         else:
-            LAf = LAf - indicator_vars
+            LAf = LAf - indicator_vars.loc[LAf.index, LAf.columns]
         
         LAf = np.asarray(LAf)
         BEf = np.asarray(Beta.copy())
-- 
2.43.0


From 600b17c4158acadf1d59bc876f4b9ec2a368c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 184/195] fix: SEM fixes the first specified indicator whatever
 its start value

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index ff60dc1..a2415df 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -88,7 +88,7 @@ class SEM:
         if indicator_vars is None:
             for i, var in enumerate(Lambda.columns):
                 if (Phi.loc[var, var]!=0.0) or ((LAf.loc[:, var]!=0).sum()==1):
-                    vi = np.argmax(LAf.loc[:, var])
+                    vi = np.argmax(LAf.loc[:, var]!=0)
                     LAf.iloc[vi, i] = 0.0
         else:
             LAf = LAf - indicator_vars.loc[LAf.index, LAf.columns]
-- 
2.43.0


From dc59813bbfe383260a139894f418545d0d4919ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 185/195] fix: SEM loading and path labels follow the column
 order of the parameters

---
 pystatsm/pysem/sem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index a2415df..e212057 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -121,10 +121,10 @@ class SEM:
                 
         ovn, svn = Lambda.index, Lambda.columns
         
-        ix1, ix2 = np.where(LAf)
+        ix2, ix1 = np.where(LAf.T)
         lambda_labels = [f"{x}<-{y}" for x,y in list(zip(ovn[ix1], svn[ix2]))]
         
-        ix1, ix2 = np.where(BEf)
+        ix2, ix1 = np.where(BEf.T)
         beta_labels = [f"{x}~{y}" for x,y in list(zip(svn[ix1], svn[ix2]))]
         
         ix1, ix2 = [], []
-- 
2.43.0


From d5ef11b68a92b4af0bf52b4071c08a582e58218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 186/195] fix: SEM chi-square probability uses the model
 degrees of freedom

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index e212057..dfcd2f1 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -480,7 +480,7 @@ class SEM:
         LLF = self.n_obs * LL + self.n_obs * self.p * np.log(2.0 * np.pi)
         fval =  LL - self.ldS - self.p
         Chi2 = (self.n_obs - 1) * fval
-        Chi2_pval = sp.stats.chi2(t).sf(Chi2)
+        Chi2_pval = sp.stats.chi2(df).sf(Chi2)
         GFI = 1.0 - np.trace((SV - self.Ip).dot(SV-self.Ip)) / np.trace(SV.dot(SV))
         if df!=0:
             AGFI = 1.0 - (self.df_cov / df) *  (1.0 - GFI)
-- 
2.43.0


From 36a9d7aee83eeefdd04eb6bccc051b9a423cf923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 187/195] fix: SEM critical sample sizes at their own levels

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index dfcd2f1..19239a8 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -490,7 +490,7 @@ class SEM:
             AGFI = np.nan
             Standardized_Chi2 = np.nan
             RMSEA = np.nan
-        CN01, CN05 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
+        CN01, CN05 = sp.stats.chi2(df).ppf([0.99, 0.95]) / fval + 1.0
 
         AIC = LLF + 2.0  * t
         BIC = LLF + np.log(self.n_obs) * t
-- 
2.43.0


From 1e54eaaf051d72c813c018a8a90c340e24bfdbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:20 +0000
Subject: [PATCH 188/195] fix: SEM standardised residuals divide by both
 standard deviations

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 19239a8..dd8ea7b 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -496,7 +496,7 @@ class SEM:
         BIC = LLF + np.log(self.n_obs) * t
         EVCI = LL + 2.0 * t / (self.n_obs - self.p - 2.0)
         resids = Sigma - self.S
-        v = np.diag(np.sqrt(1.0 / np.diag(self.S)))
+        v = np.diag(1.0 / np.diag(self.S))
         std_sq_resids = vech(v.dot(resids**2).dot(v))
         resids = vech(resids)
         
-- 
2.43.0


From 0770b9877edac3851bdc49284e5c44cdc2ba272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 189/195] fix: SEM discrepancy is infinite where the implied
 covariance is not positive definite

---
 pystatsm/pysem/sem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index dd8ea7b..b6cb06a 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -453,6 +453,8 @@ class SEM:
         LA, _, IB, PH, PS = self.model_matrices(theta)
         A = LA.dot(IB)
         Sigma = A.dot(PH).dot(A.T) + PS
+        if not np.iscomplexobj(Sigma) and np.linalg.eigvalsh(Sigma)[0] <= 0.0:
+            return np.inf
         Sigma_inv = np.linalg.pinv(Sigma)
         LL = np.linalg.slogdet(Sigma)[1] + np.trace(self.S.dot(Sigma_inv))
         return LL
-- 
2.43.0


From ad0d8439aef6af5537f085a30d35f599acd0f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 190/195] fix: LinearModelSim uses the given generator or seed

---
 pystatsm/pyglm2/model_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index d95c3a0..f84b844 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -28,7 +28,7 @@ class LinearModelSim(object):
     def __init__(self, n_obs=1000, n_var=10, formula=None, cat_terms=None,
                  x_vars=None, nlevels=None, corr_kws=None, coef_kws=None,
                  rng=None, seed=None):
-        self.rng = rng if rng is None else np.random.default_rng(seed)
+        self.rng = np.random.default_rng(seed) if rng is None else rng
         self.seed = seed
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
-- 
2.43.0


From 03a9678bf289209ba38c8c16ce3af76ac27fb1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 191/195] fix: LinearModelSim keeps the default number of
 levels

---
 pystatsm/pyglm/glm_sim.py    | 3 +--
 pystatsm/pyglm2/model_sim.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index b6259dc..26ff126 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -31,11 +31,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index f84b844..15111b7 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -33,11 +33,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
-- 
2.43.0


From 8816f958d6e351ff6016e037513d299f32534ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 192/195] fix: LinearModelSim accepts formulas without an
 intercept

---
 pystatsm/pyglm/glm_sim.py    | 2 +-
 pystatsm/pyglm2/model_sim.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index 26ff126..8dff33e 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -169,7 +169,7 @@ class LinearModelSim(object):
                 beta[ix] = self._make_coef(n_var, p_nnz[i])
             else:
                 beta[ix] = self._make_coef_cat(n_var)
-        if zero_intercept:
+        if zero_intercept and "Intercept" in self.term_name_slices:
             beta[self.term_name_slices["Intercept"]] = 0.0
         return beta
     
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 15111b7..97c62d6 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -181,7 +181,7 @@ class LinearModelSim(object):
                 beta[ix] = self._make_coef(n_var, p_nnz[i], rng=rng)
             else:
                 beta[ix] = self._make_coef_cat(n_var)
-        if zero_intercept:
+        if zero_intercept and "Intercept" in self.term_name_slices:
             beta[self.term_name_slices["Intercept"]] = 0.0
         return beta
     
-- 
2.43.0


From be7d4bdeabe62765dc8e2184093ddacfcf4f3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 193/195] fix: LinearModelSim.from_formula handles spaces,
 removed intercepts and repeated terms

---
 pystatsm/pyglm/glm_sim.py    | 10 +++++-----
 pystatsm/pyglm2/model_sim.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index 8dff33e..dffe4fa 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -137,18 +137,18 @@ class LinearModelSim(object):
     def parse_formula(formula):
         if formula.find("~")!=-1:
             _, formula = re.split("[~]", formula)
-        terms = re.split("[+]", formula)
+        formula = re.sub(r"\s+", "", formula)
+        terms = re.split("[+-]", formula)
         x_vars = set([y for x in terms for y in re.split("[:]", x)])
         x_vars = set([y for x in x_vars for y in re.split("[*]", x)])
-        for match in re.findall("C\([^)]+\)", formula):
+        for match in set(re.findall("C\([^)]+\)", formula)):
           x_vars.remove(match)
         cat_terms = re.findall("(?<=C[(])(.*?)(?=[)])", formula)
         for x in cat_terms:
             x_vars.add(x)
         x_vars = sorted(x_vars)
-        cat_terms = cat_terms
-        if "1" in x_vars:
-            x_vars.remove("1")
+        cat_terms = sorted(set(cat_terms))
+        x_vars = [x for x in x_vars if x not in ("0", "1", "")]
         return x_vars, cat_terms
     
     @classmethod
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 97c62d6..95f1ddd 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -148,7 +148,8 @@ class LinearModelSim(object):
     def parse_formula(formula):
         if formula.find("~")!=-1:
             _, formula = re.split("[~]", formula)
-        terms = re.split("[+]", formula)
+        formula = re.sub(r"\s+", "", formula)
+        terms = re.split("[+-]", formula)
         x_vars = set([y for x in terms for y in re.split("[:]", x)])
         x_vars = set([y for x in x_vars for y in re.split("[*]", x)])
         for match in set(re.findall("C\([^)]+\)", formula)):
@@ -157,9 +158,8 @@ class LinearModelSim(object):
         for x in cat_terms:
             x_vars.add(x)
         x_vars = sorted(x_vars)
-        cat_terms = cat_terms
-        if "1" in x_vars:
-            x_vars.remove("1")
+        cat_terms = sorted(set(cat_terms))
+        x_vars = [x for x in x_vars if x not in ("0", "1", "")]
         return x_vars, cat_terms
     
     @classmethod
-- 
2.43.0


From a6bb8366b2402da75f2a9234b4e669080ab8d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 194/195] fix: LinearModelSim accepts formulas with a response

---
 pystatsm/pyglm/glm_sim.py    | 2 +-
 pystatsm/pyglm2/model_sim.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index dffe4fa..2cb2119 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -47,7 +47,7 @@ class LinearModelSim(object):
             self.Z2[:, i] = self._make_categorical(self.Z1[:, i], self.nlevels[self.x_vars[i]])
         
         self.data = pd.DataFrame(self.Z2, columns=self.x_vars)
-        self.X = patsy.dmatrix(self.formula, data=self.data, return_type="dataframe")
+        self.X = patsy.dmatrix(self.formula.split("~")[-1], data=self.data, return_type="dataframe")
         self.n_coef = self.X.shape[1]
         self.design_info = self.X.design_info
         self.term_names = self.design_info.term_names
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 95f1ddd..26f1785 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -49,7 +49,7 @@ class LinearModelSim(object):
             self.Z2[:, i] = self._make_categorical(self.Z1[:, i], self.nlevels[self.x_vars[i]])
         
         self.data = pd.DataFrame(self.Z2, columns=self.x_vars)
-        self.X = patsy.dmatrix(self.formula, data=self.data, return_type="dataframe")
+        self.X = patsy.dmatrix(self.formula.split("~")[-1], data=self.data, return_type="dataframe")
         self.n_coef = self.X.shape[1]
         self.design_info = self.X.design_info
         self.term_names = self.design_info.term_names
-- 
2.43.0


From 0e156b7537bccc5146763cda3d57452e76c249b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 195/195] fix: SimulatedSEM draws everything from the generator
 it is given

---
 pystatsm/pysem2/model_simulator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index 7ef9738..5cb1f95 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -6,8 +6,6 @@ from ..utilities.random import r_lkj, exact_rmvnorm
 from .model_specification import ModelSpecification
 from .formula import FormulaParser
 
-rng=np.random.default_rng()
-
 class SimulatedSEM:
     def __init__(self, formula, n_groups, n_obs_min=1000, n_obs_max=5000, rng=None):
         self.formula = formula
@@ -24,11 +22,11 @@ class SimulatedSEM:
 
     def generate_data(self, n_obs):
         formula_parser = FormulaParser(self.formula)
-        exog_var_list = list(formula_parser.var_names["lox"])
+        exog_var_list = sorted(formula_parser.var_names["lox"])
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-            exog_cov = r_lkj(1, 1, len(exog_var_list)).squeeze()
+            exog_cov = r_lkj(1, 1, len(exog_var_list), rng=self.rng).squeeze()
             nonx_cov = np.eye(len(nonx_var_list))
             obs_cov = sp.linalg.block_diag(exog_cov, nonx_cov)
         else:
@@ -36,7 +34,8 @@ class SimulatedSEM:
         means = np.linspace(-3, 3, self.n_groups)
         dfs = []
         for i in range(self.n_groups):
-            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)))
+            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)),
+                                seed=int(self.rng.integers(2**31)))
             arr = pd.DataFrame(arr, columns=obs_var_list)
             arr["group"] = i
             dfs.append(arr)
@@ -84,7 +83,7 @@ class SimulatedSEM:
             mu[i] = L[i].dot(B[i]).dot(b[i].T)+a[i].T
         dfs = []
         for i in range(self.n_groups):
-            arr = rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
+            arr = self.rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
             arr = pd.DataFrame(arr, columns=Sigma[i].columns)
             arr["group"] = i
             dfs.append(arr)
-- 
2.43.0

