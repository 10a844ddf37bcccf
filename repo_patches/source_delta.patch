From 49f1d25e432c8e740deb7ac534751b0ba267ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 001/225] fix: id_sp_kron places blocks by the row count of B,
 not its column count

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..3b30660 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -253,7 +253,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -263,7 +263,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From 97242aa610ac6d3b2b3fe18f445946df490e86fc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 002/225] fix: cs_matmul_inplace really sorts the row indices
 of a reused output

---
 pystatsm/utilities/python_wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 3b30660..573185e 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -101,6 +101,9 @@ def cs_matmul_inplace(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    # the kernel rewrites the row indices in arrival order, so a cached
+    # "already sorted" flag on C is stale and would turn the sort into a no-op
+    C.has_sorted_indices = False
     C.sort_indices()
     return C
 
@@ -114,6 +117,9 @@ def cs_matmul_inplace_complex(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_complex_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    # the kernel rewrites the row indices in arrival order, so a cached
+    # "already sorted" flag on C is stale and would turn the sort into a no-op
+    C.has_sorted_indices = False
     C.sort_indices()
     return C
 
-- 
2.43.0


From 10c117941e5dbcb8e94497c4e4b359507ca9b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 003/225] fix: inv_tril_indices no longer doubles the positions
 of diagonal cells

---
 pystatsm/utilities/indexing_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index 9a0a12e..cb92565 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -86,9 +86,10 @@ def tril_indices(n, k=0, m=None, order='F'):
 
 def inv_tril_indices(n, k=0, m=None, order='F', indexing=0):
     arr = np.zeros((n, n), dtype=int)
-    ij = tril_indices(n, k, m, order)
-    arr[ij] = np.arange(indexing, indexing+len(ij[0]))
-    arr = arr + arr.T
+    i, j = tril_indices(n, k, m, order)
+    pos = np.arange(indexing, indexing+len(i))
+    arr[i, j] = pos
+    arr[j, i] = pos
     return arr
 
 def triu_indices(n, k=0, m=None, order='F'):
-- 
2.43.0


From 190c69020772acd00a940ba406fff887b1d8c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 004/225] fix: mixed-model equations keep every entry of the G
 blocks when covariates are zero

---
 pystatsm/pylmm/re_mod.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..0ad5cff 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -77,6 +77,20 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _pad_pattern(arr, *others):
+    """arr as a sorted csc array whose stored pattern also covers the stored
+    patterns of others (the added entries are explicit zeros)."""
+    coos = [x.tocoo() for x in (arr,) + others]
+    rows = np.concatenate([x.row for x in coos])
+    cols = np.concatenate([x.col for x in coos])
+    data = np.concatenate([coos[0].data] + [np.zeros(x.nnz) for x in coos[1:]])
+    out = sp.sparse.coo_array((data, (rows, cols)), shape=arr.shape).tocsc()
+    out.sort_indices()
+    out.indptr = out.indptr.astype(np.int32)
+    out.indices = out.indices.astype(np.int32)
+    return out
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -655,15 +669,17 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _pad_pattern(self.ZtRZ, self.G)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
         ZtRdR = ZtR.copy()
         ZtR_dR_RZ = sp.sparse.csc_array.dot(ZtRdR, ZtR.T).tocsc()
 
+        # every entry of the G blocks has to be stored, even where zero
+        # covariates leave no entry in Z'Z
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
-        ZtZ.sort_indices()
+        ZtZ = _pad_pattern(ZtZ, self.G)
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From 46a5847592a5d36139d31b26e753f991b97273a7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 005/225] fix: mixed-model terms with a relationship matrix
 handle fill-in, vector effects and both gradients

---
 pystatsm/pylmm/re_mod.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 0ad5cff..f19ad6c 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -97,11 +97,13 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
-    A = np.asarray(a_cov)
-    L = np.linalg.cholesky(A)
-    A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    else:
+        A = np.asarray(a_cov)
+        L = np.linalg.cholesky(A)
+        A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
+        a_csc, a_inv = sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    # both are written into the same buffers, so they share one pattern
+    return _pad_pattern(a_csc, a_inv), _pad_pattern(a_inv, a_csc)
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
@@ -214,8 +216,9 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk_t = (L_zz_sl if L_zz_sl is not None else L_zz[sl]).T.tocsc()
+        L_zz_blk_t.sort_indices()   # sparse_pattern_trace merges sorted columns
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
@@ -328,7 +331,7 @@ class KronAG(BaseProductCovariance):
 
     def _update_gdata(self, G0, inv, out):
         A = self.a_inv if inv else self.a_cov
-        sparse_dense_kron_inplace(A, G0, out)
+        sparse_dense_kron_inplace(A, np.asfortranarray(G0), out)
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
@@ -337,7 +340,7 @@ class KronAG(BaseProductCovariance):
 
     def dcov_dparams(self, params, i):
         dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy()
-        dGi = sparse_dense_kron(self.a_cov, dG0_i)
+        dGi = sparse_dense_kron(self.a_cov, np.asfortranarray(dG0_i))
         dGi.eliminate_zeros()
         return dGi
 
@@ -353,13 +356,13 @@ class KronGA(BaseProductCovariance):
 
     def _make_initial_matrix(self):
         n_rv = self.n_rv
-        G0 = np.eye(n_rv)
+        G0 = np.asfortranarray(np.eye(n_rv))
         G = ds_kron(G0, self.a_cov)
         return G
 
     def _update_gdata(self, G0, inv, out):
         A = self.a_inv if inv else self.a_cov
-        ds_kron_inplace(G0, A, out)
+        ds_kron_inplace(np.asfortranarray(G0), A, out)
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
@@ -368,7 +371,7 @@ class KronGA(BaseProductCovariance):
 
     def dcov_dparams(self, params, i):
         dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy()
-        dGi = ds_kron(dG0_i, self.a_cov)
+        dGi = ds_kron(np.asfortranarray(dG0_i), self.a_cov)
         dGi.eliminate_zeros()
         return dGi
 
-- 
2.43.0


From 60ad910605cda745535bfea8d57c9e4556d8c942 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:54:28 +0000
Subject: [PATCH 006/225] fix: gradients with vector random effects merge
 sorted factor rows

---
 pystatsm/pylmm/re_mod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f19ad6c..ab117c6 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -299,6 +299,7 @@ class KronIG(BaseProductCovariance):
         ng, nv = self.n_lv, self.n_rv
         ZtRZ_sum = ZtRZ.data[self._zr_index_map].sum(axis=0)
         L_blk = (L_zz_sl if L_zz_sl is not None else L_zz[sl]).tocsr()
+        L_blk.sort_indices()        # block_diag_self_dot merges sorted rows
         LL_sum = block_diag_self_dot(L_blk, ng, nv)
         T3 = T_zx[sl].reshape(ng, nv, -1)
         v_blk = v_y[sl].reshape(ng, nv)
-- 
2.43.0


From 6a8db582619ad0cf9549b879688d10d4ad9c6aba Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 007/225] fix: random_effects_se uses the fixed-effect
 covariance of the theta it was given

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index ab117c6..ef36865 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1216,7 +1216,7 @@ class LMM2(object):
         self._factor_C(theta)
         ZtRX = self.mme.ZtRXy[:, :-1]
         M_X = self.mme.chol_fac.solve_A(ZtRX)
-        T_xx_inv = self.XtVinvX_inv
+        T_xx_inv = np.linalg.inv(self.mme.XytRXy[:-1, :-1] - ZtRX.T.dot(M_X))
         var_x = np.einsum('ik,kl,il->i', M_X, T_xx_inv, M_X, optimize=True)
 
         if not full:
-- 
2.43.0


From a3a8730808c06203c8b382398bb51a58562cff81 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 008/225] fix: parameter transforms of integer arrays are not
 truncated to integers

---
 pystatsm/utilities/param_transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/param_transforms.py b/pystatsm/utilities/param_transforms.py
index e3d497b..e60daaf 100644
--- a/pystatsm/utilities/param_transforms.py
+++ b/pystatsm/utilities/param_transforms.py
@@ -57,6 +57,8 @@ class ParameterTransformBase(ABC):
     def _apply_method(self, x, method):
         if np.isscalar(x):
             return getattr(self, method)(x)
+        if not np.issubdtype(x.dtype, np.inexact):
+            x = x.astype(float)
         ndim = x.ndim
         func = getattr(self, method)
         if ndim==1:
-- 
2.43.0


From a69534077e54df9a97e49ff8d55f6aab246bb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 009/225] fix: removing a random-effect term from a spaced
 formula keeps the operator that follows it

---
 pystatsm/pylmm/mlmm.py           | 4 ++--
 pystatsm/pylmm/model_matrices.py | 6 +++---
 pystatsm/pylmm/sim_lmm.py        | 4 ++--
 pystatsm/utilities/formula.py    | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 925969a..f5306b0 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -28,7 +28,7 @@ def parse_random_effects(formula):
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub(r"[+\-](\s*[+\-])+", replace_duplicate_operators, frm)
     return fe_form, groups
 
 def construct_random_effects(groups, data, n_yvars):
@@ -49,7 +49,7 @@ def construct_random_effects(groups, data, n_yvars):
 def construct_model_matrices(formula, data):
     fe_form, groups = parse_random_effects(formula)
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub(r"[+\s]+$", "", fe_form)
     yvars = re.split(",", re.sub("\(|\)", "", yvars))
     yvars = [x.strip() for x in yvars]
     n_yvars = len(yvars)
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 8a09ba9..66fcbe9 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -39,7 +39,7 @@ def parse_random_effects(formula):
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub(r"[+\-](\s*[+\-])+", replace_duplicate_operators, frm)
     return fe_form, groups
 
 def construct_random_effects(groups, data, n_vars):
@@ -60,7 +60,7 @@ def construct_random_effects(groups, data, n_vars):
 def construct_model_matrices(formula, data, return_fe=False):
     fe_form, groups = parse_random_effects(formula)
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub(r"[+\s]+$", "", fe_form)
     yvars = re.split(",", re.sub("\(|\)", "", yvars))
     yvars = [x.strip() for x in yvars]
     n_vars = len(yvars)
@@ -77,7 +77,7 @@ def construct_model_matrices(formula, data, return_fe=False):
 def handle_missing(formula, data):
     fe_form, groups = parse_random_effects(formula)
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub(r"[+\s]+$", "", fe_form)
     g_vars = [x for y in groups for x in y]
     g_vars = [re.split("[+\-\*:]", x) for x in g_vars]
     re_vars = [x for y in g_vars for x in y]
diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 4280936..93717c2 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -25,12 +25,12 @@ def parse_vars(formula, model_dict):
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub(r"[+\-](\s*[+\-])+", replace_duplicate_operators, frm)
     re_form, re_groupings = list(zip(*groups))
     re_form, re_groupings = set(re_form), set(re_groupings)
 
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub(r"[+\s]+$", "", fe_form)
     
     fixed_vars = re.split("[(\+|\-)]", fe_form)
     randm_vars = [re.split("[(\+|\-)]", x) for x in re_form]
diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index cc178c1..19e5cfe 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -30,7 +30,7 @@ def parse_random_effects(formula):
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub(r"[+\-](\s*[+\-])+", replace_duplicate_operators, frm)
     yvars, fe_form = re.split("[~]", fe_form)
     fe_form = re.sub(r"[+\s]+$", "", fe_form).strip()
     y_vars = re.split(",", re.sub("\(|\)", "", yvars))
@@ -54,7 +54,7 @@ def get_parametric_formula(formula):
     frm = formula[:-1]+formula[-1:]
     for x in tmp:
         frm = frm.replace(x, "")
-    frm = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    frm = re.sub(r"[+\-](\s*[+\-])+", replace_duplicate_operators, frm)
     frm = re.sub("\+$", "", frm)
     return frm
 
-- 
2.43.0


From 559f634ea5cb69a83ba085c745a58ef3ae30ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 010/225] fix: smooth terms are found by name, so functions
 ending in s and a removed intercept survive

---
 pystatsm/pygam/smooth_setup.py |  8 ++++----
 pystatsm/utilities/formula.py  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index f152958..59eeac7 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -14,7 +14,7 @@ from ..utilities.splines import (_get_crsplines, _get_bsplines, _get_ccsplines,
 
 def parse_smooths(smoother_formula, data):
     smooths = {}
-    smooth_terms = re.findall("(?<=s[(])(.*?)(?=[)])", smoother_formula)
+    smooth_terms = re.findall(r"(?<![\w.])s\(([^()]*)\)", smoother_formula)
     arg_order = ['x', 'df', 'kind', 'by']
     for term in smooth_terms:
         tokens = [t.strip() for t in term.split(',')]
@@ -27,7 +27,7 @@ def parse_smooths(smoother_formula, data):
                 key, val = arg_order[i], token.strip()
                 smooth_info[key] = val
         smooth_info['df'] = int(smooth_info['df'])
-        smooth_info['kind'] = smooth_info['kind'].replace("'", "")
+        smooth_info['kind'] = smooth_info['kind'].replace("'", "").replace('"', "")
         var = smooth_info['x']
         smooth_info['x'] = data[smooth_info['x']].values
         smooth_info['kind'] = smooth_info['kind'].replace("'", "")
@@ -44,10 +44,10 @@ def parse_smooths(smoother_formula, data):
 
 def get_parametric_formula(formula):
     frm = re.sub(r"\s+", "", formula)
-    for x in re.findall(r"s\([^()]*\)", frm):
+    for x in re.findall(r"(?<![\w.])s\([^()]*\)", frm):
         frm = frm.replace(x, "")
     frm = re.sub(r"[+\-]{2,}", lambda m: m.group()[-1], frm)
-    frm = re.sub(r"~[+\-]+", "~", frm)
+    frm = re.sub(r"~[+]+", "~", frm)
     frm = re.sub(r"[+\-]+$", "", frm)
     if frm.endswith("~") or "~" not in frm:
         frm = frm + "1" if frm.endswith("~") else frm
diff --git a/pystatsm/utilities/formula.py b/pystatsm/utilities/formula.py
index 19e5cfe..cfa4172 100644
--- a/pystatsm/utilities/formula.py
+++ b/pystatsm/utilities/formula.py
@@ -13,7 +13,7 @@ import pandas as pd
 from patsy import highlevel
 
 def find_smooth_terms(formula):
-    return re.findall("(?<=s[(])(.*?)(?=[)])", formula)
+    return re.findall(r"(?<![\w.])s\(([^()]*)\)", formula)
 
 def find_ranef_terms(formula):
     return re.findall("\([^)]+[|][^)]+\)", formula)
@@ -50,12 +50,12 @@ def parse_random_effects(formula):
 
 
 def get_parametric_formula(formula):
-    tmp = re.findall("s[(].*?[)]", formula)
+    tmp = re.findall(r"(?<![\w.])s\([^()]*\)", formula)
     frm = formula[:-1]+formula[-1:]
     for x in tmp:
         frm = frm.replace(x, "")
     frm = re.sub(r"[+\-](\s*[+\-])+", replace_duplicate_operators, frm)
-    frm = re.sub("\+$", "", frm)
+    frm = re.sub(r"[+\s]+$", "", frm)
     return frm
 
 def parse_smooth_term(term):
@@ -70,12 +70,12 @@ def parse_smooth_term(term):
             key, val = arg_order[i], token.strip()
             smooth_info[key] = val
     smooth_info['df'] = int(smooth_info['df'])
-    smooth_info['kind'] = smooth_info['kind'].replace("'", "").replace("'", "")
+    smooth_info['kind'] = smooth_info['kind'].replace("'", "").replace('"', "")
     return smooth_info
 
 def parse_smooths(formula):
     smooths = []
-    smooth_terms = re.findall("(?<=s[(])(.*?)(?=[)])", formula)
+    smooth_terms = find_smooth_terms(formula)
     for term in smooth_terms:
         smooths.append(parse_smooth_term(term))
     fe_form = get_parametric_formula(formula)
-- 
2.43.0


From 30de2cbd5ebfa39b3b8742a55edd584edf45692b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 011/225] fix: several smooth terms of the same variable are
 all kept

---
 pystatsm/pygam/smooth_setup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index 59eeac7..8dac318 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -39,7 +39,11 @@ def parse_smooths(smoother_formula, data):
             cats = finfo[list(finfo.keys())[0]].categories
             smooth_info['by'] = dict(by_vals=by_design_mat.values,
                                      by_cats=cats)
-        smooths[var] = smooth_info
+        key, n_dup = var, 1
+        while key in smooths:
+            n_dup += 1
+            key = f"{var}.{n_dup}"
+        smooths[key] = smooth_info
     return smooths
 
 def get_parametric_formula(formula):
-- 
2.43.0


From 3eb03cd4bc47826b2dc7821495fb7d7f9b3c454a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 012/225] fix: B-spline smooths can be constructed

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..6ccb243 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -168,7 +168,7 @@ def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
@@ -236,7 +236,7 @@ def _get_crsplines(x, df=10):
     
 def _get_bsplines(x, df=10):
     knots, inner_knots = bspline_knots(x, df)
-    F, S = bspline_penalty(knots, inner_knots)
+    F, S = bspline_penalty(knots, inner_knots, degree=3)
     X = bspline_basis(x, knots, deriv=0)
     fkws = {"deriv":0}
     return X, S, knots, fkws
-- 
2.43.0


From b65c439d9d2cd13e461317ed5f705ffc65f7b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 013/225] fix: effective degrees of freedom of
 GaussianAdditiveModel is the trace of the smoothing matrix

---
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..7224297 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -273,7 +273,7 @@ class GaussianAdditiveModel:
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX) / scale)
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
-- 
2.43.0


From 1eb0441f5d971e186130e0e4788799026ba19318 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 014/225] fix: location-scale models accept a mean without
 smooths, any logb offset and a scale without intercept

---
 pystatsm/pygam/gauls.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..59096dc 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
@@ -658,10 +658,9 @@ class GauLS:
             log determinant of penalty matrix
         """
         logdet = 0.0
-        for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
+        ldS = list(self.m.ldS) + list(self.s.ldS)
+        for i, (r, lds) in enumerate(zip(self.ranks, ldS)):
             logdet += r * rho[i] + lds
-        for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
         return logdet
 
     def reml(self, rho):
@@ -915,7 +914,7 @@ class GauLS:
             eta_s = s.evaluate_component_basis(comp, points).dot(self.beta[self.ixs][s.smooths[comp]['ix']])
         else:
             eta_s = np.zeros_like(points)
-        if "Intercept" in m.x_varnames:
+        if "Intercept" in s.x_varnames:
             eta_s = eta_s + self.res.loc["s(Intercept)", "param"]
 
 
-- 
2.43.0


From b10add309841cd4c7f88921a11041668d2988c23 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 015/225] fix: spaces inside a random-effect term are ignored
 by every formula reader

---
 pystatsm/pylmm/mlmm.py           | 3 ++-
 pystatsm/pylmm/model_matrices.py | 3 ++-
 pystatsm/pylmm/sim_lmm.py        | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index f5306b0..1d0e19e 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -24,7 +24,8 @@ def replace_duplicate_operators(match):
 
 def parse_random_effects(formula):
     matches = re.findall("\([^)]+[|][^)]+\)", formula)
-    groups = [re.search("\(([^)]+)\|([^)]+)\)", x).groups() for x in matches]
+    groups = [tuple(s.strip() for s in re.search("\(([^)]+)\|([^)]+)\)", x).groups())
+              for x in matches]
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 66fcbe9..937a14d 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -35,7 +35,8 @@ def parse_random_effects(formula):
         second element
     """
     matches = re.findall("\([^)]+[|][^)]+\)", formula)
-    groups = [re.search("\(([^)]+)\|([^)]+)\)", x).groups() for x in matches]
+    groups = [tuple(s.strip() for s in re.search("\(([^)]+)\|([^)]+)\)", x).groups())
+              for x in matches]
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index 93717c2..f00899a 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -21,7 +21,8 @@ from ..utilities.numerical_derivs import so_gc_cd
 def parse_vars(formula, model_dict):
     n_obs = model_dict['n_obs']
     matches = re.findall("\([^)]+[|][^)]+\)", formula)
-    groups = [re.search("\(([^)]+)\|([^)]+)\)", x).groups() for x in matches]
+    groups = [tuple(s.strip() for s in re.search("\(([^)]+)\|([^)]+)\)", x).groups())
+              for x in matches]
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-- 
2.43.0


From 2ceb3f1a26a030d1160cb24ec98503d6b5a1a040 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 016/225] fix: dummy accepts string, boolean and categorical
 labels

---
 pystatsm/utilities/data_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..47c84f9 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -239,7 +239,12 @@ def _dummy(x, fullrank=True, categories=None):
     return Y
 
 def dummy(x, fullrank=True, categories=None):
-    x = _check_shape(_check_np(x))
+    x = _check_shape(np.asarray(x))
+    if x.dtype.kind not in "iuf":   # labels: code them by their sorted order
+        levels, x = np.unique(x, return_inverse=True)
+        if categories is not None:
+            codes = dict(zip(levels, range(len(levels))))
+            categories = np.array([codes.get(c, -1) for c in categories])
     return _dummy(x, fullrank, categories)
 
 
-- 
2.43.0


From 897368eba8a3aaa1a3e424ee947ed447e52876a8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 017/225] fix: flat_cross_tabulate uses np.prod, np.product is
 gone

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 47c84f9..1062e14 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -410,7 +410,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(np.prod(counts.shape[:-1]), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From eb9f1094b74416498387819433abe54f5a450308 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 018/225] fix: extremal_indices selects along the given axis

---
 pystatsm/utilities/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 1062e14..cc42889 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -438,9 +438,9 @@ def expand_crosstab(table):
 
 def extremal_indices(arr, n, axis=-1, largest=True):
     if largest:
-        return np.argpartition(arr, -n, axis=axis)[-n:]
+        return np.take(np.argpartition(arr, -n, axis=axis), np.arange(-n, 0), axis=axis)
     else:
-        return np.argpartition(arr, n, axis=axis)[:n]
+        return np.take(np.argpartition(arr, n - 1, axis=axis), np.arange(n), axis=axis)
 
 
 
-- 
2.43.0


From 2fb20f4873323357edbdf2c93f346db602c55f92 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 019/225] fix: welford helpers keep the order of variables and
 axes

---
 pystatsm/utilities/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index cc42889..08511a5 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -354,7 +354,7 @@ def welford_variance(arr, axis=None, unbiased=False):
     n = shape.pop(axis)
     mean = np.zeros(tuple(shape))
     sumsq = np.zeros(tuple(shape))
-    arr = np.swapaxes(arr, 0, axis)
+    arr = np.moveaxis(arr, axis, 0)
     mean, sumsq = _welford_variance(arr, n, mean, sumsq)
     variance = sumsq / (n - unbiased)
     return mean, variance
@@ -391,7 +391,7 @@ def welford_cov(arr1, arr2=None, unbiased=False):
         p = arr2.shape[1]
         mean1, mean2, prod = np.zeros(k), np.zeros(p), np.zeros((k, p))
         mean1, mean2, prod = _welford_cov_cross(arr1, arr2, mean1, mean2, prod, n)
-        mean = np.r_[mean2, mean1]
+        mean = np.r_[mean1, mean2]
     cov = prod / (n - unbiased)
     return mean, cov 
 
-- 
2.43.0


From d50f3ac2816990e7e5260e4e0599ad7bae48d418 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 020/225] fix: link derivatives (probit, power, negative
 binomial, identity) match their links

---
 pystatsm/pyglm/links.py  | 11 +++++------
 pystatsm/pyglm2/links.py | 13 ++++++-------
 pystatsm/pylmm/links.py  |  8 +++-----
 3 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..9c34ea6 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -116,8 +116,7 @@ class ProbitLink(Link):
         
     def inv_link(self, eta):
         mu = sp.stats.norm.cdf(eta, loc=0, scale=1)
-        mu[mu==1.0]-=1e-16
-        return mu
+        return np.minimum(mu, 1.0 - 1e-16)
     
     def dinv_link(self, eta):
         dmu = sp.stats.norm.pdf(eta, loc=0, scale=1)
@@ -148,7 +147,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
@@ -293,7 +292,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
@@ -399,7 +398,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -411,7 +410,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..3a6801c 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
@@ -162,8 +162,7 @@ class ProbitLink(Link):
     @staticmethod
     def inv_link(eta):
         mu = sp.special.ndtr(eta)
-        mu[mu==1.0]-=1e-16
-        return mu
+        return np.minimum(mu, 1.0 - 1e-16)
     
     @staticmethod
     def dinv_link(eta):
@@ -201,7 +200,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
@@ -372,7 +371,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
@@ -486,7 +485,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -498,7 +497,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
diff --git a/pystatsm/pylmm/links.py b/pystatsm/pylmm/links.py
index 810c819..1e831c8 100644
--- a/pystatsm/pylmm/links.py
+++ b/pystatsm/pylmm/links.py
@@ -86,8 +86,7 @@ class ProbitLink(Link):
         
     def inv_link(self, eta):
         mu = sp.stats.norm.cdf(eta, loc=0, scale=1)
-        mu[mu==1.0]-=1e-16
-        return mu
+        return np.minimum(mu, 1.0 - 1e-16)
     
     def dinv_link(self, eta):
         dmu = sp.stats.norm.pdf(eta, loc=0, scale=1)
@@ -202,16 +201,15 @@ class PowerLink(Link):
         if self.alpha==0:
             dmu = np.exp(eta)
         else:
-            dmu = -(eta**(1/self.alpha) * np.log(eta)) / (self.alpha**2)
+            dmu = eta**(1/self.alpha - 1.0) / self.alpha
         return dmu
     
     def d2inv_link(self, eta):
         alpha=self.alpha
-        lnx = np.log(eta)
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (eta**(1/alpha) * lnx * (lnx+2*alpha)) / alpha**4
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 1cdce324475658179ac29a231178836ed31e9572 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 021/225] fix: canonical parameters, cumulants and mean
 functions of the families agree

---
 pystatsm/pyglm/families.py | 10 +++++-----
 pystatsm/pylmm/families.py | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..83986d6 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -269,7 +269,7 @@ class Gaussian(ExponentialFamily):
         return V
     
     def d2canonical(self, mu, dispersion=1.0):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
@@ -351,7 +351,7 @@ class InverseGaussian(ExponentialFamily):
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -0.5 / (np.power(mu, 2.0))
         return T
 
     def cumulant(self, T, dispersion=1.0):
@@ -368,7 +368,7 @@ class InverseGaussian(ExponentialFamily):
         return V
 
     def d2canonical(self, mu, dispersion=1.0):
-        res = 3.0 / (np.power(mu, 4))
+        res = -3.0 / (np.power(mu, 4))
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
@@ -572,12 +572,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
 
     def cumulant(self, T, dispersion=1.0):
-        b = (-1.0 / dispersion) * np.log(1 - dispersion * np.exp(T))
+        b = (-1.0 / dispersion) * np.log(1 - np.exp(T))
         return b
 
     def mean_func(self, T, dispersion=1.0):
         u = np.exp(T)
-        mu = -1.0 / dispersion * (u / (1 - u))
+        mu = 1.0 / dispersion * (u / (1 - u))
         return mu
 
     def var_func(self, T=None, mu=None, eta=None, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 817da41..2cbf0f0 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -55,7 +55,7 @@ class ExponentialFamily(object):
         return 1.0 / self.dinv_link(self.link(mu))
     
     def d2link(self, mu):
-        eta = self.link.link(mu)
+        eta = self.link(mu)
         res = -self.d2inv_link(eta) / np.power(self.dinv_link(eta), 3)
         return res
     
@@ -149,7 +149,7 @@ class Gaussian(ExponentialFamily):
         return V
                 
     def d2canonical(self, mu):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
     
     def deviance(self, y, T=None, mu=None, eta=None, scale=1.0):
@@ -200,7 +200,7 @@ class InverseGaussian(ExponentialFamily):
 
     
     def canonical_parameter(self, mu):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -0.5 / (np.power(mu, 2.0))
         return T
     
     def cumulant(self, T):
@@ -219,7 +219,7 @@ class InverseGaussian(ExponentialFamily):
         return V
                 
     def d2canonical(self, mu):
-        res = 3.0 / (FOUR_SQRT2 * np.power(-mu, 2.5))
+        res = -3.0 / (np.power(mu, 4))
         return res
     
     def deviance(self, y, T=None, mu=None, eta=None, scale=1.0):
@@ -362,12 +362,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
     
     def cumulant(self, T, scale=1.0):
-        b = (-1.0 / scale) * np.log(1 - scale * np.exp(T))
+        b = (-1.0 / scale) * np.log(1 - np.exp(T))
         return b
     
     def mean_func(self, T, scale=1.0):
         u = np.exp(T)
-        mu = -1.0 / scale * (u / (1 - u))
+        mu = 1.0 / scale * (u / (1 - u))
         return mu
     
     def var_func(self, T=None, mu=None, eta=None, scale=1.0):
-- 
2.43.0


From 99aad3201c78f7ed4d7c1a247bfbe5afc95fe43d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 022/225] fix: pearson_resid uses the weights it is given

---
 pystatsm/pyglm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 83986d6..28e00f7 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
-- 
2.43.0


From a21276c3a2799cf5b573338c804eaf55f1344714 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 023/225] fix: working-weight derivatives of pyglm2 families
 can be evaluated

---
 pystatsm/pyglm2/families.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..ffba60e 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
@@ -174,8 +174,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         w = weights / den
         return w
 
-    def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def da_dmu(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -183,8 +182,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         res = (y - mu) * v - u
         return res
 
-    def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def d2a_dmu2(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -196,8 +194,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         res = (y - mu) * (v1 + v2) - 2.0 * u
         return res
 
-    def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def dw_deta(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -206,8 +203,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         res = (w / g1) * (a1 / a0 - V1 / V0 - 2.0 * g2 / g1)
         return res
 
-    def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def d2w_deta2(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From 2425e15c81fcefdab94123c1faa0cca40fcbf3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 024/225] fix: pyglm2 expected weights, InverseGaussian
 d2llscale and Gaussian default weights

---
 pystatsm/pyglm2/families.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index ffba60e..fb9ce20 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,8 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
-        return w
+        return 1.0 / den
 
     def da_dmu(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
@@ -247,7 +246,7 @@ class Gaussian(ExponentialFamily):
         ll = ll / 2.0
         return ll
 
-    def _full_loglike(self, y, mu, weights=None, phi=1.0, dispersion=1.0):
+    def _full_loglike(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         ll = self._loglike(y, mu, weights, phi, dispersion)
         llf = ll + LN2PI / 2.0
         return llf
@@ -404,7 +403,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From c2fc3fff0f9bfa0af2eb462330656d029c4d9961 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 025/225] fix: InverseGaussian and Poisson quantiles and draws
 have the family's mean and dispersion

---
 pystatsm/pyglm/families.py  | 6 +++---
 pystatsm/pyglm2/families.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 28e00f7..ab187d1 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -425,10 +425,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0 / phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu * phi, scale=1.0 / phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
@@ -758,7 +758,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index fb9ce20..8b556aa 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -407,10 +407,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0 / phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu=mu * phi, scale=1.0 / phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
@@ -703,7 +703,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
-- 
2.43.0


From e4bc3d1198c805400f205f324b0d78897924783f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 026/225] fix: pylmm families evaluate the variance function at
 the mean

---
 pystatsm/pylmm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 2cbf0f0..67c23c9 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -74,7 +74,7 @@ class ExponentialFamily(object):
         if mu is None:
             mu = self._to_mean(eta=eta, T=T)
         y, mu = self.cshape(y, mu)
-        V = self.var_func(mu)
+        V = self.var_func(mu=mu)
         r_p = (y - mu) / np.sqrt(V)
         return r_p
     
-- 
2.43.0


From d6e02ae528c59d018b0257c13293148b3581a43c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 027/225] fix: full log-likelihoods of column responses are not
 broadcast to a matrix

---
 pystatsm/pyglm/families.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index ab187d1..2d580f2 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -448,7 +448,7 @@ class Gamma(ExponentialFamily):
 
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         ll = self._loglike(y, eta, mu, T, phi, dispersion, weights)
-        llf = ll + np.log(y)
+        llf = ll + np.log(_check_shape(_check_np(y), 1))
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
@@ -563,7 +563,7 @@ class NegativeBinomial(ExponentialFamily):
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         weights = self.weights if weights is None else weights
         ll = self._loglike(y, eta, mu, T, phi, dispersion, weights)
-        llf = ll + weights / 1.0 * loggamma(y + 1.0)
+        llf = ll + weights / 1.0 * loggamma(_check_shape(_check_np(y), 1) + 1.0)
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
@@ -695,7 +695,7 @@ class Poisson(ExponentialFamily):
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         weights = self.weights if weights is None else weights
         ll = self._loglike(y, eta, mu, T, phi, dispersion, weights)
-        llf = ll + weights / phi * sp.special.gammaln(y+1)
+        llf = ll + weights / phi * sp.special.gammaln(_check_shape(_check_np(y), 1) + 1)
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-- 
2.43.0


From 4b30c47defda2fdb4992ca906f5f3587854bda92 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 028/225] fix: parameter constraints keep their own index and
 value

---
 pystatsm/pyglm/linear_model.py      | 6 +++---
 pystatsm/pyglm2/likelihood_model.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..37cfbcd 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -238,9 +238,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -282,7 +282,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..d1605d5 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -233,9 +233,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -277,7 +277,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From 36c87ac876e54977a3452119ffebc11df43f947f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 029/225] fix: ModelData records columns and design info of a
 Series

---
 pystatsm/pyglm/linear_model.py      | 2 ++
 pystatsm/pyglm2/regression_model.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 37cfbcd..d15f50c 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -629,6 +629,8 @@ class ModelData(object):
                 self.design_info.append(design_info)
             else:  # pd.Series
                 self.names.append(data.name)
+                self.columns.append([data.name])
+                self.design_info.append(None)
                 self.data.append(data.to_numpy().reshape(-1, 1))
         else:  # numpy array
             self.design_info.append(None)
diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index a4e9e36..a4e2776 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -92,6 +92,8 @@ class ModelData(object):
                 self.design_info.append(design_info)
             else:  # pd.Series
                 self.names.append(data.name)
+                self.columns.append([data.name])
+                self.design_info.append(None)
                 self.data.append(data.to_numpy().reshape(-1, 1))
         else:  # numpy array
             self.design_info.append(None)
-- 
2.43.0


From 20234ed988e5de3941c9b9bbeb76aea22bf22dfd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 030/225] fix: GLM scale, cross information, leverage and
 residuals use the weights

---
 pystatsm/pyglm/linear_model.py | 16 ++++++++++------
 pystatsm/pyglm2/glm.py         | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index d15f50c..b8d869b 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1528,7 +1528,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
         
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion,
+                                 weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
@@ -1608,7 +1609,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
@@ -1715,12 +1716,15 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                        weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                  weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                    weights=weights)
         self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
@@ -1759,7 +1763,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, None))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..2af4436 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -135,7 +135,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
 
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion,
+                                 weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
@@ -215,7 +216,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
@@ -324,12 +325,15 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                        weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                  weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                                    weights=weights)
         self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
@@ -368,7 +372,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, 1.0))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
-- 
2.43.0


From 436a40ccb3182610dc945f285de141b1fdbb2753 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 031/225] fix: GLM jackknife, bootstrap and robust errors use
 the model's weights

---
 pystatsm/pyglm/linear_model.py | 10 +++-------
 pystatsm/pyglm2/glm.py         | 10 +++-------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index b8d869b..8bbf37b 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1806,7 +1806,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -1857,10 +1857,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.ones(self.n_obs) * self.weights
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -1890,8 +1887,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.ones(n) * self.weights
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot) if verbose else None
         boot_samples = np.zeros((n_boot, q))
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 2af4436..e6838d5 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -422,7 +422,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=(self.X, self.y, self.weights), 
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
@@ -473,10 +473,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.ones(self.n_obs) * self.weights
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -506,8 +503,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.ones(n) * self.weights
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
         boot_samples = np.zeros((n_boot, q))
-- 
2.43.0


From 826cc63ce2dd5eda9d01468db84de2dd3b5bef2e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 032/225] fix: one-step jackknife uses the working weights and
 leverages of the fit

---
 pystatsm/pyglm/linear_model.py | 4 ++--
 pystatsm/pyglm2/glm.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 8bbf37b..48aaeae 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1800,7 +1800,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -1875,7 +1875,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index e6838d5..00e730a 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -416,7 +416,7 @@ class GLM(RegressionMixin, LikelihoodModel):
 
     
     def _one_step_approx(self, WX, h, rp):
-        y = rp / np.sqrt(1 - h)
+        y = rp / (1 - h)
         db = WX.dot(np.linalg.inv(np.dot(WX.T, WX))) * y.reshape(-1, 1)
         return db
         
@@ -491,7 +491,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
-- 
2.43.0


From 843f64677618f2072e0c184b6ad411d87da24063 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 033/225] fix: linear predictor standard error is a square root

---
 pystatsm/pyglm/linear_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 48aaeae..bedf868 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1826,7 +1826,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         res = {}
         eta = np.dot(X, coefs)
         if linpred_se or mean_ci:
-            eta_se = wdiag_outer_prod(X, coefs_cov, X)
+            eta_se = np.sqrt(wdiag_outer_prod(X, coefs_cov, X))
 
         if mean or mean_ci or predicted_ci:
             mu = f.inv_link(eta)
-- 
2.43.0


From 2d0a34e9088ee7f7b6af239ebae61779f62cefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 034/225] fix: AIC penalises each parameter by two

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8406d24..66774a3 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -278,7 +278,7 @@ class GLM:
         k = len(params)
         N = self.X.shape[0]
         sumstats = {}
-        sumstats['aic'] = 2*llf + k
+        sumstats['aic'] = 2*llf + 2*k
         sumstats['aicc'] = 2*llf + (2 * k * N) / (N - k - 1)
         sumstats['bic'] = 2*llf + np.log(N)*k
         sumstats['caic'] = 2*llf + k*(np.log(N) + 1.0)
-- 
2.43.0


From ac97062be841f88ef4c7792c6b3973c8df6dba1c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 035/225] fix: GLM hessian on given data uses those data
 throughout

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 66774a3..65953a0 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -155,7 +155,7 @@ class GLM:
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params)[:-1])
+            dbdt = -np.atleast_2d(self.gradient(params, X=X, Y=Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
-- 
2.43.0


From 2ab49cf6eb055921e5d7eb32e70e0fd3196a6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 036/225] fix: Pearson residuals scale with the square root of
 the weights

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 65953a0..c7e743c 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -258,7 +258,7 @@ class GLM:
         self.params = params
         mu = self.predict(params, kind="mean")
         y, mu = self.f.cshape(self.Y, mu)
-        presid = self.f.weights * (y - mu) / np.sqrt(self.f.var_func(mu=mu))
+        presid = np.sqrt(self.f.weights / self.f.var_func(mu=mu)) * (y - mu)
         self.pearson_resid = presid
         self.mu = mu
         self.y = y
-- 
2.43.0


From d35784c372cdb21ae27b918da3c1786def451b43 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 037/225] fix: frequentist covariance of the Gaussian additive
 model divides by the scale

---
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 7224297..5a430d0 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -268,7 +268,7 @@ class GaussianAdditiveModel:
         Jb = self.grad_beta_rho(beta, lambda_)
         C = Jb.dot(Vp[:-1, :-1]).dot(Jb.T)
         Vc = Vb + C
-        Vf = Vb.dot(XtX*scale).dot(Vb) + C
+        Vf = Vb.dot(XtX/scale).dot(Vb) + C
         self.Slambda = Slambda
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
-- 
2.43.0


From f52dd1f392e1d31b4b5a4fb85df631330f86543e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 038/225] fix: location-scale R squared uses fitted means, not
 linear predictors

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 59096dc..7879601 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1093,7 +1093,7 @@ class GauLS:
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
                                          'SE', 't', 'p'])
         yhat = self.m.X.dot(self.beta[self.ixm])
-        resids = self.y - yhat
+        resids = self.y - self.m.link.inv_link(yhat)
         ssr = np.sum(resids**2)
         sst =  np.sum((self.y - self.y.mean())**2)
         self.mu = self.m.link.inv_link(yhat)
-- 
2.43.0


From 6038bdab1567553b979bc9f942fb529f3830dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 039/225] fix: location-scale Newton steps that overflow are
 halved, not accepted

---
 pystatsm/pygam/gauls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7879601..1a6418b 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -472,9 +472,9 @@ class GauLS:
             if fcond or gcond:
                 beta = beta - d
                 break
-            elif ll_curr > ll_prev:
+            elif not (ll_curr <= ll_prev):
                 j = 0
-                while ((j < 15)&(ll_curr > ll_prev)):
+                while (j < 15) and not (ll_curr <= ll_prev):
                     d = d / 2.0
                     ll_curr = self.penalized_loglike(beta - d, S)
                     j+=1
-- 
2.43.0


From 6acba5cd7f2741879f63a86b85f13ee4e207d086 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 040/225] fix: smooth components can be evaluated at data-frame
 columns

---
 pystatsm/pygam/gam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index ddae4b4..5ed0fb1 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -523,7 +523,7 @@ class GAM:
         methods = {"cr":crspline_basis, "cc":ccspline_basis,"bs":bspline_basis}
         s = self.smooths[key]
         knots = s['knots']
-        x = np.linspace(knots.min(), knots.max(), 200) if data is None else data[key]
+        x = np.linspace(knots.min(), knots.max(), 200) if data is None else np.asarray(data[key])
         Xs = methods[s['kind']](x, knots, **s['fkws'])
         Xs, _ = absorb_constraints(s['q'], X=Xs)
         y = Xs.dot(beta[s['ix']])
-- 
2.43.0


From 5cfa309a7d71d37de6e51343d143dc3bdb3687eb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 041/225] fix: SEM gradients with parameters shared across
 groups

---
 pystatsm/pysem2/indexers.py   | 4 ++--
 pystatsm/pysem2/model_base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem2/indexers.py b/pystatsm/pysem2/indexers.py
index e21bb07..c5b79ff 100644
--- a/pystatsm/pysem2/indexers.py
+++ b/pystatsm/pysem2/indexers.py
@@ -205,8 +205,8 @@ class BlockFlattenedArrays:
         self.colex_descending_inds = np.vstack(self._tril_inds).T
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max() + 1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..4d4ecf1 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From 350d04c93ab45d7ad3bcd38d43f89535f8b95c41 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 042/225] fix: SEM adds no unit variance to observed endogenous
 variables

---
 pystatsm/pysem2/model_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 4d4ecf1..95ceef4 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,8 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                # the residual variances of variables that are also latent are in F
+                inx = [ov_order[x] for x in var_names["onx"] - var_names["lav"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From 1b977ab2540aa3bbce35572c6bb3f10dcb1d065a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 043/225] fix: SEM orders an indicator with its own regression
 once

---
 pystatsm/pysem2/variable_ordering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/variable_ordering.py b/pystatsm/pysem2/variable_ordering.py
index 17bbfee..40d813e 100644
--- a/pystatsm/pysem2/variable_ordering.py
+++ b/pystatsm/pysem2/variable_ordering.py
@@ -48,7 +48,8 @@ class VariableOrder:
         g.extend(sorted(subset & var_names["nob"] - (var_names["nob"] & var_names["ind"]), key=_default_sort_key))
         u = set(g)
         g.extend(sorted(subset - u, key=_default_sort_key))
-        return g
+        # an indicator that is also regressed on something is in two of the sets
+        return list(dict.fromkeys(g))
 
     @staticmethod
     def sort_flat_representation(df, symmetric=False, vector=False):
-- 
2.43.0


From c4d5381ad733b61163eb0b51b82d9f467d111ddd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 044/225] fix: SEM covariance options are honoured

---
 pystatsm/pysem2/model_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ff0d73e..6bec004 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -27,7 +27,7 @@ class ModelBuilder:
         fix_lv_var : bool, optional
             whether to fix the latent variable variance to 1.0. Default is False.
         lvx_cov : bool, optional
-            whether to include covariances for all latent exogenous variables. Default is False.
+            whether to include covariances for all latent exogenous variables. Default is True.
         y_cov : bool, optional
             whether to include covariances for all observed variables. Default is True.
         fix_lv_mean : bool, optional
@@ -35,7 +35,7 @@ class ModelBuilder:
         """
         self.add_variances(fix_lv_cov=kwargs.get('fix_lv_var', False))
         self.fix_first(vars_to_fix=kwargs.get('fix_first', True))
-        self.add_covariances(lvx_cov=~kwargs.get('lvx_cov', False), y_cov=~kwargs.get('y_cov', True))
+        self.add_covariances(lvx_cov=kwargs.get('lvx_cov', True), y_cov=kwargs.get('y_cov', True))
         self.add_means(fix_lv_mean=kwargs.get('fix_lv_mean', True))
         self.add_latent_dummies()
         self.check_initital_loadings()
-- 
2.43.0


From 62ccc1d509a4a4f560181de4e0eaa48ec0c5fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 045/225] fix: SEM latent variances fixed on request have the
 value one

---
 pystatsm/pysem2/model_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 6bec004..e302a83 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -91,6 +91,7 @@ class ModelBuilder:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             else:
                 row["fixed"] = False
             list_of_param_dicts.append(row)
-- 
2.43.0


From f2a3b1b2910301e9d6605dac2dee8e932b39a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 046/225] fix: SEM first loadings can be left free

---
 pystatsm/pysem2/model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index e302a83..0e3bdc9 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -287,6 +287,8 @@ class ModelBuilder:
         vnob = var_names["nob"]
         if vars_to_fix is None or vars_to_fix is True: #woof
             vars_to_fix = {v:True for v in vnob}
+        elif vars_to_fix is False:
+            vars_to_fix = {v:False for v in vnob}
         elif type(vars_to_fix) is not dict:
             raise ValueError("Expected dictionary or a a boolean")
         #else we have a dict
-- 
2.43.0


From 8b9c2c07036b1e38223f382ce4523f4b0c9d14bd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 047/225] fix: SEM formulas that state every parameter

---
 pystatsm/pysem2/model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 0e3bdc9..a9ecc85 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -314,6 +314,8 @@ class ModelBuilder:
         var_names = self.var_names
         vnob = var_names["nob"]
         param_df = self.param_df
+        if "start" not in param_df.columns:
+            param_df["start"] = np.nan
         ind1 = (param_df["rel"] == "=~") & (param_df["lhs"].isin(vnob))
         ltable = param_df.loc[ind1]
         ltable.groupby("lhs")
-- 
2.43.0


From 6f6bdfb6b6a6708e7b1a9f83c5930fe8ab02318f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 048/225] fix: SEM parameters tied to a fixed first loading
 share its value

---
 pystatsm/pysem2/model_builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index a9ecc85..fc86fef 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -305,8 +305,12 @@ class ModelBuilder:
             if vars_to_fix[v]:
                 if len(ltable.index[ix]) > 0:
                     if ~np.any(ltable.loc[ix, "fixed"]):
-                        param_df.loc[ltable.index[ix][0], "fixed"] = True
-                        param_df.loc[ltable.index[ix][0], "fixedval"] = 1.0
+                        first = ltable.index[ix][0]
+                        # parameters tied to the first loading share its value
+                        tied = (param_df.index == first) | (param_df["label"].notnull() &
+                                                            (param_df["label"] == param_df.loc[first, "label"]))
+                        param_df.loc[tied, "fixed"] = True
+                        param_df.loc[tied, "fixedval"] = 1.0
                     
         self.param_df = param_df
         
-- 
2.43.0


From d39409702c3630cd92b96d232b5726ff53134563 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 049/225] fix: second derivatives of SEM means with respect to
 two regressions

---
 pystatsm/pysem2/derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..e629f31 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C2.dot(Jj) + C3.dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From 63c47c7968fce0dbd8145537fdfcb1f340fe080c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 050/225] fix: SEM fits without minimiser options

---
 pystatsm/pysem2/sem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..d96728a 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -405,6 +405,7 @@ class SEM(ModelSpecification):
         else:
             hess = None
         theta = self.theta if theta_init is None else theta_init
+        minimize_options = {} if minimize_options is None else minimize_options
         if "method" in minimize_options:
             if minimize_options["method"] == "trust-constr":
                 default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
-- 
2.43.0


From d2a2c4c5bdaf6a3f76347a1c84059ab01d194938 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:14:43 +0000
Subject: [PATCH 051/225] fix: SEM data from sample statistics

---
 pystatsm/pysem2/model_data.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..f747efd 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -120,9 +120,14 @@ class ModelData(object):
         sample_cov_df = {}
         sample_mean_df = {}
         for i in range(n_groups):
-            sample_cov[i], sample_cov_df[i] = cls._to_dataframe_and_array(
-                sample_cov[i])
-            sample_mean[i], sample_mean_df[i] = cls._to_dataframe_and_array(
-                sample_mean[i])
+            _, sample_cov_df[i] = cls._to_dataframe_and_array(sample_cov[i])
+            mean_i = sample_mean[i]
+            if isinstance(mean_i, pd.DataFrame):
+                mean_i = mean_i.iloc[0]
+            elif not isinstance(mean_i, pd.Series):
+                mean_i = pd.Series(np.asarray(mean_i).reshape(-1), index=sample_cov_df[i].columns)
+            sample_mean_df[i] = mean_i
+        if n_obs is None:
+            n_obs = {i: 1 for i in range(n_groups)}
 
-        return cls(sample_cov=sample_cov, sample_mean=sample_mean, n_obs=n_obs, ddof=ddof)
+        return cls(sample_cov=sample_cov_df, sample_mean=sample_mean_df, n_obs=n_obs, ddof=ddof)
-- 
2.43.0


From 81443071788effe6f8ae49d3d1300cd981e70b84 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 052/225] fix: SEM simulations follow the generator they are
 given

---
 pystatsm/pysem2/model_simulator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pysem2/model_simulator.py b/pystatsm/pysem2/model_simulator.py
index 7ef9738..5cb1f95 100644
--- a/pystatsm/pysem2/model_simulator.py
+++ b/pystatsm/pysem2/model_simulator.py
@@ -6,8 +6,6 @@ from ..utilities.random import r_lkj, exact_rmvnorm
 from .model_specification import ModelSpecification
 from .formula import FormulaParser
 
-rng=np.random.default_rng()
-
 class SimulatedSEM:
     def __init__(self, formula, n_groups, n_obs_min=1000, n_obs_max=5000, rng=None):
         self.formula = formula
@@ -24,11 +22,11 @@ class SimulatedSEM:
 
     def generate_data(self, n_obs):
         formula_parser = FormulaParser(self.formula)
-        exog_var_list = list(formula_parser.var_names["lox"])
+        exog_var_list = sorted(formula_parser.var_names["lox"])
         nonx_var_list = sorted(formula_parser.var_names["obs"] - set(exog_var_list))
         obs_var_list = exog_var_list + nonx_var_list
         if len(exog_var_list)>0:
-            exog_cov = r_lkj(1, 1, len(exog_var_list)).squeeze()
+            exog_cov = r_lkj(1, 1, len(exog_var_list), rng=self.rng).squeeze()
             nonx_cov = np.eye(len(nonx_var_list))
             obs_cov = sp.linalg.block_diag(exog_cov, nonx_cov)
         else:
@@ -36,7 +34,8 @@ class SimulatedSEM:
         means = np.linspace(-3, 3, self.n_groups)
         dfs = []
         for i in range(self.n_groups):
-            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)))
+            arr = exact_rmvnorm(obs_cov, n_obs[i], np.repeat(means[i], len(obs_var_list)),
+                                seed=int(self.rng.integers(2**31)))
             arr = pd.DataFrame(arr, columns=obs_var_list)
             arr["group"] = i
             dfs.append(arr)
@@ -84,7 +83,7 @@ class SimulatedSEM:
             mu[i] = L[i].dot(B[i]).dot(b[i].T)+a[i].T
         dfs = []
         for i in range(self.n_groups):
-            arr = rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
+            arr = self.rng.multivariate_normal(mean= mu[i].values.flatten(), cov=Sigma[i].values, size=self.n_obs[i])
             arr = pd.DataFrame(arr, columns=Sigma[i].columns)
             arr["group"] = i
             dfs.append(arr)
-- 
2.43.0


From 116e2a4dada23ea1320462f4eb1329d4cd338561 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 053/225] fix: random correlation matrices of dimension one

---
 pystatsm/utilities/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..6678afa 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -206,6 +206,8 @@ def r_lkj_cholesky(eta=1.0, n=1, dim=1, rng=None, seed=None):
 
     eta = np.atleast_1d(eta)
     batch_shape = np.concatenate([[n], np.shape(eta)], axis=0).astype(np.int32)
+    if dim == 1:
+        return np.ones(list(batch_shape) + [1, 1])
     beta = eta + (dim - 2.) / 2.
     dimension_range = np.arange(1., dim)
     a = dimension_range / 2.
-- 
2.43.0


From c906847d4398d4ef0488bfdb8ea37a025c20a76f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:34:32 +0000
Subject: [PATCH 054/225] fix: SEM discrepancy ignores columns outside the
 model

---
 pystatsm/pysem2/model_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index f747efd..5948c42 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,8 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            # the saturated model is that of the variables in the model
+            self.const[i] = -np.linalg.slogdet(self.sample_cov[i])[1] - len(variables)
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From 51a385b3c62e53219b3a4eb039736b6b04dd4406 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 18:49:57 +0000
Subject: [PATCH 055/225] fix: sample covariances given as arrays label their
 rows

---
 pystatsm/pysem2/model_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 5948c42..ba64b82 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -122,7 +122,8 @@ class ModelData(object):
         sample_cov_df = {}
         sample_mean_df = {}
         for i in range(n_groups):
-            _, sample_cov_df[i] = cls._to_dataframe_and_array(sample_cov[i])
+            _, cov_i = cls._to_dataframe_and_array(sample_cov[i])
+            sample_cov_df[i] = cov_i.set_axis(cov_i.columns, axis=0)
             mean_i = sample_mean[i]
             if isinstance(mean_i, pd.DataFrame):
                 mean_i = mean_i.iloc[0]
-- 
2.43.0


From 0d6813699961dfbf426fe91fee1b23d2589f3a11 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 056/225] fix: ordinal regression Hessians weight every term

---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From f52056b6f2191f5fad9a447071781c00b6ff8646 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 057/225] fix: every pair of neighbouring thresholds is
 constrained to be ordered

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..b00963e 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -31,7 +31,7 @@ class CLM:
         self.W = np.ones(self.X.shape[0])
         self.constraints = [dict(zip(
                 ['type', 'fun'], 
-                ['ineq', lambda params: params[i+1]-params[i]])) 
+                ['ineq', lambda params, B1=None, B2=None, i=i: params[i+1]-params[i]])) 
                 for i in range(self.n_cats-2)]
         self.A1, self.A2 = self.Y[:, :-1], self.Y[:, 1:]
         self.o1, self.o2 = self.Y[:, -1]*30e1, self.Y[:, 0]*-10e5
-- 
2.43.0


From fbb6ad13af76dba44406b45e8fe03c8a5a97feaa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 058/225] fix: ordinal regression likelihood-ratio statistic
 and its degrees of freedom

---
 pystatsm/pyglm/clm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index b00963e..8d591db 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -154,9 +154,10 @@ class CLM:
         LL0 = self.loglike(paramsr, self.B1_intercept, self.B2_intercept)
         degfree_f = len(paramsf)
         degfree_r = len(paramsr)
-        degfree_llr = degfree_f - degfree_r
+        # the intercept of the null model duplicates its thresholds
+        degfree_llr = degfree_f - (degfree_r - 1)
         chi2_dist = sp.stats.chi2(degfree_llr)
-        LLR = LL0 - LLf
+        LLR = 2.0 * (LL0 - LLf)
         LLR_pvalue = chi2_dist.sf(LLR)
         n, p = self.X.shape
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
-- 
2.43.0


From ed3f54df86bf96b5879cfa6586e1a6138bcdfc70 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 059/225] fix: ordinal predictions at the rows of a data frame

---
 pystatsm/pyglm2/clm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index dea3cd1..7d3e17c 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -391,6 +391,7 @@ class CLM(RegressionMixin, LikelihoodModel):
         if X is not None:
             if type(X) is pd.DataFrame:
                 xinds = X.index
+                X = X.to_numpy()
             else:
                 xinds = None
         else:
-- 
2.43.0


From ae24e3e2264432c63b0c99af05ffdd4cdc59d059 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 060/225] fix: ordinal fits start from coefficients for which
 the likelihood is finite

---
 pystatsm/pyglm/clm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 8d591db..583382b 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -31,7 +31,7 @@ class CLM:
         self.W = np.ones(self.X.shape[0])
         self.constraints = [dict(zip(
                 ['type', 'fun'], 
-                ['ineq', lambda params, B1=None, B2=None, i=i: params[i+1]-params[i]])) 
+                ['ineq', lambda params, i=i: params[i+1]-params[i]])) 
                 for i in range(self.n_cats-2)]
         self.A1, self.A2 = self.Y[:, :-1], self.Y[:, 1:]
         self.o1, self.o2 = self.Y[:, -1]*30e1, self.Y[:, 0]*-10e5
@@ -47,7 +47,7 @@ class CLM:
         self.f = link
         Yprops = np.sum(self.Y, axis=0).cumsum()[:-1]/np.sum(self.Y)
         self.theta_init = sp.stats.norm(0, 1).ppf(Yprops)
-        self.beta_init = np.ones(self.X.shape[1])
+        self.beta_init = np.zeros(self.X.shape[1])
         self.params_init = np.concatenate([self.theta_init, self.beta_init], axis=0)
     
     def loglike(self, params, B1=None, B2=None):
-- 
2.43.0


From 6af0c33d1622f5464b69447b6014f2085b5fba19 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 061/225] fix: least squares accepts responses given as a
 series or a one-column frame

---
 pystatsm/pyglm/ols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index cb34e74..8370a76 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -34,8 +34,9 @@ class OLS:
                 ycols = ['y']
                 yinds = np.arange(y.shape[0])
             else:
-                 ycols, yinds = y.columns, y.index
-                 y = y.values
+                ycols = [y.name] if type(y) is pd.Series else y.columns
+                yinds = y.index
+                y = y.values.reshape(y.shape[0])
         
         if X.ndim==1:
             X = X[:, None]
-- 
2.43.0


From 54e79cc9b47fd05a7cd81a6a79bfbbd112c1ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 062/225] fix: permutation tests that keep their samples are
 two-sided like the others

---
 pystatsm/pyglm/ols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index 8370a76..2ba787a 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -219,8 +219,8 @@ class OLS:
         L, Linv, X, y = self.L, self.Linv, self.X, self.y
         if store_samples:
             t_samples = self._permutation_test_store(n_perms, L, Linv, X, y, verbose)
-            abst = t_samples
-            p_values_fwer = (abst.max(axis=1)>np.abs(self.tvalues)).sum(axis=0)/n_perms
+            abst = np.abs(t_samples)
+            p_values_fwer = (abst.max(axis=1)[:, None]>np.abs(self.tvalues)).sum(axis=0)/n_perms
             p_values = (abst > np.abs(self.tvalues)).sum(axis=0) / n_perms
         else:
             p_values_fwer, p_values =  self._permutation_test(n_perms, L, Linv, X, y, verbose)
-- 
2.43.0


From 194e20c4bb5222c7a9545f340263a1183f32ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 063/225] fix: linear model permutation tests compare the
 statistics of the data and of the permuted response

---
 pystatsm/pyglm/linear_model.py | 5 +++--
 pystatsm/pyglm2/ols.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index bedf868..3c0ef5a 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1381,7 +1381,8 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        tvalues = self.beta / (self.scale_unbiased * np.sqrt(np.diag(self.Ginv)))
+        abst = np.abs(tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -1403,7 +1404,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..4b529c9 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -503,7 +503,8 @@ class OLS(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        tvalues = self.beta / (self.scale_unbiased * np.sqrt(np.diag(self.Ginv)))
+        abst = np.abs(tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -525,7 +526,7 @@ class OLS(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From d1d6dd56c6e9c0a6a9e63222f7f691d91c784ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 064/225] fix: missing rows can be dropped from flat responses

---
 pystatsm/pyglm2/regression_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index a4e2776..b202fd1 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -215,7 +215,8 @@ class ModelData(object):
         Drop rows containing nan values from the data arrays.
         """
         # Find rows with nan values
-        nan_rows = np.any([np.isnan(arr).any(axis=1) for arr in self.data], axis=0)
+        nan_rows = np.any([np.isnan(arr).reshape(len(arr), -1).any(axis=1)
+                           for arr in self.data], axis=0)
     
         # Remove rows with nan values from data arrays
         for i, arr in enumerate(self.data):
-- 
2.43.0


From b669685c400137645de3c38381e168ffbb919656 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 065/225] fix: Hotelling-Lawley F approximation with few
 residual degrees of freedom

---
 pystatsm/pyglm2/mvols.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/mvols.py b/pystatsm/pyglm2/mvols.py
index 5c78655..c894c14 100644
--- a/pystatsm/pyglm2/mvols.py
+++ b/pystatsm/pyglm2/mvols.py
@@ -141,15 +141,16 @@ def _pillai_ftest(pillai, s, m_par, n_par):
 def _hotelling_ftest(hotelling, s, m_par, n_par, n_y, df_h):
     """F approximation for the Hotelling-Lawley trace."""
     if n_par > 0:
-        b = (n_y + 2.0 * n_par) * (df_h + 2.0 * n_par)
-        b = b / (2.0 * (2.0 * n_par + 1.0) * (n_par - 1.0))
+        # b = b_num / b_den, where b_den vanishes at n_par = 1
+        b_num = (n_y + 2.0 * n_par) * (df_h + 2.0 * n_par)
+        b_den = 2.0 * (2.0 * n_par + 1.0) * (n_par - 1.0)
         num_df = n_y * df_h
-        den_df = 4.0 + (n_y * df_h + 2.0) / (b - 1.0)
+        den_df = 4.0 + (n_y * df_h + 2.0) * b_den / (b_num - b_den)
         c = (den_df - 2.0) / (2.0 * n_par)
         f = den_df / num_df * hotelling / c
     else:
         num_df = s * (2.0 * m_par + s + 1.0)
-        den_df = s * (s * n_par + 1.0)
+        den_df = 2.0 * (s * n_par + 1.0)
         f = den_df / num_df / s * hotelling
     return f, num_df, den_df
 
-- 
2.43.0


From aeb6540b296359aa8888be3802ce40f664dea35a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 066/225] fix: survey designs accept strata and PSU labels of
 any type and keep them in the data

---
 .../utilities/complexdesign/sample_design.py  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/complexdesign/sample_design.py b/pystatsm/utilities/complexdesign/sample_design.py
index da9d63b..d29029b 100644
--- a/pystatsm/utilities/complexdesign/sample_design.py
+++ b/pystatsm/utilities/complexdesign/sample_design.py
@@ -45,6 +45,16 @@ def _ensure_columns(df, strata, psuind):
     return df, strata, psuind
 
 
+def _design_keys(df, strata, psuind):
+    # Integer codes of the strata and PSU labels, in the order of the labels;
+    # the labels themselves may be of any type and stay as they are in df.
+    keys = {}
+    for col in (strata, psuind):
+        codes = pd.Series(pd.factorize(df[col], sort=True)[0])
+        keys[col] = codes.where(codes >= 0)
+    return pd.DataFrame(keys)
+
+
 def _has_singletons(df, strata, psuind):
     sizes = df.groupby([strata, psuind]).size()
     return bool((sizes.groupby(strata).size() == 1).any())
@@ -104,12 +114,14 @@ class SampleDesign:
         if singleton not in ("aggregate", "none", "error"):
             raise ValueError(f"unknown singleton policy: {singleton!r}")
         df, strata, psuind = _ensure_columns(df, strata, psuind)
-        if _has_singletons(df, strata, psuind):
+        keys = _design_keys(df, strata, psuind)
+        if _has_singletons(keys, strata, psuind):
             if singleton == "aggregate":
-                df = _aggregate_singletons(df, strata, psuind)
+                keys = _aggregate_singletons(keys, strata, psuind)
             elif singleton == "error":
                 raise ValueError("design has singleton PSUs")
-        df = df.sort_values([strata, psuind]).reset_index(drop=True)
+        keys = keys.sort_values([strata, psuind])
+        df = df.iloc[keys.index].reset_index(drop=True)
         if weight is None:
             w = np.ones(len(df))
         else:
@@ -118,7 +130,7 @@ class SampleDesign:
         self.strata = strata
         self.psuind = psuind
         self.weight = weight
-        self.layout = _build_layout(df, strata, psuind, fpc)
+        self.layout = _build_layout(keys, strata, psuind, fpc)
         self.w = w
 
     @property
-- 
2.43.0


From 45be43e281c261199034590197ceec8e04c47123 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 067/225] fix: replication summaries of models with one
 parameter

---
 pystatsm/utilities/complexdesign/replication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/complexdesign/replication.py b/pystatsm/utilities/complexdesign/replication.py
index 67d7750..d3b3067 100644
--- a/pystatsm/utilities/complexdesign/replication.py
+++ b/pystatsm/utilities/complexdesign/replication.py
@@ -83,7 +83,7 @@ class ReplicationResult:
         return self.params.mean(axis=0) - self.theta_true
 
     def empirical_cov(self):
-        return np.cov(self.params.T, ddof=1)
+        return np.atleast_2d(np.cov(self.params.T, ddof=1))
 
     def mean_analytical_cov(self):
         return self.Vs.mean(axis=0)
-- 
2.43.0


From 4990df0ec1493d7d17470f8f444ad0edfb9244f9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 068/225] fix: survey GLM fits of subpopulations

---
 pystatsm/utilities/complexdesign/replication.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pystatsm/utilities/complexdesign/replication.py b/pystatsm/utilities/complexdesign/replication.py
index d3b3067..161e330 100644
--- a/pystatsm/utilities/complexdesign/replication.py
+++ b/pystatsm/utilities/complexdesign/replication.py
@@ -54,12 +54,18 @@ class GLMAdapter:
         self.opt_kws = opt_kws
 
     def fit(self, design):
-        model = self.GLM(formula=self.formula, data=design.df,
-                         family=self.family, weights=design.w)
+        # rows outside a subpopulation have weight zero, where the likelihood
+        # of families with a scale is not defined; they contribute no score
+        keep = design.w != 0
+        model = self.GLM(formula=self.formula, data=design.df.loc[keep],
+                         family=self.family, weights=design.w[keep])
         model.fit(opt_kws=self.opt_kws)
+        score = model.gradient_i(model.params)
+        score_i = np.zeros((design.n, score.shape[1]))
+        score_i[keep] = score
         return FitResult(
             params=np.asarray(model.params),
-            score_i=model.gradient_i(model.params),
+            score_i=score_i,
             bread=model.params_cov,
         )
 
-- 
2.43.0


From 67d7e45c37148306b3a9d22936b6de8ed31e9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 069/225] fix: quartimax is the Crawford-Ferguson criterion
 without a column term

---
 pystatsm/pyfa/rotation.py   | 4 ++--
 pystatsm/pyfa2/criterion.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 856026c..a804083 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -175,7 +175,7 @@ def get_gcf_constants(method, p, m):
     if method == 'varimax':
         consts = dict(k1=0.0, k2=(p-1)/p, k3=1/p, k4=-1)
     elif method == 'quartimax':
-        consts = dict(k1=0.0, k2=1, k3=1, k4=-1)
+        consts = dict(k1=0.0, k2=1, k3=0, k4=-1)
     elif method == 'equamax':
         consts = dict(k1=0.0, k2=1-m/(2.0 * p), k3=m/(2.0 * p), k4=-1)
     elif method == 'parsimax':
@@ -197,7 +197,7 @@ class GeneralizedCrawfordFerguson(RotationMethod):
         elif method == 'quartimax':
             k1 = 0.0
             k2 = 1.0
-            k3 = 1.0
+            k3 = 0.0
             k4 = -1.0
         elif method == 'equamax':
             k1 = 0.0
diff --git a/pystatsm/pyfa2/criterion.py b/pystatsm/pyfa2/criterion.py
index 8cda5b7..3d8b71c 100644
--- a/pystatsm/pyfa2/criterion.py
+++ b/pystatsm/pyfa2/criterion.py
@@ -6,7 +6,7 @@ def _gcf_constants(method, p, m):
     if method == 'varimax':
         return (0.0, (p - 1) / p, 1 / p, -1.0)
     if method == 'quartimax':
-        return (0.0, 1.0, 1.0, -1.0)
+        return (0.0, 1.0, 0.0, -1.0)
     if method == 'equamax':
         return (0.0, 1 - m / (2.0 * p), m / (2.0 * p), -1.0)
     if method == 'parsimax':
-- 
2.43.0


From 88c5567f93abf10c783f068b217007d24391d72a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 070/225] fix: factor model recovery study runs

---
 pystatsm/pyfa2/sim_factor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/sim_factor_model.py b/pystatsm/pyfa2/sim_factor_model.py
index a830d7e..906d833 100644
--- a/pystatsm/pyfa2/sim_factor_model.py
+++ b/pystatsm/pyfa2/sim_factor_model.py
@@ -87,7 +87,7 @@ def run(p, m, n_obs, n_rep, rotation_kind='ortho', seed=0):
         theta_a = est.layout.pack(L_a, Phi_a, psi)
         M = alignment_matrix(est.layout, free_mask, perm, signs)
         thetas[r] = theta_a[free_mask]
-        Vs[r] = np.matmul(np.matmul(M, V, M.T))
+        Vs[r] = np.matmul(np.matmul(M, V), M.T)
         L_ests[r], Phi_ests[r], psi_ests[r] = L_a, Phi_a, psi
 
     # ---- theta-level diagnostics --------------------------------------------
-- 
2.43.0


From 7086cb37035d24b483e74de2573b7453daf57506 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 071/225] fix: random factor correlation matrices are matrices

---
 pystatsm/pyfa2/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa2/simulation.py b/pystatsm/pyfa2/simulation.py
index 7c52563..9db897f 100644
--- a/pystatsm/pyfa2/simulation.py
+++ b/pystatsm/pyfa2/simulation.py
@@ -32,7 +32,7 @@ def generate_loadings(p, m, low=0.4, high=0.9, random=False, rng=None):
 
 def generate_factor_corr(m, rho=0.5, random=False, eta=2.0, rng=None):
     if random:
-        return r_lkj(n=1, dim=m, eta=eta, rng=rng)
+        return r_lkj(n=1, dim=m, eta=eta, rng=rng)[0, 0]
     Phi = rho ** sp.linalg.toeplitz(np.arange(m))
     s = (-1) ** np.arange(m).reshape(-1, 1)
     return s * Phi * s.T
-- 
2.43.0


From dbe9702cb781f823223e655d68420ea6bdfce52a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 072/225] fix: elastic net coordinate descent lets coefficients
 leave zero again

---
 pystatsm/pyglmnet/gaussian_eln.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..8f02b5c 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -80,8 +80,6 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
             b[j] = sft(uj, la) / (Xsq[j]+dla)
             if b[j]!=0:
                 r-= xj * b[j]
-            else:
-                active[j] = False
         msr = np.sum(r**2)/ n2
         pen = elnet_penalty(b, alpha, lambda_)
         f_new = msr + pen
@@ -91,14 +89,14 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
         else:
             f_old = f_new
             beta_hat = b
+    active = b != 0
     return beta_hat, fvals, active, i
 
 
             
 def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-9,
           btol=1e-9, intercept=True):
-    if b is None:
-        b = X.T.dot(y) / X.shape[0]
+    b = X.T.dot(y) / X.shape[0] if b is None else np.array(b, dtype=float)
     if active is None:
         active = np.ones(X.shape[1], dtype=bool)
     if intercept:
-- 
2.43.0


From e44db43ac3febb770f62843ee6903ed57c739a4c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 073/225] fix: gradient of the elastic net objective at
 negative coefficients

---
 pystatsm/pyglmnet/gaussian_eln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 8f02b5c..8be573e 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -109,7 +109,7 @@ def elnet(X, y, lambda_, alpha=0.99, b=None, active=None, n_iters=1000, dtol=1e-
 def elnet_grad(b, X, y, lambda_, alpha):
     n = y.shape[0]
     r = y - X.dot(b)
-    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha
+    g = -1.0 / n * X.T.dot(r) + lambda_ * (1 - alpha) * b + lambda_*alpha*np.sign(b)
     return g
   
 
-- 
2.43.0


From e9cb42a22cc11af312b08875595150efb7660ccc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 074/225] fix: binomial elastic net retries coefficients that
 were set to zero

---
 pystatsm/pyglmnet/binomial_eln.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..0720810 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -242,7 +242,8 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         Minimum allowed estimated probability, default 1e-9
     
     nr_ent: bool, optional
-        If variable reentry is allowed, default false
+        If variables that reach zero are kept out of the remaining iterations
+        (no reentry), default false
 
     
     Returns
@@ -272,7 +273,7 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
         b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
-                                               acs, ix, n)
+                                               acs.copy(), ix, n)
         
         if np.max(xvd) < btol:
             break
@@ -282,7 +283,7 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
             b = b_new
         if nr_ent:
             acs = acs_new
-    return b, b0, acs, fvals[:i]
+    return b, b0 * intercept, acs, fvals[:i]
 
 
 def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000, 
@@ -327,7 +328,8 @@ def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000,
         Minimum allowed estimated probability, default 1e-9
     
     nr_ent: bool, optional
-        If variable reentry is allowed, default false
+        If variables that reach zero are kept out of the remaining iterations
+        (no reentry), default false
         
     
     Returns
@@ -370,7 +372,7 @@ def binom_glmnet(X, y, lambda_, alpha, b=None, active=None, n_iters=2000,
 
 def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=1e-4, 
               n_iters=1000, warm_start=True, refit=True, lmin_pct=0,
-              lmin=None, pmin=1e-9, nr_ent=True, seq_rule=True, intercept=True,
+              lmin=None, pmin=1e-9, nr_ent=False, seq_rule=True, intercept=True,
               rng=None):
     '''
     Cross validated grid search for optimal elastic net penalty for a binomial
@@ -421,7 +423,8 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
         Minimum allowed estimated probability, default 1e-9
     
     nr_ent: bool, optional
-        If variable reentry is allowed, default false
+        If variables that reach zero are kept out of the remaining iterations
+        (no reentry), default false
     
     seq_rule : bool, optional
         Whether or not use the sequential rule to speed up crossvalidation
-- 
2.43.0


From 763e69595550fa9730adaac8a2889269b6a79fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 075/225] fix: held out binomial deviance uses the intercept

---
 pystatsm/pyglmnet/binomial_eln.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 0720810..a168682 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -455,7 +455,7 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
             nl = 150
         else:
             nl = int(lambdas)
-        b0 = X.T.dot(y - np.log(y.mean() / (1.0 - y.mean()))) / X.shape[0]
+        b0 = X.T.dot(y - y.mean()) / X.shape[0]
         if lmin_pct is None:
             lmin_pct = X.shape[1] / X.shape[0] * 100.0
         lambda_min = sp.stats.scoreatpercentile(np.abs(b0), lmin_pct) if lmin is None else lmin
@@ -495,7 +495,7 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
                                        active=active, btol=btol, dtol=dtol,
                                        n_iters=n_iters, pmin=pmin,nr_ent=nr_ent, 
                                        intercept=intercept)
-            fi = binom_eval(yt[k], Xt[k].dot(bi), bi, alpha, lambda_)
+            fi = binom_eval(yt[k], Xt[k].dot(bi) + b0, bi, alpha, lambda_)
             betas_cv[i+1, k] = bi
             b0s_cv[i+1, k] = b0
             fvals[i, k] = fi
-- 
2.43.0


From edde2e0441723297946e7e441e62ec9a1199f85e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 076/225] fix: second binomial elastic net retries coefficients
 that were set to zero

---
 pystatsm/pyglmnet/binom_eln2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 20b3696..044a263 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -75,7 +75,7 @@ def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000,
                 d = b[j] - bj
                 xv[j] = d**2 * xwx[j]
                 r = r - d * w * xj
-                dlx = max(xv[j]*d**2, dlx)
+                dlx = max(xv[j], dlx)
             if b[j]==0:
                 active[j] = False
         if i==0:
@@ -137,8 +137,8 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
     r = (y - mu)
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
-        b, b0, active = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
-                                   active, index, max_iters, dtol)
+        b, b0, _ = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
+                                   active.copy(), index, max_iters, dtol)
         eta, mu, w = get_eta_mu(X, b, b0)
         r = (y - mu)
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
-- 
2.43.0


From 92a5fe2ac25da074a8c8e0bd84908c9bd88ec9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 077/225] fix: observation weights and integer responses in the
 binomial elastic net

---
 pystatsm/pyglmnet/binom_eln2.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 044a263..dad7ada 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -25,7 +25,7 @@ def binomial_deviance(y, mu, weights):
     ixa = y==0
     ixc = y==1
     ixb = (~ixa)&(~ixc)
-    d = np.zeros_like(y)
+    d = np.zeros(len(y))
     u = (1 - y)[ixb]
     v = (1 - mu)[ixb]
     d[ixa] = -np.log(1-mu[ixa])
@@ -57,7 +57,6 @@ def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000,
     xv = np.zeros(X.shape[1])
     la, dla = lam * alpha, lam * (1.0 - alpha)
     b0, b = beta[0], beta[1:]
-    n = len(r)
     xwx = np.zeros(X.shape[1])
     xwx_ind = np.zeros(X.shape[1])
     wsum = np.sum(w)
@@ -66,9 +65,9 @@ def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000,
         for j in active_vars:
             bj, xj, xjsq = b[j], X[:, j], Xsq[:, j]
             if xwx_ind[j]!=1:
-                xwx[j] = np.dot(w, xjsq) / n
+                xwx[j] = np.dot(w, xjsq)
                 xwx_ind[j] = 1
-            gj = np.dot(r, xj) / n
+            gj = np.dot(r, xj)
             u = gj + xwx[j] * bj
             b[j] = soft_threshold(u, la) / (xwx[j]+dla)
             if b[j]!=bj:   
@@ -132,15 +131,15 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         betas[0] = beta
     else:
         betas = None
-    eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
+    eta, mu, v = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
-    r = (y - mu)
+    r, w = weights * (y - mu), weights * v
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
         b, b0, _ = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
                                    active.copy(), index, max_iters, dtol)
-        eta, mu, w = get_eta_mu(X, b, b0)
-        r = (y - mu)
+        eta, mu, v = get_eta_mu(X, b, b0)
+        r, w = weights * (y - mu), weights * v
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         ii = 0
         if fvals[i]>fvals[i-1]+1e-7:
@@ -150,8 +149,8 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
                     break
                 b = (beta[1:] + b) / 2
                 b0 = (beta[0] + b0) / 2
-                eta, mu, w = get_eta_mu(X, b, b0)
-                r = (y - mu)
+                eta, mu, v = get_eta_mu(X, b, b0)
+                r, w = weights * (y - mu), weights * v
                 fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         step_halves[i] = ii
         if store_betas:
@@ -205,7 +204,6 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     betas = np.zeros((n_lambdas+1, n_var+1))
     fvals_hist = []
     fvals, active, index = np.zeros(n_lambdas+1), np.ones(n_var, dtype=bool), np.arange(n_var)
-    weights = np.ones_like(y)
     betas[0, 0] = b0
     
     default_cd_kws = dict(X=X, Xsq=Xsq, y=y, weights=weights, alpha=alpha,
-- 
2.43.0


From ce8299cc0535b89d48a0e9b83c7a7d9090f5428a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 078/225] fix: single elastic net fits unpack the solver
 results

---
 pystatsm/pyglmnet/glmen.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..906516a 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -61,7 +61,12 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        res = self._fit(X, y, lambda_, alpha, intercept=intercept,
+                        n_iters=n_iters, **kws)
+        if self.family=="binomial":
+            beta, self.b0, active, fvals, _ = res
+        else:
+            beta, fvals, active, _ = res
         self.beta = beta 
         self.active = active
         self.fvals = fvals
@@ -74,7 +79,8 @@ class GLMEN:
                                                             cv, X, y, alpha, 
                                                             lambdas=lambdas,
                                                             n_iters=n_iters, b=b, 
-                                                            refit=refit, **kws)
+                                                            refit=refit, 
+                                                            intercept=intercept, **kws)
         self.beta_path = b_path
         self.f_path = f_path
         self.lambdas = lambdas
-- 
2.43.0


From 02b873c1e0f6e7efd74dad12316b8fe2484ddaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 079/225] fix: alternating coefficients of sparse simulations
 with an even number of terms

---
 pystatsm/pyglmnet/sparse_model_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/sparse_model_sim.py b/pystatsm/pyglmnet/sparse_model_sim.py
index 9bbb7c2..0828bc1 100644
--- a/pystatsm/pyglmnet/sparse_model_sim.py
+++ b/pystatsm/pyglmnet/sparse_model_sim.py
@@ -31,7 +31,7 @@ class SparseRegressionModel:
             if beta_vals is None:
                 beta_vals = np.zeros(n_nnz)
                 beta_vals[:n_nnz-n_nnz%2] = np.tile([1.0, -1.0], n_nnz//2)
-                beta_vals[-(n_nnz%2)] = 1.0
+                beta_vals[n_nnz-n_nnz%2:] = 1.0
         
             beta = np.zeros(n_var)
             beta[[x[0] for x in np.array_split(np.arange(n_var), n_nnz)]] = beta_vals
-- 
2.43.0


From e6a8cfe44bb8cc962cc915e84e6a404fe29fb126 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 080/225] fix: accelerated lasso restarts its momentum instead
 of stopping early

---
 pystatsm/pyglmnet/lasso.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lasso.py b/pystatsm/pyglmnet/lasso.py
index 0a72449..75e1a41 100644
--- a/pystatsm/pyglmnet/lasso.py
+++ b/pystatsm/pyglmnet/lasso.py
@@ -52,8 +52,9 @@ def lasso_accelerated_grad(beta, X, y, Xty, XtX, lambda_, max_eig, n_iters=500,
         beta_new = soft_threshold(theta + alpha * g, tau)
         theta_new = beta_new + (1+i) / (4 + i) * (beta_new - beta)
         fhist = np.append(fhist, np.array([lasso_obj(beta_new, X, y, lambda_)]), axis=0)
-        if fhist[i+1, 2] > fhist[i, 2]:
-            break
+        if fhist[i+1, 2] > fhist[i, 2] and not np.array_equal(theta, beta):
+            theta = beta.copy()
+            continue
         dt = np.abs(beta_new - beta)
         bt = np.abs(beta) 
         if np.all(dt < bt * rtol) or np.all(dt < bt * rtol + atol):
-- 
2.43.0


From ef4c2946f9532321a066f0a9dd5cda600c52dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 081/225] fix: held out folds are standardised like the folds
 the elastic net was fitted to

---
 pystatsm/pyglmnet/glmen2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index 133224f..aaeb0aa 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -300,6 +300,7 @@ class ElasticNetGLM(object):
             for k, (f_ix, v_ix) in enumerate(kfix):
                 Xf, Xsqf, yf, wf = X[f_ix], Xsq[f_ix], y[f_ix], wobs[f_ix]
                 Xt, _, yt, wt = X[v_ix], Xsq[v_ix], y[v_ix], wobs[v_ix]
+                Xt = (Xt - np.mean(Xf, axis=0)) / np.std(Xf, axis=0)
                 betas[j, k], _, _ = self._glm_elnet_path(Xf, Xsqf, yf, wf, lambdas,
                                                          progress_bar=pbar, 
                                                          kws=kws)
-- 
2.43.0


From d1507080345cfb1ecbc93dfa4fc5b1ec6d3e15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 082/225] fix: elastic net screening does not discard variables
 that belong in the fit

---
 pystatsm/pyglmnet/glmen2.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen2.py b/pystatsm/pyglmnet/glmen2.py
index aaeb0aa..96c1473 100644
--- a/pystatsm/pyglmnet/glmen2.py
+++ b/pystatsm/pyglmnet/glmen2.py
@@ -226,8 +226,6 @@ class ElasticNetGLM(object):
         index = np.arange(self.n_var)
         eta = overflow_adjust(beta[0] + X.dot(beta[1:]), lower, upper)
         mu = self.family.inv_link(eta)
-        g = np.abs(np.dot(X.T, wobs * (y - mu)))
-        active[g<(2.0 * lam - lam0)] = False
         f_curr = self._obj_func_mu(mu, beta, lam, X, y, wobs)
         f_hist = [[f_curr, 0]]
         for i in range(n_iters):
-- 
2.43.0


From 4f8580d809b5dffc97cb8281279b85f19ad67dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 083/225] fix: held out folds of the binomial elastic net use
 the scale of the fitted folds

---
 pystatsm/pyglmnet/binom_eln2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index dad7ada..c90cb78 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -254,6 +254,7 @@ def binom_glmnet_cv(X, y, alpha=0.99, lambdas=None, cv=10, n_rep=1,
         for k, (f_ix, v_ix) in enumerate(kfix):
             Xf, yf = X[f_ix], y[f_ix]
             Xt, yt = X[v_ix], y[v_ix]
+            Xt = (Xt - Xf.mean(axis=0)) / Xf.std(axis=0)
             betas[j, k], _, _ , _= binom_elnet_path(Xf, yf, np.ones_like(yf), alpha, lambdas,
                                               progress_bar=pbar, cd_kws=cd_kws)
             w  = np.ones_like(yt)
-- 
2.43.0


From 4a880ab827c6db57bb37a5b78608e562f74d79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 084/225] fix: lasso paths in which a variable leaves before
 the last one enters

---
 pystatsm/pyglmnet/lars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..37a3023 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,10 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    n_active = len(active)
+    for k in drop_ix[::-1]:
+        L[:n_active, :n_active] = chol_downdate(L[:n_active, :n_active].copy(), k)
+        n_active -= 1
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From 5f66a2e9a0f8c21a0fb45315bc91eea76ad77441 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 085/225] fix: binomial elastic net paths keep each lambda's
 own solution

---
 pystatsm/pyglmnet/binom_eln2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index c90cb78..f2c67ff 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -216,7 +216,7 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     pbar = tqdm.tqdm(total=n_lambdas, smoothing=0.0001) if progress_bar is None else progress_bar
     for i, lam in enumerate(lambdas):
         active = np.ones(n_var, dtype=bool)
-        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i], active, **cd_kws)
+        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i].copy(), active, **cd_kws)
         betas[i+1] = beta
         fvals_hist.append(fval)
         fvals[i+1] = fval[-1]
-- 
2.43.0


From 708bda68afc5b47a49c6983a5da362d6ae5e47db Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 086/225] fix: binomial elastic net convergence includes the
 intercept

---
 pystatsm/pyglmnet/binomial_eln.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index a168682..9eb3e46 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -272,10 +272,12 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         w = mu * muconj
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
-        b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
+        b_new, b0_new, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
                                                acs.copy(), ix, n)
         
-        if np.max(xvd) < btol:
+        xv0 = (b0_new - b0)**2 * np.mean(w) * intercept
+        b0 = b0_new
+        if max(np.max(xvd), xv0) < btol:
             break
         if i>0 and 0<(fvals[i-1]-fvals[i])<dtol:
             break
-- 
2.43.0


From 067e09bf60007a301f766bdff58ab7fca0fe5626 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 087/225] fix: Qn takes the k-th smallest pairwise distance
 with h = n // 2 + 1

---
 pystatsm/pyrobust/dispersion_estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index 1125479..f1664f8 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -107,9 +107,9 @@ def qn_estimator(x, corrected=True, *args):
     n = len(x)
     a, b = np.tril_indices(n, -1)
     m = np.fabs(x[a] - x[b])
-    h = np.ceil(n / 2) + 1
+    h = n // 2 + 1
     k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    m = m[np.argsort(m)[k - 1]]
     if corrected:
         m = m*PHI58
     return m
@@ -118,9 +118,9 @@ def qn_estimator(x, corrected=True, *args):
 def qn_estimator2(x, corrected=True):
     n = len(x)
     m = vech(np.fabs(np.subtract.outer(x, x)))
-    h = np.ceil(n / 2) + 1
+    h = n // 2 + 1
     k = int((h * (h - 1)) / 2)
-    m = m[np.argsort(m)[k]]
+    m = m[np.argsort(m)[k - 1]]
     if corrected:
         m = m*PHI58
     return m
-- 
2.43.0


From 59b07092d86667908f01b554a72c77434e644f1c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 088/225] fix: Huber estimators use the tuning constant they
 are given

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 pystatsm/pyrobust/rls.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..838acb9 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..1af069e 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c=c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From 0cdac6479c60f0b65d8641759bb59fe53eb7f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 089/225] fix: M-estimator functions of integer residuals

---
 pystatsm/pyrobust/m_estimators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 838acb9..dd9aeba 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -91,7 +91,7 @@ class Huber(MEstimator):
         
     def rho(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -101,7 +101,7 @@ class Huber(MEstimator):
     
     def psi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -111,7 +111,7 @@ class Huber(MEstimator):
     
     def phi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -120,7 +120,7 @@ class Huber(MEstimator):
     
     def weights(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -163,7 +163,7 @@ class Bisquare(MEstimator):
         self.c = c
     
     def rho(self, x, c=None):
-        x = np.atleast_1d(x)
+        x = np.atleast_1d(np.asarray(x, dtype=float))
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -176,7 +176,7 @@ class Bisquare(MEstimator):
         return y
         
     def psi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -187,7 +187,7 @@ class Bisquare(MEstimator):
         return y
 
     def phi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -198,7 +198,7 @@ class Bisquare(MEstimator):
         return y
         
     def weights(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
-- 
2.43.0


From 896638b61b4c9e9f6d78b3e364285eaba2a910a0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 090/225] fix: expected psi integrates psi

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index dd9aeba..8546925 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From 457ebac3537ca938ef052d384eb6526de027de5b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 091/225] fix: robust regression covariances standardise the
 residuals by their scale

---
 pystatsm/pyrobust/rls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 1af069e..d633eff 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -145,8 +145,8 @@ class RobustLM:
         self.scale = np.exp(self.theta[-1])
         self.resids = self.y - self.X.dot(self.beta)
         
-        self.psi_r = self.f.psi(self.resids)
-        self.phi_r = self.f.phi(self.resids)
+        self.psi_r = self.f.psi(self.resids / self.scale)
+        self.phi_r = self.f.phi(self.resids / self.scale)
         
         self.dfe = (self.n_obs-self.n_var)
         
@@ -155,9 +155,9 @@ class RobustLM:
         
         self.k = 1.0 + self.n_var / self.n_obs * np.var(self.phi_r) / self.E_phi**2
         
-        self.k1 = self.k**2 * self.E_psi_sq / self.E_phi**2
-        self.k2 = self.k * self.E_psi_sq / self.E_phi
-        self.k3 = self.E_psi_sq / self.k
+        self.k1 = self.k**2 * self.scale**2 * self.E_psi_sq / self.E_phi**2
+        self.k2 = self.k * self.scale**2 * self.E_psi_sq / self.E_phi
+        self.k3 = self.scale**2 * self.E_psi_sq / self.k
         
         self.XtX = self.X.T.dot(self.X)
         self.G = np.linalg.inv(self.XtX)
-- 
2.43.0


From 842e506ec20210b87754e8fab3e110d05be57a3d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 092/225] fix: reweighted least squares of robust regression
 uses the weights of its estimating equation

---
 pystatsm/pyrobust/rls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index d633eff..4ebbd76 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -116,10 +116,10 @@ class RobustLM:
             if scale == "mad":
                 s = mad(r)
             else:
-                v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
-                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
+                v = self.f.psi(r / s)**2 * s**2
+                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.f.E_psi2()))
             u = r /s
-            w = np.sqrt(self.f.psi(u) / u)
+            w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
             r_new = self.y - self.X.dot(b_new)
             
-- 
2.43.0


From eeb9617834e6583d0ebd745710cc551a5b2d001b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 093/225] fix: robust regression simulations are reproducible
 from their seed

---
 pystatsm/pyrobust/robust_model_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/robust_model_sim.py b/pystatsm/pyrobust/robust_model_sim.py
index 385d4f8..43b7acc 100644
--- a/pystatsm/pyrobust/robust_model_sim.py
+++ b/pystatsm/pyrobust/robust_model_sim.py
@@ -17,7 +17,7 @@ class RobustRegressionModel:
                  beta=None, beta_vals=None,  rsq=None, seed=None, 
                  rng=None, resid_dist=None):
         
-        rng = np.random.default_rng() if rng is None else rng
+        rng = np.random.default_rng(seed) if rng is None else rng
         if resid_dist is None:
             resid_dist = lambda loc, scale, size: students_t(loc, scale, nu=2, 
                                                              size=size, rng=rng)
@@ -34,7 +34,7 @@ class RobustRegressionModel:
             if beta_vals is None:
                 beta_vals = np.zeros(n_nnz)
                 beta_vals[:n_nnz-n_nnz%2] = np.tile([1.0, -1.0], n_nnz//2)
-                beta_vals[-(n_nnz%2)] = 1.0
+                beta_vals[n_nnz-n_nnz%2:] = 1.0
         
             beta = np.zeros(n_var)
             beta[[x[0] for x in np.array_split(np.arange(n_var), n_nnz)]] = beta_vals
-- 
2.43.0


From a395fd653ba1c77b4c3646efbc1584d99245314b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 094/225] fix: second form of Qn leaves out the distance of a
 point to itself

---
 pystatsm/pyrobust/dispersion_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index f1664f8..d4360e0 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -117,7 +117,7 @@ def qn_estimator(x, corrected=True, *args):
 
 def qn_estimator2(x, corrected=True):
     n = len(x)
-    m = vech(np.fabs(np.subtract.outer(x, x)))
+    m = np.fabs(np.subtract.outer(x, x))[np.tril_indices(n, -1)]
     h = n // 2 + 1
     k = int((h * (h - 1)) / 2)
     m = m[np.argsort(m)[k - 1]]
-- 
2.43.0


From a4708ddb3115af20967b96779b48cbb24ca20642 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 095/225] fix: starting scale of residuals is not centred at
 their median

---
 pystatsm/pyrobust/m_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 8546925..75f6d98 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -51,7 +51,7 @@ class MEstimator(object):
         return y
     
     def m_estimate_scale(self, r, scale=None, bd=0.5, n_iters=1, tol=1e-12):
-        scale = mad(r) if scale is None else scale
+        scale = np.median(np.abs(r)) / QTF75 if scale is None else scale
         for i in range(n_iters):
             ss = np.mean(self.rho(r / scale)) / bd
             s_new = np.sqrt(scale**2 * ss)
@@ -63,7 +63,7 @@ class MEstimator(object):
     
     def irls_step(self, X, y,  beta, scale=None, bd=0.5, n_iters=50, tol=1e-12):
         r = y - X.dot(beta)
-        scale = mad(r) if scale is None else scale
+        scale = np.median(np.abs(r)) / QTF75 if scale is None else scale
         for i in range(n_iters):
             ss = np.mean(self.rho(r / scale)) / bd
             scale = np.sqrt(scale**2 * ss)
-- 
2.43.0


From c37fa3292dbd9177eac99d5898d4b2a570747ebe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 096/225] fix: S-estimates start from a scale, not from its
 logarithm

---
 pystatsm/pyrobust/rls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 4ebbd76..c4ff28f 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -211,7 +211,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = np.log(mad(self.y - self.X.dot(self.beta_init)))
+        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
@@ -223,7 +223,7 @@ class RobustSLM:
         rng = np.random.default_rng(123) if rng is None else rng
         X, y = self.X, self.y
         n_obs, n_var = self.n_obs, self.n_var
-        beta, scale = self.beta_init, self.scale_init
+        beta, scale = self.beta_init, None
         r = y - X.dot(beta)
         r, beta, scale = self.f.irls_step(X, y, beta, scale, bd=bd, n_iters=n_refining,
                                           tol=tol)
-- 
2.43.0


From a80375656bef2643f3acd4d6f6f3953502fa9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 097/225] fix: reweighted robust regression iterates until its
 scale has converged too

---
 pystatsm/pyrobust/rls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index c4ff28f..27af0d2 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -113,6 +113,7 @@ class RobustLM:
         u = r / s
         fit_hist = np.zeros((n_iters, 3))
         for i in range(n_iters):
+            s_old = s
             if scale == "mad":
                 s = mad(r)
             else:
@@ -124,6 +125,7 @@ class RobustLM:
             r_new = self.y - self.X.dot(b_new)
             
             d = np.sqrt(np.sum((b - b_new)**2) / (np.sum(b**2)+1e-16))
+            d = max(d, np.abs(s / s_old - 1.0))
             fit_hist[i] = [d, np.sum(self.grad(np.r_[b_new, np.log(s)])**2),
                            self.rho(np.r_[b_new, np.log(s)])]
             if d < tol:
-- 
2.43.0


From d10ad6e8d27533946b0e8a3b8d0cb62dfc200ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 098/225] fix: rounding values that are already integers leaves
 them alone

---
 pystatsm/utilities/func_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3be3838..6f3d39c 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -311,7 +311,7 @@ def sum_preserving_round(arr):
     arr_fract = arr - arr_floor
     arr_fract_sort = np.argsort(arr_fract)
     sum_diff = int(np.round(np.sum(arr) -  np.sum(arr_floor)))
-    ind = arr_fract_sort[-sum_diff:]
+    ind = arr_fract_sort[len(arr_fract_sort)-sum_diff:]
     arr_floor[ind] = arr_floor[ind] + 1
     return arr_floor
 
-- 
2.43.0


From 5a84a0e5153f282998606db195b6591c2c703d2c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 099/225] fix: raising small allocations to the minimum keeps
 the others above it

---
 pystatsm/utilities/func_utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 6f3d39c..e4b6a12 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -318,8 +318,9 @@ def sum_preserving_round(arr):
 
 def sum_preserving_min(arr, min_):
     """
-    Subtracts the difference between the minimum value of the input array
-    `arr` and `min_` from elements of `arr` that are smaller than `min_`.
+    Raises the elements of `arr` that are smaller than `min_` to `min_`, taking
+    the difference from the larger elements in proportion to their excess.
+    An array whose sum is too small for that is returned as it is.
     
     Parameters:
     -----------
@@ -334,13 +335,11 @@ def sum_preserving_min(arr, min_):
         The input array with the adjustments made to elements that were smaller
         than `min_`.
     """
-    arr_ind = arr < min_
-    arr_diff= arr - min_
-    n_lt = np.sum(arr_ind)
-    if n_lt > 0:
-        arr_sort = np.argsort(arr)[-n_lt:]
-        arr[arr_ind] = arr[arr_ind] - arr_diff[arr_ind]
-        arr[arr_sort] = arr[arr_sort] + arr_diff[arr_ind]
+    arr = np.asarray(arr, dtype=float)
+    deficit = np.sum(np.maximum(min_ - arr, 0.0))
+    excess = np.maximum(arr - min_, 0.0)
+    if 0.0 < deficit <= np.sum(excess) * (1.0 + 1e-12):
+        arr = min_ + excess * np.maximum(1.0 - deficit / np.sum(excess), 0.0)
     return arr
     
 def sizes_to_inds(sizes):
-- 
2.43.0


From 6296abba7c4d5817076be937401ee744b0db12d9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 100/225] fix: expit of large arguments is one, not nan

---
 pystatsm/utilities/func_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index e4b6a12..221a62e 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -286,8 +286,7 @@ def expit(x):
     y : ndarray
         The result of the sigmoid function applied to `x`.
     """
-    u = np.exp(x)
-    y = u / (1.0 + u)
+    y = 1.0 / (1.0 + np.exp(-x))
     return y
 
 
-- 
2.43.0


From 8f938ec022ebc63b36636e96a18dd126849ee272 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 101/225] fix: bivariate normal densities and probabilities of
 integer arrays are not truncated

---
 pystatsm/utilities/func_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 221a62e..7fee397 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -741,14 +741,14 @@ def _binorm_cdf_arr(h, k, r):
         The values of the bivariate normal CDF at the specified arrays of `h` 
         and `k` values, and the given correlation coefficient `r`.
     """
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     for ii in np.ndindex(*h.shape):
         res[ii] = binorm_cdf_jit(h[ii], k[ii], r)
     return res
 
 @numba.jit(nopython=True)
 def _binorm_pdf_arr(h, k, r):
-    res = np.zeros_like(h)
+    res = np.zeros(h.shape)
     """
     Calculate the bivariate normal probability density function for each element
     of the input arrays.
-- 
2.43.0


From 6500bcada82f59239b8b537affb002d99fbd8fee Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 102/225] fix: coefficient of the fourth order term of the
 harmonic number expansion

---
 pystatsm/utilities/func_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 7fee397..90f9165 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -514,7 +514,7 @@ def harmonic_asymptotic(n):
         An approximation of the nth harmonic number computed using the given formula.
     """
     euler_mascheronic = 0.57721566490153286060651209008240243104215933593992
-    h = euler_mascheronic + np.log(n) + 1 / (2.0 * n) - 1 / (12.0 * n**2) + 1 / (120.8 * n**4)
+    h = euler_mascheronic + np.log(n) + 1 / (2.0 * n) - 1 / (12.0 * n**2) + 1 / (120.0 * n**4)
     return h
 
 
-- 
2.43.0


From 82f7429515058e4ff9b41bd2583283808bf9b439 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 103/225] fix: the kth sign change is counted between
 successive values

---
 pystatsm/utilities/data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 08511a5..a122ccb 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -295,6 +295,7 @@ def _kth_sign_change_1d(arr, b, k=1):
     j = 0
     for i in range(1, n):
         if np.sign(arr[i]-b)!=s:
+            s = np.sign(arr[i]-b)
             j += 1
         if j==k:
             break
-- 
2.43.0


From 8363e4a90c159e189931bb0d46a6dbfa6a172532 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 104/225] fix: dummy encoding against a subset of the
 categories

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index a122ccb..59571f6 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -266,7 +266,7 @@ def dummy_encode(x, categories=None):
     categories = np.unique(x) if categories is None else categories
     n_rows = x.shape[0]
     row_inds, col_inds, n_cols = _dummy_encode(x, categories)
-    data = np.ones(n_rows)
+    data = np.ones(len(row_inds))
     X = sps.csc_matrix((data, (row_inds, col_inds)), shape=(n_rows, n_cols))
     return X
 
-- 
2.43.0


From a813f44738c9f04b5997f672364eac525521dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 105/225] fix: truncated normal draws without bounds are not
 scaled twice

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 6678afa..c9ede9e 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -128,7 +128,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = np.random.normal(0.0, 1.0)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
-- 
2.43.0


From d8ce21bec0cd4c95664218b96e48222589ff734b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 106/225] fix: truncated normal draws are not rounded over
 their bounds

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index c9ede9e..0f95f86 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -179,7 +179,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
 @numba.jit(nopython=True)
 def trnorm(mu, sd, lb, ub):
     n = len(mu)
-    z = np.zeros((n, ), dtype=numba.float32)
+    z = np.zeros((n, ), dtype=numba.float64)
     for i in range(n):
         z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
     return z
-- 
2.43.0


From ab18eb383f79e8dd17d0ab398368843d6c1aa8dd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 107/225] fix: multivariate t draws are centred at their mean

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 0f95f86..2c83edc 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -197,7 +197,7 @@ def cauchy(loc, scale, size=None, rng=None):
 def multivariate_t(mean, cov, nu=1, size=None, rng=None):
     rng = np.random.default_rng() if rng is None else rng
     u = np.sqrt(nu / rng.chisquare(df=nu, size=size))[:, np.newaxis]
-    Y = rng.multivariate_normal(mean=mean, cov=cov, size=size)
+    Y = rng.multivariate_normal(mean=np.zeros(len(mean)), cov=cov, size=size)
     X = mean + u * Y
     return X
 
-- 
2.43.0


From cc4891996424581d09ee970dffd543a26b5005f1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 108/225] fix: antedependence correlations of four or more
 variables are symmetric

---
 pystatsm/utilities/cov_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 00bb423..1be2150 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -180,7 +180,8 @@ def get_antedependence1_corr(rho, n_var=None):
         r.append(np.cumprod(rho[i:]))
     r = np.concatenate(r)
     R = np.eye(n_var)
-    R[np.triu_indices(n_var, 1)[::-1]] = R[np.tril_indices(n_var, -1)[::-1]] = r
+    i, j = np.triu_indices(n_var, 1)
+    R[i, j] = R[j, i] = r
     return R
 
 def get_factor_cov(A, Psi, Phi=None, n_var=None):
-- 
2.43.0


From 570055b5bec887c3e961a2a4adbd2de0c216fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 109/225] fix: exchangeable correlation of a single variable

---
 pystatsm/utilities/cov_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 1be2150..658d783 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -131,7 +131,7 @@ def get_exchangeable_corr(n_var=1, c=0.0):
         Exchangeable/Compound Symmetry correlation matrix.
 
     """
-    lb = -1.0 / (n_var - 1)
+    lb = -1.0 / (n_var - 1) if n_var > 1 else -1.0
     if c < lb or c>1:
         raise ValueError("c must be between -1/(n_var-1) and 1")
     R = np.eye(n_var)
-- 
2.43.0


From 277fc41c5642a386e8be884416936e444f951788 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 110/225] fix: gaussian spatial correlation decays with the
 squared distance

---
 pystatsm/utilities/cov_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 658d783..09f6ed0 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -263,9 +263,9 @@ def get_spatialgaussian_corr(s, distances, n_var=None):
     R : array
     """
     if distances.ndim==2:
-        R = np.exp(-distances / s**2)
+        R = np.exp(-distances**2 / s**2)
     else:
-        R = sp.spatial.distance.squareform(np.exp(-distances/s**2))
+        R = sp.spatial.distance.squareform(np.exp(-distances**2/s**2))
         R[np.diag_indices_from(R)] += 1.0
     return R
 
-- 
2.43.0


From eb0f229f2086117b9352c0c1a226e8635e64163b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 111/225] fix: numerical derivatives at integer points

---
 pystatsm/utilities/numerical_derivs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index bb414ca..a131ac3 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -194,7 +194,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
     def Func(X, args=()):
         return np.atleast_1d(F(X, *args))
-    X = np.asarray(X)
+    X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
     H = np.zeros_like(X)
@@ -243,7 +243,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
     def Func(X, args=()):
         return np.atleast_1d(F(X, *args))
     
-    X = np.asarray(X)
+    X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
     
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
@@ -267,7 +267,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
     def Func(X, args=()):
         return np.atleast_1d(F(X, *args))
-    X = np.asarray(X)
+    X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
     H = np.zeros_like(X)
@@ -290,7 +290,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
     def Func(X, args=()):
         return np.atleast_1d(F(X, *args))
-    X = np.asarray(X)
+    X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
     tol = np.finfo(float).eps**(1/3) if tol is None else tol
     Hjj, Hkk = np.zeros_like(X), np.zeros_like(X)
-- 
2.43.0


From f0621b7869224e7359ee8bcebb7ef0d48673cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 112/225] fix: linear model simulations draw from the generator
 they are given

---
 pystatsm/pyglm2/model_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index d95c3a0..f84b844 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -28,7 +28,7 @@ class LinearModelSim(object):
     def __init__(self, n_obs=1000, n_var=10, formula=None, cat_terms=None,
                  x_vars=None, nlevels=None, corr_kws=None, coef_kws=None,
                  rng=None, seed=None):
-        self.rng = rng if rng is None else np.random.default_rng(seed)
+        self.rng = np.random.default_rng(seed) if rng is None else rng
         self.seed = seed
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
-- 
2.43.0


From eaed6bd1a393c56e65fe1f278284fa048d167b93 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 113/225] fix: categorical variables of simulated models have
 two levels by default

---
 pystatsm/pyglm/glm_sim.py    | 3 +--
 pystatsm/pyglm2/model_sim.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index b6259dc..26ff126 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -31,11 +31,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index f84b844..15111b7 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -33,11 +33,10 @@ class LinearModelSim(object):
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-        self.nlevels = {} if nlevels is None else nlevels
+        self.nlevels = {} if nlevels is None else dict(nlevels)
         for cat in self.cat_terms:
             if cat not in self.nlevels.keys():
                 self.nlevels[cat] = 2
-        self.nlevels = nlevels
         self.n_obs = n_obs
         self.n_var = n_var
         self.cat_inds = [self.x_vars.index(x) for x in self.cat_terms]
-- 
2.43.0


From efe8908ffb0762edbbe16c95231bf2ded02f8864 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 114/225] fix: random factor correlations of the factor
 simulation are a matrix

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6bee17f..604ff6c 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -49,7 +49,7 @@ class FactorModelSim(object):
         r_kws = {} if r_kws is None else r_kws
         r_kws = {**default_r_kws, **r_kws}
         if random:
-            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)
+            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)[0, 0]
         else:
             Phi = rho**sp.linalg.toeplitz(np.arange(self.n_facs))
             s = (-1)**np.arange(self.n_facs).reshape(-1, 1)
-- 
2.43.0


From ac9cac09cfeeb0b77beb3c4c09273c1264825d28 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 115/225] fix: the predictors of simulated linear models follow
 the given generator

---
 pystatsm/pyglm2/model_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 15111b7..019f4cd 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -29,7 +29,7 @@ class LinearModelSim(object):
                  x_vars=None, nlevels=None, corr_kws=None, coef_kws=None,
                  rng=None, seed=None):
         self.rng = np.random.default_rng(seed) if rng is None else rng
-        self.seed = seed
+        self.seed = int(self.rng.integers(2**31)) if seed is None else seed
         self.cat_terms = [] if cat_terms is None else cat_terms
         self.x_vars = [f"x{i}" for i in range(n_var)] if x_vars is None else x_vars
         self.formula = "+".join(self.x_vars) if formula is None else formula
-- 
2.43.0


From d4310592c12cafed5ead70a532e33f99ba63008c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 116/225] fix: exact samples of the factor simulation follow
 its generator

---
 pystatsm/pyfa/simulate_factor_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 604ff6c..df327d0 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -81,7 +81,8 @@ class FactorModelSim(object):
         
     def simulate_data(self, n_obs=1000, exact=True):
         if exact:
-            Z = exact_rmvnorm(n=n_obs, S=self.C)
+            Z = exact_rmvnorm(n=n_obs, S=self.C,
+                              seed=int(self.rng.integers(2**31)))
         else:
             Z = self.rng.multivariate_normal(mean=np.zeros(self.n_vars+self.n_facs),
                                              cov=self.C, size=n_obs)
-- 
2.43.0


From 8e2059902e824da618e97417f45590efbb6b67fd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 117/225] fix: rescaling a mixed model simulation leaves the
 given dictionary alone

---
 pystatsm/pylmm/sim_lmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylmm/sim_lmm.py b/pystatsm/pylmm/sim_lmm.py
index f00899a..4aca59e 100644
--- a/pystatsm/pylmm/sim_lmm.py
+++ b/pystatsm/pylmm/sim_lmm.py
@@ -112,6 +112,7 @@ class MixedModelSim:
         
         df, re_groupings, cont_vars = parse_vars(formula, model_dict)
         
+        model_dict = {**model_dict, "gcov":dict(model_dict["gcov"])}
         ginfo = model_dict['ginfo']
         for x in re_groupings:
             if x not in group_dict.keys():
-- 
2.43.0


From 2b5d4f8d71bd9e9b7b4baeaeda7459d2b50a7dda Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 118/225] fix: polychoric simulations with given quantiles of
 the second variable

---
 pystatsm/pylvcorr/sim_lvcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/sim_lvcorr.py b/pystatsm/pylvcorr/sim_lvcorr.py
index 9d032f4..f5ced9b 100644
--- a/pystatsm/pylvcorr/sim_lvcorr.py
+++ b/pystatsm/pylvcorr/sim_lvcorr.py
@@ -17,7 +17,7 @@ class LVCorrSim(object):
         rng = np.random.default_rng(123) if rng is None else rng
         if type(x_bins) is int:
             x_bins = np.linspace(0, 1, x_bins+1, endpoint=False)[1:]
-        if y_bins==False:
+        if y_bins is False:
             kind = "polyserial"
         else:
             kind = "polychoric"
-- 
2.43.0


From 9dac2c298d0e078e08ecf6d66d78d262e9af9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 119/225] fix: linear model simulations accept formulas with a
 response

---
 pystatsm/pyglm/glm_sim.py    | 1 +
 pystatsm/pyglm2/model_sim.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/glm_sim.py b/pystatsm/pyglm/glm_sim.py
index 26ff126..acaff28 100644
--- a/pystatsm/pyglm/glm_sim.py
+++ b/pystatsm/pyglm/glm_sim.py
@@ -153,6 +153,7 @@ class LinearModelSim(object):
     
     @classmethod
     def from_formula(cls, formula, n_obs=10_000, nlevels=None, **kws):
+        formula = formula.split("~")[-1]
         x_vars, cat_terms = cls.parse_formula(formula)
         n_var = len(x_vars)
         return cls(n_obs, n_var, formula, cat_terms, x_vars, nlevels, **kws)
diff --git a/pystatsm/pyglm2/model_sim.py b/pystatsm/pyglm2/model_sim.py
index 019f4cd..0920191 100644
--- a/pystatsm/pyglm2/model_sim.py
+++ b/pystatsm/pyglm2/model_sim.py
@@ -164,6 +164,7 @@ class LinearModelSim(object):
     
     @classmethod
     def from_formula(cls, formula, n_obs=10_000, nlevels=None, **kws):
+        formula = formula.split("~")[-1]
         x_vars, cat_terms = cls.parse_formula(formula)
         n_var = len(x_vars)
         return cls(n_obs, n_var, formula, cat_terms, x_vars, nlevels, **kws)
-- 
2.43.0


From bee4505a127885e5de3e3ed6e02075882b619782 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 120/225] fix: numerical Jacobians and Hessians pass extra
 arguments on

---
 pystatsm/utilities/numerical_derivs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/utilities/numerical_derivs.py b/pystatsm/utilities/numerical_derivs.py
index a131ac3..4fff05d 100644
--- a/pystatsm/utilities/numerical_derivs.py
+++ b/pystatsm/utilities/numerical_derivs.py
@@ -192,7 +192,7 @@ def grad_approx(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
 
 
 def jac_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False, mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
@@ -240,7 +240,7 @@ def jac_approx2(f, x, eps=1e-4, tol=None, d=1e-4, nr=6, v=2):
     return A
 
 def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     
     X = np.asarray(X, dtype=float)
@@ -265,7 +265,7 @@ def jac_approx3(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
@@ -288,7 +288,7 @@ def jac_approx4(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False):
 
 
 def hess_approx(F, X, eps=1e-4, tol=None, d=1e-4, args=(), progress_bar=False,  mask=None):
-    def Func(X, args=()):
+    def Func(X, *args):
         return np.atleast_1d(F(X, *args))
     X = np.asarray(X, dtype=float)
     Y = np.asarray(Func(X, *args))
-- 
2.43.0


From 1a2c6a6e40c131148ddbb391c73e9b6113868c15 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 121/225] fix: bivariate normal functions of integer or mixed
 scalar and array arguments

---
 pystatsm/pylvcorr/statfuncs.py   | 12 ++++++++----
 pystatsm/utilities/func_utils.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pylvcorr/statfuncs.py b/pystatsm/pylvcorr/statfuncs.py
index 112a30c..bdf0cf9 100644
--- a/pystatsm/pylvcorr/statfuncs.py
+++ b/pystatsm/pylvcorr/statfuncs.py
@@ -270,27 +270,31 @@ def _binorm_pdf_arr(h, k, r):
         res[ii] = binorm_pdf_jit(h[ii], k[ii], r)
     return res
         
+def _float_pair(h, k):
+    h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
+    return np.array(h, dtype=float), np.array(k, dtype=float)
+
 def binorm_cdf(h, k, r):
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and type(k) in [float, int]:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = _float_pair(h, k)
     pr = _binorm_cdf_arr(h, k, r)
     if ret_float:
         pr = pr[0]
     return pr
 
 def binorm_pdf(h, k, r):
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and type(k) in [float, int]:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = _float_pair(h, k)
     p = _binorm_pdf_arr(h, k, r)
     if ret_float:
         p = p[0]
diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 90f9165..a9e9b17 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -777,6 +777,10 @@ def _binorm_pdf_arr(h, k, r):
         res[ii] = binorm_pdf_jit(h[ii], k[ii], r)
     return res
         
+def _float_pair(h, k):
+    h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
+    return np.array(h, dtype=float), np.array(k, dtype=float)
+
 def binorm_cdf(h, k, r):
     """
     Compute the cumulative distribution function (CDF) of the bivariate normal
@@ -801,13 +805,13 @@ def binorm_cdf(h, k, r):
         The value(s) of the bivariate normal CDF at the specified `h` and `k`
         values, and the given correlation coefficient `r`.
     """
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and type(k) in [float, int]:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = _float_pair(h, k)
     pr = _binorm_cdf_arr(h, k, r)
     if ret_float:
         pr = pr[0]
@@ -841,13 +845,13 @@ def binorm_pdf(h, k, r):
     This function uses the `_binorm_pdf_arr()` function to compute the 
     bivariate normal probability density function.
     """
-    if type(h) in [float, int]:
+    if type(h) in [float, int] and type(k) in [float, int]:
         ret_float = True
     else:
         ret_float = False
     if np.ndim(r)>0:
         r = r[0]
-    h, k = np.atleast_1d(h), np.atleast_1d(k)
+    h, k = _float_pair(h, k)
     p = _binorm_pdf_arr(h, k, r)
     if ret_float:
         p = p[0]
-- 
2.43.0


From 0fffb9711fc402f327f3fe8b0be5099063b753de Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 122/225] fix: polychoric correlations of variables whose codes
 have gaps

---
 pystatsm/pylvcorr/polychoric.py  | 4 ++--
 pystatsm/pylvcorr/polychoric2.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index c5ff611..24ca318 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -23,8 +23,8 @@ class Polychor(object):
     
     def __init__(self, data):
         self.data = data
-        self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.stack([np.unique(x, return_inverse=True)[1]
+                           for x in data.values.T], axis=1)
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b4c09e6..2f256f9 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -60,8 +60,8 @@ class Polychor(object):
     def __init__(self, data):
         self.data = data
         self.cols = self.data.columns.tolist()
-        self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.stack([np.unique(x, return_inverse=True)[1]
+                           for x in data.values.T], axis=1)
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
-- 
2.43.0


From 5bceee088d5192d0b232e6af53be0c9d63c530db Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 123/225] fix: polychoric thresholds leave missing values out

---
 pystatsm/pylvcorr/lvcorr.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3896a13..ae9fe7a 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -423,7 +423,7 @@ class Polychoric(object):
     def __init__(self, data):
         X = data.values
         n, p = X.shape
-        N_cats = np.array([len(np.unique(X[:, i])) for i in range(p)]).astype(int)
+        N_cats = np.array([len(np.unique(X[~np.isnan(X[:, i]), i])) for i in range(p)]).astype(int)
         Thresholds = {}
         for i in range(p):
             Thresholds[i] = self._get_threshold(X[:, i], outer=True)
@@ -440,7 +440,9 @@ class Polychoric(object):
                                                             Thresholds[i],
                                                             Thresholds[j]
                                                             )
-            rho_inits[ii] = corr(X[:,i], X[:, j])
+            Xij = X[:, [i, j]]
+            Xij = Xij[~np.isnan(Xij).any(axis=1)]
+            rho_inits[ii] = corr(Xij[:, 0], Xij[:, 1])
             
             
         
@@ -456,7 +458,7 @@ class Polychoric(object):
         self.XThresholds, self.Xtab = XThresholds, Xtab
         
     def _get_threshold(self, x, outer=True):
-        vals, counts = np.unique(x, return_counts=True)
+        vals, counts = np.unique(x[~np.isnan(x)], return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         if outer:
             t = np.r_[-1e6, t_inner, 1e6]
@@ -602,7 +604,7 @@ class PolychoricCorr(object):
         self.xthresh = xthresh
         self.xcounts = xcounts
         self.rho_inits =rho_inits
-        self.cats = {i:np.unique(X[:, i]) for i in range(self.p)}
+        self.cats = {i:np.unique(X[~np.isnan(X[:, i]), i]) for i in range(self.p)}
         self.ncats = {i:len(self.cats[i]) for i in range(self.p)}
         self.taus = {i:self._get_threshold(X[:, i]) for i in range(self.p)}
         self.opts = {i:{} for i in range(self.p)}
@@ -610,7 +612,7 @@ class PolychoricCorr(object):
         self.R_se = np.zeros((self.p, self.p))
     
     def _get_threshold(self, x):
-        vals, counts = np.unique(x, return_counts=True)
+        vals, counts = np.unique(x[~np.isnan(x)], return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         t = np.r_[-1e6, t_inner, 1e6]
         return t
-- 
2.43.0


From 807e3bd193e87a3ad860af9b71fb0b31f784ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 124/225] fix: polyserial correlation does not depend on the
 unit of the continuous variable

---
 pystatsm/pylvcorr/lvcorr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index ae9fe7a..3f5bd5e 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -302,7 +302,8 @@ class Polyserial:
         self.order, self.marginal_counts = order, marginal_counts
         self.tau_arr, self.y_ordered = tau_arr, y_ordered
         self.tau1, self.tau2 = tau1, tau2
-        self.x, self.y = x, y
+        # the latent variables are standard normal
+        self.x, self.y = (x - np.mean(x)) / np.std(x), y
         
        
         
-- 
2.43.0


From 7864c6c01ab3c5fad8061a9ab218960433c5232b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 125/225] fix: polychoric Hessians with improbable cells

---
 pystatsm/pylvcorr/lvcorr.py      | 6 +++---
 pystatsm/pylvcorr/polychoric.py  | 4 ++--
 pystatsm/pylvcorr/polychoric2.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3f5bd5e..b94aa48 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -210,7 +210,7 @@ class _Polychor(object):
         gfn = self.gfunc(r)
         
         u = self.vecx / prb
-        v = self.vecx / np.maximum(prb**2, 1e-16)
+        v = self.vecx / prb**2
         
         H = u * gfn - v * phi**2
         return -np.sum(H)
@@ -539,7 +539,7 @@ class Polychoric(object):
         Xcount = self.Xtab[self.II_ind[i, j]]
         
         u = Xcount / pr
-        v = Xcount / np.maximum(pr**2, 1e-16)
+        v = Xcount / pr**2
         H = u * d2p - v * dp**2
         H = -np.sum(H)
         return H
@@ -706,7 +706,7 @@ class PolychoricCorr(object):
         gfn = self.gfunc(r, i, j)
         
         u = self.xcounts[i][j] / prb
-        v = self.xcounts[i][j] / np.maximum(prb**2, 1e-16)
+        v = self.xcounts[i][j] / prb**2
         H = u * gfn - v * phi**2
         H = -np.sum(H)
         return H
diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index 24ca318..bf5eb5b 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -252,7 +252,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ij,ij,ij->", dp, v, dp) - np.einsum("ij,ij->", u, dp2)
         return H
     
@@ -261,7 +261,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ijl,ij,ijk->lk",dp, v, dp) - np.einsum("ij,ijkl->kl", u, dp2)
         return H
     
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index 2f256f9..8bd2be7 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -49,7 +49,7 @@ class _PairWorkspace:
 
     def hessian(self):
         u = self.counts / self.prob
-        v = self.counts / np.maximum(self.prob ** 2, 1e-16)
+        v = self.counts / self.prob ** 2
         return np.sum(self.dp_dr ** 2 * v) - np.sum(u * self.d2p_dr2)
 
 
@@ -280,7 +280,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ij,ij,ij->", dp, v, dp) - np.einsum("ij,ij->", u, dp2)
         return H
 
@@ -289,7 +289,7 @@ class Polychor(object):
         prob = np.maximum(prob, 1e-16)
         counts = self.counts[self.II_ind[i1, i2]]
         u = counts / prob
-        v = counts / np.maximum(prob**2, 1e-16)
+        v = counts / prob**2
         H = np.einsum("ijl,ij,ijk->lk",dp, v, dp) - np.einsum("ij,ijkl->kl", u, dp2)
         return H
 
-- 
2.43.0


From 5c43239e4b837acf250aea044f38baa778ec7ded Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 126/225] fix: reordering of polychoric covariances of five or
 more variables

---
 pystatsm/pylvcorr/polychoric.py  | 22 ++++------------------
 pystatsm/pylvcorr/polychoric2.py | 22 ++++------------------
 2 files changed, 8 insertions(+), 36 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index bf5eb5b..933e5b6 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -436,26 +436,12 @@ def convert_acm(acm, p):
     p2 = p1 * (p1 - 1) // 2
 
     ix1 = generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=False, strict=True)
-    ix2 = generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=False, strict=False)
-    ix1, ix2 = np.array(ix1), np.array(ix2)
-    
     iy1 = generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=True, strict=True)
-    iy2 = generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=True, strict=False)
-    iy1, iy2 = np.array(iy1), np.array(iy2)
-
-    ij = ix1[ix2[:, 0]]
-    kl = ix1[ix2[:, 1]]
-    a, b = np.sort(ij, axis=1).T
-    c, d = np.sort(kl, axis=1).T
+    ix1, iy1 = np.array(ix1), np.array(iy1)
 
     ab_to_ii = np.zeros((p1, p1), dtype=int)
-    ab_to_ii[(iy1[:, 0], iy1[:, 1])] = ab_to_ii[(iy1[:, 1], iy1[:,0])] = np.arange(p2)
-
-    ab, cd = np.sort(np.vstack([ab_to_ii[(a, b)], ab_to_ii[(c, d)]]), axis=0)
-    (a, b), (c, d)  = iy1[ab].T, iy1[cd].T
-    abcd = np.argsort(np.lexsort(np.vstack((a, b, c, d))))
-    acm_flat =  acm[np.tril_indices(len(acm))]
-    acm2 = np.zeros_like(acm)
-    acm2[ix2[:, 0], ix2[:, 1]] = acm2[ix2[:, 1], ix2[:, 0]] = acm_flat[abcd]
+    ab_to_ii[ix1[:, 0], ix1[:, 1]] = ab_to_ii[ix1[:, 1], ix1[:, 0]] = np.arange(p2)
+    ii = ab_to_ii[iy1[:, 0], iy1[:, 1]]
+    acm2 = acm[np.ix_(ii, ii)]
     return acm2
 
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index 8bd2be7..9e83f53 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -544,27 +544,13 @@ def convert_acm(acm, p):
     p2 = p1 * (p1 - 1) // 2
 
     ix1 = indexing_utils.generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=False, strict=True)
-    ix2 = indexing_utils.generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=False, strict=False)
-    ix1, ix2 = np.array(ix1), np.array(ix2)
-
     iy1 = indexing_utils.generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=True, strict=True)
-    iy2 = indexing_utils.generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=True, strict=False)
-    iy1, iy2 = np.array(iy1), np.array(iy2)
-
-    ij = ix1[ix2[:, 0]]
-    kl = ix1[ix2[:, 1]]
-    a, b = np.sort(ij, axis=1).T
-    c, d = np.sort(kl, axis=1).T
+    ix1, iy1 = np.array(ix1), np.array(iy1)
 
     ab_to_ii = np.zeros((p1, p1), dtype=int)
-    ab_to_ii[(iy1[:, 0], iy1[:, 1])] = ab_to_ii[(iy1[:, 1], iy1[:,0])] = np.arange(p2)
-
-    ab, cd = np.sort(np.vstack([ab_to_ii[(a, b)], ab_to_ii[(c, d)]]), axis=0)
-    (a, b), (c, d)  = iy1[ab].T, iy1[cd].T
-    abcd = np.argsort(np.lexsort(np.vstack((a, b, c, d))))
-    acm_flat =  acm[np.tril_indices(len(acm))]
-    acm2 = np.zeros_like(acm)
-    acm2[ix2[:, 0], ix2[:, 1]] = acm2[ix2[:, 1], ix2[:, 0]] = acm_flat[abcd]
+    ab_to_ii[ix1[:, 0], ix1[:, 1]] = ab_to_ii[ix1[:, 1], ix1[:, 0]] = np.arange(p2)
+    ii = ab_to_ii[iy1[:, 0], iy1[:, 1]]
+    acm2 = acm[np.ix_(ii, ii)]
     return acm2
 
 
-- 
2.43.0


From d426792ee90763c2ec2f1ccfb3799a3f885b38fb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 127/225] fix: zero-inflated Poisson log likelihood counts y!

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 2da5216..70631d2 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -50,7 +50,7 @@ class ZIP:
         self.X0, self.X1 = self.X[self.ix0], self.X[self.ix1]
         self.y0, self.y1 = self.y[self.ix0], self.y[self.ix1]
         self.Z0, self.Z1 = self.Z[self.ix0], self.Z[self.ix1]
-        self._llc = sp.special.gammaln(self.y1)
+        self._llc = sp.special.gammaln(self.y1 + 1.0)
     
     def _check_params(self, params, X):
         b, a = params[:X.shape[1]], params[X.shape[1]:]
-- 
2.43.0


From c1284d19c7beea26eadafc36feaa2282e61b85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 128/225] fix: zero-inflated Poisson p values and small sample
 AIC

---
 pystatsm/pyglm/zimodels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 70631d2..f5cfc38 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -175,7 +175,7 @@ class ZIP:
         self.params = self.opt.x
         self.se_params = np.diag(np.linalg.inv(self.hessian(self.params)))**0.5
         t = self.params / self.se_params
-        p = sp.stats.t(self.n_params).sf(np.abs(t))*2.0
+        p = sp.stats.t(self.n_obs - self.n_params).sf(np.abs(t))*2.0
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
@@ -183,7 +183,7 @@ class ZIP:
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-        self.aicc = self.aic + (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
+        self.aicc = self.aic + 2.0 * (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
         self.yhat, self.yhvar = self.predict(self.params)
         self.resids = self.y - self.yhat
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
-- 
2.43.0


From cc5992ce3eb7c5ad20e6e04a0eb1e01cc45d6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 129/225] fix: zero-inflated Poisson labels of data frames

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index f5cfc38..7602a36 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -179,7 +179,7 @@ class ZIP:
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
-        res.index = self.xcols+self.zcols
+        res.index = list(self.xcols) + list(self.zcols)
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-- 
2.43.0


From 484a6ac8615a2cbb948e7df9ff35b4c45383c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 130/225] fix: zero-inflated Poisson derivatives with large
 means

---
 pystatsm/pyglm/zimodels.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 7602a36..0446c1a 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -87,14 +87,13 @@ class ZIP:
         return -ll
     
     def _gradientb(self, mu0, u0, mu1, X0, X1):
-        w = mu0 / (np.exp(mu0) * u0 + 1.0)
+        w = mu0 * np.exp(-mu0) / (u0 + np.exp(-mu0))
         g = - X0.T.dot(w)
         g = g + X1.T.dot(self.y1 - mu1)
         return g
     
     def _gradienta(self, mu0, u0, u, Z0, Z):
-        v = u0 * np.exp(mu0)
-        w = v / (v + 1.0)
+        w = u0 / (u0 + np.exp(-mu0))
         g = Z0.T.dot(w)
         g = g - Z.T.dot(u / (u + 1.0))
         return g
@@ -111,16 +110,16 @@ class ZIP:
         return -g
     
     def _hessbb(self, mu0, u0, mu1, X0, X1):
-        w = mu0 * ((mu0 - 1.0) * u0 * np.exp(mu0) - 1.0)
-        w = w / (u0 * np.exp(mu0) + 1.0)**2
+        v0 = np.exp(-mu0)
+        w = mu0 * v0 * ((mu0 - 1.0) * u0 - v0) / (u0 + v0)**2
         w = w.reshape(-1, 1)
         H = (X0 * w).T.dot(X0)
         H = H - (X1 * mu1.reshape(-1, 1)).T.dot(X1)
         return H
     
     def _hessaa(self, mu0, u0, u, Z0, Z):
-        v = u0 * np.exp(mu0)
-        w = v /(v + 1)**2
+        v0 = np.exp(-mu0)
+        w = u0 * v0 / (u0 + v0)**2
         w = w.reshape(-1, 1)
         H = (Z0 * w).T.dot(Z0)
         w = u / (u + 1.0)**2
@@ -129,8 +128,8 @@ class ZIP:
         return H
     
     def _hessba(self, mu0, u0, X0, Z0):
-        v = u0 * np.exp(mu0)
-        w = ((v * mu0) / (v + 1.0)**2).reshape(-1, 1)
+        v0 = np.exp(-mu0)
+        w = ((u0 * v0 * mu0) / (u0 + v0)**2).reshape(-1, 1)
         H = (X0 * w).T.dot(Z0)
         return H
     
-- 
2.43.0


From 0266e0d9816ce2b7c95ac6c40c286e4691befdcf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 131/225] fix: ZeroInflatedPoisson log likelihood counts y!

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..00058d9 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -58,7 +58,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ll[ix] = -w[ix] * np.log(mu2[ix] + (1 - mu2[ix]) * np.exp(-mu1[ix]))
         ix = ~ix
         ll[ix] = -w[ix] * (np.log(1 - mu2[ix]) + y[ix] * np.log(mu1[ix]) \
-                          - mu1[ix] - sp.special.gammaln(y[ix]))
+                          - mu1[ix] - sp.special.gammaln(y[ix] + 1.0))
         return ll
     
     def loglike_i(self, params, data=None, link=None, zero_link=None):
@@ -79,7 +79,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ix = ~ix
         ll = ll + np.sum(-w[ix] * (np.log(1 - omega[ix]) \
                          + y[ix] * np.log(lambd[ix]) - lambd[ix]\
-                         - sp.special.gammaln(y[ix])))
+                         - sp.special.gammaln(y[ix] + 1.0)))
 
         return ll
     
-- 
2.43.0


From f4e6ca6c1f4f18359cd76262d6f8d4adc4e18168 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 132/225] fix: ZeroInflatedPoisson gradients with weights

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 00058d9..d76c652 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From f4df414fc7ed4314c8e640b1e1f4fd05f49382fc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 133/225] fix: ZeroInflatedNBinom can be constructed

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d76c652..9ffc41c 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From a2cb861080c6d096d0e5203d2171f1c80bc3ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 134/225] fix: information criteria of beta regression

---
 pystatsm/pyglm/betareg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index e2f043c..792813f 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -167,10 +167,10 @@ class BetaReg:
         k = len(self.theta)
         N = self.n_obs
         sumstats = {}
-        sumstats['aic'] = -2.0*self.llf + k
-        sumstats['aicc'] = -2*self.llf + (2 * k * N) / (N - k - 1)
-        sumstats['bic'] = -2*self.llf + np.log(N)*k
-        sumstats['caic'] = -2*self.llf + k*(np.log(N) + 1.0)
+        sumstats['aic'] = 2.0*self.llf + 2.0*k
+        sumstats['aicc'] = 2*self.llf + (2 * k * N) / (N - k - 1)
+        sumstats['bic'] = 2*self.llf + np.log(N)*k
+        sumstats['caic'] = 2*self.llf + k*(np.log(N) + 1.0)
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-- 
2.43.0


From 04353c3923196ab6ef8db519ff7520beb11fcbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 135/225] fix: p values of the negative binomial regression

---
 pystatsm/pyglm/nb2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index f843d93..04d4082 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -124,7 +124,7 @@ class NegativeBinomial(object):
                                            self.params/self.se_params)).T,
                                 columns=['param', 'SE', 't'])
         self.res.index = self.xcols.tolist() + ['variance']
-        nu = self.X.shape[0]-2
+        nu = self.n_obs - len(self.params)
         self.res['p'] = sp.stats.t(nu).sf(np.abs(self.res['t'])) * 2.0
         self.LLR = 2.0*(self.ll_full - self.ll_null)
         self.BIC = (np.log(self.n_obs) * len(self.params) - 2 * self.ll_full)
-- 
2.43.0


From ee78037b0eafe9249b474bb8514c2c1bbe36fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 136/225] fix: negative binomial fits leave the given options
 alone

---
 pystatsm/pyglm/nb2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index 04d4082..4e5085d 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -102,6 +102,7 @@ class NegativeBinomial(object):
         return dev
     
     def fit(self, opt_kws={}):
+        opt_kws = dict(opt_kws)
         default_opt_kws = dict(options=dict(verbose=0), 
                                         method='trust-constr')
                                         
@@ -169,6 +170,7 @@ class NegativeBinomial(object):
         return mu_hat
     
     def bootstrap(self, n_boot=2000, opt_kws={}):
+        opt_kws = dict(opt_kws)
         default_opt_kws = dict(gtol=1e-4, xtol=1e-4, verbose=0)
         for key, val in default_opt_kws.items():
             if key not in opt_kws.keys():
-- 
2.43.0


From 22579d9a82f0894debb3c39fbc34cb6b18161b1d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 137/225] fix: bootstrap leaves the response of the negative
 binomial model

---
 pystatsm/pyglm/nb2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index 4e5085d..2649ec9 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -196,7 +196,7 @@ class NegativeBinomial(object):
             pbar.update(1)
         pbar.close()
         self.beta_samples = beta_samples
-        self.X, self.Y = X, Y
+        self.X, self.Y, self.y = X, Y, _check_shape(Y, 1)
         samples_df = pd.DataFrame(self.beta_samples, columns=self.res.index)
         boot_res = samples_df.agg(["mean", "std", "min"]).T
         boot_res["pct1.0%"] = sp.stats.scoreatpercentile(beta_samples, 1.0, axis=0)
-- 
2.43.0


From 6540e31c56912b5105dba267700a2847f094fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 138/225] fix: ZeroInflatedNBinom likelihood and gradients
 treat weights alike

---
 pystatsm/pyglm2/zinf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 9ffc41c..12aa887 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -568,7 +568,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         ix = y==0
         ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
         ix = ~ix
-        ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
+        ll[ix] = f._full_loglike(y[ix], mu=mu1[ix], phi=1.0, dispersion=k / w[ix]) - np.log(1.0 - mu2[ix])  
         return ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
@@ -588,7 +588,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
       ix = y==0
       ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
       ix = ~ix
-      ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
+      ll[ix] = f._full_loglike(y[ix], mu=mu1[ix], phi=1.0, dispersion=k / w[ix]) - np.log(1.0 - mu2[ix]) 
       return np.sum(ll)
     
     def loglike(self, params, data=None, link=None, f=None):
@@ -633,12 +633,12 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         i = y != 0
         
         x0 = mu1[i]
-        x1 = k
+        x1 = k / w[i]
         x2 = x0 * x1
         x3 = x2 + 1.0
-        x4 = w[i] / x3
+        x4 = 1.0 / x3
         x5 = mu2[i]
-        x6 = 1 / k
+        x6 = 1 / x1
         x7 = x1 * y[i]
         x8 = x7 + 1.0
         #x9 = np.log(x3) +  sp.special.polygamma(0, x6) - sp.special.polygamma(0, x6 * x8)
-- 
2.43.0


From 09f09baade48912c7a98b49979de57ce3bcc1554 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 139/225] fix: prediction intervals of ZeroInflatedNBinom

---
 pystatsm/pyglm2/zinf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 12aa887..0bac3e9 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -1089,11 +1089,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
                               ]).T
         if predicted_ci:
              predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-             v = f.variance(mu=mu1, phi=1.0, dispersion=k)
              res["predicted_lower_ci"] = f.ppf(
-                 1-predicted_ci_level, mu=mu1, dispersion=v)
+                 1-predicted_ci_level, mu=mu1, dispersion=k)
              res["predicted_upper_ci"] = f.ppf(
-                 predicted_ci_level, mu=mu1, dispersion=v)
+                 predicted_ci_level, mu=mu1, dispersion=k)
         return res  
 
     def predict(self, X=None, Z=None, params=None, params_cov=None, **kws):
-- 
2.43.0


From 6f6d0ce7a2928d5d3880f6dfe6e6c636baa7a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 140/225] fix: zero-inflated Poisson predictions of new rows

---
 pystatsm/pyglm/zimodels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 0446c1a..6bf0745 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -149,7 +149,8 @@ class ZIP:
         return -H
     
     def predict(self, params, X=None, Z=None):
-        X, Z, _, _, _, _ = self._check_mats(X, Z)
+        X = self.X if X is None else X
+        Z = self.Z if Z is None else Z
         b, a = self._check_params(params, X)
         u = np.exp(Z.dot(a))
         mu = np.exp(X.dot(b))
-- 
2.43.0


From e0b8de5ae2e13d3a8cefeeed536a4a07732a3076 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:06:31 +0000
Subject: [PATCH 141/225] fix: beta regression of a data frame or series
 response

---
 pystatsm/pyglm/betareg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index 792813f..d1cc5c7 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -50,8 +50,9 @@ class BetaReg:
                 ycols = ['y']
                 yinds = np.arange(y.shape[0])
             else:
-                 ycols, yinds = y.columns, y.index
-                 y = y.values
+                 ycols = y.columns if y.ndim == 2 else [y.name]
+                 yinds = y.index
+                 y = y.values.reshape(-1)
         
         self.X, self.Z, self.y = X, Z, y
         self.xcols, self.zcols, self.ycols = xcols, zcols, ycols
-- 
2.43.0


From 035f42948897383d39168ae2610deb0f84b3e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 142/225] fix: zero-inflated models of plain arrays

---
 pystatsm/pyglm2/zinf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0bac3e9..d2ffc38 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -41,8 +41,8 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         self.q = self.model_data.data[1].shape[1]
         self.X, self.Z, self.y, self.weights = self.model_data
         self.params_init = np.zeros(self.p+self.q)
-        poiss_labels = [("Poiss",x) for x in self.model_data.columns[0].to_list()]
-        binom_labels = [("Binom",x) for x in self.model_data.columns[1].to_list()]
+        poiss_labels = [("Poiss",x) for x in list(self.model_data.columns[0])]
+        binom_labels = [("Binom",x) for x in list(self.model_data.columns[1])]
         labels = poiss_labels + binom_labels
         labels = pd.MultiIndex.from_tuples(labels, names=["ModelComponent", "Parameter"])
         self.param_labels = labels#[f"beta{i}" for i in range(1, self.p+1)]+[f"gamma{i}" for i in range(1, self.q+1)]
@@ -490,8 +490,8 @@ class ZeroInflatedModel(RegressionMixin, LikelihoodModel):
            self.n_params += 1
        
         self.params_init = np.zeros(self.n_params)
-        labels = [(self.f.name,x) for x in self.model_data.columns[0].to_list()]
-        labels.extend([("Binom",x) for x in self.model_data.columns[1].to_list()])
+        labels = [(self.f.name,x) for x in list(self.model_data.columns[0])]
+        labels.extend([("Binom",x) for x in list(self.model_data.columns[1])])
         if self.has_scale:
             labels.append((self.f.name, "Scale"))
         labels = pd.MultiIndex.from_tuples(labels, names=["ModelComponent", "Parameter"])
-- 
2.43.0


From 342e9bad804f9eef9bbe38453e754bc2be3baac5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 143/225] fix: zero-inflated models with weights in a series

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d2ffc38..7381daf 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -359,7 +359,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         self.beta_se = self.coefs_se = self.params_se
         self.beta = self.coefs = self.params
         intercept = np.ones((self.n_obs, 1))
-        self.null_data = ModelData(intercept, intercept, self.y, self.weights)
+        self.null_data = ModelData(intercept, intercept, self.y, weights=self.weights)
         self.null_params, self.null_opt = self._fit(params=np.zeros(2), 
                                           data=self.null_data, 
                                           )
@@ -1010,7 +1010,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         self.beta_se = self.coefs_se = self.params_se[:-1]
         self.beta = self.coefs = self.params[:-1]
         intercept = np.ones((self.n_obs, 1))
-        self.null_data = ModelData(intercept, intercept, self.y, self.weights)
+        self.null_data = ModelData(intercept, intercept, self.y, weights=self.weights)
         self.null_params, self.null_opt = self._fit(params=np.zeros(3), 
                                           data=self.null_data, 
                                           )
-- 
2.43.0


From 92ac8ee80b99b2f355e5bbaa397b94feb77fea10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 144/225] fix: beta regression of plain arrays

---
 pystatsm/pyglm/betareg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index d1cc5c7..72c023d 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -149,7 +149,7 @@ class BetaReg:
         se = np.sqrt(np.diag(np.linalg.inv(H)))
         theta = opt.x
         res = pd.DataFrame(np.vstack((theta, se, theta/se)).T, columns=['param', 'SE', 't'])
-        res.index = self.xcols.tolist() + self.zcols.tolist()
+        res.index = list(self.xcols) + list(self.zcols)
         res['p'] = sp.stats.t(df=self.n_obs-self.n_xvar-self.n_zvar).sf(np.abs(res['t']))*2.0
         self.res = res
         self.theta = theta
-- 
2.43.0


From e45b13ffc2cc8e73004073cda984b21d77dce4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 145/225] fix: formula-based structural models build under
 current NumPy

---
 pystatsm/pysem/model_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/model_mats.py b/pystatsm/pysem/model_mats.py
index d48e7b2..23421e9 100644
--- a/pystatsm/pysem/model_mats.py
+++ b/pystatsm/pysem/model_mats.py
@@ -75,7 +75,7 @@ class FlattenedIndicatorIndices(object):
             _size = triangular_number(shape[-1])
         else:
             v = _vec(array)
-            _size = np.product(shape[-2:])
+            _size = np.prod(shape[-2:])
         self._shape = shape
         self._size = _size
         self._symmetric = symmetric
-- 
2.43.0


From 925b982a8403be3d693e6edad1ec0e4dc13286af Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 146/225] fix: structural models with several groups or tied
 parameters (pysem)

---
 pystatsm/pysem/param_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index c0f766c..db894a3 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -527,7 +527,7 @@ class BaseModel:
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(
             unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(inverse_mapping).T
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
@@ -535,7 +535,7 @@ class BaseModel:
         self.dfree_dgroup = {}
         self.free_to_group_free = {}
         for i in range(self.n_groups):
-            ix = self.free_df.loc[self.free_df["group"] == i, "theta_index"]
+            ix = np.where(self.free_df["group"] == i)[0]
             cols = ix
             nrows = len(ix)
             ncols = self.free_df.shape[0]
-- 
2.43.0


From 58f9f730e946b7ac203396297ffe6e496f5dcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 147/225] fix: an indicator with its own regression is ordered
 once (pysem)

---
 pystatsm/pysem/param_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index db894a3..bd80a16 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -152,6 +152,7 @@ class BaseModel:
         g.extend(sorted(
             subset & var_names["nob"] - (var_names["nob"] & var_names["ind"]),
             key=_default_sort_key))
+        g = list(dict.fromkeys(g))
         u = set(g)
         g.extend(sorted(subset - u, key=_default_sort_key))
         return g
-- 
2.43.0


From bf92f5a98e1e455dc9c20d6ef43201d3d7120d8a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 148/225] fix: parameters tied to a fixed first loading share
 its value (pysem)

---
 pystatsm/pysem/param_table.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index bd80a16..b634ab3 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -296,8 +296,13 @@ class BaseModel:
             ix = ltable["lhs"] == v
             if len(ltable.index[ix]) > 0:
                 if ~np.any(ltable.loc[ix, "fixed"]):
-                    param_df.loc[ltable.index[ix][0], "fixed"] = True
-                    param_df.loc[ltable.index[ix][0], "fixedval"] = 1.0
+                    first = ltable.index[ix][0]
+                    fix = param_df.index == first
+                    label = param_df.loc[first, "label"]
+                    if not pd.isnull(label):
+                        fix = fix | (param_df["label"] == label)
+                    param_df.loc[fix, "fixed"] = True
+                    param_df.loc[fix, "fixedval"] = 1.0
         self.param_df = param_df
 
     @property
-- 
2.43.0


From a26a2419eff99bd339041f56ad1c5eab98f82fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 149/225] fix: moments of exogenous variables stated in a
 formula stay free (pysem)

---
 pystatsm/pysem/param_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index b634ab3..315b8a3 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -386,7 +386,7 @@ class BaseModel:
         is_cov = param_df["rel"] == "~~"
         is_reg = param_df["rel"] == "~"
         for i in range(sample_stats.n_groups):
-            ix_group = param_df["group"] == i
+            ix_group = (param_df["group"] == i) & param_df["fixed"]
             covi = sample_stats.sample_cov_df[i]
             meani = sample_stats.sample_mean_df[i]
             for var in self.var_names["lox"]:
-- 
2.43.0


From e389513ea99062ded92de61891bb12ff335cc0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 150/225] fix: second derivatives of means with respect to two
 regressions (pysem)

---
 pystatsm/pysem/derivatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/derivatives.py b/pystatsm/pysem/derivatives.py
index 00ee46b..291a094 100644
--- a/pystatsm/pysem/derivatives.py
+++ b/pystatsm/pysem/derivatives.py
@@ -86,7 +86,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(C2.dot(Jj) + C3.dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From d17e69bab234bee2f24d2e9991de0ad3d32edd92 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 151/225] fix: estimates of a structural model carry the names
 of their own parameters

---
 pystatsm/pysem/sem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 17692b6..6237c27 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -118,10 +118,10 @@ class SEM:
                 
         ovn, svn = Lambda.index, Lambda.columns
         
-        ix1, ix2 = np.where(LAf)
+        ix2, ix1 = np.where(LAf.T)
         lambda_labels = [f"{x}<-{y}" for x,y in list(zip(ovn[ix1], svn[ix2]))]
         
-        ix1, ix2 = np.where(BEf)
+        ix2, ix1 = np.where(BEf.T)
         beta_labels = [f"{x}~{y}" for x,y in list(zip(svn[ix1], svn[ix2]))]
         
         ix1, ix2 = [], []
-- 
2.43.0


From 36df0e1d482b797f928163431eae712180c419fc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 152/225] fix: the chi-square test of a structural model uses
 its degrees of freedom

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 6237c27..126eed3 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -477,7 +477,7 @@ class SEM:
         LLF = self.n_obs * LL + self.n_obs * self.p * np.log(2.0 * np.pi)
         fval =  LL - self.ldS - self.p
         Chi2 = (self.n_obs - 1) * fval
-        Chi2_pval = sp.stats.chi2(t).sf(Chi2)
+        Chi2_pval = sp.stats.chi2(df).sf(Chi2)
         GFI = 1.0 - np.trace((SV - self.Ip).dot(SV-self.Ip)) / np.trace(SV.dot(SV))
         if df!=0:
             AGFI = 1.0 - (self.df_cov / df) *  (1.0 - GFI)
-- 
2.43.0


From 8ca07150bba4bd62465b4b276b5e7e175e79e541 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 153/225] fix: critical sample sizes of a structural model
 carry their own level

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 126eed3..4de36fc 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -487,7 +487,7 @@ class SEM:
             AGFI = np.nan
             Standardized_Chi2 = np.nan
             RMSEA = np.nan
-        CN01, CN05 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
+        CN05, CN01 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
 
         AIC = LLF + 2.0  * t
         BIC = LLF + np.log(self.n_obs) * t
-- 
2.43.0


From 6f764ff136d4dc478e148b9003adceb1d5426bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 154/225] fix: the first indicator of a latent variable is the
 one held fixed

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 4de36fc..c3e982b 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -85,7 +85,7 @@ class SEM:
         if indicator_vars is None:
             for i, var in enumerate(Lambda.columns):
                 if (Phi.loc[var, var]!=0.0) or ((LAf.loc[:, var]!=0).sum()==1):
-                    vi = np.argmax(LAf.loc[:, var])
+                    vi = np.argmax(LAf.loc[:, var] != 0)
                     LAf.iloc[vi, i] = 0.0
         else:
             LAf = LAf - indicator_vars
-- 
2.43.0


From 01487a24374cdeb66bfdda1c3a25f088bd72b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 155/225] fix: model matrices of a structural model are matched
 by name

---
 pystatsm/pysem/sem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index c3e982b..226a9aa 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -69,6 +69,11 @@ class SEM:
         if S is None:
             S = data.cov(ddof=0)
         Lambda = Lambda.loc[S.index] #Align loadings and variable order
+        Psi = Psi.loc[S.index, S.index]
+        Beta = Beta.loc[Lambda.columns, Lambda.columns]
+        Phi = Phi.loc[Lambda.columns, Lambda.columns]
+        if indicator_vars is not None:
+            indicator_vars = indicator_vars.loc[Lambda.index, Lambda.columns]
         
         n_mvars, n_lvars = Lambda.shape 
         
-- 
2.43.0


From fe47d5d8fbbcc66b968aeb273a9c88d30dbd7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 156/225] fix: structural models can be specified by a
 covariance matrix alone

---
 pystatsm/pysem/sem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 226a9aa..40d0bff 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -20,7 +20,7 @@ from ..utilities.special_mats import dmat, lmat, nmat, kmat
 class SEM:
     
     def __init__(self, Lambda, Beta, Phi, Psi, data=None, S=None, 
-                 indicator_vars=None):
+                 indicator_vars=None, n_obs=None):
         """
         Structural Equation Model
         
@@ -55,6 +55,9 @@ class SEM:
             identification requires a fixed indicator variable, which is
             by default taken as the first specified variable
         
+        n_obs : int, optional if data is passed
+            Number of observations that S was computed from
+        
         Notes
         -----
         In order to specify the model, for each free parameter, set the 
@@ -181,7 +184,7 @@ class SEM:
                                      vech(np.eye(self.PS.shape[0]))])
         self.bounds = self.bounds[self.theta_indices]
         self.bounds = [(None, None) if x==0 else (0, None) for x in self.bounds]
-        self.n_obs = data.shape[0]
+        self.n_obs = data.shape[0] if data is not None else n_obs
         self.data = data
         self.p = self.S.shape[0]
         self.df_cov = self.p * (self.p+1) // 2
-- 
2.43.0


From cc450d584a39427d32da458c0bed3db1f1641f08 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 157/225] fix: degrees of freedom of factor models account for
 the identification constraints

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index a472700..f16a7c5 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -107,7 +107,7 @@ class FactorAnalysis(object):
         ixr = np.arange(nl + ns, nl + ns + nr)
         self.ixa, self.ixl, self.ixs, self.ixr = ixa, ixl, ixs, ixr
         self.nl, self.ns, self.nr, self.nc, self.nt = nl, ns, nr, nc, nt
-        self.n_params = len(ixa) - nc
+        self.n_params = len(ixa) - 2 * nc
 
     def model_matrices_to_params(self, L, Phi, Psi):
         """
-- 
2.43.0


From 20d30b446861684a0def8b48bb8d691f06b0243d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 158/225] fix: RMSEA of factor models uses the model's degrees
 of freedom and is never nan

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index f16a7c5..acb4927 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -589,7 +589,7 @@ class FactorAnalysis(object):
         rni = ((chi2_null - df_null) - (chi2_full - df_full)) / (chi2_null - df_null)
         cfi = (np.maximum(chi2_null - df_null, 0) - np.maximum(chi2_full - df_full, 0))\
              /np.maximum(chi2_null - df_null, 0)
-        rmsea = np.sqrt(np.max(chi2_full - df_full, 0) / (df_null * (self.n_obs - 1)))
+        rmsea = np.sqrt(np.maximum(chi2_full - df_full, 0) / (df_full * (self.n_obs - 1)))
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
-- 
2.43.0


From 4a2ccf80ebf9d6dc784cf4327e10e1b462f086ec Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 159/225] fix: signs of sorted factors follow their factors

---
 pystatsm/pyfa/efa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index acb4927..0957317 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -373,6 +373,7 @@ class FactorAnalysis(object):
         order = np.argsort(np.sum(L**2, axis=0))
         sign = np.sign(np.sum(L, axis=0))
         perm_mat = np.diag(sign)[:, order]
+        sign = sign[order]
         L = L[:, order] * sign
         T = T[:, order] * sign
         Phi = Phi[order, order[None].T]
-- 
2.43.0


From 21ac6b332462b89a0af7eecd96f37627c44e75ac Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 160/225] fix: first Hessian of a factor model equals the later
 ones

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 52d7068..6d5ca42 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -30,7 +30,7 @@ class FactorAnalysis(object):
         self._get_n_factors(n_factors, **n_factor_kws)
         self._make_params()
         self.p, self.m = self.n_vars, self.n_facs
-        self.E = np.eye(self.n_vars)
+        self.E = np.zeros((self.n_vars, self.n_vars))
         self.Ik = np.eye(self.n_facs)
         self.Nk = nmat(self.n_facs).toarray()
         self.Lk = lmat(self.n_facs).toarray()
-- 
2.43.0


From 3075ccb38dd5eab8145f360867f6c11117bdd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 161/225] fix: sign of the Hessian of the concentrated factor
 likelihood

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 6d5ca42..3651f55 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -443,7 +443,7 @@ class FactorAnalysis(object):
             b1 = (2 * u[i] - 1) * A
             b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
             B+= (b1 + b2) * A
-        H = -Psi_inv.dot(B).dot(Psi_inv)
+        H = Psi_inv.dot(B).dot(Psi_inv)
         return H
 
     def loadings_from_psi(self, psi):
-- 
2.43.0


From 051c96cbdff8d632ad9548995e1335b40c761971 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 162/225] fix: standard errors of unrotated factor models use
 constraint derivatives of the residual variances

---
 pystatsm/pyfa/factor_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 3651f55..4a40495 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -653,6 +653,7 @@ class FactorAnalysis(object):
             H[:nl, H.shape[1]-nc:] = dCdL[lix].T
         else:
             dCdL = self.constraint_derivs(self.theta)
+            dCdL[:, self.pix] = dCdL[:, self.pix] / np.diag(self.Psi)
             nl, nt, nc = self.nl, self.nl + self.nr, self.nc
             H = np.zeros((nt+nc, nt+nc))
             ixp = np.r_[np.arange(self.nl),
-- 
2.43.0


From d5a5609653f93b43f79c2c3e810b712be9ce2b20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 163/225] fix: fit indices of factor analysis do not count
 rotations as parameters

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 4a40495..433ffcd 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -570,7 +570,7 @@ class FactorAnalysis(object):
 
         """
         t = (self.n_vars + 1.0) * self.n_vars / 2.0
-        k = len(self.theta)
+        k = len(self.theta) - self.n_facs * (self.n_facs - 1) // 2
         degfree = t  - k
         GFI = gfi(Sigma, self.S)
         AGFI = agfi(Sigma, self.S, degfree)
-- 
2.43.0


From 2cd9845e68a02614aa30286601089d2aa3a1eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 164/225] fix: log-likelihood of obliquely rotated factor
 models

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 433ffcd..403b98b 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -578,7 +578,7 @@ class FactorAnalysis(object):
         stdchi2 = (chi2 - degfree) /  np.sqrt(2 * degfree)
         RMSEA = np.sqrt(np.maximum(chi2 -degfree, 0)/(degfree*(self.n_obs-1)))
         SRMR = srmr(Sigma, self.S, degfree)
-        llval = -(self.n_obs-1)*self.loglike(self.theta)/2
+        llval = -(self.n_obs-1)*self.loglike_augmented(self.params)/2
         BIC = k * np.log(self.n_obs) -2 * llval
         AIC = 2 * k - 2*llval
         sumstats = dict(GFI=GFI, AGFI=AGFI, chi2=chi2, chi2_pvalue=chi2p,
-- 
2.43.0


From 56a322edca4956e5772fbe08af251685fea588cf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 165/225] fix: factor scores of unstandardised variables

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 403b98b..44deb4f 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -769,7 +769,7 @@ class FactorAnalysis(object):
 
         """
         X = self.X - np.mean(self.X, axis=0)
-        R = corr(X)
+        R = cov(X)
         L, Phi = self.L, self.Phi
         A = L.dot(Phi)
         if method == "thurstone":
-- 
2.43.0


From 45ed67109d030517a6d8043679428fc1ba74caef Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 166/225] fix: likelihood ratio test of factor models uses the
 degrees of freedom given

---
 pystatsm/pyfa/fit_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 8bb11d7..582af9a 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -38,7 +38,7 @@ def lr_test(Sigma, S, df, n):
     Sigma_inv = np.linalg.pinv(Sigma)
     chi2 = (lndSigma + np.trace(Sigma_inv.dot(S)) - lndS - p) * n
     chi2 = np.maximum(chi2, 1e-12)
-    pval = sp.stats.chi2.sf(chi2, (p + 1)*p/2)
+    pval = sp.stats.chi2.sf(chi2, df)
     return chi2, pval
 
 def gfi(Sigma, S):
-- 
2.43.0


From fc96b653a90e1e2940fe7803f02a3faa883b28cc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 167/225] fix: gradient of the weighted target rotation

---
 pystatsm/pyfa/rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index a804083..40c6c3b 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -341,12 +341,12 @@ class TargetRotation(RotationMethod):
         return f
 
     def dQ(self, L):
-        dQ = self.W * (L - self.H)
+        dQ = self.W**2 * (L - self.H)
         return dQ
 
     def vgQ(self, L):
-        Gq = self.W * (L - self.H)
-        fq = np.sum(Gq**2) / 2
+        Gq = self.W**2 * (L - self.H)
+        fq = np.sum((self.W * (L - self.H))**2) / 2
         return fq, Gq
 
 
-- 
2.43.0


From f196b74010f445ef430855b2559f37d0a6c2658c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 168/225] fix: equamax of the orthomax family weighs by the
 number of factors

---
 pystatsm/pyfa/rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 40c6c3b..bc2e5c9 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -490,7 +490,7 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
         G = -np.linalg.multi_dot([L.T, Gq, Tinv]).T
     return T.T, G, Gq, opt_hist
 
-def get_gamma_ob(criterion, p, custom_gamma):
+def get_gamma_ob(criterion, p, custom_gamma, k=None):
     if (criterion == 'quartimin') or (criterion == 'quartimax'):
         gamma = 0.0
     elif (criterion == 'biquartimin') or (criterion == 'biquartimax'):
@@ -498,7 +498,7 @@ def get_gamma_ob(criterion, p, custom_gamma):
     elif (criterion == 'varimax') or (criterion == 'covarimin'):
         gamma = 1.0
     elif (criterion == 'equamax'):
-        gamma = p / 2.0
+        gamma = (p if k is None else k) / 2.0
     elif (criterion == 'oblique'):
         gamma = custom_gamma if custom_gamma is not None else -0.1
     else:
@@ -649,7 +649,7 @@ def rotate(A, criterion, method='oblimin', rotation_type='oblique', T=None,
     '''
     p, k = A.shape
     if method == 'oblimin':
-        gamma, vgq = get_gamma_ob(criterion, p, custom_gamma), vgq_ob
+        gamma, vgq = get_gamma_ob(criterion, p, custom_gamma, k), vgq_ob
     elif method == 'cf':
         gamma, vgq = get_gamma_cf(criterion, p, k), vgq_cf
 
-- 
2.43.0


From eeea0260e17462c518cf491dd81693e52d5aaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 169/225] fix: likelihood of a mixed model whose sparse factor
 moves the response row

---
 pystatsm/pylmm/lmm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 80eb4c1..070069b 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -158,14 +158,19 @@ class LMM(object):
         Ginv = self.update_gmat(theta, inverse=True)
         M = self.update_mme(Ginv, theta)
         if (M.nnz / np.prod(M.shape) < sparsity_threshold) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # the factor is reordered, so the response is not its last row
+            M = M.tocsc()
+            fac = cholesky(M[:-1, :-1])
+            my = M[:-1, [-1]].toarray().reshape(-1)
+            ytPy = M[-1, -1] - my.dot(fac.solve_A(my))
+            logdetC = fac.slogdet()[1]
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = self.lndet_gmat(theta)
         logdetR = np.log(theta[-1]) * self.Z.shape[0]
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Q = Ginv + self.ZtZ / theta[-1]
-- 
2.43.0


From fdb178a0d6a6b90f64225dfd08c141c14a073768 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 170/225] fix: Hessian of the unrestricted mixed-model
 likelihood

---
 pystatsm/pylmm/lmm.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 070069b..3dec4af 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -469,36 +469,45 @@ class LMM(object):
         PPy = W.dot(Py) - WX.dot(U.dot(Py))
         ZtPPy =  Z.T.dot(PPy)
         H = self.H * 0.0
-        PJ, yPZJ, ZPJ = [], [], []
+        MJ, yPZJ, ZMJ = [], [], []
+        # the log-determinant part is that of V for ML and that of P for REML
+        P = W - WX.dot(U)
+        if reml:
+            ZtM, ZtMZ, Mr = ZtP, ZtPZ, P
+        else:
+            ZtM, ZtMZ, Mr = WZ.T, Z.T.dot(WZ), W
+        if sp.sparse.issparse(ZtM):
+            ZtM = ZtM.toarray()
+        ZtMZ = ZtMZ.toarray() if sp.sparse.issparse(ZtMZ) else ZtMZ
+        Mr = Mr.toarray() if sp.sparse.issparse(Mr) else np.asarray(Mr)
         ix = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-            ZtPZi = ZtPZ[ind]
+            ZtMZi = ZtMZ[ind]
             ZtPyi = ZtPy[ind]
-            ZtPi = ZtP[ind]
+            ZtMi = ZtM[ind]
             for dGdi in self.random_effects.terms[i].G_deriv:
-                PJ.append(dGdi.dot(ZtPZi))
+                MJ.append(dGdi.dot(ZtMZi))
                 yPZJ.append(dGdi.dot(ZtPyi))
-                ZPJ.append((dGdi.dot(ZtPi)).T)
+                ZMJ.append((dGdi.dot(ZtMi)).T)
                 ix.append(ind)
 
         t_indices = list(zip(*np.triu_indices(len(self.theta)-1)))
         for i, j in t_indices:
             ZtPZij = ZtPZ[ix[i]][:, ix[j]]
-            PJi, PJj = PJ[i][:, ix[j]], PJ[j][:, ix[i]]
+            MJi, MJj = MJ[i][:, ix[j]], MJ[j][:, ix[i]]
             yPZJi, JjZPy = yPZJ[i], yPZJ[j]
-            Hij = -np.einsum('ij,ji->', PJi, PJj)\
+            Hij = -np.einsum('ij,ji->', MJi, MJj)\
                     + (2 * (yPZJi.T.dot(ZtPZij)).dot(JjZPy))[0]
             H[i, j] = H[j, i] = Hij
         dR = self.dR
-        dRZtP = (dR.dot(ZtP.T))
+        dRZtM = (dR.dot(ZtM.T))
         for i in range(len(self.theta)-1):
             yPZJi = yPZJ[i]
-            ZPJi = ZPJ[i]
+            ZMJi = ZMJ[i]
             ZtPPyi = ZtPPy[ix[i]]
-            H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZPJi.T, dRZtP[:, ix[i]])
-        P = W - WX.dot(U)
-        H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", P, P)
+            H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZMJi.T, dRZtM[:, ix[i]])
+        H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", Mr, Mr)
         return H
 
 
-- 
2.43.0


From 6b600415168be2c5318c53194021613cc4a1bccc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 171/225] fix: standard errors of an ML mixed-model fit use the
 ML likelihood

---
 pystatsm/pylmm/lmm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 3dec4af..a3b2b13 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -594,11 +594,13 @@ class LMM(object):
             re_corrs[i] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
+
+        self.reml = reml
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
@@ -675,7 +677,8 @@ class LMM(object):
         theta = self.theta if theta is None else theta
         beta = self.beta if beta is None else beta
         C = np.linalg.inv(self.vinvcrossprod(self.X, self.X, theta))
-        Vtheta = np.linalg.inv(so_gc_cd(self.gradient, theta))
+        reml = getattr(self, "reml", True)
+        Vtheta = np.linalg.inv(so_gc_cd(self.gradient, theta, args=(reml,)))
         J = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-- 
2.43.0


From c42c6684241a716f1e7016ac5bbb5263fa6a7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 172/225] fix: Satterthwaite degrees of freedom of LMM2 were
 halved

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index ef36865..3caf019 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1325,7 +1325,7 @@ class LMM2(object):
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
             nu_d = np.array([D[i].dot(Vtheta).dot(D[i]) for i in range(q)])
-            nu_m = u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
+            nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
             nu = float(2.0 * E / (E - q)) if E > q else np.nan
-- 
2.43.0


From 5bf7f84efec269bb9c3b06772c18d9a4730ceb18 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 173/225] fix: mixed-model p-values are two-sided

---
 pystatsm/pylmm/lmm.py    | 2 +-
 pystatsm/pylmm/re_mod.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index a3b2b13..4ce95fe 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -661,7 +661,7 @@ class LMM(object):
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t'])) * 2.0
         res['degfree'] = (self.X.shape[0] - self.X.shape[1])*1.0
         if adjusted_pvals:
             L = np.eye(self.X.shape[1])
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 3caf019..af8068e 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1153,7 +1153,7 @@ class LMM2(object):
         res = pd.DataFrame(np.vstack([self.params, self.se_params]).T,
                            index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t']))
+        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t'])) * 2.0
         res['degfree'] = float(n_obs - n_fe)
         self.res = res
         self.sumstats = pd.DataFrame(
-- 
2.43.0


From b093e8cd027379a66b52b944aaa03621ddd0d57e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 174/225] fix: adjusted t statistics of a mixed model keep
 their sign

---
 pystatsm/pylmm/lmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 4ce95fe..04c4e0f 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -667,7 +667,7 @@ class LMM(object):
             L = np.eye(self.X.shape[1])
             L_list = [L[[i]] for i in range(self.X.shape[1])]
             adj_table = pd.DataFrame(self.approx_degfree(L_list), index=self.fe_vars)
-            res.loc[self.fe_vars, 't'] = adj_table['F']**0.5
+            res.loc[self.fe_vars, 't'] = np.sign(res.loc[self.fe_vars, 'estimate']) * adj_table['F']**0.5
             res.loc[self.fe_vars, 'degfree'] = adj_table['df2']
             res.loc[self.fe_vars, 'p'] = adj_table['p']
         self.res = res
-- 
2.43.0


From 56c59f12fb0bc843a8e508bdd44511b89f542682 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 175/225] fix: one-dimensional contrasts keep degrees of
 freedom of two or less

---
 pystatsm/pylmm/lmm.py    | 2 +-
 pystatsm/pylmm/re_mod.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 04c4e0f..d83a591 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -707,7 +707,7 @@ class LMM(object):
             nu_d = np.array([D[i].T.dot(Vtheta).dot(D[i]) for  i in range(q)])
             nu_m = u**2 / nu_d
             E = np.sum(nu_m[nu_m>2] / (nu_m[nu_m>2] - 2.0))
-            nu = 2.0 * E / (E - q)
+            nu = nu_m[0] if q == 1 else 2.0 * E / (E - q)
             res.append(dict(F=f, df1=q, df2=nu, p=sp.stats.f(q, nu).sf(f)))
         return res
 
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index af8068e..ed4d84c 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1328,7 +1328,10 @@ class LMM2(object):
             nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
-            nu = float(2.0 * E / (E - q)) if E > q else np.nan
+            if q == 1:
+                nu = float(nu_m[0])
+            else:
+                nu = float(2.0 * E / (E - q)) if E > q else np.nan
             p = float(sp.stats.f(q, nu).sf(f)) if np.isfinite(nu) else np.nan
             out.append({'F': f, 'df1': q, 'df2': nu, 'p': p})
         return out
-- 
2.43.0


From 226e177491601c19aeb692bf8470c6e07c7fd479 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 176/225] fix: additive-model p-values are two-sided with
 residual degrees of freedom

---
 pystatsm/pygam/gam.py                     | 2 +-
 pystatsm/pygam/gauls.py                   | 2 +-
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index 5ed0fb1..4f67318 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -675,7 +675,7 @@ class GAM:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = sp.stats.t(self.y.shape[0] - self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 1a6418b..4260149 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1087,7 +1087,7 @@ class GauLS:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = sp.stats.t(self.y.shape[0] - self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 5a430d0..89a9247 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -284,7 +284,7 @@ class GaussianAdditiveModel:
         
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = sp.stats.t(self.y.shape[0] - self.edf).sf(np.abs(t)) * 2.0
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
-- 
2.43.0


From a0793624616ba15c96440fe896f90ff2832c0160 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 177/225] fix: inverse Gaussian density of the mixed-model
 families

---
 pystatsm/pylmm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 67c23c9..3b27b20 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -190,7 +190,7 @@ class InverseGaussian(ExponentialFamily):
         w = self.weights / scale
         
         ll = w * np.power((y - mu), 2) / (y * mu**2)
-        ll+= np.log((scale * y**2) / self.weights)
+        ll+= np.log((scale * y**3) / self.weights)
         return ll
     
     def _full_loglike(self, y, eta=None, mu=None, T=None, scale=1.0):
-- 
2.43.0


From 5e13a1688b805840ebdb1f41b1e1bbb8bc8a1084 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 178/225] fix: prediction intervals of generalised linear
 models

---
 pystatsm/pyglm/families.py     | 12 ++++++------
 pystatsm/pyglm/linear_model.py |  5 ++---
 pystatsm/pyglm2/families.py    | 12 ++++++------
 pystatsm/pyglm2/glm.py         |  5 ++---
 4 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 2d580f2..2d0575e 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -325,7 +325,7 @@ class Gaussian(ExponentialFamily):
         rng = np.random.default_rng(seed) if rng is None else rng
         return rng.normal(loc=mu, scale=np.sqrt(phi))
 
-    def ppf(self, q, mu, phi):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.norm(loc=mu, scale=np.sqrt(phi)).ppf(q)
 
 
@@ -427,7 +427,7 @@ class InverseGaussian(ExponentialFamily):
         rng = np.random.default_rng(seed) if rng is None else rng
         return rng.wald(mean=mu, scale=1.0 / phi)
 
-    def ppf(self, q, mu, phi=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.invgauss(mu=mu * phi, scale=1.0 / phi).ppf(q)
 
 
@@ -538,7 +538,7 @@ class Gamma(ExponentialFamily):
         rng = np.random.default_rng(seed) if rng is None else rng
         return rng.gamma(shape=1/phi, scale=mu*phi)
 
-    def ppf(self, q, mu, phi=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         a = 1 / phi
         b = 1 / (mu * phi)
         return sp.stats.gamma(a=a, scale=1/b).ppf(q)
@@ -671,7 +671,7 @@ class NegativeBinomial(ExponentialFamily):
         y = rng.negative_binomial(n=n, p=p)
         return y
     
-    def ppf(self, q, mu, dispersion=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         var = mu + dispersion * mu**2
         n = - mu**2 / (mu - var)
         p = mu / var
@@ -757,7 +757,7 @@ class Poisson(ExponentialFamily):
         y = rng.poisson(lam=mu)
         return y
 
-    def ppf(self, q, mu, scale=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.poisson(mu=mu).ppf(q)
 
 
@@ -848,5 +848,5 @@ class Binomial(ExponentialFamily):
         y = rng.binomial(n=self.weights, p=mu) / self.weights
         return y
 
-    def ppf(self, q, mu, scale=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.binom(n=self.weights, p=mu).ppf(q) / self.weights
diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 3c0ef5a..0223833 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1850,11 +1850,10 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, phi=phi, dispersion=dispersion)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, phi=phi, dispersion=dispersion)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8b556aa..7ddd225 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -318,7 +318,7 @@ class Gaussian(ExponentialFamily):
         rng = np.random.default_rng(seed) if rng is None else rng
         return rng.normal(loc=mu, scale=np.sqrt(phi))
 
-    def ppf(self, q, mu, phi):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.norm(loc=mu, scale=np.sqrt(phi)).ppf(q)
 
 
@@ -409,7 +409,7 @@ class InverseGaussian(ExponentialFamily):
         rng = np.random.default_rng(seed) if rng is None else rng
         return rng.wald(mean=mu, scale=1.0 / phi)
 
-    def ppf(self, q, mu, phi=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.invgauss(mu=mu * phi, scale=1.0 / phi).ppf(q)
 
 
@@ -509,7 +509,7 @@ class Gamma(ExponentialFamily):
         rng = np.random.default_rng(seed) if rng is None else rng
         return rng.gamma(shape=1/phi, scale=mu*phi)
 
-    def ppf(self, q, mu, phi=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         a = 1 / phi
         b = 1 / (mu * phi)
         return sp.stats.gamma(a=a, scale=1/b).ppf(q)
@@ -623,7 +623,7 @@ class NegativeBinomial(ExponentialFamily):
         y = rng.negative_binomial(n=n, p=p)
         return y
     
-    def ppf(self, q, mu, dispersion=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         var = mu + dispersion * mu**2
         n = - mu**2 / (mu - var)
         p = mu / var
@@ -702,7 +702,7 @@ class Poisson(ExponentialFamily):
         y = rng.poisson(lam=mu)
         return y
 
-    def ppf(self, q, mu, scale=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.poisson(mu=mu).ppf(q)
 
 
@@ -783,5 +783,5 @@ class Binomial(ExponentialFamily):
         y = rng.binomial(n=self.weights, p=mu) / self.weights
         return y
 
-    def ppf(self, q, mu, scale=1.0):
+    def ppf(self, q, mu, phi=1.0, dispersion=1.0):
         return sp.stats.binom(n=self.weights, p=mu).ppf(q) / self.weights
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 00e730a..9d08a05 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -465,11 +465,10 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, phi=phi, dispersion=dispersion)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, phi=phi, dispersion=dispersion)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-- 
2.43.0


From 7b51e2e3d19a68ff47e0887e8faeb16e53f0fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 179/225] fix: coefficients of a model with moment-estimated
 scale minimise the fixed-scale likelihood

---
 pystatsm/pyglm/linear_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 0223833..1183246 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1633,6 +1633,8 @@ class GLM(RegressionMixin, LikelihoodModel):
         t_init = self.params_init if t_init is None else t_init
         data = self.model_data if data is None else data #(self.X, self.y, None) if data is None else data
         s = self.scale_estimator if s is None else s
+        if s == "M":
+            s = "fixed"
         f = self.f if f is None else f
         opt_kws = {} if opt_kws is None else opt_kws
         default_kws = dict(method='trust-constr',
-- 
2.43.0


From 364836ea38a30855210a20e97f47c3473a557afa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 180/225] fix: silent bootstrap of the generalised linear model

---
 pystatsm/pyglm/linear_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 1183246..2f5e33d 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1897,7 +1897,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             ii = rng.choice(n, size=n, replace=True)
             opt = self._optimize(data=(X[ii], y[ii], w[ii]), f=self.f)
             boot_samples[i] = opt.x
-            pbar.update(1)
+            if verbose:
+                pbar.update(1)
         if verbose:
             pbar.close()
         boot_samples = pd.DataFrame(boot_samples,columns=self.param_labels)
-- 
2.43.0


From c5c0f0c00eb79ef128943dacf33c3b3a8cef067b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 181/225] fix: jackknife of the cumulative link model

---
 pystatsm/pyglm2/clm.py | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 7d3e17c..e6e894e 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -451,32 +451,22 @@ class CLM(RegressionMixin, LikelihoodModel):
         cumulative_prob = dict(mean=cprob, lower=cprob_lower, uppwer=cprob_upper)
         return linpred, prob, cumulative_prob
         
-    def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
-        if method == "optimize":
-            jacknife_samples = np.zeros((self.n_obs, self.n_params))
-            ii = np.ones(self.n_obs, dtype=bool)
-            pbar = tqdm.tqdm(total=self.n_obs) if verbose else None
-            for i in range(self.n_obs):
-                ii[i] = False
-                opt = self._optimize(data=(self.X[ii], self.y[ii], weights[ii]), f=self.f)
-                jacknife_samples[i] = opt.x
-                ii[i] = True
-                if verbose:
-                    pbar.update(1)
+    def _jacknife(self, verbose=True):
+        B1, B2, o1, o2, o1ix, w = self.model_data
+        params = OrderedTransform._fwd(self.params.copy(), self.q)
+        jacknife_samples = np.zeros((self.n_obs, self.n_params))
+        ii = np.ones(self.n_obs, dtype=bool)
+        pbar = tqdm.tqdm(total=self.n_obs) if verbose else None
+        for i in range(self.n_obs):
+            ii[i] = False
+            jacknife_samples[i], _ = self._fit(params=params.copy(), 
+                                               data=(B1[ii], B2[ii], o1[ii],
+                                                     o2[ii], o1ix[ii], w[ii]))
+            ii[i] = True
             if verbose:
-                pbar.close()
-        elif method == "one-step":    
-            w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
-                               dispersion=self.dispersion,
-                               weights=weights).reshape(-1, 1)
-            WX = self.X * w
-            h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
-            jacknife_samples = self.params.reshape(1, -1) - one_step
+                pbar.update(1)
+        if verbose:
+            pbar.close()
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
         return jacknife_samples
-- 
2.43.0


From 1955cf8206d2bd8169905ff9fe1a38d871cae8bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 182/225] fix: bootstrap of a weighted generalised linear model
 resamples the weights

---
 pystatsm/pyglm/glm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index c7e743c..6c042d1 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -325,9 +325,12 @@ class GLM:
             self.fit()
         t_init = self.params
         theta_samples = np.zeros((n_boot, len(t_init)))
+        weights = self.f.weights
         pbar = tqdm.tqdm(total=n_boot)
         for i in range(n_boot):
             ix = np.random.choice(self.X.shape[0], self.X.shape[0])
+            if np.ndim(weights) > 0:
+                self.f.weights = weights[ix]
             if method == 'sp':
                 theta_samples[i] = self._fit_optim(opt_kws=opt_kws,
                                                t_init=t_init, 
@@ -342,6 +345,7 @@ class GLM:
                                                    Y=self.Y[ix])
             pbar.update(1)
         pbar.close()
+        self.f.weights = weights
         k = self.n_obs-self.n_feats
         self.res.insert(2, "SE_boot", theta_samples.std(axis=0))
         self.res.insert(4, "t_boot", self.res['params']/self.res['SE_boot'])
-- 
2.43.0


From 38425ba97fe741d31a96b69b1d6854b40773064c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 183/225] fix: adjusted pseudo R-squared of likelihood models
 penalise parameters

---
 pystatsm/pyglm/clm.py               | 2 +-
 pystatsm/pyglm/glm.py               | 2 +-
 pystatsm/pyglm/linear_model.py      | 2 +-
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 583382b..31c2d19 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -163,7 +163,7 @@ class CLM:
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
         r2_coxsnell = 1 - np.exp(2.0/n*(LLf - LL0))
         r2_mcfadden = 1 - LLf / LL0
-        r2_mcfadden_adj = 1 - (LLf-p) / LL0
+        r2_mcfadden_adj = 1 - (LLf+p) / LL0
         r2_nagelkerke = r2_coxsnell / rmax
         
         statistic = dict(LLR=LLR, 
diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 6c042d1..9326717 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -292,7 +292,7 @@ class GLM:
         LLR = 2*(lln - llf)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] = 1 - self.LLA / self.LL0
-        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA - k) / self.LL0
+        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA + 2*k) / self.LL0
         sumstats['PseudoR2_MFA'] =  (LLR) / (LLR + N)
         
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 2f5e33d..0bdee5a 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -191,7 +191,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         llr = 2.0 * (ll_null - ll_model)
         return r2_cs, r2_nk, r2_mc, r2_mb, llr
 
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index d1605d5..a791b09 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((ll_model + n_params) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From 2414e06e260ea93885bd2b3f4cd4babc02d3e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 184/225] fix: pseudo R-squared of the beta regression

---
 pystatsm/pyglm/betareg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index 72c023d..1cb7166 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -175,11 +175,11 @@ class BetaReg:
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-        rmax = 1-np.exp(2.0 / N *self.lln)
+        rmax = 1-np.exp(-2.0 / N *self.lln)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
-        sumstats['PseudoR2_MCF'] = 1 - self.lln / self.llf
-        sumstats['PseudoR2_MCFA'] = 1 - (self.lln - k) / (self.llf)
-        sumstats['PseudoR2_MFA'] = 1 - (self.llr) / (self.llr + N)
+        sumstats['PseudoR2_MCF'] = 1 - self.llf / self.lln
+        sumstats['PseudoR2_MCFA'] = 1 - (self.llf + k) / self.lln
+        sumstats['PseudoR2_MFA'] = self.llr / (self.llr + N)
         self.sumstats = sumstats
     
     def predict(self, theta=None, X=None, Z=None):
-- 
2.43.0


From ef51ac3151d739e0e44bcfa21fd73affadaa9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 185/225] fix: pseudo R-squared of the zero-inflated Poisson
 model

---
 pystatsm/pyglm/zimodels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 6bf0745..6a51d96 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -189,11 +189,11 @@ class ZIP:
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
         sumstats = dict(AIC=self.aic, AICc=self.aicc, BIC=self.bic, LLR=self.ll_ratio,
                         LLRp=self.ll_rpval)
-        sumstats['PseudoR2_CS'] = 1 - np.exp(1.0/ self.n_obs * (self.ll_null - self.ll_model))
-        rmax = 1-np.exp(1.0 / self.n_obs *(self.ll_null))
+        sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/ self.n_obs * (self.ll_null - self.ll_model))
+        rmax = 1-np.exp(2.0 / self.n_obs *(self.ll_null))
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] =  1.0 - self.ll_model / self.ll_null
-        sumstats['PseudoR2_MCFA'] = 1.0 - (-self.ll_model - self.n_params) / -self.ll_null
+        sumstats['PseudoR2_MCFA'] = 1.0 - (self.ll_model - self.n_params) / self.ll_null
         sumstats['PseudoR2_MFA'] = (self.ll_ratio) / (self.ll_ratio + self.n_obs)
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
 
-- 
2.43.0


From 41710e927b90a293b6cfdb83b2051c74bf0f0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 186/225] fix: null log-likelihood of a weighted generalised
 linear model uses the weighted mean

---
 pystatsm/pyglm/glm.py          | 3 ++-
 pystatsm/pyglm/linear_model.py | 3 ++-
 pystatsm/pyglm2/glm.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 9326717..4fcc283 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -271,7 +271,8 @@ class GLM:
         self.phi = phi
         
         llf = self.f.full_loglike(y, mu=mu, phi=phi)
-        lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*y.mean(), 
+        w = np.ones(mu.shape[0]) * self.f.weights
+        lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*np.average(y, weights=w), 
                                   phi=phi)
         self.LLA = llf*2.0
         self.LL0 = lln*2.0
diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 0bdee5a..2cd0c96 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1771,7 +1771,8 @@ class GLM(RegressionMixin, LikelihoodModel):
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights*np.ones(mu.shape[0])),
+                phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 9d08a05..f0c33a1 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -377,7 +377,8 @@ class GLM(RegressionMixin, LikelihoodModel):
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.ones(mu.shape[0])*np.average(y, weights=weights*np.ones(mu.shape[0])),
+                phi=phi, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From 2245e0e253f891c1f5cb5c01f41870b52df95619 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 187/225] fix: skewness and excess kurtosis of the sinh-arcsinh
 distribution use its central moments

---
 pystatsm/misc/shash1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index fce3a8e..46ca059 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -33,16 +33,17 @@ def variance(m, s, v, t):
 
 def skewness(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2 - E_Z**2
     E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
     mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z - E_Z**3)
     return mu_3_Y / variance(m, s, v, t)**1.5
 
 def excess_kurtosis(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
-    Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_2 = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
+    E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
     E_Z_4 = (1 / 8) * (np.cosh(4 * v / t) * P(4 / t) - 4 * np.cosh(2 * v / t) * P(2 / t) + 3)
-    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z**3 + 6 * Var_Z * E_Z**2 + 3 * E_Z**4)
+    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z_3 * E_Z + 6 * E_Z_2 * E_Z**2 - 3 * E_Z**4)
     return mu_4_Y / variance(m, s, v, t)**2 - 3
 
 def pdf(y, m, s, v, t):
-- 
2.43.0


From 5bf333bf3f4b37d970c39e68eda7ab8936d4bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 188/225] fix: SkewNorm takes the three parameters its density
 has

---
 pystatsm/misc/skewnorm_dist.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 6d3f955..288f6e9 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -14,24 +14,24 @@ RT2 = np.sqrt(2.0)
 class SkewNorm:
     
     @staticmethod
-    def loglike(y, mu, sigma, nu, tau):
-        return _logpdf(y, mu, sigma, nu, tau)
+    def loglike(y, mu, sigma, nu):
+        return _logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d1loglike(y, mu, sigma, nu, tau):
-        return _d1logpdf(y, mu, sigma, nu, tau)
+    def d1loglike(y, mu, sigma, nu):
+        return _d1logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d2loglike(y, mu, sigma, nu, tau):
-        return _d2logpdf(y, mu, sigma, nu, tau)
+    def d2loglike(y, mu, sigma, nu):
+        return _d2logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d3loglike(y, mu, sigma, nu, tau):
-        return _d3logpdf(y, mu, sigma, nu, tau)
+    def d3loglike(y, mu, sigma, nu):
+        return _d3logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d4loglike(y, mu, sigma, nu, tau):
-        return _d4logpdf(y, mu, sigma, nu, tau)
+    def d4loglike(y, mu, sigma, nu):
+        return _d4logpdf(y, mu, sigma, nu)
 
     
 def _expand_arrs(*arrs):
-- 
2.43.0


From f40662ecfa6956ec11d6a3271d654e7006abc4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 189/225] fix: multivariate mixed model evaluates with current
 numpy and scipy

---
 pystatsm/pylmm/mlmm.py           | 12 ++++++------
 pystatsm/pylmm/model_matrices.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 1d0e19e..de59cc6 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -138,7 +138,7 @@ def inverse_transform_theta(theta, dims, indices):
 
 def get_d2_chol(dim_i):
     p = dim_i['n_vars']
-    Lp = lmat(p).A
+    Lp = lmat(p).toarray()
     T = np.zeros((p, p))
     H = []
     Ip = np.eye(p)
@@ -228,8 +228,8 @@ class MLMM:
         self.d2g_dchol = {}
         for key in self.levels:
             p = self.dims[key]['n_vars']
-            self.elim_mats[key] = lmat(p).A
-            self.symm_mats[key] = nmat(p).A
+            self.elim_mats[key] = lmat(p).toarray()
+            self.symm_mats[key] = nmat(p).toarray()
             self.iden_mats[key] = np.eye(p)
             self.d2g_dchol[key] = get_d2_chol(self.dims[key])
         self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta]
@@ -272,10 +272,10 @@ class MLMM:
         Rinv = self.update_rmat(theta, inverse=True).copy()
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
-        if (M.nnz / np.product(M.shape) < 0.05) and use_sparse:
-            L = cholesky(M.tocsc()).L().A
+        if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
+            L = cholesky(M.tocsc(), ordering_method="natural").L().toarray()
         else:
-            L = np.linalg.cholesky(M.A)
+            L = np.linalg.cholesky(M.toarray())
         ytPy = np.diag(L)[-1]**2
         logdetG = lndet_gmat(theta, self.dims, self.indices)
         logdetR = np.log(R.data).sum()
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 937a14d..8045b94 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -165,7 +165,7 @@ def inverse_transform_theta(theta, dims, indices):
         
 def get_d2_chol(dim_i):
     p = dim_i['n_vars']
-    Lp = lmat(p).A
+    Lp = lmat(p).toarray()
     T = np.zeros((p, p))
     H = []
     Ip = np.eye(p)
-- 
2.43.0


From 20dac6c0f45216c9a4a0d0ad91de4d7b51ab5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 190/225] fix: multivariate mixed model keeps its covariance
 parameters apart from their Cholesky coordinates

---
 pystatsm/pylmm/mlmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index de59cc6..f73d892 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -214,7 +214,7 @@ class MLMM:
         XZy = sps.csc_matrix(np.hstack([XZ, y.reshape(-1, 1)]))
         self.X, self.Z, self.y, self.dims, self.levels = X, Z, y.reshape(-1, 1), dims, levels
         self.XZ, self.XZy = XZ, XZy
-        self.theta, self.theta_chol = theta, transform_theta(theta, dims, indices)
+        self.theta, self.theta_chol = theta, transform_theta(theta.copy(), dims, indices)
         self.G = G
         self.indices = indices
         self.R = R.todia()
@@ -232,8 +232,8 @@ class MLMM:
             self.symm_mats[key] = nmat(p).toarray()
             self.iden_mats[key] = np.eye(p)
             self.d2g_dchol[key] = get_d2_chol(self.dims[key])
-        self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta]
-        self.bounds_2 = [(1e-6, None) if x==1 else (None, None) for x in self.theta]
+        self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta_chol]
+        self.bounds_2 = [(1e-6, None) if x==1 else (None, None) for x in self.theta_chol]
         self.zero_mat = sp.sparse.eye(self.X.shape[1])*0.0
         self.zero_mat2 = sp.sparse.eye(1)*0.0
 
@@ -425,14 +425,14 @@ class MLMM:
                 hess = lambda x, reml: so_gc_cd(self.gradient_chol, x, args=(reml,))
             else:
                 hess = "3-point"
-            optimizer = sp.optimize.minimize(self.loglike_c, self.theta, args=(reml,),
+            optimizer = sp.optimize.minimize(self.loglike_c, self.theta_chol, args=(reml,),
                                              jac=self.gradient_chol, hess=hess,
                                              options=opt_kws, bounds=self.bounds,
                                              method='trust-constr')
         else:
             jac = lambda x, reml: fo_fc_cd(self.loglike_c, x, args=(reml,))
             hess = lambda x, reml: so_fc_cd(self.loglike_c, x, args=(reml,))
-            optimizer = sp.optimize.minimize(self.loglike_c, self.theta, args=(reml,),
+            optimizer = sp.optimize.minimize(self.loglike_c, self.theta_chol, args=(reml,),
                                              jac=jac, hess=hess, bounds=self.bounds,
                                              method='trust-constr', options=opt_kws)
         theta_chol = optimizer.x
-- 
2.43.0


From 27ab296dde635ad23f0ea44067b7285a022a5bba Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 191/225] fix: multivariate mixed model maximises the
 likelihood asked for, with every residual variance

---
 pystatsm/pylmm/mlmm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index f73d892..5434216 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -283,7 +283,6 @@ class MLMM:
             logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
-            Rinv = self.R / theta[-1]
             RZ = Rinv.dot(self.Zs)
             Q = Ginv + self.Zs.T.dot(RZ)
             _, logdetV = cholesky(Q).slogdet()
@@ -365,7 +364,7 @@ class MLMM:
 
     def loglike_c(self, theta_chol, reml=True):
         theta = inverse_transform_theta(theta_chol.copy(), self.dims, self.indices)
-        return self.loglike(theta, reml)
+        return self.loglike(theta, reml=reml)
 
     def gradient_c(self, theta_chol, reml=True):
         theta = inverse_transform_theta(theta_chol.copy(), self.dims, self.indices)
-- 
2.43.0


From dd41970dcfc6850434d9a4e7c46e8e67a4bd2cad Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 192/225] fix: standard errors of the multivariate mixed model
 use the Hessian of the likelihood it maximised

---
 pystatsm/pylmm/mlmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 5434216..9db4324 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -386,7 +386,7 @@ class MLMM:
         return H
 
     def hessian(self, theta, reml=True):
-        H = so_gc_cd(self.gradient, theta, reml=True)
+        H = so_gc_cd(self.gradient, theta, args=(reml,))
         return H
 
     def _compute_effects(self, theta=None):
@@ -451,11 +451,11 @@ class MLMM:
             re_corrs[key] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(True, reml))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From 7907b17cc5efce8501805db2d9c0695d8c0f44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 193/225] fix: multivariate mixed model labels its estimates in
 the order it stores them

---
 pystatsm/pylmm/mlmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 9db4324..a4909ca 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -506,14 +506,14 @@ class MLMM:
         self._post_fit(theta, theta_chol, optimizer, reml, use_grad,
                        analytic_se)
         param_names = []
-        for i in range(self.n_yvars):
-            for s in list(self.fe_vars):
+        for s in list(self.fe_vars):
+            for i in range(self.n_yvars):
                 param_names.append(f"y{i+1}~{s}")
         for level in self.levels:
             n_vars = self.dims[level]['n_vars']
             nv = n_vars // self.n_yvars
-            a = np.repeat([f"y{i+1}" for i in range(self.n_yvars)], nv)
-            b = np.tile(np.arange(nv), self.n_yvars)
+            a = np.tile([f"y{i+1}" for i in range(self.n_yvars)], nv)
+            b = np.repeat(np.arange(nv), self.n_yvars)
             for i, j in list(zip(*np.triu_indices(n_vars))):
                 param_names.append(f"{level}:({a[j]}, {a[i]}):G[{b[j]+1}][{b[i]+1}]")
         for i in range(self.n_yvars):
-- 
2.43.0


From 177d1ca608cfcdd795eeba4c492d628a9155a73f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 194/225] fix: multivariate mixed model reports two-sided
 p-values

---
 pystatsm/pylmm/mlmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index a4909ca..a74aa0a 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -522,7 +522,7 @@ class MLMM:
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = 2 * sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
         self.res = res
 
 
-- 
2.43.0


From fc635599b8771a8bd49984bc3442a2c2b51c9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 195/225] fix: generalised linear mixed models evaluate with
 current scipy

---
 pystatsm/pylmm/glmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 4be34c4..d2ee34a 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -122,7 +122,7 @@ class GLMM_AGQ:
     def pirls(self, params):
         beta, theta = params[:self.p], params[self.p:]
         Psi_inv = self.update_gmat(theta, inverse=True)
-        D = cholesky(Psi_inv).L()
+        D = cholesky(Psi_inv, ordering_method="natural").L()
         u = np.zeros(self.q)
         Xb = self.X.dot(beta)
         for i in range(100):
@@ -145,7 +145,7 @@ class GLMM_AGQ:
         ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
         Ztr = self.Zt.dot(self.y - mu)
         RtR, r = ZtWZ + Psi_inv, Ztr - Psi_inv.dot(u)
-        Q = cholesky(RtR.tocsc()).L()
+        Q = cholesky(RtR.tocsc(), ordering_method="natural").L()
         Qinv = sps.linalg.inv(Q)
         return dict(u=u, D=D, Xb=Xb, Qinv=Qinv, Q=Q)
 
@@ -171,8 +171,8 @@ class GLMM_AGQ:
         ll_i = np.sum([self._dloglike(z[i], *args) * w[i]
                      for i in range(len(w))], axis=0) * sq2
         ll_i = np.log(ll_i)
-        lnd = np.linalg.slogdet(pirls_dict['D'].A)[1]\
-              -np.linalg.slogdet(pirls_dict['Q'].A)[1]
+        lnd = np.linalg.slogdet(pirls_dict['D'].toarray())[1]\
+              -np.linalg.slogdet(pirls_dict['Q'].toarray())[1]
         ll = -(np.sum(ll_i) + lnd)
         return ll
 
@@ -291,7 +291,7 @@ class GLMM_LAP:
             params = np.r_[params, 1.0]
         u, Xb, RtR, utGinv_u = self.pirls(params)
         lndL = lndet_gmat(params[self.p:], self.dims, self.indices)
-        lndQ = np.linalg.slogdet(RtR.A)[1]
+        lndQ = np.linalg.slogdet(RtR.toarray())[1]
         lnd = lndL + lndQ
         llf = 2.0 * self.f.loglike(self.y, eta=self.Zs.dot(u)+Xb)
         ll = (llf + utGinv_u + lnd)/2.0
-- 
2.43.0


From aa3fb56abdf92a3b2c644e3f10613db8a6191769 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 196/225] fix: standard errors of generalised linear mixed
 models use the whole Hessian

---
 pystatsm/pylmm/glmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index d2ee34a..ca43a25 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -51,7 +51,7 @@ def approx_hess(f, x, *args, eps=None):
             else:
                 dn = f(x+ei+ej)-f(x+ei-ej)-f(x-ei+ej)+f(x-ei-ej)
                 nm = 4*eps*eps
-
+                H[i, j] = H[j, i] = dn/nm
             ei[i], ej[j] = 0.0, 0.0
     return H
 
-- 
2.43.0


From c5d6cc8d14bc6f51141c4430f70b4696e77571bf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 197/225] fix: adaptive quadrature of the generalised linear
 mixed model divides out the Gauss-Hermite weight

---
 pystatsm/pylmm/glmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index ca43a25..e6332cf 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -167,9 +167,9 @@ class GLMM_AGQ:
         z, w, f = gh_rules(nagq, False)
         args = (pirls_dict['Xb'], pirls_dict['Qinv'], pirls_dict['D'],
                 pirls_dict['u'])
-        sq2 = np.sqrt(2)
+        w = w * np.exp(z**2 / 2) / np.sqrt(2 * np.pi)
         ll_i = np.sum([self._dloglike(z[i], *args) * w[i]
-                     for i in range(len(w))], axis=0) * sq2
+                     for i in range(len(w))], axis=0)
         ll_i = np.log(ll_i)
         lnd = np.linalg.slogdet(pirls_dict['D'].toarray())[1]\
               -np.linalg.slogdet(pirls_dict['Q'].toarray())[1]
-- 
2.43.0


From 6b4d19af01359b5eb7a369ffc23222bb151ab4ce Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 198/225] fix: quadrature fit of a generalised linear mixed
 model without scale has no residual variance to estimate

---
 pystatsm/pylmm/glmm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index e6332cf..15e21b3 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -93,6 +93,12 @@ class GLMM_AGQ:
         self.n, self.p = self.X.shape
         self.q = self.Z.shape[1]
         self.nt = len(theta)
+        if isinstance(family, Binomial) or isinstance(family, Poisson):
+            self.freeR = False
+            self.nt = self.nt-1
+            theta = theta[:-1]
+        else:
+            self.freeR = True
         self.params = np.zeros(self.p+self.nt)
         self.params[-self.nt:] = theta
         self.bounds = [(None, None) for i in range(self.p)]+\
-- 
2.43.0


From 5ff570eddf7511fc99a839e4116fe087095ededb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 199/225] fix: generalised linear mixed models can be
 constructed

---
 pystatsm/pylmm/glmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 15e21b3..22219e5 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -11,7 +11,7 @@ import numpy as np
 import scipy as sp
 import scipy.stats
 import scipy.sparse as sps
-from ..utilities.data_utils import _check_np, _check_shape, dummy, _check_shape_nb
+from ..utilities.data_utils import _check_np, _check_shape, dummy
 from ..utilities.linalg_operations import invech, cholesky
 from .model_matrices import (construct_model_matrices,
                              make_gcov, make_theta, lndet_gmat)
@@ -67,8 +67,8 @@ class GLMM_AGQ:
         X, Z, y, dims, levels = construct_model_matrices(formula, data)
         theta, indices["theta"] = make_theta(dims)
         G, indices["g"] = make_gcov(theta, indices, dims)
-        self.X = _check_shape_nb(_check_np(X), 2)
-        self.y = _check_shape_nb(_check_np(y), 1)
+        self.X = _check_shape(_check_np(X), 2)
+        self.y = _check_shape(_check_np(y), 1)
         self.Z = Z
         self.Zs = sps.csc_matrix(Z)
         self.Zt = self.Zs.T
@@ -206,8 +206,8 @@ class GLMM_LAP:
         X, Z, y, dims, levels = construct_model_matrices(formula, data)
         theta, indices["theta"] = make_theta(dims)
         G, indices["g"] = make_gcov(theta, indices, dims)
-        self.X = _check_shape_nb(_check_np(X), 2)
-        self.y = _check_shape_nb(_check_np(y), 1)
+        self.X = _check_shape(_check_np(X), 2)
+        self.y = _check_shape(_check_np(y), 1)
         self.Z = Z
         self.Zs = sps.csc_matrix(Z)
         self.Zt = self.Zs.T
-- 
2.43.0


From dc75db7b7976acd79b248a21306217d56bd440b9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 200/225] fix: fastica updates and compares components, the
 columns of its rotation

---
 pystatsm/pyica/ica.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 4e80424..f314cb4 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -37,7 +37,7 @@ def cov(X, Y=None):
 def _convergence_check(W_new, W_old, n):
     prods = np.zeros((n))
     for i in range(n):
-        prods[i] = np.dot(W_new[i], W_old[i])
+        prods[i] = np.dot(W_new[:, i], W_old[:, i])
     return prods
     
 def convergence_check(W_new, W_old, n):
@@ -53,7 +53,7 @@ def _fast_ica(Xw, W_init, maxiters=500):
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
         E_XtGY, E_dGy = cov(Xw, Gy), np.diag(np.mean(dGy, axis=0))
-        W_new = symmetric_decorr(E_XtGY - (E_dGy).dot(W))
+        W_new = symmetric_decorr(E_XtGY - W.dot(E_dGy))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From 2bb0cdabf0b112e4b055fc6eb9ea65a66a3e931d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 201/225] fix: maximum likelihood ICA iterates towards
 independent components

---
 pystatsm/pyica/ica.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index f314cb4..f750a41 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -70,12 +70,12 @@ def _fast_ica2(Xw, W_init, maxiters=500):
     fhist = []
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
-        EGYYt = cov(Y, Gy)
-        beta = np.diag(EGYYt)
+        EYGYt = cov(Y, Gy)
+        beta = -np.diag(EYGYt)
         alpha = -1.0 / (beta + np.mean(dGy, axis=0))
         A = np.diag(alpha)
         B = np.diag(beta)
-        W_new = symmetric_decorr(W + (A.dot(B+EGYYt)).dot(W))
+        W_new = symmetric_decorr(W + W.dot(B + EYGYt).dot(A))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From f932a3bf13f2c32883df69441fd424df960efb20 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 202/225] fix: canonical correlation with more x than y
 variables has as many components as y variables

---
 pystatsm/pyscca/base_cca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/base_cca.py b/pystatsm/pyscca/base_cca.py
index afbcfaf..bf74881 100644
--- a/pystatsm/pyscca/base_cca.py
+++ b/pystatsm/pyscca/base_cca.py
@@ -70,7 +70,7 @@ class CCA(object):
         return Zx, Zy
         
     def _fit(self, n_comps=None, compute_projections=True, compute_canvars=True):
-        n_comps = self.p if n_comps is None else n_comps
+        n_comps = min(self.p, self.q) if n_comps is None else n_comps
         Wx, Wy, rhos = self._cca_svd(self.Sxy, self.Sxx_isq, self.Syy_isq)
         Wx, Wy = Wx[:, :n_comps], Wy[:, :n_comps]
         Lx, Ly = self.Sxx.dot(Wx), self.Syy.dot(Wy)
-- 
2.43.0


From 77e1c6fd967db9a9557371a8ee8fbc9c5311e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 203/225] fix: sparse canonical correlation selects its penalty
 for any number of components

---
 pystatsm/pyscca/scca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index b78e73b..b389026 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -579,7 +579,10 @@ class SCCA:
         self.Wxcv, self.Wycv, self.rf, self.rt, self.lambdas, optinfo = self.crossval(ncv,
                                                                                       n_comps,
                                                                                       **cv_kws)
-        self.lmax = np.argmax(self.rt.mean(axis=1)[:, [0, 2]].mean(axis=1))
+        rt = self.rt.mean(axis=1)
+        k = int((np.sqrt(8 * rt.shape[1] + 1) - 1) / 2)
+        diag_inds = np.cumsum(np.r_[0, np.arange(k, 1, -1)])
+        self.lmax = np.argmax(rt[:, diag_inds].mean(axis=1))
         self.lam = self.lambdas[self.lmax]
         self.Wx, self.Wy, self.rho, self.optinfo = self._fit(self.lam, self.lam,
                                                              n_comps,
-- 
2.43.0


From 0f5789775e5dcb84737aee67228b069c0d4c2d91 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 204/225] fix: sequence NMF evaluates with current numpy

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 495f417..25b833d 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -75,7 +75,7 @@ def conv2(A, B, mode='full'):
 
 def reconstruct(W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) + 2 * L
+    t = int(np.prod(H.shape[1:])) + 2 * L
     H = np.pad(H, ((0, 0), (L, L)))
     X_hat = np.zeros((n, t))
     for tau in range(L):
@@ -85,7 +85,7 @@ def reconstruct(W, H):
     
 def seqnmf_objfunc(X, W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) 
+    t = int(np.prod(H.shape[1:])) 
     X_hat = reconstruct(W, H)
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
-- 
2.43.0


From dd24034c84c94ac2c210156097f647c2c54e0583 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 205/225] fix: shift moves the entries of an array instead of
 blanking its ends

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 25b833d..94e9ab0 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -55,8 +55,8 @@ def shift(arr, n_shift, constant_value=0.0):
     if iterable(n_shift):
         n_shift = _check_n_shift(n_shift)
     for i, (nl, nr) in enumerate(n_shift):
-        arr = arr[_slice_at_axis(slice(nl, None), i)]
-        arr = arr[_slice_at_axis(slice(None, arr.shape[i]-nr), i)]
+        arr = arr[_slice_at_axis(slice(nr, None), i)]
+        arr = arr[_slice_at_axis(slice(None, arr.shape[i]-nl), i)]
         
     res[:] = np.pad(arr, n_shift, mode='constant', 
                     constant_values=constant_value)
-- 
2.43.0


From f21aa8ead88b75149e691ba0e4f632e5f111514d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 206/225] fix: centering the factors of sequence NMF shifts
 each row of weights

---
 pystatsm/pynmf/hfuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 94e9ab0..646995a 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -119,7 +119,7 @@ def center_factors(W, H):
         cmass = np.maximum(np.floor(np.sum(tmp*v)/np.sum(tmp)), 1)
         W_pad[:, i] = np.roll(np.squeeze(W_pad[:, i]), int(center-cmass), 
                               axis=1)
-        H[i] = np.roll(H[i], int(cmass-center), axis=1)
+        H[i] = np.roll(H[i], int(cmass-center))
     W = W_pad[:, :, L:-L]
     return W
 
-- 
2.43.0


From 002a7a250a0e0c4942628406e322cdc0e015e7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 207/225] fix: distance correlation permutation p-value is a
 fraction of the permutations

---
 pystatsm/misc/independence_tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/independence_tests.py b/pystatsm/misc/independence_tests.py
index 60112bc..010e5e3 100644
--- a/pystatsm/misc/independence_tests.py
+++ b/pystatsm/misc/independence_tests.py
@@ -80,7 +80,7 @@ def _dcorr_permutation_test(X, Y, n_perms=1000, unbiased=True):
     for i in numba.prange(n_perms):
         rp =  _dcorr(X, Y[np.random.permutation(n)], unbiased=unbiased)
         c += abs(rp)>abs(r)
-    p = c / n
+    p = c / n_perms
     return r, p
     
 @numba.jit(nopython=True, parallel=True)
-- 
2.43.0


From 3431993b1561385aa78e46994e4a82e3de90b208 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 208/225] fix: conv2 of mode same returns the central part of
 the convolution

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 646995a..28f620a 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -65,8 +65,8 @@ def shift(arr, n_shift, constant_value=0.0):
 def conv2(A, B, mode='full'):
     C = sp.signal.convolve2d(A, B, mode='full')
     if mode=='same':
-        a1 = int(np.floor(C.shape[0] / 2) - 1)
-        a2 = int(np.floor(C.shape[1] / 2) - 1)
+        a1 = int(np.floor(B.shape[0] / 2))
+        a2 = int(np.floor(B.shape[1] / 2))
         b1, b2 = int(a1+A.shape[0]), int(a2+A.shape[1])
         C = C[a1:b1, a2:b2]
     return C
-- 
2.43.0


From 32df4812c3d44753d911504575a605b93116e700 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 209/225] fix: sequence NMF centers both factors

---
 pystatsm/pynmf/hfuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 28f620a..ef1c5b4 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -121,7 +121,7 @@ def center_factors(W, H):
                               axis=1)
         H[i] = np.roll(H[i], int(cmass-center))
     W = W_pad[:, :, L:-L]
-    return W
+    return W, H
 
 
 
-- 
2.43.0


From 6509c50fce181d3c65e7e8613d55d200fba63dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 210/225] fix: sequence NMF centers factors of one lag or one
 row

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index ef1c5b4..fdd5d4e 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -114,10 +114,10 @@ def center_factors(W, H):
     center = np.maximum(np.floor(L / 2), 1)
     W_pad  = np.pad(W, ((0, 0), (0, 0), (L, L)))
     for i in range(k):
-        tmp = np.sum(np.squeeze(W[:, i]), axis=0)
+        tmp = np.sum(W[:, i], axis=0)
         v = np.arange(1, len(tmp)+1)
         cmass = np.maximum(np.floor(np.sum(tmp*v)/np.sum(tmp)), 1)
-        W_pad[:, i] = np.roll(np.squeeze(W_pad[:, i]), int(center-cmass), 
+        W_pad[:, i] = np.roll(W_pad[:, i], int(center-cmass), 
                               axis=1)
         H[i] = np.roll(H[i], int(cmass-center))
     W = W_pad[:, :, L:-L]
-- 
2.43.0


From 7036148a468fdfcf126c02681ae320d55b02d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 211/225] fix: mixed model samplers draw from the generator
 they are given

---
 pystatsm/pylmm/glmm_mcmc.py  | 17 +++++-----
 pystatsm/utilities/random.py | 63 ++++++++++++++++++++++++++----------
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 622e0e3..d574c3d 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -329,7 +329,7 @@ class MixedMCMC(LMM):
             sd = j*s
             lb = j*tau[i-1]
             ub = j*tau[i]
-            v[ix] = trnorm(mu, sd, lb, ub)
+            v[ix] = trnorm(mu, sd, lb, ub, self.rng)
         return v
 
 
@@ -337,7 +337,7 @@ class MixedMCMC(LMM):
         u_i = u[self.u_indices[i]]
         U_i = u_i.reshape(-1, self.wsinfo[i]['k'], order='C')
         Sg_i =  U_i.T.dot(U_i)
-        Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'])
+        Gs = r_invwishart(self.wsinfo[i]['nu']+self.priors[i]['n'], Sg_i+self.priors[i]['V'], self.rng)
         theta[self.t_inds[i]] = vech(Gs)
         return theta
 
@@ -345,7 +345,8 @@ class MixedMCMC(LMM):
         resid = y - yhat
         sse = resid.T.dot(resid)
         nu = self.wsinfo['r']['nu']
-        ss = r_invgamma((nu + self.priors['R']['n'])/2, scale=(sse + self.priors['R']['V'])/2)
+        ss = r_invgamma((nu + self.priors['R']['n'])/2, scale=(sse + self.priors['R']['V'])/2,
+                        rng=self.rng)
         theta[-1] = ss
         return theta
 
@@ -367,9 +368,9 @@ class MixedMCMC(LMM):
         v[self.ix0] = log1p(-np.exp(v[self.ix0])) - v[self.ix0]
         s = np.sqrt(theta[-1])
         z[self.ix1] = trnorm(mu=pred[self.ix1], sd=s*self.jv1,
-                             lb=v[self.ix1], ub=200*self.jv1)
+                             lb=v[self.ix1], ub=200*self.jv1, rng=self.rng)
         z[self.ix0] = trnorm(mu=pred[self.ix0], sd=s*self.jv0,
-                             lb=-200*self.jv0, ub=v[self.ix0])
+                             lb=-200*self.jv0, ub=v[self.ix0], rng=self.rng)
         return z
 
 
@@ -387,7 +388,7 @@ class MixedMCMC(LMM):
         m = pred[self.y_ix[i+1]]
         ll += np.sum(np.log(1.0 - norm_cdf((t_prop[i]-m)/s)))
         ll -= np.sum(np.log(1.0 - norm_cdf((t[i]-m)/s)))
-        if ll>np.log(np.random.uniform(0, 1)):
+        if ll>np.log(self.rng.uniform(0, 1)):
             t_accept = True
             t = t_prop
         else:
@@ -454,7 +455,7 @@ class MixedMCMC(LMM):
         acceptances = np.zeros((n_samples))
         location = self.location.copy()
         pred =  self.W.dot(location)
-        z = sp.stats.norm(self.y, self.y.var()).rvs()
+        z = rng.normal(self.y, self.y.var())
         theta = self.t_init.copy()
         progress_bar = tqdm.tqdm(range(n_samples), smoothing=0.01)
         wtrace, waccept = 1.0, 1.0
@@ -494,7 +495,7 @@ class MixedMCMC(LMM):
         n_smp = n_samples
         samples = np.zeros((n_smp, n_pr))
         location, pred = self.location.copy(), self.W.dot(self.location)
-        theta, z = self.t_init.copy(), sp.stats.norm(0, 1).rvs(n_ob)
+        theta, z = self.t_init.copy(), rng.normal(0, 1, size=n_ob)
         v = np.zeros_like(z).astype(float)
         progress_bar = tqdm.tqdm(range(n_smp), smoothing=0.01)
         progress_bar.set_description(f"Chain {chain+1}")
diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 2c83edc..cc0bbdb 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -93,25 +93,54 @@ def wishart(df, V):
     return W
 
 @numba.jit(nopython=True)
-def invwishart(df, V):
+def _normal(rng):
+    if rng is None:
+        return np.random.normal(0.0, 1.0)
+    else:
+        return rng.normal(0.0, 1.0)
+
+@numba.jit(nopython=True)
+def _exponential(rng):
+    if rng is None:
+        return np.random.exponential(scale=1.0)
+    else:
+        return rng.exponential(1.0)
+
+@numba.jit(nopython=True)
+def _uniform(lb, ub, rng):
+    if rng is None:
+        return np.random.uniform(lb, ub)
+    else:
+        return rng.uniform(lb, ub)
+
+@numba.jit(nopython=True)
+def _chisquare(df, rng):
+    if rng is None:
+        return np.random.chisquare(df)
+    else:
+        return rng.chisquare(df)
+
+@numba.jit(nopython=True)
+def invwishart(df, V, rng=None):
     n = V.shape[0]
     T = np.zeros((n, n))
     for i in range(n):
-        T[i, i] = np.sqrt(np.random.chisquare(df-(i+1)+1))
+        T[i, i] = np.sqrt(_chisquare(df-(i+1)+1, rng))
         for j in range(i):
-            T[i, j] = np.random.normal(0.0, 1.0)
+            T[i, j] = _normal(rng)
     L = np.linalg.cholesky(V)
     A = L.dot(T)
     W = A.dot(A.T)
     IW = np.linalg.inv(W)
     return IW
 
-def r_invwishart(df, V):
+def r_invwishart(df, V, rng=None):
     Vinv = np.linalg.inv(V)
-    return invwishart(df, Vinv)
+    return invwishart(df, Vinv, rng)
 
-def r_invgamma(df, scale):
-    return 1.0/np.random.gamma(df, scale=1/scale)
+def r_invgamma(df, scale, rng=None):
+    rng = np.random if rng is None else rng
+    return 1.0/rng.gamma(df, scale=1/scale)
 
 
 
@@ -124,11 +153,11 @@ def norm_cdf(x):
 
 #Adapted from MCMCglmm
 @numba.jit(nopython=True)
-def scalar_truncnorm(mu, sd, lb, ub):
+def scalar_truncnorm(mu, sd, lb, ub, rng=None):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(0.0, 1.0)
+            z = _normal(rng)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
@@ -136,15 +165,15 @@ def scalar_truncnorm(mu, sd, lb, ub):
                 tr = (mu - ub) / sd
             if tr < 0:
                 while sample==1:
-                    z = np.random.normal(0.0, 1.0)
+                    z = _normal(rng)
                     if z>tr:
                         sample = 0
             else:
                 alpha = (tr + np.sqrt((tr * tr) + 4.0)) / 2.0
                 while sample==1:
-                    z = np.random.exponential(scale=1/alpha) + tr
+                    z = _exponential(rng) / alpha + tr
                     pz = -((alpha - z) * (alpha - z) / 2.0)
-                    u = -np.random.exponential(scale=1.0)
+                    u = -_exponential(rng)
                     if (u<=pz):
                         sample = 0
     else:
@@ -155,12 +184,12 @@ def scalar_truncnorm(mu, sd, lb, ub):
 
         if tr>0.5:
             while sample==1:
-                z = np.random.normal(0.0, 1.0)
+                z = _normal(rng)
                 if (z>sl) and (z<su):
                     sample = 0
         else:
             while sample==1:
-                z = np.random.uniform(sl, su)
+                z = _uniform(sl, su, rng)
                 if (sl<=0.0) and (0.0<=su):
                     pz = -z*z / 2.0
                 else:
@@ -168,7 +197,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
                         pz = (su * su - z * z) / 2.0
                     else:
                         pz = (sl * sl - z * z) / 2.0
-                u = -np.random.exponential(scale=1.0)
+                u = -_exponential(rng)
                 if u<pz:
                     sample = 0
     if lb<-1e16:
@@ -177,11 +206,11 @@ def scalar_truncnorm(mu, sd, lb, ub):
         return z*sd+mu
 
 @numba.jit(nopython=True)
-def trnorm(mu, sd, lb, ub):
+def trnorm(mu, sd, lb, ub, rng=None):
     n = len(mu)
     z = np.zeros((n, ), dtype=numba.float64)
     for i in range(n):
-        z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i])
+        z[i] = scalar_truncnorm(mu[i], sd[i], lb[i], ub[i], rng)
     return z
 
 def students_t(loc, scale, nu=1, size=None, rng=None):
-- 
2.43.0


From 8ee8ea2cf0e1ab06e2142bf308bd671d3457e730 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 212/225] fix: mixed model samplers summarise their draws with
 current arviz

---
 pystatsm/pylmm/glmm_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index d574c3d..86dde63 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -600,7 +600,7 @@ class MixedMCMC(LMM):
         self.burnin = burnin
         self.samples = samples
         self.az_dict = to_arviz_dict(samples, self.vnames, burnin=burnin)
-        self.az_data = az.from_dict(self.az_dict)
+        self.az_data = az.from_dict({"posterior":self.az_dict})
         self.summary = az.summary(self.az_data, round_to=6, **summary_kws)
         self.res = self.summary.copy()
         self.res.index = self.param_names
-- 
2.43.0


From 5afff1508b4eacd8463d259fa8472a96d7f8c558 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 213/225] fix: p-values of sampled mixed models are two sided

---
 pystatsm/pylmm/glmm_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 86dde63..946dc6f 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -605,7 +605,7 @@ class MixedMCMC(LMM):
         self.res = self.summary.copy()
         self.res.index = self.param_names
         self.res.insert(2, "z-value", self.res["mean"]/self.res["sd"])
-        self.res.insert(3, "p-value", sp.stats.norm(0, 1).sf(np.abs(self.res["z-value"])))
+        self.res.insert(3, "p-value", 2.0*sp.stats.norm(0, 1).sf(np.abs(self.res["z-value"])))
         self.beta = np.mean(samples[:, burnin:, self.vnames["$\\beta$"]], axis=(0, 1))
         self.theta = np.mean(samples[:, burnin:, self.vnames["$\\theta$"]], axis=(0, 1))
         if self.response_dist == 'ordinal_probit':
-- 
2.43.0


From 6938d08c812c17e9bcfefc966a2b819f508e1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 214/225] fix: bernoulli mixed model samples are rescaled by
 the residual variance integrated out

---
 pystatsm/pylmm/glmm_mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 946dc6f..74bb80c 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -589,13 +589,13 @@ class MixedMCMC(LMM):
             burnin = np.max(tmp)
 
         if self.response_dist == 'bernoulli':
-            c = np.sqrt(1.0+(16*np.sqrt(3))/(15*np.pi))
+            c = np.sqrt(1.0+((16*np.sqrt(3))/(15*np.pi))**2)
             if save_u:
                 self.secondary_samples['u'] /= c
             if save_pred:
                 self.secondary_samples['pred'] /=c
             samples[:, :, self.vnames["$\\beta$"]] /= c
-            samples[:, :, self.vnames["$\\theta$"]] /= c
+            samples[:, :, self.vnames["$\\theta$"]] /= c**2
 
         self.burnin = burnin
         self.samples = samples
-- 
2.43.0


From 18c174e2ff0476affabe97741c9b0bb8d970791c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 215/225] fix: aggregating samples works without saved random
 effects

---
 pystatsm/pylmm/glmm_mcmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/glmm_mcmc.py b/pystatsm/pylmm/glmm_mcmc.py
index 74bb80c..d9887fb 100644
--- a/pystatsm/pylmm/glmm_mcmc.py
+++ b/pystatsm/pylmm/glmm_mcmc.py
@@ -617,13 +617,13 @@ class MixedMCMC(LMM):
         agg_samples = {}
         for name, ix in self.vnames.items():
             x = self.samples[:, burnin:, ix]
-            x = x.reshape(np.product(x.shape[:-1]), x.shape[-1])
+            x = x.reshape(np.prod(x.shape[:-1]), x.shape[-1])
             agg_samples[name] = x
 
         if 'u' in self.secondary_samples.keys():
             u = self.secondary_samples["u"][:, burnin:]
-            u = u.reshape(np.product(u.shape[:-1]), u.shape[-1])
-        agg_samples['u'] = u
+            u = u.reshape(np.prod(u.shape[:-1]), u.shape[-1])
+            agg_samples['u'] = u
         return agg_samples
 
 
-- 
2.43.0


From 306644db62c0aeccf7a1ac5a25e8e9c2707e7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 216/225] fix: negative binomial model predicts at its own
 parameters by default

---
 pystatsm/pyglm/nb2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index 2649ec9..8ec111c 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -165,6 +165,8 @@ class NegativeBinomial(object):
         if X is None:
             X = self.X
         if b is None:
+            if params is None:
+                params = self.params
             b = params[:-1]
         mu_hat = np.exp(X.dot(b))
         return mu_hat
-- 
2.43.0


From a7f0a265140b3cacefb53fae6c8f3448c34ec804 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 217/225] fix: F tests of mixed models accept contrasts with
 redundant rows

---
 pystatsm/pylmm/lmm.py    | 2 ++
 pystatsm/pylmm/re_mod.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index d83a591..37b64bc 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -697,6 +697,8 @@ class LMM(object):
             u, Q = u[order], Q[:, order]
             q = np.linalg.matrix_rank(L)
             P = Q.T.dot(L)
+            # redundant rows leave directions of no variance
+            u, P = u[:q], P[:q]
             t2 = (P.dot(beta))**2 / u
             f = np.sum(t2) / q
             D = []
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index ed4d84c..276c32f 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1320,7 +1320,8 @@ class LMM2(object):
             order = np.argsort(u)[::-1]
             u, Q = u[order], Q[:, order]
             q = int(np.linalg.matrix_rank(L))
-            P = Q.T.dot(L)
+            # redundant rows leave directions of no variance
+            u, P = u[:q], Q.T.dot(L)[:q]
             t2 = (P.dot(beta)) ** 2 / np.maximum(u, np.finfo(float).tiny)
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
-- 
2.43.0


From 0bf276c9c8a49c1f3bf8f7a33771c785b7f28485 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 218/225] fix: structural equation models accept data with
 columns that are not numeric

---
 pystatsm/pysem2/model_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index ba64b82..edbf50e 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -92,12 +92,13 @@ class ModelData(object):
         group_vec, group_indices, n_groups = cls._group_handling(
             data, group_col)
         data_copy = data.copy().drop(group_col, axis=1) if group_col else data.copy()
+        data_copy = data_copy.infer_objects()
 
         sample_cov, sample_mean, n_obs = {}, {}, {}
         for i in range(n_groups):
             group_data = data_copy.iloc[group_indices[i]]
-            sample_cov[i] = group_data.cov(ddof=ddof)
-            sample_mean[i] = group_data.mean()
+            sample_cov[i] = group_data.cov(ddof=ddof, numeric_only=True)
+            sample_mean[i] = group_data.mean(numeric_only=True)
             n_obs[i] = len(group_indices[i])
 
         return cls(data=data_copy, sample_cov=sample_cov, sample_mean=sample_mean,
-- 
2.43.0


From d6e18a04ddc978ad80049fdbc38e19aad8b0e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 219/225] fix: fitting a mixed model leaves the caller's
 optimizer options alone

---
 pystatsm/pylmm/lmm.py  | 4 +---
 pystatsm/pylmm/mlmm.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 37b64bc..eb89ec8 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -555,9 +555,7 @@ class LMM(object):
                   opt_kws={}, optimize_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
-        for key, value in default_opt_kws.items():
-                if key not in opt_kws.keys():
-                    opt_kws[key] = value
+        opt_kws = {**default_opt_kws, **opt_kws}
         if use_grad:
 
             if use_hess:
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index a74aa0a..f7b77fb 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -413,9 +413,7 @@ class MLMM:
                   opt_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
-        for key, value in default_opt_kws.items():
-                if key not in opt_kws.keys():
-                    opt_kws[key] = value
+        opt_kws = {**default_opt_kws, **opt_kws}
         if use_grad:
 
             if use_hess:
-- 
2.43.0


From fa875d56cebc5de10b1dd6e5257ca024d24dd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 220/225] fix: missing values in columns outside a structural
 equation model leave its covariances alone

---
 pystatsm/pysem2/model_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index edbf50e..2807869 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -97,8 +97,12 @@ class ModelData(object):
         sample_cov, sample_mean, n_obs = {}, {}, {}
         for i in range(n_groups):
             group_data = data_copy.iloc[group_indices[i]]
-            sample_cov[i] = group_data.cov(ddof=ddof, numeric_only=True)
-            sample_mean[i] = group_data.mean(numeric_only=True)
+            group_data = group_data.select_dtypes(include=["number", "bool"])
+            sample_cov[i] = group_data.cov(ddof=ddof)
+            # pandas ignores ddof once any of the columns has missing values
+            complete = group_data.columns[group_data.notna().all()]
+            sample_cov[i].loc[complete, complete] = group_data[complete].cov(ddof=ddof)
+            sample_mean[i] = group_data.mean()
             n_obs[i] = len(group_indices[i])
 
         return cls(data=data_copy, sample_cov=sample_cov, sample_mean=sample_mean,
-- 
2.43.0


From b3957915789c4e564221e869fb6aa5f3eade75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 221/225] fix: triangular indices in column order of matrices
 that are not square

---
 pystatsm/utilities/indexing_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index cb92565..c6ffb1a 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -79,7 +79,7 @@ def tril_indices(n, k=0, m=None, order='F'):
     """
     if order == 'F':
         k = int(k * -1)
-        inds = np.triu_indices(n=n, k=k, m=m)[::-1]
+        inds = np.triu_indices(n=n if m is None else m, k=k, m=n)[::-1]
     elif order == 'C':
         inds = np.tril_indices(n=n, k=k, m=m)
     return inds
@@ -114,7 +114,7 @@ def triu_indices(n, k=0, m=None, order='F'):
     """
     if order == 'F':
         k = int(k * -1)
-        inds = np.tril_indices(n=n, k=k, m=m)[::-1]
+        inds = np.tril_indices(n=n if m is None else m, k=k, m=n)[::-1]
     elif order == 'C':
         inds = np.triu_indices(n=n, k=k, m=m)
     return inds
-- 
2.43.0


From 14b0f2eb8fa5689092ffc8d0e6f8b7cc7b99cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 222/225] fix: fits of the first structural equation models
 stay where the covariance is positive definite

---
 pystatsm/pysem/sem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 40d0bff..83a777c 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -458,6 +458,9 @@ class SEM:
         LA, _, IB, PH, PS = self.model_matrices(theta)
         A = LA.dot(IB)
         Sigma = A.dot(PH).dot(A.T) + PS
+        # the likelihood is only defined for positive definite covariances
+        if np.linalg.eigvalsh(Sigma)[0] <= 0:
+            return np.inf
         Sigma_inv = np.linalg.pinv(Sigma)
         LL = np.linalg.slogdet(Sigma)[1] + np.trace(self.S.dot(Sigma_inv))
         return LL
-- 
2.43.0


From 162dc509af3df84c961d663c1c5aa4f058a6dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 223/225] fix: ordinal models accept optimizer options

---
 pystatsm/pyglm2/clm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index e6e894e..0b273ea 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -333,7 +333,10 @@ class CLM(RegressionMixin, LikelihoodModel):
         return params, opt
     
     def fit(self, method=None, opt_kws=None):
-        self.params, self.opt = self._fit(method, opt_kws)
+        opt_kws = {} if opt_kws is None else opt_kws
+        if method is not None:
+            opt_kws = {**opt_kws, "method": method}
+        self.params, self.opt = self._fit(opt_kws=opt_kws)
         n, n_params = self.n, len(self.params)
         q = self.q
         self.n_params = n_params
-- 
2.43.0


From 62d83c1a32d010c0b3025ef3beffa2f56fc116ae Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 224/225] fix: step halving fits leave their starting values
 alone

---
 pystatsm/pyglm/glm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 4fcc283..1f9dbf0 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -201,8 +201,7 @@ class GLM:
     
     def _fit_manual(self, theta=None):
 
-        if theta is None:
-            theta = self.theta_init
+        theta = np.array(self.theta_init if theta is None else theta, dtype=float)
     
         fit_hist = {'|g|':[], 'theta':[], 'i':[], 'll':[],
                     'step_half_success':[], 'n_step_halves':[]}
-- 
2.43.0


From c81741ce863f896ab9a460b24bb460694a4be41f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Fri, 20 Nov 2026 02:00:21 +0000
Subject: [PATCH 225/225] fix: filling in default optimizer options leaves the
 caller's alone

---
 pystatsm/utilities/optimizer_utils.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pystatsm/utilities/optimizer_utils.py b/pystatsm/utilities/optimizer_utils.py
index dcc745e..6363db1 100644
--- a/pystatsm/utilities/optimizer_utils.py
+++ b/pystatsm/utilities/optimizer_utils.py
@@ -23,19 +23,9 @@ default_opts = {'L-BFGS-B':LBFGSB_options,
                 'trust-ncg':TrustNewton_options}
 
 def process_optimizer_kwargs(optimizer_kwargs, default_method='trust-constr'):
-    keys = optimizer_kwargs.keys()
-
-    if 'method' not in keys:
-        optimizer_kwargs['method'] = default_method
-
-    if 'options' not in keys:
-        optimizer_kwargs['options'] = default_opts[optimizer_kwargs['method']]
-    else:
-        options_keys = optimizer_kwargs['options'].keys()
-        for dfkey, dfval in default_opts[optimizer_kwargs['method']].items():
-            if dfkey not in options_keys:
-                optimizer_kwargs['options'][dfkey] = dfval
-    return optimizer_kwargs
+    method = optimizer_kwargs.get('method', default_method)
+    options = {**default_opts[method], **optimizer_kwargs.get('options', {})}
+    return {**optimizer_kwargs, 'method': method, 'options': options}
 
 class MemoizeJac:
     def __init__(self, fun):
-- 
2.43.0

