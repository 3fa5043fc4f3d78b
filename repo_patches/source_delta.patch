From e92bc20005757220549e333e7ecf49818053949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 01/46] fix: QP derivatives with several outputs

The quadratic and cross terms of QP._predict_derivatives were multiplied
elementwise (points against outputs): wrong or an error as soon as ny > 1.
---
 smt/surrogate_models/qp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..24872e9 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = np.outer(x[:, kx], 2 * self.coef[1 + dim + kx, :])
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From 6b9b11f58e1b6ab6e1cf73e2a8a0accce4066dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 02/46] fix: MFK derivatives with a linear trend in more than
 one dimension

The derivative of the linear trend along x_k is 1 for the k-th regressor
only; all regressors were counted.
---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..63e56c9 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -590,7 +590,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, 1 + kx] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
-- 
2.43.0


From af51dff8683657829e3b86e5ca5db45ef2ca8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 03/46] fix: kriging variance with a linear or quadratic trend

---
 smt/surrogate_models/krg_based.py | 1 +
 smt/surrogate_models/krg_mgp.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..e35f708 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -751,6 +751,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..731b964 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -349,7 +349,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From e7c366e40c1f816dceebab3c234028297d2cea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 04/46] fix: unit scaling of a constant input column

---
 smt/utils/kriging_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/kriging_utils.py b/smt/utils/kriging_utils.py
index bbd53f6..4429fa6 100644
--- a/smt/utils/kriging_utils.py
+++ b/smt/utils/kriging_utils.py
@@ -72,7 +72,7 @@ def standardization(X, y, scale_X_to_unit=False):
     else:
         X_offset = np.mean(X, axis=0)
         X_scale = X.std(axis=0, ddof=1)
-        X_scale[X_scale == 0.0] = 1.0
+    X_scale[X_scale == 0.0] = 1.0
 
     y_mean = np.mean(y, axis=0)
     y_std = y.std(axis=0, ddof=1)
-- 
2.43.0


From 38d13d60ecc450301d04bb351b1f255857b8f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 05/46] fix: training a Kriging model on outputs that the trend
 reproduces exactly

---
 smt/surrogate_models/krg_based.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index e35f708..53e015f 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -298,8 +298,10 @@ class KrgBased(SurrogateModel):
             p = self.p
             q = self.q
         sigma2 = (rho ** 2.0).sum(axis=0) / (self.nt - p - q)
+        # The smallest positive number keeps the value finite when the trend
+        # reproduces the outputs exactly (e.g. constant outputs)
         reduced_likelihood_function_value = -(self.nt - p - q) * np.log10(
-            sigma2.sum()
+            sigma2.sum() + np.finfo(np.double).tiny
         ) - self.nt * np.log10(detR)
         par["sigma2"] = sigma2 * self.y_std ** 2.0
         par["beta"] = beta
@@ -429,7 +431,12 @@ class KrgBased(SurrogateModel):
 
             # Compute reduced log likelihood derivatives
             grad_red[i_der] = (
-                -self.nt / np.log(10) * (dsigma_2 / sigma_2 + np.trace(tr) / self.nt)
+                -self.nt
+                / np.log(10)
+                * (
+                    dsigma_2 / (sigma_2 + np.finfo(np.double).tiny)
+                    + np.trace(tr) / self.nt
+                )
             )
 
         par["dr"] = dr_all
-- 
2.43.0


From d10eefe2d5b489c01f54c2b9b4f42b782f9f93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 06/46] fix: MFK variance with three or more fidelity levels

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 63e56c9..284cbe2 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -521,8 +521,10 @@ class MFK(KrgBased):
             r_t = solve_triangular(C, r_.T, lower=True)
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
+            gamma = self.optimal_par[i]["gamma"]
 
             # scaled predictor
+            mu[:, i] = (np.dot(f.T, beta) + np.dot(r_, gamma)).ravel()
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
-- 
2.43.0


From 29f86d71cc56c8c3e6fba77f55bc10db539dc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 07/46] fix: ESE latin hypercube of a single point

---
 smt/sampling_methods/lhs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..cf8aabb 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -308,10 +308,9 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
+        if nt < 2:
+            # there is no exchange to perform on a single point
+            return P0
 
         P, historic = self._maximinESE(
             P0,
-- 
2.43.0


From 21ca31caccc7483978df6c121128680f8b56d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 08/46] fix: FullFactorial modified the weights option in place
 and refused integer weights

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From 6e27fc8b5911118327ab8d37103f87ac28e7f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 09/46] fix: NestedLHS with equidistant neighbours

---
 smt/applications/mfk.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 284cbe2..d69fcb8 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -90,15 +90,11 @@ class NestedLHS(object):
             ind = []
             d = cdist(doe[i], doe[i - 1], "euclidean")
             for j in range(doe[i].shape[0]):
-                dj = np.sort(d[j, :])
-                k = dj[0]
-                l = (np.where(d[j, :] == k))[0][0]
+                nearest = np.argsort(d[j, :])
                 m = 0
-                while l in ind:
+                while nearest[m] in ind:
                     m = m + 1
-                    k = dj[m]
-                    l = (np.where(d[j, :] == k))[0][0]
-                ind.append(l)
+                ind.append(nearest[m])
 
             doe[i - 1] = np.delete(doe[i - 1], ind, axis=0)
             doe[i - 1] = np.vstack((doe[i - 1], doe[i]))
-- 
2.43.0


From 26e564765c0c53cf209a5e27f7f590cb5309e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 10/46] fix: casting of equal enumeration entries to one level

---
 smt/applications/mixed_integer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..3af60b8 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -127,10 +127,9 @@ def cast_to_discrete_values(xtypes, x):
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
             # Categorial : The biggest level is selected.
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            index = np.argmax(xenum, axis=1)
+            xenum[:, :] = 0
+            xenum[np.arange(xenum.shape[0]), index] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
-- 
2.43.0


From cd1c7cbe7f10741426ae118b3cec4db84f1c96d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 11/46] fix: VFM removed the deriv entry from the option
 dictionaries of the user

---
 smt/applications/vfm.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..b09b88e 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -158,9 +158,9 @@ class VFM(SurrogateBasedApplication):
         self._check_param()
 
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        options_LF = dict(self.options["options_LF"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        sm_LF = self.options["name_model_LF"](**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -170,10 +170,10 @@ class VFM(SurrogateBasedApplication):
         sm_LF.train()
 
         # compute the bridge data
+        options_bridge = dict(self.options["options_bridge"])
+        self.B_deriv = options_bridge.pop("deriv", False)
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +189,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,7 +200,7 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = self.options["name_model_bridge"](**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv and self.options["dy_HF"] is not None:
             for i in range(sm_bridge.nx):
@@ -268,9 +266,3 @@ class VFM(SurrogateBasedApplication):
                     "%s was given."
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
-
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
-- 
2.43.0


From 84ac01380b421df65ad7847e8acf56cecbb2467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 12/46] fix: EGO discarded a successful internal optimization
 at the last try

---
 smt/applications/ego.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..0e21553 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -365,7 +365,7 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
-- 
2.43.0


From cf89168ddb7a7a5727fe382d09b8f821c1b67b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 13/46] fix: EGO evaluated the initial mixed-integer doe in the
 unfolded space

---
 smt/applications/ego.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index 0e21553..ce5d1cd 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -288,7 +288,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_doe)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
-- 
2.43.0


From 141385ae4c6f6df829602e33195a0ad74270db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 14/46] fix: EGO evaluated and recorded non-integer values of
 integer inputs

---
 smt/applications/ego.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index ce5d1cd..f74d088 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -374,6 +374,8 @@ class EGO(SurrogateBasedApplication):
         ind_min = np.argmin(obj_success)
         opt = opt_success[ind_min]
         x_et_k = np.atleast_2d(opt["x"])
+        if self.mixint:
+            x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
 
         return x_et_k, True
 
-- 
2.43.0


From 486bacb7ed18811f2d555e8b8be4befc00d0db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 15/46] fix: expected improvement is NaN at points without
 variance

---
 smt/applications/ego.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index f74d088..39dd61d 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -205,6 +205,8 @@ class EGO(SurrogateBasedApplication):
         if sig.size == 1 and sig == 0.0:  # can be use only if one point is computed
             return 0.0
         ei = args1 + args2
+        # no improvement is expected where the prediction has no variance
+        ei[sig == 0.0] = 0.0
         # penalize the points already evaluated with tunneling
         if enable_tunneling:
             for i in range(len(points)):
-- 
2.43.0


From a44c69604aa9864623b17ab6f08419d95d29e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 16/46] fix: rms error of the training derivatives

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From e67ce788bada0fd8299b816b4d47eb50454f0c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 17/46] fix: update_training_derivatives looked at the wrong
 input direction

---
 smt/surrogate_models/surrogate_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..23a782b 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -225,13 +225,13 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if kx + 1 not in self.training_points[name]:
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-- 
2.43.0


From 265657120300b063483decc83df2053ce35c0bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 18/46] fix: update_training_values ignored a new number of
 outputs

---
 smt/surrogate_models/surrogate_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 23a782b..b860f71 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -164,6 +164,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 + "set_training_values."
             )
 
+        self.ny = yt.shape[1]
         self.training_points[name][kx][1] = np.array(yt)
 
     def set_training_derivatives(
-- 
2.43.0


From 508d0c4111d0974235b234fac58efe0e9998844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 19/46] fix: derivatives set with kx=-1 replaced the training
 values

---
 smt/surrogate_models/surrogate_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index b860f71..b589a48 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -198,6 +198,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         if not isinstance(kx, int):
             raise ValueError("kx must be an int")
 
+        if kx < 0:
+            raise ValueError("kx must not be negative")
+
         self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
 
     def update_training_derivatives(
-- 
2.43.0


From ddda5acf0f22d9af985e62d222d615241a0dd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 20/46] fix: declaring an option with an invalid default
 replaced its declaration

---
 smt/utils/options_dictionary.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index c3b2b7c..2649ce5 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -68,7 +68,7 @@ class OptionsDictionary(object):
             The value to set.
         """
         assert name in self._declared_entries, "Option %s has not been declared" % name
-        self._assert_valid(name, value)
+        self._assert_valid(name, value, self._declared_entries[name])
         self._dict[name] = value
 
     def __contains__(self, key):
@@ -77,9 +77,9 @@ class OptionsDictionary(object):
     def is_declared(self, key):
         return key in self._declared_entries
 
-    def _assert_valid(self, name, value):
-        values = self._declared_entries[name]["values"]
-        types = self._declared_entries[name]["types"]
+    def _assert_valid(self, name, value, entry):
+        values = entry["values"]
+        types = entry["types"]
 
         if values is not None and types is not None:
             assert value in values or isinstance(
@@ -136,7 +136,7 @@ class OptionsDictionary(object):
         desc : str
             Optional description of the option.
         """
-        self._declared_entries[name] = {
+        entry = {
             "values": values,
             "types": types,
             "default": default,
@@ -144,6 +144,7 @@ class OptionsDictionary(object):
         }
 
         if default is not None:
-            self._assert_valid(name, default)
+            self._assert_valid(name, default, entry)
 
+        self._declared_entries[name] = entry
         self._dict[name] = default
-- 
2.43.0


From 8d3b16672a52e356e1ef00e22f586034f2ae672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 21/46] fix: options declared with a list of types raised for
 every value

---
 smt/utils/options_dictionary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 2649ce5..6342d21 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -80,6 +80,8 @@ class OptionsDictionary(object):
     def _assert_valid(self, name, value, entry):
         values = entry["values"]
         types = entry["types"]
+        if isinstance(types, list):
+            types = tuple(types)
 
         if values is not None and types is not None:
             assert value in values or isinstance(
-- 
2.43.0


From 6a20e72db38f92469ded69beca4b2b22db5281b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 22/46] fix: clone of an options dictionary shared mutable
 values with its source

---
 smt/utils/options_dictionary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/utils/options_dictionary.py b/smt/utils/options_dictionary.py
index 6342d21..a06ca96 100644
--- a/smt/utils/options_dictionary.py
+++ b/smt/utils/options_dictionary.py
@@ -4,6 +4,8 @@ Author: Dr. John T. Hwang <hwangjt@umich.edu>
 This package is distributed under New BSD license.
 """
 
+from copy import deepcopy
+
 
 class OptionsDictionary(object):
     """
@@ -31,7 +33,7 @@ class OptionsDictionary(object):
             Deep-copied clone.
         """
         clone = self.__class__()
-        clone._dict = dict(self._dict)
+        clone._dict = deepcopy(self._dict)
         clone._declared_entries = dict(self._declared_entries)
         return clone
 
-- 
2.43.0


From a55fdc67347c04c51c3f0fbc6d5d1056b88c8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 23/46] fix: dense Cholesky solver returned the right-hand side
 for a non-contiguous solution array

---
 smt/utils/linear_solvers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..9f37c70 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -154,11 +154,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
-- 
2.43.0


From 2230282d263d5a7972f90536cf43606d34c4fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 24/46] fix: clones of a linear solver had the default options

---
 smt/utils/linear_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 9f37c70..e4f431a 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
-- 
2.43.0


From 59bd932a0775a01b74a8fc833abcbfefeb341232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 25/46] fix: cubic line search raised when the interpolant has
 no suitable stationary point

---
 smt/utils/line_search.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..c4bff76 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -240,21 +240,20 @@ class CubicLineSearch(BracketedLineSearch):
         d0 = c1
         d1 = 2 * c2
         d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
+        roots = np.roots([d2, d1, d0])
 
         a = None
         p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
+        for r in roots:
+            if (a1 <= r <= a2 or a2 <= r <= a1) and np.isreal(r):
+                px = self._phi(r)
+                if px < p:
+                    a = r
+                    p = px
+                    dp = self._dphi(r)
+
+        if a is None:
+            # no suitable stationary point of the interpolant: use the midpoint
+            return super()._compute_minimum(a1, p1, dp1, a2, p2, dp2)
 
         return a, p, dp
-- 
2.43.0


From 2b266ac0e55d002c6a1c54045aa27ee9d4114af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 26/46] fix: GENN back-propagation weighted the gradient misfit
 by gamma once per layer

---
 smt/utils/neural_net/bwd_prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 7af5550..a345f9c 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -142,7 +142,7 @@ def linear_activation_backward(dA, dA_prime, cache, J_cache, lambd, gamma):
                 * np.sum(dA_prime_j * G_prime_prime * Z_prime_j, axis=1, keepdims=True)
             )
             dA_prev += gamma * np.dot(W.T, dA_prime_j * G_prime_prime * Z_prime_j)
-            dA_prime_prev[:, j, :] = gamma * np.dot(W.T, dA_prime_j * G_prime)
+            dA_prime_prev[:, j, :] = np.dot(W.T, dA_prime_j * G_prime)
 
     return dA_prev, dW, db, dA_prime_prev
 
-- 
2.43.0


From 4669dc5aabb59bdcf946cc719af5fadf1c597519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 27/46] fix: GENN gradients of a single point or of
 mini-batches of size one raised

---
 smt/utils/neural_net/fwd_prop.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
-- 
2.43.0


From fe68653d0c2046ab537c66589370b79b0173695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 28/46] fix: GENN scaled the gradients of several outputs with
 the wrong outputs' factors

---
 smt/utils/neural_net/model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..cbc5db5 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -98,7 +98,11 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        J = (
+            self._J_norm
+            * np.reshape(self._scale_factors["y"][1], (-1, 1, 1))
+            / np.reshape(self._scale_factors["x"][1], (1, -1, 1))
+        )
         return X, Y, J
 
     def __init__(self, **kwargs):
@@ -434,7 +438,9 @@ class Model(object):
         Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
+        J = (
+            J_norm * np.reshape(sigma_y, (-1, 1, 1)) / np.reshape(sigma_x, (1, -1, 1))
+        ).reshape(
             self.number_of_outputs, self.number_of_inputs, number_of_examples
         )
 
-- 
2.43.0


From c4f08f8ee0fa3f2a043d4e0c7b2524eba3b883bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 29/46] fix: GENN normalization of a constant input or output
 gave NaN

---
 smt/utils/neural_net/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..cfa4215 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -180,6 +180,8 @@ def normalize_data(X, Y, J=None, is_classification=False):
     for i in range(0, n_x):
         mu_x[i] = np.mean(X[i])
         sigma_x[i] = np.std(X[i])
+        if sigma_x[i] == 0:
+            sigma_x[i] = 1.0
         X_norm[i] = (X[i] - mu_x[i]) / sigma_x[i]
 
     # Normalize outputs
@@ -191,6 +193,8 @@ def normalize_data(X, Y, J=None, is_classification=False):
         for i in range(0, n_y):
             mu_y[i] = np.mean(Y[i])
             sigma_y[i] = np.std(Y[i])
+            if sigma_y[i] == 0:
+                sigma_y[i] = 1.0
             Y_norm[i] = (Y[i] - mu_y[i]) / sigma_y[i]
 
     # Normalize partials
-- 
2.43.0


From 121b43ee410911c722c1a2c20d2a0426d29cc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 30/46] fix: GENN did not notice derivatives given at other
 points than the values

---
 smt/surrogate_models/genn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..d77398b 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -99,7 +99,7 @@ def smt_to_genn(training_points):
         assert dyt_dxt.shape[1] == n_y
 
         # Assert that derivatives provided are for the same training points
-        assert xt.all() == X.all()
+        assert np.array_equal(xt, X)
 
         # Assign training derivative but transpose to match neural net implementation
         J[:, k, :] = dyt_dxt
-- 
2.43.0


From 04814560f41551e2db416a9f91c6d168b1f4a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:35 +0000
Subject: [PATCH 31/46] fix: GENN ignored the beta1 and beta2 options

---
 smt/utils/neural_net/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 4d36f8f..7fae660 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -267,8 +267,10 @@ class Adam(Optimizer):
         self.v = None
         self.s = None
 
-    def _update_current_design(self, learning_rate=0.05, beta_1=0.9, beta_2=0.99):
+    def _update_current_design(self, learning_rate=0.05, beta_1=None, beta_2=None):
         """Adam update"""
+        beta_1 = self.beta_1 if beta_1 is None else beta_1
+        beta_2 = self.beta_2 if beta_2 is None else beta_2
         self.beta_1 = beta_1
         self.beta_2 = beta_2
         t = self._current_iteration + 1
-- 
2.43.0


From 4a4cb447d6be1541aed93a3afd3f0845d31a13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 32/46] fix: GENN.goodness_of_fit replaced the training data by
 the validation data

---
 smt/surrogate_models/genn.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index d77398b..342e7b6 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -239,21 +239,16 @@ class GENN(SurrogateModel):
         :param yv: np.ndarray[n, 1], y validation response
         :param dyv_dxv: np.ndarray[n, ny], dydx validation derivatives
         """
-        # Store current training points
-        training_points = self.training_points
-
-        # Replace training points with test (validation) points
-        load_smt_data(self, xv, yv, dyv_dxv)
+        # Load test (validation) points without touching the training points
+        validation = GENN()
+        load_smt_data(validation, xv, yv, dyv_dxv)
 
         # Convert from SMT format to a more convenient format for GENN
-        X, Y, J = smt_to_genn(self.training_points)
+        X, Y, J = smt_to_genn(validation.training_points)
 
         # Generate goodness of fit plots
         self.model.goodness_of_fit(X, Y)
 
-        # Restore training points
-        self.training_points = training_points
-
 
 def run_example(is_gradient_enhancement=True):  # pragma: no cover
     """Test and demonstrate GENN using a 1D example"""
-- 
2.43.0


From 46395fc0eaa12e33303c6f78aac3ea534ca97c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 33/46] fix: GENN seed did not make training repeatable

---
 smt/surrogate_models/genn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 342e7b6..da7c96e 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -188,6 +188,10 @@ class GENN(SurrogateModel):
         n_x = X.shape[0]
         n_y = Y.shape[0]
 
+        # Make the initial weights repeatable too
+        if seed is not None:
+            np.random.seed(seed)
+
         # Train neural net
         self.model = Model.initialize(n_x, n_y, deep, wide)
         self.model.train(
-- 
2.43.0


From ff1a449cf3a8f7b63ce3ea9c5ff97487e1dd7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 34/46] fix: GENN could not be trained without derivatives

---
 smt/surrogate_models/genn.py     | 11 ++++++-----
 smt/utils/neural_net/bwd_prop.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index da7c96e..403eb25 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -87,6 +87,10 @@ def smt_to_genn(training_points):
     X = xt
     Y = yt
 
+    # Without any training derivatives, there is no gradient-enhancement
+    if not any(k + 1 in training_points[None] for k in range(0, n_x)):
+        return X.T, Y.T, None
+
     # Loop to retrieve each partial derivative from SMT training_points
     J = np.zeros((m, n_x, n_y))
     for k in range(0, n_x):
@@ -166,16 +170,13 @@ class GENN(SurrogateModel):
         # Convert training data to format expected by neural net module
         X, Y, J = smt_to_genn(self.training_points)
 
-        # If there are no training derivatives, turn off gradient-enhancement
-        if type(J) == np.ndarray and J.size == 0:
-            self.options["gamma"] = 0.0
-
         # Get hyperparameters from SMT API
         alpha = self.options["alpha"]
         beta1 = self.options["beta1"]
         beta2 = self.options["beta2"]
         lambd = self.options["lambd"]
-        gamma = self.options["gamma"]
+        # If there are no training derivatives, turn off gradient-enhancement
+        gamma = self.options["gamma"] if J is not None else 0.0
         deep = self.options["deep"]
         wide = self.options["wide"]
         mini_batch_size = self.options["mini_batch_size"]
diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index a345f9c..4009a49 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -40,7 +40,7 @@ def initialize_back_prop(AL, Y, AL_prime, Y_prime):
     Y = Y.reshape(AL.shape)
     dAL = AL - Y  # derivative of loss function w.r.t. to activations: dAL = d(L)/dAL
     dAL_prime = (
-        AL_prime - Y_prime
+        AL_prime - Y_prime if Y_prime is not None else np.zeros(AL_prime.shape)
     )  # derivative of loss function w.r.t. to partials: dAL_prime = d(L)/d(AL_prime)
 
     return dAL, dAL_prime
-- 
2.43.0


From 559935fe95cc97f9b31dffd8a31206c72883ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 35/46] fix: MOE raised when given clustering outputs (ct)

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..023e85a 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -206,7 +206,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if self.c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
-- 
2.43.0


From dc5517d75dc8690ae5b53d0dcec8f1bbea573847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 36/46] fix: MOE without any possible expert did not say so

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 023e85a..684c4c9 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -367,7 +367,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
-- 
2.43.0


From 1baf1dbba170592bf49d55374115b9edf8c6de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 37/46] fix: MOE compared experts by the differences between
 unrelated points

---
 smt/applications/moe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 684c4c9..69ab08a 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -551,7 +551,7 @@ class MOE(SurrogateBasedApplication):
             sm.train()
 
             expected = test_values[:, dim]
-            actual = sm.predict_values(test_values[:, 0:dim])
+            actual = sm.predict_values(test_values[:, 0:dim]).reshape(expected.shape)
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
             # mse = (l_two**2) / len(expected)
-- 
2.43.0


From a9d52a63ce286f1c13c050ad93b13113d295a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 38/46] fix: MOE predicted zero far from all the clusters

---
 smt/applications/moe.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 69ab08a..ab7be98 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -702,14 +702,12 @@ class MOE(SurrogateBasedApplication):
             x membership probability for each cluster
         """
         weights = np.array(self.cluster.weights_)
-        rvs = np.array([distribs[k].pdf(x) for k in range(len(weights))])
+        logs = np.array([distribs[k].logpdf(x) for k in range(len(weights))])
+        logs = logs + np.log(weights)
 
-        probs = weights * rvs
-        rad = np.sum(probs)
-
-        if rad > 0:
-            probs = probs / rad
-        return probs
+        # relative to the largest one: the densities vanish far from the clusters
+        probs = np.exp(logs - np.max(logs))
+        return probs / np.sum(probs)
 
     def _proba_cluster(self, x, distribs=None):
         """
-- 
2.43.0


From 76a89cd3457ee57e78c3dfacf9ece9536ddfb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:32 +0000
Subject: [PATCH 39/46] fix: LpNorm derivatives raised for orders above two

---
 smt/problems/lp_norm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/problems/lp_norm.py b/smt/problems/lp_norm.py
index 25048c5..604bb04 100644
--- a/smt/problems/lp_norm.py
+++ b/smt/problems/lp_norm.py
@@ -44,7 +44,6 @@ class LpNorm(Problem):
         if kx is None:
             y[:, 0] = lp_norm
         else:
-            norm_p = np.linalg.norm(x, ord=p)
             y[:, 0] = np.sign(x[:, kx]) * (np.absolute(x[:, kx]) / lp_norm) ** (p - 1)
 
         return y
-- 
2.43.0


From 99339f32f698de74cabb3d5d0b784e5a0e0bb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:53 +0000
Subject: [PATCH 40/46] fix: RMTC used the first element for points far above
 the upper bound

---
 smt/src/rmts/rmtc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smt/src/rmts/rmtc.cpp b/smt/src/rmts/rmtc.cpp
index 7ab91d0..8eba164 100644
--- a/smt/src/rmts/rmtc.cpp
+++ b/smt/src/rmts/rmtc.cpp
@@ -43,9 +43,11 @@ void RMTC::find_interval(int ix, int num, double x, int * index, double * xbar)
   double a = lower[ix];
   double b = upper[ix];
 
-  *index = (int) ceil( (x - a) / (b - a) * num );
-  *index = max(1, *index);
-  *index = min(num, *index);
+  // bound the element number before the conversion: far points do not fit an int
+  double elem = ceil( (x - a) / (b - a) * num );
+  elem = max(1., elem);
+  elem = min(1. * num, elem);
+  *index = (int) elem;
 
   double a2 = a + (b - a) * (*index - 1) / num;
   double b2 = a + (b - a) * (*index    ) / num;
-- 
2.43.0


From cbd4608fffaacb59dae41791cc8c2c9aa4e728f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 41/46] fix: RBF, RMTB and RMTC read outside their buffers for
 options of the wrong size

---
 smt/surrogate_models/rbf.py  | 2 ++
 smt/surrogate_models/rmtb.py | 8 ++++++++
 smt/surrogate_models/rmtc.py | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..59464f5 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -63,6 +63,8 @@ class RBF(SurrogateModel):
         if isinstance(options["d0"], (int, float)):
             options["d0"] = [options["d0"]] * nx
         options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        if len(options["d0"]) != nx:
+            raise ValueError("d0 must have one entry per input")
 
         self.printer.max_print_depth = options["max_print_depth"]
 
diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index f0b6b19..b35108f 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -63,6 +63,10 @@ class RMTB(RMTS):
             if isinstance(options[name], (int, float)):
                 options[name] = [options[name]] * nx
             options[name] = np.atleast_1d(options[name])
+            if len(options[name]) != nx:
+                raise ValueError("{} must have one entry per input".format(name))
+        if np.shape(options["xlimits"]) != (nx, 2):
+            raise ValueError("xlimits must have a lower and an upper bound per input")
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -73,6 +77,10 @@ class RMTB(RMTS):
         num["order_list"] = np.array(options["order"], int)
         num["order"] = np.prod(num["order_list"])
         num["ctrl_list"] = np.array(options["num_ctrl_pts"], int)
+        if np.any(num["order_list"] < 1) or np.any(num["ctrl_list"] < num["order_list"]):
+            raise ValueError(
+                "order must be positive and num_ctrl_pts must not be less than order"
+            )
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
         num["elem"] = np.prod(num["elem_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 7a43602..8319a14 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -56,6 +56,10 @@ class RMTC(RMTS):
             if isinstance(options[name], (int, float)):
                 options[name] = [options[name]] * nx
             options[name] = np.atleast_1d(options[name])
+            if len(options[name]) != nx:
+                raise ValueError("{} must have one entry per input".format(name))
+        if np.shape(options["xlimits"]) != (nx, 2):
+            raise ValueError("xlimits must have a lower and an upper bound per input")
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -65,6 +69,8 @@ class RMTC(RMTS):
         num["y"] = self.training_points[None][0][1].shape[1]
         # number of elements
         num["elem_list"] = np.array(options["num_elements"], int)
+        if np.any(num["elem_list"] < 1):
+            raise ValueError("num_elements must be positive")
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
-- 
2.43.0


From 878b8e89baf057a425c6b271412b91220c84481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 42/46] fix: IDW, RBF and RMTS accessed memory outside their
 buffers for a wrong direction or stale training data

---
 smt/surrogate_models/idw.py  | 12 +++++++++---
 smt/surrogate_models/rbf.py  |  5 +++++
 smt/surrogate_models/rmtb.py |  2 ++
 smt/surrogate_models/rmtc.py |  2 ++
 smt/surrogate_models/rmts.py |  2 ++
 smt/utils/checks.py          |  5 +++++
 6 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/smt/surrogate_models/idw.py b/smt/surrogate_models/idw.py
index 9dce6b8..a34cf4f 100644
--- a/smt/surrogate_models/idw.py
+++ b/smt/surrogate_models/idw.py
@@ -8,6 +8,7 @@ import numpy as np
 from scipy.sparse import csc_matrix
 from smt.surrogate_models.surrogate_model import SurrogateModel
 from smt.utils.caching import cached_operation
+from smt.utils.checks import check_kx, check_nx
 
 from smt.surrogate_models.idwclib import PyIDW
 
@@ -45,6 +46,7 @@ class IDW(SurrogateModel):
         nt = xt.shape[0]
         nx = xt.shape[1]
 
+        self.num = {"x": nx, "t": nt}
         self.idwc = PyIDW()
         self.idwc.setup(nx, nt, self.options["p"], xt.flatten())
 
@@ -82,7 +84,8 @@ class IDW(SurrogateModel):
         This function is used by _predict function. See _predict for more details.
         """
         n = x.shape[0]
-        nt = self.nt
+        nt = self.num["t"]
+        check_nx(self.num["x"], x)
 
         yt = self.training_points[None][0][1]
 
@@ -110,7 +113,9 @@ class IDW(SurrogateModel):
             Derivative values.
         """
         n = x.shape[0]
-        nt = self.nt
+        nt = self.num["t"]
+        check_nx(self.num["x"], x)
+        check_kx(self.num["x"], kx)
 
         yt = self.training_points[None][0][1]
 
@@ -123,7 +128,8 @@ class IDW(SurrogateModel):
 
     def _predict_output_derivatives(self, x):
         n = x.shape[0]
-        nt = self.nt
+        nt = self.num["t"]
+        check_nx(self.num["x"], x)
         ny = self.training_points[None][0][1].shape[1]
 
         jac = np.empty(n * nt)
diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index 59464f5..b18390a 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -9,6 +9,7 @@ from smt.surrogate_models.surrogate_model import SurrogateModel
 
 from smt.utils.linear_solvers import get_solver
 from smt.utils.caching import cached_operation
+from smt.utils.checks import check_kx, check_nx
 
 from smt.surrogate_models.rbfclib import PyRBF
 
@@ -163,6 +164,7 @@ class RBF(SurrogateModel):
         """
         n = x.shape[0]
         num = self.num
+        check_nx(num["x"], x)
 
         jac = np.empty(n * num["dof"])
         self.rbfc.compute_jac(n, x.flatten(), jac)
@@ -189,6 +191,8 @@ class RBF(SurrogateModel):
         """
         n = x.shape[0]
         num = self.num
+        check_nx(num["x"], x)
+        check_kx(num["x"], kx)
 
         jac = np.empty(n * num["dof"])
         self.rbfc.compute_jac_derivs(n, kx, x.flatten(), jac)
@@ -202,6 +206,7 @@ class RBF(SurrogateModel):
         nt = self.nt
         ny = self.training_points[None][0][1].shape[1]
         num = self.num
+        check_nx(num["x"], x)
 
         dy_dstates = np.empty(n * num["dof"])
         self.rbfc.compute_jac(n, x.flatten(), dy_dstates)
diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index b35108f..04adfff 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -9,6 +9,7 @@ from numbers import Integral
 
 from smt.utils.linear_solvers import get_solver
 from smt.utils.line_search import get_line_search_class
+from smt.utils.checks import check_nx
 from smt.surrogate_models.rmts import RMTS
 
 from smt.surrogate_models.rmtsclib import PyRMTB
@@ -107,6 +108,7 @@ class RMTB(RMTS):
         )
 
     def _compute_jac_raw(self, ix1, ix2, x):
+        check_nx(self.num["x"], x)
         xlimits = self.options["xlimits"]
 
         t = np.zeros(x.shape)
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 8319a14..2a323c1 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -9,6 +9,7 @@ from numbers import Integral
 
 from smt.utils.linear_solvers import get_solver
 from smt.utils.line_search import get_line_search_class
+from smt.utils.checks import check_nx
 from smt.surrogate_models.rmts import RMTS
 
 from smt.surrogate_models.rmtsclib import PyRMTC
@@ -99,6 +100,7 @@ class RMTC(RMTS):
         )
 
     def _compute_jac_raw(self, ix1, ix2, x):
+        check_nx(self.num["x"], x)
         n = x.shape[0]
         nnz = n * self.num["term"]
         data = np.empty(nnz)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..50838e9 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -10,6 +10,7 @@ from numbers import Integral
 from smt.utils.linear_solvers import get_solver, LinearSolver, VALID_SOLVERS
 from smt.utils.line_search import get_line_search_class, LineSearch, VALID_LINE_SEARCHES
 from smt.utils.caching import cached_operation
+from smt.utils.checks import check_kx
 from smt.surrogate_models.surrogate_model import SurrogateModel
 
 
@@ -483,6 +484,7 @@ class RMTS(SurrogateModel):
         y : np.ndarray
             Derivative values.
         """
+        check_kx(self.num["x"], kx)
         mtx = self._compute_prediction_mtx(x, kx + 1)
         y = mtx.dot(self.sol_coeff)
 
diff --git a/smt/utils/checks.py b/smt/utils/checks.py
index 509ed1e..226b0b4 100644
--- a/smt/utils/checks.py
+++ b/smt/utils/checks.py
@@ -25,6 +25,11 @@ def check_support(sm, name, fail=False):
         raise NotImplementedError("{} does not support {}".format(class_name, name))
 
 
+def check_kx(nx, kx):
+    if not 0 <= kx < nx:
+        raise ValueError("kx must be between 0 and {}".format(nx - 1))
+
+
 def check_nx(nx, x):
     if x.shape[1] != nx:
         if nx == 1:
-- 
2.43.0


From 7818aa7dbe45350cd85715bf2df63f177db81824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 43/46] fix: RBF loaded from the cache had no output
 derivatives

---
 smt/surrogate_models/rbf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index b18390a..ff47d61 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -142,11 +142,13 @@ class RBF(SurrogateModel):
         with cached_operation(inputs, self.options["data_dir"]) as outputs:
             self.rbfc = tmp
 
-            if outputs:
+            if "mtx" in outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
-- 
2.43.0


From 4d238afd5d2793bdbb90861435e3e23664e91cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 44/46] fix: Kriging models kept options changed by training,
 so training again gave another model or failed

---
 smt/surrogate_models/gekpls.py    |  2 +-
 smt/surrogate_models/krg_based.py | 16 +++++++++++++---
 smt/surrogate_models/krg_mgp.py   |  2 +-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/gekpls.py b/smt/surrogate_models/gekpls.py
index 392dedb..86d7b62 100644
--- a/smt/surrogate_models/gekpls.py
+++ b/smt/surrogate_models/gekpls.py
@@ -49,8 +49,8 @@ class GEKPLS(KPLS):
                 self.options["extra_points"],
             )
             if self.options["extra_points"] != 0:
-                self.nt *= self.options["extra_points"] + 1
                 X = np.vstack((X, XX))
+                self.nt = X.shape[0]
                 y = np.vstack((y, yy))
 
         return X, y
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 53e015f..b243f85 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -195,7 +195,17 @@ class KrgBased(SurrogateModel):
         """
         # outputs['sol'] = self.sol
 
-        self._new_train()
+        # training adapts these options to the data and to its own stages: the
+        # values chosen by the user are needed again if the model is retrained
+        names = ["theta0", "noise0", "eval_noise", "n_comp"]
+        options = {name: self.options[name] for name in names if name in self.options}
+        for name in options:
+            self.options[name] = deepcopy(options[name])
+        try:
+            self._new_train()
+        finally:
+            for name in options:
+                self.options[name] = options[name]
 
     def _reduced_likelihood_function(self, theta):
         """
@@ -1161,7 +1171,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1171,7 +1181,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 731b964..0767daa 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -510,7 +510,7 @@ class MGP(KrgBased):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the number of dim %s should be equal to the length of theta0 %s."
-- 
2.43.0


From 287be773954f94e6e355bd6cd83af17dcecab554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 45/46] fix: RMTB and RMTC ignored grad_weight

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 50838e9..e00d8cc 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -168,7 +168,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From 09ee42887ebaea110ef85c91ee5f8d4633f61496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 46/46] fix: RMTB and RMTC could not be trained on outputs that
 are all zero

---
 smt/surrogate_models/rmts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index e00d8cc..cf4d076 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -353,6 +353,10 @@ class RMTS(SurrogateModel):
 
                     iter_count += 1
 
+                if self.mtx is None:
+                    # the initial guess is already the solution
+                    self.mtx = self._opt_hess(sol[:, ind_y], p, yt_dict)
+
     def _solve(self):
         num = self.num
         options = self.options
@@ -364,6 +368,7 @@ class RMTS(SurrogateModel):
         rhs = np.zeros((total_size, num["y"]))
         sol = np.zeros((total_size, num["y"]))
         d_sol = np.zeros((total_size, num["y"]))
+        self.mtx = None
 
         with self.printer._timed_context(
             "Solving initial startup problem (n=%i)" % total_size
-- 
2.43.0

