From 338085d4338feba05987f2dd7fd0f8b7b9904ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 01/38] fix: consistent training data sizes and derivative
 updates

train() takes the problem size from the unnamed group it trains on;
update_training_derivatives looks up the slot it updates;
a rejected update no longer creates an empty data group;
a derivative index out of range is rejected instead of overwriting values.
---
 smt/surrogate_models/surrogate_model.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 32e4e08..bcd52ef 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -151,7 +151,7 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         kx = 0
 
-        if kx not in self.training_points[name]:
+        if kx not in self.training_points.get(name, {}):
             raise ValueError(
                 "The training points must be set first with set_training_values "
                 + "before calling update_training_values."
@@ -197,6 +197,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         if not isinstance(kx, int):
             raise ValueError("kx must be an int")
 
+        if not 0 <= kx < xt.shape[1]:
+            raise ValueError("kx must be between 0 and the number of inputs minus one")
+
         self.training_points[name][kx + 1] = [np.array(xt), np.array(dyt_dxt)]
 
     def update_training_derivatives(
@@ -225,17 +228,17 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         dyt_dxt = ensure_2d_array(dyt_dxt, "dyt_dxt")
 
-        if kx not in self.training_points[name]:
+        if (kx + 1) not in self.training_points.get(name, {}) or kx < 0:
             raise ValueError(
-                "The training points must be set first with set_training_values "
-                + "before calling update_training_values."
+                "The training points must be set first with set_training_derivatives "
+                + "before calling update_training_derivatives."
             )
 
-        xt = self.training_points[name][kx][0]
+        xt = self.training_points[name][kx + 1][0]
         if xt.shape[0] != dyt_dxt.shape[0]:
             raise ValueError(
                 "The number of training points does not agree with the earlier call of "
-                + "set_training_values."
+                + "set_training_derivatives."
             )
 
         self.training_points[name][kx + 1][1] = np.array(dyt_dxt)
@@ -244,7 +247,11 @@ class SurrogateModel(object, metaclass=ABCMeta):
         """
         Train the model
         """
-        n_exact = self.training_points[None][0][0].shape[0]
+        # The problem size is the one of the current (unnamed) training data
+        xt, yt = self.training_points[None][0]
+        self.nt, self.nx = xt.shape
+        self.ny = yt.shape[1]
+        n_exact = self.nt
 
         self.printer.active = self.options["print_global"]
         self.printer._line_break()
-- 
2.43.0


From 965c1420e6330d5441a612e143e0e6afc5cc9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 02/38] fix: RMTS honours grad_weight for training derivatives

---
 smt/surrogate_models/rmts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index de7c46c..4d9db34 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -167,7 +167,7 @@ class RMTS(SurrogateModel):
             if kx == 0:
                 c = 1.0
             else:
-                self.options["grad_weight"] / xlimits.shape[0]
+                c = self.options["grad_weight"] / xlimits.shape[0]
 
             full_jac = self._compute_jac(kx, 0, xt)
             full_jac_dict[kx] = (full_jac, full_jac.T.tocsc(), c)
-- 
2.43.0


From 4407ad213beae57e5042f6235614edeac1cf4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 03/38] fix: training leaves options and data as given and
 ignores earlier trainings

KrgBased restores the user's theta0/noise0/n_comp/eval_noise; MFK with
optim_var restores the training outputs; MFK works with a single level;
RBF, RMTB and RMTC expand scalar options without overwriting them (a model
trained again in another dimension read past d0); RMTS output derivatives use
the Hessian of each output; RBF restores mtx from the cache.
---
 smt/applications/mfk.py           | 26 +++++++++++++++---
 smt/surrogate_models/krg_based.py | 18 ++++++++++---
 smt/surrogate_models/rbf.py       | 11 +++++---
 smt/surrogate_models/rmtb.py      | 10 +++----
 smt/surrogate_models/rmtc.py      |  8 ++----
 smt/surrogate_models/rmts.py      | 45 ++++++++++++-------------------
 6 files changed, 66 insertions(+), 52 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3cb50d9..fdc7c51 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -339,6 +339,10 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
+            y_user = {
+                name: self.training_points[name][0][1]
+                for name in [None] + list(range(self.nlvl - 1))
+            }
             for lvl in range(self.nlvl - 1):
                 self.set_training_values(
                     X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
@@ -347,7 +351,12 @@ class MFK(KrgBased):
                 X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
             )
             self.options["eval_noise"] = False
-            self._new_train()
+            try:
+                self._new_train()
+            finally:
+                # the predicted outputs are only used to train the final model
+                for name in y_user:
+                    self.training_points[name][0][1] = y_user[name]
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
@@ -685,7 +694,9 @@ class MFK(KrgBased):
         else:
             if len(self.options["theta0"]) != d:
                 if len(self.options["theta0"]) == 1:
-                    self.options["theta0"] *= np.ones((self.nlvl, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones(
+                        (self.nlvl, d)
+                    )
                 elif len(self.options["theta0"]) == self.nlvl:
                     self.options["theta0"] = np.array(self.options["theta0"]).reshape(
                         -1, 1
@@ -697,7 +708,9 @@ class MFK(KrgBased):
                         % (len(self.options["theta0"]), d, self.nlvl)
                     )
             else:
-                self.options["theta0"] *= np.ones((self.nlvl, 1))
+                self.options["theta0"] = self.options["theta0"] * np.ones(
+                    (self.nlvl, 1)
+                )
 
         if len(self.options["noise0"]) != self.nlvl:
             if len(self.options["noise0"]) == 1:
@@ -708,12 +721,17 @@ class MFK(KrgBased):
                     % (len(self.options["noise0"]), self.nlvl)
                 )
 
+        # one noise vector per level, also when given as one number per level
+        self.options["noise0"] = [np.atleast_1d(n) for n in self.options["noise0"]]
+
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
                 if len(self.X[i]) == len(np.unique(self.X[i])):
                     if len(self.options["noise0"][i]) != self.nt_all[i]:
                         if len(self.options["noise0"][i]) == 1:
-                            self.options["noise0"][i] *= np.ones(self.nt_all[i])
+                            self.options["noise0"][i] = self.options["noise0"][
+                                i
+                            ] * np.ones(self.nt_all[i])
                         else:
                             raise ValueError(
                                 "for the level of fidelity %s, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 38f750a..ac3e734 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -117,6 +117,7 @@ class KrgBased(SurrogateModel):
         # Sampling points X and y
         X = self.training_points[None][0][0]
         y = self.training_points[None][0][1]
+        self.nt = X.shape[0]
 
         # Compute PLS-coefficients (attr of self) and modified X and y (if GEKPLS is used)
         if self.name not in ["Kriging", "MGP"]:
@@ -195,7 +196,18 @@ class KrgBased(SurrogateModel):
         """
         # outputs['sol'] = self.sol
 
-        self._new_train()
+        # Training adapts some of the options to the data (e.g. one theta0 per
+        # dimension): the values given by the user are restored afterwards.
+        user_options = {
+            name: self.options[name]
+            for name in ("theta0", "noise0", "n_comp", "eval_noise")
+            if name in self.options
+        }
+        self.nb_ill_matrix = 5
+        try:
+            self._new_train()
+        finally:
+            self.options.update(user_options)
 
     def _reduced_likelihood_function(self, theta):
         """
@@ -1153,7 +1165,7 @@ class KrgBased(SurrogateModel):
 
         if len(self.options["theta0"]) != d:
             if len(self.options["theta0"]) == 1:
-                self.options["theta0"] *= np.ones(d)
+                self.options["theta0"] = self.options["theta0"] * np.ones(d)
             else:
                 raise ValueError(
                     "the length of theta0 (%s) should be equal to the number of dim (%s)."
@@ -1163,7 +1175,7 @@ class KrgBased(SurrogateModel):
         if self.options["use_het_noise"] and not self.options["eval_noise"]:
             if len(self.options["noise0"]) != self.nt:
                 if len(self.options["noise0"]) == 1:
-                    self.options["noise0"] *= np.ones(self.nt)
+                    self.options["noise0"] = self.options["noise0"] * np.ones(self.nt)
                 else:
                     raise ValueError(
                         "for the heteroscedastic case, the length of noise0 (%s) should be equal to the number of observations (%s)."
diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index dc0f3da..aee35b7 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -60,9 +60,10 @@ class RBF(SurrogateModel):
         options = self.options
 
         nx = self.training_points[None][0][0].shape[1]
-        if isinstance(options["d0"], (int, float)):
-            options["d0"] = [options["d0"]] * nx
-        options["d0"] = np.array(np.atleast_1d(options["d0"]), dtype=float)
+        # a scalar d0 holds for all dimensions
+        d0 = np.array(
+            np.broadcast_to(np.atleast_1d(options["d0"]), (nx,)), dtype=float
+        )
 
         self.printer.max_print_depth = options["max_print_depth"]
 
@@ -92,7 +93,7 @@ class RBF(SurrogateModel):
             nt,
             num["dof"],
             options["poly_degree"],
-            options["d0"],
+            d0,
             xt.flatten(),
         )
 
@@ -141,9 +142,11 @@ class RBF(SurrogateModel):
 
             if outputs:
                 self.sol = outputs["sol"]
+                self.mtx = outputs["mtx"]
             else:
                 self._new_train()
                 outputs["sol"] = self.sol
+                outputs["mtx"] = self.mtx
 
     def _predict_values(self, x):
         """
diff --git a/smt/surrogate_models/rmtb.py b/smt/surrogate_models/rmtb.py
index f0b6b19..639a01f 100644
--- a/smt/surrogate_models/rmtb.py
+++ b/smt/surrogate_models/rmtb.py
@@ -59,22 +59,18 @@ class RMTB(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
-        for name in ["smoothness", "num_ctrl_pts", "order"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
-
         self.printer.max_print_depth = options["max_print_depth"]
 
         num = {}
         # number of inputs and outputs
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
-        num["order_list"] = np.array(options["order"], int)
+        num["order_list"] = self._per_dimension("order", nx).astype(int)
         num["order"] = np.prod(num["order_list"])
-        num["ctrl_list"] = np.array(options["num_ctrl_pts"], int)
+        num["ctrl_list"] = self._per_dimension("num_ctrl_pts", nx).astype(int)
         num["ctrl"] = np.prod(num["ctrl_list"])
         num["elem_list"] = np.array(num["ctrl_list"] - num["order_list"] + 1, int)
+        num["smoothness"] = self._per_dimension("smoothness", nx)
         num["elem"] = np.prod(num["elem_list"])
         num["knots_list"] = num["order_list"] + num["ctrl_list"]
         num["knots"] = np.sum(num["knots_list"])
diff --git a/smt/surrogate_models/rmtc.py b/smt/surrogate_models/rmtc.py
index 7a43602..d63b477 100644
--- a/smt/surrogate_models/rmtc.py
+++ b/smt/surrogate_models/rmtc.py
@@ -52,11 +52,6 @@ class RMTC(RMTS):
         options = self.options
         nx = self.training_points[None][0][0].shape[1]
 
-        for name in ["smoothness", "num_elements"]:
-            if isinstance(options[name], (int, float)):
-                options[name] = [options[name]] * nx
-            options[name] = np.atleast_1d(options[name])
-
         self.printer.max_print_depth = options["max_print_depth"]
 
         num = {}
@@ -64,7 +59,8 @@ class RMTC(RMTS):
         num["x"] = self.training_points[None][0][0].shape[1]
         num["y"] = self.training_points[None][0][1].shape[1]
         # number of elements
-        num["elem_list"] = np.array(options["num_elements"], int)
+        num["elem_list"] = self._per_dimension("num_elements", nx).astype(int)
+        num["smoothness"] = self._per_dimension("smoothness", nx)
         num["elem"] = np.prod(num["elem_list"])
         # number of terms/coefficients per element
         num["term_list"] = 4 * np.ones(num["x"], int)
diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index 4d9db34..fa21e41 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -128,6 +128,10 @@ class RMTS(SurrogateModel):
         supports["derivatives"] = True
         supports["output_derivatives"] = True
 
+    def _per_dimension(self, name, nx):
+        # Value of an option in each dimension: a scalar holds for all of them
+        return np.array(np.broadcast_to(np.atleast_1d(self.options[name]), (nx,)))
+
     def _setup_hessian(self):
         diag = np.ones(self.num["dof"])
         arange = np.arange(self.num["dof"])
@@ -219,7 +223,7 @@ class RMTS(SurrogateModel):
             full_hess += sq_mtx[kx] * (
                 elem_vol
                 / total_vol
-                * self.options["smoothness"][kx]
+                * num["smoothness"][kx]
                 / (xlimits[kx, 1] - xlimits[kx, 0]) ** 4
             )
 
@@ -291,7 +295,7 @@ class RMTS(SurrogateModel):
             yt_dict[kx] = yt[:, ind_y]
         return yt_dict
 
-    def _run_newton_solver(self, sol):
+    def _run_newton_solver(self, sol, p, maxiter):
         num = self.num
         options = self.options
 
@@ -302,7 +306,6 @@ class RMTS(SurrogateModel):
         rhs = np.zeros((total_size, num["y"]))
         d_sol = np.zeros((total_size, num["y"]))
 
-        p = self.options["approx_order"]
         for ind_y in range(rhs.shape[1]):
 
             with self.printer._timed_context("Solving for output %i" % ind_y):
@@ -318,7 +321,7 @@ class RMTS(SurrogateModel):
 
                 iter_count = 0
                 while (
-                    iter_count < options["nonlinear_maxiter"]
+                    iter_count < maxiter
                     and norm > options["solver_tolerance"]
                 ):
                     with self.printer._timed_context():
@@ -348,8 +351,6 @@ class RMTS(SurrogateModel):
                         % (iter_count, ind_y, norm, fval)
                     )
 
-                    self.mtx = mtx
-
                     iter_count += 1
 
     def _solve(self):
@@ -368,21 +369,15 @@ class RMTS(SurrogateModel):
             "Solving initial startup problem (n=%i)" % total_size
         ):
 
-            approx_order = options["approx_order"]
-            nonlinear_maxiter = options["nonlinear_maxiter"]
-            options["approx_order"] = 2
-            options["nonlinear_maxiter"] = 1
-
-            self._run_newton_solver(sol)
-
-            options["approx_order"] = approx_order
-            options["nonlinear_maxiter"] = nonlinear_maxiter
+            self._run_newton_solver(sol, 2, 1)
 
         with self.printer._timed_context(
             "Solving nonlinear problem (n=%i)" % total_size
         ):
 
-            self._run_newton_solver(sol)
+            self._run_newton_solver(
+                sol, options["approx_order"], options["nonlinear_maxiter"]
+            )
 
         return sol
 
@@ -435,7 +430,6 @@ class RMTS(SurrogateModel):
             if outputs:
                 self.sol_coeff = outputs["sol_coeff"]
                 self.sol = outputs["sol"]
-                self.mtx = outputs["mtx"]
                 self.full_dof2coeff = outputs["full_dof2coeff"]
                 self.full_hess = outputs["full_hess"]
                 self.full_jac_dict = outputs["full_jac_dict"]
@@ -443,7 +437,6 @@ class RMTS(SurrogateModel):
                 self._new_train()
                 outputs["sol_coeff"] = self.sol_coeff
                 outputs["sol"] = self.sol
-                outputs["mtx"] = self.mtx
                 outputs["full_dof2coeff"] = self.full_dof2coeff
                 outputs["full_hess"] = self.full_hess
                 outputs["full_jac_dict"] = self.full_jac_dict
@@ -543,9 +536,7 @@ class RMTS(SurrogateModel):
         # dy_dyt = dy_dw * (dR_dw)^{-1} * dR_dyt
 
         n = x.shape[0]
-        nw = self.mtx.shape[0]
-        nx = x.shape[1]
-        ny = self.sol.shape[1]
+        nw, ny = self.sol.shape
 
         p = self.options["approx_order"]
 
@@ -554,25 +545,23 @@ class RMTS(SurrogateModel):
             dy_dw = dy_dw * self.full_dof2coeff
         dy_dw = dy_dw.todense()
 
-        dR_dw = self.mtx
-
         dy_dyt = {}
         for kx in self.training_points[None]:
             nt = self.training_points[None][kx][0].shape[0]
 
             dR_dyt = np.zeros((nw, nt, ny))
+            dw_dyt = np.zeros((nw, nt, ny))
             for ind_y in range(ny):
                 yt_dict = self._get_yt_dict(ind_y)
                 dR_dyt[:, :, ind_y] = self._opt_dgrad_dyt(
                     self.sol[:, ind_y], p, yt_dict, kx
                 )
+                dR_dw = self._opt_hess(self.sol[:, ind_y], p, yt_dict)
 
-            solver = get_solver(self.options["derivative_solver"])
-            solver._setup(dR_dw, self.printer)
+                solver = get_solver(self.options["derivative_solver"])
+                solver._setup(dR_dw, self.printer)
 
-            dw_dyt = np.zeros((nw, nt, ny))
-            for ind_t in range(nt):
-                for ind_y in range(ny):
+                for ind_t in range(nt):
                     solver._solve(
                         dR_dyt[:, ind_t, ind_y], dw_dyt[:, ind_t, ind_y], ind_y=ind_y
                     )
-- 
2.43.0


From 2bafd9372e198ce40bf7147492ea0ecfa42d0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 04/38] fix: QP derivatives for several outputs

---
 smt/surrogate_models/qp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/qp.py b/smt/surrogate_models/qp.py
index d8492e4..027ae66 100644
--- a/smt/surrogate_models/qp.py
+++ b/smt/surrogate_models/qp.py
@@ -116,19 +116,18 @@ class QP(SurrogateModel):
         dim = self.nx
 
         linear_coef = self.coef[1 + kx, :]
-        quad_coef = 2 * self.coef[1 + dim + kx, :] * x[:, kx]
-        neval = np.size(quad_coef, 0)
-        cross_coef = np.zeros(neval)
+        quad_coef = 2 * np.outer(x[:, kx], self.coef[1 + dim + kx, :])
+        cross_coef = np.zeros(quad_coef.shape)
 
         for i in range(dim):
             if i > kx:
                 k = int(
                     2 * dim + 2 + (kx) * dim - ((kx + 1) * (kx)) / 2 + (i - (kx + 2))
                 )
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
             elif i < kx:
                 k = int(2 * dim + 2 + (i) * dim - ((i + 1) * (i)) / 2 + (kx - (i + 2)))
-                cross_coef += self.coef[k, :] * x[:, i]
+                cross_coef += np.outer(x[:, i], self.coef[k, :])
 
         y = (linear_coef + quad_coef + cross_coef).reshape((x.shape[0], self.ny))
         return y
-- 
2.43.0


From dea2c68d850a4b7a8d444a4fb39bdc1806e22371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 05/38] fix: GENN derivatives for single points and several
 outputs

---
 smt/utils/neural_net/fwd_prop.py | 3 ---
 smt/utils/neural_net/model.py    | 3 ++-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/smt/utils/neural_net/fwd_prop.py b/smt/utils/neural_net/fwd_prop.py
index 28cc49e..109da8e 100644
--- a/smt/utils/neural_net/fwd_prop.py
+++ b/smt/utils/neural_net/fwd_prop.py
@@ -198,7 +198,4 @@ def L_grads_forward(X, parameters, activations):
         # Store partial
         JL[:, j, :] = A_prime_j
 
-    if m == 1:
-        JL = JL[:, :, 0]
-
     return JL, J_caches
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 3afba81..5510674 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -434,9 +434,10 @@ class Model(object):
         Y_norm, _ = L_model_forward(X_norm, self.parameters, self.activations)
         J_norm, _ = L_grads_forward(X_norm, self.parameters, self.activations)
 
-        J = (J_norm * sigma_y / sigma_x).reshape(
+        J_norm = J_norm.reshape(
             self.number_of_outputs, self.number_of_inputs, number_of_examples
         )
+        J = J_norm * (np.reshape(sigma_y, (-1, 1, 1)) / np.reshape(sigma_x, (1, -1, 1)))
 
         return J
 
-- 
2.43.0


From 9322d1b6d10fbb6ac513ec0f5113c99e10981034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 06/38] fix: GENN trains without derivatives, honours
 beta1/beta2, gamma and seed, and keeps its data and options

---
 smt/surrogate_models/genn.py       | 28 +++++++++++++---------------
 smt/utils/neural_net/activation.py |  4 +---
 smt/utils/neural_net/bwd_prop.py   | 14 ++++++++++----
 smt/utils/neural_net/data.py       |  4 ++--
 smt/utils/neural_net/model.py      |  6 +++++-
 smt/utils/neural_net/optimizer.py  |  8 +++-----
 6 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index ac20253..839b875 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -87,6 +87,10 @@ def smt_to_genn(training_points):
     X = xt
     Y = yt
 
+    # Without training derivatives, there is no Jacobian
+    if not any(k + 1 in training_points[None] for k in range(n_x)):
+        return X.T, Y.T, None
+
     # Loop to retrieve each partial derivative from SMT training_points
     J = np.zeros((m, n_x, n_y))
     for k in range(0, n_x):
@@ -99,7 +103,7 @@ def smt_to_genn(training_points):
         assert dyt_dxt.shape[1] == n_y
 
         # Assert that derivatives provided are for the same training points
-        assert xt.all() == X.all()
+        assert np.array_equal(xt, X)
 
         # Assign training derivative but transpose to match neural net implementation
         J[:, k, :] = dyt_dxt
@@ -166,16 +170,13 @@ class GENN(SurrogateModel):
         # Convert training data to format expected by neural net module
         X, Y, J = smt_to_genn(self.training_points)
 
-        # If there are no training derivatives, turn off gradient-enhancement
-        if type(J) == np.ndarray and J.size == 0:
-            self.options["gamma"] = 0.0
-
         # Get hyperparameters from SMT API
         alpha = self.options["alpha"]
         beta1 = self.options["beta1"]
         beta2 = self.options["beta2"]
         lambd = self.options["lambd"]
-        gamma = self.options["gamma"]
+        # If there are no training derivatives, turn off gradient-enhancement
+        gamma = self.options["gamma"] if J is not None else 0.0
         deep = self.options["deep"]
         wide = self.options["wide"]
         mini_batch_size = self.options["mini_batch_size"]
@@ -189,6 +190,8 @@ class GENN(SurrogateModel):
         n_y = Y.shape[0]
 
         # Train neural net
+        if seed is not None:
+            np.random.seed(seed)
         self.model = Model.initialize(n_x, n_y, deep, wide)
         self.model.train(
             X=X,
@@ -239,21 +242,16 @@ class GENN(SurrogateModel):
         :param yv: np.ndarray[n, 1], y validation response
         :param dyv_dxv: np.ndarray[n, ny], dydx validation derivatives
         """
-        # Store current training points
-        training_points = self.training_points
-
-        # Replace training points with test (validation) points
-        load_smt_data(self, xv, yv, dyv_dxv)
+        # Load test (validation) points apart from the training points
+        validation = GENN()
+        load_smt_data(validation, xv, yv, dyv_dxv)
 
         # Convert from SMT format to a more convenient format for GENN
-        X, Y, J = smt_to_genn(self.training_points)
+        X, Y, J = smt_to_genn(validation.training_points)
 
         # Generate goodness of fit plots
         self.model.goodness_of_fit(X, Y)
 
-        # Restore training points
-        self.training_points = training_points
-
 
 def run_example(is_gradient_enhancement=True):  # pragma: no cover
     """Test and demonstrate GENN using a 1D example"""
diff --git a/smt/utils/neural_net/activation.py b/smt/utils/neural_net/activation.py
index 78eb14f..483e4a1 100644
--- a/smt/utils/neural_net/activation.py
+++ b/smt/utils/neural_net/activation.py
@@ -61,9 +61,7 @@ class Sigmoid(Activation):
 
 class Tanh(Activation):
     def evaluate(self, z):
-        numerator = np.exp(z) - np.exp(-z)
-        denominator = np.exp(z) + np.exp(-z)
-        a = np.divide(numerator, denominator)
+        a = np.tanh(z)
         return a
 
     def first_derivative(self, z):
diff --git a/smt/utils/neural_net/bwd_prop.py b/smt/utils/neural_net/bwd_prop.py
index 7af5550..d6ae7e5 100644
--- a/smt/utils/neural_net/bwd_prop.py
+++ b/smt/utils/neural_net/bwd_prop.py
@@ -39,9 +39,11 @@ def initialize_back_prop(AL, Y, AL_prime, Y_prime):
     n_y, _ = AL.shape  # number layers, number examples
     Y = Y.reshape(AL.shape)
     dAL = AL - Y  # derivative of loss function w.r.t. to activations: dAL = d(L)/dAL
-    dAL_prime = (
-        AL_prime - Y_prime
-    )  # derivative of loss function w.r.t. to partials: dAL_prime = d(L)/d(AL_prime)
+    if Y_prime is None:  # no gradient-enhancement
+        dAL_prime = np.zeros(AL_prime.shape)
+    else:
+        # derivative of loss function w.r.t. to partials: dAL_prime = d(L)/d(AL_prime)
+        dAL_prime = AL_prime - Y_prime
 
     return dAL, dAL_prime
 
@@ -142,7 +144,7 @@ def linear_activation_backward(dA, dA_prime, cache, J_cache, lambd, gamma):
                 * np.sum(dA_prime_j * G_prime_prime * Z_prime_j, axis=1, keepdims=True)
             )
             dA_prev += gamma * np.dot(W.T, dA_prime_j * G_prime_prime * Z_prime_j)
-            dA_prime_prev[:, j, :] = gamma * np.dot(W.T, dA_prime_j * G_prime)
+            dA_prime_prev[:, j, :] = np.dot(W.T, dA_prime_j * G_prime)
 
     return dA_prev, dW, db, dA_prime_prev
 
@@ -206,6 +208,10 @@ def L_model_backward(AL, Y, AL_prime, Y_prime, caches, J_caches, lambd, gamma):
     _, m = AL.shape
     Y = Y.reshape(AL.shape)  # after this line, Y is the same shape as AL
 
+    # Same bounds as in the cost function
+    lambd = max(0.0, lambd)
+    gamma = min(max(0.0, gamma), 1.0)
+
     # Initializing the back propagation
     dA, dA_prime = initialize_back_prop(AL, Y, AL_prime, Y_prime)
 
diff --git a/smt/utils/neural_net/data.py b/smt/utils/neural_net/data.py
index 91f058c..78bc1f2 100644
--- a/smt/utils/neural_net/data.py
+++ b/smt/utils/neural_net/data.py
@@ -179,7 +179,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     sigma_x = np.ones((n_x, 1))
     for i in range(0, n_x):
         mu_x[i] = np.mean(X[i])
-        sigma_x[i] = np.std(X[i])
+        sigma_x[i] = np.std(X[i]) or 1.0  # constant data are only centred
         X_norm[i] = (X[i] - mu_x[i]) / sigma_x[i]
 
     # Normalize outputs
@@ -190,7 +190,7 @@ def normalize_data(X, Y, J=None, is_classification=False):
     else:
         for i in range(0, n_y):
             mu_y[i] = np.mean(Y[i])
-            sigma_y[i] = np.std(Y[i])
+            sigma_y[i] = np.std(Y[i]) or 1.0
             Y_norm[i] = (Y[i] - mu_y[i]) / sigma_y[i]
 
     # Normalize partials
diff --git a/smt/utils/neural_net/model.py b/smt/utils/neural_net/model.py
index 5510674..bbc70d5 100644
--- a/smt/utils/neural_net/model.py
+++ b/smt/utils/neural_net/model.py
@@ -98,7 +98,11 @@ class Model(object):
     def training_data(self):
         X = self._X_norm * self._scale_factors["x"][1] + self._scale_factors["x"][0]
         Y = self._Y_norm * self._scale_factors["y"][1] + self._scale_factors["y"][0]
-        J = self._J_norm * self._scale_factors["y"][1] / self._scale_factors["x"][1]
+        J = self._J_norm
+        if J is not None:
+            sigma_x = self._scale_factors["x"][1]
+            sigma_y = self._scale_factors["y"][1]
+            J = J * (np.reshape(sigma_y, (-1, 1, 1)) / np.reshape(sigma_x, (1, -1, 1)))
         return X, Y, J
 
     def __init__(self, **kwargs):
diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 4d36f8f..97365b8 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -267,10 +267,8 @@ class Adam(Optimizer):
         self.v = None
         self.s = None
 
-    def _update_current_design(self, learning_rate=0.05, beta_1=0.9, beta_2=0.99):
+    def _update_current_design(self, learning_rate=0.05):
         """Adam update"""
-        self.beta_1 = beta_1
-        self.beta_2 = beta_2
         t = self._current_iteration + 1
 
         if self.v is None:
@@ -286,9 +284,9 @@ class Adam(Optimizer):
 
         for key in self._current_design.keys():
             self.v[key] = (
-                self.beta_1 * self.v[key] + (1.0 - beta_1) * self._search_direction[key]
+                self.beta_1 * self.v[key] + (1.0 - self.beta_1) * self._search_direction[key]
             )
-            self.s[key] = self.beta_2 * self.s[key] + (1.0 - beta_2) * np.square(
+            self.s[key] = self.beta_2 * self.s[key] + (1.0 - self.beta_2) * np.square(
                 self._search_direction[key]
             )
             v_corrected = self.v[key] / (1.0 - self.beta_1 ** t)
-- 
2.43.0


From 84597b9d521e034ca6ad5a60ebc5070f024c3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 07/38] fix: IDW weights neither overflow nor all vanish

---
 smt/src/idw/idw.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/smt/src/idw/idw.cpp b/smt/src/idw/idw.cpp
index 089be6c..dac6cc5 100644
--- a/smt/src/idw/idw.cpp
+++ b/smt/src/idw/idw.cpp
@@ -39,7 +39,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
   int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
+    min_val = 0.;
     min_loc = 0;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
@@ -47,13 +47,14 @@ void IDW::compute_jac(int n, double* x, double* jac) {
         d = x[i * nx + ix] - xt[it * nx + ix];
         r2 += pow(d, 2);
       }
-      if (r2 < min_val) {
+      if (it == 0 || r2 < min_val) {
         min_val = r2;
         min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
+      w[it] = r2;
     }
 
+    // The weights are relative to the nearest point so that they neither overflow nor all vanish
     if (min_val == 0.) {
       for (int it = 0; it < nt; it++) {
         jac[i * nt + it] = 0.;
@@ -63,6 +64,7 @@ void IDW::compute_jac(int n, double* x, double* jac) {
     else {
       sum = 0;
       for (int it = 0; it < nt; it++) {
+        w[it] = pow(w[it] / min_val, -p / 2.);
         sum += w[it];
       }
       for (int it = 0; it < nt; it++) {
@@ -74,26 +76,19 @@ void IDW::compute_jac(int n, double* x, double* jac) {
 
 void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
   double r2, dr2_dx, min_val, sum, dsum_dx, d;
-  int min_loc;
 
   for (int i = 0; i < n; i++) {
-    min_val = 1.;
-    min_loc = 0;
+    min_val = 0.;
     for (int it = 0; it < nt; it++) {
       r2 = 0.;
       for (int ix = 0; ix < nx; ix++) {
         d = x[i * nx + ix] - xt[it * nx + ix];
         r2 += pow(d, 2);
       }
-      d = x[i * nx + kx] - xt[it * nx + kx];
-      dr2_dx = 2. * d;
-
-      if (r2 < min_val) {
+      if (it == 0 || r2 < min_val) {
         min_val = r2;
-        min_loc = it;
       }
-      w[it] = pow(r2, -p / 2.);
-      dw_dx[it] = -p / 2. * pow(r2, -p / 2. - 1.) * dr2_dx;
+      w[it] = r2;
     }
 
     if (min_val == 0.) {
@@ -105,6 +100,11 @@ void IDW::compute_jac_derivs(int n, int kx, double* x, double* jac) {
       sum = 0;
       dsum_dx = 0;
       for (int it = 0; it < nt; it++) {
+        d = x[i * nx + kx] - xt[it * nx + kx];
+        dr2_dx = 2. * d / min_val;
+        r2 = w[it] / min_val;
+        w[it] = pow(r2, -p / 2.);
+        dw_dx[it] = -p / 2. * pow(r2, -p / 2. - 1.) * dr2_dx;
         sum += w[it];
         dsum_dx += dw_dx[it];
       }
-- 
2.43.0


From f68fe76d64b74d75795f93b5f79d9683e0b7c78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 08/38] fix: kriging trains on outputs that its trend
 reproduces

---
 smt/surrogate_models/krg_based.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index ac3e734..4cbd15a 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -310,8 +310,9 @@ class KrgBased(SurrogateModel):
             p = self.p
             q = self.q
         sigma2 = (rho ** 2.0).sum(axis=0) / (self.nt - p - q)
+        # sigma2 is null when the regression part alone reproduces the outputs
         reduced_likelihood_function_value = -(self.nt - p - q) * np.log10(
-            sigma2.sum()
+            max(sigma2.sum(), np.finfo(float).tiny)
         ) - self.nt * np.log10(detR)
         par["sigma2"] = sigma2 * self.y_std ** 2.0
         par["beta"] = beta
@@ -383,14 +384,17 @@ class KrgBased(SurrogateModel):
         """
         red, par = self._reduced_likelihood_function(theta)
 
+        nb_theta = len(theta)
+        grad_red = np.zeros(nb_theta)
+        if not par:
+            # The likelihood could not be evaluated
+            return np.atleast_2d(grad_red).T, par
+
         C = par["C"]
         gamma = par["gamma"]
         Q = par["Q"]
         G = par["G"]
-        sigma_2 = par["sigma2"]
-
-        nb_theta = len(theta)
-        grad_red = np.zeros(nb_theta)
+        sigma_2 = np.maximum(par["sigma2"], np.finfo(float).tiny)
 
         dr_all = []
         tr_all = []
-- 
2.43.0


From b5813c5930fe1a1ac1cd83fdf000beed94e68997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 09/38] fix: RMTS derivatives outside the limits without
 extrapolation

Without extrapolation predictions are those of the nearest boundary point,
so derivatives with respect to an input beyond its limits are zero.
---
 smt/surrogate_models/rmts.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/rmts.py b/smt/surrogate_models/rmts.py
index fa21e41..c9b04ac 100644
--- a/smt/surrogate_models/rmts.py
+++ b/smt/surrogate_models/rmts.py
@@ -505,7 +505,7 @@ class RMTS(SurrogateModel):
         # f and all derivatives evaluated at x1,b2,b3,x4 change with x1.
         # The extrapolation function is non-differentiable at boundaries:
         # i.e., where x_k = a_k or x_k = b_k for at least one k.
-        if options["extrapolate"]:
+        if options["extrapolate"] or kx != 0:
 
             # First we evaluate the vector pointing to each evaluation points
             # from the nearest point on the domain, in a matrix called dx.
@@ -516,6 +516,8 @@ class RMTS(SurrogateModel):
 
             isexternal = np.array(np.array(dx, bool), float)
 
+        if options["extrapolate"]:
+
             for ix in range(num["x"]):
                 # Now we compute the first order term where we have a
                 # derivative times (x_k - b_k) or (x_k - a_k).
@@ -529,6 +531,11 @@ class RMTS(SurrogateModel):
 
                 data += data_tmp
 
+        elif kx != 0:
+            # Without extrapolation, the model is constant with respect to
+            # x_kx beyond the bounds of x_kx.
+            data *= 1 - isexternal[:, kx - 1]
+
         mtx = scipy.sparse.csc_matrix((data, (rows, cols)), shape=(n, num["coeff"]))
         return mtx
 
-- 
2.43.0


From 57b2ac43f285dbdecf8224339f92194d6b9496ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 10/38] fix: MFK derivatives with a linear trend

Only the trend term of the differentiated input has a non-zero derivative.
---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index fdc7c51..1f6f0cf 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -599,7 +599,7 @@ class MFK(KrgBased):
             df = np.zeros([n_eval, 1])
         elif self.options["poly"] == "linear":
             df = np.zeros((n_eval, self.nx + 1))
-            df[:, 1:] = 1
+            df[:, kx + 1] = 1
         else:
             raise ValueError(
                 "The derivative is only available for ordinary kriging or "
-- 
2.43.0


From c8adfd741ee7b1f77958ef2facf76beb7c73a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 11/38] fix: kriging variance with a linear or quadratic trend

The triangular solve with the transposed (lower) factor G used its upper
part only, so the trend uncertainty was wrong for more than one trend term.
---
 smt/surrogate_models/krg_based.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 4cbd15a..d923a9d 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -767,6 +767,7 @@ class KrgBased(SurrogateModel):
             self.optimal_par["G"].T,
             np.dot(self.optimal_par["Ft"].T, rt)
             - self._regression_types[self.options["poly"]](x).T,
+            lower=True,
         )
 
         A = self.optimal_par["sigma2"]
-- 
2.43.0


From ccc39a31691b2d495a96357587323512358c1056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 12/38] fix: MFK variances of three or more levels

The mean of the intermediate levels was never stored, so the variance of
the third and later levels was computed from a zero mean and did not vanish
at the training points. Variances are also clipped at zero as in KrgBased.
---
 smt/applications/mfk.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 1f6f0cf..3e89477 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -531,7 +531,10 @@ class MFK(KrgBased):
             G = self.optimal_par[i]["G"]
             beta = self.optimal_par[i]["beta"]
 
+            gamma = self.optimal_par[i]["gamma"]
             # scaled predictor
+            mu[:, i] = (np.dot(f.T, beta) + np.dot(r_, gamma)).ravel()
+
             sigma2 = self.optimal_par[i]["sigma2"] / self.y_std ** 2
             q = self.q_all[i]
             u_ = solve_triangular(G.T, f - np.dot(Ft.T, r_t), lower=True)
@@ -561,6 +564,10 @@ class MFK(KrgBased):
                     + (u_ ** 2).sum(axis=0)
                 )
 
+        # Mean Squared Error might be slightly negative depending on
+        # machine precision: force to zero!
+        MSE[MSE < 0.0] = 0.0
+
         # scaled predictor
         MSE *= self.y_std ** 2
 
-- 
2.43.0


From f18356932c16cc62d54ef78b2b878060b6db7443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 13/38] fix: an input index out of range is refused by
 predict_derivatives (C10)

---
 smt/surrogate_models/surrogate_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index bcd52ef..e9c8ed8 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -335,6 +335,8 @@ class SurrogateModel(object, metaclass=ABCMeta):
         check_support(self, "derivatives")
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
+        if not 0 <= kx < self.nx:
+            raise ValueError("kx must be between 0 and the number of inputs minus one")
         n = x.shape[0]
         self.printer.active = (
             self.options["print_global"] and self.options["print_prediction"]
-- 
2.43.0


From 4537d14a9d58f019290ce4b1d541230ac07e1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 14/38] fix: MFK declares that variance derivatives are not
 available (C10)

---
 smt/applications/mfk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 3e89477..0068a49 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -122,6 +122,8 @@ class MFK(KrgBased):
             values=(True, False),
             desc="If True, the variance at HF samples is forced to zero",
         )
+        # not implemented for multi-fidelity models
+        self.supports["variance_derivatives"] = False
         self.name = "MFK"
 
     def _differences(self, X, Y):
-- 
2.43.0


From 96722196e41cd17acd185ae1d4f2365a253fbcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 15/38] fix: MGP capability flags, and its variance with a
 linear trend (C10, C08)

---
 smt/surrogate_models/krg_mgp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 8040e98..15c51cd 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -36,6 +36,9 @@ class MGP(KrgBased):
         )
         self.options["hyper_opt"] = "TNC"
         self.options["corr"] = "act_exp"
+        # the derivatives of the act_exp kernel are not available
+        self.supports["derivatives"] = False
+        self.supports["variance_derivatives"] = False
 
     def _componentwise_distance(self, dx, small=False, opt=0):
         """
@@ -349,7 +352,7 @@ class MGP(KrgBased):
 
         F_Rinv_r = np.dot(Ft.T, rt)
 
-        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r)
+        u_ = linalg.solve_triangular(G.T, f - F_Rinv_r, lower=True)
 
         MSE = self.optimal_par["sigma2"] * (
             1.0 - (rt ** 2.0).sum(axis=0) + (u_ ** 2.0).sum(axis=0)
-- 
2.43.0


From bcc205ba14459425d8eef562f197bb8e1d738540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 16/38] fix: a mixed-integer model declares its own
 capabilities (C10)

---
 smt/applications/mixed_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index ba5d4c2..7665e11 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -272,7 +272,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._xtypes = xtypes
         self._xlimits = xlimits
         self._input_in_folded_space = input_in_folded_space
-        self.supports = self._surrogate.supports
+        self.supports["variances"] = self._surrogate.supports["variances"]
         self.options["print_global"] = False
 
     @property
-- 
2.43.0


From 086b665f529d78475789daf48cc2ae4127e327fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 17/38] fix: casting selects exactly one category and
 set_training_values passes the group name (C11, C12)

---
 smt/applications/mixed_integer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index 7665e11..c4cd302 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -125,12 +125,11 @@ def cast_to_discrete_values(xtypes, x):
             x_col += 1
 
         elif isinstance(xtyp, tuple) and xtyp[0] == ENUM:
-            # Categorial : The biggest level is selected.
+            # Categorial : The biggest level (the first one of them) is selected.
             xenum = ret[:, x_col : x_col + xtyp[1]]
-            maxx = np.max(xenum, axis=1).reshape((-1, 1))
-            mask = xenum < maxx
-            xenum[mask] = 0
-            xenum[~mask] = 1
+            imax = np.argmax(xenum, axis=1)
+            xenum[:, :] = 0
+            xenum[np.arange(xenum.shape[0]), imax] = 1
             x_col = x_col + xtyp[1]
         else:
             _raise_value_error(xtyp)
@@ -288,7 +287,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
             xt2 = unfold_with_enum_mask(self._xtypes, xt)
         else:
             xt2 = xt
-        super().set_training_values(xt2, yt)
+        super().set_training_values(xt2, yt, name)
         self._surrogate.set_training_values(xt2, yt, name)
 
     def update_training_values(self, yt, name=None):
-- 
2.43.0


From 4602cb8bb6cfeec5cbafcd44f1d16a446fb5ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 18/38] fix: LHS of one or two points and of one variable for
 every criterion (C13)

---
 smt/sampling_methods/lhs.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/smt/sampling_methods/lhs.py b/smt/sampling_methods/lhs.py
index 3742894..b5ac527 100644
--- a/smt/sampling_methods/lhs.py
+++ b/smt/sampling_methods/lhs.py
@@ -64,14 +64,21 @@ class LHS(ScaledSamplingMethod):
         else:
             self.random_state = np.random.RandomState()
 
-        if self.options["criterion"] != "ese":
+        criterion = self.options["criterion"]
+        # nothing to optimize: a single point has no distance to the others and
+        # one variable or two points leave no choice of the correlations
+        if nt == 1 and criterion in ("centermaximin", "cm"):
+            criterion = "center"
+        elif nt == 1 and criterion not in ("center", "c"):
+            criterion = None
+        elif criterion in ("correlation", "corr") and (nx == 1 or nt == 2):
+            criterion = None
+
+        if criterion != "ese":
             return lhs(
-                nx,
-                samples=nt,
-                criterion=self.options["criterion"],
-                random_state=self.random_state,
+                nx, samples=nt, criterion=criterion, random_state=self.random_state
             )
-        elif self.options["criterion"] == "ese":
+        else:
             return self._ese(nx, nt)
 
     def _maximinESE(
@@ -308,11 +315,6 @@ class LHS(ScaledSamplingMethod):
         outer_loop = min(int(1.5 * dim), 30)
         inner_loop = min(20 * dim, 100)
 
-        D0 = pdist(P0)
-        R0 = np.corrcoef(P0)
-        corr0 = np.max(np.abs(R0[R0 != 1]))
-        phip0 = self._PhiP(P0)
-
         P, historic = self._maximinESE(
             P0,
             outer_loop=outer_loop,
-- 
2.43.0


From 5195719e55a25038bf43f5b2893525a05ee878d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 19/38] fix: FullFactorial leaves the given weights unchanged
 and accepts integers (C14)

---
 smt/sampling_methods/full_factorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/sampling_methods/full_factorial.py b/smt/sampling_methods/full_factorial.py
index b6a3856..0fc63bb 100644
--- a/smt/sampling_methods/full_factorial.py
+++ b/smt/sampling_methods/full_factorial.py
@@ -48,7 +48,7 @@ class FullFactorial(ScaledSamplingMethod):
             weights = np.ones(nx) / nx
         else:
             weights = np.atleast_1d(self.options["weights"])
-            weights /= np.sum(weights)
+            weights = weights / np.sum(weights)
 
         num_list = np.ones(nx, int)
         while np.prod(num_list) < nt:
-- 
2.43.0


From 61c6af8ee6b53c632ae361ef6643a3ff925c610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 20/38] fix: EGO proposes admissible points and evaluates only
 pending ones (C16, C17)

---
 smt/applications/ego.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/smt/applications/ego.py b/smt/applications/ego.py
index bfecfad..b6fee9f 100644
--- a/smt/applications/ego.py
+++ b/smt/applications/ego.py
@@ -148,6 +148,7 @@ class EGO(SurrogateBasedApplication):
         n_parallel = self.options["n_parallel"]
 
         for k in range(n_iter):
+            n_data = len(y_data)
 
             # Virtual enrichement loop
             for p in range(n_parallel):
@@ -174,11 +175,13 @@ class EGO(SurrogateBasedApplication):
                 x_data = np.atleast_2d(np.append(x_data, x_et_k, axis=0))
 
             # Compute the real values of y_data
-            x_to_compute = np.atleast_2d(x_data[-n_parallel:])
+            x_to_compute = np.atleast_2d(x_data[n_data:])
+            if len(x_to_compute) == 0:
+                continue
             if self.mixint:
                 x_to_compute = self.mixint.fold_with_enum_index(x_to_compute)
             y = self._evaluator.run(fun, x_to_compute)
-            y_data[-n_parallel:] = y
+            y_data[n_data:] = y
 
         # Find the optimal point
         ind_best = np.argmin(y_data)
@@ -205,6 +208,7 @@ class EGO(SurrogateBasedApplication):
         if sig.size == 1 and sig == 0.0:  # can be use only if one point is computed
             return 0.0
         ei = args1 + args2
+        ei[sig == 0.0] = 0.0
         # penalize the points already evaluated with tunneling
         if enable_tunneling:
             for i in range(len(points)):
@@ -288,7 +292,10 @@ class EGO(SurrogateBasedApplication):
 
         ydoe = self.options["ydoe"]
         if ydoe is None:
-            y_doe = self._evaluator.run(fun, x_doe)
+            x_to_compute = x_doe
+            if self.mixint:
+                x_to_compute = self.mixint.fold_with_enum_index(x_doe)
+            y_doe = self._evaluator.run(fun, x_to_compute)
         else:  # to save time if y_doe is already given to EGO
             y_doe = ydoe
 
@@ -365,12 +372,14 @@ class EGO(SurrogateBasedApplication):
                 self.log("New start point for the internal optimization")
                 n_optim += 1
 
-        if n_optim >= n_max_optim:
+        if not success:
             # self.log("Internal optimization failed at EGO iter = {}".format(k))
             return np.atleast_2d(0), False
         ind_min = np.argmin(obj_success)
         opt = opt_success[ind_min]
         x_et_k = np.atleast_2d(opt["x"])
+        if self.mixint:
+            x_et_k = self.mixint.cast_to_discrete_values(x_et_k)
 
         return x_et_k, True
 
-- 
2.43.0


From 377a9442cb8b361ff63dfc1f6d6a25854cdd8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 21/38] fix: MOE uses clustering criteria, rejects empty expert
 lists, compares outputs of one shape and refits on all points (C18, C19)

---
 smt/applications/moe.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index ff373ef..4158608 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -23,6 +23,7 @@ from scipy.stats import multivariate_normal
 
 from smt.utils.options_dictionary import OptionsDictionary
 from smt.applications.application import SurrogateBasedApplication
+from smt.utils.checks import ensure_2d_array
 from smt.utils.misc import compute_rms_error
 from smt.surrogate_models.surrogate_model import SurrogateModel
 
@@ -190,8 +191,8 @@ class MOE(SurrogateBasedApplication):
             An optional label for the group of training points being set.
             This is only used in special situations (e.g., multi-fidelity applications).
         """
-        self.xt = xt
-        self.yt = yt
+        self.xt = ensure_2d_array(xt, "xt").copy()
+        self.yt = ensure_2d_array(yt, "yt").copy()
 
     def train(self):
         """
@@ -206,7 +207,7 @@ class MOE(SurrogateBasedApplication):
             self.x = x = self.options["xt"]
             self.y = y = self.options["yt"]
         self.c = c = self.options["ct"]
-        if not self.c:
+        if c is None:
             self.c = c = y
 
         self.n_clusters = self.options["n_clusters"]
@@ -257,9 +258,8 @@ class MOE(SurrogateBasedApplication):
             print("Best Heaviside factor = {}".format(self.heaviside_factor))
             self.distribs = self._create_clusters_distributions(self.heaviside_factor)
 
-        if not test_data_present:
-            # if we have used part of data to validate, fit on overall data
-            self._fit(x, y, c, new_model=False)
+        # as we have used part of data to validate, fit on overall data
+        self._fit(x, y, c, new_model=False)
 
     def predict_values(self, x):
         """
@@ -367,7 +367,7 @@ class MOE(SurrogateBasedApplication):
                 if name not in self.options["deny"]
             }
         if not prototypes:
-            ValueError(
+            raise ValueError(
                 "List of possible experts is empty: check support, allow and deny options wrt"
             )
         return {name: self._surrogate_type[name] for name in prototypes}
@@ -550,7 +550,7 @@ class MOE(SurrogateBasedApplication):
             sm.set_training_values(training_values[:, 0:dim], training_values[:, dim])
             sm.train()
 
-            expected = test_values[:, dim]
+            expected = test_values[:, dim].reshape((-1, 1))
             actual = sm.predict_values(test_values[:, 0:dim])
             l_two = np.linalg.norm(expected - actual, 2)
             # l_two_rel = l_two / np.linalg.norm(expected, 2)
@@ -702,14 +702,12 @@ class MOE(SurrogateBasedApplication):
             x membership probability for each cluster
         """
         weights = np.array(self.cluster.weights_)
-        rvs = np.array([distribs[k].pdf(x) for k in range(len(weights))])
-
-        probs = weights * rvs
-        rad = np.sum(probs)
+        rvs = np.array([distribs[k].logpdf(x) for k in range(len(weights))])
 
-        if rad > 0:
-            probs = probs / rad
-        return probs
+        # relative to the largest one: densities vanish far from the clusters
+        probs = np.log(weights) + rvs
+        probs = np.exp(probs - np.max(probs))
+        return probs / np.sum(probs)
 
     def _proba_cluster(self, x, distribs=None):
         """
-- 
2.43.0


From 82b7c7d2aeb2c745efd29dd8bd009ce0a9740e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 22/38] fix: VFM leaves the given option dictionaries unchanged
 and refuses missing derivatives (C20)

---
 smt/applications/vfm.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 610e2af..5793660 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -118,6 +118,10 @@ class VFM(SurrogateBasedApplication):
         """
         if not self._trained:
             self._apply()
+        if "predict_derivatives" not in self.sm_HF:
+            raise NotImplementedError(
+                "The LF and bridge surrogates do not both support derivatives"
+            )
         if kx is None:
             y = np.zeros(x.shape)
             for i in range(x.shape[1]):
@@ -149,18 +153,22 @@ class VFM(SurrogateBasedApplication):
         self.nx = X_LF.shape[1]
         self.ny = y_LF.shape[1]
 
-        if self.options["dy_LF"] is not None:
-            dy_LF = self.options["dy_LF"]
-        if self.options["dy_HF"] is not None:
-            dy_HF = self.options["dy_HF"]
+        dy_LF = self.options["dy_LF"]
+        dy_HF = self.options["dy_HF"]
 
         # Check parameters
         self._check_param()
 
+        # The option dictionaries belong to the user: take copies
+        options_LF = dict(self.options["options_LF"])
+        options_bridge = dict(self.options["options_bridge"])
+        self.LF_deriv = options_LF.pop("deriv", False)
+        self.B_deriv = options_bridge.pop("deriv", False)
+        if self.LF_deriv and dy_LF is None or self.B_deriv and dy_HF is None:
+            raise ValueError("Check dy_LF and dy_HF")
+
         # Train the low fidelity model
-        self.LF_deriv = self.options["options_LF"]["deriv"]
-        del self.options["options_LF"]["deriv"]
-        sm_LF = self.options["name_model_LF"](**self.options["options_LF"])
+        sm_LF = self.options["name_model_LF"](**options_LF)
         sm_LF.options["print_global"] = False
         sm_LF.set_training_values(X_LF, y_LF)
         if self.LF_deriv:
@@ -172,8 +180,6 @@ class VFM(SurrogateBasedApplication):
         # compute the bridge data
         if self.options["type_bridge"] == "Multiplicative":
             y_bridge = y_HF / sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -189,8 +195,6 @@ class VFM(SurrogateBasedApplication):
                     ).reshape(y_HF.shape[0])
         elif self.options["type_bridge"] == "Additive":
             y_bridge = y_HF - sm_LF.predict_values(X_HF)
-            self.B_deriv = self.options["options_bridge"]["deriv"]
-            del self.options["options_bridge"]["deriv"]
             if self.B_deriv:
                 dy_bridge = np.zeros(dy_HF.shape)
                 for i in range(sm_LF.nx):
@@ -202,9 +206,9 @@ class VFM(SurrogateBasedApplication):
             raise ValueError("Only Additive and Multiplicative bridges are available")
 
         # Construct of the bridge function
-        sm_bridge = self.options["name_model_bridge"](**self.options["options_bridge"])
+        sm_bridge = self.options["name_model_bridge"](**options_bridge)
         sm_bridge.set_training_values(X_HF, y_bridge)
-        if self.B_deriv and self.options["dy_HF"] is not None:
+        if self.B_deriv:
             for i in range(sm_bridge.nx):
                 sm_bridge.set_training_derivatives(X_HF, dy_bridge[:, i], i)
         sm_bridge.train()
@@ -268,9 +272,3 @@ class VFM(SurrogateBasedApplication):
                     "%s was given."
                     % (self._surrogate_type.keys(), self.options["name_model_bridge"])
                 )
-
-        # Initialize the parameter deriv
-        if "deriv" not in self.options["options_LF"].keys():
-            self.options["options_LF"]["deriv"] = False
-        if "deriv" not in self.options["options_bridge"].keys():
-            self.options["options_bridge"]["deriv"] = False
-- 
2.43.0


From c8943dcd2f24de03bcc9bd52ba98d5bec9584439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 23/38] fix: cached operations load from their own directory
 and ignore files that are not caches

---
 smt/utils/caching.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/smt/utils/caching.py b/smt/utils/caching.py
index dd7a02c..ae763c8 100644
--- a/smt/utils/caching.py
+++ b/smt/utils/caching.py
@@ -33,13 +33,17 @@ def cached_operation(inputs_dict, data_dir, desc=""):
     """
     checksum = _caching_checksum(inputs_dict)
     filename = "%s/%s_%s.dat" % (data_dir, desc, checksum)
-    try:
-        with open(filename, "rb") as f:
-            outputs_dict = pickle.load(f)
-        load_successful = True
-    except:
-        outputs_dict = {}
-        load_successful = False
+    outputs_dict = {}
+    load_successful = False
+    if data_dir:
+        try:
+            with open(filename, "rb") as f:
+                loaded = pickle.load(f)
+            if isinstance(loaded, dict):
+                outputs_dict = loaded
+                load_successful = True
+        except Exception:
+            pass
 
     yield outputs_dict
 
@@ -68,12 +72,13 @@ def _caching_checksum(obj):
     except:
         pass
 
-    self_pkl = pickle.dumps(obj)
-    checksum = hashlib.md5(self_pkl).hexdigest()
-
     try:
-        obj["self"].printer = tmp
-    except:
-        pass
+        self_pkl = pickle.dumps(obj)
+        checksum = hashlib.md5(self_pkl).hexdigest()
+    finally:
+        try:
+            obj["self"].printer = tmp
+        except:
+            pass
 
     return checksum
-- 
2.43.0


From da785a2cdd9cb670663f65485e7509fc32fc49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 24/38] fix: printer depth and activity are restored when a
 timed operation raises

---
 smt/utils/linear_solvers.py | 6 ++++--
 smt/utils/printer.py        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 75939e6..6c25d38 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -125,8 +125,10 @@ class LinearSolver(object):
         orig_active = self.printer.active
 
         self.printer.active = self.printer.active and active
-        yield self.printer
-        self.printer.active = orig_active
+        try:
+            yield self.printer
+        finally:
+            self.printer.active = orig_active
 
 
 class NullSolver(LinearSolver):
diff --git a/smt/utils/printer.py b/smt/utils/printer.py
index 9377a60..30fa354 100644
--- a/smt/utils/printer.py
+++ b/smt/utils/printer.py
@@ -117,8 +117,10 @@ class Printer(object):
 
         start_time = time.time()
         self.depth += 1
-        yield
-        self.depth -= 1
+        try:
+            yield
+        finally:
+            self.depth -= 1
         stop_time = time.time()
 
         if string is not None:
-- 
2.43.0


From 7857f374935da90c8b3ccc9ad4a0f3bbdf9a294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 25/38] fix: models told to be silent print nothing, not even
 warnings

---
 smt/applications/moe.py                 | 20 +++++++++++++----
 smt/applications/vfm.py                 |  1 +
 smt/surrogate_models/genn.py            |  2 +-
 smt/surrogate_models/krg_based.py       | 30 +++++++++++++++----------
 smt/surrogate_models/surrogate_model.py |  3 +++
 5 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/smt/applications/moe.py b/smt/applications/moe.py
index 4158608..dd62628 100644
--- a/smt/applications/moe.py
+++ b/smt/applications/moe.py
@@ -81,6 +81,7 @@ class MOESurrogateModel(SurrogateModel):
         for name in self.training_points:
             xt, yt = self.training_points[name][0]
             self.moe.set_training_values(xt, yt, name=name)
+        self.moe.verbose = self.options["print_global"]
         self.moe.train()
 
     def _predict_values(self, x: np.ndarray) -> np.ndarray:
@@ -160,6 +161,9 @@ class MOE(SurrogateBasedApplication):
         self.heaviside_optimization = None
         self.heaviside_factor = 1.0
 
+        # Whether training prints the scores of the experts
+        self.verbose = True
+
         # dictionary {name: class} of possible experts wrt to options
         self._enabled_expert_types = self._get_enabled_expert_types()
 
@@ -255,7 +259,8 @@ class MOE(SurrogateBasedApplication):
         # Heaviside factor
         if self.heaviside_optimization and self.n_clusters > 1:
             self.heaviside_factor = self._find_best_heaviside_factor(xtest, ytest)
-            print("Best Heaviside factor = {}".format(self.heaviside_factor))
+            if self.verbose:
+                print("Best Heaviside factor = {}".format(self.heaviside_factor))
             self.distribs = self._create_clusters_distributions(self.heaviside_factor)
 
         # as we have used part of data to validate, fit on overall data
@@ -328,7 +333,12 @@ class MOE(SurrogateBasedApplication):
         # choice of number of cluster
         max_n_clusters = int(len(self.x) / 10) + 1
         if self.n_clusters > max_n_clusters:
-            print("Number of clusters should be inferior to {0}".format(max_n_clusters))
+            if self.verbose:
+                print(
+                    "Number of clusters should be inferior to {0}".format(
+                        max_n_clusters
+                    )
+                )
             raise ValueError(
                 "The number of clusters is too high considering the number of points"
             )
@@ -557,7 +567,8 @@ class MOE(SurrogateBasedApplication):
             # mse = (l_two**2) / len(expected)
             # rmse = mse ** 0.5
             scores[sm.name] = l_two
-            print(sm.name, l_two)
+            if self.verbose:
+                print(sm.name, l_two)
             sms[sm.name] = sm
 
         best_name = None
@@ -566,7 +577,8 @@ class MOE(SurrogateBasedApplication):
             if best_score is None or rmse < best_score:
                 best_name, best_score = name, rmse
 
-        print("Best expert = {}".format(best_name))
+        if self.verbose:
+            print("Best expert = {}".format(best_name))
         return sms[best_name]
 
     def _find_best_heaviside_factor(self, x, y):
diff --git a/smt/applications/vfm.py b/smt/applications/vfm.py
index 5793660..2ea09ba 100644
--- a/smt/applications/vfm.py
+++ b/smt/applications/vfm.py
@@ -207,6 +207,7 @@ class VFM(SurrogateBasedApplication):
 
         # Construct of the bridge function
         sm_bridge = self.options["name_model_bridge"](**options_bridge)
+        sm_bridge.options["print_global"] = False
         sm_bridge.set_training_values(X_HF, y_bridge)
         if self.B_deriv:
             for i in range(sm_bridge.nx):
diff --git a/smt/surrogate_models/genn.py b/smt/surrogate_models/genn.py
index 839b875..19c7ca2 100644
--- a/smt/surrogate_models/genn.py
+++ b/smt/surrogate_models/genn.py
@@ -183,7 +183,7 @@ class GENN(SurrogateModel):
         num_iterations = self.options["num_iterations"]
         num_epochs = self.options["num_epochs"]
         seed = self.options["seed"]
-        is_print = self.options["is_print"]
+        is_print = self.options["is_print"] and self.options["print_global"]
 
         # number of inputs and outputs
         n_x = X.shape[0]
diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index d923a9d..4dfdadf 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -162,9 +162,10 @@ class KrgBased(SurrogateModel):
         # Calculate matrix of distances D between samples
         D, self.ij = cross_distances(self.X_norma)
         if np.min(np.sum(np.abs(D), axis=1)) == 0.0:
-            print(
-                "Warning: multiple x input features have the same value (at least same row twice)."
-            )
+            if self.options["print_global"]:
+                print(
+                    "Warning: multiple x input features have the same value (at least same row twice)."
+                )
         ####
         # Regression matrix and parameters
         self.F = self._regression_types[self.options["poly"]](self.X_norma)
@@ -272,7 +273,8 @@ class KrgBased(SurrogateModel):
         try:
             C = linalg.cholesky(R, lower=True)
         except (linalg.LinAlgError, ValueError) as e:
-            print("exception : ", e)
+            if self.options["print_global"]:
+                print("exception : ", e)
             # raise e
             return reduced_likelihood_function_value, par
 
@@ -941,9 +943,10 @@ class KrgBased(SurrogateModel):
                         self.theta0[i] * (theta_bounds[1] - theta_bounds[0])
                         + theta_bounds[0]
                     )
-                    print(
-                        "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
-                    )
+                    if self.options["print_global"]:
+                        print(
+                            "Warning: theta0 is out the feasible bounds. A random initialisation is used instead."
+                        )
 
                 if self.name in ["MGP"]:  # to be discussed with R. Priem
                     constraints.append(lambda theta, i=i: theta[i] + theta_bounds[1])
@@ -986,9 +989,10 @@ class KrgBased(SurrogateModel):
                             or self.noise0[i] > noise_bounds[1]
                         ):
                             self.noise0[i] = noise_bounds[0]
-                            print(
-                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                            )
+                            if self.options["print_global"]:
+                                print(
+                                    "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                                )
 
                     theta0 = np.concatenate(
                         [theta0, np.log10(np.array([self.noise0]).flatten())]
@@ -1113,12 +1117,14 @@ class KrgBased(SurrogateModel):
                                 )
                     # Optimization fail
                     elif best_optimal_par == []:
-                        print("Optimization failed. Try increasing the ``nugget``")
+                        if self.options["print_global"]:
+                            print("Optimization failed. Try increasing the ``nugget``")
                         raise ve
                     # Break the while loop
                     else:
                         k = stop + 1
-                        print("fmin_cobyla failed but the best value is retained")
+                        if self.options["print_global"]:
+                            print("fmin_cobyla failed but the best value is retained")
 
             if "KPLSK" in self.name:
                 if self.options["eval_noise"]:
diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index e9c8ed8..2f179b7 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -380,6 +380,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         x = ensure_2d_array(x, "x")
         check_nx(self.nx, x)
 
+        self.printer.active = (
+            self.options["print_global"] and self.options["print_prediction"]
+        )
         dy_dyt = self._predict_output_derivatives(x)
         return dy_dyt
 
-- 
2.43.0


From 02e2c59c1686b9221652e0190526ab744563596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 26/38] fix: dense Cholesky and multigrid solvers return the
 solution of each system they are given

---
 smt/utils/linear_solvers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 6c25d38..29b6baa 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -117,7 +117,7 @@ class LinearSolver(object):
 
     def _clone(self):
         clone = self.__class__()
-        clone.options.update(clone.options._dict)
+        clone.options.update(self.options._dict)
         return clone
 
     @contextlib.contextmanager
@@ -156,11 +156,8 @@ class DenseCholeskySolver(LinearSolver):
                 sol = np.array(rhs)
 
             with printer._timed_context("Back solving (%i x %i mtx)" % self.mtx.shape):
-                sol[:] = rhs
-                scipy.linalg.solve_triangular(
-                    self.upper, sol, overwrite_b=True, trans="T"
-                )
-                scipy.linalg.solve_triangular(self.upper, sol, overwrite_b=True)
+                tmp = scipy.linalg.solve_triangular(self.upper, rhs, trans="T")
+                sol[:] = scipy.linalg.solve_triangular(self.upper, tmp)
 
         return sol
 
@@ -515,6 +512,8 @@ class MultigridSolver(LinearSolver):
             self.callback.rhs = rhs
 
             self.mg_rhs[0][:] = rhs
+            for mg_sol in self.mg_sol:
+                mg_sol[:] = 0.0
 
             for ind_level in range(len(self.mg_ops)):
                 self._restrict(ind_level)
-- 
2.43.0


From 7c9de58e2f4f286c4be0c1472af022441b7b5a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 27/38] fix: Krylov solver keeps its best iterate and
 preconditions from zero

---
 smt/utils/linear_solvers.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/smt/utils/linear_solvers.py b/smt/utils/linear_solvers.py
index 29b6baa..8c3aad5 100644
--- a/smt/utils/linear_solvers.py
+++ b/smt/utils/linear_solvers.py
@@ -66,6 +66,8 @@ class Callback(object):
         self.mtx = None
         self.rhs = None
         self.norm0 = 1.0
+        self.best_norm = np.inf
+        self.best_sol = None
 
     def _print_norm(self, norm):
         if self.counter == 0:
@@ -92,6 +94,9 @@ class Callback(object):
     def _print_sol(self, sol):
         res = self.mtx.dot(sol) - self.rhs
         norm = np.linalg.norm(res)
+        if self.best_sol is None or norm < self.best_norm:
+            self.best_norm = norm
+            self.best_sol = np.array(sol)
         self._print_norm(norm)
 
 
@@ -248,7 +253,7 @@ class KrylovSolver(LinearSolver):
                 pc_solver._setup(mtx, printer, mg_matrices=mg_matrices)
                 self.pc_solver = pc_solver
                 self.pc_op = scipy.sparse.linalg.LinearOperator(
-                    mtx.shape, matvec=pc_solver._solve
+                    mtx.shape, matvec=self._precondition
                 )
             else:
                 self.pc_solver = None
@@ -281,6 +286,10 @@ class KrylovSolver(LinearSolver):
                     "restart": min(self.options["ilimit"], mtx.shape[0]),
                 }
 
+    def _precondition(self, rhs):
+        # Iterating from zero keeps the Jacobi preconditioner symmetric
+        return self.pc_solver._solve(rhs, np.zeros(rhs.shape))
+
     def _solve(self, rhs, sol=None, ind_y=0):
         with self._active(self.options["print_solve"]) as printer:
             self.rhs = rhs
@@ -296,6 +305,8 @@ class KrylovSolver(LinearSolver):
                 self.callback.ind_y = ind_y
                 self.callback.mtx = self.mtx
                 self.callback.rhs = rhs
+                self.callback.best_norm = np.inf
+                self.callback.best_sol = None
 
                 self.callback._print_sol(sol)
                 tmp, info = self.solver(
@@ -306,8 +317,11 @@ class KrylovSolver(LinearSolver):
                     callback=self.callback_func,
                     **self.solver_kwargs
                 )
+                # Once the residual is down to rounding errors, iterations that
+                # go on for want of a smaller one may diverge: keep the best
+                self.callback._print_sol(tmp)
 
-            sol[:] = tmp
+            sol[:] = self.callback.best_sol
 
         return sol
 
-- 
2.43.0


From 5e98f6b045840048dc9ce7420dfb621bdf163877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 28/38] fix: bracketing line searches always return a finite
 step

---
 smt/utils/line_search.py | 91 +++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 38 deletions(-)

diff --git a/smt/utils/line_search.py b/smt/utils/line_search.py
index 3981415..a3c3fb6 100644
--- a/smt/utils/line_search.py
+++ b/smt/utils/line_search.py
@@ -167,12 +167,21 @@ class BracketedLineSearch(LineSearch):
                 p2 = self._phi(a2)
                 dp2 = self._dphi(a2)
 
+        # Still descending: return the farthest point reached.
+        return self.x + a1 * self.dx
+
     def _zoom(self, a1, p1, dp1, a2, p2, dp2):
         """
         Find a solution in the interval, [a1, a2], assuming that phi(a1) < phi(a2).
         """
-        while True:
-            a, p, dp = self._compute_minimum(a1, p1, dp1, a2, p2, dp2)
+        minimum = self._compute_minimum
+
+        for ind in range(100):
+            width = np.abs(a2 - a1)
+            if width == 0.0:
+                break
+
+            a, p, dp = minimum(a1, p1, dp1, a2, p2, dp2)
 
             if not self._func_decreased(a) or p > p1:
                 # If still lower than initial f or still higher than low
@@ -193,15 +202,30 @@ class BracketedLineSearch(LineSearch):
                 p1 = p
                 dp1 = dp
 
-    def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
+            # Bisect next if the interpolation did not shrink the interval enough.
+            if np.abs(a2 - a1) <= 0.5 * width:
+                minimum = self._compute_minimum
+            else:
+                minimum = self._compute_midpoint
+
+        # The interval has collapsed: a1 is the best point in it.
+        return self.x + a1 * self.dx
+
+    def _compute_midpoint(self, a1, p1, dp1, a2, p2, dp2):
         """
-        Estimate the minimum as the midpoint.
+        Evaluate the midpoint.
         """
         a = 0.5 * a1 + 0.5 * a2
         p = self._phi(a)
         dp = self._dphi(a)
         return a, p, dp
 
+    def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
+        """
+        Estimate the minimum as the midpoint.
+        """
+        return self._compute_midpoint(a1, p1, dp1, a2, p2, dp2)
+
 
 class QuadraticLineSearch(BracketedLineSearch):
     """
@@ -209,16 +233,15 @@ class QuadraticLineSearch(BracketedLineSearch):
     """
 
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
-        quadratic_mtx = np.zeros((3, 3))
-        quadratic_mtx[0, :] = [1.0, a1, a1 ** 2]
-        quadratic_mtx[1, :] = [1.0, a2, a2 ** 2]
-        quadratic_mtx[2, :] = [0.0, 1.0, 2 * a1]
-        c0, c1, c2 = np.linalg.solve(quadratic_mtx, [p1, p2, dp1])
+        # p(a1 + h t) = p1 + c1 t + c2 t^2
+        h = a2 - a1
+        c1 = h * dp1
+        c2 = p2 - p1 - c1
 
-        d0 = c1
-        d1 = 2 * c2
+        if not c2 > 0.0 or not 0.0 < -c1 < 2 * c2:
+            return self._compute_midpoint(a1, p1, dp1, a2, p2, dp2)
 
-        a = -d0 / d1
+        a = a1 - 0.5 * c1 / c2 * h
         p = self._phi(a)
         dp = self._dphi(a)
         return a, p, dp
@@ -230,31 +253,23 @@ class CubicLineSearch(BracketedLineSearch):
     """
 
     def _compute_minimum(self, a1, p1, dp1, a2, p2, dp2):
-        cubic_mtx = np.zeros((4, 4))
-        cubic_mtx[0, :] = [1.0, a1, a1 ** 2, a1 ** 3]
-        cubic_mtx[1, :] = [1.0, a2, a2 ** 2, a2 ** 3]
-        cubic_mtx[2, :] = [0.0, 1.0, 2 * a1, 3 * a1 ** 2]
-        cubic_mtx[3, :] = [0.0, 1.0, 2 * a2, 3 * a2 ** 2]
-        c0, c1, c2, c3 = np.linalg.solve(cubic_mtx, [p1, p2, dp1, dp2])
-
-        d0 = c1
-        d1 = 2 * c2
-        d2 = 3 * c3
-        r1, r2 = np.roots([d2, d1, d0])
+        # p(a1 + h t) = p1 + c1 t + c2 t^2 + c3 t^3
+        h = a2 - a1
+        c1 = h * dp1
+        c2 = 3 * (p2 - p1) - h * (2 * dp1 + dp2)
+        c3 = h * (dp1 + dp2) - 2 * (p2 - p1)
 
         a = None
-        p = max(p1, p2)
-        if (a1 <= r1 <= a2 or a2 <= r1 <= a1) and np.isreal(r1):
-            px = self._phi(r1)
-            if px < p:
-                a = r1
-                p = px
-                dp = self._dphi(r1)
-        if (a1 <= r2 <= a2 or a2 <= r2 <= a1) and np.isreal(r2):
-            px = self._phi(r2)
-            if px < p:
-                a = r2
-                p = px
-                dp = self._dphi(r2)
-
-        return a, p, dp
+        if np.all(np.isfinite([c1, c2, c3])):
+            p = max(p1, p2)
+            for root in np.roots([3 * c3, 2 * c2, c1]):
+                if np.isreal(root) and 0.0 < np.real(root) < 1.0:
+                    ax = a1 + np.real(root) * h
+                    px = self._phi(ax)
+                    if px < p:
+                        a = ax
+                        p = px
+
+        if a is None:
+            return self._compute_midpoint(a1, p1, dp1, a2, p2, dp2)
+        return a, p, self._dphi(a)
-- 
2.43.0


From 670098a05803425dd51ce51027e5946c8c7de11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 29/38] fix: one moment update per Adam iteration, no step
 without decrease, finite differences on a copy

---
 smt/utils/neural_net/optimizer.py | 39 ++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/smt/utils/neural_net/optimizer.py b/smt/utils/neural_net/optimizer.py
index 97365b8..b0f86e0 100644
--- a/smt/utils/neural_net/optimizer.py
+++ b/smt/utils/neural_net/optimizer.py
@@ -24,6 +24,7 @@ def finite_difference(parameters, fun=None, dx=1e-6):
     :return: dy: the derivative of fun with respect to x
     """
     grads = dict()
+    parameters = {key: np.copy(value) for key, value in parameters.items()}
     for key in parameters.keys():
         x = np.copy(parameters[key])
         n, p = x.shape
@@ -125,6 +126,12 @@ class Optimizer(object):
         else:
             return finite_difference(x, fun=self.user_cost_function)
 
+    def _new_search_direction(self):
+        """
+        Called once per iteration, when the search direction has been computed
+        """
+        pass
+
     def _update_current_design(self, learning_rate=0.05):
         """
         Implement one step of gradient descent
@@ -172,6 +179,8 @@ class Optimizer(object):
             ):
                 converged = True
             elif self.learning_rate * tau < 1e-6:
+                # no decrease along this direction: stay at the current design
+                self._current_design = self._previous_design.copy()
                 converged = True
             else:
                 tau *= tau
@@ -201,6 +210,7 @@ class Optimizer(object):
         for i in range(0, max_iter):
             self._current_iteration = i
             self._search_direction = self._grad_function(self._current_design)
+            self._new_search_direction()
             self.backtracking_line_search()
 
             self._current_cost = self._cost_function(self._current_design).squeeze()
@@ -267,28 +277,25 @@ class Adam(Optimizer):
         self.v = None
         self.s = None
 
-    def _update_current_design(self, learning_rate=0.05):
-        """Adam update"""
-        t = self._current_iteration + 1
-
-        if self.v is None:
-            self.v = {
-                key: np.zeros(value.shape)
-                for key, value in self._current_design.items()
-            }
-        if self.s is None:
-            self.s = {
-                key: np.zeros(value.shape)
-                for key, value in self._current_design.items()
-            }
-
+    def _new_search_direction(self):
+        """Moments are updated once per iteration, whatever steps are then tried"""
+        if self._current_iteration == 0:
+            self.v = {key: np.zeros(x.shape) for key, x in self._current_design.items()}
+            self.s = {key: np.zeros(x.shape) for key, x in self._current_design.items()}
         for key in self._current_design.keys():
             self.v[key] = (
-                self.beta_1 * self.v[key] + (1.0 - self.beta_1) * self._search_direction[key]
+                self.beta_1 * self.v[key]
+                + (1.0 - self.beta_1) * self._search_direction[key]
             )
             self.s[key] = self.beta_2 * self.s[key] + (1.0 - self.beta_2) * np.square(
                 self._search_direction[key]
             )
+
+    def _update_current_design(self, learning_rate=0.05):
+        """Adam update"""
+        t = self._current_iteration + 1
+
+        for key in self._current_design.keys():
             v_corrected = self.v[key] / (1.0 - self.beta_1 ** t)
             s_corrected = self.s[key] / (1.0 - self.beta_2 ** t)
             self._current_design[key] = self._previous_design[
-- 
2.43.0


From 384229a1c9bf5c49c355b1a6aded365dd8014004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 30/38] fix: problems refuse a derivative index out of range

---
 smt/problems/problem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smt/problems/problem.py b/smt/problems/problem.py
index 85a482d..375a469 100644
--- a/smt/problems/problem.py
+++ b/smt/problems/problem.py
@@ -79,6 +79,10 @@ class Problem(object):
         if kx is not None:
             if not isinstance(kx, int) or kx < 0:
                 raise TypeError("kx should be None or a non-negative int.")
+            if kx >= self.options["ndim"]:
+                raise ValueError(
+                    "kx should be less than %i" % self.options["ndim"]
+                )
 
         y = self._evaluate(x, kx)
 
-- 
2.43.0


From dd50c12794d88764545da141be2d22409a8d4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:10 +0000
Subject: [PATCH 31/38] fix: derivatives of LpNorm of order above two

---
 smt/problems/lp_norm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smt/problems/lp_norm.py b/smt/problems/lp_norm.py
index 25048c5..604bb04 100644
--- a/smt/problems/lp_norm.py
+++ b/smt/problems/lp_norm.py
@@ -44,7 +44,6 @@ class LpNorm(Problem):
         if kx is None:
             y[:, 0] = lp_norm
         else:
-            norm_p = np.linalg.norm(x, ord=p)
             y[:, 0] = np.sign(x[:, kx]) * (np.absolute(x[:, kx]) / lp_norm) ** (p - 1)
 
         return y
-- 
2.43.0


From 71d1e371543c06d3f134c9174bcd15e04270c84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 32/38] fix: training-point error of derivatives

---
 smt/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/utils/misc.py b/smt/utils/misc.py
index 7ae6257..e2842c1 100644
--- a/smt/utils/misc.py
+++ b/smt/utils/misc.py
@@ -37,7 +37,7 @@ def compute_rms_error(sm, xe=None, ye=None, kx=None):
         if kx is None:
             kx2 = 0
         else:
-            kx2 += 1
+            kx2 = kx + 1
         if kx2 not in sm.training_points[None]:
             raise ValueError(
                 "There is no training point data available for kx %s" % kx2
-- 
2.43.0


From 1730f8e0c313ae4d9c63f67b03bf13043426b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 33/38] fix: kriging noise with several outputs, TNC and
 repeated points; hyperparameters within their bounds (C31, C34)

---
 smt/surrogate_models/krg_based.py | 122 ++++++++++++++++++------------
 1 file changed, 72 insertions(+), 50 deletions(-)

diff --git a/smt/surrogate_models/krg_based.py b/smt/surrogate_models/krg_based.py
index 4dfdadf..4ec89a7 100644
--- a/smt/surrogate_models/krg_based.py
+++ b/smt/surrogate_models/krg_based.py
@@ -146,16 +146,20 @@ class KrgBased(SurrogateModel):
                 self.nt = self.X_norma.shape[0]
 
                 # computing the mean of the output per unique design variable (see Binois et al., 2018)
-                y_norma_unique = []
+                y_norma_unique = np.zeros((self.nt, self.y_norma.shape[1]))
                 for i in range(self.nt):
-                    y_norma_unique.append(np.mean(self.y_norma[index_unique == i]))
+                    y_norma_unique[i] = np.mean(
+                        self.y_norma[index_unique == i], axis=0
+                    )
 
                 # pointwise sensible estimates of the noise variances (see Ankenman et al., 2010)
                 self.optimal_noise = self.options["noise0"] * np.ones(self.nt)
                 for i in range(self.nt):
                     diff = self.y_norma[index_unique == i] - y_norma_unique[i]
                     if np.sum(diff ** 2) != 0.0:
-                        self.optimal_noise[i] = np.std(diff, ddof=1) ** 2
+                        self.optimal_noise[i] = np.mean(
+                            np.std(diff, ddof=1, axis=0) ** 2
+                        )
                 self.optimal_noise = self.optimal_noise / nt_reps
                 self.y_norma = y_norma_unique
 
@@ -253,7 +257,7 @@ class KrgBased(SurrogateModel):
         par = {}
         # Set up R
         nugget = self.options["nugget"]
-        if self.options["eval_noise"]:
+        if self.options["eval_noise"] and not self.options["use_het_noise"]:
             nugget = 0
 
         noise = self.noise0
@@ -396,7 +400,14 @@ class KrgBased(SurrogateModel):
         gamma = par["gamma"]
         Q = par["Q"]
         G = par["G"]
-        sigma_2 = np.maximum(par["sigma2"], np.finfo(float).tiny)
+        # the likelihood sums the variances of the normalised outputs
+        y_var = self.y_std ** 2.0
+        sigma_2 = np.maximum(np.sum(par["sigma2"] / y_var), np.finfo(float).tiny)
+
+        # the noise, when it is estimated, comes after the theta's
+        nb_corr = nb_theta
+        if self.options["eval_noise"] and not self.options["use_het_noise"]:
+            nb_corr = self.D.shape[1]
 
         dr_all = []
         tr_all = []
@@ -407,13 +418,17 @@ class KrgBased(SurrogateModel):
 
         for i_der in range(nb_theta):
             # Compute R derivatives
-            dr = self._correlation_types[self.options["corr"]](
-                theta, self.D, grad_ind=i_der
-            )
+            if i_der < nb_corr:
+                dr = self._correlation_types[self.options["corr"]](
+                    theta[:nb_corr], self.D, grad_ind=i_der
+                )
+                dR = np.zeros((self.nt, self.nt))
+            else:
+                dr = np.zeros((self.ij.shape[0], 1))
+                dR = np.eye(self.nt)
 
             dr_all.append(dr)
 
-            dR = np.zeros((self.nt, self.nt))
             dR[self.ij[:, 0], self.ij[:, 1]] = dr[:, 0]
             dR[self.ij[:, 1], self.ij[:, 0]] = dr[:, 0]
 
@@ -446,8 +461,11 @@ class KrgBased(SurrogateModel):
             dsigma_all.append(dsigma_2)
 
             # Compute reduced log likelihood derivatives
+            dsigma_2_sum = np.sum(np.diag(dsigma_2) / y_var)
             grad_red[i_der] = (
-                -self.nt / np.log(10) * (dsigma_2 / sigma_2 + np.trace(tr) / self.nt)
+                -self.nt
+                / np.log(10)
+                * (dsigma_2_sum / sigma_2 + np.trace(tr) / self.nt)
             )
 
         par["dr"] = dr_all
@@ -975,46 +993,47 @@ class KrgBased(SurrogateModel):
 
             self.D = self._componentwise_distance(D, opt=ii)
 
-            # Initialization
-            k, incr, stop, best_optimal_rlf_value, max_retry = 0, 0, 1, -1e20, 10
-            while k < stop:
-                # Use specified starting point as first guess
-                self.noise0 = np.array(self.options["noise0"])
-                noise_bounds = self.options["noise_bounds"]
-                if self.options["eval_noise"] and not self.options["use_het_noise"]:
-                    self.noise0[self.noise0 == 0.0] = noise_bounds[0]
-                    for i in range(len(self.noise0)):
-                        if (
-                            self.noise0[i] < noise_bounds[0]
-                            or self.noise0[i] > noise_bounds[1]
-                        ):
-                            self.noise0[i] = noise_bounds[0]
-                            if self.options["print_global"]:
-                                print(
-                                    "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
-                                )
+            # Use specified starting point as first guess
+            self.noise0 = np.array(self.options["noise0"], dtype=float)
+            noise_bounds = self.options["noise_bounds"]
+            if self.options["eval_noise"] and not self.options["use_het_noise"]:
+                self.noise0[self.noise0 == 0.0] = noise_bounds[0]
+                for i in range(len(self.noise0)):
+                    if (
+                        self.noise0[i] < noise_bounds[0]
+                        or self.noise0[i] > noise_bounds[1]
+                    ):
+                        self.noise0[i] = noise_bounds[0]
+                        if self.options["print_global"]:
+                            print(
+                                "Warning: noise0 is out the feasible bounds. The lowest possible value is used instead."
+                            )
 
-                    theta0 = np.concatenate(
-                        [theta0, np.log10(np.array([self.noise0]).flatten())]
+                theta0 = np.concatenate(
+                    [theta0, np.log10(np.array([self.noise0]).flatten())]
+                )
+                theta0_rand = np.concatenate(
+                    [
+                        theta0_rand,
+                        np.log10(np.array([self.noise0]).flatten()),
+                    ]
+                )
+
+                for i in range(len(self.noise0)):
+                    noise_bounds = np.log10(noise_bounds)
+                    constraints.append(
+                        lambda log10t: log10t[i + len(self.theta0)]
+                        - noise_bounds[0]
                     )
-                    theta0_rand = np.concatenate(
-                        [
-                            theta0_rand,
-                            np.log10(np.array([self.noise0]).flatten()),
-                        ]
+                    constraints.append(
+                        lambda log10t: noise_bounds[1]
+                        - log10t[i + len(self.theta0)]
                     )
+                    bounds_hyp.append(noise_bounds)
 
-                    for i in range(len(self.noise0)):
-                        noise_bounds = np.log10(noise_bounds)
-                        constraints.append(
-                            lambda log10t: log10t[i + len(self.theta0)]
-                            - noise_bounds[0]
-                        )
-                        constraints.append(
-                            lambda log10t: noise_bounds[1]
-                            - log10t[i + len(self.theta0)]
-                        )
-                        bounds_hyp.append(noise_bounds)
+            # Initialization
+            k, incr, stop, best_optimal_rlf_value, max_retry = 0, 0, 1, -1e20, 10
+            while k < stop:
                 try:
 
                     if self.options["hyper_opt"] == "Cobyla":
@@ -1053,7 +1072,10 @@ class KrgBased(SurrogateModel):
                     if optimal_theta_res["fun"] > optimal_theta_res_2["fun"]:
                         optimal_theta_res = optimal_theta_res_2
 
-                    optimal_theta = optimal_theta_res["x"]
+                    # COBYLA may stop outside of the bounds
+                    optimal_theta = np.clip(
+                        optimal_theta_res["x"], *np.transpose(bounds_hyp)
+                    )
 
                     if self.name not in ["MGP"]:
                         optimal_theta = 10 ** optimal_theta
@@ -1127,11 +1149,11 @@ class KrgBased(SurrogateModel):
                             print("fmin_cobyla failed but the best value is retained")
 
             if "KPLSK" in self.name:
-                if self.options["eval_noise"]:
-                    # best_optimal_theta contains [theta, noise] if eval_noise = True
+                if self.options["eval_noise"] and not self.options["use_het_noise"]:
+                    # best_optimal_theta contains [theta, noise] if the noise is estimated
                     theta = best_optimal_theta[:-1]
                 else:
-                    # best_optimal_theta contains [theta] if eval_noise = False
+                    # best_optimal_theta contains [theta] otherwise
                     theta = best_optimal_theta
 
                 if exit_function:
-- 
2.43.0


From 468d250a84422d6f25797e4bb534be950e988147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 34/38] fix: MGP variance in the units of the outputs (C32,
 C35)

---
 smt/surrogate_models/krg_mgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smt/surrogate_models/krg_mgp.py b/smt/surrogate_models/krg_mgp.py
index 15c51cd..71db2d3 100644
--- a/smt/surrogate_models/krg_mgp.py
+++ b/smt/surrogate_models/krg_mgp.py
@@ -107,7 +107,8 @@ class MGP(KrgBased):
             u = None
             x = (x - self.X_offset) / self.X_scale
 
-        dy = self._predict_value_derivatives_hyper(x, u)
+        # same units as MSE: the derivatives are those of the normalized outputs
+        dy = self.y_std * self._predict_value_derivatives_hyper(x, u)
         dMSE, MSE = self._predict_variance_derivatives_hyper(x, u)
 
         arg_1 = np.einsum("ij,ij->i", dy.T, linalg.solve(self.inv_sigma_R, dy).T)
-- 
2.43.0


From 085da3fcb600ee282534bff41773fc6b1516cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:59 +0000
Subject: [PATCH 35/38] fix: MFK noise check counts distinct points, not
 distinct coordinates

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 0068a49..569b528 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -735,7 +735,7 @@ class MFK(KrgBased):
 
         for i in range(self.nlvl):
             if self.options["use_het_noise"]:
-                if len(self.X[i]) == len(np.unique(self.X[i])):
+                if len(self.X[i]) == len(np.unique(self.X[i], axis=0)):
                     if len(self.options["noise0"][i]) != self.nt_all[i]:
                         if len(self.options["noise0"][i]) == 1:
                             self.options["noise0"][i] = self.options["noise0"][
-- 
2.43.0


From 90a533bdc331fc78f8e8ac7d72e259a5bd0e5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:59 +0000
Subject: [PATCH 36/38] fix: MFK optim_var forces the variance at samples to
 zero whatever noise0

---
 smt/applications/mfk.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index 569b528..b379809 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -341,24 +341,27 @@ class MFK(KrgBased):
     def _new_train_finalize(self, lvl):
         if self.options["eval_noise"] and self.options["optim_var"]:
             X = self.X
-            y_user = {
-                name: self.training_points[name][0][1]
+            user_points = {
+                name: self.training_points[name][0]
                 for name in [None] + list(range(self.nlvl - 1))
             }
-            for lvl in range(self.nlvl - 1):
+            for lvl in range(self.nlvl):
+                # without noise, a point observed several times counts once
+                _, first = np.unique(X[lvl], return_index=True, axis=0)
+                x = X[lvl][np.sort(first)]
                 self.set_training_values(
-                    X[lvl], self._predict_intermediate_values(X[lvl], lvl + 1), name=lvl
+                    x,
+                    self._predict_intermediate_values(x, lvl + 1),
+                    name=lvl if lvl < self.nlvl - 1 else None,
                 )
-            self.set_training_values(
-                X[-1], self._predict_intermediate_values(X[-1], self.nlvl)
-            )
             self.options["eval_noise"] = False
+            self.options["noise0"] = [0.0]
             try:
                 self._new_train()
             finally:
                 # the predicted outputs are only used to train the final model
-                for name in y_user:
-                    self.training_points[name][0][1] = y_user[name]
+                for name in user_points:
+                    self.training_points[name][0] = user_points[name]
 
     def _componentwise_distance(self, dx, opt=0):
         d = componentwise_distance(dx, self.options["corr"], self.nx)
-- 
2.43.0


From 588f599aa1225aacb9685128974612c630e31e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:01 +0000
Subject: [PATCH 37/38] fix: MFK accepts theta0 with one value per fidelity
 level

---
 smt/applications/mfk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smt/applications/mfk.py b/smt/applications/mfk.py
index b379809..adb38e6 100644
--- a/smt/applications/mfk.py
+++ b/smt/applications/mfk.py
@@ -713,7 +713,7 @@ class MFK(KrgBased):
                     self.options["theta0"] = np.array(self.options["theta0"]).reshape(
                         -1, 1
                     )
-                    self.options["theta0"] *= np.ones((1, d))
+                    self.options["theta0"] = self.options["theta0"] * np.ones((1, d))
                 else:
                     raise ValueError(
                         "the length of theta0 (%s) should be equal to the number of dim (%s) or levels of fidelity (%s)."
-- 
2.43.0


From c0cbb738a20be6d1c561f18c30e52f5f25e3b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:24 +0000
Subject: [PATCH 38/38] fix: a trained model answers from its training until
 trained again

Training data set after training changed the problem size (nt, nx, ny) used by
the predictions of the model trained before: IDW read and wrote out of the
bounds of its arrays, kriging failed.
---
 smt/applications/mixed_integer.py       |  1 +
 smt/surrogate_models/idw.py             | 13 +++++++------
 smt/surrogate_models/rbf.py             |  3 +--
 smt/surrogate_models/surrogate_model.py | 24 ++++++++++++++++++------
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/smt/applications/mixed_integer.py b/smt/applications/mixed_integer.py
index c4cd302..f9a3dab 100644
--- a/smt/applications/mixed_integer.py
+++ b/smt/applications/mixed_integer.py
@@ -295,6 +295,7 @@ class MixedIntegerSurrogateModel(SurrogateModel):
         self._surrogate.update_training_values(yt, name)
 
     def _train(self):
+        self._surrogate._set_problem_size()
         self._surrogate._train()
 
     def predict_values(self, x):
diff --git a/smt/surrogate_models/idw.py b/smt/surrogate_models/idw.py
index 9dce6b8..10aa624 100644
--- a/smt/surrogate_models/idw.py
+++ b/smt/surrogate_models/idw.py
@@ -41,10 +41,13 @@ class IDW(SurrogateModel):
         supports["output_derivatives"] = True
 
     def _setup(self):
-        xt = self.training_points[None][0][0]
+        xt, yt = self.training_points[None][0]
         nt = xt.shape[0]
         nx = xt.shape[1]
 
+        # The outputs the trained model interpolates
+        self.yt = yt
+
         self.idwc = PyIDW()
         self.idwc.setup(nx, nt, self.options["p"], xt.flatten())
 
@@ -83,8 +86,7 @@ class IDW(SurrogateModel):
         """
         n = x.shape[0]
         nt = self.nt
-
-        yt = self.training_points[None][0][1]
+        yt = self.yt
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
@@ -111,8 +113,7 @@ class IDW(SurrogateModel):
         """
         n = x.shape[0]
         nt = self.nt
-
-        yt = self.training_points[None][0][1]
+        yt = self.yt
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac_derivs(n, kx, x.flatten(), jac)
@@ -124,7 +125,7 @@ class IDW(SurrogateModel):
     def _predict_output_derivatives(self, x):
         n = x.shape[0]
         nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
+        ny = self.ny
 
         jac = np.empty(n * nt)
         self.idwc.compute_jac(n, x.flatten(), jac)
diff --git a/smt/surrogate_models/rbf.py b/smt/surrogate_models/rbf.py
index aee35b7..df0db5a 100644
--- a/smt/surrogate_models/rbf.py
+++ b/smt/surrogate_models/rbf.py
@@ -200,8 +200,7 @@ class RBF(SurrogateModel):
 
     def _predict_output_derivatives(self, x):
         n = x.shape[0]
-        nt = self.nt
-        ny = self.training_points[None][0][1].shape[1]
+        ny = self.ny
         num = self.num
 
         dy_dstates = np.empty(n * num["dof"])
diff --git a/smt/surrogate_models/surrogate_model.py b/smt/surrogate_models/surrogate_model.py
index 2f179b7..92f08da 100644
--- a/smt/surrogate_models/surrogate_model.py
+++ b/smt/surrogate_models/surrogate_model.py
@@ -52,6 +52,9 @@ class SurrogateModel(object, metaclass=ABCMeta):
         """
         self.options = OptionsDictionary()
 
+        # Whether the problem size (nt, nx, ny) is the one of a trained model
+        self._sized_by_training = False
+
         self.supports = supports = {}
         supports["training_derivatives"] = False
         supports["derivatives"] = False
@@ -121,9 +124,11 @@ class SurrogateModel(object, metaclass=ABCMeta):
                 "the first dimension of xt and yt must have the same length"
             )
 
-        self.nt = xt.shape[0]
-        self.nx = xt.shape[1]
-        self.ny = yt.shape[1]
+        # A trained model keeps its problem size until it is trained again
+        if not self._sized_by_training:
+            self.nt = xt.shape[0]
+            self.nx = xt.shape[1]
+            self.ny = yt.shape[1]
         kx = 0
         self.training_points[name][kx] = [np.array(xt), np.array(yt)]
 
@@ -243,14 +248,21 @@ class SurrogateModel(object, metaclass=ABCMeta):
 
         self.training_points[name][kx + 1][1] = np.array(dyt_dxt)
 
-    def train(self) -> None:
+    def _set_problem_size(self):
         """
-        Train the model
+        Set the problem size of the model being trained, which is the one of
+        the current (unnamed) training data.
         """
-        # The problem size is the one of the current (unnamed) training data
         xt, yt = self.training_points[None][0]
         self.nt, self.nx = xt.shape
         self.ny = yt.shape[1]
+        self._sized_by_training = True
+
+    def train(self) -> None:
+        """
+        Train the model
+        """
+        self._set_problem_size()
         n_exact = self.nt
 
         self.printer.active = self.options["print_global"]
-- 
2.43.0

