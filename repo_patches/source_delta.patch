From e0470686b8af3fc566bb7febff61642ee0ae347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 01/35] fix: double-well energy used half of the sixth-moment
 term of <(f-g)^2>

---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From 57fdad763a9fcd419486292b8ac9ba94e1af98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 02/35] fix: RK2 forward covariance predictor used S(t) in
 place of A(t)

---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From 73018fdda7b79fd7012a31a302e625c56a1511c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 03/35] fix: n-D backward equation for lambda used A where its
 transpose is required

---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..1c0ea3b 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (lam * A), that is (A.T * lam)
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From a8ff01c9e245ffcf99e83d5f5ae8583d99735fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 04/35] fix: Lorenz63 dEsde/dS counted every off-diagonal
 covariance twice

---
 src/dynamics/lorenz_63.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..dc261d7 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -561,9 +561,11 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # NOTE: 'dSxy' is the derivative w.r.t. both of the (equal) entries
+        # Sxy and Syx, so each one of the two entries takes half of it.
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From 8139b20b6c40eb62133c931ff38716f8f1c24c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 05/35] fix: 1-D KL(t=0) had the wrong coefficient on log(s0)

---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b0c3966 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
-- 
2.43.0


From 30dbb0f7f57f65a841f36e9e15d212c460e6f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 06/35] fix: n-D KL(t=0) mixed the components of the mean and
 of the log-determinants

---
 src/var_bayes/prior_kl0.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index b0c3966..a8d75af 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -77,15 +77,12 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
         # Energy of the initial moment.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From 1ffa0a63c26cc929ca9cba805eef955842b65646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 07/35] fix: n-D likelihood read the covariances at the wrong
 times

---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..cd71d13 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -142,7 +142,7 @@ class GaussianLikelihood(Likelihood):
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 1c514a405d073297a76295c01da4eb1192da2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 08/35] fix: scalar system noise was rejected by Lorenz63 and
 Lorenz96

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index dc261d7..8bc73eb 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From 412b4609d4477861eb84b1f3a6c09fa35d37524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 09/35] fix: noise setters of Lorenz63/96 let an indefinite
 matrix through

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 8bc73eb..c82a30e 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..162e620 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,7 +226,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 733850f205b8ddb4183dfa87ad5c469772fba7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 10/35] fix: L96 sigma points were mixed with each other by the
 drift

---
 src/dynamics/lorenz_96.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 162e620..57db55b 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -376,11 +376,13 @@ class Lorenz96(StochasticProcess):
         # Gradients of Esde w.r.t. 'Sigma'.
         dEsde_dSig = np.zeros((dim_t, dim_d))
 
+        # Define lambda function. The drift is
+        # evaluated for each state separately.
+        fun_2 = lambda xt: np.array([l96(x, theta) for x in xt])
+
         # Define lambda function.
-        fun_1 = lambda xt, at, bt: (l96(xt, theta) + xt.dot(at.T) -
+        fun_1 = lambda xt, at, bt: (fun_2(xt) + xt.dot(at.T) -
                                     np.tile(bt, (xt.shape[0], 1))) ** 2
-        # Define lambda function.
-        fun_2 = lambda xt: l96(xt, theta)
 
         # Identity matrix.
         iD = np.eye(dim_d)
-- 
2.43.0


From ceeeea0b6c6d2d2be755ff7caafa9acadda0809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 11/35] fix: unscented covariance was not that of the
 transformed sigma points

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..2a7798e 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -299,7 +299,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     y_bar = weights.dot(y).ravel()
 
     # Compute the approximate covariance.
-    w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
+    w_m = np.eye(dim_m) - np.tile(weights.T, (1, dim_m))
     Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
 
     # Compute the new approximate covariance.
-- 
2.43.0


From 8e25a32ac2cad8736d6247c9c2c34ec7459e8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 12/35] fix: unscented fallback for a non positive definite
 covariance was not scaled

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 2a7798e..0b8dbe5 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
-- 
2.43.0


From 29911b655a30bea2f4434452f593d4a3240e959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 13/35] fix: a random seed of zero was ignored

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From d9a1feef8a693646ff46b843945b219acf81eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 14/35] fix: rounding could extend the time window one step
 past its end

---
 src/dynamics/double_well.py        | 2 +-
 src/dynamics/lorenz_63.py          | 2 +-
 src/dynamics/lorenz_96.py          | 2 +-
 src/dynamics/ornstein_uhlenbeck.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 712fc49..54e7fd2 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -130,7 +130,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual time points.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index c82a30e..5713d81 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -185,7 +185,7 @@ class Lorenz63(StochasticProcess):
         :return: None.
         """
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 57db55b..91d4160 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -261,7 +261,7 @@ class Lorenz96(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index af89dd0..25e8e91 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -136,7 +136,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
-- 
2.43.0


From 8ae1805faeafee0c009a151b8023ce0f9fb51eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 15/35] fix: GaussianMoments failed to report mismatched shapes

---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..099e741 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -28,7 +28,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From b3e84f7087744bad6270231f2f8efb249e2299d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 16/35] fix: an observation at the final time had no effect on
 the backward sweep

---
 src/numerics/euler.py        | 4 ++++
 src/numerics/heun.py         | 4 ++++
 src/numerics/runge_kutta2.py | 4 ++++
 src/numerics/runge_kutta4.py | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/numerics/euler.py b/src/numerics/euler.py
index 09098ae..348fbb5 100644
--- a/src/numerics/euler.py
+++ b/src/numerics/euler.py
@@ -128,6 +128,10 @@ class Euler(OdeSolver):
             psi = np.zeros((dim_n, dim_d, dim_d))
         # _end_if_
 
+        # The only contribution at the final time
+        # is from an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Discrete time step.
         dt = self.dt
 
diff --git a/src/numerics/heun.py b/src/numerics/heun.py
index 5c21d17..d44f91c 100644
--- a/src/numerics/heun.py
+++ b/src/numerics/heun.py
@@ -146,6 +146,10 @@ class Heun(OdeSolver):
             psi = np.zeros((dim_n, dim_d, dim_d))
         # _end_if_
 
+        # The only contribution at the final time
+        # is from an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Discrete time step.
         dt = self.dt
 
diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index f93ecc8..7d340f6 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -164,6 +164,10 @@ class RungeKutta2(OdeSolver):
 
         # _end_if_
 
+        # The only contribution at the final time
+        # is from an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta4.py b/src/numerics/runge_kutta4.py
index e0ffbee..7379c14 100644
--- a/src/numerics/runge_kutta4.py
+++ b/src/numerics/runge_kutta4.py
@@ -175,6 +175,10 @@ class RungeKutta4(OdeSolver):
             dEsk_mid = np.concatenate((dEsk_mid, np.zeros((1, dim_d, dim_d))), axis=0)
         # _end_if_
 
+        # The only contribution at the final time
+        # is from an observation (if there is one).
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
-- 
2.43.0


From 6139ae63ada95d73d4a555f4f20250a4839e290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 17/35] fix: initial guess failed when the first or the last
 time point is observed

---
 src/var_bayes/variational.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index bc3e76c..6cd45f2 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -83,13 +83,15 @@ class VarGP(object):
         # Time window of inference.
         time_window = self.model.time_window
 
-        # Replicate the first and last time points.
-        time_x = [time_window[0], *time_window[self.obs_t], time_window[-1]]
+        # Replicate the first and last time points
+        # (unless there are observed already).
+        time_x, idx_x = np.unique([time_window[0], *time_window[self.obs_t],
+                                   time_window[-1]], return_index=True)
 
         # Switch according to the dimensionality.
         if self.model.single_dim:
             # Replicate the first and last observations.
-            obs_z = np.hstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))
+            obs_z = np.hstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))[idx_x]
 
             # Linear variational parameters.
             a0 = 0.5 * (self.model.sigma / 0.25) * np.ones(self.dim_n)
@@ -102,7 +104,7 @@ class VarGP(object):
             b0 = fb0(time_window)
         else:
             # Replicate the first and last observations.
-            obs_z = np.vstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))
+            obs_z = np.vstack((self.obs_y[0], self.obs_y, self.obs_y[-1]))[idx_x]
 
             # Cubic spline extrapolation for
             # each dimension separately.
-- 
2.43.0


From 0d17cf668c8362c41406370842babc206bc596f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 18/35] fix: correlated system noise was sampled with the wrong
 covariance

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 5713d81..33e3de1 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -209,7 +209,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 91d4160..7d0b1d4 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -288,7 +288,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From 6a586a7803f7f1824cf2342ef0131e00074492e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 19/35] fix: saved moments could belong to a rejected step of
 the optimizer

---
 src/var_bayes/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..4eb159e 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -233,6 +233,10 @@ class Simulation(object):
         # Stop the timer.
         time_tf = time.perf_counter()
 
+        # The last point that was evaluated is not necessarily
+        # the optimum, so make sure the output is consistent.
+        fx = vgpa.free_energy(x)
+
         # Final gradient test.
         # optimize.check_gradient_function(x.copy())
 
-- 
2.43.0


From f5bf4639a56ffe506f25521a1b37c046ceeed7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 20/35] fix: SCG dropped the additional parameters in the
 curvature estimate

---
 src/numerics/optim_scg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index b5ab4fd..2eef735 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -164,7 +164,7 @@ class SCG(object):
                 # Because we evaluate the gradient at a new point
                 # we run the f(x) too,  so that we get consistent
                 # variational and Lagrangian parameters.
-                g_plus = self.df(x_plus, eval_fun=True)
+                g_plus = self.df(x_plus, *args, eval_fun=True)
 
                 # Increase function/gradients evaluations by one.
                 self.stats["f_eval"] += 1
-- 
2.43.0


From d7e54285829f1c58599c37331e5123347c77a1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 21/35] fix: observation density of one per time step could be
 rejected

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..b365b11 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -157,7 +157,7 @@ class StochasticProcess(object):
         # Check if the required number of observations
         # per time unit exceeds the available capacity
         # of samples.
-        if n_obs > int(1.0 / dt):
+        if n_obs > int(np.round(1.0 / dt, 6)):
             raise ValueError(f" {self.__class__.__name__}:"
                              f" Observation density exceeds the number of samples.")
         # _end_def_
-- 
2.43.0


From edc90257fc51dd481d4239dc84da64a2cea6166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 22/35] fix: observing a single component, or with an array
 mask, failed

---
 src/dynamics/stochastic_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index b365b11..c8ff360 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -178,7 +178,7 @@ class StochasticProcess(object):
         obs_y = np.take(self.xt, obs_t, axis=0)
 
         # Check if a mask has been given.
-        if h_mask:
+        if h_mask is not None and np.size(h_mask) > 0:
             # Here we have (d < D)
             obs_y = obs_y[:, h_mask]
         # _end_if_
@@ -187,7 +187,7 @@ class StochasticProcess(object):
         dim_d = 1 if obs_y.ndim == 1 else obs_y.shape[-1]
 
         # Add noise according to the observation dimensions.
-        if dim_d == 1:
+        if obs_y.ndim == 1:
             # Scalar value.
             obs_noise = rn
 
-- 
2.43.0


From 097c8ccd195ad717946bb6f6f9bc25213d04c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 23/35] fix: chol_inv failed on matrices of integers

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 0b8dbe5..b97524f 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -233,7 +233,7 @@ def chol_inv(x):
     if x.ndim == 0:
         return 1.0 / x, 1.0 / np.sqrt(x)
     else:
-        return chol_inv_fast(x)
+        return chol_inv_fast(x.astype(float))
 # _end_def_
 
 def ut_approx(fun, x_bar, x_cov, *args):
-- 
2.43.0


From 655b739dbcd31969105b208dc0a0e1bb01893d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 24/35] fix: n-D likelihood ignored the off-diagonal noise, and
 misapplied the operator

---
 src/var_bayes/gaussian_like.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index cd71d13..1968e09 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -116,13 +116,13 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
+        # Inverse noise in the state space.
+        inv_h = H.T.dot(inv_rn).dot(H)
 
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
@@ -130,19 +130,13 @@ class GaussianLikelihood(Likelihood):
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
+            Eobs += zn_sq + np.sum(inv_h * s[tn])
         # _end_for_
 
         # Compute the final including the constants.
@@ -219,7 +213,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From b086393cc9f08c51dd29a7322509b85af4140282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 25/35] fix: 1-D likelihood ignored the observation operator

---
 src/var_bayes/gaussian_like.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 1968e09..8bdaa66 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -80,6 +80,9 @@ class GaussianLikelihood(Likelihood):
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
+        # Observation operator.
+        H = self.operator
+
         # Total number of observations.
         dim_m = obs_t.size
 
@@ -88,7 +91,7 @@ class GaussianLikelihood(Likelihood):
         Ex2 = (m[obs_t] ** 2) + s[obs_t]
 
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -179,13 +182,13 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2 + 1.0) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
-- 
2.43.0


From 8beb7d341ce39ef38c1f3dfab7ae71fcd420b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 26/35] fix: saving a zero-dimensional array failed

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 4eb159e..da7a128 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -302,7 +302,7 @@ class Simulation(object):
                 for key in data:
 
                     # Convert scalars to 1D arrays.
-                    if np.isscalar(data[key]):
+                    if np.ndim(data[key]) == 0:
                         data[key] = np.atleast_1d(data[key])
                     # _end_if_
 
-- 
2.43.0


From 207592c071070ebdbed5aadc38201f02bad400a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 27/35] fix: non-positive prior or observation variance
 produced NaN results

---
 src/var_bayes/simulation.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index da7a128..45abd13 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -125,6 +125,21 @@ class Simulation(object):
         self.m_data["mu0"] = params["Prior"]["mu0"]
         self.m_data["tau0"] = params["Prior"]["tau0"]
 
+        # The (co)-variances of the observations and of the
+        # prior should be strictly positive, otherwise the
+        # free energy is not defined.
+        for name, value in (("Observation noise", self.m_data["noise"]["obs"]),
+                            ("Prior (tau0)", self.m_data["tau0"])):
+            # Take the diagonal elements, if it is a matrix.
+            diag_v = np.asarray(value, dtype=float)
+            diag_v = diag_v.diagonal() if diag_v.ndim == 2 else diag_v
+
+            if not np.all(diag_v > 0.0):
+                raise ValueError(f" {self.__class__.__name__}:"
+                                 f" {name} {value}, should be strictly positive.")
+            # _end_if_
+        # _end_for_
+
         # Stochastic model parameters.
         system_noise = self.m_data["noise"]["sys"]
         drift_vector = self.m_data["drift"]["theta"]
-- 
2.43.0


From 6f5caec924bdbf9242a89cdacd8ba5436cf57082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 28/35] fix: load could not read any saved simulation

h5py has no conversion of numeric datasets to arrays of objects, so
np.array(dataset, dtype=object) raised an OSError for every file.
---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 45abd13..fcb6fd4 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -356,7 +356,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From d01f555e7925030f97cb6d491a5391564c5d3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:05 +0000
Subject: [PATCH 29/35] fix: gradient of the observation energy w.r.t. a scalar
 noise had the wrong sign and scale

---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 8bdaa66..e84ee5d 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -188,7 +188,7 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = -0.5 * (((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2) / self.noise - 1.0) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
-- 
2.43.0


From aededd5776a3cb3b1b23b26457637ca672b74ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:29 +0000
Subject: [PATCH 30/35] fix: gradient of the observation energy w.r.t. a noise
 matrix was all zeros, with the wrong shape

---
 src/var_bayes/gaussian_like.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index e84ee5d..570f501 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -63,7 +63,7 @@ class GaussianLikelihood(Likelihood):
 
         :return: Energy from the observation likelihood, (scalar).
         """
-        return self.gradients_1d(m, s) if self.single_dim else self.gradients_nd(m)
+        return self.gradients_1d(m, s) if self.single_dim else self.gradients_nd(m, s)
     # _end_def_
 
     def gauss_1d(self, m: np.ndarray, s: np.ndarray):
@@ -194,20 +194,22 @@ class GaussianLikelihood(Likelihood):
         return dEobs_dm, dEobs_ds, dEobs_dr
     # _end_def
 
-    def gradients_nd(self, m: np.ndarray):
+    def gradients_nd(self, m: np.ndarray, s: np.ndarray):
         """
         nD gradients of Eobs.
 
         :param m: marginal means m(t), (dim_n x dim_d).
 
-        :return: Energy from the observation likelihood, (scalar).
+        :param s: marginal variances s(t), (dim_n x dim_d x dim_d).
+
+        :return: dEobs_dm, dEobs_ds, dEobs_dr.
         """
         # Extract the observation values and times
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
         # Dimensions of observations.
-        dim_o, _ = obs_y.shape
+        _, dim_o = obs_y.shape
 
         # Dimensions of input array.
         dim_n, dim_d = m.shape
@@ -233,6 +235,12 @@ class GaussianLikelihood(Likelihood):
 
             # Gradient of E_{obs} w.r.t. S(tn).
             dEobs_ds[tn] = 0.5 * H.T.dot(inv_rn).dot(H)
+
+            # Expected squared residuals at time tn.
+            Wn_sq = np.outer(W[n], W[n]) + H.dot(s[tn]).dot(H.T)
+
+            # Gradient of E_{obs} w.r.t. the noise.
+            dEobs_dr[tn] = 0.5 * (inv_rn - inv_rn.dot(Wn_sq).dot(inv_rn))
         # _end_for_
 
         # Gradients of energy Eobs.
-- 
2.43.0


From 30c8965953dc2e0fe0b99859a5953a1767ba4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 31/35] fix: setup no longer overwrites the caller's prior
 arrays, and takes integer and vector ones

---
 src/var_bayes/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index fcb6fd4..a5f4c83 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -187,8 +187,8 @@ class Simulation(object):
             self.m_data["s0"] = 0.2 * np.eye(dim_d)
 
             # Adjust the prior values.
-            self.m_data["mu0"] *= np.ones(dim_d)
-            self.m_data["tau0"] *= np.eye(dim_d)
+            self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
+            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From 14a0909503abd4b22f06f4040047274e5ed550a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 32/35] fix: scalar models reject a noise (and OU drift) that
 is not a number

---
 src/dynamics/double_well.py        | 4 ++--
 src/dynamics/ornstein_uhlenbeck.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 54e7fd2..b927ca7 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -37,7 +37,7 @@ class DoubleWell(StochasticProcess):
         print(" Creating Double-Well process.")
 
         # Check value.
-        if sigma <= 0.0:
+        if not sigma > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
                              f" The diffusion noise value: {sigma},"
                              f" should be strictly positive.")
@@ -94,7 +94,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Accept only positive values.
-        if new_value <= 0.0:
+        if not new_value > 0.0:
             # Raise an error with a message.
             raise ValueError(f" {self.__class__.__name__}: The sigma value:"
                              f" {new_value}, should be strictly positive.")
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index 25e8e91..9f58a62 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -31,7 +31,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         print(" Creating Ornstein-Uhlenbeck process.")
 
         # Check noise value.
-        if sigma <= 0.0:
+        if not sigma > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
                              f" The diffusion noise value: {sigma},"
                              f" should be strictly positive.")
@@ -39,7 +39,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         self._sigma = sigma
 
         # Check the drift parameter.
-        if theta <= 0.0:
+        if not theta > 0.0:
             raise ValueError(f" {self.__class__.__name__}:"
                              f" The drift parameter: {theta},"
                              f" should be strictly positive.")
@@ -70,7 +70,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Accept only positive values.
-        if new_value <= 0.0:
+        if not new_value > 0.0:
             # Raise an error with a message.
             raise ValueError(f" {self.__class__.__name__}: The drift value"
                              f" {new_value}, should be strictly positive.")
@@ -98,7 +98,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Accept only positive values.
-        if new_value <= 0.0:
+        if not new_value > 0.0:
             # Raise an error with a message.
             raise ValueError(f"{self.__class__.__name__}: The sigma value "
                              f"{new_value}, should be strictly positive.")
-- 
2.43.0


From b285b6f63e1e84d1c5d58f23bba5d15a2a633f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:04 +0000
Subject: [PATCH 33/35] fix: Lorenz models reject a noise matrix that is not
 symmetric

---
 src/dynamics/lorenz_63.py | 6 ++++--
 src/dynamics/lorenz_96.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 33e3de1..ccd233c 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -89,7 +89,8 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.any(np.linalg.eigvals(self._sigma) <= 0.0):
+        if not np.allclose(self._sigma, self._sigma.T, atol=1.0e-8 * np.abs(self._sigma).max()) or\
+                np.any(np.linalg.eigvals(self._sigma) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {self._sigma} is not positive definite.")
         # _end_if_
@@ -149,7 +150,8 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.any(np.linalg.eigvals(new_value) <= 0.0):
+        if not np.allclose(new_value, new_value.T, atol=1.0e-8 * np.abs(new_value).max()) or\
+                np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 7d0b1d4..06b2655 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -167,7 +167,8 @@ class Lorenz96(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(self._sigma) > 0.0):
+        if np.allclose(self._sigma, self._sigma.T, atol=1.0e-8 * np.abs(self._sigma).max()) and\
+                np.all(np.linalg.eigvals(self._sigma) > 0.0):
             # This is a better way to invert Sigma.
             self.sig_inv, _ = chol_inv(self._sigma)
         else:
@@ -226,7 +227,8 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.any(np.linalg.eigvals(new_value) <= 0.0):
+        if not np.allclose(new_value, new_value.T, atol=1.0e-8 * np.abs(new_value).max()) or\
+                np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 95c70b3ea1f01fedeac5583d5b9885e1f8074699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:59 +0000
Subject: [PATCH 34/35] fix: SCG kept the statistics of an earlier call

---
 src/numerics/optim_scg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index 2eef735..72d33e4 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -92,6 +92,11 @@ class SCG(object):
         # Size of input array.
         dim_x = x.size
 
+        # Reset the statistics (from a previous call).
+        self.stats = {"MaxIt": self.nit, "fx": np.zeros(self.nit),
+                      "dfx": np.zeros(self.nit), "f_eval": 0.0,
+                      "df_eval": 0.0, "beta": np.zeros(self.nit)}
+
         # Initial sigma.
         sigma0 = 1.0e-3
 
-- 
2.43.0


From 2cbc90729b6677d15293644fe0e5d00e265d3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:23 +0000
Subject: [PATCH 35/35] fix: run() after a rejected setup() used a mixture of
 two sets of parameters

---
 src/var_bayes/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index a5f4c83..f2f07b6 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -103,6 +103,10 @@ class Simulation(object):
 
         :return: None.
         """
+        # Drop the data of a previous setup. Otherwise, if this
+        # one is rejected, run() would use a mixture of the two.
+        self.m_data = {}
+
         # Extract drift parameters.
         self.m_data["drift"] = params["Drift"]
 
-- 
2.43.0

