From 7cb2775ddd72b94a17f875bed957479a659d33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 01/36] fix: RK2 forward covariance step used S(t) in place of
 A(t)

---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From b3dfd7080ebb0fb6f1ebaf4cf668d96740c1c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 02/36] fix: nD adjoint of the mean used A(t) instead of A(t).T

The adjoint of dm/dt = -A*m + b is dlam/dt = -dE/dm + A.T*lam, so the
gradient was wrong whenever A(t) is not symmetric.
---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..ed96241 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (lam * A), with lam as row vector
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From 804117009762f72075b7df425c94cccced89a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 03/36] fix: double-well energy dropped half of the sixth order
 moment

---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From 4397583973f6ed987236b5552b55efda5dde26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 04/36] fix: 1D KL0 counted the log-variance twice

---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b0c3966 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
-- 
2.43.0


From 675faf5148d6ac8e4101e64d0172cd16b18d9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 05/36] fix: nD KL0 used an inner product and a non-symmetric
 Cholesky

The mean term needs the outer product z0*z0', and tau0*inv(s0) is not
symmetric in general, so its log-determinant is taken by parts.
---
 src/var_bayes/prior_kl0.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index b0c3966..a8d75af 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -77,15 +77,12 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
         # Energy of the initial moment.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From 11f8fe0e91c6dbc080044a187aba83c97e72163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 06/36] fix: Lorenz models rejected a scalar system noise

np.isscalar() is False for the 0-d array made by np.asarray(), so the
shipped L3D / L40D parameter files could not run.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From 29dc8c402dcf07cc4bb069eb75a933593f4fcc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 07/36] fix: sigma setters stored indefinite noise matrices

A matrix with one non-positive eigenvalue passed the check, was stored,
and left the inverse out of step when the inversion then failed.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..f3cf214 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..162e620 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,7 +226,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 2f8b0411f8c4c10d6b3306e69b32e8449e72be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 08/36] fix: correlated system noise had the wrong covariance

scipy's cholesky() is upper triangular by default; U*z has covariance
U*U', not the requested U'*U.
---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f3cf214..e7e52d1 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -209,7 +209,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 162e620..f652fae 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -288,7 +288,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From ad4beaf6f8880df3bce9b1ce9e969036fdd70532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 09/36] fix: Lorenz63 covariance gradient counted off-diagonals
 twice

---
 src/dynamics/lorenz_63.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index e7e52d1..898a4f3 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -561,9 +561,11 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # NOTE: the off-diagonal terms are derivatives w.r.t. both symmetric
+        # entries of S(t) at once, hence each entry takes half of the value.
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From 72be78658d9c841474ef2254107dca7ad3e390f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 10/36] fix: random seed zero was ignored

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From d3164873aca6d229c46082add6bbc1814f3cbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 11/36] fix: time window could run one step past the final time

With t0=0, tf=20, dt=0.01 (the shipped L3D setup) rounding made the
window end at 20.01.
---
 src/dynamics/double_well.py        | 2 +-
 src/dynamics/lorenz_63.py          | 2 +-
 src/dynamics/lorenz_96.py          | 2 +-
 src/dynamics/ornstein_uhlenbeck.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 712fc49..54e7fd2 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -130,7 +130,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual time points.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 898a4f3..929fb11 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -185,7 +185,7 @@ class Lorenz63(StochasticProcess):
         :return: None.
         """
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index f652fae..94e3512 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -261,7 +261,7 @@ class Lorenz96(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index af89dd0..25e8e91 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -136,7 +136,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
-- 
2.43.0


From 2d2b27d34dfe8d27ac2f62f3e2ac9f1023af9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 12/36] fix: shape mismatch message of GaussianMoments was
 malformed

---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..099e741 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -28,7 +28,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From 70b35199e8f506a2cba99fc8c91b6f23ebdf8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 13/36] fix: chol_inv failed on integer matrices

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..9d453c2 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -227,7 +227,7 @@ def chol_inv(x):
     """
 
     # Make sure input is array.
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
 
     # Check if the input is scalar.
     if x.ndim == 0:
-- 
2.43.0


From 657aacf9288138aaddbe74079ac17cd72d346ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 14/36] fix: diagonal fallback of ut_approx lost the scaling
 factor

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 9d453c2..8f9fc8c 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
-- 
2.43.0


From 6766e194123c82b82653e1acbf942eb7f82884b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 15/36] fix: nD likelihood read the covariance at the wrong
 time index

The n-th observation is at time index obs_t[n]; the code took S at index
n. The trace term also ignored correlated observation noise.
---
 src/var_bayes/gaussian_like.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..16f82de 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -121,28 +121,19 @@ class GaussianLikelihood(Likelihood):
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
-
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
 
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
-            # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            # Energy term: trace(Rn^{-1} * H * S(tn) * H').
+            Eobs += zn_sq + np.sum(inv_rn * H.dot(s[tn]).dot(H.T))
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 491111cea6858da35a911785ca68212ec8a6511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 16/36] fix: Gaussian likelihood misapplied the observation
 operator

The operator maps the state to the observation space, y = H*x: the 1D
energy ignored it, its gradients used it once instead of twice, and the
nD version applied it to the residual instead of the state.
---
 src/var_bayes/gaussian_like.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 16f82de..b7311c8 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -80,15 +80,18 @@ class GaussianLikelihood(Likelihood):
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
+        # Observation operator.
+        H = self.operator
+
         # Total number of observations.
         dim_m = obs_t.size
 
         # Second order Gaussian moments,
         # at observation times only.
-        Ex2 = (m[obs_t] ** 2) + s[obs_t]
+        Ex2 = (H ** 2) * ((m[obs_t] ** 2) + s[obs_t])
 
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -116,7 +119,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
@@ -162,7 +165,7 @@ class GaussianLikelihood(Likelihood):
 
         # Second order Gaussian moments,
         # at observation times only.
-        Ex2 = (m[obs_t] ** 2) + s[obs_t]
+        Ex2 = (H ** 2) * ((m[obs_t] ** 2) + s[obs_t])
 
         # Get the total number of discrete times.
         dim_n = m.shape[0]
@@ -176,13 +179,13 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2 + 1.0) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
@@ -210,7 +213,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From 409f7e3ab4e63e7576f2e4b7d66eed288f6e2cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 17/36] fix: 1D likelihood gradient w.r.t. the observation
 noise

d/dR of 0.5*(q/R + log(R)) is -0.5*(q/R - 1)/R.
---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index b7311c8..7ceaae9 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -185,7 +185,7 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = -0.5 * (((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2) / self.noise - 1.0) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
-- 
2.43.0


From e7ec7eaeb02aee03002a732e0378d9fd4722a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 18/36] fix: Lorenz96 energy mixed neighbouring sigma points

The drift was given the whole batch of sigma points, and np.roll()
without axis shifts the flattened batch, so the first and last
components of each point were taken from another point.
---
 src/dynamics/lorenz_96.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 94e3512..d38e244 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -377,10 +377,12 @@ class Lorenz96(StochasticProcess):
         dEsde_dSig = np.zeros((dim_t, dim_d))
 
         # Define lambda function.
-        fun_1 = lambda xt, at, bt: (l96(xt, theta) + xt.dot(at.T) -
-                                    np.tile(bt, (xt.shape[0], 1))) ** 2
+        # NOTE: the drift is defined for a single state vector.
+        fun_2 = lambda xt: np.array([l96(xk, theta) for xk in xt])
+
         # Define lambda function.
-        fun_2 = lambda xt: l96(xt, theta)
+        fun_1 = lambda xt, at, bt: (fun_2(xt) + xt.dot(at.T) -
+                                    np.tile(bt, (xt.shape[0], 1))) ** 2
 
         # Identity matrix.
         iD = np.eye(dim_d)
-- 
2.43.0


From 973194ca81d0fd013ba6d220aa12c7993214ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 19/36] fix: saved moments could belong to a rejected search
 point

---
 src/var_bayes/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..aa6b93e 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -230,6 +230,10 @@ class Simulation(object):
         # Run the optimization procedure.
         x, fx = optimize(x0.copy())
 
+        # The last point that was evaluated  might be one that the
+        # optimizer rejected. Make the moments match the solution.
+        _ = vgpa.free_energy(x)
+
         # Stop the timer.
         time_tf = time.perf_counter()
 
-- 
2.43.0


From 5c0eb61bc2a5654f798b7f7d0fa1d5c57d58696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 20/36] fix: setup() with given data left the observation noise
 unset

---
 src/var_bayes/simulation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index aa6b93e..afacdcb 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -146,6 +146,15 @@ class Simulation(object):
         if data is not None:
             self.m_data["obs_t"] = data[0]
             self.m_data["obs_y"] = data[1]
+
+            # Observation noise (co)-variance.
+            obs_noise = np.asarray(self.m_data["noise"]["obs"])
+
+            if not self.m_data["single_dim"]:
+                obs_noise = obs_noise * np.eye(np.shape(data[1])[-1])
+            # _end_if_
+
+            self.m_data["obs_noise"] = obs_noise
         else:
             # Sample observations from the trajectory.
             obs_t, obs_y, obs_noise = self.m_data["model"].collect_obs(self.m_data["obs_setup"]["density"],
-- 
2.43.0


From 0a75508ca3354bbfc81d9f69f4bcc88ea8ac8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 21/36] fix: collect_obs failed with array or single component
 masks

---
 src/dynamics/stochastic_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..5320ea6 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -178,7 +178,7 @@ class StochasticProcess(object):
         obs_y = np.take(self.xt, obs_t, axis=0)
 
         # Check if a mask has been given.
-        if h_mask:
+        if h_mask is not None:
             # Here we have (d < D)
             obs_y = obs_y[:, h_mask]
         # _end_if_
@@ -195,7 +195,7 @@ class StochasticProcess(object):
             sq_rn = np.sqrt(obs_noise)
 
             # Fixed Gaussian noise.
-            obs_y += sq_rn * self.rand_g.standard_normal(dim_m)
+            obs_y += sq_rn * self.rand_g.standard_normal(dim_m).reshape(obs_y.shape)
 
         else:
             # Multidimensional case.
-- 
2.43.0


From 785a89acd6109cbd6386cd08c428c1d41c22ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 22/36] fix: covariance of ut_approx was wrong away from a zero
 mean

The centred outputs are (I - 1*w)*y, so the weight matrix is the
transpose of the one that was used.
---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8f9fc8c..b157143 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -300,7 +300,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
 
     # Compute the approximate covariance.
     w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
-    Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
+    Q = w_m.T.dot(np.diag(weights.ravel())).dot(w_m)
 
     # Compute the new approximate covariance.
     y_cov = y.T.dot(Q).dot(y)
-- 
2.43.0


From 4f4af3166856b8b1bfb0a3db01f1c52e5bd59fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 23/36] fix: SCG kept the iteration count of an earlier run

---
 src/numerics/optim_scg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index b5ab4fd..04db203 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -280,6 +280,9 @@ class SCG(object):
         # Here we have reached the maximum number of iterations.
         fx = f_old
 
+        # Update the statistic.
+        self.stats["MaxIt"] = self.nit
+
         # Exit from here.
         return x, fx
     # _end_def_
-- 
2.43.0


From 7a1d3a066d6eb26e24fea6325e7d79043ac53937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:35 +0000
Subject: [PATCH 24/36] fix: a nearly singular noise matrix left sigma and its
 inverse out of step

---
 src/dynamics/lorenz_63.py | 5 ++++-
 src/dynamics/lorenz_96.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 929fb11..c7ffd4c 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -154,11 +154,14 @@ class Lorenz63(StochasticProcess):
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
 
+        # This may still fail if the matrix is nearly singular.
+        new_inverse, _ = chol_inv(new_value)
+
         # Make the change.
         self._sigma = new_value
 
         # Update the inverse matrix.
-        self.sig_inv, _ = chol_inv(self._sigma)
+        self.sig_inv = new_inverse
     # _end_def_
 
     @property
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index d38e244..e559c25 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -229,11 +229,14 @@ class Lorenz96(StochasticProcess):
         if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
+        # This may still fail if the matrix is nearly singular.
+        new_inverse, _ = chol_inv(new_value)
+
         # Make the change.
         self._sigma = new_value
 
         # Update the inverse matrix.
-        self.sig_inv, _ = chol_inv(self._sigma)
+        self.sig_inv = new_inverse
     # _end_def_
 
     @property
-- 
2.43.0


From e9714caa4eeb202f1414a493ff4fe9a53ec24568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:42 +0000
Subject: [PATCH 25/36] fix: load() could not read back any saved results

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index afacdcb..7aa6efb 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -350,7 +350,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From ae78a153a669403b7eb1cbe3b2dcbc4b24152db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 26/36] fix: setup() overwrote prior arrays given by the caller

---
 src/var_bayes/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 7aa6efb..f1f418c 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -181,8 +181,8 @@ class Simulation(object):
             self.m_data["s0"] = 0.2 * np.eye(dim_d)
 
             # Adjust the prior values.
-            self.m_data["mu0"] *= np.ones(dim_d)
-            self.m_data["tau0"] *= np.eye(dim_d)
+            self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
+            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From 7a5a6a630f1e1d991f30dfa7055d41faac3e0185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 27/36] fix: observations given with --data could not be used

---
 vgpa_main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vgpa_main.py b/vgpa_main.py
index 77193b8..01e4733 100755
--- a/vgpa_main.py
+++ b/vgpa_main.py
@@ -112,6 +112,9 @@ def main(params_file=None, data_file=None):
             obs_data = pd.read_csv(input_file,
                                    names=["t", "Yt"])
         # _end_with_
+
+        # Split the columns to observation times / values.
+        obs_data = (obs_data["t"].to_numpy(), obs_data["Yt"].to_numpy())
     # _end_if_
 
     # Get the output name from the file.
-- 
2.43.0


From 131c45c027bc486127697a22f14655692954c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:19 +0000
Subject: [PATCH 28/36] fix: non-positive observation noise or prior variance
 saved NaN results as a success

---
 src/var_bayes/simulation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index f1f418c..0ebf68f 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -125,6 +125,20 @@ class Simulation(object):
         self.m_data["mu0"] = params["Prior"]["mu0"]
         self.m_data["tau0"] = params["Prior"]["tau0"]
 
+        # The (co)-variances must be positive.
+        for name_, value_ in (("observation noise", self.m_data["noise"]["obs"]),
+                              ("prior variance", self.m_data["tau0"])):
+            # Variances of the individual components.
+            var_ = np.asarray(value_)
+            var_ = var_.diagonal() if var_.ndim == 2 else var_
+
+            # Check for validity.
+            if not np.all(var_ > 0.0):
+                raise ValueError(f" {self.__class__.__name__}:"
+                                 f" The {name_} should be strictly positive -> {value_}")
+            # _end_if_
+        # _end_for_
+
         # Stochastic model parameters.
         system_noise = self.m_data["noise"]["sys"]
         drift_vector = self.m_data["drift"]["theta"]
-- 
2.43.0


From e764e1d1fdcd42497fe48791bd53be716893cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 29/36] fix: one-dimensional system in matrix form could not be
 evaluated

---
 src/var_bayes/variational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index bc3e76c..2979e60 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -149,8 +149,8 @@ class VarGP(object):
         :return: E0 + Esde + Eobs (scalar).
         """
 
-        # Switch according to dim_d.
-        if self.dim_d == 1:
+        # Switch according to the dimensionality.
+        if self.model.single_dim:
             # Extract a(t) and b(t).
             linear_a = x[:self.dim_tot]
             offset_b = x[self.dim_tot:]
-- 
2.43.0


From b9e02627f921071d9b68c2a5904cafc1e34ad887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 30/36] fix: Gaussian moments of integer inputs overflowed at
 high orders

---
 src/var_bayes/gaussian_moments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index 099e741..fea2b34 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -22,8 +22,10 @@ class GaussianMoments(object):
         :param v_arr: marginal variances array (N x 1).
         """
 
-        # Make sure the inputs are at least 1-D.
-        m_arr, v_arr = np.atleast_1d(m_arr, v_arr)
+        # Make sure the inputs are at least 1-D and floats
+        # (high powers of integers would overflow).
+        m_arr, v_arr = np.atleast_1d(np.asarray(m_arr, dtype=float),
+                                     np.asarray(v_arr, dtype=float))
 
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
-- 
2.43.0


From 6118344f2a6d2b8f3d858dd113c7e166f1a11e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:11 +0000
Subject: [PATCH 31/36] fix: optimizer did not pass the extra arguments to the
 curvature probe

---
 src/numerics/optim_scg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index 04db203..aaad1b9 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -164,7 +164,7 @@ class SCG(object):
                 # Because we evaluate the gradient at a new point
                 # we run the f(x) too,  so that we get consistent
                 # variational and Lagrangian parameters.
-                g_plus = self.df(x_plus, eval_fun=True)
+                g_plus = self.df(x_plus, *args, eval_fun=True)
 
                 # Increase function/gradients evaluations by one.
                 self.stats["f_eval"] += 1
-- 
2.43.0


From 1aa95df2adb12aafc00c8a7cb7c130296c1570c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 32/36] fix: optimizer statistics mixed several runs of one
 object

---
 src/numerics/optim_scg.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index aaad1b9..650b82f 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -83,6 +83,11 @@ class SCG(object):
         :return: 1)  x: the point where the minimum was found,
                  2) fx: the function value (at the minimum point).
         """
+        # The statistics describe this run only.
+        self.stats = {"MaxIt": self.nit, "fx": np.zeros(self.nit),
+                      "dfx": np.zeros(self.nit), "f_eval": 0.0,
+                      "df_eval": 0.0, "beta": np.zeros(self.nit)}
+
         # Make a local copy of the function.
         _copy = np.copy
 
-- 
2.43.0


From 7d22a849839b36f39f6c4c5d4af0071789ea7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:28 +0000
Subject: [PATCH 33/36] fix: a time observed more than once got the likelihood
 gradient of its last observation only

---
 src/var_bayes/gaussian_like.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 7ceaae9..e8a4287 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -178,14 +178,18 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds = np.zeros(dim_n)
         dEobs_dr = np.zeros(dim_n)
 
+        # NOTE: A time that is observed more than once
+        # collects the gradients of all its observations.
+
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - H * W / self.noise
+        np.add.at(dEobs_dm, obs_t, np.ravel(- H * W / self.noise))
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
+        np.add.at(dEobs_ds, obs_t, np.ravel(0.5 * (H ** 2) / self.noise))
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * (((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2) / self.noise - 1.0) / self.noise
+        np.add.at(dEobs_dr, obs_t,
+                  np.ravel(-0.5 * (((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + Ex2) / self.noise - 1.0) / self.noise))
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
@@ -226,10 +230,10 @@ class GaussianLikelihood(Likelihood):
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Gradient of E_{obs} w.r.t. m(tn).
-            dEobs_dm[tn] = -H.T.dot(inv_rn).dot(W[n])
+            dEobs_dm[tn] += -H.T.dot(inv_rn).dot(W[n])
 
             # Gradient of E_{obs} w.r.t. S(tn).
-            dEobs_ds[tn] = 0.5 * H.T.dot(inv_rn).dot(H)
+            dEobs_ds[tn] += 0.5 * H.T.dot(inv_rn).dot(H)
         # _end_for_
 
         # Gradients of energy Eobs.
-- 
2.43.0


From 3f36d861c02badb3b4547591b9d935c6ab237c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:38 +0000
Subject: [PATCH 34/36] fix: the integral counted intervals twice when
 observation times were not in order

---
 src/numerics/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index b157143..4a75ff0 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -176,6 +176,9 @@ def my_trapz(fx, dx=1.0, obs_t=None):
         return trapezoid(fx, dx=dx, axis=0)
     # _end_if_
 
+    # The partial integrals follow the order of time.
+    obs_t = np.sort(obs_t)
+
     # Total integral.
     tot_area = 0.0
 
-- 
2.43.0


From 885feac66ebf11a72b15a84eaa14e32ace40054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:50 +0000
Subject: [PATCH 35/36] fix: the initial guess could not be made when the first
 or the last time point was observed

---
 src/var_bayes/variational.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index 2979e60..231551f 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -86,6 +86,10 @@ class VarGP(object):
         # Replicate the first and last time points.
         time_x = [time_window[0], *time_window[self.obs_t], time_window[-1]]
 
+        # Do not replicate the points that are already observed.
+        i0 = 1 if time_x[0] == time_x[1] else 0
+        i1 = -1 if time_x[-2] == time_x[-1] else None
+
         # Switch according to the dimensionality.
         if self.model.single_dim:
             # Replicate the first and last observations.
@@ -96,7 +100,7 @@ class VarGP(object):
 
             # Build a uni-variate extrapolation
             # (with cubic splines).
-            fb0 = CubicSpline(time_x, obs_z)
+            fb0 = CubicSpline(time_x[i0:i1], obs_z[i0:i1])
 
             # Generate the offset parameters on the whole time window.
             b0 = fb0(time_window)
@@ -106,7 +110,7 @@ class VarGP(object):
 
             # Cubic spline extrapolation for
             # each dimension separately.
-            fb0 = CubicSpline(time_x, obs_z)
+            fb0 = CubicSpline(time_x[i0:i1], obs_z[i0:i1])
             mt0 = fb0(time_window)
 
             # Preallocate variational parameters.
-- 
2.43.0


From 7e9d5182ab66d7c92591f884833b0b463e28f4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:47 +0000
Subject: [PATCH 36/36] fix: the backward sweep ignored an observation at the
 final time

---
 src/numerics/euler.py        | 4 ++++
 src/numerics/heun.py         | 4 ++++
 src/numerics/runge_kutta2.py | 4 ++++
 src/numerics/runge_kutta4.py | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/numerics/euler.py b/src/numerics/euler.py
index 09098ae..f519081 100644
--- a/src/numerics/euler.py
+++ b/src/numerics/euler.py
@@ -128,6 +128,10 @@ class Euler(OdeSolver):
             psi = np.zeros((dim_n, dim_d, dim_d))
         # _end_if_
 
+        # Jumps at the final time point (if it is observed).
+        lam[-1] = dEobs_dm[-1]
+        psi[-1] = dEobs_ds[-1]
+
         # Discrete time step.
         dt = self.dt
 
diff --git a/src/numerics/heun.py b/src/numerics/heun.py
index 5c21d17..1c2ad0e 100644
--- a/src/numerics/heun.py
+++ b/src/numerics/heun.py
@@ -146,6 +146,10 @@ class Heun(OdeSolver):
             psi = np.zeros((dim_n, dim_d, dim_d))
         # _end_if_
 
+        # Jumps at the final time point (if it is observed).
+        lam[-1] = dEobs_dm[-1]
+        psi[-1] = dEobs_ds[-1]
+
         # Discrete time step.
         dt = self.dt
 
diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index f93ecc8..2c6304a 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -164,6 +164,10 @@ class RungeKutta2(OdeSolver):
 
         # _end_if_
 
+        # Jumps at the final time point (if it is observed).
+        lam[-1] = dEobs_dm[-1]
+        psi[-1] = dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta4.py b/src/numerics/runge_kutta4.py
index e0ffbee..dac02ba 100644
--- a/src/numerics/runge_kutta4.py
+++ b/src/numerics/runge_kutta4.py
@@ -175,6 +175,10 @@ class RungeKutta4(OdeSolver):
             dEsk_mid = np.concatenate((dEsk_mid, np.zeros((1, dim_d, dim_d))), axis=0)
         # _end_if_
 
+        # Jumps at the final time point (if it is observed).
+        lam[-1] = dEobs_dm[-1]
+        psi[-1] = dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
-- 
2.43.0

