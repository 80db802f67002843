From 0f8535319d693341d5c32c31a786da6230274fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 01/17] fix: square root UKF gain for multi-dimensional
 observations

The innovation covariance is S = M.T M with M upper triangular, so the two
triangular solves have to use M.T first and M second, and the covariance
downdate K S K.T = (K M.T)(K M.T).T.  The old order was only right for a
one-dimensional observation.
---
 pykalman/sqrt/unscented.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..ca5843f 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -286,14 +286,14 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
         ##############################################
 
         # equivalent to this MATLAB code
-        # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        # K = (cross_sigma / obs_sigma2_pred) / obs_sigma2_pred.T
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From a910d181eaacdcb57163d614f7f261c401434f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 02/17] fix: square root UKF honours the negative centre weight

For more than 3 state dimensions the weight of the central sigma point is
negative.  QR squares its rows, so the sign put in front of the square root was
lost and the point was added to the covariance instead of subtracted.
---
 pykalman/sqrt/unscented.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index ca5843f..860e5ed 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -133,16 +133,19 @@ def points2moments(points, sigma2_noise=None):
     (points, weights_mu, weights_sigma) = points
     mu = points.T.dot(weights_mu)
 
-    # make points to perform QR factorization on. each column is one data point
+    # make points to perform QR factorization on. each column is one data point.
+    # a negative weight cannot be represented there, so it is left out and taken
+    # away afterwards
+    positive = weights_sigma >= 0
+    points_diff = points - mu
     qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
+        np.sqrt(weights_sigma[positive])[np.newaxis, :] * points_diff[positive].T
     ]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+    for i in np.flatnonzero(~positive):
+        sigma2 = cholupdate(sigma2, points_diff[i], weights_sigma[i])
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From 51bfa3fe3e44a37f02ca9e0061b9ad5c9cc21f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 03/17] fix: filter_update of the square root filters returns a
 2-D covariance

The documented shape is [n_dim_state, n_dim_state]; it was
[1, n_dim_state, n_dim_state], so a result could not be fed back into the next
filter_update.
---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..c333d2d 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -703,7 +703,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..c7773dd 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -534,7 +534,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 860e5ed..b37d933 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -767,7 +767,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From 9b9ec3199f3d3a8f9f616ded160148cdb67433e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 04/17] fix: em() of the square root filters works with the
 default em_vars

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index c333d2d..efad549 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -813,7 +813,7 @@ class BiermanKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index c7773dd..30dc98f 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -644,7 +644,7 @@ class CholeskyKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From 84a8c4a82be2f4f6c8939792afb32f36bd675d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 05/17] fix: a single multi-dimensional observation is one
 timestep

A [1, n_dim_obs] batch was transposed into n_dim_obs timesteps of one dimension
each.
---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..20ab4f4 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1643,6 +1643,6 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..16fc650 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -733,7 +733,7 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
 
-- 
2.43.0


From ce8ee5c562e3d77731646dfcdb5a8827476fafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 06/17] fix: sample() uses the covariance of each timestep

The first slice of a time-varying covariance replaced the whole array, and was
used for every later timestep.
---
 pykalman/standard.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 20ab4f4..9b321a4 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1162,8 +1162,7 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                cov = newbyteorder(_last_dims(transition_covariance, t - 1), "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1172,13 +1171,11 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            cov = newbyteorder(_last_dims(observation_covariance, t), "=")
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
-                + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
-                )
+                + rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             )
 
         return (states, np.ma.array(observations))
-- 
2.43.0


From 549bd6d1ac410c2551e9217d71594182dd1580c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 07/17] fix: loglikelihood() with a time-varying observation
 covariance

---
 pykalman/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 9b321a4..e4b063e 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -162,6 +162,7 @@ def _loglikelihoods(
         if not np.any(np.ma.getmask(observation)):
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             predicted_state_mean = _last_dims(predicted_state_means, t, ndims=1)
             predicted_state_covariance = _last_dims(predicted_state_covariances, t)
 
@@ -173,7 +174,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + observation_covariance_t
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From 842dcc4e128e8858aa7980f8fd9dec6b0381cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 08/17] fix: unscented filters use the function of each
 timestep

Given a list of functions, one per timestep as documented, the first one was
used at every timestep.
---
 pykalman/sqrt/unscented.py | 10 ++++-----
 pykalman/unscented.py      | 44 ++++++++++++++++++++++++++++----------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index b37d933..7f23e62 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,9 +22,9 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default, _last_dims
+from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
 
 
@@ -460,14 +460,14 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma2_transition=Q2
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma2_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma2_observation=R2
         )
@@ -519,7 +519,7 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        transition_function = _last_dims(f, t, ndims=1)[0]
+        transition_function = _function_at(f, t)
         (points_pred, moments_pred) = _unscented_transform(
             points_state, transition_function, sigma2_noise=Q2
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 16fc650..d6b2b70 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -14,7 +14,7 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from .standard import _arg_or_default, _determine_dimensionality, _last_dims
+from .standard import _arg_or_default, _determine_dimensionality
 from .utils import (
     array1d,
     array2d,
@@ -35,6 +35,28 @@ SigmaPoints = namedtuple(
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
 
+def _function_at(functions, t):
+    """Select the function for time step `t`.
+
+    Parameters
+    ----------
+    functions : [1] or [n_timesteps] array of functions
+        a single function used at all times, or one function per time step
+        (optionally as a column).
+    t : int
+        time step
+
+    Returns
+    -------
+    function : function
+        function to use at time step `t`
+    """
+    functions = np.asarray(functions)
+    if functions.ndim == 2:
+        functions = functions[:, 0]
+    return functions[0] if len(functions) == 1 else functions[t]
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -452,13 +474,13 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (points_pred, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, points_transition=points_transition
             )
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function,
             moments_pred,
@@ -516,7 +538,7 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         )
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, points_noise=points_transition
         )
@@ -592,14 +614,14 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma_transition=Q
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[x_t | z_{0:t}], Var(x_t | z_{0:t})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma_observation=R
         )
@@ -650,7 +672,7 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, sigma_noise=Q
         )
@@ -847,12 +869,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1], transition_noise)
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t], observation_noise)
@@ -1163,12 +1185,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1]) + transition_noise
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t]) + observation_noise
-- 
2.43.0


From 008ddc7fb46a8962c8c835709293ad5124b9a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 09/17] fix: Bierman filter with integer, time-varying
 observation matrices

The decorrelated matrices were truncated to integers.
---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efad549..7049ace 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -134,7 +134,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.array(observation_matrices, dtype=float)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From 3044d318a261df501b63683d56595edfda0a792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 10/17] fix: cholupdate of a matrix that becomes singular

A downdate which leaves no variance in a dimension divided by zero, so that
smooth() of the square root UKF gave NaN covariances whenever the last
observations were missing.
---
 pykalman/sqrt/unscented.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 7f23e62..c348ed9 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -98,6 +98,13 @@ def cholupdate(A2, X, weight):
         for k in range(n_dim):
             r_squared = A2[k, k] ** 2 + sign * x[k] ** 2
             r = 0.0 if r_squared < 0 else np.sqrt(r_squared)
+            if r == 0.0:
+                # nothing is left in this dimension: its row vanishes and, if
+                # there was something to take away, x is used up
+                if A2[k, k] != 0.0:
+                    x[k + 1 :] = 0.0
+                A2[k, k:] = 0.0
+                continue
             c = r / A2[k, k]
             s = x[k] / A2[k, k]
             A2[k, k] = r
-- 
2.43.0


From 0254d7d3e134f61c8bdec4b9e15be73f0d4f416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 11/17] fix: check_random_state raises ValueError for an
 invalid seed

---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..3f86ddb 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        f"{seed} cannot be used to seed a numpy.random.RandomState instance"
+    )
 
 
 class Bunch(dict):
-- 
2.43.0


From 48e289ef1aad63217be7015e722dac2785f43371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 12/17] fix: UDU' decomposition of an integer covariance matrix

Intermediate results were truncated to integers, so the Bierman filter was wrong
for a correlated initial_state_covariance given as integers.
---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 7049ace..95ec09f 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -71,7 +71,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(M).astype(float)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
-- 
2.43.0


From 6108340b8d2fb88fa7b57e20f6b894626457dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 13/17] fix: square root UKF with correlated noise

The noise factor R satisfies R' R = covariance; it was stacked untransposed,
so a non-diagonal transition or observation covariance entered as R R'.
---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index c348ed9..564713f 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -149,7 +149,7 @@ def points2moments(points, sigma2_noise=None):
         np.sqrt(weights_sigma[positive])[np.newaxis, :] * points_diff[positive].T
     ]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
     for i in np.flatnonzero(~positive):
         sigma2 = cholupdate(sigma2, points_diff[i], weights_sigma[i])
-- 
2.43.0


From 8a69b064a04ac42abc5951083aac03323e7c4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 14/17] fix: newbyteorder converts values instead of
 reinterpreting bytes

sample() with a covariance in non-native byte order drew noise from
reinterpreted bytes (practically zero) instead of the covariance given.
---
 pykalman/utils/_numpy.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pykalman/utils/_numpy.py b/pykalman/utils/_numpy.py
index c6521e4..2d85b3a 100644
--- a/pykalman/utils/_numpy.py
+++ b/pykalman/utils/_numpy.py
@@ -1,9 +1,5 @@
 """Utility functions to handle numpy 2."""
 
-from skbase.utils.dependencies import _check_soft_dependencies
-
-numpy2 = _check_soft_dependencies("numpy>=2", severity="none")
-
 
 def newbyteorder(arr, new_order):
     """Change the byte order of an array.
@@ -20,7 +16,4 @@ def newbyteorder(arr, new_order):
     arr : ndarray
         Array with new byte order.
     """
-    if numpy2:
-        return arr.view(arr.dtype.newbyteorder(new_order))
-    else:
-        return arr.newbyteorder(new_order)
+    return arr.astype(arr.dtype.newbyteorder(new_order), copy=False)
-- 
2.43.0


From e1a64f25d8dcdaaac61ecba13ccfbdc06d716fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 15/17] fix: copies of a Bunch expose their keys as attributes

---
 pykalman/utils/_sklearn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 3f86ddb..d87ba43 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -97,6 +97,10 @@ class Bunch(dict):
         dict.__init__(self, kwargs)
         self.__dict__ = self
 
+    def __setstate__(self, state):
+        """Keep exposing the keys as attributes after unpickling or copying."""
+        self.__dict__ = self
+
 
 def get_params(obj):
     """Get names and values of all parameters in `obj`'s __init__."""
-- 
2.43.0


From 6cd47cdde426b8f8a2d2e426951eb8c12e735deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 16/17] fix: UDU' decomposition accepts rounding errors
 relative to the matrix

---
 pykalman/sqrt/bierman.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 95ec09f..e8f0b5f 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -67,7 +67,11 @@ def udu(M):
     UDU : UDU_decomposition of size n
         UDU' representation of M
     """
-    assert np.allclose(M, M.T), "M must be symmetric, positive semidefinite"
+    # rounding errors are relative to the largest entry
+    atol = 1e-8 * max(1.0, np.max(np.abs(M), initial=0.0))
+    assert np.allclose(M, M.T, atol=atol), (
+        "M must be symmetric, positive semidefinite"
+    )
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-- 
2.43.0


From 86ec2163910a431cdc9b8006c6853d8cf8a99c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 17/17] fix: em() keeps learned covariances symmetric

Rounding errors that break the symmetry of a learned covariance are
amplified by the next E step - by up to the number of timesteps per
iteration - and ruin it within a few iterations.
---
 pykalman/standard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index e4b063e..e5632bb 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -790,6 +790,7 @@ def _em_observation_covariance(
                 np.dot(smoothed_state_covariances[t], observation_matrix.T),
             )
             n_obs += 1
+    res = 0.5 * (res + res.T)
     if n_obs > 0:
         return (1.0 / n_obs) * res
     else:
@@ -871,6 +872,8 @@ def _em_transition_covariance(
             - Vt1t_A.T
         )
 
+    # rounding errors that break symmetry would grow from iteration to iteration
+    res = 0.5 * (res + res.T)
     if n_timesteps > 1:
         return (1.0 / (n_timesteps - 1)) * res
     else:
@@ -905,12 +908,13 @@ def _em_initial_state_covariance(
     """
     x0 = smoothed_state_means[0]
     x0_x0 = smoothed_state_covariances[0] + np.outer(x0, x0)
-    return (
+    res = (
         x0_x0
         - np.outer(initial_state_mean, x0)
         - np.outer(x0, initial_state_mean)
         + np.outer(initial_state_mean, initial_state_mean)
     )
+    return 0.5 * (res + res.T)
 
 
 def _em_transition_offset(transition_matrices, smoothed_state_means):
-- 
2.43.0

