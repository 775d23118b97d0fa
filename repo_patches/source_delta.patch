From b5060d909a2777e9cf90131a136f1da870418641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 01/23] fix: keep a single multi-dimensional observation as one
 time step

A [1, n_dim_obs] observation array was transposed into n_dim_obs scalar
observations whenever n_dim_obs > 1.
---
 pykalman/standard.py  | 4 +++-
 pykalman/unscented.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..656c1fb 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1643,6 +1643,8 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        # a flat sequence of scalar observations becomes one observation per row;
+        # a single observation of the expected width is left alone
+        if obs.shape[0] == 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..2612acb 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -733,7 +733,9 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        # a flat sequence of scalar observations becomes one observation per row;
+        # a single observation of the expected width is left alone
+        if obs.shape[0] == 1 and obs.shape[1] != self.n_dim_obs:
             obs = obs.T
         return obs
 
-- 
2.43.0


From 882813abb9cd57767a8042fc0b7d56bc4dd395a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 02/23] fix: use the default em_vars in CholeskyKalmanFilter
 and BiermanKalmanFilter

em() without em_vars raised TypeError unless em_vars was given to the
constructor.
---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..66a8898 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -813,7 +813,7 @@ class BiermanKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..d0cbc55 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -644,7 +644,7 @@ class CholeskyKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From 03a4555da6566ba2082799fa728a72b7dfe6d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 03/23] fix: return an [n_dim_state, n_dim_state] covariance
 from sqrt filter_update

The square root filters returned the updated covariance with a leading
axis of length one, so the estimate could not be fed to the next update.
---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 66a8898..efad549 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -703,7 +703,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index d0cbc55..30dc98f 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -534,7 +534,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..99f4508 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -764,7 +764,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From cf0b28a968a2b47e530e893ccd6f51ce01a0de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 04/23] fix: Kalman gain of the sqrt unscented filter for
 correlated observations

obs_sigma2_pred is upper triangular with obs_sigma2_pred.T obs_sigma2_pred
the predicted observation covariance; the gain and the covariance update
used obs_sigma2_pred obs_sigma2_pred.T instead.
---
 pykalman/sqrt/unscented.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 99f4508..18686bb 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -286,14 +286,14 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
         ##############################################
 
         # equivalent to this MATLAB code
-        # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        # K = (cross_sigma / obs_sigma2_pred) / obs_sigma2_pred.T
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From 2f1c7d430e113270c185b5403831f254d528d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 05/23] fix: additive noise of the sqrt unscented filter for
 correlated noise

The noise factor is upper triangular with sigma2_noise.T sigma2_noise the
noise covariance, so its rows, not its columns, are the vectors to stack.
---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 18686bb..9a0f210 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -140,7 +140,7 @@ def points2moments(points, sigma2_noise=None):
         * (points.T - mu[:, np.newaxis])
     ]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
     # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
     return Moments(mu.ravel(), sigma2)
-- 
2.43.0


From 13d40e15a048c693c76e4fc08cf7faa5596c9fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 06/23] fix: subtract sigma points of negative weight in the
 sqrt unscented filter

The central sigma point has a negative weight when n_dim_state > 3; its
contribution was added to the covariance.
---
 pykalman/sqrt/unscented.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 9a0f210..bec6646 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -134,15 +134,18 @@ def points2moments(points, sigma2_noise=None):
     mu = points.T.dot(weights_mu)
 
     # make points to perform QR factorization on. each column is one data point
+    points_diff = points.T - mu[:, np.newaxis]
+    positive = weights_sigma >= 0
     qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
+        np.sqrt(weights_sigma[positive])[np.newaxis, :] * points_diff[:, positive]
     ]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+
+    # points with negative weight have to be subtracted afterwards
+    for i in np.flatnonzero(~positive):
+        sigma2 = cholupdate(sigma2, points_diff[:, i], weights_sigma[i])
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From 097e3acdc751ceff7bb1870d4f519adfc7dbd502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 07/23] fix: NaN covariances of the sqrt unscented smoother
 with missing observations

The difference of predicted and smoothed covariance is singular where
smoothing adds no information, and cannot be factorised on its own.
---
 pykalman/sqrt/unscented.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index bec6646..5f28c0e 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -548,8 +548,14 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        U = cholupdate(moments_pred.covariance, sigma2_smooth[t + 1], -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], smoother_gain.dot(U.T).T, -1.0)
+        # adding before subtracting keeps every intermediate result positive
+        # definite, even where smoothing does not reduce the covariance
+        sigma2_smooth[t] = cholupdate(
+            sigma2_filt[t], sigma2_smooth[t + 1].dot(smoother_gain.T), 1.0
+        )
+        sigma2_smooth[t] = cholupdate(
+            sigma2_smooth[t], moments_pred.covariance.dot(smoother_gain.T), -1.0
+        )
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From 9045cde40da89cf5e4041ba92601e2494e8fddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 08/23] fix: use the function of each time step in the
 unscented filters

Given an array of functions, filter, smooth and sample used its first
element at every time step.
---
 pykalman/sqrt/unscented.py |  6 +++++-
 pykalman/unscented.py      | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 5f28c0e..11685f9 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -24,7 +24,7 @@ from scipy import linalg
 
 from ..standard import _arg_or_default, _last_dims
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _step_functions
 from ..utils import array2d
 
 
@@ -436,6 +436,8 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
         sigma2_filt[t] = square root of the covariance of state at time t given
         observations from times [0, t]
     """
+    f, g = _step_functions(f), _step_functions(g)
+
     # extract size of key components
     T = Z.shape[0]
     n_dim_state = Q.shape[-1]
@@ -501,6 +503,8 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         sigma2_smooth[t] = square root of the covariance of state at time t
         given observations from times [0, T-1]
     """
+    f = _step_functions(f)
+
     # extract size of key parts of problem
     T, n_dim_state = mu_filt.shape
 
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 2612acb..883d5eb 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -35,6 +35,24 @@ SigmaPoints = namedtuple(
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
 
+def _step_functions(functions):
+    """Arrange functions such that :func:`_last_dims` selects one per time step.
+
+    Parameters
+    ----------
+    functions : [1] or [n_timesteps] array of functions
+        a single function used at all times, or one function per time step
+
+    Returns
+    -------
+    functions : [1] or [n_timesteps, 1] array of functions
+        the same functions, with a trailing axis if there is more than one
+    """
+    if len(functions.shape) == 1 and len(functions) > 1:
+        return functions[:, np.newaxis]
+    return functions
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -422,6 +440,8 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
         sigma_filt[t] = covariance of state at time t given observations from
         times [0, t]
     """
+    f, g = _step_functions(f), _step_functions(g)
+
     # extract size of key components
     T = Z.shape[0]
     n_dim_state = Q.shape[-1]
@@ -496,6 +516,8 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         sigma_smooth[t] = covariance of state at time t given observations from
         times [0, T-1]
     """
+    f = _step_functions(f)
+
     # extract size of key parts of problem
     T, n_dim_state = mu_filt.shape
 
@@ -570,6 +592,8 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
         sigma_filt[t] = covariance of state at time t given observations from
         times [0, t]
     """
+    f, g = _step_functions(f), _step_functions(g)
+
     # extract size of key components
     T = Z.shape[0]
     n_dim_state = Q.shape[-1]
@@ -633,6 +657,8 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         sigma_smooth[t] = covariance of state at time t given observations from
         times [0, T-1]
     """
+    f = _step_functions(f)
+
     # extract size of key parts of problem
     T, n_dim_state = mu_filt.shape
 
@@ -827,6 +853,9 @@ class UnscentedKalmanFilter(UnscentedMixin):
             initial_state_covariance,
         ) = self._initialize_parameters()
 
+        transition_functions = _step_functions(transition_functions)
+        observation_functions = _step_functions(observation_functions)
+
         n_dim_state = transition_covariance.shape[-1]
         n_dim_obs = observation_covariance.shape[-1]
 
@@ -1143,6 +1172,9 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             initial_state_covariance,
         ) = self._initialize_parameters()
 
+        transition_functions = _step_functions(transition_functions)
+        observation_functions = _step_functions(observation_functions)
+
         n_dim_state = transition_covariance.shape[-1]
         n_dim_obs = observation_covariance.shape[-1]
 
-- 
2.43.0


From 29242e67bb01eb29b0b32f580dcb1eb4be5e05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 09/23] fix: loglikelihood with a time-varying observation
 covariance

It raised ValueError although filter and smooth accept the same model.
---
 pykalman/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 656c1fb..2e17306 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -161,6 +161,7 @@ def _loglikelihoods(
         observation = observations[t]
         if not np.any(np.ma.getmask(observation)):
             observation_matrix = _last_dims(observation_matrices, t)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
             predicted_state_mean = _last_dims(predicted_state_means, t, ndims=1)
             predicted_state_covariance = _last_dims(predicted_state_covariances, t)
@@ -173,7 +174,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + observation_covariance_t
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From 5d0376bf596dcf902e2482865015ec586ba6a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 10/23] fix: sample with time-varying covariances

The per-step covariance overwrote the whole sequence, so the first one was
used at every time step.
---
 pykalman/standard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2e17306..d37592a 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1163,8 +1163,8 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                transition_covariance_t = _last_dims(transition_covariance, t - 1)
+                cov = newbyteorder(transition_covariance_t, "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1173,12 +1173,12 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
                 + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
+                    np.zeros(n_dim_obs), newbyteorder(observation_covariance_t, "=")
                 )
             )
 
-- 
2.43.0


From 4e08b607ecf3ba14c65ac1e11ab75eff98a6aa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 11/23] fix: convert rather than reinterpret arrays of another
 byte order

newbyteorder returned a view, so sampling with covariances in non-native
byte order used garbage covariances.
---
 pykalman/utils/_numpy.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pykalman/utils/_numpy.py b/pykalman/utils/_numpy.py
index c6521e4..e9c178a 100644
--- a/pykalman/utils/_numpy.py
+++ b/pykalman/utils/_numpy.py
@@ -1,10 +1,5 @@
 """Utility functions to handle numpy 2."""
 
-from skbase.utils.dependencies import _check_soft_dependencies
-
-numpy2 = _check_soft_dependencies("numpy>=2", severity="none")
-
-
 def newbyteorder(arr, new_order):
     """Change the byte order of an array.
 
@@ -20,7 +15,4 @@ def newbyteorder(arr, new_order):
     arr : ndarray
         Array with new byte order.
     """
-    if numpy2:
-        return arr.view(arr.dtype.newbyteorder(new_order))
-    else:
-        return arr.newbyteorder(new_order)
+    return arr.astype(arr.dtype.newbyteorder(new_order))
-- 
2.43.0


From f75f8eed068b0928855e25197ab3be32a7d3bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 12/23] fix: raise ValueError for an unusable random_state

format() was called on the exception, which raised AttributeError.
---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..9e3790f 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        "{0} cannot be used to seed a numpy.random.RandomState instance".format(seed)
+    )
 
 
 class Bunch(dict):
-- 
2.43.0


From fce21ee5cca2fba246f01fb0ee0d8b62479e5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 13/23] fix: integer parameters of BiermanKalmanFilter

The UDU' factorisation of an integer covariance and the decorrelation of
integer, time-varying observation matrices were truncated to integers.
---
 pykalman/sqrt/bierman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efad549..95ec09f 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -71,7 +71,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(M).astype(float)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
@@ -134,7 +134,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.array(observation_matrices, dtype=float)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From 27932784edf6c27ff12ad0febbf92cde8da5471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 14/23] fix: wrong smoothed estimates when a predicted
 covariance is singular

---
 pykalman/standard.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index d37592a..33a20db 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -467,10 +467,12 @@ def _smooth_update(
     kalman_smoothing_gain : [n_dim_state, n_dim_state] array
         correction matrix for Kalman Smoothing at time t
     """
-    kalman_smoothing_gain = np.dot(
-        filtered_state_covariance,
-        np.dot(transition_matrix.T, linalg.pinv(predicted_state_covariance)),
-    )
+    # Solved for rather than multiplied with pinv(predicted_state_covariance):
+    # if that covariance is singular, rounding leaves eigenvalues the size of
+    # machine precision, whose inverses swamp the product.
+    kalman_smoothing_gain = linalg.lstsq(
+        predicted_state_covariance, np.dot(transition_matrix, filtered_state_covariance)
+    )[0].T
 
     smoothed_state_mean = filtered_state_mean + np.dot(
         kalman_smoothing_gain, next_smoothed_state_mean - predicted_state_mean
-- 
2.43.0


From 25cc88b5eb9b576d09e915e7c004c09fd02b135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 15/23] fix: let em use em_vars as currently assigned

KalmanFilter.em used the em_vars given to the constructor even after another
value had been assigned to the attribute.
---
 pykalman/standard.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 33a20db..fbcc6e6 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1105,15 +1105,13 @@ class KalmanFilter:
         self.n_dim_state = n_dim_state
         self.n_dim_obs = n_dim_obs
 
-        if em_vars is None:
-            self._em_vars = [
-                "transition_covariance",
-                "observation_covariance",
-                "initial_state_mean",
-                "initial_state_covariance",
-            ]
-        else:
-            self._em_vars = em_vars
+        # variables estimated by default
+        self._em_vars = [
+            "transition_covariance",
+            "observation_covariance",
+            "initial_state_mean",
+            "initial_state_covariance",
+        ]
 
     def sample(self, n_timesteps, initial_state=None, random_state=None):
         r"""Sample a state sequence :math:`n_{\\text{timesteps}}` timesteps in length.
@@ -1453,7 +1451,7 @@ class KalmanFilter:
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self._em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From bd26e4628a9f9b6ac3b847f0681c767bbcdb24d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 16/23] fix: wrong results for parameters in foreign byte order

scipy.linalg misreads such arrays: CholeskyKalmanFilter with a big-endian
initial_state_covariance silently returned other estimates, other classes
raised LinAlgError. Parameters are converted to native order like all others.
---
 pykalman/utils/_sklearn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 9e3790f..03c5e56 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -37,14 +37,19 @@ import numpy as np
 from scipy import linalg
 
 
+def _native(X):
+    """Return X in native byte order, which scipy.linalg takes for granted."""
+    return X if X.dtype.isnative else X.astype(X.dtype.newbyteorder("="))
+
+
 def array1d(X, dtype=None, order=None):
     """Return at least 1-d array with data from X."""
-    return np.asarray(np.atleast_1d(X), dtype=dtype, order=order)
+    return _native(np.asarray(np.atleast_1d(X), dtype=dtype, order=order))
 
 
 def array2d(X, dtype=None, order=None):
     """Return at least 2-d array with data from X."""
-    return np.asarray(np.atleast_2d(X), dtype=dtype, order=order)
+    return _native(np.asarray(np.atleast_2d(X), dtype=dtype, order=order))
 
 
 def log_multivariate_normal_density(X, means, covars, min_covar=1.0e-7):
-- 
2.43.0


From 7beb01ede977cb95251a54f4444e29ef37688cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 17/23] fix: symmetry check of BiermanKalmanFilter for entries
 of different magnitude

udu compared M with its transpose entry by entry, so rounding errors of a
large predicted covariance raised AssertionError for valid models.
---
 pykalman/sqrt/bierman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 95ec09f..0e8a71b 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -67,7 +67,9 @@ def udu(M):
     UDU : UDU_decomposition of size n
         UDU' representation of M
     """
-    assert np.allclose(M, M.T), "M must be symmetric, positive semidefinite"
+    # rounding errors are relative to the largest entries
+    atol = 1e-8 * max(1.0, np.abs(M).max())
+    assert np.allclose(M, M.T, atol=atol), "M must be symmetric, positive semidefinite"
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-- 
2.43.0


From 581237a805e569b4e2abfe1851181dd9892a1e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 18/23] fix: compute with narrow integers and single precision
 parameters in double precision

---
 pykalman/utils/_sklearn.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 03c5e56..494c192 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -37,19 +37,23 @@ import numpy as np
 from scipy import linalg
 
 
-def _native(X):
-    """Return X in native byte order, which scipy.linalg takes for granted."""
-    return X if X.dtype.isnative else X.astype(X.dtype.newbyteorder("="))
+def _as_double(X):
+    """Return numbers in native double precision, others as they are.
+
+    scipy.linalg takes native byte order for granted and factors arrays of
+    single precision in single precision; narrow integers wrap around.
+    """
+    return X.astype(float, copy=False) if X.dtype.kind in "biuf" else X
 
 
 def array1d(X, dtype=None, order=None):
     """Return at least 1-d array with data from X."""
-    return _native(np.asarray(np.atleast_1d(X), dtype=dtype, order=order))
+    return _as_double(np.asarray(np.atleast_1d(X), dtype=dtype, order=order))
 
 
 def array2d(X, dtype=None, order=None):
     """Return at least 2-d array with data from X."""
-    return _native(np.asarray(np.atleast_2d(X), dtype=dtype, order=order))
+    return _as_double(np.asarray(np.atleast_2d(X), dtype=dtype, order=order))
 
 
 def log_multivariate_normal_density(X, means, covars, min_covar=1.0e-7):
-- 
2.43.0


From c630c55f361aa2f26ff844fcfa6b92e4bea24072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 19/23] fix: filter_update with arrays of foreign byte order or
 single precision

---
 pykalman/sqrt/cholesky.py  | 4 ++--
 pykalman/sqrt/unscented.py | 4 +++-
 pykalman/standard.py       | 2 +-
 pykalman/unscented.py      | 4 +++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 30dc98f..87e0a21 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -23,7 +23,7 @@ from ..standard import (
     _smooth,
     _smooth_pair,
 )
-from ..utils import get_params
+from ..utils import array2d, get_params
 
 
 def _reconstruct_covariances(covariance2s):
@@ -509,7 +509,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         transition_covariance2 = linalg.cholesky(transition_covariance, lower=True)
         observation_covariance2 = linalg.cholesky(observation_covariance, lower=True)
         filtered_state_covariance2 = linalg.cholesky(
-            filtered_state_covariance, lower=True
+            array2d(filtered_state_covariance), lower=True
         )
 
         # predict
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 11685f9..fa6a734 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -749,7 +749,9 @@ class AdditiveUnscentedKalmanFilter(AUKF):
             observation = np.ma.asarray(observation)
 
         # preprocess covariance matrices
-        filtered_state_covariance2 = linalg.cholesky(filtered_state_covariance)
+        filtered_state_covariance2 = linalg.cholesky(
+            array2d(filtered_state_covariance)
+        )
         transition_covariance2 = linalg.cholesky(transition_covariance)
         observation_covariance2 = linalg.cholesky(observation_covariance)
 
diff --git a/pykalman/standard.py b/pykalman/standard.py
index fbcc6e6..8c5ad8d 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -40,7 +40,7 @@ def _arg_or_default(arg, default, dim, name):
     if arg is None:
         result = np.asarray(default)
     else:
-        result = arg
+        result = array1d(arg) if dim == 1 else array2d(arg)
     if len(result.shape) > dim:
         raise ValueError(
             ("%s is not constant for all time." + "  You must specify it manually.")
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 883d5eb..efd0857 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -1341,7 +1341,9 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             observation = np.ma.asarray(observation)
 
         # make sigma points
-        moments_state = Moments(filtered_state_mean, filtered_state_covariance)
+        moments_state = Moments(
+            filtered_state_mean, array2d(filtered_state_covariance)
+        )
         points_state = moments2points(moments_state)
 
         # predict
-- 
2.43.0


From c92f5dd6091407efb6ae2127c9ebf3de30d31873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 20/23] fix: masks of observations given as a list of masked
 arrays were dropped

---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 8c5ad8d..8c7f2eb 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1643,7 +1643,7 @@ class KalmanFilter:
 
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
-        obs = np.ma.atleast_2d(obs)
+        obs = np.ma.atleast_2d(np.ma.asarray(obs))
         # a flat sequence of scalar observations becomes one observation per row;
         # a single observation of the expected width is left alone
         if obs.shape[0] == 1 and obs.shape[1] != self.n_dim_obs:
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index efd0857..466212b 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -758,7 +758,7 @@ class UnscentedMixin:
 
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
-        obs = ma.atleast_2d(obs)
+        obs = ma.atleast_2d(ma.asarray(obs))
         # a flat sequence of scalar observations becomes one observation per row;
         # a single observation of the expected width is left alone
         if obs.shape[0] == 1 and obs.shape[1] != self.n_dim_obs:
-- 
2.43.0


From b357ac9f56138c2826c5a8c6cef8a8c10efc120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:31 +0000
Subject: [PATCH 21/23] fix: observations of the wrong size were broadcast
 instead of refused

---
 pykalman/sqrt/cholesky.py  | 2 ++
 pykalman/sqrt/unscented.py | 3 +++
 pykalman/standard.py       | 2 ++
 pykalman/unscented.py      | 3 +++
 4 files changed, 10 insertions(+)

diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 87e0a21..c78ed0f 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -155,6 +155,8 @@ def _filter_correct(
         # extract size of state space
         n_dim_state = len(predicted_state_mean)
         n_dim_obs = len(observation)
+        if n_dim_obs != observation_matrix.shape[0]:
+            raise ValueError("The observation does not match the dimension expected")
 
         # construct matrix M = [    R^{1/2}^{T},            0;
         #                       (C S_{t|t-1})^T,  S_{t|t-1}^T]
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index fa6a734..0df80b0 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -278,6 +278,9 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
     obs_mu_pred, obs_sigma2_pred = obs_moments_pred
 
     if not np.any(ma.getmask(z)):
+        if np.size(z) != len(obs_mu_pred):
+            raise ValueError("The observation does not match the dimension expected")
+
         ##############################################
         # Same as this, but more stable (supposedly) #
         ##############################################
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 8c7f2eb..68075e6 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -277,6 +277,8 @@ def _filter_correct(
         predicted_observation_mean = (
             np.dot(observation_matrix, predicted_state_mean) + observation_offset
         )
+        if np.size(observation) != len(predicted_observation_mean):
+            raise ValueError("The observation does not match the dimension expected")
         predicted_observation_covariance = (
             np.dot(
                 observation_matrix,
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 466212b..e6d1aa4 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -211,6 +211,9 @@ def unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
     obs_mu_pred, obs_sigma_pred = obs_moments_pred
 
     if not np.any(ma.getmask(z)):
+        if np.size(z) != len(obs_mu_pred):
+            raise ValueError("The observation does not match the dimension expected")
+
         # calculate Kalman gain
         K = cross_sigma.dot(linalg.pinv(obs_sigma_pred))
 
-- 
2.43.0


From 20d98afa13eeb938409bfa265e442e5c14c4e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 22/23] fix: filter_update of CholeskyKalmanFilter and
 BiermanKalmanFilter with a scalar observation

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 0e8a71b..0684e97 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -668,7 +668,7 @@ class BiermanKalmanFilter(KalmanFilter):
             observation = np.ma.array(np.zeros(n_dim_obs))
             observation.mask = True
         else:
-            observation = np.ma.asarray(observation)
+            observation = np.ma.atleast_1d(observation)
 
         # transform filtered_state_covariance into its UDU decomposition
         filtered_state_covariance = udu(filtered_state_covariance)
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index c78ed0f..4743fa4 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -505,7 +505,7 @@ class CholeskyKalmanFilter(KalmanFilter):
             observation = np.ma.array(np.zeros(n_dim_obs))
             observation.mask = True
         else:
-            observation = np.ma.asarray(observation)
+            observation = np.ma.atleast_1d(observation)
 
         # turn covariance into cholesky factorizations
         transition_covariance2 = linalg.cholesky(transition_covariance, lower=True)
-- 
2.43.0


From 005bae69129300dd6ee3fe7f473a0a4121d94d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 23/23] fix: square root unscented_filter_predict and _correct
 with sigma points of the noise

---
 pykalman/sqrt/unscented.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 0df80b0..4e7fa29 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -215,7 +215,7 @@ def _unscented_transform(points, f=None, points_noise=None, sigma2_noise=None):
         points representing state to pass through `f`
     f : [n_dim_1, n_dim_3] -> [n_dim_2] function
         function to apply pass all points through
-    points_noise : [n_points, n_dim_3] array
+    points_noise : [n_points, n_dim_3] SigmaPoints
         points representing noise to pass through `f`, if any.
     sigma2_noise : [n_dim_2, n_dim_2] array
         square root of covariance matrix for additive noise
@@ -237,6 +237,7 @@ def _unscented_transform(points, f=None, points_noise=None, sigma2_noise=None):
         if points_noise is None:
             points_pred = [f(points[i]) for i in range(n_points)]
         else:
+            points_noise = points_noise.points
             points_pred = [f(points[i], points_noise[i]) for i in range(n_points)]
     else:
         points_pred = points
-- 
2.43.0

