From f310dca0f2eff3b20a228fa84eec89cb203f7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 01/27] fix: ReverseGumbel cross derivative has the opposite
 sign

---
 src/ondil/distributions/reversegumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/distributions/reversegumbel.py b/src/ondil/distributions/reversegumbel.py
index 5428f7a..c4c1937 100644
--- a/src/ondil/distributions/reversegumbel.py
+++ b/src/ondil/distributions/reversegumbel.py
@@ -76,7 +76,7 @@ class ReverseGumbel(ScipyMixin, Distribution):
     ) -> np.ndarray:
         self._validate_dl2_dpp_inputs(y, theta, params)
         _, sigma = self.theta_to_params(theta)
-        return np.full_like(y, -0.422784 / sigma**2)
+        return 0.422784 / sigma**2
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
         gamma_const = 0.5772157
-- 
2.43.0


From 30cf6d66c5fa37306f35da4f1ddac72ff38adbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 02/27] fix: ReverseGumbel starting value of mu moves away from
 the moment estimate

---
 src/ondil/distributions/reversegumbel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/distributions/reversegumbel.py b/src/ondil/distributions/reversegumbel.py
index c4c1937..d4f7449 100644
--- a/src/ondil/distributions/reversegumbel.py
+++ b/src/ondil/distributions/reversegumbel.py
@@ -18,7 +18,7 @@ class ReverseGumbel(ScipyMixin, Distribution):
     This distribution corresponds to the RG() distribution in GAMLSS.
 
     Notes:
-        - Mean = mu - digamma(1) * sigma ≈ mu - 0.5772157 * sigma
+        - Mean = mu - digamma(1) * sigma ≈ mu + 0.5772157 * sigma
         - Variance = (pi^2 * sigma^2) / 6 ≈ 1.64493 * sigma^2
     """
 
@@ -81,6 +81,6 @@ class ReverseGumbel(ScipyMixin, Distribution):
     def initial_values(self, y: np.ndarray) -> np.ndarray:
         gamma_const = 0.5772157
         sigma_init = (np.sqrt(6) * np.std(y)) / np.pi
-        mu_init = np.mean(y) + gamma_const * sigma_init
+        mu_init = np.mean(y) - gamma_const * sigma_init
         initial_params = [mu_init, sigma_init]
         return np.tile(initial_params, (y.shape[0], 1))
-- 
2.43.0


From 1c0847e06fe13985b41b4f84209165675d9b36ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 03/27] fix: InverseGaussian.dl2_dpp accepts parameters that do
 not exist

---
 src/ondil/distributions/inversegaussian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ondil/distributions/inversegaussian.py b/src/ondil/distributions/inversegaussian.py
index a874dff..0c46b07 100644
--- a/src/ondil/distributions/inversegaussian.py
+++ b/src/ondil/distributions/inversegaussian.py
@@ -87,8 +87,7 @@ class InverseGaussian(ScipyMixin, Distribution):
     def dl2_dpp(
         self, y: np.ndarray, theta: np.ndarray, params: tuple[int, int] = (0, 1)
     ) -> np.ndarray:
-        if params[0] == params[1]:
-            raise ValueError("Cross derivatives must use different parameters.")
+        self._validate_dl2_dpp_inputs(y, theta, params)
         return np.zeros_like(y)
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 2f23125605112d2d614864aeef1bc0c614f4bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 04/27] fix: rvs of the mixed distributions returns shape (n,
 size)

---
 src/ondil/distributions/betainflated.py      | 4 ++--
 src/ondil/distributions/betainflatedzero.py  | 4 ++--
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..37a37af 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -221,8 +221,8 @@ class BetaInflated(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..a742a2a 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -181,8 +181,8 @@ class BetaInflatedZero(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..0f839be 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -143,8 +143,8 @@ class ZeroAdjustedGamma(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
-- 
2.43.0


From ba823420397d7e9a039e60f57b2068cbcf148369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 05/27] fix: log-density of the inflated beta distributions
 outside the support

---
 src/ondil/distributions/betainflated.py     | 2 +-
 src/ondil/distributions/betainflatedzero.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 37a37af..6ba27b1 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -233,7 +233,7 @@ class BetaInflated(Distribution):
 
         result = np.where(
             (y < 0) | (y > 1),
-            0,
+            -np.inf,
             np.where(
                 y == 0,
                 np.log(nu) - np.log(1 + nu + tau),
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index a742a2a..e959577 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -194,6 +194,7 @@ class BetaInflatedZero(Distribution):
         logfy = np.zeros_like(y, dtype=np.float64)
         logfy = np.where(y > 0, logpdf_beta, logfy)
         logfy = np.where(y == 0, np.log(nu), logfy)
+        logfy = np.where((y < 0) | (y >= 1), -np.inf, logfy)
         result = logfy - np.log(1 + nu)
 
         return result
-- 
2.43.0


From 300dc6390e6930f8dbad1c409f2dacfa70a1d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:16 +0000
Subject: [PATCH 06/27] fix: ZeroAdjustedGamma density and distribution
 function below zero

---
 src/ondil/distributions/zeroadjustedgamma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index 0f839be..c6de70f 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -113,7 +113,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, nu, cont_cdf)
 
-        return result
+        return np.where(y < 0, 0.0, result)
 
     def pdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -128,7 +128,7 @@ class ZeroAdjustedGamma(Distribution):
             / (y * spc.gamma(1 / sigma**2))
         )
 
-        return np.where(y == 0, nu, result)
+        return np.where(y < 0, 0.0, np.where(y == 0, nu, result))
 
     def ppf(self, q, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -157,7 +157,7 @@ class ZeroAdjustedGamma(Distribution):
             - spc.gammaln(1 / sigma**2)
         )
 
-        return np.where(y == 0, np.log(nu), result)
+        return np.where(y < 0, -np.inf, np.where(y == 0, np.log(nu), result))
 
     def logcdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -168,7 +168,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, np.log(nu), cont_logcdf_gamma)
 
-        return result
+        return np.where(y < 0, -np.inf, result)
 
     def logpmf(self, y, theta):
         return super().logpmf(y, theta)
-- 
2.43.0


From 0b2e62f58e9547a7597857df23312a5a13a836a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 07/27] fix: LogNormal density and distribution function are
 nan outside the support

---
 src/ondil/distributions/lognormal.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 9b97ebe..54cc85b 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -94,18 +94,22 @@ class LogNormal(ScipyMixin, Distribution):
         Probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return (
-            1
-            / (y * sigma * np.sqrt(2 * np.pi))
-            * np.exp(-((np.log(y) - mu) ** 2) / (2 * sigma**2))
-        )
+        with np.errstate(divide="ignore", invalid="ignore"):
+            result = (
+                1
+                / (y * sigma * np.sqrt(2 * np.pi))
+                * np.exp(-((np.log(y) - mu) ** 2) / (2 * sigma**2))
+            )
+        return np.where(y > 0, result, 0.0)
 
     def cdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
         Cumulative distribution function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return st.norm.cdf((np.log(y) - mu) / sigma)
+        with np.errstate(divide="ignore", invalid="ignore"):
+            result = st.norm.cdf((np.log(y) - mu) / sigma)
+        return np.where(y > 0, result, 0.0)
 
     def ppf(self, p: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
@@ -119,9 +123,12 @@ class LogNormal(ScipyMixin, Distribution):
         Logarithm of the probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
-            -((np.log(y) - mu) ** 2) / (2 * sigma**2)
-        )
+        with np.errstate(divide="ignore", invalid="ignore"):
+            result = np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
+                -((np.log(y) - mu) ** 2) / (2 * sigma**2)
+            )
+        return np.where(y > 0, result, -np.inf)
 
     def logcdf(self, y, theta):
-        return np.log(self.cdf(y, theta))
+        with np.errstate(divide="ignore"):
+            return np.log(self.cdf(y, theta))
-- 
2.43.0


From ec1cda63e97e9a3689bf9b479d63c9f54d20aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 08/27] fix: distributions have no median, so predict_median
 always fails

---
 src/ondil/base/distribution.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..58eeee6 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,17 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: The medians corresponding to the parameters in `theta`.
+        """
+        return self.ppf(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
-- 
2.43.0


From 6c0c68b2d7a8bc5c110b5501cee63a7f4455c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 09/27] fix: mixed distributions have no mean, so predict_mean
 fails

---
 src/ondil/distributions/betainflated.py      | 4 ++++
 src/ondil/distributions/betainflatedzero.py  | 4 ++++
 src/ondil/distributions/zeroadjustedgamma.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 6ba27b1..a863971 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -217,6 +217,10 @@ class BetaInflated(Distribution):
 
         return result
 
+    def mean(self, theta: np.ndarray) -> np.ndarray:
+        mu, _, nu, tau = self.theta_to_params(theta)
+        return (mu + tau) / (1 + nu + tau)
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index e959577..b541c23 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -177,6 +177,10 @@ class BetaInflatedZero(Distribution):
 
         return result
 
+    def mean(self, theta: np.ndarray) -> np.ndarray:
+        mu, _, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c6de70f..e612939 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -139,6 +139,10 @@ class ZeroAdjustedGamma(Distribution):
 
         return np.where(q <= nu, 0, result)
 
+    def mean(self, theta: np.ndarray) -> np.ndarray:
+        mu, _, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
-- 
2.43.0


From 4614662b2b6b7638dcc3247429f62caff6cf610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 10/27] fix: zero is not in the support of the log-normal and
 inverse gamma distributions

---
 src/ondil/distributions/inversegamma.py    | 2 +-
 src/ondil/distributions/lognormal.py       | 2 +-
 src/ondil/distributions/lognormalmedian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/inversegamma.py b/src/ondil/distributions/inversegamma.py
index d957db4..1164fb6 100644
--- a/src/ondil/distributions/inversegamma.py
+++ b/src/ondil/distributions/inversegamma.py
@@ -29,7 +29,7 @@ class InverseGamma(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.invgamma
     scipy_names = {"mu": "scale", "sigma": "a"}
 
diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 54cc85b..2d487d6 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -37,7 +37,7 @@ class LogNormal(ScipyMixin, Distribution):
     corresponding_gamlss: str = "LOGNO"
     parameter_names = {0: "mu", 1: "sigma"}
     parameter_support = {0: (-np.inf, np.inf), 1: (np.nextafter(0, 1), np.inf)}
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
diff --git a/src/ondil/distributions/lognormalmedian.py b/src/ondil/distributions/lognormalmedian.py
index 3929d35..eda162f 100644
--- a/src/ondil/distributions/lognormalmedian.py
+++ b/src/ondil/distributions/lognormalmedian.py
@@ -28,7 +28,7 @@ class LogNormalMedian(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
-- 
2.43.0


From dd37e57f9f7ab24b7bb8ec99157fd591a0e7dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 11/27] fix: start value option "average" of the coefficient
 path is ignored

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From 9b69f20ad7a4934439db2f715b1c55339963f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 12/27] fix: largest regularization ignores negative
 correlations if all coefficients are regularized

---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From 3f0b8a4947011d179a1b4aa4494b23578a5e6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 13/27] fix: InverseSoftPlus.link_derivative is not the
 derivative of the link

---
 src/ondil/links/softpluslinks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 7739731..8da05b9 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -37,7 +37,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus(x)
 
     def link_derivative(self, x: np.ndarray):
-        return zero_safe_division(1, (robust_exp(x) - 1) + 1)
+        return zero_safe_division(1, (1 - robust_exp(-x)))
 
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
-- 
2.43.0


From f479b82a1608c814200e65ccce4f7e38e3995dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 14/27] fix: softplus underflows to zero for small predictors

---
 src/ondil/links/robust_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/robust_math.py b/src/ondil/links/robust_math.py
index 76327f1..4606e64 100644
--- a/src/ondil/links/robust_math.py
+++ b/src/ondil/links/robust_math.py
@@ -49,7 +49,7 @@ def robust_softplus(value):
     if value > 40:
         return value
     else:
-        return np.log(1 + np.exp(value))
+        return np.log1p(np.exp(value))
 
 
 @nb.vectorize(["float32(float32)", "float64(float64)"])
-- 
2.43.0


From 3c9bc8e32cba3c91d79b7ecbf54f6ef30d1543b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 15/27] fix: corrected AIC fails for vectors of models

---
 src/ondil/information_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index 6933cd9..e411639 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -84,7 +84,7 @@ class InformationCriterion:
         if c == "aic":
             return - 2 * ll + p * 2 
         elif c == "aicc":
-            if n - p - 1 == 0:
+            if np.any(n - p - 1 == 0):
                 raise ValueError("Invalid inputs: n - p - 1 must not be zero for AICC calculation.")
             return - 2 * ll + p * 2 * n / ( n - p - 1)
         elif c == "bic":
-- 
2.43.0


From b5774b881bb6f61f8382f90b7f42bfa77c73b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 16/27] fix: OnlineLasso does not store its options, so it
 cannot be fitted or cloned

---
 src/ondil/estimators/online_lasso.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..dbe5cf9 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -66,3 +66,12 @@ class OnlineLasso(OnlineLinearModel):
             method=concrete_method,
             ic=ic,
         )
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
-- 
2.43.0


From c2f9fc965a05b4bf5b74bf3370e2738c290063c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 17/27] fix: residual sum of squares of the linear model
 ignores weights and forgetting

---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..6abf480 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -14,6 +14,7 @@ from sklearn.utils.validation import (
 
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -154,10 +155,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = np.sum(np.expand_dims(weights, -1) * residuals**2, axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -218,7 +218,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
+                np.expand_dims(weights, -1) * residuals**2, axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From c05cd2ae51e9ff035cf0dc09a0455bddee291de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 18/27] fix: working weights of an update are not clipped at a
 positive value

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..e79775f 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1227,7 +1227,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From c21d95a037e78d0530851e1d90fc259d51fdc72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 19/27] fix: log-likelihood model selection ignores sample
 weights in the initial fit

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e79775f..bfe896d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -498,7 +498,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From b3715a972305532b78d477635cf102b743bcc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 20/27] fix: log-likelihood model selection in updates counts
 only one parameter

---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index bfe896d..c916201 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -554,6 +554,7 @@ class OnlineDistributionalRegression(
         """
         f = init_forget_vector(self._forget[param], y.shape[0])
         n_nonzero_coef = np.count_nonzero(beta_path, axis=1)
+        n_nonzero_coef_other = self._count_nonzero_coef(exclude=param)
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
             # Denominator
@@ -570,7 +571,6 @@ class OnlineDistributionalRegression(
                 + (1 - self._forget[param]) ** y.shape[0]
                 * (model_selection_data * self._mean_of_weights[param])
             ) / denom
-            n_nonzero_coef_other = self._count_nonzero_coef(exclude=param)
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
                 n_parameters=n_nonzero_coef + n_nonzero_coef_other,
@@ -591,7 +591,7 @@ class OnlineDistributionalRegression(
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-                n_parameters=n_nonzero_coef,
+                n_parameters=n_nonzero_coef + n_nonzero_coef_other,
                 criterion=self._ic[param],
             ).from_ll(log_likelihood=ll)
             best_ic = np.argmin(ic)
-- 
2.43.0


From 849d955ca7c213f0e660c6a4d62e327d4925788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 21/27] fix: stored residual sum of squares is rescaled
 inconsistently in updates

---
 src/ondil/estimators/online_gamlss.py | 29 ++++++++++++---------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index c916201..cd567ff 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -21,7 +21,7 @@ from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
-from ..utils import calculate_effective_training_length, online_mean_update
+from ..utils import calculate_effective_training_length
 
 if HAS_PANDAS:
     import pandas as pd
@@ -559,12 +559,10 @@ class OnlineDistributionalRegression(
         if self.model_selection == "local_rss":
             # Denominator
             # TODO: This should go in the online mean update function.
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            denom = (
+                np.sum(w * wt * f)
+                + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
+            ) / self.n_training_[param]
             residuals = wv[:, None] - prediction_path
             rss = (
                 np.sum((residuals**2) * w[:, None] * wt[:, None] * f[:, None], axis=0)
@@ -1181,8 +1179,8 @@ class OnlineDistributionalRegression(
             self._fv[:, param] = fv_it_new[:, param]
 
             # Sum and mean of the weights
-            self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._sum_of_weights[param] = np.sum(w * wt * f)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1295,12 +1293,10 @@ class OnlineDistributionalRegression(
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
 
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            denom = (
+                np.sum(w * wt * f)
+                + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
+            ) / self.n_training_[param]
             sum_of_rss_it = (
                 rss_it
                 + (1 - self._forget[param]) ** y.shape[0]
@@ -1369,7 +1365,8 @@ class OnlineDistributionalRegression(
 
         # Update the weights
         self._sum_of_weights_new[param] = (
-            np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
+            np.sum(w * wt * f)
+            + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
         )
         self._mean_of_weights_new[param] = (
             self._sum_of_weights_new[param] / self.n_training_[param]
-- 
2.43.0


From bf67444f82e18edac5d7f01e72d7c055a7547a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 22/27] fix: option mappings passed by the user are modified

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 src/ondil/utils.py                    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index cd567ff..79970f9 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -273,6 +273,7 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            attribute = dict(attribute)
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -307,6 +308,7 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            equation = dict(equation)
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
diff --git a/src/ondil/utils.py b/src/ondil/utils.py
index 79e80b2..5bd5a99 100644
--- a/src/ondil/utils.py
+++ b/src/ondil/utils.py
@@ -36,6 +36,7 @@ def handle_param_dict(
     """
     # Handle (incomplete) dictionaries of parameters.
     if isinstance(param, dict):
+        param = dict(param)
         for p in range(n_params):
             if p not in param.keys():
                 warnings.warn(
-- 
2.43.0


From 0439ee9d7b4c1964675c970f7cbf1ba1339bbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 23/27] fix: prefit options override the minimum number of
 outer iterations

---
 src/ondil/estimators/online_gamlss.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 79970f9..32aa36b 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -754,7 +754,9 @@ class OnlineDistributionalRegression(
             )
             self._print_message(message=message, level=1)
             self._schedule_iteration[: self.prefit_initial] = 1
-            self._current_min_it_outer = int(self.prefit_initial)
+            self._current_min_it_outer = int(
+                max(self.prefit_initial, self.min_it_outer)
+            )
         else:
             self._current_min_it_outer = int(self.min_it_outer)
 
@@ -847,7 +849,9 @@ class OnlineDistributionalRegression(
             )
             self._print_message(message=message, level=1)
             self._schedule_iteration[: self.prefit_update] = 1
-            self._current_min_it_outer = int(self.prefit_update)
+            self._current_min_it_outer = int(max(self.prefit_update, self.min_it_outer))
+        else:
+            self._current_min_it_outer = int(self.min_it_outer)
 
         if self.cautious_updates:
             lower = self.distribution.quantile(0.005, self._fv).item()
@@ -861,9 +865,7 @@ class OnlineDistributionalRegression(
                 self._print_message(message=message, level=1)
                 self._schedule_iteration[:4] = 1
                 self._schedule_step_size[:4, :, :] = 0.25
-                self._current_min_it_outer = 4
-            else:
-                self._current_min_it_outer = int(self.min_it_outer)
+                self._current_min_it_outer = max(4, self._current_min_it_outer)
 
         message = "Starting update call"
         self._print_message(message=message, level=1)
-- 
2.43.0


From a199b390dbc3e993d8cd7e52ddad6b77e0f9e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:17 +0000
Subject: [PATCH 24/27] fix: options given as a mapping per parameter are
 rejected by the validation

---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 32aa36b..5d72621 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -35,12 +35,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 68ec7f8ba3a88e1676ab81e2f9bfd62bf1d7eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:45 +0000
Subject: [PATCH 25/27] fix: step sizes given as a mapping are assigned to
 parameters in insertion order

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 5d72621..b5e0bd0 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -633,7 +633,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From b7a853bc112fb11032ac2d666c97c081df285ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 26/27] fix: reject negative parameter indices in the
 derivatives of a distribution

---
 src/ondil/base/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index 58eeee6..4b7fd70 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -80,7 +80,7 @@ class Distribution(ABC):
     def _validate_dln_dpn_inputs(
         self, y: np.ndarray, theta: np.ndarray, param: int
     ) -> None:
-        if param >= self.n_params:
+        if param < 0 or param >= self.n_params:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {param}. Please remember we start counting at 0."
             )
@@ -88,7 +88,7 @@ class Distribution(ABC):
     def _validate_dl2_dpp_inputs(
         self, y: np.ndarray, theta: np.ndarray, params: Tuple[int, int]
     ) -> None:
-        if max(params) >= self.n_params:
+        if min(params) < 0 or max(params) >= self.n_params:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {params}. Please remember we start counting at 0."
             )
-- 
2.43.0


From 722034d9c1311eb0011df57248ccd8044d741e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 27/27] fix: cautious updates of batches and within the maximum
 number of outer iterations

---
 src/ondil/estimators/online_gamlss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index b5e0bd0..d87d5b7 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -854,8 +854,8 @@ class OnlineDistributionalRegression(
             self._current_min_it_outer = int(self.min_it_outer)
 
         if self.cautious_updates:
-            lower = self.distribution.quantile(0.005, self._fv).item()
-            upper = self.distribution.quantile(0.995, self._fv).item()
+            lower = self.distribution.quantile(0.005, self._fv)
+            upper = self.distribution.quantile(0.995, self._fv)
 
             if np.any(y < lower) or np.any(y > upper):
                 message = (
@@ -865,7 +865,9 @@ class OnlineDistributionalRegression(
                 self._print_message(message=message, level=1)
                 self._schedule_iteration[:4] = 1
                 self._schedule_step_size[:4, :, :] = 0.25
-                self._current_min_it_outer = max(4, self._current_min_it_outer)
+                self._current_min_it_outer = max(
+                    min(4, self.max_it_outer), self._current_min_it_outer
+                )
 
         message = "Starting update call"
         self._print_message(message=message, level=1)
-- 
2.43.0

