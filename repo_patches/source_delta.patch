From 663e287638bcb49f83218480d370cea61f8c7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 01/32] fix: exponential_gamma adds the number of samples to
 the shape and the total to the rate

---
 conjugate/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index f9de221..5c49b6a 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -617,8 +617,17 @@ def poisson_gamma_predictive(
     return NegativeBinomial(n=n, p=p)
 
 
-# Just happen to be the same as above
-get_exponential_gamma_posterior_params = get_poisson_gamma_posterior_params
+def get_exponential_gamma_posterior_params(
+    *,
+    alpha: NUMERIC,
+    beta: NUMERIC,
+    x_total: NUMERIC,
+    n: NUMERIC,
+) -> tuple[NUMERIC, NUMERIC]:
+    alpha_post = alpha + n
+    beta_post = beta + x_total
+
+    return alpha_post, beta_post
 
 
 @validate_prior_type
-- 
2.43.0


From 48af88cf116c5b46d6b944a283a2d61a4262b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 02/32] fix: exponential_gamma_predictive passes the gamma
 shape and rate to the matching Lomax parameters

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 5c49b6a..d70d0e1 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -701,7 +701,7 @@ def exponential_gamma_predictive(*, distribution: Gamma) -> Lomax:
 
         ![exponential_gamma_predictive](./images/docstrings/exponential_gamma_predictive.png)
     """
-    return Lomax(alpha=distribution.beta, lam=distribution.alpha)
+    return Lomax(alpha=distribution.alpha, lam=distribution.beta)
 
 
 @validate_prior_type
-- 
2.43.0


From 4445e35d1207f0b87d397f785e4d849bd8027458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 03/32] fix: Exponential uses lam as the rate it is documented
 to be

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 9952416..48f90f3 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -215,10 +215,10 @@ class Exponential(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.expon(scale=self.lam)
+        return stats.expon(scale=1 / self.lam)
 
     def __mul__(self, other):
-        return Gamma(alpha=other, beta=1 / self.lam)
+        return Gamma(alpha=other, beta=self.lam)
 
     __rmul__ = __mul__
 
-- 
2.43.0


From 221f684181df6401e7128fce4ff2ddea8dbb07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 04/32] fix: poisson_gamma_predictive scales the exposure
 instead of the shape when n is not one

---
 conjugate/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index d70d0e1..79c0507 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -611,10 +611,9 @@ def poisson_gamma_predictive(
         NegativeBinomial distribution related to predictive
 
     """
-    n = n * distribution.alpha
-    p = distribution.beta / (1 + distribution.beta)
+    p = distribution.beta / (n + distribution.beta)
 
-    return NegativeBinomial(n=n, p=p)
+    return NegativeBinomial(n=distribution.alpha, p=p)
 
 
 def get_exponential_gamma_posterior_params(
-- 
2.43.0


From 775ea73e9477a1e9d6e010da0cfeab0f0df1fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 05/32] fix: beta_geometric_pmf counts the failures before the
 first success and is zero off the support

---
 conjugate/_beta_geometric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d40b962..d72b38e 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -9,10 +9,13 @@ from scipy.special import beta
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
 
-    if not one_start:
-        x = x + 1
+    if one_start:
+        x = x - 1
 
-    return beta(a + 1, x + b) / beta(a, b)
+    in_support = (x >= 0) & (x == np.floor(x))
+    failures = np.where(in_support, x, 0)
+
+    return np.where(in_support, beta(a + 1, failures + b) / beta(a, b), 0.0)[()]
 
 
 class beta_geometric:
-- 
2.43.0


From 39f576a285fa802143b5b8794177d2d9ece3bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 06/32] fix: compound_gamma_pdf is zero for negative values

---
 conjugate/_compound_gamma.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index 7eab08d..b854d17 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -5,7 +5,13 @@ from scipy.stats import gamma
 
 
 def compound_gamma_pdf(x, a, b, q):
-    return (x / q) ** (a - 1) * (1 + (x / q)) ** (-a - b) / (q * beta(a, b))
+    x, a, b, q = np.broadcast_arrays(x, a, b, q)
+
+    in_support = x >= 0
+    z = np.where(in_support, x / q, 1.0)
+    pdf = z ** (a - 1) * (1 + z) ** (-a - b) / (q * beta(a, b))
+
+    return np.where(in_support, pdf, 0.0)[()]
 
 
 class compound_gamma:
-- 
2.43.0


From 8a21f8c38174e2a966148bcfd28fbd00fdb5e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 07/32] fix: LogNormal uses mu as the mean of the logarithm
 instead of a location shift

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 48f90f3..0626e58 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1304,7 +1304,7 @@ class LogNormal(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.lognorm(s=self.sigma, loc=self.mu)
+        return stats.lognorm(s=self.sigma, scale=np.exp(self.mu))
 
 
 @dataclass
-- 
2.43.0


From cbdfc9304dcf4ace5f0f152ba6ec547f5bd46996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 08/32] fix: MultivariateStudentT marginal takes the square
 root of the scale matrix entry

---
 conjugate/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 0626e58..bcd0a97 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -708,7 +708,9 @@ class MultivariateStudentT:
 
     def __getitem__(self, key):
         if isinstance(key, int):
-            return StudentT(mu=self.mu[key], sigma=self.sigma[key, key], nu=self.nu)
+            return StudentT(
+                mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
+            )
 
         return MultivariateStudentT(
             mu=self.mu[key], sigma=self.sigma[key][:, key], nu=self.nu
-- 
2.43.0


From f568069d13758a9bb501ed9331a0271717473c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 09/32] fix: Uniform ends at its upper bound

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index bcd0a97..292f01b 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -504,7 +504,7 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
 
     @property
     def dist(self):
-        return stats.uniform(self.low, self.high)
+        return stats.uniform(self.low, self.high - self.low)
 
 
 @dataclass
-- 
2.43.0


From ae1559e13daf97f63e93dc03fb99b744eb9a0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 10/32] fix: multivariate normal posteriors pass the given
 inverse function to their helper

---
 conjugate/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 79c0507..c54d8a8 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1772,6 +1772,7 @@ def multivariate_normal_known_covariance(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
@@ -1829,6 +1830,7 @@ def multivariate_normal_known_precision(
         precision_0=precision_0,
         x_bar=x_bar,
         precision=precision,
+        inv=inv,
     )
 
     return MultivariateNormal(mu=mu_post, cov=inv(precision_post))
-- 
2.43.0


From 038615b4f971940fed9bfad39e832a0b0845eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 11/32] fix: VonMisesKnownConcentration.log_likelihood
 multiplies the cosine by the concentration

---
 conjugate/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 292f01b..359cfd9 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -921,7 +921,7 @@ class VonMisesKnownConcentration:
             log likelihood
 
         """
-        return self.a + cos(mu - self.b) - ln(i0(self.a))
+        return self.a * cos(mu - self.b) - ln(i0(self.a))
 
 
 @dataclass
-- 
2.43.0


From 0230ab76db794cd6e9648619374b2bc99a683319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 12/32] fix: von_mises_known_concentration adds the weighted
 resultant of the data to the prior

---
 conjugate/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index c54d8a8..9fc9a82 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1691,10 +1691,11 @@ def von_mises_known_concentration(
         VonMisesKnownConcentration posterior distribution
 
     """
-    sin_total_post = prior.a * sin(prior.b) + sin_total
-    a_post = kappa * sin_total_post
+    sin_total_post = prior.a * sin(prior.b) + kappa * sin_total
+    cos_total_post = prior.a * cos(prior.b) + kappa * cos_total
 
-    b_post = arctan2(sin_total_post, prior.a * cos(prior.b) + cos_total)
+    a_post = (sin_total_post**2 + cos_total_post**2) ** 0.5
+    b_post = arctan2(sin_total_post, cos_total_post)
 
     return VonMisesKnownConcentration(a=a_post, b=b_post)
 
-- 
2.43.0


From 58bcbd72295d15c1ed6b8f32857f72f91a761e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 13/32] fix: dirichlet posteriors add list counts per category
 instead of concatenating them

---
 conjugate/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conjugate/models.py b/conjugate/models.py
index 9fc9a82..7fe4e00 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -428,6 +428,12 @@ def geometric_beta_predictive(
 
 
 def get_dirichlet_posterior_params(alpha_prior: NUMERIC, x: NUMERIC) -> NUMERIC:
+    if isinstance(alpha_prior, (list, tuple)) and isinstance(x, (list, tuple)):
+        return [
+            get_dirichlet_posterior_params(alpha_prior_i, x_i)
+            for alpha_prior_i, x_i in zip(alpha_prior, x)
+        ]
+
     try:
         return alpha_prior + x
     except Exception:
-- 
2.43.0


From 6b1af9fcdc5508f1f88f3efb5712ced5f9864a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 14/32] fix: Dirichlet.dist accepts concentrations given as a
 list

---
 conjugate/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 359cfd9..084be3c 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -160,10 +160,12 @@ class Dirichlet(DirichletPlotDistMixin):
 
     @property
     def dist(self):
-        if self.alpha.ndim == 1:
-            return stats.dirichlet(self.alpha)
+        alpha = np.asarray(self.alpha)
 
-        return VectorizedDist(self.alpha, dist=stats.dirichlet)
+        if alpha.ndim == 1:
+            return stats.dirichlet(alpha)
+
+        return VectorizedDist(alpha, dist=stats.dirichlet)
 
 
 @dataclass
-- 
2.43.0


From bf2ba07b007a8f8b8152a5ed3e976a62f4a96660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 15/32] fix: multivariate marginals accept numpy integers as an
 index

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 084be3c..bbd614d 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -481,7 +481,7 @@ class MultivariateNormal:
         return stats.multivariate_normal(mean=self.mu, cov=self.cov)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return Normal(mu=self.mu[key], sigma=self.cov[key, key] ** 0.5)
 
         return MultivariateNormal(mu=self.mu[key], cov=self.cov[key][:, key])
@@ -709,7 +709,7 @@ class MultivariateStudentT:
         return stats.multivariate_t(loc=self.mu, shape=self.sigma, df=self.nu)
 
     def __getitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (int, np.integer)):
             return StudentT(
                 mu=self.mu[key], sigma=self.sigma[key, key] ** 0.5, nu=self.nu
             )
-- 
2.43.0


From 971f2ab0e5108c1ee57d7dd4d709ec43ba4ab7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 16/32] fix: indexing a distribution raises for an index out of
 range instead of returning it unsliced

---
 conjugate/slice.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conjugate/slice.py b/conjugate/slice.py
index b59f841..8d7722b 100644
--- a/conjugate/slice.py
+++ b/conjugate/slice.py
@@ -1,5 +1,7 @@
 from dataclasses import asdict
 
+import numpy as np
+
 
 class SliceMixin:
     """Mixin in order to slice the parameters"""
@@ -10,11 +12,14 @@ class SliceMixin:
 
     def __getitem__(self, key):
         def take_slice(value, key):
-            try:
-                return value[key]
-            except Exception:
+            if np.ndim(value) == 0:
                 return value
 
+            if isinstance(value, (list, tuple)):
+                value = np.asarray(value)
+
+            return value[key]
+
         new_params = {k: take_slice(value=v, key=key) for k, v in self.params.items()}
 
         return self.__class__(**new_params)
-- 
2.43.0


From 7be55ebf0e1bd8818fd95ab55b3c8c36aef2ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 17/32] fix: models accepting two prior families raise the
 documented ValueError for a wrong one

---
 conjugate/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 7fe4e00..500cf4b 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -33,7 +33,7 @@ Below are the supported models:
 """
 
 from functools import wraps
-from typing import Callable
+from typing import Callable, get_args
 
 import numpy as np
 
@@ -79,8 +79,10 @@ def validate_type(func, parameter: str):
             parameter_value = kwargs.get(parameter, None)
             recieved_type = type(parameter_value)
             if not isinstance(parameter_value, expected_type):
+                expected_types = get_args(expected_type) or (expected_type,)
+                expected_name = " | ".join(t.__name__ for t in expected_types)
                 msg = (
-                    f"Expected {parameter} to be of type {expected_type.__name__!r}, "
+                    f"Expected {parameter} to be of type {expected_name!r}, "
                     f"got {recieved_type.__name__!r} instead."
                 )
                 raise ValueError(msg)
-- 
2.43.0


From 58b51cfb18f183b8be5e946569eaad7fe28d6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 18/32] fix: NormalGamma.sample_variance draws the documented
 variance, not the variance of the mean

---
 conjugate/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index bbd614d..96b085e 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1033,7 +1033,7 @@ class NormalGamma:
             samples from the inverse gamma distribution
 
         """
-        precision = self.lam * self.gamma.dist.rvs(size=size, random_state=random_state)
+        precision = self.gamma.dist.rvs(size=size, random_state=random_state)
 
         return 1 / precision
 
@@ -1073,7 +1073,7 @@ class NormalGamma:
 
         """
         variance = self.sample_variance(size=size, random_state=random_state)
-        sigma = variance**0.5
+        sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
             size=size, random_state=random_state
         )
-- 
2.43.0


From 402fc9422765f6ef7d6c6423bc64f15b3b07126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 19/32] fix: NormalWishart.sample_variance draws the documented
 covariance, not the covariance of the mean

---
 conjugate/distributions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 96b085e..40eafcb 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1161,9 +1161,7 @@ class NormalWishart:
 
         """
 
-        variance = inv(
-            self.lam * self.wishart.dist.rvs(size=size, random_state=random_state)
-        )
+        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
 
         if size == 1:
             variance = variance[None, ...]
@@ -1192,7 +1190,7 @@ class NormalWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.lam).rvs(
                     size=1,
                     random_state=random_state,
                 )
-- 
2.43.0


From 7646caf3a9b1fa430dd7bfa692ab0947f679f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 20/32] fix: NormalInverseWishart.sample_variance draws the
 documented covariance, not the covariance of the mean

---
 conjugate/distributions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 40eafcb..4d93288 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1248,10 +1248,7 @@ class NormalInverseWishart:
             samples from the inverse wishart distribution
 
         """
-        variance = (
-            self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
-            / self.kappa
-        )
+        variance = self.inverse_wishart.dist.rvs(size=size, random_state=random_state)
         if size == 1:
             variance = variance[None, ...]
 
@@ -1278,7 +1275,7 @@ class NormalInverseWishart:
 
         mean = np.stack(
             [
-                stats.multivariate_normal(self.mu, cov=cov).rvs(
+                stats.multivariate_normal(self.mu, cov=cov / self.kappa).rvs(
                     size=1, random_state=random_state
                 )
                 for cov in variance
-- 
2.43.0


From 88edfb239342c54d9a859ade8f5979a296ad4086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 21/32] fix: samplers given an integer seed no longer reuse the
 same random stream in every stage

---
 conjugate/_beta_geometric.py |  3 +++
 conjugate/_compound_gamma.py |  3 +++
 conjugate/_random.py         | 15 +++++++++++++++
 conjugate/distributions.py   |  5 +++++
 4 files changed, 26 insertions(+)
 create mode 100644 conjugate/_random.py

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index d72b38e..24ab68f 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -5,6 +5,8 @@ import numpy as np
 from scipy import stats
 from scipy.special import beta
 
+from conjugate._random import share_random_state
+
 
 def beta_geometric_pmf(x, a, b, one_start: bool = True):
     x, a, b = np.broadcast_arrays(x, a, b)
@@ -39,6 +41,7 @@ class beta_geometric:
         a, b = np.broadcast_arrays(self.a, self.b)
         size = np.broadcast_shapes(a.shape, b.shape, size or ())
 
+        random_state = share_random_state(random_state)
         p = stats.beta.rvs(a, b, size=size, random_state=random_state)
         result = stats.geom.rvs(p=p, size=size, random_state=random_state)
 
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index b854d17..c49b27f 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -3,6 +3,8 @@ import numpy as np
 from scipy.special import beta
 from scipy.stats import gamma
 
+from conjugate._random import share_random_state
+
 
 def compound_gamma_pdf(x, a, b, q):
     x, a, b, q = np.broadcast_arrays(x, a, b, q)
@@ -34,6 +36,7 @@ class compound_gamma:
         a, b, q = np.broadcast_arrays(self.a, self.b, self.q)
         size = np.broadcast_shapes(a.shape, b.shape, q.shape, size or ())
 
+        random_state = share_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
         return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
 
diff --git a/conjugate/_random.py b/conjugate/_random.py
new file mode 100644
index 0000000..c69237f
--- /dev/null
+++ b/conjugate/_random.py
@@ -0,0 +1,15 @@
+"""Handling of the random state shared by the stages of a sampler."""
+
+import numpy as np
+
+
+def share_random_state(random_state=None):
+    """Turn a seed into one stream so that every stage uses fresh randomness.
+
+    Passing the same integer to each stage would restart the stream and repeat the same draws.
+
+    """
+    if isinstance(random_state, (int, np.integer)):
+        return np.random.RandomState(random_state)
+
+    return random_state
diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 4d93288..55199b4 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -47,6 +47,7 @@ from scipy.special import gammaln, i0
 
 from conjugate._compound_gamma import compound_gamma
 from conjugate._beta_geometric import beta_geometric
+from conjugate._random import share_random_state
 from conjugate._typing import NUMERIC
 from conjugate.plot import (
     DirichletPlotDistMixin,
@@ -656,6 +657,7 @@ class NormalInverseGamma:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         sample_beta = (
@@ -1072,6 +1074,7 @@ class NormalGamma:
             samples from the normal distribution
 
         """
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
         sigma = (variance / self.lam) ** 0.5
         beta = stats.norm(loc=self.mu, scale=sigma).rvs(
@@ -1186,6 +1189,7 @@ class NormalWishart:
 
         """
 
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
@@ -1271,6 +1275,7 @@ class NormalInverseWishart:
             samples from the normal distribution and optionally variance
 
         """
+        random_state = share_random_state(random_state)
         variance = self.sample_variance(size=size, random_state=random_state)
 
         mean = np.stack(
-- 
2.43.0


From 43d968538a6b83c7e43f049f1b51c1253f99b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 22/32] fix: VectorizedDist.rvs accepts a random state like the
 laws it stands for

---
 conjugate/distributions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 55199b4..2ef32b7 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -134,8 +134,15 @@ class VectorizedDist:
         self.params = params
         self.dist = dist
 
-    def rvs(self, size: int = 1) -> np.ndarray:
-        return np.stack([self.dist(param).rvs(size=size) for param in self.params])
+    def rvs(self, size: int = 1, random_state=None) -> np.ndarray:
+        random_state = share_random_state(random_state)
+
+        return np.stack(
+            [
+                self.dist(param).rvs(size=size, random_state=random_state)
+                for param in self.params
+            ]
+        )
 
     def mean(self) -> np.ndarray:
         return np.stack([self.dist(param).mean() for param in self.params])
-- 
2.43.0


From c29f8d0da01bdb17be3546fb362dba1431951d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 23/32] fix: conditional plots rescale each curve by its own
 total

---
 conjugate/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 2a00f98..b5acc8a 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -322,7 +322,7 @@ class DiscretePlotMixin(PlotDistMixin):
         yy = func(x)
 
         if conditional:
-            yy = yy / np.sum(yy)
+            yy = yy / np.sum(yy, axis=0)
 
             prefix = (
                 "Cumulative Probability $F(X \\leq x" if cdf else "Probability $f(x"
-- 
2.43.0


From 0f5e3aead1ecbad78df11e4ebb9b95677272f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 24/32] fix: Uniform with array limits can be plotted over the
 range they span

---
 conjugate/distributions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index 2ef32b7..ad15bfb 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -509,8 +509,12 @@ class Uniform(ContinuousPlotDistMixin, SliceMixin):
     high: NUMERIC
 
     def __post_init__(self):
-        self.min_value = self.low
-        self.max_value = self.high
+        self.min_value = (
+            self.low.min() if isinstance(self.low, np.ndarray) else self.low
+        )
+        self.max_value = (
+            self.high.max() if isinstance(self.high, np.ndarray) else self.high
+        )
 
     @property
     def dist(self):
-- 
2.43.0


From 2bdbe1807dcdceacce4998b6737b75b7a2865712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 25/32] fix: normal models accept the summary of an empty batch

---
 conjugate/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 500cf4b..0a8a89c 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1240,10 +1240,8 @@ def _normal(
     alpha: NUMERIC,
     beta: NUMERIC,
 ) -> tuple[NUMERIC, NUMERIC, NUMERIC, NUMERIC]:
-    x_mean = x_total / n
-
     nu_post = nu + n
-    mu_post = ((nu * mu_0) + (n * x_mean)) / nu_post
+    mu_post = ((nu * mu_0) + x_total) / nu_post
 
     alpha_post = alpha + (n / 2)
     beta_post = beta + 0.5 * ((mu_0**2) * nu + x2_total - (mu_post**2) * nu_post)
-- 
2.43.0


From 0ef56e50cf6d8380f0857fb2c1541d9b2e2e5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 26/32] fix: multivariate_normal accepts an empty batch

---
 conjugate/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/models.py b/conjugate/models.py
index 0a8a89c..9cf2af7 100644
--- a/conjugate/models.py
+++ b/conjugate/models.py
@@ -1954,7 +1954,7 @@ def multivariate_normal(
         ```
     """
     n = X.shape[0]
-    X_mean = X.mean(axis=0)
+    X_mean = X.sum(axis=0) / max(n, 1)
     C = (X - X_mean).T @ (X - X_mean)
 
     mu_post = (prior.mu * prior.kappa + n * X_mean) / (prior.kappa + n)
-- 
2.43.0


From 46a06fc34c542c787b79db527880834d63a40448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 27/32] fix: compound gamma sampler returns the requested shape
 for a single sample

---
 conjugate/_compound_gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index c49b27f..fa0ac59 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -38,7 +38,7 @@ class compound_gamma:
 
         random_state = share_random_state(random_state)
         random_b = gamma.rvs(b, scale=1 / q, size=size, random_state=random_state)
-        return gamma.rvs(a, scale=1 / random_b, random_state=random_state)
+        return gamma.rvs(a, scale=1 / random_b, size=size, random_state=random_state)
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
-- 
2.43.0


From 8f696984487f1e420d83871f81a2f611a929d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 28/32] fix: cumulative plots of beta geometric and compound
 gamma no longer fail

---
 conjugate/_beta_geometric.py | 15 +++++++++++++++
 conjugate/_compound_gamma.py | 13 ++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/conjugate/_beta_geometric.py b/conjugate/_beta_geometric.py
index 24ab68f..9f0c004 100644
--- a/conjugate/_beta_geometric.py
+++ b/conjugate/_beta_geometric.py
@@ -20,6 +20,18 @@ def beta_geometric_pmf(x, a, b, one_start: bool = True):
     return np.where(in_support, beta(a + 1, failures + b) / beta(a, b), 0.0)[()]
 
 
+def beta_geometric_cdf(x, a, b, one_start: bool = True):
+    x, a, b = np.broadcast_arrays(x, a, b)
+
+    if one_start:
+        x = x - 1
+
+    in_support = x >= 0
+    failures = np.where(in_support, np.floor(x), 0)
+
+    return np.where(in_support, 1 - beta(a, failures + 1 + b) / beta(a, b), 0.0)[()]
+
+
 class beta_geometric:
     """Implementation to work like scipy distribution classes.
 
@@ -52,3 +64,6 @@ class beta_geometric:
 
     def pmf(self, x):
         return beta_geometric_pmf(x, self.a, self.b, one_start=self.one_start)
+
+    def cdf(self, x):
+        return beta_geometric_cdf(x, self.a, self.b, one_start=self.one_start)
diff --git a/conjugate/_compound_gamma.py b/conjugate/_compound_gamma.py
index fa0ac59..651ec86 100644
--- a/conjugate/_compound_gamma.py
+++ b/conjugate/_compound_gamma.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from scipy.special import beta
+from scipy.special import beta, betainc
 from scipy.stats import gamma
 
 from conjugate._random import share_random_state
@@ -16,6 +16,14 @@ def compound_gamma_pdf(x, a, b, q):
     return np.where(in_support, pdf, 0.0)[()]
 
 
+def compound_gamma_cdf(x, a, b, q):
+    x, a, b, q = np.broadcast_arrays(x, a, b, q)
+
+    z = np.where(x >= 0, x / q, 0.0)
+
+    return betainc(a, b, z / (1 + z))[()]
+
+
 class compound_gamma:
     """Implementation to work like scipy distribution classes.
 
@@ -42,3 +50,6 @@ class compound_gamma:
 
     def pdf(self, x):
         return compound_gamma_pdf(x, self.a, self.b, self.q)
+
+    def cdf(self, x):
+        return compound_gamma_cdf(x, self.a, self.b, self.q)
-- 
2.43.0


From adff9cf6827e7db710be6f102947828dd4d0bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 29/32] fix: a label function labels a single curve too

---
 conjugate/plot.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index b5acc8a..1901a72 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -47,14 +47,11 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
 
     https://stackoverflow.com/questions/73662931/matplotlib-plot-a-numpy-array-as-many-lines-with-a-single-label
     """
-    if yy.ndim == 1:
-        return label
-
-    ncols = yy.shape[1]
+    ncols = 1 if yy.ndim == 1 else yy.shape[1]
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
-    return label
+    return label(0) if callable(label) else label
 
 
 class PlotDistMixin:
-- 
2.43.0


From 05938e07e925d521d9b91db257c61f24457e5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 30/32] fix: labels can be any iterable of strings

---
 conjugate/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index 1901a72..eb5af4d 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -35,7 +35,7 @@ def label_to_iterable(label: LABEL_INPUT, ncols: int) -> Iterable[str]:
         return [label(i) for i in range(ncols)]
 
     if isinstance(label, Iterable):
-        return label
+        return list(label)
 
     raise ValueError(
         "Label must be None, a string, iterable, or callable.",
@@ -51,6 +51,9 @@ def resolve_label(label: LABEL_INPUT, yy: np.ndarray):
     if ncols != 1:
         return label_to_iterable(label, ncols)
 
+    if isinstance(label, Iterable) and not isinstance(label, str):
+        return list(label)
+
     return label(0) if callable(label) else label
 
 
-- 
2.43.0


From 95056cda66aa1ebc9cd918171cf6a96f5b4ae456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:29 +0000
Subject: [PATCH 31/32] fix: a single colour given to a plot is not a list of
 colours

plot_pmf(color="C2"), as docs/examples/binomial.md does it, raised
ValueError (cycle reference in prop_cycler); so did an RGB tuple.
---
 conjugate/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conjugate/plot.py b/conjugate/plot.py
index eb5af4d..158755b 100644
--- a/conjugate/plot.py
+++ b/conjugate/plot.py
@@ -5,6 +5,7 @@ from typing import Protocol
 
 import matplotlib.pyplot as plt
 from matplotlib.axes import Axes
+from matplotlib.colors import is_color_like
 from matplotlib.projections.polar import PolarAxes
 
 import numpy as np
@@ -178,7 +179,8 @@ class ContinuousPlotDistMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        color = kwargs.get("color")
+        if isinstance(color, Iterable) and not is_color_like(color):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, label=label, **kwargs)
@@ -340,7 +342,8 @@ class DiscretePlotMixin(PlotDistMixin):
         else:
             label = None
 
-        if "color" in kwargs and isinstance(kwargs["color"], Iterable):
+        color = kwargs.get("color")
+        if isinstance(color, Iterable) and not is_color_like(color):
             ax.set_prop_cycle(color=kwargs.pop("color"))
 
         ax.plot(x, yy, mark, label=label, **kwargs)
-- 
2.43.0


From d6222005ce1708b36d174686b34e4bb079f30e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:52 +0000
Subject: [PATCH 32/32] fix: a normal Wishart of one coordinate can be sampled

scipy drops the axes of a 1 x 1 matrix, which cannot be inverted then.
---
 conjugate/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conjugate/distributions.py b/conjugate/distributions.py
index ad15bfb..cdf459e 100644
--- a/conjugate/distributions.py
+++ b/conjugate/distributions.py
@@ -1175,7 +1175,12 @@ class NormalWishart:
 
         """
 
-        variance = inv(self.wishart.dist.rvs(size=size, random_state=random_state))
+        precision = self.wishart.dist.rvs(size=size, random_state=random_state)
+        if np.size(self.W) == 1:
+            # scipy drops the two axes of a 1 x 1 matrix
+            precision = precision[..., None, None]
+
+        variance = inv(precision)
 
         if size == 1:
             variance = variance[None, ...]
-- 
2.43.0

