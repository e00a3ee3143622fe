From 79e9a122c9c6b65b2c084291840e7d80c77e5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 01/48] fix: upper limit search raises when the initial guess
 is exactly the root

---
 src/spey/hypothesis_testing/upper_limits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..00bfe1b 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -227,6 +227,11 @@ def find_poi_upper_limit(
             result.append(np.inf)
             continue
 
+        # The search starts exactly at the root; there is no interval left to solve
+        if low.get_value(-1) == hig.get_value(-1):
+            result.append(hig.get_value(-1))
+            continue
+
         x0, r = scipy.optimize.toms748(
             comp,
             low.get_value(-1),
-- 
2.43.0


From 4f9822b7e5a83ae335ac438dd5141198541932fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 02/48] fix: fit overwrites the caller's initial parameters and
 the model configuration

---
 src/spey/optimizer/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..c37fb4a 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -89,7 +89,9 @@ def fit(
         provided) and the corresponding fit parameter vector.
     """
 
-    init_pars = (
+    # Copy: fixed values are written below, neither the caller's initial parameters nor
+    # the (shared) model configuration should change with them
+    init_pars = list(
         initial_parameters
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
-- 
2.43.0


From 8ad78c08dd60637b487cc434185de35f5e8874d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 03/48] fix: prepare_for_fit appends backend constraints to the
 caller's list

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..2d89e5e 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -417,7 +417,7 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        constraints = list(kwargs.pop("constraints", []))
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From 585ea9c5f32f769c9cf1b2dc61cb33f12e5b8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 04/48] fix: scipy retries (ntrials>1) raise for parameters
 without bounds

---
 src/spey/optimizer/scipy_tools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..6ea5391 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,14 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
+            for bdx, (lower, upper) in enumerate([] if bounds is None else bounds):
+                # ``None`` means that the parameter is not bounded on that side
                 if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
+                    upper = None if upper is None else upper * 2.0
                 else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+                    lower = None if lower is None else min(lower, lower * 10.0)
+                    upper = None if upper is None else upper * 10.0
+                bounds[bdx] = (lower, upper)
         elif opt.success:
             break
 
-- 
2.43.0


From 4be3ef97792c0008a64de01bf442dc1135ca8541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 05/48] fix: poi_upper_bound forces a non-negative POI in the
 default backends

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..31a6423 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -431,7 +431,8 @@ class DefaultPDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..5e55243 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -265,7 +265,8 @@ class SimplePDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From 0ae58371d587ecfbac46cb2e792bfc9ee56f1d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 06/48] fix: rescale_poi_bounds nests the bounds tuple when no
 upper bound is given

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..8415da2 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -187,6 +187,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From 45c7de5e7f20402ccab37ae1bcaff55be8bb823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 07/48] fix: bounds of fixed non-POI parameters are widened
 with the POI's minimum

---
 src/spey/base/model_config.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 8415da2..55193f7 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -145,10 +145,14 @@ class ModelConfig:
             if any(b is None for b in bounds[idx]):
                 continue
             if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+                if idx == self.poi_index:
+                    bounds[idx] = (self.minimum_poi if val < 0.0 else 0.0, val + 1)
+                else:
+                    # minimum POI does not constrain the other parameters
+                    bounds[idx] = (
+                        min(bounds[idx][0], val - 1),
+                        max(bounds[idx][1], val + 1),
+                    )
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From 42a74c1e0e873a9df83d60ca06ed82933547d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 08/48] fix: chi2 scans lose precision compared to single
 evaluations

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..709ae1b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -633,7 +633,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -641,7 +641,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From cb49cd3c4de8781e4856ba89c9773aba0f185700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 09/48] fix: numpy and integer scalars are not accepted as POI
 values

---
 src/spey/base/hypotest_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709ae1b..4dd11c8 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -796,14 +796,14 @@ class HypothesisTestingBase(ABC):
 
         def logpdf(mu: Union[float, np.ndarray]) -> float:
             return -self.likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.isscalar(mu) else mu[0],
                 expected=expected,
                 **kwargs,
             )
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.isscalar(mu) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -889,7 +889,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=float(mu) if np.isscalar(mu) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -985,7 +985,7 @@ class HypothesisTestingBase(ABC):
             ) -> float:
                 """Compute logpdf with respect to poi and given data"""
                 return -self.likelihood(
-                    poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                    poi_test=float(mu) if np.isscalar(mu) else mu[0],
                     expected=expected,
                     data=data,
                     **kwargs,
-- 
2.43.0


From fa78a69d25b4ba90c8d410001e63695f306e2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 10/48] fix: find_most_sensitive raises AnalysisQueryError for
 every combination

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..2dbf692 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -378,7 +378,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :class:`~spey.StatisticalModel`:
             The model with the minimum value of :attr:`~spey.StatisticalModel.s95exp`.
         """
-        return self[np.argmin([model.s95exp for model in self])]
+        return self[int(np.argmin([model.s95exp for model in self]))]
 
     def likelihood(
         self,
-- 
2.43.0


From 7681233cc487e84a33b295e0119c477d806097f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 11/48] fix: chi2 of a combination raises since init_pars
 reaches the POI fit twice

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 2dbf692..835c5c5 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -779,7 +779,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         twice_nll, fit_params = fit(
             func=twice_nll,
             model_configuration=config,
-            **optimiser_options,
+            # initial parameters belong to the statistical models, not to this 1D fit
+            **{k: v for k, v in optimiser_options.items() if k != "init_pars"},
         )
 
         nll = twice_nll / 2.0 if return_nll else np.exp(-twice_nll / 2.0)
@@ -901,7 +902,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         twice_nll, fit_params = fit(
             func=twice_nll,
             model_configuration=config,
-            **optimiser_options,
+            # initial parameters belong to the statistical models, not to this 1D fit
+            **{k: v for k, v in optimiser_options.items() if k != "init_pars"},
         )
 
         nll = twice_nll / 2.0 if return_nll else np.exp(-twice_nll / 2.0)
-- 
2.43.0


From b47bc616feba8acc7dcd0fa33f54d6403f052f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 12/48] fix: data given as list is rejected by the Poisson
 based likelihoods

---
 src/spey/backends/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..82dc1bb 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -45,8 +45,9 @@ class Poisson:
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
+        value = np.array(value)
         # for code efficiency
-        if np.array(value).dtype in [np.int32, np.int16, np.int64]:
+        if value.dtype in [np.int32, np.int16, np.int64]:
             return logpmf(value, self.loc).astype(np.float64)
 
         return (value * np.log(self.loc) - self.loc - gammaln(value + 1.0)).astype(
-- 
2.43.0


From 7a4220187e33ad408e34177d15c0a6b53f2a4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 13/48] fix: multivariate normal with callable covariance loses
 its norm for det(cov) < 1

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 82dc1bb..b610efa 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -126,9 +126,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From 23ccccd884408759ba307863c964b60e80775d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 14/48] fix: case of the constraint distribution type is
 validated but not normalised

---
 src/spey/backends/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index b610efa..33d26a1 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -274,7 +274,7 @@ class ConstraintModel:
             ], f"Unknown distribution type: {desc['distribution_type']}"
             log.debug(f"{desc}")
             self._pdfs.append(
-                distributions[desc["distribution_type"]](
+                distributions[desc["distribution_type"].lower()](
                     *desc.get("args", []), **desc.get("kwargs", {})
                 )
             )
-- 
2.43.0


From f390d07f40c785d78c56522c0def6ecd97753d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 15/48] fix: positivity constraint of default.poisson does not
 follow its uncertainties

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 5e55243..d691c8c 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -605,7 +605,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From 2372674f021cc70dad0adf27223fa7f89fddac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 16/48] fix: sampling raises for models with signal modifiers

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 31a6423..5acbbcd 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -734,7 +734,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
-- 
2.43.0


From 9fe1a17a108d21a69e7df037f0dfe3e2d66bf6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 17/48] fix: locally registered backends can not be retrieved

---
 src/spey/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..ab9b054 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -269,11 +269,8 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        # locally registered backends are classes rather than entry points
+        statistical_model = backend if isinstance(backend, type) else backend.load()
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +345,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From 583917adbab49ffc3cfd52ba82ed515b08a92951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 18/48] fix: pull is NaN at the maximum likelihood estimate

---
 src/spey/base/hypotest_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 4dd11c8..243b184 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -716,7 +716,8 @@ class HypothesisTestingBase(ABC):
             expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
         )
         llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
-        return np.sign(muhat - poi_test) * np.sqrt(2.0 * (llhd - min_nll))
+        # the optimiser can stop numerically above the profiled likelihood
+        return np.sign(muhat - poi_test) * np.sqrt(2.0 * max(llhd - min_nll, 0.0))
 
     def _prepare_for_hypotest(
         self,
-- 
2.43.0


From b960f14704fd461822426dbbfa8d7927c9e7937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 19/48] fix: scipy retries shrink negative upper bounds instead
 of expanding them

---
 src/spey/optimizer/scipy_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6ea5391..eec61d8 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -122,10 +122,10 @@ def minimize(
             for bdx, (lower, upper) in enumerate([] if bounds is None else bounds):
                 # ``None`` means that the parameter is not bounded on that side
                 if bdx == poi_index:
-                    upper = None if upper is None else upper * 2.0
+                    upper = None if upper is None else max(upper, upper * 2.0)
                 else:
                     lower = None if lower is None else min(lower, lower * 10.0)
-                    upper = None if upper is None else upper * 10.0
+                    upper = None if upper is None else max(upper, upper * 10.0)
                 bounds[bdx] = (lower, upper)
         elif opt.success:
             break
-- 
2.43.0


From 3a8432a45527d70d2f2ddac134a8aad65ebf3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 20/48] fix: bounds open on one side are not adjusted for fixed
 parameters

---
 src/spey/base/model_config.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 55193f7..8c74f0c 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -76,12 +76,15 @@ class ModelConfig:
         if poi_value is None:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
-        if any(b is None for b in bounds[self.poi_index]):
-            return bounds
-        if not bounds[self.poi_index][0] < poi_value < bounds[self.poi_index][1]:
+        lower, upper = bounds[self.poi_index]
+        # ``None`` means that the parameter is not bounded on that side
+        if (lower is not None and poi_value <= lower) or (
+            upper is not None and poi_value >= upper
+        ):
+            minimum = self.minimum_poi if poi_value < 0.0 else 0.0
             bounds[self.poi_index] = (
-                self.minimum_poi if poi_value < 0.0 else 0.0,
-                max([poi_value + 1, self.minimum_poi if poi_value < 0.0 else 0.0]),
+                minimum,
+                None if upper is None else max([poi_value + 1, minimum]),
             )
         return bounds
 
@@ -142,16 +145,21 @@ class ModelConfig:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
-            if any(b is None for b in bounds[idx]):
-                continue
-            if not bounds[idx][0] < val < bounds[idx][1]:
+            lower, upper = bounds[idx]
+            # ``None`` means that the parameter is not bounded on that side
+            if (lower is not None and val <= lower) or (
+                upper is not None and val >= upper
+            ):
                 if idx == self.poi_index:
-                    bounds[idx] = (self.minimum_poi if val < 0.0 else 0.0, val + 1)
+                    bounds[idx] = (
+                        self.minimum_poi if val < 0.0 else 0.0,
+                        None if upper is None else val + 1,
+                    )
                 else:
                     # minimum POI does not constrain the other parameters
                     bounds[idx] = (
-                        min(bounds[idx][0], val - 1),
-                        max(bounds[idx][1], val + 1),
+                        None if lower is None else min(lower, val - 1),
+                        None if upper is None else max(upper, val + 1),
                     )
         return bounds
 
-- 
2.43.0


From 4e3139c43ce41dab191040c70db0763d0c41e8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 21/48] fix: exchanging parameter names leaves them mixed up or
 duplicated

---
 src/spey/base/model_config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 8c74f0c..c9e6aea 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -165,14 +165,14 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
+        for old in name_map:
             if old not in self.parameter_names:
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        # All the names change at once, otherwise names can not be exchanged
+        new_names = [name_map.get(name, name) for name in self.parameter_names]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        self.parameter_names[:] = new_names
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From 690d41cdc4a37a1754b467f67689998cbb6eea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 22/48] fix: cached functions reject dictionaries with keys of
 different types

---
 src/spey/system/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..5fa4c59 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,7 +16,7 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> unordered set of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -96,7 +96,12 @@ def _make_token(obj: Any) -> Any:
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # keys can be of different (unorderable) types and a dict is never equivalent
+        # to a sequence of pairs
+        return (
+            dict,
+            frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()),
+        )
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From 482ccd2e7bc53254783aa794018aa75dd3f835a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 23/48] fix: eviction or clearing of the cache breaks
 concurrent computations

---
 src/spey/system/cache.py | 64 +++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 5fa4c59..5557264 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -270,10 +270,9 @@ class _PerInstanceCacheDescriptor:
                         return copy.deepcopy(value) if copy_on_return else value
                     event = events[key]
                 else:
-                    event = threading.Event()
-                    events[key] = event
+                    own_event = threading.Event()
+                    events[key] = own_event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -287,23 +286,23 @@ class _PerInstanceCacheDescriptor:
                 result = fn(obj, *args, **kwargs)
             except BaseException:
                 with lock:
-                    if cache.get(key) is _COMPUTING:
+                    if events.get(key) is own_event:
                         del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()
+                        del events[key]
+                own_event.set()
                 raise
 
             with lock:
-                cache[key] = result
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()
+                # Store unless the cache has been cleared during the computation. Only
+                # completed entries can be evicted, others still have waiters.
+                if events.get(key) is own_event:
+                    cache[key] = result
+                    order.append(key)
+                    del events[key]
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            del cache[order.popleft()]
+            own_event.set()
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -435,10 +434,9 @@ def cache_results(
                     event = events[key]
                 else:
                     # First caller for this key -- mark it as in-flight.
-                    event = threading.Event()
-                    events[key] = event
+                    own_event = threading.Event()
+                    events[key] = own_event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -457,25 +455,25 @@ def cache_results(
             except BaseException:
                 # Remove the sentinel so future calls can retry.
                 with lock:
-                    if cache.get(key) is _COMPUTING:
+                    if events.get(key) is own_event:
                         del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()  # wake up waiters
+                        del events[key]
+                own_event.set()  # wake up waiters
                 raise
 
             # ---- store result (under lock) ---------------------------------
             with lock:
-                cache[key] = result
-                # Evict oldest entries if maxsize is exceeded.
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()  # wake up any waiting threads
+                # Store unless the cache has been cleared during the computation. Only
+                # completed entries can be evicted, others still have waiters.
+                if events.get(key) is own_event:
+                    cache[key] = result
+                    order.append(key)
+                    del events[key]
+                    # Evict oldest entries if maxsize is exceeded.
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            del cache[order.popleft()]
+            own_event.set()  # wake up any waiting threads
 
             return copy.deepcopy(result) if copy_on_return else result
 
-- 
2.43.0


From 4c2370281f8e48572acf9bdeac167c429c641c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 24/48] fix: copies of an instance share the cached methods of
 the original

---
 src/spey/system/cache.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 5557264..fccc29a 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -136,14 +136,13 @@ def _has_self_param(fn: Callable) -> bool:
 
 class _PerInstanceCacheDescriptor:
     """
-    Non-data descriptor that provides per-instance caching for instance methods.
+    Data descriptor that provides per-instance caching for instance methods.
 
     On the first ``instance.method`` attribute lookup the descriptor builds a
     dedicated cached callable whose internal cache storage is private to that
-    instance.  The wrapper is stored in ``instance.__dict__[method_name]``
-    so that Python's attribute-lookup rules (instance dict beats non-data
-    descriptor) bypass the descriptor on all subsequent accesses -- zero
-    overhead after the first call.
+    instance.  The wrapper is stored in ``instance.__dict__[method_name]``.
+    Since copying an instance copies its ``__dict__``, every lookup ensures that
+    the wrapper has been built for the instance at hand.
 
     For classes that use ``__slots__`` without ``__dict__``, the descriptor
     falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
@@ -203,14 +202,21 @@ class _PerInstanceCacheDescriptor:
         except AttributeError:
             return self._get_fallback(obj)
         wrapper = inst_dict.get(self._name)
-        if wrapper is None:
+        # Copies of an instance inherit the wrapper of the original through __dict__
+        if wrapper is None or getattr(wrapper, "_cache_owner", obj) is not obj:
             wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
             inst_dict[self._name] = wrapper
         return wrapper
 
+    def __set__(self, obj: Any, value: Any) -> None:
+        obj.__dict__[self._name] = value
+
+    def __delete__(self, obj: Any) -> None:
+        try:
+            del obj.__dict__[self._name]
+        except KeyError:
+            raise AttributeError(self._name) from None
+
     def _get_fallback(self, obj: Any) -> Callable:
         """Fallback for ``__slots__``-only classes without ``__dict__``."""
         obj_id = id(obj)
@@ -326,6 +332,7 @@ class _PerInstanceCacheDescriptor:
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
         wrapper.get_cache = get_cache
+        wrapper._cache_owner = obj
         return wrapper
 
 
-- 
2.43.0


From 129f461116449969251579d3da505e5d6beae099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 25/48] fix: calculators are reported as available for every
 backend

---
 src/spey/interface/statistical_model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 2d89e5e..13cfbd9 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -228,11 +228,12 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
-            != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
-            != BackendBase.minimize_asimov_negative_loglikelihood
+        backend = type(self.backend)
+        return backend.expected_data is not BackendBase.expected_data or (
+            backend.asimov_negative_loglikelihood
+            is not BackendBase.asimov_negative_loglikelihood
+            and backend.minimize_asimov_negative_loglikelihood
+            is not BackendBase.minimize_asimov_negative_loglikelihood
         )
 
     @property
@@ -246,7 +247,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return type(self.backend).get_sampler is not BackendBase.get_sampler
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From be954aa80b0cfbaaf426d3a60c617c3fde51c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 26/48] fix: overlapping merge groups are not detected

---
 src/spey/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..ae6193a 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -185,7 +185,7 @@ def merge_correlated_bins(
     N = covariance_matrix.shape[0]
 
     # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    merged_indices = [i for g in merge_groups for i in g]
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From c632b1e0a16a40070560291437a4418b43960254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 27/48] fix: sample sizes given as numpy integers are ignored

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 13cfbd9..ef74c30 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -1175,7 +1175,7 @@ class StatisticalModel(HypothesisTestingBase):
                 f"{self.backend_type} backend does not have sampling capabilities"
             ) from exc
 
-        return sampler(size) if isinstance(size, int) else sampler
+        return sampler if size is None else sampler(size)
 
     def sigma_mu_from_hessian(
         self,
-- 
2.43.0


From 0c8b1792dc93ffd2377b1f4a06701a67b9677dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 28/48] fix: concurrent first accesses of a cached method
 create separate caches

---
 src/spey/system/cache.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index fccc29a..79b34ae 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -184,8 +184,8 @@ class _PerInstanceCacheDescriptor:
         self.__name__ = fn.__name__
         self.__qualname__ = fn.__qualname__
         self.__annotations__ = getattr(fn, "__annotations__", {})
+        self._lock = threading.Lock()
         # Fallback storage for __slots__-only classes (no __dict__).
-        self._fallback_lock = threading.Lock()
         self._fallback_wrappers: dict[int, Callable] = {}
         self._fallback_refs: dict[int, weakref.ref] = {}
 
@@ -204,8 +204,11 @@ class _PerInstanceCacheDescriptor:
         wrapper = inst_dict.get(self._name)
         # Copies of an instance inherit the wrapper of the original through __dict__
         if wrapper is None or getattr(wrapper, "_cache_owner", obj) is not obj:
-            wrapper = self._build_wrapper(obj)
-            inst_dict[self._name] = wrapper
+            with self._lock:  # concurrent first accesses have to share one cache
+                wrapper = inst_dict.get(self._name)
+                if wrapper is None or getattr(wrapper, "_cache_owner", obj) is not obj:
+                    wrapper = self._build_wrapper(obj)
+                    inst_dict[self._name] = wrapper
         return wrapper
 
     def __set__(self, obj: Any, value: Any) -> None:
@@ -220,7 +223,7 @@ class _PerInstanceCacheDescriptor:
     def _get_fallback(self, obj: Any) -> Callable:
         """Fallback for ``__slots__``-only classes without ``__dict__``."""
         obj_id = id(obj)
-        with self._fallback_lock:
+        with self._lock:
             wrapper = self._fallback_wrappers.get(obj_id)
             if wrapper is not None:
                 return wrapper
@@ -238,7 +241,7 @@ class _PerInstanceCacheDescriptor:
         """Return a weak-ref callback that removes the fallback entry for *obj_id*."""
 
         def _cleanup(_ref: weakref.ref) -> None:  # noqa: ARG001
-            with self._fallback_lock:
+            with self._lock:
                 self._fallback_wrappers.pop(obj_id, None)
                 self._fallback_refs.pop(obj_id, None)
 
-- 
2.43.0


From 0e80ab876d5d93e313ec2ca3bb2a72184ecfffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 29/48] fix: combined likelihood raises for negative yields of
 a hypothesis given as dictionary

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 835c5c5..8d6be89 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -468,7 +468,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 )
             except NegativeExpectedYields as err:
                 warnings.warn(
-                    err.args[0] + f"\nSetting NLL({poi_test:.3f}) = nan",
+                    err.args[0] + f"\nSetting NLL({poi_test}) = nan",
                     category=RuntimeWarning,
                 )
                 nll = np.nan
-- 
2.43.0


From 0ee37de21e1ed85c2b73486de79398d97da65290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 30/48] fix: combined fit starts from nan when an uncertainty
 can not be estimated

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 8d6be89..c5539d5 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -746,6 +746,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 mu_init = np.true_divide(1.0, norm) * np.sum(
                     np.true_divide(_mu, np.square(_sigma_mu))
                 )
+                # e.g. the uncertainty can not be estimated for one of the models
+                if not np.isfinite(mu_init):
+                    mu_init = 0.0
             except Exception as err:
                 log.debug(str(err))
                 mu_init = 0.0
-- 
2.43.0


From da9a1fdc4acf3f6e884aca78a75192ba2fc5d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 31/48] fix: out of range negative index of a combination
 raises IndexError

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index c5539d5..4054f71 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -319,7 +319,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
               is out of range or the analysis name is not found in the stack.
         """
         if isinstance(item, int):
-            if item < len(self):
+            if -len(self) <= item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
                 "Request exceeds number of statistical models available."
-- 
2.43.0


From 10917cfcc4b3d00982ba47401f38ed87a24fa39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 32/48] fix: third moments of small or large uncertainties are
 inaccurate

---
 src/spey/backends/default_pdf/third_moment.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index bfd371b..ef21f73 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -316,11 +316,17 @@ def compute_third_moments(
 
     third_moment, error = [], []
     for upper, lower in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
+        # integrate in units of the larger uncertainty; absolute tolerance of the integration
+        # and its sampling points are not suitable for small or large uncertainties
+        scale = max(abs(upper), abs(lower))
         third_moment_tmp, error_tmp = integrate.quad(
-            compute_x3BifurgatedGaussian, -np.inf, np.inf, args=(abs(upper), abs(lower))
+            compute_x3BifurgatedGaussian,
+            -np.inf,
+            np.inf,
+            args=(abs(upper) / scale, abs(lower) / scale),
         )
-        third_moment.append(third_moment_tmp)
-        error.append(error_tmp)
+        third_moment.append(third_moment_tmp * scale**3)
+        error.append(error_tmp * scale**3)
 
     if return_integration_error:
         return np.array(third_moment), np.array(error)
-- 
2.43.0


From 18f43d61247a4158dc1935e20cfa25f027d4a6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 33/48] fix: third moments at the edge of the allowed range
 gave nan coefficients

---
 src/spey/backends/default_pdf/third_moment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index ef21f73..18f171c 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -201,7 +201,8 @@ def third_moment_expansion(
     C = np.where(np.isnan(C), 0.0, C)
 
     # arXiv:1809.05548 eq. 2.10
-    B = np.sqrt(cov_diag - 2 * C**2)
+    # clipped since rounding can make it negative when the condition above is saturated
+    B = np.sqrt(np.clip(cov_diag - 2 * C**2, 0.0, None))
     log.debug(f"B: {B}")
 
     # arXiv:1809.05548 eq. 2.11
-- 
2.43.0


From 3a1f727c8e3d8d47b7ce4bce3937b17192b8ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 34/48] fix: negative indices in merge groups count their bin
 twice

---
 src/spey/helper_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index ae6193a..95e5a05 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -189,6 +189,8 @@ def merge_correlated_bins(
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
+    # negative indices would count their bin twice
+    assert all(0 <= i < N for i in merged_indices), "Indices in merge_groups out of range"
 
     all_indices = set(range(N))
     unmerged = sorted(all_indices - set(merged_indices))
-- 
2.43.0


From b9caf944a9988d234eb73409cb119f42ade01e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 35/48] fix: contour threshold is not halved with respect to
 the chi2 quantile

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..b7c57e9 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + 0.5 * delta
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From 2095308328cfb10d4c010043fe10779010096460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 36/48] fix: profiling in find_contour raises for models with
 nonlinear constraints

---
 src/spey/multiparameter/contour.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index b7c57e9..ef49d7b 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -599,12 +600,28 @@ def find_contour(
             # Adapt backend constraints (full-param) to profile-param space.
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
-
-                def _wrapped(pp, _f=orig_fun, _cp=cp):
-                    return _f(_assemble(_cp, pp))
-
-                constraints.append({**c, "fun": _wrapped})
+                is_dict = isinstance(c, dict)
+                orig_fun = c["fun"] if is_dict else c.fun
+                orig_jac = c.get("jac") if is_dict else c.jac
+
+                def _wrapped(pp, *args, _f=orig_fun, _cp=cp):
+                    return _f(_assemble(_cp, pp), *args)
+
+                def _wrapped_jac(pp, *args, _j=orig_jac, _cp=cp):
+                    return np.asarray(_j(_assemble(_cp, pp), *args))[..., _profile_arr]
+
+                if is_dict:
+                    adapted = {**c, "fun": _wrapped}
+                    if callable(orig_jac):
+                        adapted["jac"] = _wrapped_jac
+                else:
+                    adapted = NonlinearConstraint(
+                        _wrapped,
+                        c.lb,
+                        c.ub,
+                        jac=_wrapped_jac if callable(orig_jac) else orig_jac,
+                    )
+                constraints.append(adapted)
 
             res = _sp_minimize(
                 obj,
-- 
2.43.0


From 907dad1af9641ae92b060c6aee02da75fbde9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 37/48] fix: RATTLE chains return points that are not on the
 contour

---
 src/spey/multiparameter/contour.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index ef49d7b..8c26af1 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1597,12 +1597,19 @@ def _project_theta(
     for _ in range(max_iter):
         residual = nll_scalar(theta) - threshold
         if abs(residual) < tol:
-            break
+            return theta
         g = grad_nll(theta)
         g_sq = float(np.dot(g, g))
         if g_sq < 1e-20:
             break
         theta = theta - (residual / g_sq) * g
+    # Out of iterations or stationary point: accept the point only if it is on the
+    # contour up to the numerical noise of the NLL (this also rejects NaNs).
+    residual = nll_scalar(theta) - threshold
+    if not abs(residual) < max(tol, 1e-6 * max(1.0, abs(threshold))):
+        raise RuntimeError(
+            f"Projection did not converge to the contour, NLL - threshold = {residual}."
+        )
     return theta
 
 
@@ -1747,7 +1754,13 @@ def _rattle_walk(
     k = len(start)
 
     # Project start onto constraint (handles small numerical drift)
-    theta = _project_theta(nll_scalar, grad_nll, start.copy(), threshold, tol, max_iter)
+    try:
+        theta = _project_theta(
+            nll_scalar, grad_nll, start.copy(), threshold, tol, max_iter
+        )
+    except Exception:  # noqa: BLE001
+        log.debug("RATTLE start can not be projected onto the contour; skipping chain.")
+        return np.empty((0, k), dtype=float)
 
     def _tangent_momentum(theta_: np.ndarray) -> np.ndarray:
         r"""
-- 
2.43.0


From 8a5c4fa00c24c1baea5c6657c877acbadc44e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 38/48] fix: find_contour returns points outside of the
 requested bounds

---
 src/spey/multiparameter/contour.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 8c26af1..012517d 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -897,6 +897,19 @@ def find_contour(
     hmc_points = (
         np.vstack(all_hmc_pts_list) if all_hmc_pts_list else np.empty((0, k), dtype=float)
     )
+
+    # The MLE, hence the points reached from it, is not necessarily within the bounds.
+    def _within_bounds(points: np.ndarray) -> np.ndarray:
+        mask = np.ones(len(points), dtype=bool)
+        for i, (lo, hi) in enumerate(bounds):
+            if lo is not None:
+                mask &= points[:, i] >= lo
+            if hi is not None:
+                mask &= points[:, i] <= hi
+        return points[mask]
+
+    radial_points = _within_bounds(radial_points)
+    hmc_points = _within_bounds(hmc_points)
     log.debug(
         "Across %d basin(s): %d radial + %d HMC contour points.",
         len(active_basins),
-- 
2.43.0


From 5e5f2d845374fad5e457e6d08de7c453152a781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 39/48] fix: samples of a multivariate normal lose the axes of
 length one

---
 src/spey/backends/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 33d26a1..69d83d6 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -146,9 +146,11 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
+        draws = multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
             size=(sample_size,)
         )
+        # scipy drops the axes of length one, i.e. of a single draw or a single dimension
+        return np.reshape(draws, (sample_size, len(self.mean)))
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
-- 
2.43.0


From 31b3ed3051f2893f5c8f64423d1c313e32a9fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 40/48] fix: correlations of the third moment expansion cancel
 for large and small variances

---
 src/spey/backends/default_pdf/third_moment.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 18f171c..948b7e6 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -210,21 +210,25 @@ def third_moment_expansion(
     log.debug(f"A: {A}")
 
     # arXiv:1809.05548 eq. 2.12
-    eps = 1e-5
     if return_correlation_matrix:
         corr = np.zeros((C.shape[0], C.shape[0]))
         for i in range(corr.shape[0]):
             for j in range(corr.shape[0]):
-                ci = C[i] + eps if C[i] >= 0 else C[i] - eps
-                cj = C[j] + eps if C[j] >= 0 else C[j] - eps
-                cicj = ci * cj
+                cicj = C[i] * C[j]
                 bibj = B[i] * B[j]
 
                 discr1 = bibj**2
                 discr2 = 8 * cicj * covariance_matrix[i, j]
                 discr = discr1 + discr2
 
-                corr[i, j] = (np.sqrt(abs(discr)) - bibj) / 4 / cicj
+                if discr < 0.0:
+                    # the equation does not have a real solution
+                    corr[i, j] = (np.sqrt(-discr) - bibj) / 4 / cicj
+                else:
+                    # (sqrt(discr) - bibj) / 4 / cicj cancels for small cicj, expanding the
+                    # fraction with sqrt(discr) + bibj avoids this.
+                    den = np.sqrt(discr) + bibj
+                    corr[i, j] = 2.0 * covariance_matrix[i, j] / den if den > 0.0 else 0.0
 
                 if i != j:
                     corr[j, i] = corr[i, j]
-- 
2.43.0


From de1aecdf1e2bdf5b91d6fbfad8d075afa34ea0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 41/48] fix: contour points where the constraints can not be
 met or the likelihood jumps

---
 src/spey/multiparameter/contour.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 012517d..3358dd2 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -634,6 +634,20 @@ def find_contour(
             )
             return res.x if res.success else _theta_profile_init
 
+        def _is_allowed(full: np.ndarray) -> bool:
+            """Whether the constraints of the backend hold, up to the fit tolerance."""
+            for c in _backend_constraints:
+                if isinstance(c, dict):
+                    value = np.asarray(c["fun"](full, *c.get("args", ())))
+                    lb, ub = 0.0, 0.0 if c["type"] == "eq" else np.inf
+                else:
+                    value, lb, ub = np.asarray(c.fun(full)), c.lb, c.ub
+                if np.any(value < np.asarray(lb) - 1e-5) or np.any(
+                    value > np.asarray(ub) + 1e-5
+                ):
+                    return False
+            return True
+
         _grad_logpdf_auto = autograd.grad(  # pylint: disable = no-value-for-parameter
             logpdf_fn
         )
@@ -641,8 +655,11 @@ def find_contour(
         def nll_scalar(contour_pars: np.ndarray) -> float:
             """Profiled NLL: min over profile params with contour fixed."""
             cp = np.asarray(contour_pars, dtype=float)
-            pp = _profile_opt(cp)
-            return float(-logpdf_fn(_assemble(cp, pp)))
+            full = _assemble(cp, _profile_opt(cp))
+            # No profile parameter can satisfy the constraints at this point.
+            if not _is_allowed(full):
+                return np.inf
+            return float(-logpdf_fn(full))
 
         def grad_nll(contour_pars: np.ndarray) -> np.ndarray:
             r"""
@@ -1354,7 +1371,8 @@ def _radial_search(
         except ValueError:
             continue
 
-        if result.converged:
+        # The search also converges on jumps of the NLL, which are not on the contour.
+        if result.converged and abs(f(result.root)) < 1e-4 * max(1.0, abs(threshold)):
             theta_star = to_theta(result.root * e)
             contour_points.append(theta_star)
             directions.append(e)
-- 
2.43.0


From 898d485a999832db7fe60d6cb2a57c288458d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:52 +0000
Subject: [PATCH 42/48] fix: answers of a back end's own likelihood are
 returned unconverted

---
 src/spey/interface/statistical_model.py | 43 ++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index ef74c30..8bd9c4f 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -527,7 +527,7 @@ class StatisticalModel(HypothesisTestingBase):
             Likelihood of the statistical model at a fixed signal strength.
         """
         try:
-            return self.backend.negative_loglikelihood(
+            nll, fit_param = self.backend.negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 data=data,
@@ -536,6 +536,8 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            out = nll if return_nll else np.exp(-nll)
+            return (out, fit_param) if return_parameters else out
         except NotImplementedError:
             log.debug(
                 "Backend does not implement negative_loglikelihood(), "
@@ -775,7 +777,7 @@ class StatisticalModel(HypothesisTestingBase):
             likelihood computed for asimov data
         """
         try:
-            return self.backend.asimov_negative_loglikelihood(
+            nll, _ = self.backend.asimov_negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 test_statistics=test_statistics,
@@ -783,6 +785,7 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return nll if return_nll else np.exp(-nll)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `asimov_negative_loglikelihood()`, "
@@ -909,7 +912,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_negative_loglikelihood(
+            nll, fit_param = self.backend.minimize_negative_loglikelihood(
                 expected=expected,
                 allow_negative_signal=allow_negative_signal,
                 data=data,
@@ -918,6 +921,10 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return (
+                self._select_poi(fit_param, poi_indices),
+                nll if return_nll else np.exp(-nll),
+            )
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_negative_loglikelihood()`, "
@@ -940,11 +947,27 @@ class StatisticalModel(HypothesisTestingBase):
         log.debug(f"fit parameters:\n\t {fit_param}")
 
         nll = -logpdf if return_nll else np.exp(logpdf)
-        if poi_indices is None:
-            muhat = fit_param[self.backend.config().poi_index]
-            return muhat, nll
+        return self._select_poi(fit_param, poi_indices), nll
+
+    def _select_poi(
+        self, fit_param: np.ndarray, poi_indices: Optional[List[Union[int, str]]] = None
+    ) -> Union[float, Dict[Union[int, str], float]]:
+        """
+        Retrieve the parameter(s) of interest from the fit parameters.
+
+        Args:
+            fit_param (``np.ndarray``): Fit parameters.
+            poi_indices (``List[Union[int, str]]``, default ``None``): Indices or names of the
+              parameters. Parameter of interest will be returned if ``None``.
 
+        Returns:
+            ``Union[float, Dict[Union[int, str], float]]``:
+            Value of the parameter of interest or values of the requested parameters.
+        """
         config = self.backend.config()
+        if poi_indices is None:
+            return fit_param[config.poi_index]
+
         result: Dict[Union[int, str], float] = {}
         for key in poi_indices:
             if isinstance(key, str):
@@ -956,7 +979,7 @@ class StatisticalModel(HypothesisTestingBase):
             else:
                 idx = int(key)
             result[key] = float(fit_param[idx])
-        return result, nll
+        return result
 
     @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
     def maximize_asimov_likelihood(  # pylint: disable = arguments-renamed
@@ -1076,7 +1099,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_asimov_negative_loglikelihood(
+            nll, fit_param = self.backend.minimize_asimov_negative_loglikelihood(
                 expected=expected,
                 test_statistics=test_statistics,
                 init_pars=init_pars,
@@ -1084,6 +1107,10 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return (
+                self._select_poi(fit_param, poi_indices),
+                nll if return_nll else np.exp(-nll),
+            )
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_asimov_negative_loglikelihood()`, "
-- 
2.43.0


From 90a48a5273ff6f6d6871991b4a573e28771d5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 43/48] fix: cached results of arrays of objects, masked arrays
 and array-likes

---
 src/spey/system/cache.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 79b34ae..2cc08a6 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -92,9 +92,21 @@ def _make_token(obj: Any) -> Any:
     if isinstance(obj, np.ndarray):
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
+        if isinstance(obj, np.ma.MaskedArray):
+            # values and masked entries, conversions below drop the mask
+            return (
+                np.ma.MaskedArray,
+                _make_token(np.asarray(obj)),
+                _make_token(np.ma.getmaskarray(obj)),
+            )
+        if obj.dtype.hasobject:
+            # the buffer holds addresses of the objects instead of their content
+            return (obj.shape, obj.dtype, _make_token(obj.tolist()))
         buf = np.ascontiguousarray(obj)
+        if buf.dtype.kind in "mM":
+            buf = buf.view(np.int64)  # dates do not have a buffer
         digest = hashlib.sha256(buf.data).digest()
-        return (obj.shape, obj.dtype.str, digest)
+        return (obj.shape, obj.dtype, digest)
     if isinstance(obj, dict):
         # keys can be of different (unorderable) types and a dict is never equivalent
         # to a sequence of pairs
@@ -112,7 +124,10 @@ def _make_token(obj: Any) -> Any:
         hash(obj)
         return obj
     except TypeError:
-        return repr(obj)
+        if hasattr(obj, "__array__"):
+            # textual representation of long arrays is truncated and rounded
+            return (type(obj), repr(obj), _make_token(np.asarray(obj)))
+        return (type(obj), repr(obj))
 
 
 def _build_key(args: tuple, kwargs: dict) -> tuple:
-- 
2.43.0


From 3ac026e78e728211802ec706c6cf16779017ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 44/48] fix: log records are changed by the formatter

---
 src/spey/system/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..4accb34 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -2,6 +2,7 @@
 import logging
 import sys
 from contextlib import contextmanager
+from copy import copy
 
 # pylint: disable=C0103
 
@@ -36,6 +37,8 @@ class ColoredFormatter(logging.Formatter):
         else:  # ANYTHING ELSE
             color = "\x1b[0mSpey: "
 
+        # other handlers receive the same record, hence leave it as it is
+        record = copy(record)
         record.msg = color + str(record.msg) + "\x1b[0m"
         return logging.Formatter.format(self, record)
 
-- 
2.43.0


From a0f7ac0c41f872f54f639b16a7197e13d42b9bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 45/48] fix: third moments of one-sided uncertainties

---
 src/spey/backends/default_pdf/third_moment.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 948b7e6..201027d 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -312,18 +312,19 @@ def compute_third_moments(
     """
 
     def compute_x3BifurgatedGaussian(x: float, upper: float, lower: float) -> float:
+        # integrate from 0 to inf with the upper, from -inf to 0 with the lower uncertainty
+        sigma = upper if x >= 0.0 else lower
+        if sigma == 0.0:
+            # there is nothing on the side without an uncertainty
+            return 0.0
         Norm = 2.0 / (upper + lower)
-        if x >= 0.0:
-            # integrate from 0 to inf
-            return Norm * upper * x**3 * norm.pdf(x, 0.0, upper)
-        # integrate from -inf to 0
-        return Norm * lower * x**3 * norm.pdf(x, 0.0, lower)
+        return Norm * sigma * x**3 * norm.pdf(x, 0.0, sigma)
 
     third_moment, error = [], []
     for upper, lower in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
         # integrate in units of the larger uncertainty; absolute tolerance of the integration
         # and its sampling points are not suitable for small or large uncertainties
-        scale = max(abs(upper), abs(lower))
+        scale = max(abs(upper), abs(lower)) or 1.0
         third_moment_tmp, error_tmp = integrate.quad(
             compute_x3BifurgatedGaussian,
             -np.inf,
-- 
2.43.0


From ade8f61561f34b43ce62194751f57b33a1d3d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:19 +0000
Subject: [PATCH 46/48] fix: cached methods that call the method they override
 never finish

---
 src/spey/system/cache.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 2cc08a6..deeaf32 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -155,9 +155,10 @@ class _PerInstanceCacheDescriptor:
 
     On the first ``instance.method`` attribute lookup the descriptor builds a
     dedicated cached callable whose internal cache storage is private to that
-    instance.  The wrapper is stored in ``instance.__dict__[method_name]``.
-    Since copying an instance copies its ``__dict__``, every lookup ensures that
-    the wrapper has been built for the instance at hand.
+    instance.  The wrapper is stored in ``instance.__dict__``, separately for every
+    method of the class hierarchy.  Since copying an instance copies its
+    ``__dict__``, every lookup ensures that the wrapper has been built for the
+    instance at hand.
 
     For classes that use ``__slots__`` without ``__dict__``, the descriptor
     falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
@@ -191,8 +192,10 @@ class _PerInstanceCacheDescriptor:
             self._sig = inspect.Signature(params)
         except (ValueError, TypeError):
             self._sig = None
-        # Method name used as the instance-dict key; updated by __set_name__.
+        # Method name; updated by __set_name__.
         self._name: str = fn.__name__
+        # Key of the instance dict. A method and the one it overrides have the same name.
+        self._key: str = f"_cached_{fn.__name__}_{id(self):x}"
         # Propagate function metadata so the descriptor looks like the original.
         self.__wrapped__ = fn
         self.__doc__ = fn.__doc__
@@ -216,22 +219,22 @@ class _PerInstanceCacheDescriptor:
             inst_dict = obj.__dict__
         except AttributeError:
             return self._get_fallback(obj)
-        wrapper = inst_dict.get(self._name)
+        wrapper = inst_dict.get(self._key)
         # Copies of an instance inherit the wrapper of the original through __dict__
         if wrapper is None or getattr(wrapper, "_cache_owner", obj) is not obj:
             with self._lock:  # concurrent first accesses have to share one cache
-                wrapper = inst_dict.get(self._name)
+                wrapper = inst_dict.get(self._key)
                 if wrapper is None or getattr(wrapper, "_cache_owner", obj) is not obj:
                     wrapper = self._build_wrapper(obj)
-                    inst_dict[self._name] = wrapper
+                    inst_dict[self._key] = wrapper
         return wrapper
 
     def __set__(self, obj: Any, value: Any) -> None:
-        obj.__dict__[self._name] = value
+        obj.__dict__[self._key] = value
 
     def __delete__(self, obj: Any) -> None:
         try:
-            del obj.__dict__[self._name]
+            del obj.__dict__[self._key]
         except KeyError:
             raise AttributeError(self._name) from None
 
-- 
2.43.0


From c9e7330de50043d9d35de25dd3a94e512725aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:19 +0000
Subject: [PATCH 47/48] fix: intervals on the signal strength asked for by name
 are anchored at the wrong minimum

---
 src/spey/base/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index dd2bc62..0fabc25 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -37,8 +37,9 @@ def resolve_parameter_index(parameter: Union[int, str], cfg: ModelConfig) -> int
             raise ValueError(
                 f"Parameter '{parameter}' not found in parameter_names: {cfg.parameter_names}"
             )
-        return cfg.parameter_names.index(parameter)
-    param_idx = int(parameter)
+        param_idx = cfg.parameter_names.index(parameter)
+    else:
+        param_idx = int(parameter)
     if not 0 <= param_idx < cfg.npar:
         raise ValueError(f"Parameter index {param_idx} is out of range [0, {cfg.npar}).")
     if param_idx == cfg.poi_index:
-- 
2.43.0


From 566eac8f492760a355331789fbd12c82be69c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:19 +0000
Subject: [PATCH 48/48] fix: bounds of a signal strength pinned by its position
 from the end

---
 src/spey/base/model_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index c9e6aea..1a37011 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -150,7 +150,8 @@ class ModelConfig:
             if (lower is not None and val <= lower) or (
                 upper is not None and val >= upper
             ):
-                if idx == self.poi_index:
+                # positions can be counted from the end
+                if idx in (self.poi_index, self.poi_index - self.npar):
                     bounds[idx] = (
                         self.minimum_poi if val < 0.0 else 0.0,
                         None if upper is None else val + 1,
-- 
2.43.0

