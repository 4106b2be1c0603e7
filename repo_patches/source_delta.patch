From ad0023b8fd0fba7f0daa00a21cbec96f978c379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 01/41] fix: calculator availability compared a bound method
 with a function

---
 src/spey/interface/statistical_model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..5f2c189 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -228,13 +228,16 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
-            != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
-            != BackendBase.minimize_asimov_negative_loglikelihood
+        return self._is_overridden("expected_data") or (
+            self._is_overridden("asimov_negative_loglikelihood")
+            and self._is_overridden("minimize_asimov_negative_loglikelihood")
         )
 
+    def _is_overridden(self, method: str) -> bool:
+        """Whether the backend provides its own implementation of a base class method."""
+        bound = getattr(self.backend, method)
+        return getattr(bound, "__func__", bound) is not getattr(BackendBase, method)
+
     @property
     def is_toy_calculator_available(self) -> bool:
         """
@@ -246,7 +249,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return self._is_overridden("get_sampler")
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From 941db869831e402e4e8a6068b720cf35e252421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 02/41] fix: fit wrote the fixed values into the caller's
 initial parameters

---
 src/spey/optimizer/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..fe5dcad 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -94,6 +94,8 @@ def fit(
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
     )
+    # never write into the caller's (or the model configuration's) initial parameters
+    init_pars = list(init_pars)
 
     if bounds is not None:
         par_bounds = [*bounds]
-- 
2.43.0


From 245213c8c2ce5a841e44ed224e17917b27ec734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 03/41] fix: backend constraints were appended to the user's
 constraint list

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 5f2c189..7a764e6 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -420,7 +420,7 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        constraints = list(kwargs.pop("constraints", None) or [])
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From 320c5517d3f319971d81ce07771ba33d6b3ab40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 04/41] fix: rescale_poi_bounds without an upper bound nested
 the bounds tuple

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..8415da2 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -187,6 +187,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From 37592de772aaa0f7c2cdd66eb7546268ec491644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 05/41] fix: fixed_poi_bounds_multi could produce inverted
 bounds

---
 src/spey/base/model_config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 8415da2..e8f5f38 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -145,10 +145,11 @@ class ModelConfig:
             if any(b is None for b in bounds[idx]):
                 continue
             if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+                if idx == self.poi_index:
+                    lower = self.minimum_poi if val < 0.0 else 0.0
+                    bounds[idx] = (lower, max(val + 1, lower))
+                else:
+                    bounds[idx] = (min(bounds[idx][0], val), max(bounds[idx][1], val + 1))
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From bd5d61370c0aed05246485170340d923b62a72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 06/41] fix: optimiser retry crashed on open bounds and shrank
 negative upper bounds

---
 src/spey/optimizer/scipy_tools.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..9d37500 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,13 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
-                if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
-                else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+            for bdx, (lower, upper) in enumerate(bounds or []):
+                scale = 2.0 if bdx == poi_index else 10.0
+                if upper is not None:
+                    upper = max(upper, upper * scale)
+                if lower is not None and bdx != poi_index:
+                    lower = min(lower, lower * scale)
+                bounds[bdx] = (lower, upper)
         elif opt.success:
             break
 
-- 
2.43.0


From 2883c07c3407ca782b6c41564c9a443fda7a3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 07/41] fix: config dropped negative signals when the POI upper
 bound was changed

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..31a6423 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -431,7 +431,8 @@ class DefaultPDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..5e55243 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -265,7 +265,8 @@ class SimplePDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From 2e48c6c054f63856b8bf7c090c15ed340d243b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 08/41] fix: positivity constraint of the Poisson model used
 the wrong scale

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 5e55243..d691c8c 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -605,7 +605,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From 948f8665cc2b8781f15e2c7d609536ce8095aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 09/41] fix: overlapping merge groups were not rejected

---
 src/spey/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..b22c553 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -185,7 +185,7 @@ def merge_correlated_bins(
     N = covariance_matrix.shape[0]
 
     # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From 2198402375fc0dfe008d756b16b5255e3cd7a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 10/41] fix: chi2 scans were rounded to single precision

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..709ae1b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -633,7 +633,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -641,7 +641,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From 1656d8d3d705399b045a3a2da817d57eb3efb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 11/41] fix: sigma_mu failed for integer parameter of interest

---
 src/spey/base/hypotest_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709ae1b..b965f63 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -889,7 +889,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
-- 
2.43.0


From 3ba1833c1d44bc1d0380977135e14592e72156f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 12/41] fix: upper limit mixed up identity and equality of the
 expectation type

---
 src/spey/hypothesis_testing/upper_limits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..62550da 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -173,7 +173,7 @@ def find_poi_upper_limit(
         "1sigma",
         "2sigma",
     ], f"Unknown pvalue range {expected_pvalue}"
-    if expected is ExpectationType.observed:
+    if expected == ExpectationType.observed:
         expected_pvalue = "nominal"
     test_stat = "q" if allow_negative_signal else "qtilde"
 
@@ -201,7 +201,7 @@ def find_poi_upper_limit(
 
     result = []
     index_range = {
-        "nominal": [0 if expected is ExpectationType.observed else 2],
+        "nominal": [0 if expected == ExpectationType.observed else 2],
         "1sigma": range(1, 4),
         "2sigma": range(0, 5),
     }
-- 
2.43.0


From 8676d7a5d689c5816184e72e92b5b77c0ec65a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 13/41] fix: cache eviction and cache_clear lost computations
 that were in flight

---
 src/spey/system/cache.py | 61 ++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..1f744a0 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -265,10 +265,9 @@ class _PerInstanceCacheDescriptor:
                         return copy.deepcopy(value) if copy_on_return else value
                     event = events[key]
                 else:
-                    event = threading.Event()
-                    events[key] = event
+                    own_event = threading.Event()
+                    events[key] = own_event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -282,23 +281,22 @@ class _PerInstanceCacheDescriptor:
                 result = fn(obj, *args, **kwargs)
             except BaseException:
                 with lock:
-                    if cache.get(key) is _COMPUTING:
+                    if events.get(key) is own_event:
+                        del events[key]
                         del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()
+                own_event.set()
                 raise
 
             with lock:
-                cache[key] = result
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()
+                # Skipped if the cache has been cleared during the computation. Only
+                # finished entries are subject to eviction.
+                if events.get(key) is own_event:
+                    del events[key]
+                    cache[key] = result
+                    order.append(key)
+                    while maxsize is not None and len(order) > maxsize:
+                        cache.pop(order.popleft(), None)
+            own_event.set()
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -430,10 +428,9 @@ def cache_results(
                     event = events[key]
                 else:
                     # First caller for this key -- mark it as in-flight.
-                    event = threading.Event()
-                    events[key] = event
+                    own_event = threading.Event()
+                    events[key] = own_event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -452,25 +449,23 @@ def cache_results(
             except BaseException:
                 # Remove the sentinel so future calls can retry.
                 with lock:
-                    if cache.get(key) is _COMPUTING:
+                    if events.get(key) is own_event:
+                        del events[key]
                         del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()  # wake up waiters
+                own_event.set()  # wake up waiters
                 raise
 
             # ---- store result (under lock) ---------------------------------
             with lock:
-                cache[key] = result
-                # Evict oldest entries if maxsize is exceeded.
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()  # wake up any waiting threads
+                # Skipped if the cache has been cleared during the computation. Only
+                # finished entries are subject to eviction.
+                if events.get(key) is own_event:
+                    del events[key]
+                    cache[key] = result
+                    order.append(key)
+                    while maxsize is not None and len(order) > maxsize:
+                        cache.pop(order.popleft(), None)
+            own_event.set()  # wake up any waiting threads
 
             return copy.deepcopy(result) if copy_on_return else result
 
-- 
2.43.0


From 737d46734882f2e1b5fe96847cc12caa8e8fd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 14/41] fix: different arguments could share a cache key and
 mixed dict keys crashed

---
 src/spey/system/cache.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 1f744a0..c16cc14 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,10 +16,10 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> unordered set of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
-The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
+The final key is a ``(args_token, kwargs_token)`` tuple that is
 hashed by a standard Python :class:`dict`.
 
 Thread safety
@@ -93,29 +93,37 @@ def _make_token(obj: Any) -> Any:
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
         buf = np.ascontiguousarray(obj)
-        digest = hashlib.sha256(buf.data).digest()
-        return (obj.shape, obj.dtype.str, digest)
+        if obj.dtype.hasobject:
+            # the raw buffer of an object array holds addresses, not content
+            digest = tuple(_make_token(item) for item in obj.ravel().tolist())
+        else:
+            digest = hashlib.sha256(buf.data).digest()
+        return ("ndarray", obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        return (
+            "dict",
+            frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()),
+        )
     if isinstance(obj, (list, tuple)):
-        return tuple(_make_token(item) for item in obj)
+        return (
+            "list" if isinstance(obj, list) else "tuple",
+            tuple(_make_token(item) for item in obj),
+        )
     if isinstance(obj, (set, frozenset)):
-        return frozenset(_make_token(item) for item in obj)
+        return ("set", frozenset(_make_token(item) for item in obj))
     # Fast path: most primitives (int, float, str, None, bool, Enum) are
     # already hashable.
     try:
         hash(obj)
         return obj
     except TypeError:
-        return repr(obj)
+        return ("repr", type(obj), repr(obj))
 
 
 def _build_key(args: tuple, kwargs: dict) -> tuple:
     """Build the full cache key from positional and keyword arguments."""
     args_token = tuple(_make_token(a) for a in args)
-    kwargs_token = tuple(
-        sorted((_make_token(k), _make_token(v)) for k, v in kwargs.items())
-    )
+    kwargs_token = frozenset((_make_token(k), _make_token(v)) for k, v in kwargs.items())
     return (args_token, kwargs_token)
 
 
-- 
2.43.0


From c5bc81ee7d025cf02336743d4bf549a7409ab859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 15/41] fix: copied instances and super() calls shared the
 cache of another method

---
 src/spey/system/cache.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index c16cc14..502cde8 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -180,8 +180,10 @@ class _PerInstanceCacheDescriptor:
             self._sig = inspect.Signature(params)
         except (ValueError, TypeError):
             self._sig = None
-        # Method name used as the instance-dict key; updated by __set_name__.
+        # Method name; updated by __set_name__.
         self._name: str = fn.__name__
+        # Instance-dict key, distinct for an overridden method and its super() version.
+        self._attribute: str = f"_cache_results_{fn.__name__}_{id(self):x}"
         # Propagate function metadata so the descriptor looks like the original.
         self.__wrapped__ = fn
         self.__doc__ = fn.__doc__
@@ -205,13 +207,14 @@ class _PerInstanceCacheDescriptor:
             inst_dict = obj.__dict__
         except AttributeError:
             return self._get_fallback(obj)
-        wrapper = inst_dict.get(self._name)
-        if wrapper is None:
-            wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
-            inst_dict[self._name] = wrapper
+        wrapper = inst_dict.get(self._attribute)
+        if wrapper is None or wrapper.instance is not obj:
+            with self._fallback_lock:
+                wrapper = inst_dict.get(self._attribute)
+                # A copied instance inherits the wrapper that is bound to the original.
+                if wrapper is None or wrapper.instance is not obj:
+                    wrapper = self._build_wrapper(obj)
+                    inst_dict[self._attribute] = wrapper
         return wrapper
 
     def _get_fallback(self, obj: Any) -> Callable:
@@ -328,6 +331,7 @@ class _PerInstanceCacheDescriptor:
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
         wrapper.get_cache = get_cache
+        wrapper.instance = obj
         return wrapper
 
 
-- 
2.43.0


From 57dc02517c9d71ecafb2c2ed2b303acf6f50c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 16/41] fix: contour threshold used the chi-squared quantile as
 a likelihood difference

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..b7c57e9 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + 0.5 * delta
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From dbc8457286aec72cc060388213ed26106efb7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 17/41] fix: contour chains recorded points off the contour or
 outside the bounds

---
 src/spey/multiparameter/contour.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index b7c57e9..764c3c5 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1752,6 +1752,19 @@ def _rattle_walk(
         n = np.linalg.norm(raw)
         return raw / n if n > 1e-15 else raw
 
+    def _on_contour(theta_: np.ndarray) -> bool:
+        """Whether the projection has converged to a point within the bounds."""
+        if bounds is not None and any(
+            (lo is not None and theta_[i] < lo) or (hi is not None and theta_[i] > hi)
+            for i, (lo, hi) in enumerate(bounds)
+        ):
+            return False
+        accuracy = max(tol, 1e-6 * max(1.0, abs(threshold)))
+        return bool(abs(nll_scalar(theta_) - threshold) <= accuracy)
+
+    if not _on_contour(theta):
+        return np.empty((0, k), dtype=float)
+
     p = _tangent_momentum(theta)
     resample_every = max(1, n_steps // 5)
 
@@ -1776,16 +1789,10 @@ def _rattle_walk(
             log.debug("RATTLE step failed at step %d; terminating chain.", step)
             break
 
-        # Terminate if any parameter has left its allowed range
-        if bounds is not None:
-            if any(
-                (lo is not None and theta[i] < lo) or (hi is not None and theta[i] > hi)
-                for i, (lo, hi) in enumerate(bounds)
-            ):
-                log.debug(
-                    "RATTLE chain left parameter bounds at step %d; terminating.", step
-                )
-                break
+        # Terminate if the projection failed or a parameter has left its allowed range
+        if not _on_contour(theta):
+            log.debug("RATTLE chain left the contour at step %d; terminating.", step)
+            break
 
         trajectory.append(theta.copy())
 
-- 
2.43.0


From 551f69e69b7d90e1dfb62057545bf4583d1786c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 18/41] fix: registered backend classes could not be retrieved

---
 src/spey/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..7e4fa73 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -271,7 +271,7 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     if backend:
         statistical_model = (
             backend
-            if isinstance(backend, (BackendBase, ConverterBase))
+            if isinstance(backend, type)  # added by register_backend
             else backend.load()
         )
 
@@ -348,7 +348,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From 6862a8eda296dcffec4338d1e620cc6e6ace6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 19/41] fix: log-determinant of a parameter dependent
 covariance was clipped at zero

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..3a7c3ed 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -125,9 +125,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From b5c1cd373201aa39bf812a3e6a3f81a32fead9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 20/41] fix: upper limit crashed when a bracket start is the
 root or brackets are reversed

---
 src/spey/hypothesis_testing/upper_limits.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index 62550da..106047d 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -227,10 +227,16 @@ def find_poi_upper_limit(
             result.append(np.inf)
             continue
 
+        lower, upper = sorted((low.get_value(-1), hig.get_value(-1)))
+        if lower == upper and low[-1] == 0.0:
+            # starting point is already the root, there is no interval to search
+            result.append(lower)
+            continue
+
         x0, r = scipy.optimize.toms748(
             comp,
-            low.get_value(-1),
-            hig.get_value(-1),
+            lower,
+            upper,
             k=2,
             xtol=2e-12,
             rtol=1e-4,
-- 
2.43.0


From 0b347bae74195ff7ed9d7e2d75a10047aecbbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 21/41] fix: one-sided chi2 interval walked past the fit and
 returned nan

---
 src/spey/base/hypotest_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index b965f63..3766215 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1495,14 +1495,16 @@ class HypothesisTestingBase(ABC):
             is_le0 = np.isclose(muhat, 0.0) or muhat < 0.0
             expand = lambda h: h * 2.0
             contract = lambda l: l * 0.5
+            # away from zero, the inner point has to approach the fit, not zero
+            contract_to_fit = lambda l: (l + muhat) / 2.0
             legacy_sides = {
                 "left": dict(
                     inner=-1.0 if is_gt0 else muhat - 1.5 * sigma,
                     outer=-1.0 if is_gt0 else muhat - 2.5 * sigma,
                     expand=expand,
-                    contract=contract,
+                    contract=contract if is_gt0 else contract_to_fit,
                     outer_stop=lambda h: h <= -1e5,
-                    inner_stop=lambda l: l >= -1e-5,
+                    inner_stop=lambda l: l >= (-1e-5 if is_gt0 else muhat - 1e-5),
                     retry_inner=muhat if muhat > 0 else None,
                     retry_stop=(lambda l: l <= 1e-5) if muhat > 0 else None,
                     fallback=lambda o: -1e5 if o <= -1e5 else np.nan,
@@ -1512,9 +1514,9 @@ class HypothesisTestingBase(ABC):
                     inner=1.0 if is_le0 else muhat + 1.5 * sigma,
                     outer=1.0 if is_le0 else muhat + 2.5 * sigma,
                     expand=expand,
-                    contract=contract,
+                    contract=contract if is_le0 else contract_to_fit,
                     outer_stop=lambda h: h >= 1e5,
-                    inner_stop=lambda l: l <= 1e-5,
+                    inner_stop=lambda l: l <= (1e-5 if is_le0 else muhat + 1e-5),
                     retry_inner=muhat if muhat < 0 else None,
                     retry_stop=(lambda l: l >= -1e-5) if muhat < 0 else None,
                     fallback=lambda o: 1e5 if o >= 1e5 else np.nan,
-- 
2.43.0


From 1b2fb5de9a081fb3ad68108f08515c530aeb8e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 22/41] fix: nuisance chi2 interval could leave the parameter
 bounds

---
 src/spey/base/hypotest_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 3766215..a9c658d 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1563,8 +1563,10 @@ class HypothesisTestingBase(ABC):
                 )
                 return float(self.likelihood(poi_test=poi_test, expected=expected))
 
-            step_l = max(abs(theta_hat - abs_lo) * 0.5, 0.5)
-            step_r = max(abs(abs_hi - theta_hat) * 0.5, 0.5)
+            dist_l, dist_r = abs(theta_hat - abs_lo), abs(abs_hi - theta_hat)
+            # never step out of the bounds of the parameter
+            step_l = min(max(dist_l * 0.5, 0.5), dist_l)
+            step_r = min(max(dist_r * 0.5, 0.5), dist_r)
             # Reflect outer through theta_hat each step → doubles distance from center.
             expand_sym = lambda h: 2.0 * h - theta_hat
             contract_sym = lambda l: (l + theta_hat) / 2.0
@@ -1572,7 +1574,7 @@ class HypothesisTestingBase(ABC):
                 "left": dict(
                     inner=theta_hat - step_l * 0.5,
                     outer=theta_hat - step_l,
-                    expand=expand_sym,
+                    expand=lambda h: max(expand_sym(h), abs_lo),
                     contract=contract_sym,
                     outer_stop=lambda h: h <= abs_lo,
                     inner_stop=lambda l: l >= theta_hat - 1e-10,
@@ -1584,7 +1586,7 @@ class HypothesisTestingBase(ABC):
                 "right": dict(
                     inner=theta_hat + step_r * 0.5,
                     outer=theta_hat + step_r,
-                    expand=expand_sym,
+                    expand=lambda h: min(expand_sym(h), abs_hi),
                     contract=contract_sym,
                     outer_stop=lambda h: h >= abs_hi,
                     inner_stop=lambda l: l <= theta_hat + 1e-10,
-- 
2.43.0


From ad98f5503373a818f40522470d0d90fc444d1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 23/41] fix: pull failed for the documented list of parameters
 of interest

---
 src/spey/base/hypotest_base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index a9c658d..c3026be 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -715,7 +715,14 @@ class HypothesisTestingBase(ABC):
         muhat, min_nll = self.maximize_likelihood(
             expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
         )
-        llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
+        if isinstance(poi_test, Iterable) and not isinstance(poi_test, dict):
+            poi_test = np.fromiter(poi_test, np.float64)
+            llhd = np.fromiter(
+                (self.likelihood(poi_test=p, expected=expected, **kwargs) for p in poi_test),
+                np.float64,
+            )
+        else:
+            llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
         return np.sign(muhat - poi_test) * np.sqrt(2.0 * (llhd - min_nll))
 
     def _prepare_for_hypotest(
-- 
2.43.0


From 7d1243ebbc6c4adbca8eebe5a48e3b60b86b3981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 24/41] fix: toys of models with signal uncertainties crashed
 on a shifted parameter index

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 31a6423..5acbbcd 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -734,7 +734,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
-- 
2.43.0


From 360b5f8f6b0527eb7efea0e9b8893d9fbb12498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 25/41] fix: signal uncertainty tables without exactly two
 columns were accepted silently

---
 src/spey/backends/default_pdf/uncertainty_synthesizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/uncertainty_synthesizer.py b/src/spey/backends/default_pdf/uncertainty_synthesizer.py
index 445d840..0c2061c 100644
--- a/src/spey/backends/default_pdf/uncertainty_synthesizer.py
+++ b/src/spey/backends/default_pdf/uncertainty_synthesizer.py
@@ -398,7 +398,7 @@ def signal_uncertainty_synthesizer(
                     signal_yields_arr != 0.0, values / signal_yields_arr, 0.0
                 )
                 delta_dn = delta_up
-            elif values.ndim == 2:
+            elif values.ndim == 2 and values.shape[1] == 2:
                 delta_up = 1.0 + np.where(
                     signal_yields_arr != 0.0, values[:, 0] / signal_yields_arr, 0.0
                 )
@@ -408,7 +408,7 @@ def signal_uncertainty_synthesizer(
             else:
                 raise InvalidUncertaintyDefinition(
                     f"Modifier '{mod_name}': unsupported uncertainty shape "
-                    f"({values.ndim}D array). "
+                    f"{values.shape}. "
                     "Expected 1D for symmetric or 2D for asymmetric (up, down) uncertainties."
                 )
 
-- 
2.43.0


From 0e944e6a9527f5b011d182eaed535e7e40cee319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 26/41] fix: find_most_sensitive failed because numpy integers
 are not looked up as indices

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..2dbf692 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -378,7 +378,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :class:`~spey.StatisticalModel`:
             The model with the minimum value of :attr:`~spey.StatisticalModel.s95exp`.
         """
-        return self[np.argmin([model.s95exp for model in self])]
+        return self[int(np.argmin([model.s95exp for model in self]))]
 
     def likelihood(
         self,
-- 
2.43.0


From 85cb013957bc13b4ca603ad51f55b56aab510f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 27/41] fix: combined fits started from NaN when a member's
 uncertainty estimate is undefined

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 2dbf692..613d009 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -746,6 +746,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 mu_init = np.true_divide(1.0, norm) * np.sum(
                     np.true_divide(_mu, np.square(_sigma_mu))
                 )
+                if not np.isfinite(mu_init):
+                    mu_init = 0.0
             except Exception as err:
                 log.debug(str(err))
                 mu_init = 0.0
-- 
2.43.0


From de9d97211a7271ce81379f99bfa3c752e01b98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 28/41] fix: negative bin indices in merge groups counted the
 same bin twice

---
 src/spey/helper_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index b22c553..ec872a0 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -191,6 +191,7 @@ def merge_correlated_bins(
     ), "Overlapping indices in merge_groups"
 
     all_indices = set(range(N))
+    assert all_indices.issuperset(merged_indices), "Bin index out of range in merge_groups"
     unmerged = sorted(all_indices - set(merged_indices))
 
     # Build full list of groups: merged + singletons
-- 
2.43.0


From 5e6f380af6210ee7dd2e2da5d06aebd6974a1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 29/41] fix: contours with profiled parameters crashed for
 models with non-linear constraints

---
 src/spey/multiparameter/contour.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 764c3c5..76f8e42 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -599,12 +600,17 @@ def find_contour(
             # Adapt backend constraints (full-param) to profile-param space.
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
+                is_dict = isinstance(c, dict)
+                orig_fun = c["fun"] if is_dict else c.fun
 
                 def _wrapped(pp, _f=orig_fun, _cp=cp):
                     return _f(_assemble(_cp, pp))
 
-                constraints.append({**c, "fun": _wrapped})
+                if is_dict:
+                    # a Jacobian with respect to all parameters does not apply here
+                    constraints.append({"type": c["type"], "fun": _wrapped})
+                else:
+                    constraints.append(NonlinearConstraint(_wrapped, c.lb, c.ub))
 
             res = _sp_minimize(
                 obj,
-- 
2.43.0


From 3627d0c4e296d88b4bb9dad6c524906de5790351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 30/41] fix: renaming parameters lost exchanged names and could
 duplicate existing ones

---
 src/spey/base/model_config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index e8f5f38..173f653 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -154,14 +154,16 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
+        if self.parameter_names is None:
+            raise ValueError("Parameter names are not set in ModelConfig.")
+        for old in name_map:
             if old not in self.parameter_names:
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        # build all names before changing any, so that names can also be exchanged
+        new_names = [name_map.get(name, name) for name in self.parameter_names]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        self.parameter_names = new_names
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From b67eb24afade770c89e18be6861cfb43ffe42823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 31/41] fix: out-of-range and repeated parameters of interest
 were accepted

---
 src/spey/base/model_config.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 173f653..448a11e 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -118,9 +118,14 @@ class ModelConfig:
                         f"POI name '{key}' not found in parameter_names: "
                         f"{self.parameter_names}"
                     )
-                resolved[self.parameter_names.index(key)] = float(val)
+                idx = self.parameter_names.index(key)
             else:
-                resolved[int(key)] = float(val)
+                idx = int(key)
+                if not 0 <= idx < self.npar:
+                    raise ValueError(f"POI index {idx} is out of range [0, {self.npar}).")
+            if idx in resolved:
+                raise ValueError(f"Parameter {idx} is given more than once.")
+            resolved[idx] = float(val)
         return resolved
 
     def fixed_poi_bounds_multi(
-- 
2.43.0


From d19f8de0460518309f32f47c45ef89ffdf21cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 32/41] fix: fixed values outside half-open bounds were not
 covered by the bounds of the fit

---
 src/spey/base/model_config.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 448a11e..0d6c1e6 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -76,12 +76,12 @@ class ModelConfig:
         if poi_value is None:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
-        if any(b is None for b in bounds[self.poi_index]):
-            return bounds
-        if not bounds[self.poi_index][0] < poi_value < bounds[self.poi_index][1]:
+        low, up = bounds[self.poi_index]
+        if not ((low is None or low < poi_value) and (up is None or poi_value < up)):
+            lower = self.minimum_poi if poi_value < 0.0 else 0.0
             bounds[self.poi_index] = (
-                self.minimum_poi if poi_value < 0.0 else 0.0,
-                max([poi_value + 1, self.minimum_poi if poi_value < 0.0 else 0.0]),
+                None if low is None else lower,
+                None if up is None else max([poi_value + 1, lower]),
             )
         return bounds
 
@@ -147,14 +147,18 @@ class ModelConfig:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
-            if any(b is None for b in bounds[idx]):
-                continue
-            if not bounds[idx][0] < val < bounds[idx][1]:
+            low, up = bounds[idx]
+            if not ((low is None or low < val) and (up is None or val < up)):
                 if idx == self.poi_index:
                     lower = self.minimum_poi if val < 0.0 else 0.0
-                    bounds[idx] = (lower, max(val + 1, lower))
+                    upper = max(val + 1, lower)
                 else:
-                    bounds[idx] = (min(bounds[idx][0], val), max(bounds[idx][1], val + 1))
+                    lower = val if low is None else min(low, val)
+                    upper = val + 1 if up is None else max(up, val + 1)
+                bounds[idx] = (
+                    None if low is None else lower,
+                    None if up is None else upper,
+                )
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From d44b6a88dc248eee85ca1bcaa7aa104d0230d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 33/41] fix: negative parameter indices selected parameters
 from the end

---
 src/spey/interface/statistical_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 7a764e6..7b4f31a 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -957,6 +957,10 @@ class StatisticalModel(HypothesisTestingBase):
                 idx = config.parameter_names.index(key)
             else:
                 idx = int(key)
+                if not 0 <= idx < len(fit_param):
+                    raise ValueError(
+                        f"POI index {idx} is out of range [0, {len(fit_param)})."
+                    )
             result[key] = float(fit_param[idx])
         return result, nll
 
-- 
2.43.0


From e4bfe752e44c43e81001f1e46fcd5a36505366f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 34/41] fix: the parameter of interest was accepted as a
 nuisance parameter when given by name

---
 src/spey/base/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index dd2bc62..0fabc25 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -37,8 +37,9 @@ def resolve_parameter_index(parameter: Union[int, str], cfg: ModelConfig) -> int
             raise ValueError(
                 f"Parameter '{parameter}' not found in parameter_names: {cfg.parameter_names}"
             )
-        return cfg.parameter_names.index(parameter)
-    param_idx = int(parameter)
+        param_idx = cfg.parameter_names.index(parameter)
+    else:
+        param_idx = int(parameter)
     if not 0 <= param_idx < cfg.npar:
         raise ValueError(f"Parameter index {param_idx} is out of range [0, {cfg.npar}).")
     if param_idx == cfg.poi_index:
-- 
2.43.0


From 0594d9c329442ff98ffb55257808cf900378e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 35/41] fix: multivariate normal toys lost the axes of single
 samples and single bins

---
 src/spey/backends/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 3a7c3ed..10496ea 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -145,9 +145,11 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
+        sample = multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
             size=(sample_size,)
         )
+        # scipy drops axes of length one
+        return np.reshape(sample, (sample_size, len(self.mean)))
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
-- 
2.43.0


From 4b945d98093aa1ce9bd264d7069e2da908976bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 36/41] fix: numpy integers were not recognised as the number
 of toys

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 7b4f31a..ef1b78c 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -1181,7 +1181,7 @@ class StatisticalModel(HypothesisTestingBase):
                 f"{self.backend_type} backend does not have sampling capabilities"
             ) from exc
 
-        return sampler(size) if isinstance(size, int) else sampler
+        return sampler(size) if isinstance(size, (int, np.integer)) else sampler
 
     def sigma_mu_from_hessian(
         self,
-- 
2.43.0


From 0b30f0d642dd3408dfdf74a4dc2cade24469b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 37/41] fix: return_nll was ignored when the backend implements
 its own negative log-likelihoods

---
 src/spey/interface/statistical_model.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index ef1b78c..16e23b4 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -529,7 +529,7 @@ class StatisticalModel(HypothesisTestingBase):
             Likelihood of the statistical model at a fixed signal strength.
         """
         try:
-            return self.backend.negative_loglikelihood(
+            out = self.backend.negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 data=data,
@@ -538,6 +538,11 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            if return_nll:
+                return out
+            if return_parameters:
+                return np.exp(-out[0]), out[1]
+            return np.exp(-out)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement negative_loglikelihood(), "
@@ -777,7 +782,7 @@ class StatisticalModel(HypothesisTestingBase):
             likelihood computed for asimov data
         """
         try:
-            return self.backend.asimov_negative_loglikelihood(
+            nll = self.backend.asimov_negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 test_statistics=test_statistics,
@@ -785,6 +790,7 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return nll if return_nll else np.exp(-nll)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `asimov_negative_loglikelihood()`, "
@@ -911,7 +917,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_negative_loglikelihood(
+            muhat, nll = self.backend.minimize_negative_loglikelihood(
                 expected=expected,
                 allow_negative_signal=allow_negative_signal,
                 data=data,
@@ -920,6 +926,7 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return muhat, (nll if return_nll else np.exp(-nll))
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_negative_loglikelihood()`, "
@@ -1082,7 +1089,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_asimov_negative_loglikelihood(
+            muhat, nll = self.backend.minimize_asimov_negative_loglikelihood(
                 expected=expected,
                 test_statistics=test_statistics,
                 init_pars=init_pars,
@@ -1090,6 +1097,7 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return muhat, (nll if return_nll else np.exp(-nll))
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_asimov_negative_loglikelihood()`, "
-- 
2.43.0


From 52cfee92cc53663cd80ba58e694eb33ff2a3c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 38/41] fix: initialising the logger left every other existing
 handler in place

---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..803e9d0 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -62,7 +62,7 @@ def init(LoggerStream=sys.stdout):
     # we need to replace all root loggers by ma5 loggers for a proper
     # interface with madgraph5
     SpeyLogger = logging.getLogger("Spey")
-    for hdlr in SpeyLogger.handlers:
+    for hdlr in SpeyLogger.handlers[:]:
         SpeyLogger.removeHandler(hdlr)
     hdlr = logging.StreamHandler(LoggerStream)
     fmt = ColoredFormatter("%(message)s")
-- 
2.43.0


From cb873e6f0a720cfff21c44a58cbb18ec6999801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 39/41] fix: the log formatter modified the record shared with
 the other handlers

---
 src/spey/system/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 803e9d0..ad75ad3 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -1,4 +1,5 @@
 """Logging style for spey"""
+import copy
 import logging
 import sys
 from contextlib import contextmanager
@@ -36,6 +37,8 @@ class ColoredFormatter(logging.Formatter):
         else:  # ANYTHING ELSE
             color = "\x1b[0mSpey: "
 
+        # other handlers receive the same record, do not modify it
+        record = copy.copy(record)
         record.msg = color + str(record.msg) + "\x1b[0m"
         return logging.Formatter.format(self, record)
 
-- 
2.43.0


From 1a87fff0508ecfe864679412083e9d5becf08413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 40/41] fix: hypothesis tests refused signal strengths given as
 numpy numbers

---
 src/spey/base/hypotest_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index c3026be..0c08c95 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -803,14 +803,14 @@ class HypothesisTestingBase(ABC):
 
         def logpdf(mu: Union[float, np.ndarray]) -> float:
             return -self.likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 **kwargs,
             )
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -896,7 +896,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -992,7 +992,7 @@ class HypothesisTestingBase(ABC):
             ) -> float:
                 """Compute logpdf with respect to poi and given data"""
                 return -self.likelihood(
-                    poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                    poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                     expected=expected,
                     data=data,
                     **kwargs,
-- 
2.43.0


From 9cd43eabee80fc525b5c41a5ef0345af5c3bf674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:28 +0000
Subject: [PATCH 41/41] fix: a parameter named twice in poi_indices changed the
 degrees of freedom of the contour

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 76f8e42..e9495fa 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -445,7 +445,7 @@ def find_contour(
     if poi_indices is None:
         contour_indices: List[int] = all_signal_indices
     else:
-        contour_indices: List[int] = sorted(i for i in poi_indices if i != poi_idx)
+        contour_indices: List[int] = sorted(set(i for i in poi_indices if i != poi_idx))
 
     # Profile (nuisance) parameter indices: non-mu parameters NOT in the
     # contour subspace.  These are minimised at every NLL evaluation so
-- 
2.43.0

