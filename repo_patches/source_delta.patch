From c0c23b989dd3bd66d6b804d41f7adc06655f9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 01/74] fix: allow_multi_target=False must look at the number
 of target domains

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..6def96f 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -114,7 +114,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -217,7 +217,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From d78c1565b7d4dc52fa65eb1156dbb9a182f179ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 02/74] fix: check_X_y_domain gives one integer domain label
 per sample and rejects mismatching lengths

---
 skada/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 6def96f..8c4395b 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -85,7 +85,9 @@ def check_X_y_domain(
                          "should be set")
     elif sample_domain is None and allow_auto_sample_domain:
         y_type = _check_y_masking(y)
-        sample_domain = _DEFAULT_SOURCE_DOMAIN_LABEL*np.ones_like(y)
+        sample_domain = (
+            _DEFAULT_SOURCE_DOMAIN_LABEL * np.ones(y.shape[0], dtype=np.int32)
+        )
         # labels masked with -1 (for classification) are recognized as targets,
         # labels masked with nan (for regression) are recognized as targets,
         # the rest is treated as a source
@@ -96,9 +98,10 @@ def check_X_y_domain(
         sample_domain[mask] = _DEFAULT_TARGET_DOMAIN_LABEL
 
     if np.isscalar(sample_domain):
-        sample_domain = sample_domain*np.ones_like(y)
+        sample_domain = sample_domain * np.ones(X.shape[0], dtype=np.int32)
 
     source_idx = extract_source_indices(sample_domain)
+    check_consistent_length(X, sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
     # a new domain labeling convention without "intersections"
-- 
2.43.0


From 7739132fe7571b33eec3b328eb2eaafd9f06206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 03/74] fix: source_target_merge keeps the values of both
 halves whatever their dtypes

---
 skada/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 8c4395b..bf39b6f 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -532,7 +532,7 @@ def source_target_merge(
                 arrays[index_is_empty] = (
                     default_masked_label *
                     np.ones(shape_to_complete)
-                )
+                ).astype(arrays[pair_index].dtype)
 
         # Check consistent number of samples in source-target arrays
         # and the number inferred in the sample_domain
@@ -584,9 +584,7 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        output = np.zeros_like(np.concatenate((array_source, array_target)))
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From 68dfffa0ca60a32e37c97088bfdff78444a02ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 04/74] fix: masking target labels must not overwrite the
 caller's y

---
 skada/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..1182488 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -351,6 +351,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            # the labels belong to the caller: never mask them in place
+            y = y.copy()
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 5f1a4d3478ebeccd9b2dae1d52beac101bdc96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 05/74] fix: PerDomain indexes the samples left after dropping
 masked ones by their own domain labels

---
 skada/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 1182488..2c8809d 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -474,7 +474,11 @@ class PerDomain(BaseSelector):
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
-        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        # the domain labels have to follow the samples that are kept
+        X, y, routed_params = self._remove_masked(
+            X, y, {'_sample_domain': sample_domain, **routed_params}
+        )
+        sample_domain = routed_params.pop('_sample_domain')
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
             idx, = np.where(sample_domain == domain_label)
-- 
2.43.0


From 05db4c6b601eb437cdf9fc24a4e0053c605af4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 06/74] fix: fit_transform of PerDomain and SelectSourceTarget
 for transformers without fit_transform

---
 skada/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 2c8809d..6798c98 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -503,11 +503,10 @@ class PerDomain(BaseSelector):
             if self.mask_target_labels:
                 y = self._auto_mask_target_labels(y, params)
 
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
             # the output of the transform call is already merged into a single ndarray
-            output = self.transform(X, **transform_params)
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
@@ -739,8 +738,7 @@ class SelectSourceTarget(BaseSelector):
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From 3563b9a586ad97b4236f11514ff09c11ac28d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 07/74] fix: SelectSourceTarget keeps its mask_target_labels
 parameter so that it can be cloned

---
 skada/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/base.py b/skada/base.py
index 6798c98..bbbf90d 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -619,6 +619,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
-- 
2.43.0


From a79f5a171f6179c1004c6a8baed9338466e89915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 08/74] fix: selectors report mask_target_labels as a parameter
 so that cloning keeps it

---
 skada/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index bbbf90d..2d66100 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -255,9 +255,10 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         params = self.base_estimator.get_params(deep=deep)
         params['base_estimator'] = self.base_estimator
+        params['mask_target_labels'] = self.mask_target_labels
         return params
 
-    def set_params(self, base_estimator=None, **kwargs):
+    def set_params(self, base_estimator=None, mask_target_labels=None, **kwargs):
         """Set the parameters of this estimator.
 
         Valid parameter keys can be listed with ``get_params()``. Note that
@@ -276,6 +277,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         if base_estimator is not None:
             self.base_estimator = base_estimator
+        if mask_target_labels is not None:
+            self.mask_target_labels = mask_target_labels
         self.base_estimator.set_params(**kwargs)
         return self
 
-- 
2.43.0


From 5224f8edbb8e6e9c593b469c31aa9a47fedea1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 09/74] fix: unsupported default_selector name raises the
 documented ValueError

---
 skada/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..c2a1704 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -127,7 +127,7 @@ def _wrap_with_selector(
             if selector_cls is None:
                 raise ValueError(
                     f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS)}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From c0046bb0a77d0ebd5929042000d7643e14622532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 10/74] fix: merging per-domain outputs keeps the values of
 every domain whatever their dtypes

---
 skada/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..9f8cc99 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -207,9 +207,8 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
         output = X_output, y_output, params_output
     else:
         assert isinstance(first_output, np.ndarray)
-        output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
-        )
+        dtype = np.result_type(*[output for _, output in domain_outputs.values()])
+        output = np.zeros((n_samples, *first_output.shape[1:]), dtype=dtype)
         for idx, domain_output in domain_outputs.values():
             output[idx] = domain_output
     return output
-- 
2.43.0


From 84e7a64c1eb83fbed98f41b4223a31e4c02f49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 11/74] fix: SelectSourceTarget of predictors offers predict

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index 2d66100..613db6a 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -775,6 +775,10 @@ class SelectSourceTarget(BaseSelector):
     def transform(self, X, **params):
         return self._route_to_estimator('transform', X, **params)
 
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
-- 
2.43.0


From 3104d2404247ef405b6dda4498e8f2418edcc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 12/74] fix: __all__ names the subsampling transformers that
 exist

---
 skada/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..b39a7d0 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -132,8 +132,9 @@ __all__ = [
     "JDOTClassifier",
     "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From 5eff231e58b1485e968c08725ab4cc8b109fd5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 13/74] fix: packing masks target labels of every dtype and of
 tensors

---
 skada/datasets/_base.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..bc0af7f 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -328,16 +328,10 @@ class DomainAwareDataset:
             else:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
-                if mask is not None:
-                    y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
+                if mask is None:
                     # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
-                    y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
-                    # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
+                    mask, dtype = _default_mask(y)
+                y = _filled_labels(y, X.shape[0], mask, dtype)
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
@@ -582,6 +576,24 @@ class DomainAwareDataset:
         return domain_str
 
 
+def _default_mask(y):
+    """Mask for labels of this type: nan for floating point ones, -1 otherwise."""
+    if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+        is_floating = y.dtype.is_floating_point
+        can_be_negative = is_floating or y.dtype.is_signed
+    else:
+        is_floating = np.issubdtype(y.dtype, np.floating)
+        can_be_negative = is_floating or np.issubdtype(y.dtype, np.signedinteger)
+    return np.nan if is_floating else -1, y.dtype if can_be_negative else None
+
+
+def _filled_labels(like, n_samples, value, dtype):
+    """Labels all equal to value, in an array of the same library as `like`."""
+    if _IS_TORCH_IMPORTED and isinstance(like, torch.Tensor):
+        return torch.full((n_samples,), value, dtype=dtype, device=like.device)
+    return np.array([value] * n_samples, dtype=dtype)
+
+
 # xxx(okachaiev): putting `domain_names` first argument
 # so it's compatible with `partial`
 def select_domain(
-- 
2.43.0


From 716835aca69bfd4496a6d5f84d5ea4688e10a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 14/74] fix: unlabeled domains can be given to
 DomainAwareDataset and merged

---
 skada/datasets/_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index bc0af7f..ea613ab 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -112,7 +112,10 @@ class DomainAwareDataset:
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
             for d in domains:
-                if len(d) == 2:
+                if len(d) == 1:
+                    (X,) = d
+                    y, domain_name = None, None
+                elif len(d) == 2:
                     X, y = d
                     domain_name = None
                 elif len(d) == 3:
@@ -172,10 +175,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): this needs to be more flexible
             # as it should be possible to pass only X with y=None
             # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            domain = dataset.get_domain(domain_name)
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
-            self.add_domain(X, y, domain_name)
+            self.add_domain(*domain, domain_name=domain_name)
         return self
 
     def get_domain(self, domain_name: str) -> Tuple[ArrayLike, Optional[ArrayLike]]:
-- 
2.43.0


From 4dc034e1eb166896998a95bf0fa0a5690d284c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 15/74] fix: DomainAwareDataset accepts the documented
 dictionary of domains

---
 skada/datasets/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index ea613ab..be19a54 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -111,6 +111,12 @@ class DomainAwareDataset:
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
+            if isinstance(domains, dict):
+                # the keys are the names of the domains
+                domains = [
+                    ((*d, None) if len(d) == 1 else tuple(d[:2])) + (name,)
+                    for name, d in domains.items()
+                ]
             for d in domains:
                 if len(d) == 1:
                     (X,) = d
-- 
2.43.0


From 8a0522219383c166cc6cb6ca170de6769c19b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 16/74] fix: generated domain names do not replace an existing
 domain of that name

---
 skada/datasets/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index be19a54..9a61ccd 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -153,7 +153,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            idx = len(self.domain_names_) + 1
+            while f"_{idx}" in self.domain_names_:
+                idx += 1
+            domain_name = f"_{idx}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
-- 
2.43.0


From 6fe58fca238ae3d6d7d51719340016860090e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 17/74] fix: pack_lodo honours return_type

---
 skada/datasets/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 9a61ccd..62d60f3 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -506,7 +506,7 @@ class DomainAwareDataset:
 
     def pack_lodo(
         self,
-        return_X_y: bool = True,
+        return_X_y: bool = None,
         return_type: Literal[
             "auto", "array", "tensor", "DeepDADataset", "Bunch"
         ] = "auto",
-- 
2.43.0


From d5503baaaec7592d60d9ad9b688a247f9c633ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 18/74] fix: numpy datasets can be packed as tensors

---
 skada/datasets/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 62d60f3..ec1ec3f 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -375,8 +375,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -391,8 +391,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From 35bb5df4302fa9135757de39d386c1813a4b6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 19/74] fix: unlabeled domains are packed with the mask of the
 other domains' labels

---
 skada/datasets/_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index ec1ec3f..d148f17 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -310,12 +310,18 @@ class DomainAwareDataset:
                 DeprecationWarning,
             )
             mask_target_labels = train
+        # missing labels carry the mask of the labels that are there
+        labels = [
+            d[1] for d in map(self.get_domain, [*as_targets, *as_sources]) if len(d) > 1
+        ]
+        missing = _default_mask(labels[0]) if labels else (-1, None)
         for domain_name in as_sources:
             domain_id = self.domain_names_[domain_name]
             source = self.get_domain(domain_name)
             if len(source) == 1:
                 (X,) = source
-                y = -np.ones(X.shape[0], dtype=np.int32)
+                like = labels[0] if labels else X
+                y = _filled_labels(like, X.shape[0], *missing)
             elif len(source) == 2:
                 X, y = source
             else:
@@ -334,7 +340,8 @@ class DomainAwareDataset:
                 (X,) = target
                 # xxx(okachaiev): for what it's worth, we should likely to
                 # move the decision about dtype to the very end of the list
-                y = -np.ones(X.shape[0], dtype=np.int32)
+                like = labels[0] if labels else X
+                y = _filled_labels(like, X.shape[0], *missing)
             elif len(target) == 2:
                 X, y = target
             else:
-- 
2.43.0


From 46c9d7cd35f178997b241dcd556e589dda8b9300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 20/74] fix: packing gives one domain label per sample for
 labels of any shape

---
 skada/datasets/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index d148f17..d9eaaed 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -329,7 +329,7 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, re-write when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
+            sample_domains.append(np.ones(X.shape[0], dtype=int) * domain_id)
             domain_labels[domain_name] = domain_id
         # xxx(okachaiev): code duplication, re-write when API is fixed
         dtype = None
@@ -354,7 +354,7 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(-1 * domain_id * np.ones_like(y, dtype=int))
+            sample_domains.append(-1 * domain_id * np.ones(X.shape[0], dtype=int))
             domain_labels[domain_name] = -1 * domain_id
 
         # xxx(okachaiev): so far this only works if source and target has the same size
-- 
2.43.0


From 12148246c3f5bdb8e7e0a579a44ffb6394981f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 21/74] fix: weight source samples by the target/source ratio
 in DiscriminatorReweightAdapter

The domain classifier is trained with 1 for target samples, and the
weights used the inverse of the density ratio: source samples that look
like the target got the smallest weights.
---
 skada/_reweight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..b68ac41 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -357,7 +357,7 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
         probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        source_weights = probas / np.clip(1 - probas, EPS, 1.0)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From 8c810edd22f0e0b61079cfb7d91ae2575ffafadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 22/74] fix: pass the target samples to the nearest neighbor
 weighting

~source_idx was applied to integer indices and picked samples counted
from the end of X instead of the target samples.
---
 skada/_reweight.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index b68ac41..bec320b 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -805,8 +805,6 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
         source_idx = extract_source_indices(sample_domain)
-        # xxx(okachaiev): do we need np.where here?
-        (source_idx,) = np.where(source_idx)
         indices_source = np.arange(X[source_idx].shape[0])
         if np.array_equal(self.X_source_fit, X[source_idx]):
             estimator = self.estimator_
-- 
2.43.0


From 798fd153f845111ccb677a3527e593c0f9943cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 23/74] fix: KLIEPReweightAdapter.fit no longer overwrites its
 gamma parameter

'scale' and 'auto' were replaced by the values of the first data set, and
used for every later fit.
---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index bec320b..6743aad 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -484,9 +484,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From f3a9ea195dc412036bdc8ad1cc8836ce6154c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 24/74] fix: MultiLinearMongeAlignment truncated mapped samples
 when X has an integer dtype

---
 skada/_mapping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..60a4bc1 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -691,7 +691,8 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
             X, sample_domain, allow_multi_source=True, allow_multi_target=True
         )
         idx = extract_domains_indices(sample_domain)
-        X_adapt = X.copy()
+        # the mapped samples are real-valued even when X holds integers
+        X_adapt = X.astype(np.result_type(X.dtype, np.float32))
 
         for domain, sel in idx.items():
             A, b = self.mappings_[domain]
-- 
2.43.0


From 8e3d2715c01b0c4708310528dab73c084f36f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:56 +0000
Subject: [PATCH 25/74] fix: _estimate_covariance(shrinkage='auto') centered
 the data although assume_centered=True

---
 skada/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 9f8cc99..c8727fd 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -45,7 +45,7 @@ def _estimate_covariance(X, shrinkage, assume_centered=False):
     elif shrinkage == "auto":
         sc = StandardScaler(with_mean=not assume_centered)
         X = sc.fit_transform(X)
-        s = ledoit_wolf(X)[0]
+        s = ledoit_wolf(X, assume_centered=assume_centered)[0]
         # rescale
         s = sc.scale_[:, np.newaxis] * s * sc.scale_[np.newaxis, :]
     elif isinstance(shrinkage, Real):
-- 
2.43.0


From 1471b0e6843147a0359accfcc1f2611aebf6609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 26/74] fix: TCA and TJM returned the fitted samples source
 first instead of in input order

---
 skada/_subspace.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..7866dfb 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -362,7 +362,13 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         if np.array_equal(X_source, self.X_source_) and np.array_equal(
             X_target, self.X_target_
         ):
-            X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            X_ = self.K_ @ self.eigvects_
+            # the rows of K_ are ordered source first, put them back in place
+            X_, _ = source_target_merge(
+                X_[: X_source.shape[0]],
+                X_[X_source.shape[0] :],
+                sample_domain=sample_domain,
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -524,6 +530,12 @@ class TransferJointMatchingAdapter(BaseAdapter):
         ):
             K = self._get_kernel_matrix(X_source, X_target)
             X_ = K @ self.A_
+            # the rows of K are ordered source first, put them back in place
+            X_, _ = source_target_merge(
+                X_[: X_source.shape[0]],
+                X_[X_source.shape[0] :],
+                sample_domain=sample_domain,
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-- 
2.43.0


From bdfcef579c666ae9b19cf5715f680c8e5ca71686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 27/74] fix: TransferJointMatching regularized the wrong rows
 when X is not ordered source first

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 7866dfb..6534f4e 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -590,7 +589,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # the rows of K are ordered source first, whatever the order of X
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
-- 
2.43.0


From 240b3fd78d68bed5f98427c8b4a4efd3ddaa5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 28/74] fix: TransferComponentAnalysis used a symmetric
 eigensolver on a non-symmetric matrix

---
 skada/_subspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 6534f4e..c9a6961 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -299,7 +299,8 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         B = K @ H @ K
         solution = np.linalg.solve(A, B)
 
-        eigvals, eigvects = np.linalg.eigh(solution)
+        # A^-1 B is not symmetric
+        eigvals, eigvects = np.linalg.eig(solution)
 
         if self.n_components is None:
             n_components = min(X.shape[0], X.shape[1])
-- 
2.43.0


From 8a5efab4b27b6e7d5d82e4c578d473caff3c5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 29/74] fix: hinge cost of JDOT must tell the two classes of a
 binary estimator apart

---
 skada/_ot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..9770123 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -73,7 +73,8 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yt_pred = estimator.decision_function(Xt)
             if len(Yt_pred.shape) == 1:
-                Yt_pred = np.repeat(Yt_pred.reshape(-1, 1), 2, axis=1)
+                # margins of the negative and the positive class
+                Yt_pred = np.stack((-Yt_pred, Yt_pred), axis=1)
             M = np.maximum(0, 1 - Ys[:, None, :] * Yt_pred[None, :, :]).sum(2)
         else:
             raise ValueError(
@@ -184,7 +185,8 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yh_pred = estimator.decision_function(Xh)
             if len(Yh_pred.shape) == 1:  # handle binary classification
-                Yh_pred = np.repeat(Yh_pred.reshape(-1, 1), 2, axis=1)
+                # margins of the negative and the positive class
+                Yh_pred = np.stack((-Yh_pred, Yh_pred), axis=1)
             loss = np.sum(np.maximum(0, 1 - yh * Yh_pred), 1).dot(wh)
         else:
             raise ValueError(
-- 
2.43.0


From 3fca26b21547e808f72016b422c29d599431d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 30/74] fix: JCPOT must give each target its own estimated
 label, among the classes of the sources

---
 skada/_ot.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 9770123..dded0ee 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -955,6 +955,9 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         Xs = [X for X, y in sources.values()]
         ys = [y for X, y in sources.values()]
+        # the propagation works with the positions of the classes
+        classes = np.unique(np.concatenate(ys))
+        ys = [np.searchsorted(classes, y) for y in ys]
 
         if len(ys) == 1:
             Xs = Xs * 2
@@ -978,10 +981,15 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = classes[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
-        yout[sample_domain < 0] = yh
+        # estimated labels are ordered by target domain
+        n_seen = 0
+        for domain, (X_domain, _) in targets.items():
+            n_domain = X_domain.shape[0]
+            yout[sample_domain == domain] = yh[n_seen : n_seen + n_domain]
+            n_seen += n_domain
 
         return X, yout, {}
 
-- 
2.43.0


From 3d61ec950a7723c7fd3cf53aaaba6a7382582319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:44 +0000
Subject: [PATCH 31/74] fix: JDOT estimators must return themselves from fit

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index dded0ee..41f7017 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -593,6 +593,7 @@ class JDOTRegressor(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None):
         """Predict using the model"""
@@ -723,6 +724,7 @@ class JDOTClassifier(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
-- 
2.43.0


From f75cc2a9748cece84f3134911f04c139dc7638f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:26 +0000
Subject: [PATCH 32/74] fix: DASVM must predict probabilities with the adapted
 classifier and leave its base estimator unfitted

---
 skada/_self_labeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..6e6cbed 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -169,7 +169,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
@@ -293,7 +293,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From 49359165fb7cec14d50f6f22751abf18b9acc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:41 +0000
Subject: [PATCH 33/74] fix: DASVM failed once every target sample was added

---
 skada/_self_labeling.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 6e6cbed..a665370 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -123,15 +123,13 @@ class DASVMClassifier(DAEstimator):
 
     def _get_decision(self, new_estimator, X, indices_list):
         """Look at the points that have either not been discarded or not been added."""
+        decisions = np.ones(X.shape[0])
         if sum(~indices_list) > 0:
             df = new_estimator.decision_function(X[~indices_list])
             # df.ndim allows us to know if we are in the
             # `binary` case or the `multiclass` one
-            decisions = np.ones(X.shape[0])
             decisions[~indices_list] = df
-            decisions = np.array([-decisions + 1, decisions + 1]).T
-        else:
-            decisions = np.ones(X.shape[0])
+        decisions = np.array([-decisions + 1, decisions + 1]).T
         return decisions
 
     def fit(self, X, y=None, sample_domain=None):
-- 
2.43.0


From 6e5754e10605bf7ff66919991d1323d76dd61ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 34/74] fix: GradualEstimator must leave the estimator it is
 given unfitted and unchanged

---
 skada/_gradual_da.py | 47 +++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..1de61b9 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -115,7 +116,7 @@ class GradualEstimator(DAEstimator):
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -125,20 +126,22 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -198,7 +201,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -226,14 +229,14 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
+        if not hasattr(self, "base_estimator_"):
             raise ValueError("The model has not been fitted yet.")
 
         else:
-            check_is_fitted(self.base_estimator)
+            check_is_fitted(self.base_estimator_)
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -248,16 +251,16 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
+        if not hasattr(self, "base_estimator_"):
             raise ValueError("The model has not been fitted yet.")
 
         else:
-            check_is_fitted(self.base_estimator)
+            check_is_fitted(self.base_estimator_)
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -272,18 +275,18 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
+        if not hasattr(self, "base_estimator_"):
             raise ValueError("The model has not been fitted yet.")
 
         else:
-            check_is_fitted(self.base_estimator)
+            check_is_fitted(self.base_estimator_)
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -300,10 +303,10 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
+        if not hasattr(self, "base_estimator_"):
             raise ValueError("The model has not been fitted yet.")
 
         else:
-            check_is_fitted(self.base_estimator)
+            check_is_fitted(self.base_estimator_)
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From 96eba6bfa89f979c925b6588b32c0bc27f6187d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 35/74] fix: GradualEstimator failed when several coefficients
 of the plan tie at the cut-off

---
 skada/_gradual_da.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 1de61b9..7656558 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -152,8 +152,11 @@ class GradualEstimator(DAEstimator):
         # Get the self.alpha * (n + m) largest coefficients of gamma
         self.max_index = int(min(self.alpha * (n + m), gamma.size - 1))
 
-        threshold = np.sort(gamma.flatten())[-self.max_index - 1]
-        return gamma >= threshold
+        # exactly that many: ties at the smallest one kept are broken by position
+        kept = np.argsort(gamma, axis=None, kind="stable")[-self.max_index - 1 :]
+        mask_gamma = np.zeros(gamma.size, dtype=bool)
+        mask_gamma[kept] = True
+        return mask_gamma.reshape(n, m)
 
     def _advanced_cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep at least one value per row and column."""
-- 
2.43.0


From a39689a5566120c45dc7afae96625439979e1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 36/74] fix: DeepEmbeddedValidation paired every weight with
 every sample's error

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..8af21dc 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -467,7 +467,8 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
 
-        weighted_error = weights * error
+        # one weight and one error per sample: keep both as columns
+        weighted_error = weights * error.reshape(-1, 1)
         weights_m = np.concatenate((weighted_error, weights), axis=1)
         cov = np.cov(weights_m, rowvar=False)[0, 1]
         var_w = np.var(weights, ddof=1)
-- 
2.43.0


From a9055dcb593aa6021978bcfc3c03a253b68a7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 37/74] fix: CircularValidation left a source domain labelled 0
 as source

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 8af21dc..d69a68c 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -624,7 +624,8 @@ class CircularValidation(_BaseDomainAwareScorer):
                 le.fit(y_pred_target)
                 y_pred_target = le.transform(y_pred_target)
 
-            backward_sample_domain = -sample_domain
+            # source domains (>= 0) become targets (< 0), and conversely
+            backward_sample_domain = -sample_domain - 1
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From b7dd80fd78b1a052c674957830993bf17185ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 38/74] fix: MaNoScorer normalized logits it had shifted in
 place

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index d69a68c..2a08697 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -918,7 +918,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
+        logits = logits - np.max(logits, axis=1, keepdims=True)
         exp_logits = np.exp(logits)
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
-- 
2.43.0


From 2923cd1f2f692ca053bf5acbbbd99b0ac994efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:52 +0000
Subject: [PATCH 39/74] fix: SoftNeighborhoodDensity was nan once a similarity
 underflows to zero

---
 skada/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 2a08697..fc690c2 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from copy import deepcopy
 
 import numpy as np
+from scipy.special import entr
 from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 from sklearn.metrics import balanced_accuracy_score, check_scoring
@@ -330,7 +331,8 @@ class SoftNeighborhoodDensity(_BaseDomainAwareScorer):
         np.fill_diagonal(similarity_matrix, -np.diag(similarity_matrix))
         similarity_matrix = softmax(similarity_matrix)
 
-        entropy = np.sum(-similarity_matrix * np.log(similarity_matrix), axis=1)
+        # x*log(x) -> 0 as x -> 0
+        entropy = np.sum(entr(similarity_matrix), axis=1)
         return self._sign * np.mean(entropy)
 
 
-- 
2.43.0


From 3e3426709ea256e4708c8341fbfd7f0d3d0a6b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 40/74] fix: dataset generators refused the RandomState
 instances they document

---
 skada/datasets/_samples_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From 5cdea80cec30de468e85158abe82a9f4794db555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 41/74] fix: subspace multiclass data labelled samples of the
 other clusters as class 0

---
 skada/datasets/_samples_generator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 3ff507d..6000f68 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -177,10 +177,9 @@ def _generate_data_2d_classif_subspace(
         y = y.astype(int)
     elif label == "multiclass":
         k = 4
-        y = np.zeros(n1 + n1 % k)
-        for i in range(k):
-            y = np.concatenate((y, (i + 1) * np.ones(n1 // k)), 0)
-            y = y.astype(int)
+        # the n1 samples of the clusters of class 2, in k classes of equal sizes
+        y = np.concatenate((np.zeros(n1), 1 + np.arange(n1) * k // n1), 0)
+        y = y.astype(int)
     elif label == "regression":
         # create label y with gaussian distribution
         normal_rv = multivariate_normal(mu_regression, sigma_regression)
-- 
2.43.0


From 4242b5de2881a66d832bd59a70919047f7ae2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 42/74] fix: make_dataset_from_moons_distribution failed for
 the end of the moons

---
 skada/datasets/_samples_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 6000f68..7df7f00 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -212,7 +212,8 @@ def _generate_data_from_moons(n_samples, index, rng):
     inner_circ_x = 1 - np.cos(np.linspace(0, np.pi, n_samples_circ))
     inner_circ_y = 1 - np.sin(np.linspace(0, np.pi, n_samples_circ)) - 0.5
 
-    index = int(index * n_samples_circ)
+    # the position 1 is the last point of the moon
+    index = min(int(index * n_samples_circ), n_samples_circ - 1)
     cov = [[0.01, 0], [0, 0.01]]
     center1 = np.array([outer_circ_x[index], outer_circ_y[index]])
     center2 = np.array([inner_circ_x[index], inner_circ_y[index]])
-- 
2.43.0


From 55147e19ae102a8b2a0c3042a2dace992cb5d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:14 +0000
Subject: [PATCH 43/74] fix: the subspace shift refused the scalar law of its
 regression labels

---
 skada/datasets/_samples_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 7df7f00..b9d3a69 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -499,7 +499,8 @@ def make_shifted_datasets(
         mu_regression,
         sigma_regression,
         regression_scaling_constant,
-        label,
+        # the subspace shift draws its own samples, whose law is in one dimension
+        label if shift != "subspace" else "binary",
     )
 
     if shift == "covariate_shift":
-- 
2.43.0


From 6b1c1a343f01084088934b703f41e3abd34a00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 44/74] fix: DeepDADataset refused the integer sample_domain it
 documents

---
 skada/deep/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..f8103a9 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -6,6 +6,7 @@
 #
 # License: BSD 3-Clause
 
+import numbers
 from abc import abstractmethod
 from typing import Dict, Any, Union
 
@@ -1041,9 +1042,13 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None:
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
-        if isinstance(sample_domain, int):
+        elif not isinstance(sample_domain, numbers.Integral) and (
+            len(sample_domain) == 0
+        ):
+            sample_domain = _DEFAULT_SAMPLE_DOMAIN_
+        if isinstance(sample_domain, numbers.Integral):
             sample_domain = torch.full((X.shape[0],), sample_domain)
         else:
             sample_domain = check_array(
-- 
2.43.0


From e74977bd68660503e9ffebd0de050a9301311a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 45/74] fix: merging a DeepDADataset in place left the sample
 indices of the old samples

---
 skada/deep/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index f8103a9..3eee325 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1147,6 +1147,7 @@ class DeepDADataset(Dataset):
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
                     "optionally, a weight."
                 )
+                self._sample_idx = self._infer_sample_idx()
         else:
             raise TypeError("Can only merge two instances of DeepDADataset")
 
-- 
2.43.0


From 8dec98c1c438641e41cfd525452d629de4d291d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 46/74] fix: selecting a DeepDADataset on missing weights
 raised UnboundLocalError

---
 skada/deep/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 3eee325..b0b52f1 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1334,8 +1334,9 @@ class DeepDADataset(Dataset):
         elif on == "sample_domain":
             mask = condition(self.sample_domain)
         elif on == "sample_weight":
-            if self.has_weights:
-                mask = condition(self.sample_weight)
+            if not self.has_weights:
+                raise ValueError("The dataset has no weights to select on.")
+            mask = condition(self.sample_weight)
         else:
             raise ValueError(
                 "'on' argument must be one of "
-- 
2.43.0


From 63771750a0ab6064dbc42c902aecea7287e7027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 47/74] fix: sample weights failed for source domain 0 and for
 training on the target

---
 skada/deep/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index b0b52f1..78fe2f6 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -887,7 +887,12 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            # the base loss is the one of a single side
+            if getattr(self.criterion_, "train_on_target", False):
+                used = X["sample_domain"] < 0
+            else:
+                used = X["sample_domain"] >= 0
+            sample_weight = sample_weight[used]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From 253deb88e0dbae7efaade6573a882cc9cf5aa3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 48/74] fix: predict required the base module to accept sample
 weights

---
 skada/deep/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 78fe2f6..d6ceba6 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -438,10 +438,7 @@ class DomainAwareModule(torch.nn.Module):
         sample_idx=None,
     ):
         if is_fit:
-            if sample_weight is not None:
-                y_pred = self.base_module_(X, sample_weight=sample_weight)
-            else:
-                y_pred = self.base_module_(X)
+            y_pred = self._base_forward(X, sample_weight)
 
             if self.layer_name is not None:
                 features = self.intermediate_layers[self.layer_name]
@@ -457,11 +454,17 @@ class DomainAwareModule(torch.nn.Module):
         else:
             if return_features:
                 return (
-                    self.base_module_(X, sample_weight=sample_weight),
+                    self._base_forward(X, sample_weight),
                     self.intermediate_layers[self.layer_name],
                 )
             else:
-                return self.base_module_(X, sample_weight=sample_weight)
+                return self._base_forward(X, sample_weight)
+
+    def _base_forward(self, X, sample_weight):
+        # only the modules given weights have to accept them
+        if sample_weight is not None:
+            return self.base_module_(X, sample_weight=sample_weight)
+        return self.base_module_(X)
 
 
 class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
-- 
2.43.0


From e14e75d05a9f9ba42e902ee70bedbd21461b8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 49/74] fix: the score of a deep net failed when source samples
 were given along

---
 skada/deep/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index d6ceba6..281bf23 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -702,12 +702,18 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
             The mean accuracy score.
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
+        y = np.asarray(y)
         if not allow_source:
+            # the labels and the weights of the samples that are predicted
+            target = to_numpy(X.sample_domain) < 0
+            y = y[target]
+            if sample_weight is not None:
+                sample_weight = np.asarray(sample_weight)[target]
             X = X.select_target()
 
         return accuracy_score(
             y,
-            self.predict(X, sample_domain, allow_source=allow_source),
+            self.predict(X, allow_source=allow_source),
             sample_weight=sample_weight,
         )
 
-- 
2.43.0


From 60b6f7884302c447420bbcae933f53d52cc092ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 50/74] fix: CDAN refused sample weights

---
 skada/deep/_adversarial.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..89547b7 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -248,10 +248,11 @@ class CDANModule(DomainAwareModule):
         sample_idx=None,
         is_fit=False,
         return_features=False,
+        sample_weight=None,
     ):
         if is_fit:
             # predict
-            y_pred = self.base_module_(X)
+            y_pred = self._base_forward(X, sample_weight)
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
@@ -284,9 +285,12 @@ class CDANModule(DomainAwareModule):
             )
         else:
             if return_features:
-                return self.base_module_(X), self.intermediate_layers[self.layer_name]
+                return (
+                    self._base_forward(X, sample_weight),
+                    self.intermediate_layers[self.layer_name],
+                )
             else:
-                return self.base_module_(X)
+                return self._base_forward(X, sample_weight)
 
 
 def CDAN(
-- 
2.43.0


From a7d26aadcfcc7058777d37781a24cd71027a9613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 51/74] fix: DomainClassifier's softmax over one output was
 constant, so DANN, CDAN and SPA learned nothing from it

---
 skada/deep/modules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..a8ef8c4 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,7 +178,8 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            # a softmax over a single output is constant
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=1),
         )
         self.alpha = alpha
 
-- 
2.43.0


From 17032b4e9241327bb2cdf68844097feb4e575b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 52/74] fix: DomainClassifier dropped the batch axis of a batch
 of one

---
 skada/deep/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index a8ef8c4..aac05a5 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -194,7 +194,7 @@ class DomainClassifier(nn.Module):
             Parameter for the reverse layer.
         """
         reverse_x = GradientReversalLayer.apply(x, self.alpha)
-        return self.classifier(reverse_x).squeeze()
+        return self.classifier(reverse_x).squeeze(-1)
 
 
 class MNISTtoUSPSNet(nn.Module):
-- 
2.43.0


From 3a036a2e1945656329dc4234e3551959b3448986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 53/74] fix: ModifiedCrossEntropyLoss took the target classes
 of every sample for each sample

---
 skada/deep/_adversarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 89547b7..e6447d0 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -415,7 +415,7 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From 33d7219ed87043fe93c78ebcb358d094178af414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 54/74] fix: MemoryBank never stored the features and outputs
 of the batch

---
 skada/deep/callbacks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..70d94ef 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -158,13 +158,15 @@ class MemoryBank(Callback):
 
             new_memory_features = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+            ) * net.criterion__adapt_criterion.memory_features[
+                batch_idx
+            ] + self.momentum * features_t.clone()
 
             new_memory_outputs = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+            ) * net.criterion__adapt_criterion.memory_outputs[
+                batch_idx
+            ] + self.momentum * outputs_target.clone()
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From 6706e4e096f3cac0b76136b2136fa345eda5c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 55/74] fix: CountEpochs went on counting in the next fit

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 70d94ef..ea5cc24 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -175,9 +175,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, *args, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From 226d9dfb6c2567f318f36e198b38ab9813978564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 56/74] fix: cdd_loss compared target samples to centroids
 along the wrong axis

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 98c70c4..e1e02f0 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -254,7 +254,7 @@ def cdd_loss(
 
     # Discard ambiguous target samples
     similarities = F.cosine_similarity(
-        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0)
+        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0), dim=2
     )
     mask_t = 0.5 * (1 - similarities.max(dim=1)[0]) < distance_threshold
     features_t = features_t[mask_t]
-- 
2.43.0


From 329dd0f2da177777aaeb696f91acbefe242f5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 57/74] fix: cdd_loss did not average its kernels over the
 pairs of the classes

---
 skada/deep/losses.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index e1e02f0..80b3037 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -288,36 +288,36 @@ def cdd_loss(
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-                mask_c1_c1 = (y_s == c1).float()
+                mask_c1 = (y_s == c1).float()
+                mask_c1_c1 = mask_c1.unsqueeze(1) * mask_c1.unsqueeze(0)
 
                 # e1 measure the intra-class domain discrepancy
                 # Thus if mask_c1_c1.sum() = 0 --> e1 = 0
                 if mask_c1_c1.sum() > 0:
-                    e1 = (kernel_ss * mask_c1_c1).sum() / (mask_c1_c1.sum() ** 2)
+                    e1 = (kernel_ss * mask_c1_c1).sum() / mask_c1_c1.sum()
                 else:
                     e1 = 0
 
                 # Compute e2
                 kernel_tt = _gaussian_kernel(features_t, features_t, sigmas)
-                mask_c2_c2 = (cluster_labels_t == c2).float()
+                mask_c2 = (cluster_labels_t == c2).float()
+                mask_c2_c2 = mask_c2.unsqueeze(1) * mask_c2.unsqueeze(0)
 
                 # e2 measure the intra-class domain discrepancy
                 # Thus if mask_c2_c2.sum() = 0 --> e2 = 0
                 if mask_c2_c2.sum() > 0:
-                    e2 = (kernel_tt * mask_c2_c2).sum() / (mask_c2_c2.sum() ** 2)
+                    e2 = (kernel_tt * mask_c2_c2).sum() / mask_c2_c2.sum()
                 else:
                     e2 = 0
 
                 # Compute e3
                 kernel_st = _gaussian_kernel(features_s, features_t, sigmas)
-                mask_c1 = (y_s == c1).float().unsqueeze(1)
-                mask_c2 = (cluster_labels_t == c2).float().unsqueeze(0)
-                mask_c1_c2 = mask_c1 * mask_c2
+                mask_c1_c2 = mask_c1.unsqueeze(1) * mask_c2.unsqueeze(0)
 
                 # e3 measure the inter-class domain discrepancy
                 # Thus if mask_c1_c2.sum() = 0 --> e3 = 0
                 if mask_c1_c2.sum() > 0:
-                    e3 = (kernel_st * mask_c1_c2).sum() / (mask_c1_c2.sum() ** 2)
+                    e3 = (kernel_st * mask_c1_c2).sum() / mask_c1_c2.sum()
                 else:
                     e3 = 0
 
-- 
2.43.0


From 1c2a59ee521a92e17524d30341cb22af0691819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 58/74] fix: cdd_loss left out half of the pairs of classes it
 averages over

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 80b3037..e0f2d24 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -284,7 +284,7 @@ def cdd_loss(
     intraclass = 0
     interclass = 0
     for c1 in range(n_classes):
-        for c2 in range(c1, n_classes):
+        for c2 in range(n_classes):
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-- 
2.43.0


From c8fd35df3c70c9d1f83516ad3b83a92321918842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 59/74] fix: cdd_loss mistook or refused batches without all
 the classes

---
 skada/deep/losses.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index e0f2d24..1ba250e 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -240,8 +240,6 @@ def cdd_loss(
            In Proceedings of the IEEE/CVF Conference on Computer Vision
            and Pattern Recognition (pp. 4893-4902).
     """
-    n_classes = len(y_s.unique())
-
     # Use pre-computed target_kmeans
     if type(target_kmeans) is not SphericalKMeans:
         raise ValueError(
@@ -249,6 +247,9 @@ def cdd_loss(
             "A fitted SphericalKMeans should be provided."
         )
 
+    # One cluster per class, whichever classes are in the batch
+    n_classes = len(target_kmeans.cluster_centers_)
+
     # Predict clusters for target samples
     cluster_labels_t = target_kmeans.predict(features_t)
 
@@ -326,9 +327,9 @@ def cdd_loss(
                 else:
                     interclass += e1 + e2 - 2 * e3
 
-    cdd = (intraclass / len(valid_classes)) - (
-        interclass / (len(valid_classes) ** 2 - len(valid_classes))
-    )
+    cdd = intraclass / n_classes
+    if n_classes > 1:
+        cdd = cdd - interclass / (n_classes**2 - n_classes)
 
     return cdd
 
-- 
2.43.0


From ad416af445a97fb23746278c54b9d80e652dd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 60/74] fix: deepjdot_loss required as many target as source
 samples

---
 skada/deep/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 1ba250e..621fe14 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -105,12 +105,12 @@ def deepjdot_loss(
     """
     dist = torch.cdist(features_s, features_t, p=2) ** 2
 
-    y_target_matrix = y_pred_t.repeat(len(y_pred_t), 1, 1).permute(1, 2, 0)
+    y_target_matrix = y_pred_t.repeat(len(y_s), 1, 1).permute(1, 2, 0)
 
     if criterion is None:
         criterion = torch.nn.CrossEntropyLoss(reduction="none")
 
-    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_s), 1)).T
+    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_pred_t), 1)).T
     M = reg_dist * dist + reg_cl * loss_target
 
     # Compute the loss
-- 
2.43.0


From e50b3d6eb579656ab6ca876e58a530fe6826d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 61/74] fix: assume_centered of the deep CORAL loss had no
 effect

---
 skada/deep/losses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 621fe14..b00a52c 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -44,8 +44,9 @@ def deepcoral_loss(features, features_target, assume_centered=False):
     if not assume_centered:
         features = features - features.mean(0)
         features_target = features_target - features_target.mean(0)
-    cov = torch.cov(features.T)
-    cov_target = torch.cov(features_target.T)
+    # torch.cov would always center
+    cov = features.T @ features / (len(features) - 1)
+    cov_target = features_target.T @ features_target / (len(features_target) - 1)
     divergence = mse_loss(cov, cov_target, reduction="sum")
     dim = features.shape[1]
     loss = (1 / (4 * (dim**2))) * divergence
-- 
2.43.0


From a93b14a74f3628726d0a004aa61b83cd9f299855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 62/74] fix: nap_loss excluded the whole batch from the
 neighbors of each sample

---
 skada/deep/losses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index b00a52c..1026149 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -501,7 +501,8 @@ def nap_loss(features_t, y_pred_t, memory_features, memory_outputs, sample_idx_t
         The number of nearest neighbors.
     """
     dis = torch.cdist(features_t.detach(), memory_features, p=2) ** 2
-    dis[..., sample_idx_t] = float("+inf")
+    # a sample is not its own neighbor
+    dis[torch.arange(len(dis)), sample_idx_t] = float("+inf")
 
     # Get top-K neighbors
     _, top_k_indices = torch.topk(-dis, k=K, dim=1)
-- 
2.43.0


From 3f0d5ad9d24ff11cb9c9f841d4b63b2bb61bd88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 63/74] fix: CAN added its callback to the list of the caller

---
 skada/deep/_divergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..5860149 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = callbacks + [ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
-- 
2.43.0


From e15c187a5edddf23cea444c61875c6788a938830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 64/74] fix: SPA added its callbacks to the list of the caller

---
 skada/deep/_graph_alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..73dc089 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = callbacks + [MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From 9e4d77f2c88fdbc1da40bb0e831b5edd20db9c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 65/74] fix: check_generator reseeded torch's global generator

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From cfd98a9ff4442031edd8dcbcdbaab52a49e526a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:29 +0000
Subject: [PATCH 66/74] fix: SphericalKMeans ignored its random_state

---
 skada/deep/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..fea4596 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,11 +160,12 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
+            indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters]
+            indices = indices.to(X.device)
             centroids = X[indices]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
@@ -198,8 +199,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From 629acbd14be8b065d06281a84467cc1d4818a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:40 +0000
Subject: [PATCH 67/74] fix: a deep net could not be cloned after fit

---
 skada/deep/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index fea4596..30524ee 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -22,6 +22,13 @@ class IntermediateLayerHook:
     def __call__(self, module, input, output):
         self.intermediate_layers[self.layer_name] = output.flatten(start_dim=1)
 
+    def __deepcopy__(self, memo):
+        # the features of the last batch are part of its graph, which cannot be
+        # copied: the copy starts without features, shared with the copy of the
+        # module that owns them, if any
+        intermediate_layers = memo.setdefault(id(self.intermediate_layers), {})
+        return IntermediateLayerHook(intermediate_layers, self.layer_name)
+
 
 def _register_forwards_hook(module, intermediate_layers, layer_names):
     """Add hook to chosen layers.
-- 
2.43.0


From d753f9e120a97da4eb603a1c8277f55055741c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:22 +0000
Subject: [PATCH 68/74] fix: predict_nonlinearity=None of a deep net raised
 NameError

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 281bf23..669d0bb 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -22,7 +22,7 @@ from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
 
 import numpy as np
-from skorch.utils import to_device
+from skorch.utils import _identity, to_device
 from skorch.utils import to_numpy, to_tensor
 from skorch.dataset import unpack_data, Dataset
 from collections.abc import Mapping
-- 
2.43.0


From 5216a5df50cd26a135b8e8f3d9ce60f858ab8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:52 +0000
Subject: [PATCH 69/74] fix: reweighting adapters refused ensembles (tested the
 truth value of an unfitted estimator)

---
 skada/_reweight.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 6743aad..553ebd7 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -95,7 +95,9 @@ class DensityReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, weight_estimator=None):
         super().__init__()
-        self.weight_estimator = weight_estimator or KernelDensity()
+        if weight_estimator is None:
+            weight_estimator = KernelDensity()
+        self.weight_estimator = weight_estimator
 
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
@@ -319,7 +321,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, domain_classifier=None):
         super().__init__()
-        self.domain_classifier = domain_classifier or LogisticRegression()
+        if domain_classifier is None:
+            domain_classifier = LogisticRegression()
+        self.domain_classifier = domain_classifier
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
-- 
2.43.0


From ecd37572355468ce1b4e3c5f6494cecef7337eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:52 +0000
Subject: [PATCH 70/74] fix: set_params of NearestNeighborReweightAdapter had
 no effect

---
 skada/_reweight.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 553ebd7..d8c5d62 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -757,7 +757,11 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    @property
+    def base_estimator(self):
+        # made from the current hyperparameters, so that set_params takes effect
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
-- 
2.43.0


From 5ea9d93863b86e0a24ee1ef37399f5450cb6057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 71/74] fix: pipelines of ClassRegularizerOTMapping shared one
 default SVC

---
 skada/_mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 60a4bc1..18b611a 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -426,6 +426,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From 953629c626ae7cf790b3fc22e5970ecf67622f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 72/74] fix: GradualEstimator instances shared one default
 ot_method

---
 skada/_gradual_da.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 7656558..b71f2fb 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -67,13 +67,7 @@ class GradualEstimator(DAEstimator):
         self,
         alpha=1,
         n_steps=10,
-        ot_method=da.SinkhornTransport(
-            reg_e=1.0,
-            metric="sqeuclidean",
-            norm=None,
-            max_iter=1000,
-            tol=1e-8,
-        ),
+        ot_method=None,
         base_estimator=None,
         advanced_ot_plan_sampling=False,
         save_estimators=False,
@@ -81,6 +75,14 @@ class GradualEstimator(DAEstimator):
     ):
         self.alpha = alpha
         self.n_steps = n_steps
+        if ot_method is None:
+            ot_method = da.SinkhornTransport(
+                reg_e=1.0,
+                metric="sqeuclidean",
+                norm=None,
+                max_iter=1000,
+                tol=1e-8,
+            )
         self.ot_method = ot_method
         self.base_estimator = base_estimator
         self.advanced_ot_plan_sampling = advanced_ot_plan_sampling
-- 
2.43.0


From e5256d72a2b40ff4b1ca58c9d508aa2b162228ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:08 +0000
Subject: [PATCH 73/74] fix: clones of JDOT estimators lost the parameters they
 pass on to the fit of their base estimator

---
 skada/_ot.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index 41f7017..9775d8a 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -572,6 +572,16 @@ class JDOTRegressor(DAEstimator):
         self.tol = tol
         self.verbose = verbose
 
+    def get_params(self, deep=True):
+        """Get the parameters, those passed on to the fit of base_estimator included"""
+        return {**super().get_params(deep=deep), **self.kwargs}
+
+    def set_params(self, **params):
+        """Set the parameters, those passed on to the fit of base_estimator included"""
+        for key in self.kwargs.keys() & params.keys():
+            self.kwargs[key] = params.pop(key)
+        return super().set_params(**params)
+
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
         Xs, Xt, ys, yt, ws, wt = source_target_split(
@@ -701,6 +711,16 @@ class JDOTClassifier(DAEstimator):
         self.verbose = verbose
         self.thr_weights = thr_weights
 
+    def get_params(self, deep=True):
+        """Get the parameters, those passed on to the fit of base_estimator included"""
+        return {**super().get_params(deep=deep), **self.kwargs}
+
+    def set_params(self, **params):
+        """Set the parameters, those passed on to the fit of base_estimator included"""
+        for key in self.kwargs.keys() & params.keys():
+            self.kwargs[key] = params.pop(key)
+        return super().set_params(**params)
+
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
         Xs, Xt, ys, yt, ws, wt = source_target_split(
-- 
2.43.0


From 1974963ec458156935b31b39459d808c858efe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:01 +0000
Subject: [PATCH 74/74] fix: GradualEstimator fitted the caller's ot_method in
 place

---
 skada/_gradual_da.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index b71f2fb..9fb7dfa 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -111,8 +111,9 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        self.ot_method_ = clone(self.ot_method)
+        self.ot_method_.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        gamma = self.ot_method_.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
-- 
2.43.0

