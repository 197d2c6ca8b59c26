From cfc24e07ff6d0dea937f98f2030d70872cf73d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 01/15] fix: keep free_default in the JSON form of every
 pattern

---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..0d5d657 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -376,7 +377,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -487,7 +488,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default}
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -639,7 +641,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..e38f6f2 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..e05356a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -130,7 +130,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -219,7 +220,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From 116a6e1f2a39053e8418b98930e8dc25d4ef7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 02/15] fix: dense simplex Jacobians are arrays, not matrices

---
 paragami/simplex_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index e05356a..aaf4fcd 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -195,7 +195,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
@@ -208,7 +208,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     @classmethod
     def from_json(cls, json_string):
-- 
2.43.0


From ad45f01a61c1aa100dae5c28cf4f81069afe1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 03/15] fix: validate_folded reports a wrong shape instead of
 raising

---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index e38f6f2..45a1efa 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -273,7 +273,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index aaf4fcd..1f2737e 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -148,7 +148,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From 7e916ef3224968f4f74c73c2b53c3d71957c2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 04/15] fix: simplex fold refuses values that are not 1d
 vectors

---
 paragami/simplex_patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 1f2737e..54b6258 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -161,6 +161,9 @@ class SimplexArrayPattern(Pattern):
 
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
+        flat_val = np.atleast_1d(flat_val)
+        if len(flat_val.shape) != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         flat_size = self.flat_length(free)
         if len(flat_val) != flat_size:
             raise ValueError('flat_val is the wrong length.')
-- 
2.43.0


From 0b31cfaeb140182d1bc7bb3cb1bf54d32b4e28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:52 +0000
Subject: [PATCH 05/15] fix: fold never returns a view of the caller's flat
 vector

---
 paragami/numeric_array_patterns.py | 3 ++-
 paragami/psdmatrix_patterns.py     | 4 +++-
 paragami/simplex_patterns.py       | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..3d48960 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -227,7 +227,8 @@ class NumericArrayPattern(Pattern):
                 _constrain_array(flat_val, self._lb, self._ub)
             return constrained_array.reshape(self._shape)
         else:
-            folded_val = flat_val.reshape(self._shape)
+            # For consistency, never return a reference.
+            folded_val = copy.copy(flat_val).reshape(self._shape)
             valid, msg = self.validate_folded(folded_val, validate_value)
             if not valid:
                 raise ValueError(msg)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 45a1efa..85014b8 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -310,7 +310,9 @@ class PSDSymmetricMatrixPattern(Pattern):
         if free:
             return _unpack_posdef_matrix(flat_val, diag_lb=self.__diag_lb)
         else:
-            folded_val = np.reshape(flat_val, (self.__size, self.__size))
+            # Never return a reference to the input.
+            folded_val = np.reshape(
+                np.array(flat_val), (self.__size, self.__size))
             valid, msg = self.validate_folded(folded_val, validate_value)
             if not valid:
                 raise ValueError(msg)
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 54b6258..f18ce2a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -171,7 +171,8 @@ class SimplexArrayPattern(Pattern):
             free_mat = np.reshape(flat_val, self.__free_shape)
             return _constrain_simplex_matrix(free_mat)
         else:
-            folded_val = np.reshape(flat_val, self.__shape)
+            # Never return a reference to the input.
+            folded_val = np.reshape(np.array(flat_val), self.__shape)
             valid, msg = self.validate_folded(folded_val, validate_value)
             if not valid:
                 raise ValueError(msg)
-- 
2.43.0


From 96a3db6296ed160822e0e2a1f63331035b909da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 06/15] fix: folding large free values stays finite and within
 two-sided bounds

---
 paragami/numeric_array_patterns.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 3d48960..d0c319a 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -72,8 +72,7 @@ def _constrain_array_jacobian(free_array, lb, ub):
         else:
             # d/dx exp(x) / (1 + exp(x)) =
             #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
-            ratio = exp_vec / (1 + exp_vec)
+            ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))
             return (ub - lb) * ratio * (1 - ratio)
 
 
@@ -107,8 +106,10 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # Written so that large values neither overflow nor round past
+            # the bounds.
+            ratio = np.exp(-1 * np.logaddexp(0, -1 * free_array))
+            return np.clip((ub - lb) * ratio + lb, lb, ub)
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From 190bba6368a3211eec311a0bb0f61c9ffda85f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 07/15] fix: a pattern dictionary refuses a non-pattern without
 changing

---
 paragami/pattern_containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 0d5d657..2b557e8 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -219,6 +219,10 @@ class PatternDict(Pattern):
         # if pattern_name in self.__pattern_dict.keys():
         #     self.__delitem__(pattern_name)
 
+        # Refuse anything else before changing the dictionary.
+        if not isinstance(pattern, Pattern):
+            raise ValueError('Members of a PatternDict must be patterns.')
+
         self.__pattern_dict[pattern_name] = pattern
 
         # We cannot allow pattern dictionaries to change their size
-- 
2.43.0


From fc7902c9c379b1a884da44993a5321edcc1a828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/15] fix: lock members that are instances of a PatternDict
 subclass too

---
 paragami/pattern_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 2b557e8..ba2b6c6 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -230,7 +230,7 @@ class PatternDict(Pattern):
         # since we have no way of updating the parent dictionary's size.
         # To avoid unexpected errors, lock any dictionary that is set as
         # a member.
-        if type(self.__pattern_dict[pattern_name]) is PatternDict:
+        if isinstance(self.__pattern_dict[pattern_name], PatternDict):
             self.__pattern_dict[pattern_name].lock()
 
         self._free_flat_length = self._update_flat_length(free=True)
-- 
2.43.0


From a01c5de2f8713cdaf3f1e4b5300c3271b2c11923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 09/15] fix: name the unregistered pattern in the JSON error
 message

---
 paragami/pattern_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index ba2b6c6..7407d8b 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -73,8 +73,8 @@ def get_pattern_from_json(pattern_json):
     if not json_pattern_name in __json_patterns.keys():
         err_string = (
             'Before converting from JSON, the pattern {} must be ' +
-            'registered with ``register_pattern_json``.'.format(
-                json_pattern_name))
+            'registered with ``register_pattern_json``.').format(
+                json_pattern_name)
         raise KeyError(err_string)
     return __json_patterns[json_pattern_name].from_json(pattern_json)
 
-- 
2.43.0


From 2be93c98b287f1701c0da290fcd75761665dd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 10/15] fix: retnums that do not match the return values raise
 a ValueError for any callable

---
 paragami/function_patterns.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index c10a421..13560eb 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -219,10 +219,10 @@ class TransformFunctionOutput:
         # parameters with their transformed values.
         rets = self._fun(*args, **kwargs)
         if not isinstance(rets, tuple):
-            if not self._retnums == [0]:
-                err_msg = ('{} returned only one value, but multiple' +
-                           'retnums were specified: {}'.format(
-                            self._fun.__name__, self._retnums))
+            if not np.array_equal(self._retnums, [0]):
+                err_msg = ('{} returned only one value, but multiple ' +
+                           'retnums were specified: {}').format(
+                            self._fun, self._retnums)
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 return self._patterns[0].fold(rets, free=self.free[0])
@@ -235,11 +235,11 @@ class TransformFunctionOutput:
         for i in self._retnum_sort:
             retnum = self._retnums[i]
             if len(rets) <= retnum:
-                err_msg = ('Not enough return values in {} ({}) for' +
-                           'specified retnums {}.'.format(
-                            self._fun.__name__,
+                err_msg = ('Not enough return values in {} ({}) for ' +
+                           'specified retnums {}.').format(
+                            self._fun,
                             len(rets),
-                            self._retnums))
+                            self._retnums)
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 new_ret = \
-- 
2.43.0


From bbca5879b09c7eb9d2d8007a7b88e9c7a433054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 11/15] fix: pattern array shape messages report expected and
 actual the right way round

---
 paragami/pattern_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 7407d8b..67b64eb 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -515,12 +515,12 @@ class PatternArray(Pattern):
             return \
                 False, \
                 'Wrong number of dimensions.  Expected {}, got {}.'.format(
-                    folded_val.ndim, len(self.__shape))
+                    len(self.__shape), folded_val.ndim)
         if folded_val.shape != self.__shape:
             return \
                 False, \
                 'Wrong shape.  Expected {}, got {}.'.format(
-                    folded_val.shape, self.__shape)
+                    self.__shape, folded_val.shape)
         for item in itertools.product(*self.__array_ranges):
             valid, msg = self.__base_pattern.validate_folded(
                 folded_val[item], validate_value=validate_value)
-- 
2.43.0


From cc62d91784feadfee602b1c095b592b4844ea0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 12/15] fix: an empty pattern dictionary has integer length and
 flattens to an empty vector

---
 paragami/pattern_containers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 67b64eb..37266bc 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -322,13 +322,16 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
+        if len(flat_vals) == 0:
+            return np.array([])
         return np.hstack(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        return int(np.sum([pattern.flat_length(free)
+                           for pattern_name, pattern in
+                           self.__pattern_dict.items()]))
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
-- 
2.43.0


From 9cdb7c4cb06af49fd2648785b34f8e8d406aeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 13/15] fix: dictionary flat_names passes its own default mode
 to its members

---
 paragami/pattern_containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 37266bc..41b8983 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -414,6 +414,7 @@ class PatternDict(Pattern):
             return np.array([], dtype=int)
 
     def flat_names(self, free, delim='_'):
+        free = self._free_with_default(free)
         flat_names_list = []
         for pattern_name, pattern in self.__pattern_dict.items():
             pattern_flat_names = pattern.flat_names(free)
-- 
2.43.0


From 49a3a6c0355339ae938feac1baaf3365eb2619bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 14/15] fix: the optimization log keeps its own copy of the
 argument

---
 paragami/optimization_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..32d9e31 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -458,7 +458,7 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From d3e9dc77b0bfb6c82fd5adf444717e0e2e446482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 15/15] fix: gradients of grouped_sum accept the same groups as
 the function

---
 paragami/autograd_supplement_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 75d47fe..062eeaf 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -225,6 +225,8 @@ def grouped_sum(x, groups, num_groups=None):
     return result
 
 def _ungroup(v, groups):
+    # Interpret the groups just as ``grouped_sum`` does.
+    groups = np.atleast_1d(groups).astype('int64')
     if v.ndim > 1:
         return v[groups, :]
     else:
-- 
2.43.0

