From aec1702f628771331304efb40d44b195cfe8b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 01/24] fix: resolve an omitted mean in `mean_var` and
 `marginals`

`Normal(var).marginals()` and `.mean_var` returned an unresolved scalar zero
mean unless `.mean` happened to have been accessed before.
---
 stheno/random.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..a1b1e4b 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -173,18 +173,10 @@ class Normal(RandomVector):
     @property
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
-        if self._mean is not None and self._var is not None:
-            return self._mean, self._var
-        elif self._mean is not None:
-            return self._mean, self.var
-        elif self._var is not None:
-            return self.mean, self._var
-        else:
+        if self._mean is None and self._var is None:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
-                self._resolve_mean(construct_zeros=True)
-                self._resolve_var()
-            return self.mean, self.var
+        return self.mean, self.var
 
     @property
     def dtype(self):
@@ -207,17 +199,10 @@ class Normal(RandomVector):
         Returns:
             tuple: A tuple containing the marginal means and marginal variances.
         """
-        if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
-        elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
-        elif self._var_diag is not None:
-            mean, var_diag = self.mean, self._var_diag
-        else:
+        if self._mean is None and self._var_diag is None:
             if self._construct_mean_var_diag is not None:
                 self._mean, self._var_diag = self._construct_mean_var_diag()
-                self._resolve_mean(construct_zeros=True)
-            mean, var_diag = self.mean, self.var_diag
+        mean, var_diag = self.mean, self.var_diag
         # It can happen that the variances are slightly negative due to numerical noise.
         # Prevent NaNs from the following square root by taking the maximum with zero.
         # Also strip away any matrix structure.
-- 
2.43.0


From bd1f3f3a6b0464385ab15ef4585565c27236e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 02/24] fix: split joint samples by the size of every
 distribution

`Measure.sample` split by the number of inputs, which is too short for
Cartesian products, so samples were truncated or given to the wrong block.
---
 stheno/model/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..a403a0e 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -438,7 +439,7 @@ class Measure:
         state, sample = self(combine(*fdds)).sample(state, n)
 
         # Unpack sample.
-        lengths = [num_elements(fdd) for fdd in fdds]
+        lengths = [infer_size(fdd.p.kernel, fdd.x) for fdd in fdds]
         i, samples = 0, []
         for length in lengths:
             samples.append(sample[..., i : i + length, :])
-- 
2.43.0


From 6cebfa0d5f59a85b181cd25330b23114a652813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 03/24] fix: keep the names of a measure when a rename is
 rejected

A GP lost its old name when renaming it to a name already taken failed.
---
 stheno/model/measure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index a403a0e..de4fe3d 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -76,17 +76,17 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
-- 
2.43.0


From ca9bdf5a1cc302c47f6bc0a68675013bb45e8c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 04/24] fix: restore the default measure when a measure is
 entered repeatedly

Entering a measure again before leaving it overwrote the default to restore,
so the measure stayed the default after the outermost block was left.
---
 stheno/model/measure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index de4fe3d..83af3c9 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -45,15 +45,15 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(Measure.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From 1559bad4e0482817ff3594cf0a54f850ca24fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 05/24] fix: combine processes in the order of their measures

The shared measures were iterated over as a set, so with enough posteriors the
measure of a sum, product, or Cartesian product could be a posterior rather than
the measure of the operands, depending on memory addresses.
---
 stheno/model/gp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..c5fbad7 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -32,11 +32,16 @@ def intersection_measure_group(*ps):
 
     Args:
         *ps (:class:`.gp.GP`): Processes.
+
+    Returns:
+        list[:class:`.measure.Measure`]: Shared measures, in the order of `ps[0]`. In
+            particular, the measure that the processes were constructed with is first.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
+    intersection = list(ps[0]._measures)
     for p in ps[1:]:
-        intersection &= set(p._measures)
+        measures = set(p._measures)
+        intersection = [measure for measure in intersection if measure in measures]
     return intersection
 
 
-- 
2.43.0


From 9977175e16e6f27d7781e6b7af2051a85b6cc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 06/24] fix: use the right rule given to `Measure.add_gp`

The argument was ignored.
---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 83af3c9..3f816b5 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -134,7 +134,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule=right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From 28eed56378b2342852b6228b1877248b9b4046d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 07/24] fix: check names before changing any measure

A GP constructed with a name already taken was added to the measure even though
an error was raised, and assigning a name taken in only some of the measures of a
GP renamed it in the others.
---
 stheno/model/gp.py      |  7 +++++++
 stheno/model/measure.py | 13 ++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index c5fbad7..01d9c74 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -91,6 +91,10 @@ class GP(RandomProcess):
         if isinstance(kernel, (B.Numeric, FunctionType)):
             kernel = kernel * OneKernel()
 
+        # If a name is given, check it before changing the measure.
+        if name:
+            measure._check_name(self, name)
+
         # Add a new `GP` to the measure with the resolved kernel and mean. The measure
         # will add itself to `self.measures`.
         measure.add_independent_gp(self, mean, kernel)
@@ -133,6 +137,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # First check all measures, so a rejected name changes none of them.
+        for measure in self._measures:
+            measure._check_name(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 3f816b5..88add0f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -76,11 +76,7 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
-        # Check that name is not in use by another GP.
-        if name in self._gps_by_name and self._gps_by_name[name] is not p:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
+        self._check_name(p, name)
 
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
@@ -91,6 +87,13 @@ class Measure:
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
 
+    def _check_name(self, p, name):
+        # Check that the name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     def _add_p(self, p):
         # Attach process to measure.
         self.ps.append(p)
-- 
2.43.0


From 918fa6b4df5ccac2923e77ac0395b62190e30962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 08/24] fix: infer the size of nested Cartesian products

A Cartesian product of Cartesian products had the wrong size at plain inputs, and
missing data in a Cartesian product observed together with another process was
split by the number of inputs rather than the number of outputs.
---
 stheno/mo/infer.py  | 5 ++++-
 stheno/mo/kernel.py | 4 +++-
 stheno/mo/mean.py   | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..6f056c5 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -42,7 +42,10 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    if isinstance(x.p, int):
+        # Only the `id` of the process is known, so assume a single output.
+        return Dimension(num_elements(x))
+    return infer_size(x.p.kernel, x.x)
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..3bcdc4e 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -78,7 +78,9 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    # The processes may be multi-output processes themselves.
+    ds = [dimensionality(k.measure.kernels[p]) for p in k.ps]
+    return None if None in ds else sum(ds)
 
 
 @_dispatch
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 6e9b6e4..e8b16a2 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -43,4 +43,6 @@ class MultiOutputMean(Mean):
 
 @_dispatch
 def dimensionality(m: MultiOutputMean):
-    return len(m.ps)
+    # The processes may be multi-output processes themselves.
+    ds = [dimensionality(m.measure.kernels[p]) for p in m.ps]
+    return None if None in ds else sum(ds)
-- 
2.43.0


From 4728c6e0e38499309c00ce1652f5c251b0271a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/24] fix: support structured variance diagonals in FDDs

The marginals of a process without variance, like p - p, raised an error.
---
 stheno/model/fdd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..2d02366 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -63,7 +63,9 @@ class FDD(Normal):
         self.noise = _noise_as_matrix(noise, B.dtype(x), infer_size(p.kernel, x))
 
         def var_diag():
-            return B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(self.noise))
+            # `B.squeeze` cannot handle structured matrices, e.g. `Zero`.
+            var_diag = B.dense(p.kernel.elwise(x))
+            return B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
 
         def mean_var():
             mean, var = mlkernels.mean_var(p.mean, p.kernel, x)
@@ -71,6 +73,7 @@ class FDD(Normal):
 
         def mean_var_diag():
             mean, var_diag = mlkernels.mean_var_diag(p.mean, p.kernel, x)
+            var_diag = B.dense(var_diag)
             return mean, B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
 
         Normal.__init__(
-- 
2.43.0


From 4cd84748d496bf0a30255faabb56509f5886e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 10/24] fix: handle missing data at scalar inputs

Taking from a scalar input, which is a single input, raised an error.
---
 stheno/model/fdd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 2d02366..4d545c9 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -137,7 +137,8 @@ def take(fdd: FDD, indices_or_mask: B.Numeric):
 
 @_dispatch
 def _take_x(k: Kernel, x: B.Numeric, mask: B.Numeric):
-    return B.take(x, mask)
+    # A scalar is a single input.
+    return B.take(B.uprank(x, rank=1), mask)
 
 
 @_dispatch
-- 
2.43.0


From a19262961a12ea15d15f54995737040e8969d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 11/24] fix: covariance of a function times a process with
 Cartesian products

---
 stheno/model/measure.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 88add0f..e259e96 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -3,7 +3,7 @@ from typing import Union
 
 from lab import B
 from matrix import Constant
-from mlkernels import TensorProductKernel, ZeroKernel, num_elements
+from mlkernels import TensorProductKernel, ZeroKernel
 
 from .. import PromisedMeasure, _dispatch
 from ..lazy import LazyMatrix, LazyVector
@@ -244,14 +244,18 @@ class Measure:
 
     @_dispatch
     def mul(self, p_mul: GP, p: GP, f: FunctionType):
-        def ones(x):
-            return Constant(B.one(x), num_elements(x), 1)
+        def left_rule(j):
+            def ones(x):
+                # Process `j` may have multiple outputs.
+                return Constant(B.one(x), infer_size(self.kernels[j], x), 1)
+
+            return TensorProductKernel(f, ones) * self.kernels[p, j]
 
         return self._update(
             p_mul,
             f * self.means[p],
             f * self.kernels[p],
-            lambda j: TensorProductKernel(f, ones) * self.kernels[p, j],
+            left_rule,
         )
 
     @_dispatch
-- 
2.43.0


From a584dce24e5b64e0f45acb0c45d455218ba37901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 12/24] fix: infer the size of Cartesian products after
 repeated conditioning

---
 stheno/model/observations.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index ebd9656..84842ff 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -5,6 +5,8 @@ from matrix import AbstractMatrix, Diagonal
 from mlkernels import PosteriorKernel, PosteriorMean, SubspaceKernel, num_elements
 
 from .. import _dispatch
+from ..mo import AmbiguousDimensionalityKernel as ADK
+from ..mo import dimensionality
 from .fdd import FDD
 from .gp import cross
 
@@ -47,6 +49,12 @@ def combine(*pairs: tuple):
     return combined_fdd, combined_y
 
 
+def _match_ambiguity(k, k_prior):
+    # If the dimensionality of the prior kernel is ambiguous, then the dimensionality of
+    # the posterior kernel also is. It cannot be inferred from the other kernels.
+    return ADK(k) if dimensionality(k_prior) is None else k
+
+
 class AbstractObservations:
     """Abstract base class for observations.
 
@@ -145,13 +153,14 @@ class Observations(AbstractObservations):
             # There are no observations! Just return prior.
             return measure.kernels[p_i, p_j]
 
-        return PosteriorKernel(
+        k = PosteriorKernel(
             measure.kernels[p_i, p_j],
             measure.kernels[self.fdd.p, p_i],
             measure.kernels[self.fdd.p, p_j],
             self.fdd.x,
             self.K_x(measure),
         )
+        return _match_ambiguity(k, measure.kernels[p_i, p_j])
 
     def posterior_mean(self, measure, p):
         if num_elements(self.fdd.x) == 0:
@@ -253,7 +262,7 @@ class AbstractPseudoObservations(AbstractObservations):
             return self._A[id(measure)]
 
     def posterior_kernel(self, measure, p_i, p_j):
-        return PosteriorKernel(
+        k = PosteriorKernel(
             measure.kernels[p_i, p_j],
             measure.kernels[self.u.p, p_i],
             measure.kernels[self.u.p, p_j],
@@ -265,6 +274,7 @@ class AbstractPseudoObservations(AbstractObservations):
             self.u.x,
             self.A(measure),
         )
+        return _match_ambiguity(k, measure.kernels[p_i, p_j])
 
     def posterior_mean(self, measure, p):
         return PosteriorMean(
-- 
2.43.0


From 6047f502208e57993882729e2b9c940a8d77365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:45 +0000
Subject: [PATCH 13/24] fix: reject conditioning on processes that a measure
 does not have

---
 stheno/model/measure.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index e259e96..23fd092 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -377,6 +377,15 @@ class Measure:
         Returns:
             list[:class:`.gp.GP`]: Posterior processes.
         """
+        # Check that this measure has all processes involved. Since the posterior is
+        # lazy, otherwise all processes would break only later.
+        fdds = [obs.fdd]
+        if isinstance(obs, AbstractPseudoObservations):
+            fdds.append(obs.u)
+        for fdd in fdds:
+            if id(fdd.p) not in self._pids:
+                raise RuntimeError(f'Process "{fdd.p}" is not part of the measure.')
+
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
-- 
2.43.0


From afedd15b4ae268e2fa1392aca06bf7ed718bbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 14/24] fix: covariances with Cartesian products created
 earlier

---
 stheno/model/measure.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 23fd092..0c11bd6 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -23,6 +23,13 @@ from .observations import (
 __all__ = ["Measure"]
 
 
+def _stack_kernel(mok, j):
+    # We transform the inputs with an FDD, which can completely change the shape.
+    # Therefore, we wrap the resulting kernel in `ADK` to indicate that its
+    # dimensionality cannot be inferred.
+    return ADK(mok.transform(None, lambda y: FDD(j, y)))
+
+
 class Measure:
     """A GP model.
 
@@ -41,6 +48,9 @@ class Measure:
         self.means = LazyVector()
         self.kernels = LazyMatrix()
 
+        # Store the multi-output kernels of Cartesian products by `id`.
+        self._moks = {}
+
         # Store named GPs in both ways.
         self._gps_by_name = {}
         self._names_by_gp = {}
@@ -107,10 +117,13 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, left_rule)
         if right_rule:
+            self.kernels.add_left_rule(id(p), self._pids, left_rule)
             self.kernels.add_right_rule(id(p), self._pids, right_rule)
         else:
+            self.kernels.add_left_rule(
+                id(p), self._pids, self._stack_products(p, left_rule)
+            )
             self.kernels.add_right_rule(
                 id(p), self._pids, lambda i: reversed(self.kernels[p, i])
             )
@@ -120,6 +133,16 @@ class Measure:
 
         return p
 
+    def _stack_products(self, p, left_rule):
+        # The covariance with a Cartesian product is the stack of the covariances with
+        # its processes. `left_rule` may not support the inputs of the product.
+        def rule(j):
+            if j in self._moks:
+                return reversed(_stack_kernel(self._moks[j], id(p)))
+            return left_rule(j)
+
+        return rule
+
     def add_gp(self, mean, kernel, left_rule, right_rule=None):
         """Add a new GP to the graph with a given mean function and kernel.
 
@@ -173,8 +196,12 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, lambda j: ZeroKernel())
-        self.kernels.add_right_rule(id(p), self._pids, lambda i: ZeroKernel())
+        self.kernels.add_left_rule(
+            id(p), self._pids, self._stack_products(p, lambda j: ZeroKernel())
+        )
+        self.kernels.add_right_rule(
+            id(p), self._pids, lambda i: reversed(self.kernels[p, i])
+        )
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
@@ -389,6 +416,7 @@ class Measure:
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
+        posterior._moks = {i: MOK(posterior, *mok.ps) for i, mok in self._moks.items()}
 
         posterior.means.add_rule(posterior._pids, lambda i: obs.posterior_mean(self, i))
         posterior.kernels.add_rule(
@@ -429,14 +457,12 @@ class Measure:
             :class:`.gp.GP`: The Cartesian product of `ps`.
         """
         mok = MOK(self, *ps)
+        self._moks[id(p_cross)] = mok
         return self._update(
             p_cross,
             MOM(self, *ps),
             mok,
-            # We transform the inputs with an FDD, which can completely change the
-            # shape. Therefore, we wrap the resulting kernel in `ADK` to indicate that
-            # its dimensionality cannot be inferred.
-            lambda j: ADK(mok.transform(None, lambda y: FDD(j, y))),
+            lambda j: _stack_kernel(mok, j),
         )
 
     @_dispatch
-- 
2.43.0


From 8fd18603471edfab5e75896be2caeaf33ae9e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 15/24] fix: zero covariance of independent processes with
 multi-output processes

---
 stheno/model/measure.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 0c11bd6..862538f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,7 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
-from ..mo import infer_size
+from ..mo import dimensionality, infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -194,10 +194,25 @@ class Measure:
         # Update means.
         self.means[p] = mean
 
+        def left_rule(j):
+            kernel_j = self.kernels[j]
+
+            if dimensionality(kernel_j) in {None, 1}:
+                return ZeroKernel()
+
+            # Process `j` has multiple outputs, so the zeros must be of the right shape.
+            def zeros(x):
+                return Constant(B.zero(x), infer_size(kernel, x), 1)
+
+            def ones(x):
+                return Constant(B.one(x), infer_size(kernel_j, x), 1)
+
+            return TensorProductKernel(zeros, ones)
+
         # Update kernels.
         self.kernels[p] = kernel
         self.kernels.add_left_rule(
-            id(p), self._pids, self._stack_products(p, lambda j: ZeroKernel())
+            id(p), self._pids, self._stack_products(p, left_rule)
         )
         self.kernels.add_right_rule(
             id(p), self._pids, lambda i: reversed(self.kernels[p, i])
-- 
2.43.0


From f556b9380a6d640e20046b6a4efc6d247abc039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:22 +0000
Subject: [PATCH 16/24] fix: unwrap inferred sizes for backends that need plain
 integers

---
 stheno/model/measure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 862538f..6c7764e 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -2,6 +2,7 @@ from types import FunctionType
 from typing import Union
 
 from lab import B
+from lab.shape import unwrap_dimension
 from matrix import Constant
 from mlkernels import TensorProductKernel, ZeroKernel
 
@@ -30,6 +31,11 @@ def _stack_kernel(mok, j):
     return ADK(mok.transform(None, lambda y: FDD(j, y)))
 
 
+def _size(k, x):
+    # Not all backends can deal with :class:`lab.shape.Dimension`s.
+    return unwrap_dimension(infer_size(k, x))
+
+
 class Measure:
     """A GP model.
 
@@ -202,10 +208,10 @@ class Measure:
 
             # Process `j` has multiple outputs, so the zeros must be of the right shape.
             def zeros(x):
-                return Constant(B.zero(x), infer_size(kernel, x), 1)
+                return Constant(B.zero(x), _size(kernel, x), 1)
 
             def ones(x):
-                return Constant(B.one(x), infer_size(kernel_j, x), 1)
+                return Constant(B.one(x), _size(kernel_j, x), 1)
 
             return TensorProductKernel(zeros, ones)
 
@@ -289,7 +295,7 @@ class Measure:
         def left_rule(j):
             def ones(x):
                 # Process `j` may have multiple outputs.
-                return Constant(B.one(x), infer_size(self.kernels[j], x), 1)
+                return Constant(B.one(x), _size(self.kernels[j], x), 1)
 
             return TensorProductKernel(f, ones) * self.kernels[p, j]
 
-- 
2.43.0


From ccd8010768b638c7f6c9a3ee38b1e22b0d5752d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 17/24] fix: let NumPy arrays on the left defer to random
 objects

---
 stheno/random.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stheno/random.py b/stheno/random.py
index a1b1e4b..c8ed80e 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -15,6 +15,9 @@ __all__ = ["Random", "RandomProcess", "RandomVector", "Normal"]
 class Random:
     """A random object."""
 
+    # Let NumPy arrays on the left defer to the operators below.
+    __array_ufunc__ = None
+
     def __radd__(self, other):
         return self + other
 
-- 
2.43.0


From bda425bdb265e544eff19556fa0dea7ea389767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 18/24] fix: scale a normal by a column vector

---
 stheno/random.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index c8ed80e..1e797e2 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -363,9 +363,11 @@ class Normal(RandomVector):
 
     @_dispatch
     def __mul__(self, other: B.Numeric):
+        # If `other` is a column vector, every element is scaled by its own factor.
+        other_t = other if B.is_scalar(other) else B.transpose(other)
         return Normal(
             B.multiply(self.mean, other),
-            B.multiply(self.var, B.multiply(other, other)),
+            B.multiply(self.var, B.multiply(other, other_t)),
         )
 
     def lmatmul(self, other):
-- 
2.43.0


From d8fd9692472def7324d018ea8a2d3da13968537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 19/24] fix: do not construct the variance for a zero mean if
 the diagonal suffices

---
 stheno/random.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 1e797e2..61d70bd 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -104,7 +104,12 @@ class Normal(RandomVector):
             zero_matrix = isinstance(self._mean, Zero)
             self._mean_is_zero = identically_zero or zero_matrix
         if identical(self._mean, 0) and construct_zeros:
-            self._mean = B.zeros(self.dtype, self.dim, 1)
+            if self._var is None and self._var_diag is not None:
+                # Do not construct the variance if its diagonal also does.
+                var_diag = self._var_diag
+                self._mean = B.zeros(B.dtype(var_diag), B.shape(var_diag, -1), 1)
+            else:
+                self._mean = B.zeros(self.dtype, self.dim, 1)
 
     def _resolve_var(self):
         if self._var is None:
@@ -205,7 +210,9 @@ class Normal(RandomVector):
         if self._mean is None and self._var_diag is None:
             if self._construct_mean_var_diag is not None:
                 self._mean, self._var_diag = self._construct_mean_var_diag()
-        mean, var_diag = self.mean, self.var_diag
+        # First resolve the diagonal of the variance: this might allow `self.mean` to
+        # avoid the full variance.
+        var_diag, mean = self.var_diag, self.mean
         # It can happen that the variances are slightly negative due to numerical noise.
         # Prevent NaNs from the following square root by taking the maximum with zero.
         # Also strip away any matrix structure.
@@ -231,7 +238,8 @@ class Normal(RandomVector):
         Returns:
             :class:`.Normal`: Diagonal version of the distribution.
         """
-        return Normal(self.mean, Diagonal(self.var_diag))
+        var_diag = self.var_diag
+        return Normal(self.mean, Diagonal(var_diag))
 
     def logpdf(self, x):
         """Compute the log-pdf.
-- 
2.43.0


From 1711cbf7e7d69913274f34054997493f43e7e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 20/24] fix: support structured means in divergences

---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 61d70bd..ee70111 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -298,7 +298,7 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            B.iqf_diag(other.var, B.dense(B.subtract(other.mean, self.mean)))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -319,7 +319,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 8866ebaedcf72aa5657906d988d329d8541cc3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 21/24] fix: format the numbers in the parts of multi-output
 means and kernels

---
 stheno/mo/kernel.py | 2 +-
 stheno/mo/mean.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 3bcdc4e..bb7894e 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -32,7 +32,7 @@ class MultiOutputKernel(Kernel):
         self.ps = ps
 
     def render(self, formatter):
-        ks = [str(self.measure.kernels[p]) for p in self.ps]
+        ks = [self.measure.kernels[p].display(formatter) for p in self.ps]
         return "MultiOutputKernel({})".format(", ".join(ks))
 
 
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index e8b16a2..9d7e6b5 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -37,7 +37,7 @@ class MultiOutputMean(Mean):
         return B.concat(*[self(xi) for xi in x], axis=-2)
 
     def render(self, formatter):
-        ms = [str(self.measure.means[p]) for p in self.ps]
+        ms = [self.measure.means[p].display(formatter) for p in self.ps]
         return "MultiOutputMean({})".format(", ".join(ms))
 
 
-- 
2.43.0


From daa9322028333ffaba15461b455d1e03ba4b007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 22/24] fix: element-wise covariances of sums of Cartesian
 products

---
 stheno/mo/kernel.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index bb7894e..898fcfd 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -61,14 +61,22 @@ def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
     return elwise(k, tuple(p(x) for p in k.ps), tuple(p(y) for p in k.ps))
 
 
+def _elwise_mixed(k, x, y):
+    # The process of the FDD can have multiple outputs, so the sizes may still agree.
+    pw = pairwise(k, x, y)
+    if B.shape(pw, -2) != B.shape(pw, -1):
+        raise ValueError('Unclear combination of arguments given to "elwise".')
+    return B.expand_dims(B.diag_extract(pw), axis=-1)
+
+
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: FDD, y: B.Numeric):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_mixed(k, x, y)
 
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: FDD):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_mixed(k, x, y)
 
 
 @elwise.dispatch
-- 
2.43.0


From e68e862174ae6c685e0bdab5e8f32b309fb2c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 23/24] fix: second moments and Wasserstein distances of
 batches of normals

---
 stheno/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index ee70111..6b6886b 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -199,7 +199,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return self.var + B.matmul(self.mean, self.mean, tr_b=True)
 
     def marginals(self):
         """Get the marginals.
@@ -319,7 +319,8 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        mean_diff = B.dense(B.subtract(self.mean, other.mean))
+        mean_part = B.sum(mean_diff[..., 0] ** 2, axis=-1)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 759dd080886971c9f54d808e7eac510e602c211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:12 +0000
Subject: [PATCH 24/24] fix: zero means of batches of normals

---
 stheno/random.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 6b6886b..943ed06 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -107,9 +107,10 @@ class Normal(RandomVector):
             if self._var is None and self._var_diag is not None:
                 # Do not construct the variance if its diagonal also does.
                 var_diag = self._var_diag
-                self._mean = B.zeros(B.dtype(var_diag), B.shape(var_diag, -1), 1)
+                self._mean = B.zeros(B.dtype(var_diag), *B.shape(var_diag), 1)
             else:
-                self._mean = B.zeros(self.dtype, self.dim, 1)
+                shape = B.shape_batch(self.var) + (self.dim, 1)
+                self._mean = B.zeros(self.dtype, *shape)
 
     def _resolve_var(self):
         if self._var is None:
-- 
2.43.0

