From 6107116d62161900a215443485ad145074df1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 01/30] fix: use the real part of the trace as inner product of
 the unitary group

---
 src/pymanopt/manifolds/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 1c4f24d..4222343 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -32,7 +32,7 @@ class _UnitaryBase(RiemannianSubmanifold):
             tangent_vector_a.conj(),
             tangent_vector_b,
             axes=tangent_vector_a.ndim,
-        )
+        ).real
 
     def norm(self, point, tangent_vector):
         return np.linalg.norm(tangent_vector)
-- 
2.43.0


From 72a65b6dba6aa186aa076c61e7b552bcd863eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 02/30] fix: project on skew-Hermitian matrices on the unitary
 group

---
 src/pymanopt/manifolds/group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 4222343..831d4ee 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -9,7 +9,6 @@ from pymanopt.tools.multi import (
     multiherm,
     multilogm,
     multiqr,
-    multiskew,
     multiskewh,
     multitransp,
 )
@@ -45,7 +44,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return self.norm(point_a, self.log(point_a, point_b))
 
     def projection(self, point, vector):
-        return multiskew(multihconj(point) @ vector)
+        return multiskewh(multihconj(point) @ vector)
 
     def to_tangent_space(self, point, vector):
         return multiskewh(vector)
-- 
2.43.0


From dfa42f462898090ea5599c47b9879fa35a810117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 03/30] fix: correct the sign of the Lyapunov equation of the
 elliptope projection

---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index f01dc72..d8724f6 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -233,7 +233,7 @@ class Elliptope(Manifold, RetrAsExpMixin):
         eta = self._project_rows(point, vector)
         YtY = point.T @ point
         AS = point.T @ eta - vector.T @ point
-        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, -AS)
+        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, AS)
         return eta - point @ (Omega - Omega.T) / 2
 
     to_tangent_space = projection
-- 
2.43.0


From 24369ade956b71b05e1b5f30c78aed18751643dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 04/30] fix: re-tangentialize on (skew-)symmetric matrices with
 their own projection

---
 src/pymanopt/manifolds/euclidean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/euclidean.py b/src/pymanopt/manifolds/euclidean.py
index 5a78720..4b63b01 100644
--- a/src/pymanopt/manifolds/euclidean.py
+++ b/src/pymanopt/manifolds/euclidean.py
@@ -33,7 +33,8 @@ class _Euclidean(RiemannianSubmanifold):
     def projection(self, point, vector):
         return vector
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
-- 
2.43.0


From 7231a9da8c0974b3b70fb7ef6f262f11f3fe33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 05/30] fix: re-tangentialize on sphere-subspace intersections
 with their own projection

---
 src/pymanopt/manifolds/sphere.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 74871a6..80e5467 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -32,7 +32,8 @@ class _SphereBase(RiemannianSubmanifold):
     def projection(self, point, vector):
         return vector - self.inner_product(point, point, vector) * point
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def weingarten(self, point, tangent_vector, normal_vector):
         return (
-- 
2.43.0


From 9563bb7feb88f44277f33233e645d5a4567e0008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 06/30] fix: re-tangentialize on unit-determinant matrices with
 their own projection

---
 src/pymanopt/manifolds/positive_definite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index b30cca1..9673e76 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -49,7 +49,8 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
     def projection(self, point, vector):
         return multiherm(vector)
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self.projection(point, point @ euclidean_gradient @ point)
-- 
2.43.0


From ee56a03f2a1c538a92c10a33d15f39948e5b2fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 07/30] fix: transpose the core factor of ambient vectors on
 the fixed-rank manifold

---
 src/pymanopt/manifolds/fixed_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 74901c3..3e2c4f8 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -85,7 +85,7 @@ class FixedRankEmbedded(RiemannianSubmanifold):
 
     def _apply_ambient_transpose(self, vector, matrix):
         if isinstance(vector, (list, tuple)):
-            return vector[2] @ vector[1] @ vector[0].T @ matrix
+            return vector[2] @ vector[1].T @ vector[0].T @ matrix
         return vector.T @ matrix
 
     def projection(self, point, vector):
-- 
2.43.0


From 94fc04e1314f424628bc3cb1ef8f6da5723ff8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 08/30] fix: keep the imaginary part in the exponential map of
 the complex circle

---
 src/pymanopt/manifolds/complex_circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 629b13b..83954b3 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -58,7 +58,7 @@ class ComplexCircle(RiemannianSubmanifold):
         tangent_vector_abs = np.abs(tangent_vector)
         mask = tangent_vector_abs > 0
         not_mask = np.logical_not(mask)
-        tangent_vector_new = np.zeros(self._dimension)
+        tangent_vector_new = np.zeros(self._dimension, dtype=complex)
         tangent_vector_new[mask] = point[mask] * np.cos(
             tangent_vector_abs[mask]
         ) + tangent_vector[mask] * (
-- 
2.43.0


From bcd6afb63e79b5e3f885d4b03ee34f976441a5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 09/30] fix: determine sphere-subspace dimensions from an
 orthonormal basis of the span

---
 src/pymanopt/manifolds/sphere.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 80e5467..f6c3336 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -1,6 +1,7 @@
 import warnings
 
 import numpy as np
+import scipy.linalg
 
 from pymanopt.manifolds.manifold import RiemannianSubmanifold
 from pymanopt.tools import extend_docstring
@@ -163,9 +164,9 @@ class SphereSubspaceIntersection(_SphereSubspaceIntersectionManifold):
     def __init__(self, matrix):
         self._validate_span_matrix(matrix)
         m = matrix.shape[0]
-        q, _ = np.linalg.qr(matrix)
+        q = scipy.linalg.orth(matrix)
         projector = q @ q.T
-        subspace_dimension = np.linalg.matrix_rank(projector)
+        subspace_dimension = q.shape[1]
         name = (
             f"Sphere manifold of {m}-dimensional vectors intersecting a "
             f"{subspace_dimension}-dimensional subspace"
@@ -192,9 +193,9 @@ class SphereSubspaceComplementIntersection(
     def __init__(self, matrix):
         self._validate_span_matrix(matrix)
         m = matrix.shape[0]
-        q, _ = np.linalg.qr(matrix)
+        q = scipy.linalg.orth(matrix)
         projector = np.eye(m) - q @ q.T
-        subspace_dimension = np.linalg.matrix_rank(projector)
+        subspace_dimension = m - q.shape[1]
         name = (
             f"Sphere manifold of {m}-dimensional vectors orthogonal "
             f"to a {subspace_dimension}-dimensional subspace"
-- 
2.43.0


From 905b751a1b8578312a8283e5e11ccf8f9d6d7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 10/30] fix: make in-place addition and scaling of product
 tangent vectors act component-wise

---
 src/pymanopt/manifolds/product.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 28f93b1..c3cfd52 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -138,6 +138,9 @@ class _ProductTangentVector(ndarraySequenceMixin, list):
             raise ValueError("Arguments must be same length")
         return [v + other[k] for k, v in enumerate(self)]
 
+    # Without this, ``+=`` extends the underlying list.
+    __iadd__ = __add__
+
     @return_as_class_instance(unpack=False)
     def __sub__(self, other):
         if len(self) != len(other):
@@ -149,6 +152,8 @@ class _ProductTangentVector(ndarraySequenceMixin, list):
         return [other * val for val in self]
 
     __rmul__ = __mul__
+    # Without this, ``*=`` repeats the underlying list.
+    __imul__ = __mul__
 
     @return_as_class_instance(unpack=False)
     def __truediv__(self, other):
-- 
2.43.0


From 55f54864082adfe2f47779b90b78104711800ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 11/30] fix: accept unpacked derivatives of products with a
 single component

---
 src/pymanopt/core/problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index bb71ca3..9cf3c0d 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -147,6 +147,12 @@ class Problem:
         @functools.wraps(function)
         def wrapper(*args, **kwargs):
             return_values = function(*args, **kwargs)
+            if num_return_values == 1 and not isinstance(
+                return_values, (list, tuple)
+            ):
+                # Backends unpack the return value of operators on functions
+                # with a single argument.
+                return_values = [return_values]
             if not isinstance(return_values, (list, tuple)):
                 raise ValueError("Function returned an unexpected value")
             if len(return_values) != num_return_values:
-- 
2.43.0


From 86757d17467e0534614705d32f94f170f7964502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 12/30] fix: accept initial simplices of the right size in
 NelderMead instead of rejecting them

---
 src/pymanopt/optimizers/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 609cc83..4801195 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -100,7 +100,7 @@ class NelderMead(Optimizer):
             x = [manifold.random_point() for _ in range(num_points)]
         elif (
             tools.is_sequence(initial_point)
-            and len(initial_point) != num_points
+            and len(initial_point) == num_points
         ):
             x = initial_point
         else:
-- 
2.43.0


From bd97c3686fcc7228979756178d68a19e5aa14f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 13/30] fix: evaluate the particles of a swarm at their new
 positions

---
 src/pymanopt/optimizers/particle_swarm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 9f9fb56..ab801f0 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -184,7 +184,8 @@ class ParticleSwarm(Optimizer):
             # Update positions, personal bests and global best.
             for i, xi in enumerate(x):
                 # Compute new position of particle i.
-                x[i] = manifold.retraction(xi, v[i])
+                xi = manifold.retraction(xi, v[i])
+                x[i] = xi
                 # Compute new cost of particle i.
                 fxi = objective(xi)
 
-- 
2.43.0


From f831b5ff82aba5c519ff9a5cd7be93486264301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 14/30] fix: leave the caller's initial population unchanged in
 ParticleSwarm

---
 src/pymanopt/optimizers/particle_swarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index ab801f0..dc515a7 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -81,7 +81,7 @@ class ParticleSwarm(Optimizer):
                     "the given initial population"
                 )
                 self._population_size = len(initial_point)
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
 
-- 
2.43.0


From bf30a97cec2f4e1b7d128dc1f167fa6484ad68a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 15/30] fix: do not make an uncounted cost evaluation at the
 end of NelderMead

---
 src/pymanopt/optimizers/nelder_mead.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 4801195..3e42e97 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -225,12 +225,10 @@ class NelderMead(Optimizer):
                 costs[i] = objective(x[i])
             cost_evaluations += dim
 
-        x = x[0]
-        cost = objective(x)
         return self._return_result(
             start_time=start_time,
-            point=x,
-            cost=cost,
+            point=x[0],
+            cost=costs[0],
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=cost_evaluations,
-- 
2.43.0


From fab96e4457c14b960baf35f2e281beaf2d6b543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 16/30] fix: do not carry dimension-dependent defaults of
 derivative-free optimizers over to later runs

---
 src/pymanopt/optimizers/nelder_mead.py    | 6 ++++--
 src/pymanopt/optimizers/particle_swarm.py | 9 ++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 3e42e97..bf68346 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -62,8 +62,8 @@ class NelderMead(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._reflection = reflection
         self._expansion = expansion
         self._contraction = contraction
@@ -89,8 +89,10 @@ class NelderMead(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(1000, 2 * dim)
+        self._max_iterations = self._requested_max_iterations
         if self._max_iterations is None:
             self._max_iterations = max(2000, 4 * dim)
 
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index dc515a7..313828b 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -33,9 +33,9 @@ class ParticleSwarm(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
-        self._population_size = population_size
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
+        self._requested_population_size = population_size
         self._nostalgia = nostalgia
         self._social = social
 
@@ -60,10 +60,13 @@ class ParticleSwarm(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(5000, 2 * dim)
+        self._max_iterations = self._requested_max_iterations
         if self._max_iterations is None:
             self._max_iterations = max(500, 4 * dim)
+        self._population_size = self._requested_population_size
         if self._population_size is None:
             self._population_size = min(40, 10 * dim)
 
-- 
2.43.0


From 61bb539798e3a3eceaaac701bcf5bcb07e36f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 17/30] fix: allow trust-region subproblems without inner
 iterations

---
 src/pymanopt/optimizers/trust_regions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ef199d0..c8daaa3 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -496,6 +496,7 @@ class TrustRegions(Optimizer):
 
         # Pre-assume termination because j == end.
         stop_tCG = self.MAX_INNER_ITER
+        j = 0
 
         # Begin inner/tCG loop.
         for j in range(int(maxinner)):
-- 
2.43.0


From fdc79ec71fac9ee6823d4a104fbdbcc215a87ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:46 +0000
Subject: [PATCH 18/30] fix: use the fallback of the Hestenes-Stiefel rule when
 its denominator vanishes

---
 src/pymanopt/optimizers/conjugate_gradient.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index b9fe6ef..51f48a7 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -61,15 +61,13 @@ def _beta_hestenes_stiefel(
     descent_direction,
 ):
     diff = newgrad - oldgrad
-    try:
-        beta = max(
-            0,
-            manifold.inner_product(newx, Pnewgrad, diff)
-            / manifold.inner_product(newx, diff, descent_direction),
-        )
-    except ZeroDivisionError:
-        beta = 1
-    return beta
+    denominator = manifold.inner_product(newx, diff, descent_direction)
+    # Divisions of numpy scalars by zero don't raise a ZeroDivisionError.
+    if denominator == 0:
+        return 1
+    return max(
+        0, manifold.inner_product(newx, Pnewgrad, diff) / denominator
+    )
 
 
 def _beta_hager_zhang(
-- 
2.43.0


From 977c08f7ebe31fc902231dd7eaeb43a88e51d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:10 +0000
Subject: [PATCH 19/30] fix: stop the trust-region subproblem when its residual
 vanishes

---
 src/pymanopt/optimizers/trust_regions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index c8daaa3..1588fd2 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -500,6 +500,15 @@ class TrustRegions(Optimizer):
 
         # Begin inner/tCG loop.
         for j in range(int(maxinner)):
+            # If the residual vanishes, eta already minimizes the model and
+            # there is no direction left to move along.
+            if z_r == 0:
+                if kappa < norm_r0**theta:
+                    stop_tCG = self.REACHED_TARGET_LINEAR
+                else:
+                    stop_tCG = self.REACHED_TARGET_SUPERLINEAR
+                break
+
             # This call is the computationally intensive step
             Hdelta = hess(x, delta)
 
-- 
2.43.0


From be9b8364f8f29f127a901c5e5be17cac99c7fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 20/30] fix: return user-defined Riemannian derivatives as
 tangent vectors of composite manifolds

---
 src/pymanopt/core/problem.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index 9cf3c0d..09ec8fa 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -90,13 +90,13 @@ class Problem:
         self._euclidean_hessian = euclidean_hessian
 
         if riemannian_gradient is not None:
-            riemannian_gradient = self._wrap_gradient_operator(
-                riemannian_gradient
+            riemannian_gradient = self._wrap_tangent_vector_function(
+                self._wrap_gradient_operator(riemannian_gradient)
             )
         self._riemannian_gradient = riemannian_gradient
         if riemannian_hessian is not None:
-            riemannian_hessian = self._wrap_hessian_operator(
-                riemannian_hessian
+            riemannian_hessian = self._wrap_tangent_vector_function(
+                self._wrap_hessian_operator(riemannian_hessian)
             )
         self._riemannian_hessian = riemannian_hessian
 
@@ -242,6 +242,21 @@ class Problem:
             hvp = wrapper
         return hvp
 
+    def _wrap_tangent_vector_function(self, function):
+        """Decorator to return the manifold's own type of tangent vectors.
+
+        User-defined functions return composite tangent vectors as plain
+        sequences, which do not support the arithmetic of tangent vectors.
+        """
+        if self.manifold.point_layout == 1:
+            return function
+
+        @functools.wraps(function)
+        def wrapper(point, *args):
+            return self.manifold.zero_vector(point) + function(point, *args)
+
+        return wrapper
+
     @property
     def cost(self):
         return self._cost
-- 
2.43.0


From 6b6c783146246325770abb05b2c2d12a0e16cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 21/30] fix: compute centroids on products with a single
 component

---
 src/pymanopt/optimizers/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index bf68346..3d2a297 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -13,13 +13,13 @@ def compute_centroid(manifold, points):
 
     @pymanopt.function.numpy(manifold)
     def objective(*y):
-        if manifold.num_values == 1:
+        if manifold.point_layout == 1:
             (y,) = y
         return sum([manifold.dist(y, point) ** 2 for point in points]) / 2
 
     @pymanopt.function.numpy(manifold)
     def gradient(*y):
-        if manifold.num_values == 1:
+        if manifold.point_layout == 1:
             (y,) = y
         return -sum(
             [manifold.log(y, point) for point in points],
-- 
2.43.0


From e23f5ad9547e1715a1ebe31f17d6bda9313a1fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 22/30] fix: report the number of cost evaluations made by
 line-search optimizers

---
 src/pymanopt/optimizers/conjugate_gradient.py | 10 ++++++++--
 src/pymanopt/optimizers/steepest_descent.py   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 51f48a7..68589ee 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -202,7 +202,13 @@ class ConjugateGradient(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         gradient = problem.riemannian_gradient
 
         if not reuse_line_searcher or self.line_searcher is None:
@@ -355,7 +361,7 @@ class ConjugateGradient(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index eabc4ef..923a935 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -51,7 +51,13 @@ class SteepestDescent(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         gradient = problem.riemannian_gradient
 
         if not reuse_line_searcher or self.line_searcher is None:
@@ -132,7 +138,7 @@ class SteepestDescent(Optimizer):
             cost=objective(x),
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
-- 
2.43.0


From 8e3ffedc736ae2c37a859f3542e7283386a3c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 23/30] fix: line searches divided by the norm of a vanishing
 search direction

---
 src/pymanopt/optimizers/line_search.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 94dc725..a7d803c 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -35,6 +35,10 @@ class BackTrackingLineSearcher:
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
 
+        # There is nowhere to go along a vanishing direction.
+        if norm_d == 0:
+            return 0.0, x
+
         if self._oldf0 is not None:
             # Pick initial step size based on where we were last time.
             alpha = 2 * (f0 - self._oldf0) / df0
@@ -95,6 +99,10 @@ class AdaptiveLineSearcher:
     def search(self, objective, manifold, x, d, f0, df0):
         norm_d = manifold.norm(x, d)
 
+        # There is nowhere to go along a vanishing direction.
+        if norm_d == 0:
+            return 0.0, x
+
         if self._oldalpha is not None:
             alpha = self._oldalpha
         else:
-- 
2.43.0


From 15e5a0ac7c0113e3e7a3e48186dbdfa21cbe55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 24/30] fix: distances and logarithms on the complex circle
 were NaN at coincident points

---
 src/pymanopt/manifolds/complex_circle.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 83954b3..4fe6adc 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -34,7 +34,7 @@ class ComplexCircle(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        return np.linalg.norm(np.arccos((point_a.conj() * point_b).real))
+        return np.linalg.norm(np.angle(point_a.conj() * point_b))
 
     @property
     def typical_dist(self):
@@ -71,12 +71,7 @@ class ComplexCircle(RiemannianSubmanifold):
         return self._normalize(point + tangent_vector)
 
     def log(self, point_a, point_b):
-        v = self.projection(point_a, point_b - point_a)
-        abs_v = np.abs(v)
-        di = np.arccos((point_a.conj() * point_b).real)
-        factors = di / abs_v
-        factors[di <= 1e-6] = 1
-        return v * factors
+        return 1j * np.angle(point_a.conj() * point_b) * point_a
 
     def random_point(self):
         dimension = self._dimension
-- 
2.43.0


From 74114120a17f40a070b36baaa1fbb027068e81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 25/30] fix: oblique distances and logarithms were NaN at
 coincident or antipodal columns

---
 src/pymanopt/manifolds/oblique.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 16fd33e..13e9fc7 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -37,8 +37,7 @@ class Oblique(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        XY = (point_a * point_b).sum(0)
-        XY[XY > 1] = 1
+        XY = np.clip((point_a * point_b).sum(0), -1, 1)
         return np.linalg.norm(np.arccos(XY))
 
     def projection(self, point, vector):
@@ -66,7 +65,7 @@ class Oblique(RiemannianSubmanifold):
 
     def log(self, point_a, point_b):
         vector = self.projection(point_a, point_b - point_a)
-        distances = np.arccos((point_a * point_b).sum(0))
+        distances = np.arccos(np.clip((point_a * point_b).sum(0), -1, 1))
         norms = np.sqrt((vector**2).sum(0)).real
         # Try to avoid zero-division when both distances and norms are almost
         # zero.
-- 
2.43.0


From b2a9fdecf873034b5c0d4b8e00ca0aba741b8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 26/30] fix: logarithm of the Poincare ball divided by zero at
 coincident points

---
 src/pymanopt/manifolds/hyperbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index f343146..e038eae 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,7 +144,9 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return np.arctanh(norm_w) * w / norm_w / (factor / 2)
+        return (
+            np.arctanh(norm_w) * w / (norm_w + (norm_w == 0)) / (factor / 2)
+        )
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
-- 
2.43.0


From 8a55a825ac0d5b741e993b1eb039df957d2116ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 27/30] fix: PyTorch Hessian-vector products with unused
 arguments and affine costs

---
 src/pymanopt/autodiff/backends/_pytorch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index d72517e..fe1e771 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -83,10 +83,15 @@ class PyTorchBackend(Backend):
             )
             dot_product = 0
             for gradient, vector in zip(gradients, vectors):
+                # The function does not depend on the argument.
+                if gradient is None:
+                    continue
                 dot_product += torch.tensordot(
                     gradient.conj(), vector, dims=gradient.ndim
                 ).real
-            dot_product.backward()
+            # The gradient of an affine function is constant.
+            if dot_product.requires_grad:
+                dot_product.backward()
             return self._sanitize_gradients(arguments)
 
         if num_arguments == 1:
-- 
2.43.0


From 24ebf4403cb8eeaed0a8dd410d9261af39d0db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 28/30] fix: TensorFlow Hessian-vector products with unused
 arguments

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index bbd08f2..9f82bc4 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -65,7 +65,11 @@ class TensorFlowBackend(Backend):
             ) as accumulator:
                 for argument in arguments:
                     tape.watch(argument)
-                gradients = tape.gradient(function(*arguments), arguments)
+                gradients = tape.gradient(
+                    function(*arguments),
+                    arguments,
+                    unconnected_gradients=tf.UnconnectedGradients.ZERO,
+                )
             return self._sanitize_gradients(
                 arguments, accumulator.jvp(gradients)
             )
-- 
2.43.0


From 0c7374872682f4fae178d3b7002a0efbb2265cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 29/30] fix: check_retraction reports a missing distance map

---
 src/pymanopt/tools/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index c6512c2..d7cfcb6 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -313,10 +313,10 @@ def check_retraction(manifold, point=None, tangent_vector=None):
             f"The manifold '{manifold_class}' provides no retraction"
         ) from None
     try:
-        manifold.retraction(point, tangent_vector)
+        manifold.dist(point, point)
     except NotImplementedError:
         raise RuntimeError(
-            f"This manifold '{manifold_class}'provides no distance map which "
+            f"This manifold '{manifold_class}' provides no distance map which "
             "is required to run this check"
         ) from None
 
-- 
2.43.0


From 569f0f1eb1cffba6b508168d0b9674df7baf4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 30/30] fix: trust-region subproblem left the trust region when
 started at a random vector

---
 src/pymanopt/optimizers/trust_regions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 1588fd2..f2bbc84 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -623,7 +623,11 @@ class TrustRegions(Optimizer):
             delta = manifold.to_tangent_space(x, delta)
 
             # Update new P-norms and P-dots [CGT2000, eq. 7.5.6 & 7.5.7].
-            e_Pd = beta * (e_Pd + alpha * d_Pd)
+            if not self.use_rand:
+                e_Pd = beta * (e_Pd + alpha * d_Pd)
+            else:
+                # The recurrence requires that the iteration starts at zero.
+                e_Pd = inner(x, eta, delta)
             d_Pd = z_r + beta * beta * d_Pd
 
         return eta, Heta, j, stop_tCG
-- 
2.43.0

