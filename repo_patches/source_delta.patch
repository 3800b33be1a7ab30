From 3a2e4cdeac6063bb25a41c89999b616d6b7a26a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 01/33] fix: rotate points sampled on an ellipsoid surface into
 the ellipsoid frame

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..e23210d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -502,7 +502,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 433a47e060741df41b769db91945dedd638329d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 02/33] fix: sample points on a box surface in the body frame
 before posing them

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..0977d53 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -146,7 +146,7 @@ class Box(ConvexPolyhedron):
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From 53a0081c74436fb629211d5b6cc9496e697ba041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 03/33] fix: rays have directions only, do not translate them

---
 src/rigeo/polydd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..5af9076 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -164,7 +164,7 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From 7a3370138c2a135a308e6a2e2e993c41de9f07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 04/33] fix: honour the tolerance in Cylinder.contains

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..a36f292 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,7 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [E.contains(P, tol=tol) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From 3b18f8daa0184d0b17c7411950d76f89b9b7d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 05/33] fix: accept a tolerance in Cylinder.is_same

---
 src/rigeo/shape/cylinder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index a36f292..f3ffb8d 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,14 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
         return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+            and np.allclose(self.rotation, other.rotation, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From f48b083d4d60801a6a6140e8f859cfd92378dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 06/33] fix: accept a solver in Ellipsoid.mbe like every other
 shape

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e23210d..929301a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -415,7 +415,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From 92d8e6a8f5640fcfb1fee70ce74a04ed6fbcc2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 07/33] fix: keep the pseudo-inertia constraints in the moment
 SDP constraints

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index f3ffb8d..431d785 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -157,7 +157,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..92dfa58 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -280,7 +280,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 3e23ba8422bc740ef0c5821ee4a915c947b27a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 08/33] fix: do not impose the margin on the flat end disks of
 a cylinder

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 431d785..557a92e 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -180,7 +180,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From d8130938ddd436611514ac9ac8d851af03c153c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 09/33] fix: massless parameters with zero first moment have a
 finite centre of mass

---
 src/rigeo/inertial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..ffd66f9 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,7 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            if h is None or (mass == 0 and not np.any(h)):
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From c0ae54f30424595e45f0b7bb7064f951f93c1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 10/33] fix: do not overwrite the reference point in
 mbe_of_points for spheres

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 929301a..118bcfe 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -706,8 +706,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From f74b4305b703191a4a498334f051fb7679572d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 11/33] fix: use the quadratic form of each ellipsoid in
 mbe_of_ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 118bcfe..631c2e6 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -610,10 +610,13 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, ellipsoid, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+    # quadratic form of the ellipsoid: x @ Ai @ x + 2 * bi @ x + ci <= 0
+    Ai = ellipsoid.S
+    bi = ellipsoid.A @ ellipsoid.b
+    ci = ellipsoid.b @ ellipsoid.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -654,7 +657,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From 47fcfb2243bed70ae5ae44dad56afdfbee545138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 12/33] fix: use the quadratic forms of both ellipsoids in
 contains_ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 631c2e6..12511ce 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -548,8 +548,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 063e8fba0835bab50fa70cfc4b7e8fde24024b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 13/33] fix: raise a ValueError for an empty polyhedron

---
 src/rigeo/shape/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index 92dfa58..cc2bba5 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -51,6 +51,8 @@ class ConvexPolyhedron(Shape):
         if span_form is None:
             span_form = face_form.to_span_form()
 
+        if span_form is None:
+            raise ValueError("The polyhedron is empty.")
         if not span_form.bounded():
             raise ValueError("Only bounded polyhedra are supported.")
 
-- 
2.43.0


From ae851b88108db6bd4a04a5bbccf3c243dc391e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 14/33] fix: make is_same symmetric between boxes and other
 polyhedra

---
 src/rigeo/shape/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index cc2bba5..dda057f 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -172,7 +172,7 @@ class ConvexPolyhedron(Shape):
         return [self.A @ p <= scale * self.b for p in points]
 
     def is_same(self, other, tol=1e-8):
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, ConvexPolyhedron) or other.dim != self.dim:
             return False
         return self.contains_polyhedron(
             other, tol=tol
-- 
2.43.0


From 861e3cf89ac3bd7bf718cbf33eadff8a9dc2b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 15/33] fix: a degenerate ellipsoid is the same as itself

---
 src/rigeo/shape/ellipsoid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 12511ce..5d76242 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -243,9 +243,15 @@ class Ellipsoid(Shape):
 
     def is_same(self, other, tol=1e-8):
         """Check if this ellipsoid is the same as another."""
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, self.__class__) or other.dim != self.dim:
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+        # compare finite quantities, since Q is not defined for degenerate
+        # ellipsoids
+        F1 = self.rotation @ np.diag(self.half_extents) @ self.rotation.T
+        F2 = other.rotation @ np.diag(other.half_extents) @ other.rotation.T
+        return np.allclose(self.center, other.center, atol=tol) and np.allclose(
+            F1, F2, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From 2e761eb8258a4926a28801f87b20c2e2467dbea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 16/33] fix: use the weight matrix in validation_rmse

---
 src/rigeo/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..3567f56 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -171,8 +171,7 @@ def validation_rmse(Ys, ws, θ, W=None):
     if W is None:
         W = np.eye(6)
     error = Ys @ θ - ws
-    # square = np.sum(error @ W * error, axis=1)
-    square = np.sum(error**2, axis=1)
+    square = np.sum(error @ W * error, axis=1)
     assert square.shape[0] == ws.shape[0]
     mean = np.mean(square)
     root = np.sqrt(mean)
-- 
2.43.0


From 2db8ce7c9bf65152a08e2f7ad9b64d13e95f4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 17/33] fix: the basis of degree zero is the constant monomial

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index 30754d7..eb9f9ab 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -133,7 +133,7 @@ class Polynomial:
             b[i] = 1
             basis.append(MomentIndex(b))
         return [
-            sum(group)
+            sum(group, basis[0])
             for group in itertools.combinations_with_replacement(basis, d)
         ]
 
-- 
2.43.0


From b33943a7d56573ff473e342d37c128a8264e29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 18/33] fix: support one-dimensional balls and ellipsoids in
 the point samplers

---
 src/rigeo/random.py          | 6 +++---
 src/rigeo/shape/ellipsoid.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rigeo/random.py b/src/rigeo/random.py
index ff590fc..a0157a0 100644
--- a/src/rigeo/random.py
+++ b/src/rigeo/random.py
@@ -52,7 +52,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     See https://compneuro.uwaterloo.ca/files/publications/voelker.2017.pdf
     """
-    assert dim >= 1
+    assert dim >= 0
     if np.isscalar(shape):
         shape = (shape,)
     full_shape = tuple(shape) + (dim + 1,)
@@ -67,7 +67,7 @@ def random_points_on_hypersphere(shape=1, dim=2, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == (1,):
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
@@ -85,7 +85,7 @@ def random_points_in_ball(shape=1, dim=3, rng=None):
 
     # squeeze out extra dimension if shape = 1
     if shape == 1:
-        return np.squeeze(points)
+        return np.squeeze(points, axis=0)
     return points
 
 
diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 5d76242..48be98a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -512,7 +512,7 @@ class Ellipsoid(Shape):
 
         # reshape to desired shape
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points.reshape(shape + (self.dim,))
 
     def transform(self, rotation=None, translation=None):
-- 
2.43.0


From 9eef7481a7c839bd186de2d2f5e45338af38ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 19/33] fix: the minimum bounding sphere of a box passes
 through its vertices

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 0977d53..35e173d 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -334,7 +334,7 @@ class Box(ConvexPolyhedron):
 
         half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
         return Ellipsoid(
             half_extents=half_extents,
-- 
2.43.0


From c0c6449f98f81fa1080ca8078319eabc22599df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 20/33] fix: do not ask numpy for a no-copy array in unvech

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 3567f56..a936d3f 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -70,7 +70,7 @@ def unvech(a):
     : np.ndarray, shape (n, n)
         The unvectorized matrix.
     """
-    a = np.array(a, copy=False)
+    a = np.asarray(a)
     assert a.ndim == 1
     s = a.shape[0]
 
-- 
2.43.0


From 7198a6a1a36f087a76d91f1d803eb6aedfee351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 21/33] fix: count numerically zero half extents as zero in the
 rank

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 48be98a..8e29664 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -103,7 +103,7 @@ class Ellipsoid(Shape):
 
     @property
     def rank(self):
-        return np.count_nonzero(self.half_extents)
+        return np.count_nonzero(~self._z())
 
     @property
     def volume(self):
-- 
2.43.0


From 5b8413e1285f52cb3dd4bb5ca42ffd7b3fc238c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 22/33] fix: from_affine must handle a non-symmetric matrix

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 8e29664..4e15dd3 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -146,7 +146,7 @@ class Ellipsoid(Shape):
     @classmethod
     def from_affine(cls, A, b, rcond=None):
         """Construct an ellipsoid from an affine transformation of the unit ball."""
-        S = A @ A
+        S = A.T @ A
 
         # use least squares instead of direct solve in case we have a
         # degenerate ellipsoid
-- 
2.43.0


From fd19ab669eda2992b178ad3239f307d84954ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 23/33] fix: reject non-finite half extents of a box

---
 src/rigeo/shape/box.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 35e173d..5f1d012 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -57,6 +57,7 @@ class Box(ConvexPolyhedron):
         self.half_extents = np.array(half_extents)
         assert self.half_extents.shape == (3,)
         assert np.all(self.half_extents >= 0)
+        assert np.all(np.isfinite(self.half_extents))
 
         self.rotation, self.center = clean_transform(
             rotation=rotation, translation=center
-- 
2.43.0


From e26d66066f62db21d1e590664ae5b6cc5bb43278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 24/33] fix: reject a non-positive number of grid points

---
 src/rigeo/shape/box.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 5f1d012..7195359 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -274,6 +274,7 @@ class Box(ConvexPolyhedron):
         """
         if np.isscalar(n):
             n = [n, n, n]
+        assert np.all(np.array(n) > 0), "Number of grid points must be positive."
 
         L = -self.half_extents
         U = self.half_extents
-- 
2.43.0


From 15ed4031be7d780a29d685032c66038b0905a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 25/33] fix: reject moments of the wrong size

---
 src/rigeo/inertial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index ffd66f9..523e9bb 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -51,6 +51,7 @@ class InertialParameters:
                 com = np.zeros(3)
             else:
                 com = h / mass
+        assert np.shape(com) == (3,), "Centre of mass must be a 3-vector."
         self.com = com
 
         if H is not None and I is not None:
@@ -69,6 +70,7 @@ class InertialParameters:
         if translate_from_com:
             H = H + mass * np.outer(com, com)
 
+        assert np.shape(H) == (3, 3), "Second moment must be a 3x3 matrix."
         self.H = H
 
     def __repr__(self):
-- 
2.43.0


From a7fa881882ce51617dc31bd178191eb41a4c4c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 26/33] fix: reject negative point masses

---
 src/rigeo/inertial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index 523e9bb..bc0a496 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -172,6 +172,7 @@ class InertialParameters:
         masses = np.array(masses)
         points = np.array(points)
         assert masses.shape[0] == points.shape[0]
+        assert np.all(masses >= 0), "Masses must be non-negative."
 
         # homogeneous representation
         P = np.hstack((points, np.ones((points.shape[0], 1))))
-- 
2.43.0


From 5a906d601756012fb0aa559dfedeff5690f8a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 27/33] fix: drop modules that do not exist from the module
 reference

---
 docs/src/modules.rst | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/docs/src/modules.rst b/docs/src/modules.rst
index fd3ccc9..22e2519 100644
--- a/docs/src/modules.rst
+++ b/docs/src/modules.rst
@@ -14,20 +14,6 @@ Constraint
     :members:
     :undoc-members:
 
-Geodesic
---------
-
-.. automodule:: rigeo.geodesic
-    :members:
-    :undoc-members:
-
-Identification
---------------
-
-.. automodule:: rigeo.identify
-    :members:
-    :undoc-members:
-
 Inertial
 --------
 
@@ -35,13 +21,6 @@ Inertial
     :members:
     :undoc-members:
 
-Multibody
----------
-
-.. automodule:: rigeo.multibody
-    :members:
-    :undoc-members:
-
 Polyhedron Double Description
 -----------------------------
 
-- 
2.43.0


From b344a2769dad4525fb1be2fe101880675014b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 28/33] fix: volume of an ellipsoid in any number of dimensions

---
 src/rigeo/shape/ellipsoid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 4e15dd3..518e617 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -1,6 +1,7 @@
 import numpy as np
 import cvxpy as cp
 from scipy.linalg import orth, null_space
+from scipy.special import gamma
 
 from ..util import clean_transform
 from ..random import random_points_in_ball, random_points_on_hypersphere
@@ -108,7 +109,8 @@ class Ellipsoid(Shape):
     @property
     def volume(self):
         """The volume of the ellipsoid."""
-        return 4 * np.pi * np.prod(self.half_extents) / 3
+        unit_ball = np.pi ** (self.dim / 2) / gamma(self.dim / 2 + 1)
+        return unit_ball * np.prod(self.half_extents)
 
     def __repr__(self):
         return f"Ellipsoid(half_extents={self.half_extents}, center={self.center}, rotation={self.rotation})"
-- 
2.43.0


From e118a99bfc1c9fa961a174c47ab319d89372e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 29/33] fix: reject half extents that are not a vector

---
 src/rigeo/shape/ellipsoid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 518e617..34018c0 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -64,6 +64,7 @@ class Ellipsoid(Shape):
         if np.isscalar(half_extents):
             half_extents = [half_extents]
         self.half_extents = np.array(half_extents)
+        assert self.half_extents.ndim == 1, "Half extents must be a vector."
 
         assert np.all(
             self.half_extents >= 0
-- 
2.43.0


From cc3484e25da47f22bcd9e350b0dae38f2223ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 30/33] fix: keep the dimension of one random point of a 1-D
 polyhedron

---
 src/rigeo/shape/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index dda057f..e0e7856 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -189,7 +189,7 @@ class ConvexPolyhedron(Shape):
         w = random_weight_vectors(full_shape, rng=rng)
         points = w @ self.vertices
         if shape == (1,):
-            return np.squeeze(points)
+            return np.squeeze(points, axis=0)
         return points
 
     def aabb(self):
-- 
2.43.0


From fc44bcdb682c00d6e3b95490aa5b6a136f44db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 31/33] fix: pass the dimension on when inverting a transform

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index a936d3f..fa4afd4 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -208,7 +208,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From e79709b0057529e467e3b569192cdd5b8cb38c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 32/33] fix: check the second moment's shape before translating
 it

---
 src/rigeo/inertial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index bc0a496..82e737c 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -65,12 +65,12 @@ class InertialParameters:
             else:
                 H = I2H(I)
 
+        assert np.shape(H) == (3, 3), "Second moment must be a 3x3 matrix."
+
         # translate the second moment matrix from CoM reference point to the
         # origin
         if translate_from_com:
             H = H + mass * np.outer(com, com)
-
-        assert np.shape(H) == (3, 3), "Second moment must be a 3x3 matrix."
         self.H = H
 
     def __repr__(self):
-- 
2.43.0


From 3bea3e023b1ab80dbf164d663d05ae74fb20674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:15 +0000
Subject: [PATCH 33/33] fix: bound and inscribe polyhedra whose points all
 coincide

The convex programs have no dimension when every point coincides, so
mbe_of_points and ConvexPolyhedron.mie raised; the only ellipsoid that
bounds, or is inscribed in, a point is the point itself.
---
 src/rigeo/shape/ellipsoid.py | 4 ++++
 src/rigeo/shape/poly.py      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 34018c0..c0cf81c 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -705,6 +705,10 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     R = orth((points - r).T, rcond=rcond)
     rank = R.shape[1]
 
+    # all points coincide
+    if rank == 0:
+        return Ellipsoid(half_extents=np.zeros_like(r, dtype=float), center=r)
+
     # project onto the rowspace
     # this allows us to handle degenerate sets of points that live in a
     # lower-dimensional subspace than R^d
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e0e7856..aeec533 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -218,6 +218,10 @@ class ConvexPolyhedron(Shape):
         R = orth((self.vertices - r).T, rcond=rcond)
         rank = R.shape[1]
 
+        # all vertices coincide
+        if rank == 0:
+            return Ellipsoid(half_extents=np.zeros_like(r, dtype=float), center=r)
+
         # project onto the rowspace
         # this allows us to handle degenerate sets of points that live in a
         # lower-dimensional subspace than R^d
-- 
2.43.0

