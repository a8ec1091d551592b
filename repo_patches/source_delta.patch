From 7ee1f68e9ba36706f05ac19fb074eea7e765ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 01/31] fix: slerp between nearly opposite quaternions
 interpolates along the short arc

---
 rainbow/math/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 610d029..02a1af9 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -319,7 +319,7 @@ def slerp(a, b, t):
     small_angle_threshold = 0.9999999
 
     if dot > small_angle_threshold:
-        return unit(lerp(a, b, t))
+        return unit(lerp(-a if flip else a, b, t))
 
     omega = acos(dot)
     sin_omega = sin(omega)
-- 
2.43.0


From 13018e0ce696ecfff7a0948cc2745c95b8ada5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 02/31] fix: detect gimbal lock up to rounding when extracting
 Euler angles

---
 rainbow/math/euler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/euler.py b/rainbow/math/euler.py
index f62b8d5..eddc65c 100644
--- a/rainbow/math/euler.py
+++ b/rainbow/math/euler.py
@@ -18,11 +18,15 @@ def make_euler_xyz_from_matrix(R):
     r21 = R[2, 1]
     r22 = R[2, 2]
 
-    if r20 >= 1.0:
+    # Rounding may leave |r20| slightly below one at gimbal lock, where the general
+    # formulas would take atan2 of rounding noise.
+    lock = 1.0 - 1e-12
+
+    if r20 >= lock:
         rz = atan2(-r01, -r02)
         ry = -pi / 2.0
         rx = 0.0
-    elif r20 <= -1.0:
+    elif r20 <= -lock:
         rz = atan2(-r01, r02)
         ry = pi / 2.0
         rx = 0.0
-- 
2.43.0


From 039e41b826385d48775db44c28e6414557144580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 03/31] fix: orthonormalising a matrix leaves the input matrix
 untouched

---
 rainbow/math/matrix3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/matrix3.py b/rainbow/math/matrix3.py
index 6e09ba1..f5b6e37 100644
--- a/rainbow/math/matrix3.py
+++ b/rainbow/math/matrix3.py
@@ -53,8 +53,8 @@ def star(v):
 
 
 def ortonormalize(A):
-    row0 = A[0, :]
-    row1 = A[1, :]
+    row0 = np.array(A[0, :], dtype=np.float64)
+    row1 = np.array(A[1, :], dtype=np.float64)
     l0 = np.linalg.norm(row0)
     if l0 > 0.0:
         row0 /= l0
-- 
2.43.0


From a10d272a7ec2239ffad2d8340f8930a20fc458d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 04/31] fix: direction of most variance returns the
 eigenvector, not a row of the eigenvector matrix

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..c71f529 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]  # eigenvectors are the columns
-- 
2.43.0


From b7148e8257069370198a1689e1aac5164fa3ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 05/31] fix: rotation matrix derivative has the wrong sign for
 rotation vectors longer than pi

---
 rainbow/math/expmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..b57126f 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -225,7 +225,9 @@ def dRdv_i(v, i):
     :param i:
     :return:
     """
-    q = exp(v)
+    # dQdv_i differentiates the quaternion of v itself, so do not re-parameterize v here
+    # (that could flip the sign of q)
+    q = exp(v, False)
     dQdvi = dQdv_i(v, i)
     dRdvi = __dRdv_i(q, dQdvi)
     return dRdvi
\ No newline at end of file
-- 
2.43.0


From 02069546cba3d088a02ed76c69d412425b7356af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 06/31] fix: logarithm of the identity quaternion divides by
 zero

---
 rainbow/math/expmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index b57126f..f1fec7a 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -96,8 +96,10 @@ def log(q):
         #
         # If q is the identity quaternion the log(q) should map to zero vector. Recall that
         # identity is given by q = [1 0 0 0] the above works for this.
-        t = acos(q[0])
+        t = acos(max(-1.0, min(1.0, q[0])))
         s = sin(t)
+        if s == 0.0:
+            return V3.zero()
         f = 2 * t / s
         return V3.make(f * q[1], f * q[2], f * q[3])
     return V3.zero()
-- 
2.43.0


From 22f3625f75398116b9e4017dc7facfd463c796bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 07/31] fix: grid gradient scales local coordinates by the grid
 spacing, not by the grid corner

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From 86f83f058a1751b684b58c63ba1831c9245b719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 08/31] fix: interior tetrahedron samples are those with four
 non-zero weights

---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From a2ee6d0bd4b7d9afe242c3fd5728066226c01739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 09/31] fix: hash grid insertion reports only earlier objects
 of the current time step

---
 rainbow/geometry/spatial_hashing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..f2a4588 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,8 +189,11 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
-            self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
+            cell = self.hash_tbale[hv]
+            # Objects from earlier time steps are only lazily cleared by the add() below, they do not overlap anything now
+            if cell.time_stamp == time_stamp:
+                overlaps = list(cell.object_list)
+            cell.add((tri_idx, body_idx, tri_aabb), time_stamp)
         return overlaps
     
     @classmethod
-- 
2.43.0


From 6387fe3760ceeb6efefd0339562d1758d32d14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 10/31] fix: first corner tetrahedron of a subdivision has
 negative orientation

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..476cadf 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ik, ij, im, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From 3e060687efecdbb49f966f5fe7c7180bb04d1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 11/31] fix: principal axes of a symmetric inertia tensor with
 equal moments are not orthogonal

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..907ad17 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,7 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    d, R = np.linalg.eigh(A)
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From 4d0102edd66c9af2476f61316116c6575081295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 12/31] fix: hinge stabilisation term amplifies the drift it
 should remove

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..afe1a30 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -208,9 +208,9 @@ class Hinges(Problem):
 
             n_c = Q.rotate(hinge.child.q, hinge.axis_c)
 
-            u = V3.cross(n_p, n_c)
+            u = V3.cross(n_c, n_p)
 
-            g[offset:offset + 3] = (r_c - r_p)
+            g[offset:offset + 3] = (r_p - r_c)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
         rate = engine.params.gap_reduction / dt
-- 
2.43.0


From e942f94744998508a56ad29e01d5840b0e0643b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 13/31] fix: parallel Gauss-Seidel must see every contact of
 the previous colors

The velocity change handed to a color group only included the contacts with
a smaller index than the first contact of the group, so the updates of
contacts of earlier colors with a larger index were ignored.
---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..57ba46e 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,8 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # All the contacts of the previous color groups have been updated (the others still have a zero delta_w)
+            w = w0 + np.sum(delta_ws, axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From 35029b40868040c5478f92602af4b5b316276ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:25 +0000
Subject: [PATCH 14/31] fix: potential energy when gravity fields cancel (0/0)

---
 rainbow/simulators/prox_rigid_bodies/state_storage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/state_storage.py b/rainbow/simulators/prox_rigid_bodies/state_storage.py
index 493f32e..3d4b4a1 100644
--- a/rainbow/simulators/prox_rigid_bodies/state_storage.py
+++ b/rainbow/simulators/prox_rigid_bodies/state_storage.py
@@ -226,10 +226,8 @@ class StateStorage:
                     G += gravity_force.up * gravity_force.g
                     has_gravity = True
             if has_gravity:
-                up = V3.unit(G)
-                g = V3.norm(G)
-                h = up.dot(r)
-                potential += m * g * h
+                # The same as m*g*h with up = unit(G), but also defined when the gravity fields add up to zero.
+                potential += m * G.dot(r)
 
             wIw = np.dot(w, np.dot(I_wcs, w))
             kinetic += 0.5 * (m * (v.dot(v)) + wIw)
-- 
2.43.0


From f2a67b3b5c1ee1ce591e74eae868b1c46df8d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 15/31] fix: numbers with leading zeros after the decimal point
 are rejected

---
 rainbow/util/parse_string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/util/parse_string.py b/rainbow/util/parse_string.py
index da2b387..d238886 100644
--- a/rainbow/util/parse_string.py
+++ b/rainbow/util/parse_string.py
@@ -8,7 +8,8 @@ import pyparsing as pp
 '''
 
 Integer          = pp.Regex("([1-9]\d*|0)")
-Float            = Integer + "." + Integer
+Digits           = pp.Regex("[0-9]+")
+Float            = Integer + "." + Digits
 Number_unsigned  = (Float | Integer)
 Number_signed    = ("-" + Number_unsigned | Number_unsigned)
 Number_pos_scientific  = Number_signed + "e" + "+" + Number_unsigned
-- 
2.43.0


From 9df0e101c7b4bb0a50fb749f34dcc29a45e94ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 16/31] fix: text of a polynomial drops the sign of its first
 term

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From d2b7731295b66f8400c0340fbabcd9ee43d39bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 17/31] fix: mixed entries of the inverse kinematics Hessian
 are wrong

---
 rainbow/simulators/inverse_kinematics/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..a966ac7 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -339,11 +339,15 @@ def compute_hessian(chains, skeleton, J):
                 vc = np.dot(V3.cross(v, J_c), r)
                 wc = np.dot(V3.cross(w, J_c), r)
 
+                # Rows are the joint axes of bone h, columns are the joint angles of bone k
                 dH = np.array(
-                    [[ua, va, wa],
-                     [ub, vb, wb],
-                     [uc, vc, wc]]
+                    [[ua, ub, uc],
+                     [va, vb, vc],
+                     [wa, wb, wc]]
                 )
+                if h == k:
+                    # An axis of a joint only moves the joint angles that come after it
+                    dH = np.triu(dH) + np.transpose(np.triu(dH, 1))
 
                 H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
                 if h != k:
-- 
2.43.0


From 7e2e6486993437b8fd75da9485c7bc6aa8ab6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 18/31] fix: corotational model decomposes a single deformation
 gradient

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..15229b7 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From c5535c83631637fbf003e198ec8d1b588962d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 19/31] fix: stable Neo-Hookean energy uses the natural
 logarithm its stress is derived from

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 15229b7..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 3cca4b83f8b82add4e2bca61f9c94f39b0aac726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 20/31] fix: traction forces add up to half of the applied load

---
 rainbow/simulators/prox_soft_bodies/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..573f797 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -334,7 +334,7 @@ class Native:
             #
             #  We find the load (nodal traction distribution)  matrix
             #
-            #   L = 1 / 24  *  [ 2*I_3x3    I_3x3   I_3x3;
+            #   L = 1 / 12  *  [ 2*I_3x3    I_3x3   I_3x3;
             #                      I_3x3  2*I_3x3   I_3x3;
             #                      I_3x3    I_3x3 2*I_3x3; ]
             # --- The spatial load force
@@ -343,13 +343,13 @@ class Native:
             #
             #   where load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From 064ffc007acfc6aad6b3fa256053ef191241ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 21/31] fix: fixed soft bodies must not move

---
 rainbow/simulators/prox_soft_bodies/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 573f797..3746252 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1005,6 +1005,8 @@ def apply_boundary_conditions_on_positions(x: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
+        if body.is_fixed:
+            x[body.offset : body.offset + len(body.x)] = body.x
         if len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices and values could be precomputed.
@@ -1021,6 +1023,8 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
+        if body.is_fixed:
+            u[body.offset : body.offset + len(body.u)] = 0.0
         if len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
-- 
2.43.0


From 9594efa17eabc6048288cd92aeca700abd72b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 22/31] fix: soft body post-stabilization uses four rows per
 contact and keeps boundary conditions

---
 rainbow/simulators/prox_soft_bodies/solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 3746252..bcc454e 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -963,11 +963,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -984,11 +984,12 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
     x = get_position_vector(engine)
     x += delta_x
+    apply_boundary_conditions_on_positions(x, engine)
     set_position_vector(x, engine)
 
     if debug_on:
-- 
2.43.0


From 0e5c5651339d1a3acc29152cbc9dd98fdc6c6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 23/31] fix: soft body contact normal is wrong when the body is
 rotated or deformed

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..536f3fc 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,9 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # The rows of D and D0 are edge vectors, so the gradient n0 of a field in material
+    # coordinates turns into the gradient n in world coordinates where D n = D0 n0.
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From 425bbe6ea05357e3a6382bbfea19435f7b76eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 24/31] fix: triangles share a vertex only if all coordinates
 agree

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 536f3fc..eb3bb7d 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,7 +50,7 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    return any(np.array_equal(v1, v2) for v1 in tri1 for v2 in tri2)
 
 
 def _triangle_intersection(tri1, tri2):
-- 
2.43.0


From 8de948a2b8a5be53cacffcccd631658d33575c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 25/31] fix: triangle intersection test of self-collisions

---
 .../prox_soft_bodies/collision_detection.py   | 72 ++++++++++---------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index eb3bb7d..4a7b757 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -53,52 +53,54 @@ def _is_share_vertex(tri1, tri2):
     return any(np.array_equal(v1, v2) for v1 in tri1 for v2 in tri2)
 
 
-def _triangle_intersection(tri1, tri2):
-    """ Test if two triangles of a same body intersect
-        To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
-        which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
-        
+def _is_edge_crossing(p, q, tri):
+    """ Test if the edge from p to q crosses a triangle
+
     Args:
-        tri1 (ArrayLike): coordinates of the first triangle
-        tri2 (ArrayLike): coordinates of the second triangle
+        p (ArrayLike): coordinates of the first end point of the edge
+        q (ArrayLike): coordinates of the second end point of the edge
+        tri (ArrayLike): coordinates of the triangle
 
     Returns:
-        bool: True if the two triangles intersect, False otherwise
+        bool: True if the edge and the triangle have a point in common, False otherwise or if they are parallel
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
-    e1 = v2 - v1
-    e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
+    v1, v2, v3 = tri
+    normal = np.cross(v2 - v1, v3 - v1)
+    a = np.dot(q - p, normal)
 
-    # Check if the two triangles are parallel or not
+    # Check if the edge and the triangle are parallel or not
     if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
-
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
-    if u < 0.0 or u > 1.0:
         return False
 
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
-    if v < 0.0 or u + v > 1.0:
+    # Check if the edge reaches the plane of the triangle
+    t = np.dot(v1 - p, normal) / a
+    if t < 0.0 or t > 1.0:
         return False
 
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    # Check if the intersection point is inside the triangle
+    x = p + t * (q - p)
+    return bool(
+        np.dot(np.cross(v2 - v1, x - v1), normal) >= 0.0
+        and np.dot(np.cross(v3 - v2, x - v2), normal) >= 0.0
+        and np.dot(np.cross(v1 - v3, x - v3), normal) >= 0.0
+    )
 
+
+def _triangle_intersection(tri1, tri2):
+    """ Test if two triangles of a same body intersect
+        Two triangles that are not parallel intersect if an edge of one of them crosses the other one.
+
+    Args:
+        tri1 (ArrayLike): coordinates of the first triangle
+        tri2 (ArrayLike): coordinates of the second triangle
+
+    Returns:
+        bool: True if the two triangles intersect, False otherwise
+    """
+    for i in range(3):
+        j = (i + 1) % 3
+        if _is_edge_crossing(tri1[i], tri1[j], tri2) or _is_edge_crossing(tri2[i], tri2[j], tri1):
+            return True
     return False
 
 
-- 
2.43.0


From 28b6e8cc55945c7b57e34c10d05e0984afb43878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 26/31] fix: soft bodies of materials without a common surface
 interaction use the default one

---
 rainbow/simulators/prox_soft_bodies/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..f06f25d 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -35,7 +35,7 @@ class SurfacesInteractionLibrary:
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From 518d7919c2dc1eda025da262a0a1c83b885cf9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 27/31] fix: contacts are lost within half a unit of the
 boundary of a signed distance field

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 rainbow/simulators/prox_soft_bodies/collision_detection.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..601a15c 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 4a7b757..9333d24 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -352,7 +352,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From 7555fe89194b3bd17e2263dd476d40308baba6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:01 +0000
Subject: [PATCH 28/31] fix: links of a URDF robot are placed relative to the
 body frame of the root link instead of its reference frame

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..d427a43 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -337,6 +337,10 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         use_model_frame=False
     )
 
+    # The reference frame of the root link is the world frame. As for the children below, from here on X_b2r holds the
+    # reference frame of the link wrt the world (and not the body frame wrt the reference frame).
+    root.X_b2r = X.CoordSys()
+
     while stack:
         parent = stack.pop()
         parent_name = parent.name
-- 
2.43.0


From a0611cf5d7425523be388daf9db1bc5eff617298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:01 +0000
Subject: [PATCH 29/31] fix: the scale of the meshes of a URDF file is ignored

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index d427a43..04ee62d 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -238,7 +238,7 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         X_c2b = X.make_coordsys_from_to(X_c2r, X_b2r)
         logger.info(f'{body_name} has collision frame to body from translation {X_c2b.r} and rotation {X_c2b.q}')
 
-        V = link['collision']['vertices']
+        V = np.multiply(link['collision']['vertices'], link['collision']['scale'])
         F = link['collision']['faces']
 
         # Next, we will make sure the mesh data lives in the body-space of the link
-- 
2.43.0


From 1bb09301f9038b290e0d14e454df6e132288828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:38 +0000
Subject: [PATCH 30/31] fix: gears of a gear train turn about their own axis

The gears are built with their axis along the world y-axis, but were
hinged about the world z-axis, perpendicular to it.
---
 .../simulators/prox_rigid_bodies/scenes/create_gear_train.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 58e80a6..7586d85 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -451,7 +451,7 @@ def create_gear_train(engine: Engine,
             parent_name=parent_name,
             child_name=child_name,
             origin= origin,
-            axis= V3.k(),
+            axis= V3.j(),
             mode="world"
         )
 
-- 
2.43.0


From 3f6e71e891cd80c224d525b7f29b45f1bac06bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:38 +0000
Subject: [PATCH 31/31] fix: the names returned by the rock slide scene are a
 flat list of names

create_lattice returns a list of names, which was appended as one entry.
---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0

