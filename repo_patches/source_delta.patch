From 2c5117b88820a9b53516399f0a739aef4bd7e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 01/43] fix: normalise local cell coordinates by the spacing in
 get_gradient

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From ef4f04d8ab545a2a37d46fb7140779a6f1afd6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/43] fix: accept contact candidates anywhere inside the
 signed distance grid

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 rainbow/simulators/prox_soft_bodies/collision_detection.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..db4f09a 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..bda51cd 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -348,7 +348,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From 19ebeef52ff7f8cbd9b1e6f00ca1cfaae6d5bb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 03/43] fix: do not take an extra time-step for the round-off
 left by simulate

---
 rainbow/simulators/prox_rigid_bodies/api.py | 5 ++++-
 rainbow/simulators/prox_soft_bodies/api.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..3973901 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -687,10 +687,13 @@ def simulate(engine: Engine, T: float, profiling_on: bool = False) -> None:
     if engine.stepper is None:
         raise ValueError("A time-stepper must be initialized")
     T_left = T
-    while T_left:
+    while T_left > 0:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, profiling_on)
         T_left -= dt
+        # What is left after the last full step may be round-off only, this must not become an extra time-step.
+        if T_left < 1e-6 * engine.params.time_step:
+            break
 
 
 def get_log(engine: Engine) -> list[dict[str, any]]:
diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 9585287..7a1597f 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -398,10 +398,13 @@ def simulate(engine, T: float, debug_on: bool = False) -> None:
     if engine.stepper is None:
         engine.stepper = SOLVER.SemiImplicitStepper(engine, debug_on)
     T_left = T
-    while T_left:
+    while T_left > 0:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, debug_on)
         T_left -= dt
+        # What is left after the last full step may be round-off only, this must not become an extra time-step.
+        if T_left < 1e-6 * engine.params.time_step:
+            break
 
 
 def get_log(engine: Engine) -> List[Dict]:
-- 
2.43.0


From ec928372a0121db5c5968f3c1a8f1f3ef96b97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 04/43] fix: a hash grid insert reports only objects inserted
 before it at the same time stamp

---
 rainbow/geometry/spatial_hashing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..2b43d7e 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,7 +189,8 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
+            if self.hash_tbale[hv].time_stamp == time_stamp:
+                overlaps = list(self.hash_tbale[hv].object_list)
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         return overlaps
     
-- 
2.43.0


From 6c643c1b029ade4d5c3b5dedd8fb788ebccd85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 05/43] fix: use the single matrix polar decomposition in the
 corotational model

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..15229b7 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From a34197fad7e4a8b1208573ade04044a19d6d2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 06/43] fix: decide shared vertices of two triangles by vertex
 index, not by coordinate value

---
 .../prox_soft_bodies/collision_detection.py          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index bda51cd..bf084e4 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -44,8 +44,8 @@ def _is_share_vertex(tri1, tri2):
     """ Test if two triangles of a same body share a vertex.
 
     Args:
-        tri1 (ArrayLike): coordinates of the first triangle
-        tri2 (ArrayLike): coordinates of the second triangle
+        tri1 (ArrayLike): vertex indices of the first triangle
+        tri2 (ArrayLike): vertex indices of the second triangle
     
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
@@ -102,7 +102,7 @@ def _triangle_intersection(tri1, tri2):
     return False
 
 
-def _is_self_collision(tri1, tri2, tri1_aabb, tri2_aabb):
+def _is_self_collision(tri1, tri2, tri1_aabb, tri2_aabb, tri1_nodes, tri2_nodes):
     """ Check if two triangles of a same body are self-colliding
 
     Args:
@@ -110,11 +110,13 @@ def _is_self_collision(tri1, tri2, tri1_aabb, tri2_aabb):
         tri2 (ArrayLike): coordinates of the second triangle
         tri1_aabb (AABB): the AABB of the first triangle
         tri2_aabb (AABB): the AABB of the second triangle
+        tri1_nodes (ArrayLike): vertex indices of the first triangle
+        tri2_nodes (ArrayLike): vertex indices of the second triangle
 
     Returns:
         bool: True if the two triangles are self-colliding, False otherwise
     """
-    return (not _is_share_vertex(tri1, tri2) and
+    return (not _is_share_vertex(tri1_nodes, tri2_nodes) and
             AABB.is_overlap(tri1_aabb, tri2_aabb) and
             _triangle_intersection(tri1, tri2))
 
@@ -165,7 +167,7 @@ def _spatial_hashing_narrow_phase(engine, stats, debug_on):
                         overlap_body = list(engine.bodies.values())[overlap_body_idx]
                         if overlap_body_idx == body.idx:
                             # Potential self-collision
-                            if _is_self_collision(body.x[body.surface[tri_idx]], overlap_body.x[overlap_body.surface[overlap_tri_idx]], tri_aabb, overlap_tri_aabb):
+                            if _is_self_collision(body.x[body.surface[tri_idx]], overlap_body.x[overlap_body.surface[overlap_tri_idx]], tri_aabb, overlap_tri_aabb, body.surface[tri_idx], overlap_body.surface[overlap_tri_idx]):
                                 results[(body, overlap_body)].add((tri_idx, overlap_tri_idx))
                         else:
                             # Potential collision with another body
-- 
2.43.0


From 5b85979c8edba73ba0070e688afcfe0f954156cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 07/43] fix: fall back to the default surface interaction for
 unregistered material pairs

---
 rainbow/simulators/prox_soft_bodies/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..f06f25d 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -35,7 +35,7 @@ class SurfacesInteractionLibrary:
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From 82f638668beb77ef1a8e3a644abde889a0d434f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 08/43] fix: use four rows per contact in the soft body
 post-stabilization

---
 rainbow/simulators/prox_soft_bodies/solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..2de0a53 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -963,11 +963,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -984,10 +984,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
     x = get_position_vector(engine)
+    apply_boundary_conditions_on_velocities(delta_x, engine)  # Do not move fixed bodies and Dirichlet nodes.
     x += delta_x
     set_position_vector(x, engine)
 
-- 
2.43.0


From a3a5872511e09844811731e75a890f80dfe836f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/43] fix: do not move soft bodies of fixed type

---
 rainbow/simulators/prox_soft_bodies/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 2de0a53..83734f9 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1022,6 +1022,8 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
+        if body.is_fixed:
+            u[body.offset: body.offset + len(body.u)] = 0.0
         if len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
-- 
2.43.0


From f38c109d46d8934b1ad97f24ea61f62fe9eaa433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 10/43] fix: give every attempted soft body step its own time
 stamp

---
 rainbow/simulators/prox_soft_bodies/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 83734f9..eb3b928 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1067,6 +1067,9 @@ class SemiImplicitStepper:
             timer = Timer("Stepper")
             timer.start()
 
+        # Entries of an earlier step that did not complete must not be seen by this step's spatial hashing.
+        engine.params.time_stamp += 1
+
         stats = {}
 
         x = get_position_vector(engine)
@@ -1149,9 +1152,6 @@ class SemiImplicitStepper:
                 #  stepper in its own right. This might be cool for pre-processing of simulations to make sure
                 #  no penetrations are initially present.
                 stats = apply_post_stabilization(J, WJT, engine, stats, debug_on)
-        
-        # Update time stamp
-        engine.params.time_stamp += 1
 
         if debug_on:
             timer.end()
-- 
2.43.0


From 20d439f5d3882cf325dc07e7f372a1da1eb268ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/43] fix: recompute the soft body inverse mass matrix when
 bodies or materials change

---
 rainbow/simulators/prox_soft_bodies/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index eb3b928..6088f09 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1039,6 +1039,7 @@ class SemiImplicitStepper:
         self.log = []
         stats = {}
         self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
+        self.W_source = [body.M_array for body in engine.bodies.values()]
         if debug_on:
             self.log.append(stats)
 
@@ -1072,6 +1073,12 @@ class SemiImplicitStepper:
 
         stats = {}
 
+        # Bodies may have been added or given another material since the inverse mass matrix was computed.
+        M_arrays = [body.M_array for body in engine.bodies.values()]
+        if len(M_arrays) != len(self.W_source) or any(a is not b for a, b in zip(M_arrays, self.W_source)):
+            self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
+            self.W_source = M_arrays
+
         x = get_position_vector(engine)
         apply_boundary_conditions_on_positions(x, engine)
 
-- 
2.43.0


From 15f89cdb3c4f591e63d1b958397eefdfdd7e4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 12/43] fix: nodal traction forces add up to load times area

---
 rainbow/simulators/prox_soft_bodies/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 6088f09..3f55c06 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -343,13 +343,13 @@ class Native:
             #
             #   where load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From b0aaeeb1d35ef037c82c27b657ed6dea5e7d774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/43] fix: natural logarithm in the stable Neo-Hookean energy
 density

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 15229b7..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 7cfce1577288e79df0aad9381a6afec49be3f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 14/43] fix: use at least one thread in the parallel
 Gauss-Seidel solver

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..64cc46a 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -99,7 +99,7 @@ class ParallelGaussSeidelSolver(SolverInterface):
         color_groups = BLOCKING.greedy_graph_coloring(G)
 
         # Set the number of threads
-        nb.set_num_threads(4 if (nb.config.NUMBA_NUM_THREADS // 2) >= 4 else nb.config.NUMBA_NUM_THREADS // 2)
+        nb.set_num_threads(min(4, max(1, nb.config.NUMBA_NUM_THREADS // 2)))
 
         # Compute the new contact force
         w0 = self.WJT.dot(self.x)
-- 
2.43.0


From 66775720630113c7a9b7087537cd5eb18c577e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/43] fix: parallel Gauss-Seidel uses the changes of every
 color group processed before

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 64cc46a..561e41f 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,8 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # All changes made by the color groups processed before this one.
+            w = w0 + delta_ws.sum(axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From ccd3d3e1de43d328356f2d914e24ae241c5d818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 16/43] fix: a failing soft body post-stabilization must not
 leave a half completed step

---
 rainbow/simulators/prox_soft_bodies/solver.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 3f55c06..cc7cf64 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -943,11 +943,12 @@ def compute_elastic_energy(engine, stats, debug_on):
     return elastic
 
 
-def apply_post_stabilization(J, WJT, engine, stats, debug_on):
+def apply_post_stabilization(x, J, WJT, engine, stats, debug_on):
     """
     This function runs a simulation that computes nodal displacements in such
     a way to remove all penetrations.
 
+    :param x:           N-by-3 global position vector of the system, the displacements are added to it.
     :param J:           The Contact Jacobian matrix.
     :param WJT:         The transpose Contact Jacobian, premultiplied by the inverse mass matrix.
     :param engine:      The current engine instance we are working with.
@@ -987,10 +988,8 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
-    x = get_position_vector(engine)
     apply_boundary_conditions_on_velocities(delta_x, engine)  # Do not move fixed bodies and Dirichlet nodes.
     x += delta_x
-    set_position_vector(x, engine)
 
     if debug_on:
         timer.end()
@@ -1148,9 +1147,6 @@ class SemiImplicitStepper:
         x += u * dt
         apply_boundary_conditions_on_positions(x, engine)
 
-        set_velocity_vector(u, engine)
-        set_position_vector(x, engine)
-
         if engine.params.use_post_stabilization:
             if len(engine.contact_points) > 0:
                 # TODO 2021-12-07 Kenny: Here we re-use the contact Jacobian information we retried from the collision
@@ -1158,7 +1154,10 @@ class SemiImplicitStepper:
                 #  other time-stepping schemes. One could "build" the post stabilization routine as a specialized
                 #  stepper in its own right. This might be cool for pre-processing of simulations to make sure
                 #  no penetrations are initially present.
-                stats = apply_post_stabilization(J, WJT, engine, stats, debug_on)
+                stats = apply_post_stabilization(x, J, WJT, engine, stats, debug_on)
+
+        set_velocity_vector(u, engine)
+        set_position_vector(x, engine)
 
         if debug_on:
             timer.end()
-- 
2.43.0


From 81244c4a65e5e98d69b823c27801bce9b33c1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 17/43] fix: register a soft body in the engine only when it
 has been created completely

---
 rainbow/simulators/prox_soft_bodies/api.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 7a1597f..5940fe8 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -36,8 +36,6 @@ def create_soft_body(engine, body_name, V, T) -> None:
 
     # Create body
     body = SoftBody(body_name)
-    body.idx = len(engine.bodies)
-    engine.bodies[body_name] = body
 
     # Improve spatial/memory layout of volume mesh
     axis = FUNC.direction_of_most_variance(V)
@@ -73,13 +71,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
 
     
     # If we use spatial hashing we need to setup the hash grid, otherwise we create a BVH
+    cell_size = None
     if engine.params.use_spatial_hashing:
-        engine.hash_grid.increment_hash_table_size(len(body.surface))
-    
-        if engine.hash_grid.cell_size == 0:
-            engine.hash_grid.cell_size = HASH_GRID.HashGird.compute_optial_cell_size(body.x0, body.surface)
-        else :
-            engine.hash_grid.cell_size = (HASH_GRID.HashGird.compute_optial_cell_size(body.x0, body.surface)+engine.hash_grid.cell_size)/2 
+        cell_size = HASH_GRID.HashGird.compute_optial_cell_size(body.x0, body.surface)
     else:
         # Create bounding volume hierarchy data-structure (BVH), this will always be updated to live in
         # spatial coordinates and is tested against the signed distance field (who lives in constant material space) to
@@ -95,7 +89,17 @@ def create_soft_body(engine, body_name, V, T) -> None:
     # To have proper global indexing into assembled matrices and vectors we need to know this body nodel
     # index offset into this global space.
     body.offset = engine.number_of_nodes
+    body.idx = len(engine.bodies)
+
+    # Nothing above changes the engine, hence invalid input will not leave a half created body behind in the engine.
+    if cell_size is not None:
+        engine.hash_grid.increment_hash_table_size(len(body.surface))
+        if engine.hash_grid.cell_size == 0:
+            engine.hash_grid.cell_size = cell_size
+        else:
+            engine.hash_grid.cell_size = (cell_size + engine.hash_grid.cell_size) / 2
     engine.number_of_nodes += len(body.x0)
+    engine.bodies[body_name] = body
 
     
 
-- 
2.43.0


From 86eaa3a63d3b334385b2411f77313c2e4e4fa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 18/43] fix: sign of the hinge drift correction

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..afe1a30 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -208,9 +208,9 @@ class Hinges(Problem):
 
             n_c = Q.rotate(hinge.child.q, hinge.axis_c)
 
-            u = V3.cross(n_p, n_c)
+            u = V3.cross(n_c, n_p)
 
-            g[offset:offset + 3] = (r_c - r_p)
+            g[offset:offset + 3] = (r_p - r_c)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
         rate = engine.params.gap_reduction / dt
-- 
2.43.0


From d35462abca3ddd3797c600d5939c9038f4bf2938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 19/43] fix: write material pairs of interactions as text in
 write_xml

---
 rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index ca91a25..a933ee0 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -76,7 +76,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
-        interaction_xml_node.set("materials", key)
+        interaction_xml_node.set("materials", ",".join(key))
         interaction_xml_node.set("friction", np.array2string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
-- 
2.43.0


From 9a843593de9f33561e73c93e3fbe085ea252a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 20/43] fix: create_shape must not move the mesh of the caller

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 3973901..f3ba84e 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -202,7 +202,7 @@ def create_shape(engine, shape_name: str, mesh: MESH.Mesh, transform_to_body_fra
             "create_shape(): shape with that name already exist: " + shape_name
         )
     shape = Shape(shape_name)
-    shape.mesh = mesh
+    shape.mesh = MESH.Mesh(np.copy(mesh.V), np.copy(mesh.T))  # The mesh of the caller must stay in its model frame.
 
     # Next, we compute the mass properties of the shape assuming unit-mass-density.
     #
-- 
2.43.0


From dd6baae32408b54a315f9ad24d6abfe30390130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 21/43] fix: store a copy of the friction coefficients given by
 the caller

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index f3ba84e..332ec4f 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -669,7 +669,7 @@ def create_surfaces_interaction(engine, A: str, B: str, epsilon: float, mu) -> N
     key = tuple(tmp)
     behaviour = SurfacesInteraction()
     behaviour.epsilon = epsilon
-    behaviour.mu = mu
+    behaviour.mu = np.array(mu, dtype=np.float64)
     engine.surfaces_interactions.storage[key] = behaviour
 
 
-- 
2.43.0


From cce63b33004708e2b49876ca65d54cc2f8b26be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 22/43] fix: unique names stay unique when the clock stalls and
 the random generator is re-seeded

---
 rainbow/simulators/prox_rigid_bodies/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 332ec4f..002a538 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -6,6 +6,8 @@ The main idea is to create an engine instance and then fill
 the information needed to run the simulation.
 """
 
+import itertools
+
 import numpy as np
 
 import rainbow.geometry.surface_mesh as MESH
@@ -18,6 +20,11 @@ import rainbow.simulators.prox_rigid_bodies.steppers as STEPPERS
 from rainbow.simulators.prox_rigid_bodies.types import *
 import rainbow.math.matrix3 as M3
 
+# Number of unique names made so far. Neither the clock nor the random generator (which may be re-seeded) can be
+# trusted to never repeat.
+_unique_name_counter = itertools.count()
+
+
 def generate_unique_name(name: str) -> str:
     """
     This function helps to generate unique names, such that one can always locate objects based on name only.
@@ -29,7 +36,7 @@ def generate_unique_name(name: str) -> str:
     import random
     
     n = random.random()
-    unique_name = name + "_" + str(n) + "_" + str(datetime.datetime.now())
+    unique_name = name + "_" + str(n) + "_" + str(datetime.datetime.now()) + "_" + str(next(_unique_name_counter))
     
     # name causes issues with USD format, so we replace all invalid characters with an underscore.
     invalid_chars = [' ', '.', ':', '-']
-- 
2.43.0


From bce810dfbda8f1aa95dbe084c4f11aaa8bad7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 23/43] fix: potential energy counts only the gravity forces
 connected to a body

---
 rainbow/simulators/prox_rigid_bodies/state_storage.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/state_storage.py b/rainbow/simulators/prox_rigid_bodies/state_storage.py
index 493f32e..cbdbad2 100644
--- a/rainbow/simulators/prox_rigid_bodies/state_storage.py
+++ b/rainbow/simulators/prox_rigid_bodies/state_storage.py
@@ -218,11 +218,8 @@ class StateStorage:
 
             G = V3.make(0, 0, 0)
             has_gravity = False
-            # TODO 2024-07-28 Kenny: The engine is the only place that can tells us about forces attached to a rigid
-            #  body.
-            for force in engine.forces:
-                if isinstance(engine.forces[force], Gravity):
-                    gravity_force = engine.forces[force]
+            for gravity_force in body.forces:
+                if isinstance(gravity_force, Gravity):
                     G += gravity_force.up * gravity_force.g
                     has_gravity = True
             if has_gravity:
-- 
2.43.0


From 1c3ce44bc84a51ec2d9bd32f7c3878bdfa555517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 24/43] fix: body frames of shapes with (almost) equal
 principal moments were not rigid transforms

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..ad4c7ab 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,8 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    # A is symmetric, eig would not give orthogonal vectors when eigenvalues are (almost) equal.
+    d, R = np.linalg.eigh(A)
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From e98434bda205bae0807e2d5875609f941cf1bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 25/43] fix: a failing connect_shape left a body with a shape
 and the bounding volumes of another

---
 rainbow/simulators/prox_rigid_bodies/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 002a538..c4968c6 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -272,20 +272,22 @@ def connect_shape(engine, body_name: str, shape_name: str) -> None:
         shape = engine.shapes[shape_name]
     else:
         raise RuntimeError("connect() no such shape exist with that name")
-    body.shape = shape
     # K-DOP bounding volume hierarchies perform their collision tandem traversal in world space.
     #
     # Hence, their bounding volumes live in world space, and as bodies move around, we constantly need to update the
     # bounding volumes of the BVHs.
     #
     # Therefore, the BVH data structure is stored in the rigid body and not the shape.
-    body.bvh = BVH.make_bvh(
+    bvh = BVH.make_bvh(
         shape.mesh.V,
         shape.mesh.T,
         engine.params.K,
         engine.params.bvh_chunk_size,
         engine.params.envelope,
     )
+    # The shape and its hierarchy must always belong together, even if the hierarchy could not be created.
+    body.shape = shape
+    body.bvh = bvh
 
 
 def create_gravity_force(engine, force_name: str, g: float, up: np.ndarray) -> None:
-- 
2.43.0


From 0598254ce4296f0e3a6ed8b359e3e2636d5b601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 26/43] fix: a failing set_hinge left a hinge with only one of
 its sockets changed

---
 rainbow/simulators/prox_rigid_bodies/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index c4968c6..bb64bd5 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -6,6 +6,7 @@ The main idea is to create an engine instance and then fill
 the information needed to run the simulation.
 """
 
+import copy
 import itertools
 
 import numpy as np
@@ -159,8 +160,11 @@ def set_hinge(
 
     parent_socket = FRAME.make(r_parent_socket, q_parent_socket)
     child_socket = FRAME.make(r_child_socket, q_child_socket)
+    # Work on a copy, such that a failure on the way can never leave a hinge behind with only one of its sockets changed.
+    hinge, original = copy.copy(hinge), hinge
     hinge.set_parent_socket(parent_link, parent_socket)
     hinge.set_child_socket(child_link, child_socket)
+    vars(original).update(vars(hinge))
 
 
 def create_mesh(V: np.ndarray, T: np.ndarray) -> MESH.Mesh:
-- 
2.43.0


From 3011c265b103b093087fac258d9a0365d6707ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 27/43] fix: the values in an exported scene depended on the
 print options of numpy

---
 .../prox_rigid_bodies/scenes/write_xml.py     | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index a933ee0..85495dd 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -9,6 +9,16 @@ import rainbow.math.quaternion as Q
 import rainbow.simulators.prox_rigid_bodies.types as TYPES
 
 
+def _vector_to_string(values) -> str:
+    """
+    Convert a vector to text that reads back as exactly the same numbers, whatever the print options of numpy are.
+
+    :param values:   The vector to convert.
+    :return:         The text representation of the vector.
+    """
+    return "[" + " ".join(str(value) for value in np.asarray(values).tolist()) + "]"
+
+
 def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     """
     Write a scene to xml-file.
@@ -29,12 +39,12 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
         body_xml_node.set("name", body.name)
         body_xml_node.set("idx", str(body.idx))
         body_xml_node.set("shape", body.shape.name)
-        body_xml_node.set("pos", np.array2string(body.r))
-        body_xml_node.set("rot", np.array2string(body.q))
-        body_xml_node.set("vel", np.array2string(body.v))
-        body_xml_node.set("spin", np.array2string(body.w))
+        body_xml_node.set("pos", _vector_to_string(body.r))
+        body_xml_node.set("rot", _vector_to_string(body.q))
+        body_xml_node.set("vel", _vector_to_string(body.v))
+        body_xml_node.set("spin", _vector_to_string(body.w))
         body_xml_node.set("mass", str(body.mass))
-        body_xml_node.set("inertia", np.array2string(body.inertia))
+        body_xml_node.set("inertia", _vector_to_string(body.inertia))
         body_xml_node.set("is_fixed", str(body.is_fixed))
         body_xml_node.set("material", body.material)
         for force in body.forces:
@@ -48,7 +58,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
             gravity_xml_node.set("name", force.name)
             # print(force.force_type)
             gravity_xml_node.set("g", str(force.g))
-            gravity_xml_node.set("up", np.array2string(force.up))
+            gravity_xml_node.set("up", _vector_to_string(force.up))
         if force.force_type == "Damping":
             damping_xml_node = ET.SubElement(forces_xml_node, "damping")
             damping_xml_node.set("name", force.name)
@@ -65,19 +75,19 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
         for idx, v in enumerate(shape.mesh.V):
             vertex_xml_node = ET.SubElement(vertices_xml_node, "v")
             vertex_xml_node.set("idx", str(idx))
-            vertex_xml_node.set("p", np.array2string(v))
+            vertex_xml_node.set("p", _vector_to_string(v))
         triangles_xml_node = ET.SubElement(shape_xml_node, "triangles")
         triangles_xml_node.set("count", str(len(shape.mesh.T)))
         for idx, t in enumerate(shape.mesh.T):
             triangle_xml_node = ET.SubElement(triangles_xml_node, "t")
             triangle_xml_node.set("idx", str(idx))
-            triangle_xml_node.set("labels", np.array2string(t))
+            triangle_xml_node.set("labels", _vector_to_string(t))
 
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
         interaction_xml_node.set("materials", ",".join(key))
-        interaction_xml_node.set("friction", np.array2string(interaction.mu))
+        interaction_xml_node.set("friction", _vector_to_string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
     hinges_xml_node = ET.SubElement(root, "hinges")
@@ -91,8 +101,8 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
         hinge_xml_node.set("child-idx", str(hinge.child.idx))
         o_world = Q.rotate(hinge.parent.q, hinge.arm_p) + hinge.parent.r
         s_world = Q.rotate(hinge.parent.q, hinge.axis_p)
-        hinge_xml_node.set("origin", np.array2string(o_world))
-        hinge_xml_node.set("axis", np.array2string(s_world))
+        hinge_xml_node.set("origin", _vector_to_string(o_world))
+        hinge_xml_node.set("axis", _vector_to_string(s_world))
         hinge_xml_node.set("mode", "world")
 
     params_xml_node = ET.SubElement(root, "params")
-- 
2.43.0


From 7c2d4ef1fd21208f8f9d182795a03342ff1236f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 28/43] fix: contact normals of deformed or rotated soft bodies
 were transformed with transposed matrices

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index bf084e4..9728dfd 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -265,7 +265,7 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    n = np.linalg.solve(D, D0.dot(n))  # Normals are carried by the inverse transpose of the deformation gradient
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From d04bc311dcc0a66ac62d892620c1de1222675ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 29/43] fix: soft body contacts treated fixed bodies and
 Dirichlet nodes as free to move

---
 rainbow/simulators/prox_soft_bodies/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index cc7cf64..7d90080 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1101,6 +1101,7 @@ class SemiImplicitStepper:
         # ---------------------------------------------------------------------
 
         u_prime = u + dt * self.W.dot(F_tot)
+        apply_boundary_conditions_on_velocities(u_prime.reshape((-1, 3)), engine)  # Contacts must see the constrained nodes at rest.
 
         # TODO 2021-12-07 Kenny: The whole collision detection system uses body positions (state info) stored in body
         #  instances and not stored in global position vectors. This provides a design problem if one wish to perform
@@ -1121,6 +1122,10 @@ class SemiImplicitStepper:
 
             J = compute_jacobian_matrix(engine, stats, debug_on)
             WJT = self.W.dot(J.T)
+            # Contact forces can not move fixed bodies and Dirichlet nodes, these behave as if they had infinite mass.
+            is_free = np.ones((engine.number_of_nodes, 3), dtype=np.float64)
+            apply_boundary_conditions_on_velocities(is_free, engine)
+            WJT = sparse.diags(is_free.reshape(-1)).dot(WJT)
 
             if engine.params.use_pre_stabilization:
                 raise ValueError("Pre-stabilization has not been implemented")
-- 
2.43.0


From a631d89716ad76f8ca27d0b06abd05d43d2b9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 30/43] fix: soft bodies without a material crashed and changes
 of density or viscosity did not reach bodies already made of the material

---
 rainbow/simulators/prox_soft_bodies/api.py | 43 +++++++++++++++++-----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 5940fe8..ce6459f 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -65,6 +65,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
         boundary,
     )
 
+    # A body is made of the default material until it is given another one
+    _assign_material(body, engine.materials["default"])
+
     # Create spatial volume mesh variables
     body.x = np.array(mesh.V, copy=True, dtype=np.float64)
     body.u = np.zeros(V.shape, dtype=np.float64)
@@ -281,17 +284,25 @@ def set_material(engine, body_name, material_name) -> None:
     body = engine.bodies[body_name]
     if material_name not in engine.materials:
         raise ValueError("Engine did not have a material with name ", material_name)
-    material = engine.materials[material_name]
-    body.material_description = material
-    body.M_array = SOLVER.Native.compute_mass_element_array(
-        body.material_description.rho,
-        body.vol0,
-        body.T,
-        body.is_lumped
+    _assign_material(body, engine.materials[material_name])
+
+
+def _assign_material(body, material) -> None:
+    """
+    Make a body of the given material, with the mass and damping elements that follow from it.
+
+    :param body:      The soft body.
+    :param material:  The material description.
+    """
+    M_array = SOLVER.Native.compute_mass_element_array(
+        material.rho, body.vol0, body.T, body.is_lumped
     )
-    body.C_array = SOLVER.Native.compute_damping_element_array(
-        body.material_description.c, body.vol0, body.T, body.is_lumped
+    C_array = SOLVER.Native.compute_damping_element_array(
+        material.c, body.vol0, body.T, body.is_lumped
     )
+    body.material_description = material
+    body.M_array = M_array
+    body.C_array = C_array
 
 
 def set_elasticity(engine, material_name, E, nu) -> None:
@@ -329,7 +340,14 @@ def set_viscosity(engine, material_name, c) -> None:
     if c < 0:
         raise ValueError("c must be non-negative")
     material = engine.materials[material_name]
+    # Bodies that are already made of this material must follow the change
+    bodies = [body for body in engine.bodies.values() if body.material_description is material]
+    C_arrays = [
+        SOLVER.Native.compute_damping_element_array(c, body.vol0, body.T, body.is_lumped) for body in bodies
+    ]
     material.c = c
+    for body, C_array in zip(bodies, C_arrays):
+        body.C_array = C_array
 
 
 def set_mass_density(engine, material_name, rho) -> None:
@@ -346,7 +364,14 @@ def set_mass_density(engine, material_name, rho) -> None:
     if rho < 0:
         raise ValueError("rho must be non-negative")
     material = engine.materials[material_name]
+    # Bodies that are already made of this material must follow the change
+    bodies = [body for body in engine.bodies.values() if body.material_description is material]
+    M_arrays = [
+        SOLVER.Native.compute_mass_element_array(rho, body.vol0, body.T, body.is_lumped) for body in bodies
+    ]
     material.rho = rho
+    for body, M_array in zip(bodies, M_arrays):
+        body.M_array = M_array
 
 
 def set_constitutive_model(engine, material_name, model) -> None:
-- 
2.43.0


From 28567588dc0fb47278486e420e4f608939f35305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 31/43] fix: a failing implicit function left half of the
 boundary conditions of a soft body behind

---
 rainbow/simulators/prox_soft_bodies/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index ce6459f..fbc151b 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -122,9 +122,11 @@ def create_dirichlet_conditions(engine, body_name, phi) -> None:
         raise ValueError("Engine does not contain soft body of name", body_name)
 
     body = engine.bodies[body_name]
+    conditions = []
     for i in range(len(body.x0)):
         if phi(body.x0[i]) <= 0:
-            body.dirichlet_conditions.append(DirichletCondition(i, body.x0[i]))
+            conditions.append(DirichletCondition(i, body.x0[i]))
+    body.dirichlet_conditions.extend(conditions)
 
 
 def create_traction_conditions(engine, body_name, phi, load) -> None:
@@ -145,6 +147,7 @@ def create_traction_conditions(engine, body_name, phi, load) -> None:
     if body_name not in engine.bodies:
         raise ValueError("Engine does not contain soft body of name", body_name)
     body = engine.bodies[body_name]
+    conditions = []
     for triangle in body.surface:
         # Check that the triangle is inside phi volume
         i = triangle[0]
@@ -152,7 +155,8 @@ def create_traction_conditions(engine, body_name, phi, load) -> None:
         k = triangle[2]
         if phi(body.x0[i]) <= 0 and phi(body.x0[j]) <= 0 and phi(body.x0[k]) <= 0:
             # Triangle was inside, so we create a traction condition for it.
-            body.traction_conditions.append(TractionCondition(i, j, k, load))
+            conditions.append(TractionCondition(i, j, k, load))
+    body.traction_conditions.extend(conditions)
 
 
 def set_velocity(engine, body_name, v) -> None:
-- 
2.43.0


From 3464526a4d50820a4c01c6e83523821da735a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 32/43] fix: the test for intersecting triangles of a soft body
 missed most intersections

---
 .../prox_soft_bodies/collision_detection.py   | 72 +++++++++++--------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 9728dfd..9ed32f6 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -53,52 +53,62 @@ def _is_share_vertex(tri1, tri2):
     return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
 
 
-def _triangle_intersection(tri1, tri2):
-    """ Test if two triangles of a same body intersect
-        To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
-        which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
-        
+def _segment_triangle_intersection(p, q, tri):
+    """ Test if the line segment from p to q passes through a triangle (Moller-Trumbore intersection algorithm,
+        https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm).
+
     Args:
-        tri1 (ArrayLike): coordinates of the first triangle
-        tri2 (ArrayLike): coordinates of the second triangle
+        p (ArrayLike): coordinates of the start of the segment
+        q (ArrayLike): coordinates of the end of the segment
+        tri (ArrayLike): coordinates of the triangle
 
     Returns:
-        bool: True if the two triangles intersect, False otherwise
+        bool: True if the segment intersects the triangle, False otherwise (also if it is parallel to the triangle)
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
+    v1, v2, v3 = tri
+    d = q - p
     e1 = v2 - v1
     e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
+    h = np.cross(d, e2)
+    a = np.dot(e1, h)
 
-    # Check if the two triangles are parallel or not
-    if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
+    # Check if the segment and the triangle are parallel or not
+    if abs(a) <= np.finfo(float).eps * np.linalg.norm(d) * np.linalg.norm(e1) * np.linalg.norm(e2):
+        return False
 
-    # Check the intersection point is inside the triangle(tri1)
+    # Check if the intersection point of the line and the plane is inside the triangle
     f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
+    s = p - v1
+    u = f * np.dot(s, h)
     if u < 0.0 or u > 1.0:
         return False
-
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
+    w = np.cross(s, e1)
+    v = f * np.dot(d, w)
     if v < 0.0 or u + v > 1.0:
         return False
 
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    # Check if the intersection point is on the segment
+    t = f * np.dot(e2, w)
+    return bool(0.0 <= t <= 1.0)
+
 
+def _triangle_intersection(tri1, tri2):
+    """ Test if two triangles of a same body intersect
+        Two triangles that are not in the same plane intersect if and only if an edge of one of them passes
+        through the other one.
+
+    Args:
+        tri1 (ArrayLike): coordinates of the first triangle
+        tri2 (ArrayLike): coordinates of the second triangle
+
+    Returns:
+        bool: True if the two triangles intersect, False otherwise
+    """
+    for i in range(3):
+        if _segment_triangle_intersection(tri1[i], tri1[(i + 1) % 3], tri2):
+            return True
+        if _segment_triangle_intersection(tri2[i], tri2[(i + 1) % 3], tri1):
+            return True
     return False
 
 
-- 
2.43.0


From 26c509df625ad6de1942b5d0d777b5d641fe2cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 33/43] fix: the spatial hashing of soft bodies missed geometry
 that is within the envelope but does not overlap

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 9ed32f6..a349cc3 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -157,9 +157,10 @@ def _spatial_hashing_narrow_phase(engine, stats, debug_on):
 
     for body in engine.bodies.values():
         tri_vertices = body.x[body.surface, :]
-        # Compute the AABB of each triangle by vectorizing the min/max operation
-        tri_aabb_min = np.min(tri_vertices, axis=1)
-        tri_aabb_max = np.max(tri_vertices, axis=1)
+        # Compute the AABB of each triangle by vectorizing the min/max operation, the envelope makes
+        # sure that geometry that is close by is found too.
+        tri_aabb_min = np.min(tri_vertices, axis=1) - engine.params.envelope
+        tri_aabb_max = np.max(tri_vertices, axis=1) + engine.params.envelope
         cell_min = (tri_aabb_min / cell_size).astype(int)
         cell_max = (tri_aabb_max / cell_size).astype(int) + 1
 
-- 
2.43.0


From 0e093692bf9f1e78ed9a1463e7b7056d7141b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 34/43] fix: the search for the deepest point of a triangle
 ended early depending on where the bodies were created

The early exit compared the gradient with the position of a corner relative to the origin of the
model space rather than relative to the current point (the directional derivative), so triangles of
bodies created away from the origin were often reported at a shallow point or not at all.
---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 4 ++--
 rainbow/simulators/prox_soft_bodies/collision_detection.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index db4f09a..fa6a4ed 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -148,7 +148,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
             # Pick the triangle vertex 's_i' which minimizes the dot product with
             # the current gradient at 'x_i'. That is the vertex with "largest" descent.
             objectives = [
-                np.dot(s_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
+                np.dot(s_i - x_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
             ]
             vertex = np.argmin(objectives)
             s_i = p_bs[vertex]
@@ -161,7 +161,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
             # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
             # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
             # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
+            if objectives[vertex] > -engine.params.contact_optimization_tolerance:
                 break
         if profiling_on:
             contact_optimization_timer.end()
diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index a349cc3..a8bed34 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -341,7 +341,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
             #  of x_i in a local variable.
             # Pick the triangle vertex 's_i' which minimizes the dot product with
             # the current gradient at 'x_i'. That is the vertex with "largest" descent.
-            objectives = [np.dot(s_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
+            objectives = [np.dot(s_i - x_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
             vertex = np.argmin(objectives)
             s_i = P0[vertex]
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
@@ -353,7 +353,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
             # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
             # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
             # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
+            if objectives[vertex] > -engine.params.contact_optimization_tolerance:
                 break
         if debug_on:
             contact_optimization_timer.end()
-- 
2.43.0


From 4e88b32e2c0a1fe6ee108c22508c9ac180a51697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 35/43] fix: inverse kinematics Hessian had transposed blocks
 and wrong terms within a bone

---
 rainbow/simulators/inverse_kinematics/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..90d0e28 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -345,9 +345,13 @@ def compute_hessian(chains, skeleton, J):
                      [uc, vc, wc]]
                 )
 
-                H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
+                # The rows of dH belong to the angles of bone k and the columns to those of bone h. Within one bone only
+                # the terms are valid where the axis comes before (or is) the one that is rotated, and dH is symmetric.
+                if h == k:
+                    dH = np.tril(dH) + np.transpose(np.tril(dH, -1))
+                H[k_offset:k_offset + 3, h_offset:h_offset + 3] -= dH
                 if h != k:
-                    H[k_offset:k_offset + 3, h_offset:h_offset + 3] -= np.transpose(dH)
+                    H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= np.transpose(dH)
 
         row_offset += 3
     return H
-- 
2.43.0


From 30cd5fd6b2469a76487ea3df8d46449b2edb9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 36/43] fix: finite differences of inverse kinematics left the
 skeleton in a perturbed pose

---
 rainbow/simulators/inverse_kinematics/api.py | 24 ++++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 90d0e28..21f8be6 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -531,8 +531,15 @@ def compute_finite_difference_gradient(chains, skeleton, h=0.1):
     """
     N = len(skeleton.bones) * 3
     g = np.zeros((N,), dtype=np.float64)
-    for i in range(N):
-        g[i] = __numerical_differentiation_first_derivative(chains, skeleton, i, h)
+    angles = [get_angle(i, skeleton) for i in range(N)]
+    try:
+        for i in range(N):
+            g[i] = __numerical_differentiation_first_derivative(chains, skeleton, i, h)
+    finally:
+        # The skeleton was posed with perturbed angles, put everything back
+        set_joint_angles(skeleton, angles)
+        if skeleton.has_root():
+            update_skeleton(skeleton)
     return g
 
 
@@ -552,8 +559,15 @@ def compute_finite_difference_hessian(chains, skeleton, h=0.1):
     """
     N = len(skeleton.bones) * 3
     H = np.zeros((N, N), dtype=np.float64)
-    for i in range(N):
-        for j in range(N):
-            H[i, j] = __numerical_differentiation_second_derivative(chains, skeleton, i, j, h)
+    angles = [get_angle(i, skeleton) for i in range(N)]
+    try:
+        for i in range(N):
+            for j in range(N):
+                H[i, j] = __numerical_differentiation_second_derivative(chains, skeleton, i, j, h)
+    finally:
+        # The skeleton was posed with perturbed angles, put everything back
+        set_joint_angles(skeleton, angles)
+        if skeleton.has_root():
+            update_skeleton(skeleton)
     return H
 
-- 
2.43.0


From 2c358365a35368af4bc8b20b3489b78aaa481cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 37/43] fix: a rejected USD rigid body update recorded the
 translation

---
 rainbow/util/USD.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/util/USD.py b/rainbow/util/USD.py
index 56ea340..d324b32 100644
--- a/rainbow/util/USD.py
+++ b/rainbow/util/USD.py
@@ -68,6 +68,10 @@ class USD:
         if not isinstance(xformable, _XFormableWrapper):
             raise TypeError(f'Rigid body {name} has the wrong type.')
 
+        # Nothing is recorded unless all of the pose is valid
+        if len(orientation) != 4:
+            raise ValueError('orientation must be 4-dimensional.')
+
         xformable.set_translation(translation, time)
         xformable.set_orientation(orientation, time)
 
-- 
2.43.0


From 3f9e3cc891efcb5d3d4879406382be7b20bc6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 38/43] fix: the scale of URDF meshes was ignored

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..6f315cb 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -238,8 +238,12 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         X_c2b = X.make_coordsys_from_to(X_c2r, X_b2r)
         logger.info(f'{body_name} has collision frame to body from translation {X_c2b.r} and rotation {X_c2b.q}')
 
-        V = link['collision']['vertices']
+        # The mesh file is given in the units and handedness of its author, the scale brings it into collision space
+        scale = np.array(link['collision']['scale'], dtype=np.float64)
+        V = link['collision']['vertices'] * scale
         F = link['collision']['faces']
+        if np.prod(scale) < 0:
+            F = F[:, ::-1]  # A reflection turns the triangles inside out
 
         # Next, we will make sure the mesh data lives in the body-space of the link
         # This is only necessary to do if X_c2b is not identity transform
-- 
2.43.0


From 58ae738361c223ae9498c9d59f103c5b232b52dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 39/43] fix: children of a URDF root link with an inertial
 origin were misplaced

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index 6f315cb..37f3564 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -340,6 +340,8 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         root.X_b2r.q,
         use_model_frame=False
     )
+    # The root reference frame is the world frame, from here on X_b2r of a visited link holds its reference frame wrt world
+    root.X_b2r = X.make(V3.zero(), Q.identity())
 
     while stack:
         parent = stack.pop()
-- 
2.43.0


From 28ed96b2c15200a409e6e1416d7a8d573f44510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 40/43] fix: the hinges of the gear train did not let the gears
 turn about their axes

---
 .../simulators/prox_rigid_bodies/scenes/create_gear_train.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 58e80a6..07e164e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -451,7 +451,7 @@ def create_gear_train(engine: Engine,
             parent_name=parent_name,
             child_name=child_name,
             origin= origin,
-            axis= V3.k(),
+            axis=V3.j(),  # The gears turn about the up-direction of the world
             mode="world"
         )
 
-- 
2.43.0


From 19b6a51d71924842102c6c150a45355930a1c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 41/43] fix: create_rock_slide returned a list inside its list
 of body names

---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0


From d69ad97cdf84b691acb09b6cf668c37bb218473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:34 +0000
Subject: [PATCH 42/43] fix: small rigid bodies lost their mass and inertia

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index ad4c7ab..c489794 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -268,15 +268,16 @@ def compute_mass_properties(V: np.ndarray, T: np.ndarray, density: float) -> Mas
             "compute_mass_properties(): internal error, bad mesh encountered"
         )
     # We clamp computed values to zero if they are very tiny numbers.
-    # This is mainly due to making inertia tensor more human-readable when printing it.
-    too_small = 1.0e-10
-    prop.mass = prop.mass if prop.mass > too_small else 0.0
+    # This is mainly due to making inertia tensor more human-readable when printing it. What is tiny depends on the size
+    # of the mesh, a small object must not lose its mass or inertia.
+    too_small = 1.0e-10 * min(1.0, prop.Ixx + prop.Iyy + prop.Izz)
     prop.Ixx = prop.Ixx if prop.Ixx > too_small else 0.0
     prop.Iyy = prop.Iyy if prop.Iyy > too_small else 0.0
     prop.Izz = prop.Izz if prop.Izz > too_small else 0.0
     prop.Ixy = prop.Ixy if abs(prop.Ixy) > too_small else 0.0
     prop.Iyz = prop.Iyz if abs(prop.Iyz) > too_small else 0.0
     prop.Ixz = prop.Ixz if abs(prop.Ixz) > too_small else 0.0
+    too_small = 1.0e-10 * min(1.0, np.abs(V).max())
     prop.x = prop.x if abs(prop.x) > too_small else 0.0
     prop.y = prop.y if abs(prop.y) > too_small else 0.0
     prop.z = prop.z if abs(prop.z) > too_small else 0.0
@@ -347,7 +348,7 @@ def __translate_to_body_space_origin(prop_model: MassProperties) -> tuple[np.nda
     prop_body.Iyy = prop_model.Iyy - m * (x * x + z * z)
     prop_body.Izz = prop_model.Izz - m * (x * x + y * y)
 
-    too_small = 1.0e-10
+    too_small = 1.0e-10 * min(1.0, prop_body.Ixx + prop_body.Iyy + prop_body.Izz)
     prop_body.Ixy = prop_model.Ixy + m * (x * y)
     prop_body.Ixy = prop_body.Ixy if np.abs(prop_body.Ixy) > too_small else 0.0
     prop_body.Ixz = prop_model.Ixz + m * (x * z)
-- 
2.43.0


From 3c4ff6e1e87da5c8387559ccebc33843077ea7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:46 +0000
Subject: [PATCH 43/43] fix: side bricks of a temple overlapped when pillars
 are wider than deep

---
 .../prox_rigid_bodies/scenes/create_temple.py | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py
index e962c98..43c5d7b 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py
@@ -228,6 +228,12 @@ def create_temple(
             API.set_position(engine, body_name, r_g, True)
             API.set_orientation(engine, body_name, q_g, True)
 
+    # The bricks along the depth-axis span pillars that are 2*pillar_depth apart
+    shape_name = API.generate_unique_name("regular_side_epistyle_brick_shape")
+    V, T = MESH.create_box(2.0 * pillar_depth, epistyle_height, pillar_width)
+    mesh = API.create_mesh(V, T)
+    API.create_shape(engine, shape_name, mesh)
+
     for k in range(1, K_pillars, 3):
         z = 2 * k * pillar_depth - temple_depth / 2.0 + pillar_depth * 1.5
 
@@ -321,6 +327,20 @@ def create_temple(
     API.set_position(engine, body_name, r_g, True)
     API.set_orientation(engine, body_name, q_g, True)
 
+    shape_name = API.generate_unique_name("corner_side_epistyle_brick_shape")
+    p0 = V3.make(-1.5 * pillar_depth, epistyle_height / 2.0, pillar_width / 2.0)
+    p1 = V3.make(1.0 * pillar_depth, epistyle_height / 2.0, pillar_width / 2.0)
+    p2 = V3.make(1.0 * pillar_depth, epistyle_height / 2.0, -pillar_width / 2.0)
+    p3 = V3.make(-0.5 * pillar_depth, epistyle_height / 2.0, -pillar_width / 2.0)
+    p4 = p0 - V3.make(0.0, epistyle_height, 0.0)
+    p5 = p1 - V3.make(0.0, epistyle_height, 0.0)
+    p6 = p2 - V3.make(0.0, epistyle_height, 0.0)
+    p7 = p3 - V3.make(0.0, epistyle_height, 0.0)
+
+    V, T = MESH.create_cuboid(p0, p1, p2, p3, p4, p5, p6, p7)
+    mesh = API.create_mesh(V, T)
+    API.create_shape(engine, shape_name, mesh)
+
     body_name = API.generate_unique_name("epistyle_brick_body")
     body_names.append(body_name)
     API.create_rigid_body(engine, body_name)
-- 
2.43.0

