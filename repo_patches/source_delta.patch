From 0ba48358804b86f914847f84f2b1cbae629a7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 01/16] fix: return the PETSc augmented matrix from
 get_A_fn_and_res_aug

With use_petsc=True the matrix was bound to A while A_aug was returned, so any
periodic problem solved with PETSc raised UnboundLocalError.
---
 jax_am/fem/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 612c069..08e7847 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -564,10 +564,10 @@ def get_A_fn_and_res_aug(problem, dofs_aug, res_vec, p_num_eps, use_petsc):
 
     if use_petsc:
 
-        A = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
-                                  csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
-                                       A_sp_scipy_aug.data))
+        A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
+                                      csr=(A_sp_scipy_aug.indptr.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.indices.astype(PETSc.IntType, copy=False),
+                                           A_sp_scipy_aug.data))
 
         # A_aug = PETSc.Mat().createAIJ(size=A_sp_scipy_aug.shape,
         #                               csr=(A_sp_scipy_aug.indptr,
-- 
2.43.0


From 4186109dc2ad30f93ac0d7c3e195fc7792c89f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 02/16] fix: solve the PETSc adjoint system with bcgsl instead
 of minres

The row-eliminated matrix (and so its transpose) is not symmetric, so minres does
not converge when the objective depends on constrained dofs and the gradient is
silently wrong. Use the same solver as the forward problem.
---
 jax_am/fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 08e7847..a757d18 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -912,7 +912,7 @@ def implicit_vjp(problem, sol, params, v, use_petsc):
         #     A_transpose.zeroRows(row_inds)
         # v = assign_zeros_bc(v, problem)
 
-        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'minres', 'ilu')
+        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'bcgsl', 'ilu')
 
     else:
         adjoint_linear_fn = get_vjp_contraint_fn_dofs(sol.reshape(-1))
-- 
2.43.0


From cb9705bddd3bd7950f84dab1b56f17b14cd5b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:25 +0000
Subject: [PATCH 03/16] fix: use a nodal basis for HEX20 and QUAD8 elements

basix serendipity edge dofs are integral moments, so mid-edge nodal values were
not interpolated (and curved/quadratic geometry was wrong).
---
 jax_am/fem/basis.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/basis.py b/jax_am/fem/basis.py
index e2de6b3..9e046b5 100644
--- a/jax_am/fem/basis.py
+++ b/jax_am/fem/basis.py
@@ -101,6 +101,22 @@ def reorder_inds(inds, re_order):
     return new_inds
 
 
+def tabulate_nodal_basis(element_family, basix_ele, degree, re_order, points):
+    """Tabulate (values and first derivatives) the nodal basis in mesh node ordering.
+    The dofs of basix serendipity elements on edges are integral moments, so the basix basis
+    must be transformed to the basis that is nodal at the vertices and the mid-edge nodes.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        mid_edges = [onp.mean(vertices[edge], axis=0) for edge in basix.topology(basix_ele)[1]]
+        nodes = onp.vstack((vertices, mid_edges))
+        coeffs = onp.linalg.inv(element.tabulate(0, nodes)[0, :, :, 0])
+        vals_and_grads = onp.einsum('dqib,ij->dqjb', vals_and_grads, coeffs)
+    return vals_and_grads[:, :, re_order, :]
+
+
 def get_shape_vals_and_grads(ele_type):
     """TODO: Add comments
 
@@ -115,8 +131,7 @@ def get_shape_vals_and_grads(ele_type):
     """
     element_family, basix_ele, basix_face_ele, gauss_order, degree, re_order = get_elements(ele_type)
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, re_order, quad_points)
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -176,8 +191,8 @@ def get_face_shape_vals_and_grads(ele_type):
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, re_order,
+                                          face_quad_points.reshape(-1, dim))
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 74810d680c5d923c913e8287c3f57de02aaf5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:45 +0000
Subject: [PATCH 04/16] fix: get_face_vel_component for the z direction

The upper ghost layer was the whole list of ghost layers and an undefined name
was returned, so axis=2 always raised.
---
 jax_am/cfd/cfd_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 3c97e60..755f95c 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -133,10 +133,10 @@ def get_face_vel_component(vel, dX, axis=0, BCs=None):
 
     if axis == 2:
         w = np.concatenate(
-            (vel_gc[4], vel, vel_gc),
+            (vel_gc[4], vel, vel_gc[5]),
             axis=2)
         w_f = (w[:, :, 1:] + w[:, :, :-1]) / 2
-        return v_f
+        return w_f
 
 
 class AM_3d():
-- 
2.43.0


From a35beb45c53ef1e04bbc53508a6f3a9657cae9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:45 +0000
Subject: [PATCH 05/16] fix: gradient honours the boundary conditions it is
 given

The BCs argument was ignored and zero-flux ghost values were always used.
---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 755f95c..5fea4eb 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -82,7 +82,7 @@ def div(f, vel_f, dX, theta=0.125, BCs=None):
 def gradient(f, dX, BCs=None):
     if BCs == None:
         BCs = [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]]
-    f_gc = get_GC_values(f, [[1, 1, 1, 1, 1, 1], [0., 0., 0., 0., 0., 0.]], dX)
+    f_gc = get_GC_values(f, BCs, dX)
     return np.concatenate(((np.diff(f, axis=0, append=f_gc[1]) +
                             np.diff(f, axis=0, prepend=f_gc[0])) / dX[0] / 2.,
                            (np.diff(f, axis=1, append=f_gc[3]) +
-- 
2.43.0


From ca345187f38148ed5c1c2108dda56a15cc454c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:02 +0000
Subject: [PATCH 06/16] fix: to_data_frame assigns each file the time of its
 own step

Files were taken in os.listdir order, the counter advanced once per field instead
of once per file, and the step interval came from an arbitrary file, so rows were
labelled with wrong times.
---
 jax_am/common.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/jax_am/common.py b/jax_am/common.py
index a83df28..522e4ab 100644
--- a/jax_am/common.py
+++ b/jax_am/common.py
@@ -94,16 +94,11 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
     all_data = []
     mesh = meshio.read(mesh_dir)
     mesh_df = pd.DataFrame(mesh.points, columns=["x", "y", "z"])
-    vtu_files = [f for f in os.listdir(vtk_dir) if f.endswith('.vtu')]
-    
-    # Assuming the first file is always available and correctly formatted
-    stepsave = int(vtu_files[1][-9:-4])
-    print(f"Step save: {stepsave}")
-    
-    i = 0
+    # File names end with the five-digit step number, e.g., u_00020.vtu
+    vtu_files = sorted([f for f in os.listdir(vtk_dir) if f.endswith('.vtu')], key=lambda f: f[-9:-4])
     
     for vtu_file in vtu_files:
-        time_value = round(i * stepsave * dt, 8)
+        time_value = round(int(vtu_file[-9:-4]) * dt, 8)
         time = pd.Series(onp.full(len(mesh_df), time_value))
         vtu_path = os.path.join(vtk_dir, vtu_file)
         vtu_data = meshio.read(vtu_path)
@@ -120,7 +115,6 @@ def to_data_frame(data_dir, dt=2 * 1e-6):
                     for idx in onp.ndindex(data.shape[1:]):
                         flattened_name = f"{name}_{'_'.join(map(str, idx))}"
                         data_dict[flattened_name] = data[(slice(None),) + idx]
-                i += 1
                 
             all_data.append(pd.DataFrame(data_dict))
     
-- 
2.43.0


From bdc789152f10ba2968639a49322b66ef2f2a7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:27 +0000
Subject: [PATCH 07/16] fix: make dynamic_relax_solve run and relax

The solver raised NameError (dofs and sol_shape undefined), passed int64 indices
to PETSc, left out two printInfo arguments and never updated the velocities.
Restore the update of the FEniCS version it was translated from.
---
 jax_am/fem/solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index a757d18..8476f33 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -666,7 +666,8 @@ def assembleCSR(problem, dofs):
         shape=(problem.num_total_dofs, problem.num_total_dofs))
 
     A = PETSc.Mat().createAIJ(size=A_sp_scipy.shape,
-                              csr=(A_sp_scipy.indptr, A_sp_scipy.indices,
+                              csr=(A_sp_scipy.indptr.astype(PETSc.IntType, copy=False),
+                                   A_sp_scipy.indices.astype(PETSc.IntType, copy=False),
                                    A_sp_scipy.data))
     for i in range(len(problem.node_inds_list)):
         row_inds = onp.array(problem.node_inds_list[i] * problem.vec +
@@ -722,6 +723,9 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
     There is a FEniCS version of this dynamic relaxation algorithm.
     The code below is a direct translation from the FEniCS version.
     """
+    sol_shape = (problem.num_total_nodes, problem.vec)
+    dofs = np.zeros(sol_shape).reshape(-1)
+
     def newton_update_helper(dofs):
         res_vec = problem.newton_update(dofs.reshape(sol_shape)).reshape(-1)
         res_vec = apply_bc_vec(res_vec, dofs, problem)
@@ -807,13 +811,12 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
                 onp.absolute(KCSR).sum(axis=1)).squeeze()
 
         #compute new velocities and accelerations
-        # qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:];
-        # qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
-        qdot_old[:] = qdot[:]
+        qdot_old[:] = qdot[:]; qdotdot_old[:] = qdotdot[:]
+        qdot = (2.- c*h)/(2 + c*h) * qdot_old - 2.*h/(2.+c*h)* R / M
         qdotdot = qdot - qdot_old
 
         # output on screen
-        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint)
+        printInfo(error, t, c, tol, eps, qdot, qdotdot, nIters, nPrint, info_force, info)
 
     # check if converged
     convergence = True
-- 
2.43.0


From 4fbe44161254c768c96d3fac3fc4146f9fde971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:27 +0000
Subject: [PATCH 08/16] fix: density filter uses every cell within the filter
 radius

A fixed count of 20 neighbours crashed on designs with fewer cells and dropped
cells inside the radius on anisotropic or 3D meshes.
---
 jax_am/fem/mma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jax_am/fem/mma.py b/jax_am/fem/mma.py
index 2b6782c..b505928 100644
--- a/jax_am/fem/mma.py
+++ b/jax_am/fem/mma.py
@@ -39,12 +39,12 @@ def compute_filter_kd_tree(problem):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        ii = kd_tree.query_ball_point(flex_cell_centroids[i], rmin)
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
+        dd = np.linalg.norm(neighbors - flex_cell_centroids[i], axis=-1)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
-        I += [i]*num_nbs
-        J += ii.tolist()
+        I += [i]*len(ii)
+        J += ii
         V += vals.tolist()
     H_sp = scipy.sparse.csc_array((V, (I, J)), shape=(flex_num_cells, flex_num_cells))
 
-- 
2.43.0


From b7d848c8808fa31ed5144a28913c7eaea6eade8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 09/16] fix: retry with gmres when the PETSc Krylov solver
 diverges

bcgsl breaks down (KSP_DIVERGED_DTOL after one iteration) when the ILU
preconditioner is exact, e.g. on small meshes, and the garbage iterate was
returned as the solution.
---
 jax_am/fem/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jax_am/fem/solver.py b/jax_am/fem/solver.py
index 8476f33..7bde1f4 100644
--- a/jax_am/fem/solver.py
+++ b/jax_am/fem/solver.py
@@ -28,6 +28,11 @@ def petsc_solve(A, b, ksp_type, pc_type):
     )
     x = PETSc.Vec().createSeq(len(b))
     ksp.solve(rhs, x)
+    if ksp.getConvergedReason() < 0:
+        # E.g., bcgsl breaks down when the preconditioner is (nearly) exact, which happens for small problems
+        logger.debug(f'PETSc - {ksp.getType()} diverged (reason {ksp.getConvergedReason()}), using gmres instead')
+        ksp.setType('gmres')
+        ksp.solve(rhs, x)
 
     # Verify convergence
     y = PETSc.Vec().createSeq(len(b))
-- 
2.43.0


From 8926efa5a6c6cd3e6ac53c4b40c93353033f7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:18 +0000
Subject: [PATCH 10/16] fix: body heat source stays finite after the laser is
 switched off

The absorption depth was computed from the instantaneous power, so it was zero
once the laser was off and the source became 0/0.
---
 jax_am/cfd/cfd_am.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_am/cfd/cfd_am.py b/jax_am/cfd/cfd_am.py
index 5fea4eb..b0d6933 100644
--- a/jax_am/cfd/cfd_am.py
+++ b/jax_am/cfd/cfd_am.py
@@ -224,7 +224,7 @@ class AM_3d():
         def Gaussian_cylinder(xl, yl, zl, P, xc, yc, zc):
             eta = self.args['eta']
             r = self.args['rb']
-            d = self.args['phi'] * P / self.args['speed'] / self.args['rb']**2
+            d = self.args['phi'] * self.args['P'] / self.args['speed'] / self.args['rb']**2
             Q_laser = 2 * P * eta / d / np.pi / r**2 * np.exp(-2 * (
                 (xc - xl)**2 + (yc - yl)**2) / r**2)
             Q_laser = Q_laser * ((zl - zc) <= d)
-- 
2.43.0


From 721ec6519e1f4273a8bacb42029c63c195f3bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:44 +0000
Subject: [PATCH 11/16] fix: thermal model handles any number of Neumann
 functions

update_int_vars always prepared two surface solutions, so the problem with
only the wall function (laser off) raised IndexError.
---
 applications/fem/thermal/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/applications/fem/thermal/models.py b/applications/fem/thermal/models.py
index 44c04e4..4b4fae5 100644
--- a/applications/fem/thermal/models.py
+++ b/applications/fem/thermal/models.py
@@ -35,9 +35,8 @@ class Thermal(FEM):
         return self.get_mass_map()
 
     def update_int_vars(self, old_sol):
-        surface_old_sol_top = self.convert_neumann_from_dof(old_sol, 0)
-        surface_old_sol_walls = self.convert_neumann_from_dof(old_sol, 1)
-        self.internal_vars['neumann'] = [[surface_old_sol_top], [surface_old_sol_walls]]
+        self.internal_vars['neumann'] = [[self.convert_neumann_from_dof(old_sol, i)]
+                                         for i in range(len(self.neumann_value_fns))]
         self.internal_vars['body'] = old_sol
 
     def update_Neumann_boundary_inds(self):
-- 
2.43.0


From 41e12b6dfa860fdb6797b3c69f05db933df82e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:44 +0000
Subject: [PATCH 12/16] fix: bare plate passes its Neumann functions in the
 model's order

Thermal lists all external faces first and the top faces second; the
convective/radiative loss and the laser were exchanged.
---
 applications/fem/thermal/bare_plate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/fem/thermal/bare_plate.py b/applications/fem/thermal/bare_plate.py
index a3021d8..4a0d426 100644
--- a/applications/fem/thermal/bare_plate.py
+++ b/applications/fem/thermal/bare_plate.py
@@ -61,7 +61,8 @@ def bare_plate_single_track():
         q = q_conv
         return np.array([q])
 
-    neumann_bc_info = [None, [neumann_top, neumann_walls]]
+    # The order is fixed by Thermal.update_Neumann_boundary_inds: all external faces first, then the top faces
+    neumann_bc_info = [None, [neumann_walls, neumann_top]]
 
     active_cell_truth_tab = onp.ones(len(full_mesh.cells), dtype=bool)
     active_mesh, points_map_active, cells_map_full = get_active_mesh(full_mesh, active_cell_truth_tab)
-- 
2.43.0


From 5e9954bf09144e66e93eff6418d8ead8b6691c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:44 +0000
Subject: [PATCH 13/16] fix: each thin-wall laser segment builds its own
 problem

A segment in which no element is born kept the previous problem, with the
laser off and the long cooling time step.
---
 applications/fem/thermal/thin_wall.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/fem/thermal/thin_wall.py b/applications/fem/thermal/thin_wall.py
index ac34b4b..0198a2e 100644
--- a/applications/fem/thermal/thin_wall.py
+++ b/applications/fem/thermal/thin_wall.py
@@ -122,7 +122,8 @@ def ded_thin_wall():
                 external_faces, hash_map, inner_faces, all_faces = update_hash_map(active_cell_truth_tab_old, 
                     active_cell_truth_tab, cells_map_full, cells_face, hash_map, inner_faces, all_faces)
 
-                if onp.all(active_cell_truth_tab == active_cell_truth_tab_old):
+                # The first step of a segment needs its own problem (time step, laser on)
+                if j > 0 and onp.all(active_cell_truth_tab == active_cell_truth_tab_old):
                     print(f"No element born")
                     # problem.old_sol = old_sol
                 else:
-- 
2.43.0


From d0b28129ff00257ff4c172b6e90f9377b67ef0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:40 +0000
Subject: [PATCH 14/16] fix: fracture demo records the force normal to the top
 surface

---
 demos/fem/phase_field_fracture/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/fem/phase_field_fracture/example.py b/demos/fem/phase_field_fracture/example.py
index 6ee5578..04ff008 100644
--- a/demos/fem/phase_field_fracture/example.py
+++ b/demos/fem/phase_field_fracture/example.py
@@ -139,7 +139,7 @@ class Elasticity(FEM):
             sigmas = vmap_stress(u_grads_reshape, d_face_reshape).reshape(u_grads.shape)
             # TODO: a more general normals with shape (num_selected_faces, num_face_quads, dim, 1) should be supplied
             # (num_selected_faces, num_face_quads, vec, dim) @ (1, 1, dim, 1) -> (num_selected_faces, num_face_quads, vec, 1)
-            normals = np.array([0., 0., 1.])
+            normals = np.array([0., 1., 0.])
             traction = (sigmas @ normals[None, None, :, None])[:, :, :, 0]
             return traction
     
@@ -252,7 +252,7 @@ if simulation_flag:
         history_old = onp.array(history)
      
         traction = problem_u.compute_traction(y_max, sol_u, sol_d)/Lz
-        tractions.append(traction[-1])
+        tractions.append(traction[1])
         print(f"Traction force = {traction}")
         vtk_path = os.path.join(vtk_dir, f"u_{i + 1:05d}.vtu")
         save_sol(problem_d, sol_d, vtk_path, point_infos=[('u', sol_u)], cell_infos=[('history', np.mean(history, axis=1))])
-- 
2.43.0


From 244c7d5c6c53dea8a3515b33512b673326c5677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:49 +0000
Subject: [PATCH 15/16] fix: thermal_mechanical demo selects the second layer
 of nodes with a tolerance of one cell size

---
 demos/fem/thermal_mechanical/example.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/demos/fem/thermal_mechanical/example.py b/demos/fem/thermal_mechanical/example.py
index 3db51a1..f3e2adf 100644
--- a/demos/fem/thermal_mechanical/example.py
+++ b/demos/fem/thermal_mechanical/example.py
@@ -175,16 +175,16 @@ meshio_mesh = box_mesh(Nx, Ny, Nz, Lx, Ly, Lz, data_dir)
 mesh = Mesh(meshio_mesh.points, meshio_mesh.cells_dict[cell_type])
  
 def top(point):
-    return np.isclose(point[2], Lz, atol=1e-5)
+    return np.isclose(point[2], Lz, atol=1e-7)
 
 def bottom(point):
-    return np.isclose(point[2], 0., atol=1e-5)
+    return np.isclose(point[2], 0., atol=1e-7)
 
 def walls(point):
-    left = np.isclose(point[0], 0., atol=1e-5)
-    right = np.isclose(point[0], Lx, atol=1e-5)
-    front = np.isclose(point[1], 0., atol=1e-5)
-    back = np.isclose(point[1], Ly, atol=1e-5)
+    left = np.isclose(point[0], 0., atol=1e-7)
+    right = np.isclose(point[0], Lx, atol=1e-7)
+    front = np.isclose(point[1], 0., atol=1e-7)
+    back = np.isclose(point[1], Ly, atol=1e-7)
     return left | right | front | back
 
 def get_thermal_neumann_top(laser_center, switch):
-- 
2.43.0


From c3de92b0fb0e32f6bd777b2d42b29408657e4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:56 +0000
Subject: [PATCH 16/16] fix: thermal_mechanical demo writes the previous step's
 temperature next to the current displacement

---
 demos/fem/thermal_mechanical/example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/fem/thermal_mechanical/example.py b/demos/fem/thermal_mechanical/example.py
index f3e2adf..1d8b8f9 100644
--- a/demos/fem/thermal_mechanical/example.py
+++ b/demos/fem/thermal_mechanical/example.py
@@ -266,7 +266,7 @@ for i in range(len(ts[1:])):
         # Update T solution for u
         sol_T_old_for_u = sol_T_new
         vtk_path = os.path.join(vtk_dir, f"u_{i + 1:05d}.vtu")
-        save_sol(problem_T, sol_T_old, vtk_path, point_infos=[('u', sol_u)], 
+        save_sol(problem_T, sol_T_new, vtk_path, point_infos=[('u', sol_u)], 
                                                  cell_infos=[('f_plus', np.mean(plastic_info[0], axis=1)),
                                                              ('stress_xx', np.mean(plastic_info[1], axis=1)),
                                                              ('phase', np.max(params_u[-1][:, :, 0], axis=1))])
-- 
2.43.0

