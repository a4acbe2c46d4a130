From 3e5d80bd50c92993ce4e0b4f396628589f60a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 01/28] fix: restore concrete parameters after the adjoint pass

implicit_vjp traces set_params, which left JAX tracers in the problem, so that
using the problem after a backward pass raised UnexpectedTracerError.
---
 jax_fem/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..0dec40c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1413,6 +1413,8 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
 
     vjp_linear_fn = get_vjp_contraint_fn_params(params, sol_list)
     vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
+    # Tracing the constraint left JAX tracers in the problem; restore concrete parameters.
+    problem.set_params(params)
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
     return vjp_result
-- 
2.43.0


From 82c99866c4973cfb872c3d0e98618f65436d3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 02/28] fix: let the JAX linear solver run without
 preconditioner

Operator precedence made the preconditioner a function returning None.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 0dec40c..03959d8 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From 0c4f4bdb22da9bc1a8c53000ff16d0e9999acea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 03/28] fix: do not write the default linear solver into the
 caller's options

The options dict (including the shared default argument of ad_wrapper) was
modified, so a backend chosen later in the same dict was ignored.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 03959d8..ffcf54b 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -261,7 +261,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}}
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From 53082038ef8badddb0f96adcf872c4af1e10d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 04/28] fix: size the dynamic relaxation stiffness for all
 variables

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index ffcf54b..1f339cc 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -876,7 +876,7 @@ def assembleCSR(problem, dofs):
     sol_list = problem.unflatten_fn_sol_list(dofs)
     problem.newton_update(sol_list)
     A_sp_scipy = scipy.sparse.csr_array((problem.V, (problem.I, problem.J)),
-        shape=(problem.fes[0].num_total_dofs, problem.fes[0].num_total_dofs))
+        shape=(problem.num_total_dofs_all_vars, problem.num_total_dofs_all_vars))
 
     for ind, fe in enumerate(problem.fes):
         for i in range(len(fe.node_inds_list)):
-- 
2.43.0


From 652922119c386bb524aa841745eff367d7b62214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 05/28] fix: evaluate the line search residual on reduced dofs
 with P_mat

The line search passed the reduced dof vector to the full residual.
---
 jax_fem/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 1f339cc..3b311c1 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -430,7 +430,10 @@ def line_search(problem, dofs, inc):
     res_fn = apply_bc(res_fn, problem)
 
     def res_norm_fn(alpha):
-        res_vec = res_fn(dofs + alpha*inc)
+        if hasattr(problem, 'P_mat'):
+            res_vec = problem.P_mat.T @ res_fn(problem.P_mat @ (dofs + alpha*inc))
+        else:
+            res_vec = res_fn(dofs + alpha*inc)
         return np.linalg.norm(res_vec)
 
     # grad_res_norm_fn = jax.grad(res_norm_fn)
-- 
2.43.0


From f02d4e084f60d8fd0d59c9039b738f664c8d192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 06/28] fix: let save_sol write to a bare file name

---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..e824f84 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 26edb4745c2f77e7b3dce84c5a3a74f9e637cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 07/28] fix: query the platform in walltime with
 jax.default_backend

jax.lib.xla_bridge no longer exists, so every decorated call failed.
---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index e824f84..90bd0a9 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -187,7 +187,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From 1dbec011405ac046bdfb61b75e70f5c435fab168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 08/28] fix: count selected faces on meshes that store JAX
 arrays

numpy.take and numpy.all do not accept the JAX arrays and tracers used here.
---
 jax_fem/generate_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..4c4a896 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -40,14 +40,14 @@ class Mesh():
         face_count : int
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
+        cell_points = onp.take(onp.asarray(self.points), onp.asarray(self.cells), axis=0)
         cell_face_points = onp.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
 
         def on_boundary(cell_points):
             boundary_flag = vmap_location_fn(cell_points)
-            return onp.all(boundary_flag)
+            return np.all(boundary_flag)
 
         vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
         boundary_flags = vvmap_on_boundary(cell_face_points)
-- 
2.43.0


From 8b2b3709ace98531c199a972c76e6aced5087e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 09/28] fix: build the MMA filter on meshes that store JAX
 arrays

numpy.take does not accept the JAX arrays stored in the mesh, so optimize()
failed for every problem; fewer than 20 flexible cells indexed out of range.
---
 jax_fem/mma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..9ee61fc 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.take(np.asarray(fe.points), np.asarray(fe.cells), axis=0), axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
@@ -43,8 +43,8 @@ def compute_filter_kd_tree(fe):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], np.arange(1, num_nbs + 1))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 2bda8db616e659a4337ddf95869559cade304cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 10/28] fix: make the QUAD8 and HEX20 shape functions nodal

Basix serendipity elements use edge moments as degrees of freedom, but nodal
coordinates, boundary values and solutions are point values at the mid-edge
nodes, so quadratic fields were not reproduced.
---
 jax_fem/basis.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..1ef9eac 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -124,6 +124,23 @@ def reorder_inds(inds, re_order):
     return new_inds
 
 
+def _tabulate(element_family, basix_ele, degree, points):
+    """Tabulate nodal shape function values and first derivatives in basix ordering.
+
+    Serendipity elements of basix use edge moments as degrees of freedom, while mesh nodes carry point values,
+    so their basis is transformed to be nodal at the vertices and the edge midpoints.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        nodes = onp.vstack([vertices] + [onp.mean(vertices[edge], axis=0) for edge in edges])
+        vandermonde = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dqjc,ji->dqic', vals_and_grads, onp.linalg.inv(vandermonde))
+    return vals_and_grads
+
+
 def _normalize_quadrature_rule(rule):
     """Convert input to a Basix QuadratureType or None (uses basix.quadrature.string_to_type for strings)."""
     if rule is None:
@@ -167,8 +184,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
 
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = _tabulate(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -241,8 +257,7 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = _tabulate(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From 0000b5f7dcaa1e85291899424197ca21ee8b4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 11/28] fix: treat eigenvalues equal up to round-off as
 repeated in eigen_f

For matrices whose repeated eigenvalues differ by round-off the divided
difference was dominated by cancellation (errors up to 3e-2).
---
 applications/phase_field_fracture/eigen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/phase_field_fracture/eigen.py b/applications/phase_field_fracture/eigen.py
index 36a3ba3..80921cc 100644
--- a/applications/phase_field_fracture/eigen.py
+++ b/applications/phase_field_fracture/eigen.py
@@ -57,9 +57,11 @@ def get_eigen_f_custom(fn):
 
         diff_evals = evals[:, None] - evals[None, :]
         diff_fvals = fvals[:, None] - fvals[None, :]
-        diff_grads = grads[:, None]
+        # Eigenvalues equal up to round-off count as repeated: their divided difference is pure cancellation error.
+        repeated = np.absolute(diff_evals) <= 1e-7*np.max(np.absolute(evals))
+        diff_grads = 0.5*(grads[:, None] + grads[None, :])
 
-        theta = np.where(diff_evals == 0., diff_grads, diff_fvals/diff_evals)
+        theta = np.where(repeated, diff_grads, diff_fvals/np.where(repeated, 1., diff_evals))
 
         tmp = G * theta[:, :, None, None, None, None]
         tmp1 = np.sum(tmp, axis=(0, 1))
-- 
2.43.0


From 31578f5773e0d8435c31d4b2cff22edbd5257939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 12/28] fix: detect a bicgstab breakdown in jax_solve when the
 right-hand side is small

---
 jax_fem/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 3b311c1..df28481 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -86,8 +86,10 @@ def jax_solve(A, b, x0, precond):
     # Verify convergence
     err = np.linalg.norm(A @ x - b)
     logger.debug("JAX Solver - Finished solving, linear solve res = %.3g", err)
-    assert err < 0.1, f"JAX linear solver failed to converge with err = {err}"
-    x = np.where(err < 0.1, x, np.nan) # For assert purpose, somehow this also affects bicgstab.
+    # A breakdown of bicgstab leaves a residual comparable with b, which is below 0.1 whenever b is small.
+    converged = (err < 0.1) & (err <= np.maximum(1e-3 * np.linalg.norm(b), 1e-8))
+    assert converged, f"JAX linear solver failed to converge with err = {err}"
+    x = np.where(converged, x, np.nan) # For assert purpose, somehow this also affects bicgstab.
 
     return x
 
-- 
2.43.0


From 81306adff8b93baabde5ebb04ca08673ec7f5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:42 +0000
Subject: [PATCH 13/28] fix: reject diverged PETSc solves when the right-hand
 side is small

---
 jax_fem/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index df28481..7166c7c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -132,6 +132,10 @@ def petsc_solve(A, b, ksp_type, pc_type):
     err = np.linalg.norm(y.getArray() - rhs.getArray())
     logger.debug("PETSc Solver - Finished solving, linear solve res = %.3g", err)
     assert err < 0.1, f"PETSc linear solver failed to converge, err = {err}"
+    # If the right-hand side is small, a diverged solve also meets the absolute check above.
+    rel_tol = 0.1 if ksp.getConvergedReason() > 0 else 1e-5
+    assert err <= rel_tol * rhs.norm(), \
+        f"PETSc linear solver diverged (reason {ksp.getConvergedReason()}), err = {err}"
 
     return x.getArray()
 
-- 
2.43.0


From 3fa56c2ccc880a9328a6f947b6b32a2b3f8db405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 14/28] fix: impose the Dirichlet values exactly in dynamic
 relaxation

---
 jax_fem/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 7166c7c..d022315 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -958,7 +958,9 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
 
     if initial_guess is not None:
         dofs = initial_guess
-        dofs = assign_bc(dofs, problem)
+
+    # The prediction may come from an inexact linear solve.
+    dofs = assign_bc(dofs, problem)
 
     # parameters not to change
     cmin = 1e-3
-- 
2.43.0


From e9662764efaf5f574f858ee56284660820e90d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:27 +0000
Subject: [PATCH 15/28] fix: do not return a diverged dynamic relaxation state

---
 jax_fem/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index d022315..d09903f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1055,6 +1055,8 @@ def dynamic_relax_solve(problem, tol=1e-6, nKMat=1000, nPrint=500, info=True, in
     else:
         print("FAILED to converged")
 
+    assert convergence, f"Dynamic relaxation failed to converge, error = {error}"
+
     sol_list = problem.unflatten_fn_sol_list(dofs)
 
     return sol_list
-- 
2.43.0


From 57c4b5ebf4c0f8aecd94159fcf8e68be818fcde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 16/28] fix: iterate every arc-length step to equilibrium

---
 jax_fem/solver.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index d09903f..1d1e30e 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -587,12 +587,10 @@ def arc_length_solver_disp_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u_
     Delta_lamda_dir = prev_Delta_lamda
 
     tol = 1e-6
+    # The step starts from an equilibrium state, so its residual must not end the loop.
     res_val = 1.
-    while res_val > tol:
-        res_vec, A = newton_update_helper(u_vec)
-        res_val = np.linalg.norm(res_vec)
-        logger.debug(f"Arc length solver: res_val = {res_val}")
-
+    res_vec, A = newton_update_helper(u_vec)
+    while not res_val <= tol:
         delta_u_bar = scipy_spsolve(A, -res_vec)
         delta_u_t = scipy_spsolve(A, u_b)
 
@@ -638,6 +636,10 @@ def arc_length_solver_disp_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u_
         Delta_u_vec_dir = u_vec - prev_u_vec
         Delta_lamda_dir = lamda - prev_lamda
 
+        res_vec, A = newton_update_helper(u_vec)
+        res_val = np.linalg.norm(res_vec)
+        logger.debug(f"Arc length solver: res_val = {res_val}")
+
     logger.debug(f"Arc length solver: finished for one step, with Delta lambda = {lamda - prev_lamda}")
 
     return u_vec, lamda, Delta_u_vec_dir, Delta_lamda_dir
@@ -673,13 +675,11 @@ def arc_length_solver_force_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u
     Delta_lamda_dir = prev_Delta_lamda
 
     tol = 1e-6
+    # The step starts from an equilibrium state, so its residual must not end the loop.
     res_val = 1.
-    while res_val > tol:
-        res_vec, A = newton_update_helper(u_vec)
-        load_term = (1. - lamda) * q_aux_mapped
-        res_val = np.linalg.norm(res_vec + load_term)
-        logger.debug(f"Arc length solver: res_val = {res_val}")
-
+    res_vec, A = newton_update_helper(u_vec)
+    load_term = (1. - lamda) * q_aux_mapped
+    while not res_val <= tol:
         delta_u_bar = scipy_spsolve(A, -(res_vec + load_term))
         delta_u_t = scipy_spsolve(A, q_aux_mapped)
 
@@ -725,6 +725,11 @@ def arc_length_solver_force_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u
         Delta_u_vec_dir = u_vec - prev_u_vec
         Delta_lamda_dir = lamda - prev_lamda
 
+        res_vec, A = newton_update_helper(u_vec)
+        load_term = (1. - lamda) * q_aux_mapped
+        res_val = np.linalg.norm(res_vec + load_term)
+        logger.debug(f"Arc length solver: res_val = {res_val}")
+
     logger.debug(f"Arc length solver: finished for one step, with Delta lambda = {lamda - prev_lamda}")
 
     return u_vec, lamda, Delta_u_vec_dir, Delta_lamda_dir
-- 
2.43.0


From d897bc44039d3d110477d9149c5caf558e663a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 17/28] fix: do not empty a VTU file whose version is rewritten
 in place

---
 jax_fem/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 90bd0a9..9e755d0 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -73,12 +73,12 @@ def modify_vtu_file(input_file_path, output_file_path):
     output_file_path : str
         Path for output VTU file (version 1.0)
     """
-    fin = open(input_file_path, "r")
-    fout = open(output_file_path, "w")
-    for line in fin:
-        fout.write(line.replace('<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'))
-    fin.close()
-    fout.close()
+    # Read everything first: the output may be the input file itself.
+    with open(input_file_path, "r") as fin:
+        lines = fin.readlines()
+    with open(output_file_path, "w") as fout:
+        for line in lines:
+            fout.write(line.replace('<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'))
 
 
 def read_abaqus_and_write_vtk(abaqus_file, vtk_file):
-- 
2.43.0


From 022ffd5b5b70f3abd0838577b671a0d9b0e0240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 18/28] fix: quiet element example: tables before the first
 birth and at a new laser height

The tables of active faces and quiet nodes were only computed when elements
were born: a toolpath whose first steps activate nothing, or that starts with
the laser off, ended in an UnboundLocalError, and a laser that changed its
height without births kept heating the faces of the old height.
---
 applications/quiet_element/example.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/applications/quiet_element/example.py b/applications/quiet_element/example.py
index 9ff4481..7a49f7a 100644
--- a/applications/quiet_element/example.py
+++ b/applications/quiet_element/example.py
@@ -294,6 +294,12 @@ def quiet_element_simulation():
     sol_list = [T0*np.ones((len(problem.fe.points), vec))]
     active_cell_truth_tab_old = active_cell_truth_tab
 
+    # The tables must describe the initial active cells as well: the first steps may not activate any cell.
+    laser_center = toolpath[1, 1:4] + onp.array([0., 0., base_plate_height])
+    active_face_z = laser_center[2]
+    active_face_truth_tab = get_active_face_truth_tab(problem, external_faces, active_face_z)
+    quiet_point_inds_set = get_quiet_point_inds_set(problem, active_cell_truth_tab)
+
     for i in range(2, toolpath.shape[0]):
         switch = toolpath[i, 4]
         if switch:
@@ -319,9 +325,13 @@ def quiet_element_simulation():
                 else:
                     print(f"New elements born: number = {onp.sum(active_cell_truth_tab) - onp.sum(active_cell_truth_tab_old)}")
                     external_faces = update_hash_map(active_cell_truth_tab_old, active_cell_truth_tab, cells_face, hash_map, inner_faces, all_faces)
-                    active_face_truth_tab = get_active_face_truth_tab(problem, external_faces, laser_center[2])
                     quiet_point_inds_set = get_quiet_point_inds_set(problem, active_cell_truth_tab)
 
+                # The top faces change with the laser height too, not only when elements are born
+                if laser_center[2] != active_face_z or not onp.all(active_cell_truth_tab == active_cell_truth_tab_old):
+                    active_face_z = laser_center[2]
+                    active_face_truth_tab = get_active_face_truth_tab(problem, external_faces, active_face_z)
+
                 problem.set_params([sol_list[0], dt, laser_center, switch, quiet_point_inds_set, active_cell_truth_tab, active_face_truth_tab])
                 sol_list = solver(problem)
        
-- 
2.43.0


From 912cf7a9fe65d2440f035f830990a8c1d7663e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 19/28] fix: rebuild the crystal plasticity kernels when the
 time step changes

---
 applications/crystal_plasticity/models.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/applications/crystal_plasticity/models.py b/applications/crystal_plasticity/models.py
index bb592c6..eb7b561 100644
--- a/applications/crystal_plasticity/models.py
+++ b/applications/crystal_plasticity/models.py
@@ -48,6 +48,18 @@ get_rot_mat_vmap = jax.vmap(get_rot_mat)
 
 
 class CrystalPlasticity(Problem):
+    @property
+    def dt(self):
+        return self._dt
+
+    @dt.setter
+    def dt(self, dt):
+        # The compiled kernels contain the time step: a different one (beyond round-off) needs new kernels.
+        stale = hasattr(self, '_dt') and abs(dt - self._dt) > 1e-9*abs(self._dt)
+        self._dt = dt
+        if stale:
+            self.pre_jit_fns()
+
     def custom_init(self, quat, cell_ori_inds):
         r = 1.
         self.gss_initial = 60.8 
-- 
2.43.0


From 0fd1273274ddf31061362e4065489ace5019e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 20/28] fix: AMGX backend returned unconverged answers silently
 (raise as the other iterative backends do)

---
 jax_fem/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 1d1e30e..5e0cf13 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -212,6 +212,8 @@ def AMGX_solve_host(indptr, indices, data, shape_arr, x, b, cfg_path):
 
         res = onp.linalg.norm(A_csr @ result - b_host)
         logger.info("AMGX Solver - Finished solving, linear solve res = %.3g", res)
+        assert res < 0.1 and res <= 0.1 * onp.linalg.norm(b_host), \
+            f"AMGX linear solver failed to converge, res = {res}"
 
         return result.astype(dtype).reshape(shape_b)
 
-- 
2.43.0


From de715047065b3de90f2a9478711c2544b37e5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 21/28] fix: thermal_mechanical example selected faces of whole
 layers (tolerance as large as the element)

---
 applications/thermal_mechanical/example.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/applications/thermal_mechanical/example.py b/applications/thermal_mechanical/example.py
index deb33fa..5f2ba7d 100644
--- a/applications/thermal_mechanical/example.py
+++ b/applications/thermal_mechanical/example.py
@@ -211,17 +211,18 @@ mesh = Mesh(meshio_mesh.points, meshio_mesh.cells_dict[cell_type])
 
 
 # Define boundary locations.
+# The element size is 1e-5, so that the tolerance must be well below it.
 def top(point):
-    return np.isclose(point[2], Lz, atol=1e-5)
+    return np.isclose(point[2], Lz, atol=1e-8)
 
 def bottom(point):
-    return np.isclose(point[2], 0., atol=1e-5)
+    return np.isclose(point[2], 0., atol=1e-8)
 
 def walls(point):
-    left = np.isclose(point[0], 0., atol=1e-5)
-    right = np.isclose(point[0], Lx, atol=1e-5)
-    front = np.isclose(point[1], 0., atol=1e-5)
-    back = np.isclose(point[1], Ly, atol=1e-5)
+    left = np.isclose(point[0], 0., atol=1e-8)
+    right = np.isclose(point[0], Lx, atol=1e-8)
+    front = np.isclose(point[1], 0., atol=1e-8)
+    back = np.isclose(point[1], Ly, atol=1e-8)
     return left | right | front | back
 
 
-- 
2.43.0


From 345fc658e33c4921f8fad5a9c311f456e15b571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 22/28] fix: explicit dendrite example lost the latent heat of
 the noise term

---
 applications/dendrite/explicit_fem/example.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dendrite/explicit_fem/example.py b/applications/dendrite/explicit_fem/example.py
index a248dd8..5c6422b 100644
--- a/applications/dendrite/explicit_fem/example.py
+++ b/applications/dendrite/explicit_fem/example.py
@@ -180,7 +180,8 @@ class SolidificationForce(Problem):
             tau = self.params['tau']
             val71 = np.sum(tmp1[:, None, :, :] * cell_v_grads_JxW_T, axis=(0, -1))
             val72 = np.sum(tmp2[:, None, None] * self.fe_T.shape_vals[:, :, None] * cell_JxW_T[:, None, None], axis=0)
-            val7 = K / tau * (val71 + val72)
+            val73 = np.sum(tmp4[:, None, None] * self.fe_T.shape_vals[:, :, None] * cell_JxW_T[:, None, None], axis=0)
+            val7 = K / tau * (val71 + val72 + val73)
 
             weak_form = [val1 + val2 + val4, val5 + val7] # [(num_nodes_p, vec_p), (num_nodes_T, vec_T)]
 
-- 
2.43.0


From e828c392ec1924b8db1e912c766d5e2480b6d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 23/28] fix: finite difference dendrite example froze the
 anisotropy gradient at the first step

---
 applications/dendrite/explicit_fd/example.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/dendrite/explicit_fd/example.py b/applications/dendrite/explicit_fd/example.py
index dab0136..d46c6a0 100644
--- a/applications/dendrite/explicit_fd/example.py
+++ b/applications/dendrite/explicit_fd/example.py
@@ -91,7 +91,7 @@ def simulation():
         return arr
 
     @partial(jax.jit, static_argnums=(0,1))
-    def phase_field(dx, dy, eps, eps_prime, p_x, p_y, p, T):    
+    def phase_field(dx, dy, eps, eps_prime, eps2_x, eps2_y, p_x, p_y, p, T):    
         part1, _ = grad(eps*eps_prime*p_y, dx, dy)
         _, part2 = grad(eps*eps_prime*p_x, dx, dy)
         part3 = eps2_x*p_x + eps2_y*p_y
@@ -150,7 +150,7 @@ def simulation():
         eps, eps_prime = get_eps(theta)
         eps2_x, eps2_y = grad(eps**2, hx, hy)
         
-        p_new = phase_field(hx, hy, eps, eps_prime, p_x, p_y, p, T) 
+        p_new = phase_field(hx, hy, eps, eps_prime, eps2_x, eps2_y, p_x, p_y, p, T) 
         p_new = zero_flux_BC(p_new)
         d_p = p_new - p
         
-- 
2.43.0


From 3797651e2cc08672b430fe68f9d69e7bb9556c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 24/28] fix: nodal stress example evaluated gradients in basix
 node order

---
 applications/nodal_stress/example.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/nodal_stress/example.py b/applications/nodal_stress/example.py
index ded4ade..7092e6d 100644
--- a/applications/nodal_stress/example.py
+++ b/applications/nodal_stress/example.py
@@ -51,7 +51,8 @@ def get_shape_grads_ref(ele_type):
     """
     element_family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
     element = basix.create_element(element_family, basix_ele, degree)
-    node_points = element.points
+    # basix numbers the nodes differently: evaluate at the nodes in the order of the cells
+    node_points = element.points[re_order]
     vals_and_grads = element.tabulate(1, node_points)[:, :, re_order, :]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, node_points.shape = (num_nodes, dim) = {node_points.shape}")
-- 
2.43.0


From e6705a8ec3af2c4ab6e42b91b04299f877dad422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 25/28] fix: nodal stress example evaluated serendipity
 elements at points that are no nodes

For QUAD8 and HEX20 the interpolation points of the basix element are not the
vertices and edge midpoints, and its basis is not nodal; use the nodes and the
nodal basis of jax_fem.basis.
---
 applications/nodal_stress/example.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/applications/nodal_stress/example.py b/applications/nodal_stress/example.py
index 7092e6d..61b6f43 100644
--- a/applications/nodal_stress/example.py
+++ b/applications/nodal_stress/example.py
@@ -11,7 +11,7 @@ from jax_fem.problem import Problem
 from jax_fem.solver import solver
 from jax_fem.utils import save_sol
 from jax_fem.generate_mesh import box_mesh_gmsh, get_meshio_cell_type, Mesh
-from jax_fem.basis import get_elements
+from jax_fem.basis import get_elements, _tabulate
 
 
 class HyperElasticity(Problem):
@@ -50,10 +50,16 @@ def get_shape_grads_ref(ele_type):
         (num_points and num_nodes really are the same.)
     """
     element_family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(element_family, basix_ele, degree)
+    if element_family == basix.ElementFamily.serendipity:
+        # the points of basix serendipity elements are no nodes: take the vertices and the edge midpoints
+        vertices = basix.geometry(basix_ele)
+        edges = basix.topology(basix_ele)[1]
+        node_points = onp.vstack([vertices] + [onp.mean(vertices[edge], axis=0) for edge in edges])
+    else:
+        node_points = basix.create_element(element_family, basix_ele, degree).points
     # basix numbers the nodes differently: evaluate at the nodes in the order of the cells
-    node_points = element.points[re_order]
-    vals_and_grads = element.tabulate(1, node_points)[:, :, re_order, :]
+    node_points = node_points[re_order]
+    vals_and_grads = _tabulate(element_family, basix_ele, degree, node_points)[:, :, re_order, :]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.debug(f"ele_type = {ele_type}, node_points.shape = (num_nodes, dim) = {node_points.shape}")
     return shape_grads_ref
-- 
2.43.0


From fc4969e5801cac1b9e4500d2f3a2b74267629c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 26/28] fix: take the values of an initial guess that comes
 from the differentiated function

---
 jax_fem/solver.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 5e0cf13..ee337b9 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -871,10 +871,24 @@ def _solve_arc_length(problem, cfg):
 ################################################################################
 # Dynamic relaxation
 
+def _guess_values(initial_guess):
+    """
+    Returns the values of an initial guess, which plays no role in the differentiation chain.
+
+    Inside a differentiated function, a guess taken from an earlier solve is a tracer of the enclosing
+    differentiation, while the solver itself runs on values.
+    """
+    def value(x):
+        while isinstance(x, jax.core.Tracer) and hasattr(x, 'primal'):
+            x = x.primal
+        return jax.lax.stop_gradient(x)
+    return jax.tree_util.tree_map(value, initial_guess)
+
+
 def _solve_dynamic_relax(problem, cfg):
     flat_guess = None
     if 'initial_guess' in cfg:
-        initial_guess = jax.lax.stop_gradient(cfg['initial_guess'])
+        initial_guess = _guess_values(cfg['initial_guess'])
         flat_guess = jax.flatten_util.ravel_pytree(initial_guess)[0]
     return dynamic_relax_solve(
         problem,
@@ -1304,7 +1318,7 @@ def solver(problem, solver_options={}):
 
     if 'initial_guess' in cfg:
         # We don't want inititual guess to play a role in the differentiation chain.
-        initial_guess = jax.lax.stop_gradient(cfg['initial_guess'])
+        initial_guess = _guess_values(cfg['initial_guess'])
         dofs = jax.flatten_util.ravel_pytree(initial_guess)[0]
     else:
         if hasattr(problem, 'P_mat'):
-- 
2.43.0


From 3b2532ac10c6bd5389f29e3a1a34d6eb806d2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 27/28] fix: arc length compares direction products with the
 arc length, not with a fixed 1e-10

With displacements of the order of 1e-6 in the units of the problem both
products were below 1e-10 in every iteration, so the branch of the larger load
increment was taken always and the continuation never passed a limit point.
---
 jax_fem/solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index ee337b9..3036c69 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -624,7 +624,9 @@ def arc_length_solver_disp_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u_
         dot_prod2 = u_lamda_dot_product(Delta_u_vec_dir, Delta_lamda_dir,
                                         Delta_u_vec_dir2, Delta_lamda_dir2)
 
-        if np.abs(dot_prod1) < 1e-10 and np.abs(dot_prod2) < 1e-10:
+        # Both products vanish in the very first iteration, when there is no direction yet.
+        # They are compared with the squared arc length, since displacements may be small in the units of the problem.
+        if np.abs(dot_prod1) < 1e-10 * Delta_l**2. and np.abs(dot_prod2) < 1e-10 * Delta_l**2.:
             delta_lamda = np.maximum(delta_lamda1, delta_lamda2)
         elif dot_prod1 > dot_prod2:
             delta_lamda = delta_lamda1
@@ -713,7 +715,9 @@ def arc_length_solver_force_driven(problem, prev_u_vec, prev_lamda, prev_Delta_u
         dot_prod2 = u_lamda_dot_product(Delta_u_vec_dir, Delta_lamda_dir,
                                         Delta_u_vec_dir2, Delta_lamda_dir2)
 
-        if np.abs(dot_prod1) < 1e-10 and np.abs(dot_prod2) < 1e-10:
+        # Both products vanish in the very first iteration, when there is no direction yet.
+        # They are compared with the squared arc length, since displacements may be small in the units of the problem.
+        if np.abs(dot_prod1) < 1e-10 * Delta_l**2. and np.abs(dot_prod2) < 1e-10 * Delta_l**2.:
             delta_lamda = np.maximum(delta_lamda1, delta_lamda2)
         elif dot_prod1 > dot_prod2:
             delta_lamda = delta_lamda1
-- 
2.43.0


From 81bf6e8870f3ce7e085f7cf2450d899b891cf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 28/28] fix: jax_solve stops and is judged relative to the
 right-hand side

The absolute tolerance accepted a zero solution for right-hand sides below
1e-10: gradients of small objectives were zero and Newton iterations with small
forces did not progress.
---
 jax_fem/solver.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 3036c69..565599d 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -75,19 +75,23 @@ def jax_solve(A, b, x0, precond):
         if x0 is not None:
             x0 = x0.astype(complex)
 
+    # The absolute tolerance must not accept a zero solution if b is small in the units of the problem.
+    b_norm = np.linalg.norm(b)
+    scale = np.where(b_norm > 0., b_norm, 1.)
     x, info = jax.scipy.sparse.linalg.bicgstab(A,
-                                               b,
-                                               x0=x0,
+                                               b / scale,
+                                               x0=None if x0 is None else x0 / scale,
                                                M=pc,
                                                tol=1e-10,
                                                atol=1e-10,
                                                maxiter=10000)
+    x = x * scale
 
     # Verify convergence
     err = np.linalg.norm(A @ x - b)
     logger.debug("JAX Solver - Finished solving, linear solve res = %.3g", err)
     # A breakdown of bicgstab leaves a residual comparable with b, which is below 0.1 whenever b is small.
-    converged = (err < 0.1) & (err <= np.maximum(1e-3 * np.linalg.norm(b), 1e-8))
+    converged = (err < 0.1) & (err <= np.where(b_norm > 0., 1e-3 * b_norm, 1e-8))
     assert converged, f"JAX linear solver failed to converge with err = {err}"
     x = np.where(converged, x, np.nan) # For assert purpose, somehow this also affects bicgstab.
 
-- 
2.43.0

