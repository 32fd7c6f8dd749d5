From 77b3f9e2d02d1a0c944163b309aa77075a61a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 01/70] fix: create_solver(linear=True) ignored
 symmetric_elimination

---
 feax/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/solver.py b/feax/solver.py
index 8556fab..5079659 100644
--- a/feax/solver.py
+++ b/feax/solver.py
@@ -399,6 +399,7 @@ def create_solver(
             solver_options=linear_options,
             adjoint_solver_options=adjoint_linear_options,
             traced_params=traced_params,
+            symmetric_elimination=symmetric_elimination,
             traced_structure=traced_structure,
         ))
 
-- 
2.43.0


From e671a4fac9a73b151555327c218b1548bd1bed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 02/70] fix: linear solve was wrong when the initial guess did
 not satisfy the prescribed values

---
 feax/solvers/linear.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 33ae34b..76c35cd 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -386,6 +386,9 @@ def create_linear_solver(
 
     @jax.custom_vjp
     def differentiable_solve(traced_params, initial_guess, effective_bc, ts):
+        # Lift the guess onto the prescribed values: symmetric elimination drops
+        # the K_fb columns, so the increment must vanish on the BC rows.
+        initial_guess = initial_guess.at[effective_bc.bc_rows].set(effective_bc.bc_vals)
         if _reuse_factor:
             sol, _ = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol
@@ -418,6 +421,7 @@ def create_linear_solver(
 
     def f_fwd(traced_params, initial_guess, effective_bc, ts):
         if _reuse_factor:
+            initial_guess = initial_guess.at[effective_bc.bc_rows].set(effective_bc.bc_vals)
             sol, token = _factor_and_solve(initial_guess, traced_params, effective_bc, ts)
             return sol, (traced_params, sol, effective_bc, ts, token)
         sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
-- 
2.43.0


From 93f2a24f6da279b1dc16c6e6f293bf06db0981c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 03/70] fix: Krylov adjoint used J instead of its transpose for
 unsymmetric operators

---
 feax/solvers/linear.py | 8 ++++++--
 feax/solvers/newton.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index 76c35cd..c140b6e 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -23,6 +23,7 @@ import jax.numpy as np
 from ..assembler import (
     create_J_bc_csr_function,
     create_J_bc_csr_parametric,
+    create_matfree_Kt_parametric,
     create_matfree_res_J_parametric,
     create_res_bc_parametric,
     detect_zero_surface_jacobian,
@@ -322,6 +323,7 @@ def create_linear_solver(
             problem, traced_params, traced_structure)
     # Matrix-free operator (fused BC-applied residual + JVP matvec) for Krylov.
     matfree_res_J_param = create_matfree_res_J_parametric(problem, symmetric=symmetric_elimination)
+    matfree_Kt_param = create_matfree_Kt_parametric(problem)
     res_bc_parametric = create_res_bc_parametric(problem)
     linear_solve_fn = create_linear_solve_fn(
         solver_options,
@@ -457,8 +459,10 @@ def create_linear_solver(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
         elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+            # Transpose of the symmetrically eliminated operator (matrix-free).
+            Kt = matfree_Kt_param(sol, traced_params, ts)
+            J_adjoint = lambda w: np.where(
+                effective_bc.bc_mask, w, Kt(np.where(effective_bc.bc_mask, 0.0, w)))
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index 9f5435b..bc4c954 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1042,8 +1042,10 @@ def create_callback_newton_solver(
                 J, src.csr_T_perm, src.csr_T_indptr, src.csr_T_indices
             ) if use_transpose else J
         elif symmetric_elimination:
-            # Symmetric BC ⇒ J is symmetric ⇒ Jᵀ = J (matrix-free matvec).
-            _, J_adjoint = matfree_res_J_param(sol, traced_params, effective_bc, ts)
+            # Transpose of the symmetrically eliminated operator (matrix-free).
+            Kt = matfree_Kt_param(sol, traced_params, ts)
+            J_adjoint = lambda w: np.where(
+                effective_bc.bc_mask, w, Kt(np.where(effective_bc.bc_mask, 0.0, w)))
         else:
             # Non-symmetric BC: Jᵀ is the VJP of the BC-applied residual.
             _, _vjp = jax.vjp(
-- 
2.43.0


From e5f39871b745d304e712b22a30da86f3da76c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 04/70] fix: boundary-value gradients of the linear solver
 missed the coupling to the free dofs

---
 feax/solvers/linear.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/feax/solvers/linear.py b/feax/solvers/linear.py
index c140b6e..8394e5b 100644
--- a/feax/solvers/linear.py
+++ b/feax/solvers/linear.py
@@ -429,11 +429,21 @@ def create_linear_solver(
         sol = differentiable_solve(traced_params, initial_guess, effective_bc, ts)
         return sol, (traced_params, sol, effective_bc, ts)
 
+    def _bc_correction(adjoint_vec, v, sol, traced_params, effective_bc, ts):
+        # Symmetric elimination drops K_fb; the true adjoint on the BC rows is
+        # λ_bc = v_bc - K_fb^T λ_free (only the bc_vals gradient sees it).
+        lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
+        ktw = matfree_Kt_param(sol, traced_params, ts)(lambda_free)
+        return adjoint_vec.at[effective_bc.bc_rows].set(
+            v[effective_bc.bc_rows] - ktw[effective_bc.bc_rows])
+
     def f_bwd(res, v):
         if _reuse_factor:
             # Reuse the forward factorization: λ = J⁻ᵀ v = J⁻¹ v (symmetric).
             traced_params, sol, effective_bc, ts, token = res
             adjoint_vec = _solve_with(token, v, device_id=_dev_id)
+            if symmetric_elimination:
+                adjoint_vec = _bc_correction(adjoint_vec, v, sol, traced_params, effective_bc, ts)
 
             def res_fn(tp, bc_arg):
                 return problem.unflatten_fn_sol_list(
@@ -474,6 +484,9 @@ def create_linear_solver(
             linear_solve_fn=adjoint_linear_solve_fn
         )
 
+        if symmetric_elimination:
+            adjoint_vec = _bc_correction(adjoint_vec, v, sol, traced_params, effective_bc, ts)
+
         # VJP of residual w.r.t. traced_params and bc
         def res_fn(tp, bc_arg):
             return problem.unflatten_fn_sol_list(
-- 
2.43.0


From c0c25b9d774f252bd1e06880114e2826151a3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:50 +0000
Subject: [PATCH 05/70] fix: Newton boundary-value gradients used only the
 stored triangle for UPPER/LOWER views

---
 feax/solvers/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/solvers/newton.py b/feax/solvers/newton.py
index bc4c954..2a2750c 100644
--- a/feax/solvers/newton.py
+++ b/feax/solvers/newton.py
@@ -1062,7 +1062,7 @@ def create_callback_newton_solver(
         #   (assembled transpose for direct, matrix-free VJP for Krylov).
         if _needs_bc_correction:
             lambda_free = adjoint_vec.at[effective_bc.bc_rows].set(0.0)
-            if _adj_direct:
+            if _adj_direct and use_transpose:
                 sol_list = problem.unflatten_fn_sol_list(sol)
                 kdata, kindptr, kindices = _get_J_csr(problem, sol_list, traced_params, ts)
                 K_bulk = CSRMatrix(kdata, kindptr, kindices,
-- 
2.43.0


From ca0911afce0a8bd58a1589e1add6eb9388041650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:42 +0000
Subject: [PATCH 06/70] fix: a follower load probed at zero magnitude lost its
 tangent in later solves

detect_zero_surface_jacobian only probed the sample surface variables, so a
solver built with a zero load sample dropped the surface tangent of every later
call (and of every other solver on the same Problem).
---
 feax/assembler.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 4391556..9bb8b19 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -1325,7 +1325,8 @@ def detect_zero_surface_jacobian(problem: 'Problem',
     its contribution to the tangent stiffness is identically zero.
 
     Returns ``True`` only when the assembled surface Jacobian is exactly zero at
-    two distinct nonzero displacement patterns — the usual case for Neumann
+    two distinct nonzero displacement patterns, for the sample surface variables
+    and for generic nonzero ones — the usual case for Neumann
     tractions / pressures that do not follow the deformation. Configuration
     (``u``-)dependent 'follower' loads, or any probing error, return ``False``
     (keep the surface term — correct, just not the fast path).
@@ -1344,16 +1345,22 @@ def detect_zero_surface_jacobian(problem: 'Problem',
         n = problem.num_total_dofs_all_vars
         # Two asymmetric nonzero patterns: a genuinely u-dependent map is
         # vanishingly unlikely to have an exactly-zero tangent at both.
-        for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
-            sol_list = problem.unflatten_fn_sol_list(sol_flat)
-            cells_sol_list = [sol[cells] for cells, sol in zip(src.cells_list, sol_list)]
-            cells_sol_flat = jax.vmap(
-                lambda *x: jax.flatten_util.ravel_pytree(x)[0])(*cells_sol_list)
-            _, jacs = compute_face(problem, cells_sol_flat, True,
-                                   traced_params.surface_vars, ts)
-            for j in jacs:
-                if float(np.max(np.abs(j))) != 0.0:
-                    return False
+        # The sample values may be zero where later calls are not (e.g. a follower
+        # load probed at zero magnitude), so generic nonzero values are probed too.
+        generic_vars = jax.tree_util.tree_map(
+            lambda v: (np.linspace(0.37, 1.23, v.size, dtype=v.dtype).reshape(v.shape)
+                       if np.issubdtype(v.dtype, np.inexact) else v),
+            jax.tree_util.tree_map(np.asarray, traced_params.surface_vars))
+        for surface_vars in (traced_params.surface_vars, generic_vars):
+            for sol_flat in (np.linspace(0.13, 1.0, n), np.linspace(-0.9, 0.41, n)):
+                sol_list = problem.unflatten_fn_sol_list(sol_flat)
+                cells_sol_list = [sol[cells] for cells, sol in zip(src.cells_list, sol_list)]
+                cells_sol_flat = jax.vmap(
+                    lambda *x: jax.flatten_util.ravel_pytree(x)[0])(*cells_sol_list)
+                _, jacs = compute_face(problem, cells_sol_flat, True, surface_vars, ts)
+                for j in jacs:
+                    if float(np.max(np.abs(j))) != 0.0:
+                        return False
         return True
     except Exception:
         return False
-- 
2.43.0


From 1a41c9e9858e3a1c66cf77c824aeb9da7619f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:32 +0000
Subject: [PATCH 07/70] fix: nested vmap of the direct solvers failed inside
 the host callback

With vmap_method broadcast_all (the default) or expand_dims, an outer vmap handed
the batched callback an extra leading axis it could not interpret.
---
 feax/solvers/direct/_callback_utils.py | 24 ++++++++++++++++++++++++
 feax/solvers/direct/cholmod.py         | 20 +++++++++++---------
 feax/solvers/direct/spsolve.py         | 16 +++++++++-------
 feax/solvers/direct/umfpack.py         | 18 ++++++++++--------
 4 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/feax/solvers/direct/_callback_utils.py b/feax/solvers/direct/_callback_utils.py
index e7fd3d7..6e21a2f 100644
--- a/feax/solvers/direct/_callback_utils.py
+++ b/feax/solvers/direct/_callback_utils.py
@@ -4,6 +4,7 @@ import jax
 import jax.numpy as jnp
 import numpy as np
 import scipy.sparse as sp
+from jax import custom_batching
 
 
 def normalize_static_csr_vector(x):
@@ -146,3 +147,26 @@ def prepare_solver_vmap_inputs(
         b_values = jnp.broadcast_to(b_values, (axis_size,) + b_values.shape)
 
     return b_values, csr_values, csr_offsets, csr_columns
+
+
+def make_batched_dispatch(batched_fn, vmap_method: str):
+    """Make a batched host solve vmappable itself, so that solves nest in any depth.
+
+    Further batch axes are prepended to the payload and flattened by
+    ``batched_fn``; with ``vmap_method="sequential"`` outer axes are left to the
+    callback's own (sequential) batching.
+    """
+    if vmap_method == "sequential":
+        return batched_fn
+
+    @custom_batching.custom_vmap
+    def _dispatch(b_values, csr_values, csr_offsets, csr_columns):
+        return batched_fn(b_values, csr_values, csr_offsets, csr_columns)
+
+    @_dispatch.def_vmap
+    def _batched_vmap_rule(axis_size, in_batched, b_values, csr_values, csr_offsets, csr_columns):
+        payload = prepare_solver_vmap_inputs(
+            b_values, csr_values, csr_offsets, csr_columns, in_batched, axis_size)
+        return _dispatch(*payload), True
+
+    return _dispatch
diff --git a/feax/solvers/direct/cholmod.py b/feax/solvers/direct/cholmod.py
index 5f1b2e0..0d90bd3 100644
--- a/feax/solvers/direct/cholmod.py
+++ b/feax/solvers/direct/cholmod.py
@@ -10,6 +10,7 @@ from jax import custom_batching
 from ._callback_utils import (
     assemble_batched_csr_arrays_np,
     build_csr_matrix,
+    make_batched_dispatch,
     normalize_static_csr_vector,
     prepare_solver_vmap_inputs,
     prepare_batched_csr_payload,
@@ -227,16 +228,17 @@ def _get_cholmod_vmap_dispatch(
             axis_size,
         )
 
-        out = cholmod_solve_batched(
-            b_values,
-            csr_values,
-            csr_offsets,
-            csr_columns,
-            lower=lower,
-            order=order,
-            cache_namespace=cache_namespace,
-            vmap_method=vmap_method,
+        solve_batched = make_batched_dispatch(
+            ft.partial(
+                cholmod_solve_batched,
+                lower=lower,
+                order=order,
+                cache_namespace=cache_namespace,
+                vmap_method=vmap_method,
+            ),
+            vmap_method,
         )
+        out = solve_batched(b_values, csr_values, csr_offsets, csr_columns)
         return out, True
 
     return _dispatch
diff --git a/feax/solvers/direct/spsolve.py b/feax/solvers/direct/spsolve.py
index ede60fa..2c70e21 100644
--- a/feax/solvers/direct/spsolve.py
+++ b/feax/solvers/direct/spsolve.py
@@ -9,6 +9,7 @@ import numpy as np
 from ._callback_utils import (
     assemble_batched_csr_arrays_np,
     build_csr_matrix,
+    make_batched_dispatch,
     normalize_static_csr_vector,
     prepare_batched_csr_payload,
     prepare_solver_vmap_inputs,
@@ -172,14 +173,15 @@ def _get_spsolve_vmap_dispatch(reorder: int, vmap_method: str):
             axis_size,
         )
 
-        out = spsolve_batched(
-            b_values,
-            csr_values,
-            csr_offsets,
-            csr_columns,
-            reorder=reorder,
-            vmap_method=vmap_method,
+        solve_batched = make_batched_dispatch(
+            ft.partial(
+                spsolve_batched,
+                reorder=reorder,
+                vmap_method=vmap_method,
+            ),
+            vmap_method,
         )
+        out = solve_batched(b_values, csr_values, csr_offsets, csr_columns)
         return out, True
 
     return _dispatch
diff --git a/feax/solvers/direct/umfpack.py b/feax/solvers/direct/umfpack.py
index b2f1b37..dd44509 100644
--- a/feax/solvers/direct/umfpack.py
+++ b/feax/solvers/direct/umfpack.py
@@ -13,6 +13,7 @@ from jax import custom_batching
 from ._callback_utils import (
     assemble_batched_csr_arrays_np,
     build_csr_matrix,
+    make_batched_dispatch,
     normalize_static_csr_vector,
     prepare_solver_vmap_inputs,
     prepare_batched_csr_payload,
@@ -244,15 +245,16 @@ def _get_umfpack_vmap_dispatch(trans: str, cache_namespace: str, vmap_method: st
             axis_size,
         )
 
-        out = umfpack_solve_batched(
-            b_values,
-            csr_values,
-            csr_offsets,
-            csr_columns,
-            trans=trans,
-            cache_namespace=cache_namespace,
-            vmap_method=vmap_method,
+        solve_batched = make_batched_dispatch(
+            ft.partial(
+                umfpack_solve_batched,
+                trans=trans,
+                cache_namespace=cache_namespace,
+                vmap_method=vmap_method,
+            ),
+            vmap_method,
         )
+        out = solve_batched(b_values, csr_values, csr_offsets, csr_columns)
         return out, True
 
     return _dispatch
-- 
2.43.0


From caf985bb7cb16aacfa719b6ce7f52144ea298bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:56 +0000
Subject: [PATCH 08/70] fix: 3-D periodic pairings assumed the unit cell starts
 at the origin

---
 feax/flat/pbc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 1235a67..8ff67b2 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -337,12 +337,13 @@ def periodic_bc_3D(
         - Each geometric pairing is replicated for each DoF component
     """
 
-    L = unitcell.ub - unitcell.lb
+    lb, ub = unitcell.lb, unitcell.ub
+    L = ub - lb
 
     face_pairs = []
     for axis in range(dim):
-        master_fn = unitcell.face_function(axis, 0, excluding_edge=True)
-        slave_fn = unitcell.face_function(axis, L[axis], excluding_edge=True)
+        master_fn = unitcell.face_function(axis, lb[axis], excluding_edge=True)
+        slave_fn = unitcell.face_function(axis, ub[axis], excluding_edge=True)
         for i in range(vec):
             face_pairs.append(
                 PeriodicPairing(
@@ -352,8 +353,10 @@ def periodic_bc_3D(
 
     edge_pairs = []
     for axes in [[1, 2], [0, 2], [0, 1]]:
-        for values in [[L[axes[0]], 0], [L[axes[0]], L[axes[1]]], [0, L[axes[1]]]]:
-            master_fn = unitcell.edge_function(axes, [0, 0], excluding_corner=True)
+        lo = [lb[axes[0]], lb[axes[1]]]
+        hi = [ub[axes[0]], ub[axes[1]]]
+        for values in [[hi[0], lo[1]], hi, [lo[0], hi[1]]]:
+            master_fn = unitcell.edge_function(axes, lo, excluding_corner=True)
             slave_fn = unitcell.edge_function(axes, values, excluding_corner=True)
             for i in range(vec):
                 edge_pairs.append(
-- 
2.43.0


From 0e89d933f05884feb841edaa8e752148e6b2e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:56 +0000
Subject: [PATCH 09/70] fix: chained periodic pairings produced out-of-range
 columns

---
 feax/flat/pbc.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 8ff67b2..0312620 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -175,10 +175,17 @@ def prolongation_matrix(
     for i in range(num_total_dofs):
         I.append(i)
         V.append(1.0)
-        if reduced_inds_map[i] < 0:
-            J.append(reduced_inds_map[-reduced_inds_map[i] - 1])
-        else:
-            J.append(reduced_inds_map[i])
+        # The master of a slave may itself be a slave of another pairing:
+        # follow the chain to the independent dof.
+        j, hops = i, 0
+        while reduced_inds_map[j] < 0:
+            j = -reduced_inds_map[j] - 1
+            hops += 1
+            if hops > num_total_dofs:
+                raise ValueError(
+                    f"Periodic pairings are circular: dof {i} depends on itself."
+                )
+        J.append(reduced_inds_map[j])
 
     # Create JAX BCOO sparse matrix for compatibility with FEAX ecosystem
     # BCOO format: (values, indices) where indices shape is (nnz, 2)
-- 
2.43.0


From 9d4342ac83beedb2bff7d1675c381d8b087dda6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:37 +0000
Subject: [PATCH 10/70] fix: unit-cell boundary tests used a tolerance relative
 to the distance from the origin

---
 feax/flat/pbc.py      |  4 ++--
 feax/flat/unitcell.py | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/feax/flat/pbc.py b/feax/flat/pbc.py
index 0312620..39c88bb 100644
--- a/feax/flat/pbc.py
+++ b/feax/flat/pbc.py
@@ -377,7 +377,7 @@ def periodic_bc_3D(
     for corner in itertools.product(
         *[[corner_origin[i], corner_origin[i] + L[i]] for i in range(dim)]
     ):
-        if np.allclose(np.array(corner), corner_origin):
+        if np.allclose(np.array(corner), corner_origin, rtol=0.0):
             continue
         master_fn = unitcell.corner_function(corner_origin)
         slave_fn = unitcell.corner_function(corner)
@@ -438,7 +438,7 @@ def periodic_bc_2D(
     for corner in itertools.product(
         *[[corner_origin[i], corner_origin[i] + L[i]] for i in range(dim)]
     ):
-        if np.allclose(np.array(corner), corner_origin):
+        if np.allclose(np.array(corner), corner_origin, rtol=0.0):
             continue
         master_fn = unitcell.corner_function(corner_origin)
         slave_fn = unitcell.corner_function(corner)
diff --git a/feax/flat/unitcell.py b/feax/flat/unitcell.py
index 6283556..379740f 100644
--- a/feax/flat/unitcell.py
+++ b/feax/flat/unitcell.py
@@ -155,8 +155,8 @@ class UnitCell(ABC):
             >>> is_corner = unit_cell.is_corner(np.array([0.0, 0.0, 0.0]))
             >>> print(f"Origin is corner: {is_corner}")
         """
-        close_0 = np.isclose(point, self.lb, atol=self.atol)
-        close_1 = np.isclose(point, self.ub, atol=self.atol)
+        close_0 = np.isclose(point, self.lb, rtol=0.0, atol=self.atol)
+        close_1 = np.isclose(point, self.ub, rtol=0.0, atol=self.atol)
         count_of_hit_corners = np.sum(np.logical_or(close_0, close_1))
         return np.equal(count_of_hit_corners, point.shape[0])
 
@@ -180,8 +180,8 @@ class UnitCell(ABC):
             >>> test_point = np.array([0.5, 0.0, 0.0])  # Middle of bottom edge
             >>> is_edge = unit_cell.is_edge(test_point)
         """
-        close_0 = np.isclose(point, self.lb, atol=self.atol)
-        close_1 = np.isclose(point, self.ub, atol=self.atol)
+        close_0 = np.isclose(point, self.lb, rtol=0.0, atol=self.atol)
+        close_1 = np.isclose(point, self.ub, rtol=0.0, atol=self.atol)
         boundary_hits = np.sum(np.logical_or(close_0, close_1))
         return np.logical_and(
             np.equal(boundary_hits, point.shape[0] - 1),
@@ -208,8 +208,8 @@ class UnitCell(ABC):
             >>> test_point = np.array([0.5, 0.5, 0.0])  # Center of bottom face
             >>> is_face = unit_cell.is_face(test_point)
         """
-        close_0 = np.isclose(point, self.lb, atol=self.atol)
-        close_1 = np.isclose(point, self.ub, atol=self.atol)
+        close_0 = np.isclose(point, self.lb, rtol=0.0, atol=self.atol)
+        close_1 = np.isclose(point, self.ub, rtol=0.0, atol=self.atol)
         boundary_hits = np.sum(np.logical_or(close_0, close_1))
         return np.logical_and(
             np.equal(boundary_hits, point.shape[0] - 2),
@@ -322,7 +322,7 @@ class UnitCell(ABC):
 
         def fn(point: np.ndarray) -> bool:
             # Base condition: point lies on the specified face
-            on_face = np.isclose(point[axis], value, atol=self.atol)
+            on_face = np.isclose(point[axis], value, rtol=0.0, atol=self.atol)
 
             # Apply exclusions as needed
             if excluding_corner and excluding_edge:
@@ -386,7 +386,7 @@ class UnitCell(ABC):
             cond = np.ones((), dtype=bool)
             for axis, value in zip(axes, values):
                 cond = np.logical_and(
-                    cond, np.isclose(point[axis], value, atol=self.atol)
+                    cond, np.isclose(point[axis], value, rtol=0.0, atol=self.atol)
                 )
             if excluding_corner:
                 # Exclude corners from the edge mask
@@ -430,7 +430,7 @@ class UnitCell(ABC):
         def fn(point: np.ndarray) -> bool:
             if len(point) != len(values):
                 raise ValueError(f"Point dimension ({len(point)}) must match corner dimension ({len(values)})")
-            return np.all(np.isclose(point, values, atol=self.atol))
+            return np.all(np.isclose(point, values, rtol=0.0, atol=self.atol))
 
         return fn
 
-- 
2.43.0


From c3b4575b2632885841597714c8cadae5fc15bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 11/70] fix: cell data was classified as node data on meshes
 with as many cells as nodes

---
 feax/assembler.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index 9bb8b19..cfc4177 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -85,21 +85,20 @@ def classify_volume_var(problem: 'Problem', var: np.ndarray):
     """
     if var.ndim == 0:
         return _VAR_CELL, 0
+    # Cell data first, exactly as in Operator.gather_internal_vars: the two must
+    # agree on meshes where the number of cells equals the number of nodes.
+    if var.ndim == 1 and var.shape[0] == problem.num_cells:
+        return _VAR_CELL, 0
+    if var.ndim == 2 and var.shape[0] == problem.num_cells:
+        # (num_cells, num_quads) is the legacy per-quad layout; anything
+        # else with a leading num_cells axis is a per-cell vector.
+        if var.shape[1] == problem.fes[0].num_quads:
+            return _VAR_QUAD, 0
+        return _VAR_CELL, 0
     if var.ndim in (1, 2):
         for i, fe in enumerate(problem.fes):
             if var.shape[0] == fe.num_total_nodes:
                 return _VAR_NODE, i
-    if var.ndim == 1:
-        if var.shape[0] == problem.num_cells:
-            return _VAR_CELL, 0
-        return None, 0
-    if var.ndim == 2:
-        if var.shape[0] == problem.num_cells:
-            # (num_cells, num_quads) is the legacy per-quad layout; anything
-            # else with a leading num_cells axis is a per-cell vector.
-            if var.shape[1] == problem.fes[0].num_quads:
-                return _VAR_QUAD, 0
-            return _VAR_CELL, 0
     return None, 0
 
 
-- 
2.43.0


From 6b6a6219f33573c70e34cce839538cf77e2362fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 12/70] fix: a per-cell vector variable was silently reduced to
 its first component

---
 feax/assembler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index cfc4177..d91388c 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -216,10 +216,11 @@ class Operator:
             shape_vals = self._problem.fes[fe_idx].shape_vals
             return np.dot(shape_vals, var)
         elif kind == _VAR_CELL:
-            # Per-cell scalar after slicing: either a 0-d scalar or a (1,) array.
-            if var.ndim == 0:
-                return np.full(self._num_quads, var)
-            return np.full(self._num_quads, var.reshape(-1)[0])
+            # Per-cell value after slicing: a 0-d scalar, a (1,) array or a
+            # per-cell vector, constant over the cell's quadrature points.
+            if var.size == 1:
+                return np.full(self._num_quads, var.reshape(()))
+            return np.broadcast_to(var, (self._num_quads,) + var.shape)
         elif kind == _VAR_QUAD:
             return var
 
-- 
2.43.0


From 39d87fd935098a5f8c405a9f3789937c1c9a849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:23 +0000
Subject: [PATCH 13/70] fix: volume fraction read cell and quadrature densities
 as nodal when the counts coincide

---
 feax/gene/responses.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/feax/gene/responses.py b/feax/gene/responses.py
index 960d5f5..9177e7d 100644
--- a/feax/gene/responses.py
+++ b/feax/gene/responses.py
@@ -229,8 +229,15 @@ def create_volume_fn(problem):
         """
         rho_flat = rho_array.ravel()
 
-        # Determine input type based on size
-        if rho_flat.shape[0] == num_nodes:
+        # Determine input type: quad and cell layouts take precedence over nodes,
+        # as they do for volume variables in assembly.
+        if rho_array.shape == (num_cells, num_quads):
+            total_volume = np.sum(rho_array * JxW)
+        elif rho_flat.shape[0] == num_cells:
+            # Cell-based density: expand to quadrature points
+            rho_quads = np.repeat(rho_flat[:, None], num_quads, axis=1)
+            total_volume = np.sum(rho_quads * JxW)
+        elif rho_flat.shape[0] == num_nodes:
             # Node-based density: interpolate to quadrature points using shape functions
             # Gather node values for each cell: (num_cells, num_nodes_per_cell)
             rho_cell_nodes = rho_flat[cells]
@@ -239,10 +246,6 @@ def create_volume_fn(problem):
             # rho_cell_nodes: (num_cells, num_nodes_per_cell)
             rho_quads = np.einsum('qn,cn->cq', shape_vals, rho_cell_nodes)
             total_volume = np.sum(rho_quads * JxW)
-        elif rho_flat.shape[0] == num_cells:
-            # Cell-based density: expand to quadrature points
-            rho_quads = np.repeat(rho_flat[:, None], num_quads, axis=1)
-            total_volume = np.sum(rho_quads * JxW)
         else:
             # Already at quadrature points (num_cells * num_quads,)
             rho_reshaped = rho_flat.reshape((num_cells, num_quads))
-- 
2.43.0


From debc32263e8b6f8f915087fff0c672f3034bf6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:24 +0000
Subject: [PATCH 14/70] fix: round-off left a spurious sliver step at the end
 of a time run

---
 feax/solvers/time_solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/time_solver.py b/feax/solvers/time_solver.py
index d7f070b..4f18e3a 100644
--- a/feax/solvers/time_solver.py
+++ b/feax/solvers/time_solver.py
@@ -539,12 +539,15 @@ def run(
     step = 0
 
     while t < time.t_end - 1e-14 * time.dt:
-        # Clamp dt so we land exactly on t_end
-        dt_eff = min(dt, time.t_end - t)
+        # Clamp dt so we land exactly on t_end; a remainder that differs from dt
+        # only by accumulated round-off is one step, not a step plus a sliver.
+        remaining = time.t_end - t
+        last = remaining <= dt * (1.0 + 1e-6)
+        dt_eff = remaining if last else dt
 
         step += 1
         state = pipeline.step(state, t, dt_eff)
-        t += dt_eff
+        t = time.t_end if last else t + dt_eff
 
         # Monitor & log
         vals = _record(state, step, t)
-- 
2.43.0


From 3a200e2a9cfc3e5676decd887e2e314ce2c2e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:35 +0000
Subject: [PATCH 15/70] fix: output guessed the cell type from the node count
 (QUAD8 written as hexahedra, 3-D quads as tetrahedra)

---
 feax/utils.py | 69 ++++++++++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 50752f4..a2422d0 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -20,6 +20,33 @@ if TYPE_CHECKING:
     from feax.problem import Problem
 
 
+# Element type -> (nodes per element, topological dimension)
+_ELEMENT_NODES_DIM = {
+    'TRI3': (3, 2), 'TRI6': (6, 2),
+    'QUAD4': (4, 2), 'QUAD8': (8, 2), 'QUAD9': (9, 2),
+    'TET4': (4, 3), 'TET10': (10, 3),
+    'HEX8': (8, 3), 'HEX20': (20, 3), 'HEX27': (27, 3),
+}
+
+
+def _mesh_element_type(mesh: Mesh) -> str:
+    """Element type of *mesh* for file output.
+
+    ``mesh.ele_type`` is used when it fits the connectivity; a mesh whose
+    ``ele_type`` was left at its default falls back to the node count.
+    """
+    n_nodes = mesh.cells.shape[1]
+    n_dim = mesh.points.shape[1]
+    nodes, dim = _ELEMENT_NODES_DIM.get(
+        getattr(mesh, 'ele_type', None), (None, None))
+    if nodes == n_nodes and dim <= n_dim:
+        return mesh.ele_type
+    for dim in (n_dim, 2):
+        for element_type, spec in _ELEMENT_NODES_DIM.items():
+            if spec == (n_nodes, dim):
+                return element_type
+    raise ValueError(f"Unsupported element type with {n_nodes} nodes per element")
+
 
 def save_sol(
     mesh: Mesh,
@@ -46,26 +73,7 @@ def save_sol(
     if cell_infos is None and point_infos is None:
         raise ValueError("At least one of cell_infos or point_infos must be provided.")
 
-    # Get meshio cell type from mesh element type
-    # We need to infer element type from the mesh structure
-    n_nodes_per_element = mesh.cells.shape[1]
-    n_dim = mesh.points.shape[1]  # 2D or 3D
-
-    if n_nodes_per_element == 3:
-        element_type = 'TRI3'
-    elif n_nodes_per_element == 4:
-        element_type = 'QUAD4' if n_dim == 2 else 'TET4'
-    elif n_nodes_per_element == 6:
-        element_type = 'TRI6'
-    elif n_nodes_per_element == 8:
-        element_type = 'HEX8'
-    elif n_nodes_per_element == 10:
-        element_type = 'TET10'
-    elif n_nodes_per_element == 20:
-        element_type = 'HEX20'
-    else:
-        raise ValueError(f"Unsupported element type with {n_nodes_per_element} nodes per element")
-
+    element_type = _mesh_element_type(mesh)
     cell_type = get_meshio_cell_type(element_type)
 
     # Create output directory if needed
@@ -171,10 +179,13 @@ _XDMF_TOPOLOGY_TYPE = {
     'TRI3': 'Triangle',
     'TRI6': 'Triangle_6',
     'QUAD4': 'Quadrilateral',
+    'QUAD8': 'Quadrilateral_8',
+    'QUAD9': 'Quadrilateral_9',
     'TET4': 'Tetrahedron',
     'TET10': 'Tetrahedron_10',
     'HEX8': 'Hexahedron',
     'HEX20': 'Hexahedron_20',
+    'HEX27': 'Hexahedron_27',
 }
 
 _XDMF_ATTRIBUTE_TYPE = {
@@ -244,23 +255,7 @@ class XDMFWriter:
 
         n_nodes_per_element = mesh.cells.shape[1]
         n_dim = mesh.points.shape[1]
-        if n_nodes_per_element == 3:
-            element_type = 'TRI3'
-        elif n_nodes_per_element == 4:
-            element_type = 'QUAD4' if n_dim == 2 else 'TET4'
-        elif n_nodes_per_element == 6:
-            element_type = 'TRI6'
-        elif n_nodes_per_element == 8:
-            element_type = 'HEX8'
-        elif n_nodes_per_element == 10:
-            element_type = 'TET10'
-        elif n_nodes_per_element == 20:
-            element_type = 'HEX20'
-        else:
-            raise ValueError(
-                f"Unsupported element type with {n_nodes_per_element} "
-                f"nodes per element"
-            )
+        element_type = _mesh_element_type(mesh)
         if element_type not in _XDMF_TOPOLOGY_TYPE:
             raise ValueError(
                 f"Element type {element_type!r} not yet supported in XDMF writer."
-- 
2.43.0


From 9fd1de9c661e88a75026de182142aa385a7bf90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:35 +0000
Subject: [PATCH 16/70] fix: nodal tensor fields were written as unreadable VTU
 arrays

---
 feax/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/feax/utils.py b/feax/utils.py
index a2422d0..5e70f50 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -132,6 +132,10 @@ def save_sol(
                     f"expected first dimension = {mesh.points.shape[0]}"
                 )
 
+            # Tensor (n_nodes, 3, 3) -> flatten to (n_nodes, 9), as for cells
+            if data.ndim > 2:
+                data = data.reshape(mesh.points.shape[0], -1)
+
             out_mesh.point_data[name] = data
 
     # Write the mesh
-- 
2.43.0


From 94bc2cad1cbc98c71f7a80c5446b92fcfe75bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:35 +0000
Subject: [PATCH 17/70] fix: a rejected XDMF frame blocked later frames and
 could lose the whole series

---
 feax/utils.py | 49 +++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/feax/utils.py b/feax/utils.py
index 5e70f50..801b772 100644
--- a/feax/utils.py
+++ b/feax/utils.py
@@ -297,6 +297,7 @@ class XDMFWriter:
         self._h5.create_dataset("mesh/cells", data=self._cells)
         self._frames = []
         self._frame_id = 0
+        self._field_signature = None
         return self
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
@@ -339,38 +340,46 @@ class XDMFWriter:
 
         frame_id = self._frame_id
         prefix = f"frame_{frame_id:06d}"
-        self._h5.create_group(prefix)
 
-        # Validate field signature is consistent across frames so the
-        # resulting XDMF is a well-formed time series.
+        # Validate the whole frame before touching the file or the writer's
+        # state, so that a rejected frame leaves no trace and the next write
+        # can succeed.  The field signature must be consistent across frames
+        # for the resulting XDMF to be a well-formed time series.
+        time = float(time)
         signature_keys = (
             tuple(name for name, _ in (point_infos or [])),
             tuple(name for name, _ in (cell_infos or [])),
         )
-        if self._field_signature is None:
-            self._field_signature = signature_keys
-        elif self._field_signature != signature_keys:
+        if self._field_signature not in (None, signature_keys):
             raise ValueError(
                 f"Field set changed between frames: "
                 f"first frame had {self._field_signature}, frame {frame_id} "
                 f"has {signature_keys}.  XDMF time series requires every "
                 "frame to have the same field names."
             )
+        for names in signature_keys:
+            if len(set(names)) != len(names):
+                raise ValueError(f"Duplicate field names in one frame: {names}.")
+
+        point_fields = [(name, _normalize_field(name, data, self._n_points))
+                        for name, data in (point_infos or [])]
+        cell_fields = [(name, _normalize_field(name, data, self._n_cells))
+                       for name, data in (cell_infos or [])]
+        for _, arr in point_fields + cell_fields:
+            self._attribute_type(arr.shape)
 
-        point_records = []
-        if point_infos:
-            for name, data in point_infos:
-                arr = _normalize_field(name, data, self._n_points)
-                self._h5.create_dataset(f"{prefix}/point/{name}", data=arr)
-                point_records.append((name, arr.shape))
-        cell_records = []
-        if cell_infos:
-            for name, data in cell_infos:
-                arr = _normalize_field(name, data, self._n_cells)
-                self._h5.create_dataset(f"{prefix}/cell/{name}", data=arr)
-                cell_records.append((name, arr.shape))
-
-        self._frames.append((float(time), prefix, point_records, cell_records))
+        self._h5.create_group(prefix)
+        for name, arr in point_fields:
+            self._h5.create_dataset(f"{prefix}/point/{name}", data=arr)
+        for name, arr in cell_fields:
+            self._h5.create_dataset(f"{prefix}/cell/{name}", data=arr)
+
+        self._field_signature = signature_keys
+        self._frames.append((
+            time, prefix,
+            [(name, arr.shape) for name, arr in point_fields],
+            [(name, arr.shape) for name, arr in cell_fields],
+        ))
         self._frame_id += 1
 
     # -- XML emission --------------------------------------------------------
-- 
2.43.0


From 1344a78ab2a56ea2d8a2a4c2e0facfb120b865f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 18/70] fix: Mesh.from_gmsh kept only the last cell block of
 each type

---
 feax/mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index f0f8fbb..7431049 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -114,7 +114,9 @@ class Mesh():
             cell_type = cell_block.type
             if cell_type in meshio_to_feax:
                 feax_type = meshio_to_feax[cell_type]
-                available_types[feax_type] = cell_block.data
+                # A mesh file holds one block per geometric entity, so a cell
+                # type usually occurs in several blocks: keep all of them.
+                available_types.setdefault(feax_type, []).append(cell_block.data)
 
         if not available_types:
             raise ValueError(
@@ -141,7 +143,7 @@ class Mesh():
 
         # Extract points and cells
         points = gmsh_mesh.points
-        cells = available_types[element_type]
+        cells = onp.concatenate(available_types[element_type], axis=0)
 
         return Mesh(points, cells, ele_type=element_type)
 
-- 
2.43.0


From b2393ea7a8e55d8fe0c67477ffd67caad6771dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 19/70] fix: box_mesh lost a division to round-off (0.3 / 0.1
 gave two cells)

---
 feax/mesh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feax/mesh.py b/feax/mesh.py
index 7431049..3ac0616 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -362,9 +362,10 @@ def box_mesh(
             curves = gmsh.model.getEntities(1)
 
             # Calculate number of divisions based on mesh_size
-            nx = max(2, int(lx / mesh_size) + 1)
-            ny = max(2, int(ly / mesh_size) + 1)
-            nz = max(2, int(lz / mesh_size) + 1)
+            # (round-off must not cost a division: 0.3 / 0.1 = 2.9999999999999996)
+            nx = max(2, int(lx / mesh_size + 1e-9) + 1)
+            ny = max(2, int(ly / mesh_size + 1e-9) + 1)
+            nz = max(2, int(lz / mesh_size + 1e-9) + 1)
 
             # Set transfinite curves - assign appropriate number of points based on curve direction
             for curve in curves:
-- 
2.43.0


From e50153c42ad49ad6202247993c5116e207ece980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:34 +0000
Subject: [PATCH 20/70] fix: cylinder_mesh ignored an axis pointing along -z

---
 feax/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/feax/mesh.py b/feax/mesh.py
index 3ac0616..6acb3e1 100644
--- a/feax/mesh.py
+++ b/feax/mesh.py
@@ -774,6 +774,9 @@ def cylinder_mesh(
                 angle = onp.arccos(onp.dot(z_axis, axis_norm))
                 gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0,
                                      rotation_axis[0], rotation_axis[1], rotation_axis[2], angle)
+            else:
+                # Axis opposite to z: half a turn about x.
+                gmsh.model.occ.rotate([(3, cylinder_tag)], x0, y0, z0, 1, 0, 0, onp.pi)
 
         gmsh.model.occ.synchronize()
 
-- 
2.43.0


From d9f16c69a4b056962fdf811c2079c87354d3b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:27 +0000
Subject: [PATCH 21/70] fix: QUAD8 and HEX20 shape functions were not nodal at
 mid-edge nodes (edge averages instead of values)

---
 feax/basis.py                           | 28 +++++++++++++++++++------
 feax/mechanics/layered_solid_element.py |  9 +++-----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/feax/basis.py b/feax/basis.py
index de13f9b..b4c4276 100644
--- a/feax/basis.py
+++ b/feax/basis.py
@@ -152,6 +152,24 @@ def reorder_inds(inds: Array, re_order: List[int]) -> Array:
     return new_inds
 
 
+def tabulate_nodal(element_family, basix_ele, degree: int, nderivs: int, points: Array) -> Array:
+    """Tabulate the nodal shape functions (and derivatives), in basix dof order.
+
+    The edge degrees of freedom of the basix serendipity elements are edge
+    averages, not values at the mid-edge nodes, so that basis is converted to
+    the nodal one (one at its own node, zero at the other nodes).
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    tab = element.tabulate(nderivs, points)
+    if element_family == basix.ElementFamily.serendipity:
+        vertices = basix.geometry(basix_ele)
+        midpoints = [vertices[edge].mean(axis=0) for edge in basix.topology(basix_ele)[1]]
+        nodes = onp.concatenate([vertices, onp.stack(midpoints)])
+        at_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+        tab = onp.einsum('dpjv,ji->dpiv', tab, onp.linalg.inv(at_nodes))
+    return tab
+
+
 def get_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = None) -> Tuple[Array, Array, Array]:
     """Compute shape function values and gradients using basix.
     
@@ -189,9 +207,8 @@ def get_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = None) -
         gauss_order = gauss_order_default
 
     quad_points, weights = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
     # Tabulate shape function values and gradients, shape: (derivative, point, basis fn index, value index)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element_family, basix_ele, degree, 1, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     return shape_values, shape_grads_ref, weights
@@ -219,8 +236,7 @@ def get_shape_hessians_ref(ele_type: str, gauss_order: Optional[int] = None) ->
         gauss_order = gauss_order_default
 
     quad_points, _ = basix.make_quadrature(basix_ele, gauss_order)
-    element = basix.create_element(element_family, basix_ele, degree)
-    tab = element.tabulate(2, quad_points)[:, :, re_order, 0]
+    tab = tabulate_nodal(element_family, basix_ele, degree, 2, quad_points)[:, :, re_order, 0]
     # tab shape: (num_derivs, num_quads, num_nodes)
 
     dim = quad_points.shape[1]
@@ -317,8 +333,8 @@ def get_face_shape_vals_and_grads(ele_type: str, gauss_order: Optional[int] = No
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(
+        element_family, basix_ele, degree, 1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
diff --git a/feax/mechanics/layered_solid_element.py b/feax/mechanics/layered_solid_element.py
index 0ff1f16..1aff5f9 100644
--- a/feax/mechanics/layered_solid_element.py
+++ b/feax/mechanics/layered_solid_element.py
@@ -40,11 +40,10 @@ from typing import Callable, Iterable, Optional, Sequence, Tuple, Union
 import jax
 import jax.numpy as np
 import numpy as onp
-import basix
 import jax.flatten_util
 
 import feax as fe
-from feax.basis import get_elements
+from feax.basis import get_elements, tabulate_nodal
 from feax.traced_params import TracedParams
 
 
@@ -298,9 +297,8 @@ def _tabulate_reference(ele_type: str, ref_points: onp.ndarray) -> np.ndarray:
     given points (in feax node ordering). Returns ``(nq, num_nodes, dim)``.
     """
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
-    tab = element.tabulate(1, pts)[:, :, re_order, :]   # (deriv, q, node, val)
+    tab = tabulate_nodal(family, basix_ele, degree, 1, pts)[:, :, re_order, :]   # (deriv, q, node, val)
     dNdxi = onp.transpose(tab[1:, :, :, 0], axes=(1, 2, 0))  # (q, node, dim)
     return np.asarray(dNdxi)
 
@@ -312,9 +310,8 @@ def _tabulate_reference_vals(ele_type: str, ref_points: onp.ndarray) -> np.ndarr
     ``(nq, num_nodes)`` in feax node ordering.
     """
     family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
-    element = basix.create_element(family, basix_ele, degree)
     pts = onp.ascontiguousarray(ref_points, dtype=onp.float64)
-    tab = element.tabulate(0, pts)[:, :, re_order, :]   # (1, q, node, val)
+    tab = tabulate_nodal(family, basix_ele, degree, 0, pts)[:, :, re_order, :]   # (1, q, node, val)
     return np.asarray(tab[0, :, :, 0])                  # (q, node)
 
 
-- 
2.43.0


From 98630ed34823e6abdeb1631c170ff87ed7326f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 22/70] fix: constraints kept the previous mesh's data after a
 remesh with the same node count

---
 feax/gene/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index ab79b5e..e3b23d4 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -251,7 +251,11 @@ def _collect_constraints(pipeline: Pipeline):
 
 def _compile(pipeline, constraints, use_jit):
     """JIT-compile objective and constraint functions."""
-    wrap = jax.jit if use_jit else lambda f: f
+    # A new function object per compilation: jax.jit shares its traces between
+    # wrappers of the same bound method, so after a remesh that keeps the node
+    # count the constants of the previous mesh would be used again.
+    def wrap(f):
+        return jax.jit(lambda rho, **params: f(rho, **params)) if use_jit else f
 
     obj_and_grad = wrap(jax.value_and_grad(pipeline.objective))
 
-- 
2.43.0


From 8c82857dafc6bbde69d584cba8d6205b64429a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 23/70] fix: a continuation whose step points away from its
 final value left the documented range

---
 feax/gene/optimizer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index e3b23d4..a7ab4e4 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -163,9 +163,8 @@ class Continuation:
         """Compute parameter value at a given iteration."""
         n = max(0, iteration // self.update_every)
         v = self.initial + self.step * n
-        if self.final >= self.initial:
-            return min(v, self.final)
-        return max(v, self.final)
+        lo, hi = sorted((self.initial, self.final))
+        return min(max(v, lo), hi)
 
 
 @dataclass
-- 
2.43.0


From bc2850e8f8d68690865d5b5cefb4359473c1f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 24/70] fix: the default initial design left its bounds for
 small constraint targets

---
 feax/gene/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index a7ab4e4..e09848e 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -351,6 +351,8 @@ def run(
     for _, _, target, ctype in constraints:
         if ctype == 'le':
             default_init = min(default_init, target)
+    # (the target need not be a density, e.g. g(rho) <= 0: stay inside the bounds)
+    default_init = float(onp.clip(default_init, *rho_bounds))
     x = (onp.full(mesh.points.shape[0], default_init)
          if rho_init is None else onp.array(rho_init))
 
-- 
2.43.0


From bfe5003e545769478ae83ab6dac8144e6100eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 25/70] fix: passive node indices were applied to a different
 mesh that happens to have as many nodes

---
 feax/gene/optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/feax/gene/optimizer.py b/feax/gene/optimizer.py
index e09848e..bc0e98a 100644
--- a/feax/gene/optimizer.py
+++ b/feax/gene/optimizer.py
@@ -357,7 +357,6 @@ def run(
          if rho_init is None else onp.array(rho_init))
 
     # Passive design regions: pin their values (excluded from the optimisation).
-    _n0 = mesh.points.shape[0]
     _pas_solid = (onp.asarray(passive_solid, dtype=int)
                   if passive_solid is not None else onp.empty(0, dtype=int))
     _pas_void = (onp.asarray(passive_void, dtype=int)
@@ -412,7 +411,7 @@ def run(
         hi = onp.full(n_vars, rho_bounds[1])
         # Pin passive design vars by collapsing their bounds (only on the
         # original mesh; indices would be stale after an adaptive remesh).
-        if n_vars == _n0:
+        if n_adapts_done == 0:
             if _pas_solid.size:
                 lo[_pas_solid] = hi[_pas_solid] = 1.0
             if _pas_void.size:
-- 
2.43.0


From 920d041f0014e42fe0329657b22a49f446e8065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:15 +0000
Subject: [PATCH 26/70] fix: interpolate_field missed the containing element on
 graded meshes

---
 feax/gene/adaptive.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index a0c80c9..8d316a3 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -116,6 +116,15 @@ def interpolate_field(values_old, mesh, points_new, clip=None):
                            + hit_lam[:, 1] * node_vals[:, 2]
                            + hit_lam[:, 2] * node_vals[:, 3])
 
+    # The containing element need not be among the nearest centroids (graded
+    # meshes): search all elements for the points not found yet.
+    for q in onp.where(onp.isnan(values_new))[0]:
+        lam = onp.einsum('eij,ej->ei', inv_T, points_new[q] - v0)
+        lam = onp.concatenate([1.0 - lam.sum(axis=1, keepdims=True), lam], axis=1)
+        e = int(onp.argmax(lam.min(axis=1)))
+        if lam[e].min() >= -1e-8:
+            values_new[q] = lam[e] @ values_old[cells[e]]
+
     # Nearest-node fallback for remaining points
     remaining = onp.isnan(values_new)
     if remaining.any():
-- 
2.43.0


From af2352fb3b44f74e17e0d1823938bc34a2881ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 27/70] fix: compliance applied a NumPy array of per-surface
 loads to every surface

---
 feax/gene/responses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/responses.py b/feax/gene/responses.py
index 9177e7d..f0d5e94 100644
--- a/feax/gene/responses.py
+++ b/feax/gene/responses.py
@@ -37,7 +37,7 @@ def create_compliance_fn(problem, surface_load_params=None):
     # Handle surface load parameters
     if surface_load_params is None:
         surface_load_params = [1.0] * num_surfaces
-    elif not isinstance(surface_load_params, (list, tuple, np.ndarray)):
+    elif np.ndim(surface_load_params) == 0 and not isinstance(surface_load_params, (list, tuple)):
         # Single value for all surfaces
         surface_load_params = [surface_load_params] * num_surfaces
     elif len(surface_load_params) != num_surfaces:
-- 
2.43.0


From 8b789802a9ed94b262f4a79d0d019f967df59d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:28 +0000
Subject: [PATCH 28/70] fix: gradient_refinement applied the transposed inverse
 Jacobian

---
 feax/gene/adaptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/adaptive.py b/feax/gene/adaptive.py
index 8d316a3..0766491 100644
--- a/feax/gene/adaptive.py
+++ b/feax/gene/adaptive.py
@@ -186,8 +186,8 @@ def gradient_refinement(rho, mesh):
     rho_e = rho[cells]  # (E, 4)
     drho_ref = rho_e[:, 1:] - rho_e[:, 0:1]  # (E, 3)
 
-    # Physical gradient: grad(rho) = inv(J)^T @ drho_ref
-    grad_rho = onp.einsum('eij,ej->ei', inv_J.transpose(0, 2, 1), drho_ref)
+    # Physical gradient: rows of J are edge vectors, so J @ grad(rho) = drho_ref
+    grad_rho = onp.einsum('eij,ej->ei', inv_J, drho_ref)
     grad_mag_elem = onp.linalg.norm(grad_rho, axis=1)  # (E,)
 
     # Scatter to nodes (average of surrounding elements)
-- 
2.43.0


From dc5659b3275a45d3ee414a5587c3cb1a472db085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 29/70] fix: StructuredGrid.fit with dims and an origin left
 the points outside the grid

---
 feax/spgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 738680a..9fc3487 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -68,7 +68,7 @@ class StructuredGrid:
         elif dims is not None:
             dims = onp.asarray(dims, int)
             org = lo if origin is None else onp.asarray(origin, float)
-            spacing = (hi - lo) / onp.maximum(dims, 1)
+            spacing = (hi - org) / onp.maximum(dims, 1)
         else:
             raise ValueError("fit requires either h (cell size) or dims")
         if align:
-- 
2.43.0


From ef767100216ed03ba49cb12bd4531c729762fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 30/70] fix: points on the upper faces of a StructuredGrid were
 reported as outside

---
 feax/spgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 9fc3487..335c13e 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -78,7 +78,11 @@ class StructuredGrid:
     def point_cells(self, points):
         """Cell id containing each point; -1 for points outside the grid."""
         p = onp.asarray(points, float).reshape(-1, 3)
-        ijk = onp.floor((p - self.origin) / self.spacing).astype(onp.int64)
+        t = (p - self.origin) / self.spacing
+        ijk = onp.floor(t).astype(onp.int64)
+        # the grid is closed: its upper faces belong to the last cells
+        n = onp.array([self.nx, self.ny, self.nz])
+        ijk = onp.where((ijk == n) & onp.isclose(t, n, rtol=1e-12, atol=0.0), n - 1, ijk)
         inb = ((ijk[:, 0] >= 0) & (ijk[:, 0] < self.nx) & (ijk[:, 1] >= 0)
                & (ijk[:, 1] < self.ny) & (ijk[:, 2] >= 0) & (ijk[:, 2] < self.nz))
         cid = (ijk[:, 0] * self.ny + ijk[:, 1]) * self.nz + ijk[:, 2]
-- 
2.43.0


From 11e2899705c46668f0eb55260e5f0f8c5fa0da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 31/70] fix: SparseDesign.gather wrapped query ids beyond 2^31
 onto stored cells

---
 feax/spgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/feax/spgrid.py b/feax/spgrid.py
index 335c13e..8d6f85e 100644
--- a/feax/spgrid.py
+++ b/feax/spgrid.py
@@ -229,12 +229,13 @@ class SparseDesign:
 
     def gather(self, query_ids, default=0.0):
         """Values for ``query_ids``; ids not in the store get ``default``."""
-        q = onp.asarray(query_ids, onp.int64).ravel().astype(onp.int32)
+        q64 = onp.asarray(query_ids, onp.int64).ravel()
+        q = q64.astype(onp.int32)
         if self.ids.size == 0:
             return onp.full(q.shape, default, float)
         pos = onp.searchsorted(self.ids, q)
         posc = onp.clip(pos, 0, self.ids.size - 1)
-        hit = (pos < self.ids.size) & (self.ids[posc] == q)
+        hit = (pos < self.ids.size) & (self.ids[posc] == q64)
         return onp.where(hit, self.vals[posc], default)
 
     def update(self, ids, vals):
-- 
2.43.0


From 4f93c34b896ddb95205e53211c622d589220e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 32/70] fix: NarrowBand.gather_cells failed on a one-cell
 domain

---
 feax/narrowband.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/narrowband.py b/feax/narrowband.py
index 3d2094e..3728bb0 100644
--- a/feax/narrowband.py
+++ b/feax/narrowband.py
@@ -141,8 +141,8 @@ class NarrowBand:
 
     def gather_cells(self, full_cell_field):
         """Full per-cell array -> band per-cell array (active cells only)."""
-        return onp.asarray(full_cell_field).reshape(self.num_full_cells, -1
-                                                    ).squeeze()[self.active_cells]
+        f = onp.asarray(full_cell_field).reshape(self.num_full_cells, -1)
+        return (f[:, 0] if f.shape[1] == 1 else f)[self.active_cells]
 
     def scatter_cells(self, band_cell_field, fill=0.0):
         """Band per-cell array -> full per-cell array (inactive filled)."""
-- 
2.43.0


From 0265728692ac3add22159a5b39ffedd4232dc732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 33/70] fix: NarrowBandCMG assigned densities to the wrong
 cells when the active cells were not sorted

---
 feax/solvers/cmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index 115c552..12005d3 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -151,7 +151,7 @@ class NarrowBandCMG:
 
     def build(self, cells0):
         levels = []
-        cells = onp.sort(onp.asarray(cells0, onp.int64))
+        cells = onp.asarray(cells0, onp.int64).ravel()     # the caller's order (rho_cells follows it)
         nx, ny, nz = self.nelx, self.nely, self.nelz
         for l in range(self.L):
             nyz, nz1 = ny * nz, nz + 1
-- 
2.43.0


From e7acc2f39024a6daaeaae28ed12102a42886c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 34/70] fix: NarrowBandCMG ignored the spacing of its grid

---
 feax/solvers/cmg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index 12005d3..c3e57b9 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -42,8 +42,8 @@ def _design_of(rho_or_tp):
     return rho_or_tp
 
 
-def make_KE_3d(nu=0.3, E=1.0):
-    """24x24 stiffness of a unit-cube trilinear hex; local node order = the 8
+def make_KE_3d(nu=0.3, E=1.0, spacing=(1.0, 1.0, 1.0)):
+    """24x24 stiffness of a trilinear hex with edges ``spacing``; local node order = the 8
     corners (dx,dy,dz), dz fastest — matches the compact edof in this module."""
     lam = E * nu / ((1 + nu) * (1 - 2 * nu))
     mu = E / (2 * (1 + nu))
@@ -62,7 +62,7 @@ def make_KE_3d(nu=0.3, E=1.0):
             dN[0, a] = 0.125 * sx * (1 + sy*eta) * (1 + sz*ze)
             dN[1, a] = 0.125 * sy * (1 + sx*xi) * (1 + sz*ze)
             dN[2, a] = 0.125 * sz * (1 + sx*xi) * (1 + sy*eta)
-        J = dN @ corners
+        J = dN @ (corners * onp.asarray(spacing, float))
         detJ = onp.linalg.det(J)
         dNxyz = onp.linalg.solve(J, dN)
         B = onp.zeros((6, 24))
@@ -122,7 +122,7 @@ class NarrowBandCMG:
         self.nelx, self.nely, self.nelz = grid.nx, grid.ny, grid.nz
         self.L = n_levels or auto_levels((grid.nx, grid.ny, grid.nz))
         self.fixed_pred = fixed_pred
-        self.KE = onp.asarray(make_KE_3d(nu))
+        self.KE = onp.asarray(make_KE_3d(nu, spacing=grid.spacing))
         self.KEd = _node_diag_blocks_3d(self.KE)
         self.Emin, self.E0, self.penal = Emin, E0, penal
         self.pre, self.post = pre, post
-- 
2.43.0


From e6614edddae2988bfa9e40ce3badbe72cc6572ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 35/70] fix: run_narrowband_oc with margin=0 activated the
 whole grid

---
 feax/gene/narrowband.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index f71815d..983e3cb 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -126,8 +126,10 @@ def run_narrowband_oc(grid, cmg, keep, volfrac, load_fn, *, rmin=1.5,
         if it < grid_update_start:
             want = onp.ones((nx, ny, nz), bool)
         else:
-            want = binary_dilation(rho.reshape(nx, ny, nz) > threshold,
-                                   iterations=margin) | keep
+            want = rho.reshape(nx, ny, nz) > threshold
+            if margin > 0:              # (iterations=0 would dilate until nothing changes)
+                want = binary_dilation(want, iterations=margin)
+            want = want | keep
         active_cells = onp.nonzero(want.reshape(-1))[0].astype(onp.int64)
 
         # Primitive schedule: eager until iter ``jit_after`` (band still moving ->
-- 
2.43.0


From a9b4e797bf036a60522e5be38c29f61012c0ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:50 +0000
Subject: [PATCH 36/70] fix: volume parameters of a wrong length were silently
 padded or truncated in assembly

---
 feax/assembler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index d91388c..a00da72 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -343,11 +343,20 @@ class Operator:
                 if var.shape[0] == problem.num_cells:
                     result.append(var)
                 else:
-                    fe_idx = 0
+                    fe_idx = None
                     for i, fe in enumerate(problem.fes):
                         if var.shape[0] == fe.num_total_nodes:
                             fe_idx = i
                             break
+                    if fe_idx is None:
+                        # A single value is uniform; anything else would be read
+                        # out of bounds (JAX clamps) by the gather below.
+                        if var.shape[0] != 1:
+                            raise ValueError(
+                                f"volume var with shape {var.shape} matches neither the "
+                                f"number of cells ({problem.num_cells}) nor of nodes "
+                                f"({[fe.num_total_nodes for fe in problem.fes]})")
+                        fe_idx = 0
                     cells = (ts.cells_list[fe_idx] if ts is not None
                              else problem.fes[fe_idx].cells)
                     result.append(var[cells])
-- 
2.43.0


From bdbb5e5df6bde1cbf8b1368a3509997a2ac0bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 37/70] fix: stored energy and average stress rejected or
 misread nodal and cell vector parameters

---
 feax/assembler.py   | 32 +++++++++++---------------------
 feax/flat/solver.py | 24 +++---------------------
 2 files changed, 14 insertions(+), 42 deletions(-)

diff --git a/feax/assembler.py b/feax/assembler.py
index a00da72..eb1f286 100644
--- a/feax/assembler.py
+++ b/feax/assembler.py
@@ -365,6 +365,16 @@ class Operator:
         return result
 
 
+def volume_vars_at_quads(problem: 'Problem', volume_vars) -> List[np.ndarray]:
+    """Volume variables at the quadrature points of every cell,
+    ``(num_cells, num_quads, ...)`` each — exactly as the assembly sees them."""
+    op = Operator(problem)
+    gathered = Operator.gather_internal_vars(problem, volume_vars)
+    kinds = [classify_volume_var(problem, v) for v in volume_vars]
+    return [jax.vmap(lambda v, k=kind, i=i: op.interpolate_var(v, k, i))(g)
+            for g, (kind, i) in zip(gathered, kinds)]
+
+
 def interpolate_to_quad_points(var: np.ndarray, shape_vals: np.ndarray, num_cells: int, num_quads: int) -> np.ndarray:
     """Interpolate node-based or cell-based values to quadrature points.
 
@@ -1923,27 +1933,7 @@ def create_energy_fn(problem) -> Callable:
     cells = problem.cells_list[0]
     sg = fe0.shape_grads      # (num_cells, num_quads, num_nodes, dim)
     jxw = fe0.JxW              # (num_cells, num_quads)
-    sval = fe0.shape_vals        # (num_quads, num_nodes_per_cell)
     vec = fe0.vec
-    num_cells = fe0.num_cells
-    num_quads = fe0.num_quads
-
-    def _interpolate_volume_vars(traced_params):
-        """Interpolate volume variables to quadrature points.
-
-        Returns a list of arrays each with shape ``(num_cells, num_quads)``.
-        """
-        result = []
-        for var in traced_params.volume_vars:
-            if var.ndim == 1:
-                if var.shape[0] == num_cells:
-                    result.append(np.tile(var[:, None], (1, num_quads)))
-                else:
-                    var_cell = var[cells]
-                    result.append(np.einsum('qn,cn->cq', sval, var_cell))
-            else:
-                result.append(var)
-        return result
 
     def energy(u_flat, traced_params=None):
         u = u_flat.reshape(-1, vec)
@@ -1959,7 +1949,7 @@ def create_energy_fn(problem) -> Callable:
 
             return np.sum(jax.vmap(cell_energy)(cell_u, sg, jxw))
         else:
-            vol_vars_q = _interpolate_volume_vars(traced_params)
+            vol_vars_q = volume_vars_at_quads(problem, traced_params.volume_vars)
 
             def cell_energy_iv(cell_sol, cell_sg, cell_jxw, *vars_c):
                 u_grads = np.sum(
diff --git a/feax/flat/solver.py b/feax/flat/solver.py
index 4446752..db34e3b 100644
--- a/feax/flat/solver.py
+++ b/feax/flat/solver.py
@@ -20,6 +20,7 @@ import numpy as onp
 import jax
 import jax.numpy as np
 
+from ..assembler import volume_vars_at_quads
 from ..solver import create_solver
 from ..solvers.options import DirectSolverOptions, KrylovSolverOptions, has_cudss
 
@@ -116,27 +117,8 @@ def average_stress(problem, u_total: np.ndarray, traced_params, dim: int) -> np.
     # u_grads: (num_cells, num_quads, vec, dim)
     u_grads = np.einsum('cqnd,cnv->cqvd', shape_grads, cell_sol)
 
-    # Broadcast volume internal vars to (num_cells, num_quads)
-    num_cells = u_grads.shape[0]
-    num_quads = JxW.shape[1]
-
-    # shape_vals: (num_quads, num_nodes_per_cell) — for node-based interpolation
-    shape_vals    = problem.fes[0].shape_vals
-    cell_node_ids = problem.cells_list[0]   # (num_cells, nodes_per_cell)
-
-    vol_vars_quad = []
-    for var in traced_params.volume_vars:
-        if var.ndim == 1:
-            if var.shape[0] == num_cells:
-                # cell-based: same value at every quad point
-                vol_vars_quad.append(np.tile(var[:, None], (1, num_quads)))
-            else:
-                # node-based: interpolate to Gauss points via shape functions
-                var_cell_nodes = var[cell_node_ids]                          # (num_cells, nodes_per_cell)
-                var_at_quads   = np.einsum('qn,cn->cq', shape_vals, var_cell_nodes)  # (num_cells, num_quads)
-                vol_vars_quad.append(var_at_quads)
-        else:
-            vol_vars_quad.append(var)
+    # Volume internal vars at every quad point, as the assembly sees them
+    vol_vars_quad = volume_vars_at_quads(problem, traced_params.volume_vars)
 
     def cell_weighted_stress(u_grads_c, JxW_c, *vars_c):
         """Sum of JxW-weighted stresses over quad points for one cell."""
-- 
2.43.0


From 30898ff0d003b049828657d268e87f598cc5ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 38/70] fix: node_var returned another component when the
 requested one does not exist

---
 feax/solution.py      | 2 ++
 feax/traced_params.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/feax/solution.py b/feax/solution.py
index 81c5316..c5c3231 100644
--- a/feax/solution.py
+++ b/feax/solution.py
@@ -166,6 +166,8 @@ class Solution:
             return u[..., 0]
         if component is None:
             raise ValueError(f"field has vec={vec} components; pass component=")
+        if not -vec <= component < vec:       # (JAX would clamp the index)
+            raise IndexError(f"component {component} out of range (vec={vec})")
         return u[..., component]
 
     def __repr__(self):
diff --git a/feax/traced_params.py b/feax/traced_params.py
index e577696..826ae6c 100644
--- a/feax/traced_params.py
+++ b/feax/traced_params.py
@@ -420,6 +420,8 @@ class TracedParams:
         if component is None:
             raise ValueError(
                 f"solution has vec={u.shape[1]} components; pass component=")
+        if not -u.shape[1] <= component < u.shape[1]:       # (JAX would clamp the index)
+            raise IndexError(f"component {component} out of range (vec={u.shape[1]})")
         return u[:, component]
 
     def replace_volume_var(self, index: int, new_var: np.ndarray) -> 'TracedParams':
-- 
2.43.0


From 74f417a48bdfca47352213f096ec4361c3112174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 39/70] fix: iterating over a Solution never ended

---
 feax/solution.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/feax/solution.py b/feax/solution.py
index c5c3231..363cf4c 100644
--- a/feax/solution.py
+++ b/feax/solution.py
@@ -156,6 +156,14 @@ class Solution:
         :meth:`field` for typed per-variable access."""
         return self.dofs[key]
 
+    def __len__(self):
+        return len(self.dofs)
+
+    def __iter__(self):
+        # (without this, iteration falls back to __getitem__, where JAX clamps
+        # the index instead of raising IndexError: it would never end)
+        return iter(self.dofs)
+
     def node_var(self, component: Optional[int] = None, var_index: int = 0):
         """The solved field as a ``(num_nodes,)`` node variable — directly
         usable in the next solve's ``TracedParams`` (staggered chaining).
-- 
2.43.0


From 7616e9f63c46fd863fdeb96fd139567f7c4b46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:05 +0000
Subject: [PATCH 40/70] fix: create_cell_var_from_fn failed on meshes with
 NumPy points

---
 feax/traced_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/traced_params.py b/feax/traced_params.py
index 826ae6c..2442b9d 100644
--- a/feax/traced_params.py
+++ b/feax/traced_params.py
@@ -297,7 +297,7 @@ class TracedParams:
         """
         # Compute cell centroids
         cells = problem.fes[var_index].cells
-        points = problem.fes[var_index].points
+        points = np.asarray(problem.fes[var_index].points)
         centroids = jax.vmap(lambda cell: np.mean(points[cell], axis=0))(cells)
         return jax.vmap(var_fn)(centroids)
 
-- 
2.43.0


From ad5c77fb0c78c887d8b621eccd6d5548829b7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:34 +0000
Subject: [PATCH 41/70] fix: automatic Krylov selection dropped the user's
 GMRES restart

---
 feax/solvers/options.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 74d7749..5ab7ed9 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -6,6 +6,7 @@ solver behavior, including linear solver selection, tolerances, and
 CUDA-specific options.
 """
 
+import dataclasses
 import logging
 from dataclasses import dataclass
 from enum import Enum
@@ -869,19 +870,8 @@ def resolve_iterative_solver(
     }
     solver_name = mp_to_solver[matrix_property]
 
-    resolved = KrylovSolverOptions(
-        solver=solver_name,
-        tol=options.tol,
-        atol=options.atol,
-        maxiter=options.maxiter,
-        preconditioner=options.preconditioner,
-        use_jacobi_preconditioner=options.use_jacobi_preconditioner,
-        jacobi_shift=options.jacobi_shift,
-        x0_fn=options.x0_fn,
-        check_convergence=options.check_convergence,
-        convergence_threshold=options.convergence_threshold,
-        verbose=options.verbose,
-    )
+    # Everything except the method is the user's choice (restart, x0_fn, ...).
+    resolved = dataclasses.replace(options, solver=solver_name)
     logger.info(
         f"IterativeSolver auto: matrix_property={matrix_property.name} "
         f"-> {solver_name}"
-- 
2.43.0


From 19abd45253b14a63457d99d31a77303813831696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:34 +0000
Subject: [PATCH 42/70] fix: matrix-property detection overlooked asymmetric
 blocks of small entries

---
 feax/solvers/options.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 5ab7ed9..6ea7230 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -235,8 +235,12 @@ def detect_matrix_property(A, sym_tol: float = 1e-8, matrix_view=None) -> Matrix
         x = jax.random.normal(key, (A.shape[1],), dtype=A.dtype)
         Ax = A @ x
         ATx = A.T @ x
-        sym_err = np.linalg.norm(Ax - ATx) / (np.linalg.norm(Ax) + 1e-30)
-        is_symmetric = bool(sym_err < sym_tol)
+        # Row by row, relative to the size of the row and the column: a global
+        # norm would hide an asymmetric block of small entries (e.g. thermal
+        # next to mechanical equations).
+        absA = jax.tree_util.tree_map(np.abs, A)
+        scale = absA @ np.abs(x) + absA.T @ np.abs(x)
+        is_symmetric = bool(np.all(np.abs(Ax - ATx) <= sym_tol * scale))
 
     if not is_symmetric:
         return MatrixProperty.GENERAL
-- 
2.43.0


From 1024a98a4d5219e5c75f2bfddf9435ec23766a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:35 +0000
Subject: [PATCH 43/70] fix: direct solvers silently solved a triangularly
 stored matrix as if it were whole

---
 feax/solver.py          | 11 +++++++++++
 feax/solvers/options.py | 24 +++++++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/feax/solver.py b/feax/solver.py
index 5079659..72a2db0 100644
--- a/feax/solver.py
+++ b/feax/solver.py
@@ -372,6 +372,17 @@ def create_solver(
                 adjoint_linear_options = resolve_iterative_solver(adjoint_linear_options, _mp)
             print(f"[feax] Auto adjoint solver ({_category}): backend={_backend.name}, matrix_property={_mp.name} -> {adjoint_linear_options.solver}")
 
+    # Explicit direct solvers: check that they can work on the stored view.
+    if isinstance(linear_options, DirectSolverOptions):
+        _shared_opts = adjoint_linear_options is linear_options
+        linear_options = resolve_direct_solver(linear_options, None, matrix_view=problem.matrix_view)
+        if _shared_opts:
+            adjoint_linear_options = linear_options
+    if (isinstance(adjoint_linear_options, DirectSolverOptions)
+            and adjoint_linear_options is not linear_options):
+        adjoint_linear_options = resolve_direct_solver(
+            adjoint_linear_options, None, matrix_view=problem.matrix_view)
+
     # Foot-gun guard: symmetric_elimination=False produces a NON-symmetric
     # tangent, but cuDSS defaults to matrix_type=SYMMETRIC (LDLT) — that
     # combination silently factorizes a symmetrized matrix and Newton stalls
diff --git a/feax/solvers/options.py b/feax/solvers/options.py
index 6ea7230..6549b42 100644
--- a/feax/solvers/options.py
+++ b/feax/solvers/options.py
@@ -678,12 +678,25 @@ def resolve_direct_solver(
     DirectSolverOptions
         Options with solver resolved to a concrete algorithm.
     """
+    triangular = matrix_view in (MatrixView.UPPER, MatrixView.LOWER)
+
     if options.solver != "auto":
         detect_available_solver_backends(options.solver)
+        if triangular and options.solver in ("umfpack", "spsolve"):
+            raise ValueError(
+                f"{options.solver} needs the whole matrix, but matrix_view="
+                f"{matrix_view.name} stores only one triangle. Use matrix_view='FULL', "
+                "or a solver for triangular storage (cholmod, cudss) or a Krylov solver."
+            )
+        sksparse_opts = options.sksparse_options
+        if triangular and options.solver == "cholmod":
+            # cholmod must read the triangle that is stored
+            sksparse_opts = dataclasses.replace(
+                sksparse_opts, lower=matrix_view == MatrixView.LOWER)
         return DirectSolverOptions(
             solver=options.solver,
             cudss_options=options.cudss_options,
-            sksparse_options=options.sksparse_options,
+            sksparse_options=sksparse_opts,
             reuse_factorization=options.reuse_factorization,
             check_convergence=options.check_convergence,
             convergence_threshold=options.convergence_threshold,
@@ -695,6 +708,9 @@ def resolve_direct_solver(
     has_cudss_backend = "cudss" in available_solvers
     has_cholmod = "cholmod" in available_solvers
     has_umfpack = "umfpack" in available_solvers
+    if triangular:
+        # one triangle is stored: the LU backends need the whole matrix
+        has_umfpack = has_spsolve_backend = False
 
     sksparse_opts = options.sksparse_options
 
@@ -739,7 +755,8 @@ def resolve_direct_solver(
             solver = "spsolve"
         else:
             raise RuntimeError(
-                "No direct solver backend is available for solver='auto'. "
+                "No direct solver backend is available for solver='auto' with "
+                f"matrix_view={matrix_view.name}. "
                 f"Available solvers: {tuple(sorted(available_solvers))}"
             )
     else:
@@ -749,7 +766,8 @@ def resolve_direct_solver(
             solver = "spsolve"
         else:
             raise RuntimeError(
-                "No direct solver backend is available for solver='auto'. "
+                "No direct solver backend is available for solver='auto' with "
+                f"matrix_view={matrix_view.name}. "
                 f"Available solvers: {tuple(sorted(available_solvers))}"
             )
 
-- 
2.43.0


From a93f8f8d9b85f590bed46eef96192eac1a4e9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 44/70] fix: create_helmholtz_filter failed on second-order
 meshes

---
 feax/gene/filters.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index 79dcf89..c96dbee 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -79,14 +79,12 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
         )
 
     # Detect element type
-    if mesh.points.shape[1] == 2:
-        # 2D mesh
-        ele_type = 'QUAD4' if mesh.cells.shape[1] == 4 else 'TRI3'
-        dim = 2
-    else:
-        # 3D mesh
-        ele_type = 'HEX8' if mesh.cells.shape[1] == 8 else 'TET4'
-        dim = 3
+    dim = mesh.points.shape[1]
+    ele_type = {
+        (2, 3): 'TRI3', (2, 4): 'QUAD4', (2, 6): 'TRI6', (2, 8): 'QUAD8',
+        (2, 9): 'QUAD9', (3, 4): 'TET4', (3, 8): 'HEX8', (3, 10): 'TET10',
+        (3, 20): 'HEX20', (3, 27): 'HEX27',
+    }[dim, mesh.cells.shape[1]]
 
     # Create problem (done once)
     problem = HelmholtzFilterProblem(
-- 
2.43.0


From 42fcf7b3e21e110e1c932250685270273174d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 45/70] fix: the Helmholtz filter read nodal densities as cell
 data on meshes with as many cells as nodes

---
 feax/gene/filters.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index c96dbee..a7302c8 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -117,7 +117,8 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
     # Pre-compute constants
     r_squared = radius ** 2
     initial_guess = np.zeros(problem.num_total_dofs_all_vars)
-    num_nodes = mesh.points.shape[0]
+    shape_vals = problem.fes[0].shape_vals  # (num_quads, nodes per cell)
+    cells = np.asarray(mesh.cells)
 
     def filter_fn(rho_source):
         """
@@ -129,10 +130,12 @@ def create_helmholtz_filter(mesh, radius, P=None, solver_options=None):
         Returns:
             (num_nodes,) array of filtered node-based density field
         """
-        # Create internal variables with rho_source as node-based variable
-        r_sq_array = np.full(num_nodes, r_squared)
+        # Interpolate the nodal source to the quadrature points here: as a nodal
+        # array it would be read as cell data on meshes with as many cells as nodes.
+        rho_quad = np.asarray(rho_source)[cells] @ shape_vals.T
+        r_sq_array = np.full(rho_quad.shape, r_squared)
         traced_params = fe.traced_params.TracedParams(
-            volume_vars=(rho_source, r_sq_array),
+            volume_vars=(rho_quad, r_sq_array),
             surface_vars=()
         )
 
-- 
2.43.0


From 59bf3deeef5e2eb5a3cd79cafb2fb961388c044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 46/70] fix: the density filter did not reproduce constants for
 small radii

---
 feax/gene/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index a7302c8..4cde687 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -324,7 +324,7 @@ def create_density_filter(mesh, radius: float, weight_type: str = "cone") -> Cal
         # Sparse matrix-vector multiplication for weighted averaging
         rho_weighted = weight_matrix @ rho
         # Normalize by row sums
-        rho_filtered = rho_weighted / (row_sums + 1e-12)
+        rho_filtered = rho_weighted / np.where(row_sums > 0.0, row_sums, 1.0)
         return rho_filtered
 
     return filter_fn
-- 
2.43.0


From 433f88658ff8f39719ba201a93c32ea20c15f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 47/70] fix: the sensitivity filter lost neighbours when the
 active cells were not sorted

---
 feax/gene/filters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/feax/gene/filters.py b/feax/gene/filters.py
index 4cde687..c60e554 100644
--- a/feax/gene/filters.py
+++ b/feax/gene/filters.py
@@ -450,6 +450,8 @@ def create_sensitivity_filter(grid, rmin: float):
     def filt(active_cells, rho_active, dc_active):
         ac = onp.asarray(active_cells, onp.int64)
         na = ac.size
+        order = onp.argsort(ac, kind="stable")           # active cells in any order
+        ac_sorted = ac[order]
         ex, ey, ez = grid.cell_ijk(ac)
         rho_pad = onp.concatenate([onp.asarray(rho_active, float), [0.0]])   # sink at na
         dc_pad = onp.concatenate([onp.asarray(dc_active, float), [0.0]])
@@ -464,9 +466,9 @@ def create_sensitivity_filter(grid, rmin: float):
             Hs += onp.where(inb, w, 0.0)
             cell = grid.cell_id(onp.clip(jx, 0, nx - 1), onp.clip(jy, 0, ny - 1),
                                 onp.clip(jz, 0, nz - 1))
-            pos = onp.clip(onp.searchsorted(ac, cell), 0, na - 1)
-            hit = inb & (ac[pos] == cell)
-            idx = onp.where(hit, pos, na)                # miss -> sink (0)
+            pos = onp.clip(onp.searchsorted(ac_sorted, cell), 0, na - 1)
+            hit = inb & (ac_sorted[pos] == cell)
+            idx = onp.where(hit, order[pos], na)                # miss -> sink (0)
             num += w * rho_pad[idx] * dc_pad[idx]
         return num / (Hs * onp.maximum(1e-3, onp.asarray(rho_active, float)) + 1e-30)
 
-- 
2.43.0


From 71740608fa3ed72be50277610c753150a00df3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:08 +0000
Subject: [PATCH 48/70] fix: oc_update missed its volume target for
 sensitivities beyond 1e9

---
 feax/gene/narrowband.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index 983e3cb..c5cd2cd 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -52,13 +52,20 @@ def oc_update(rho, dc, volfrac, *, dv=1.0, move=0.2, xmin=1e-3, xmax=1.0,
     dc = onp.asarray(dc, float)
     dv = onp.asarray(dv, float) * onp.ones_like(rho)
     target = volfrac * dv.sum()
+
+    def update(lam):
+        be = onp.maximum(0.0, -dc / (dv * lam + 1e-30))
+        x = onp.clip(rho * be ** damping, rho - move, rho + move)
+        return onp.clip(x, xmin, xmax)
+
     l1, l2 = 0.0, float(l2_init)
+    # λ scales with the objective: widen the bracket until its upper end is feasible.
+    while l2 < 1e100 and float((update(l2) * dv).sum()) > target:
+        l1, l2 = l2, 10.0 * l2
     xnew = rho
     while (l2 - l1) / (l1 + l2 + 1e-30) > bisect_tol:
         lmid = 0.5 * (l1 + l2)
-        be = onp.maximum(0.0, -dc / (dv * lmid + 1e-30))
-        xnew = onp.clip(rho * be ** damping, rho - move, rho + move)
-        xnew = onp.clip(xnew, xmin, xmax)
+        xnew = update(lmid)
         if float((xnew * dv).sum()) > target:
             l1 = lmid
         else:
-- 
2.43.0


From 251e4a0196ce2127fa391e7e2c02b1e2dc9af935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:02 +0000
Subject: [PATCH 49/70] fix: sparse buckling missed positive modes behind
 larger negative ones and on few free DoFs

ARPACK was asked for the largest-magnitude eigenvalues of -K^-1 K_g, so negative
ones crowded out the positive buckling factors, repeated factors could come back
as complex pairs and be dropped, and small systems failed. Solve the symmetric
pencil for the largest (algebraic) values, directly when the basis spans the space.
---
 feax/solvers/eigen.py | 56 ++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index 57f395e..e8bea87 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -4,7 +4,7 @@ Solves the linear-buckling pencil ``(K + λ K_g) φ = 0`` for the lowest positiv
 buckling factors ``λ`` and their mode shapes, with four forward backends:
 
 * ``solver="sparse"`` (:func:`_sparse_buckling`, **default**) — matrix-free shift-invert
-  ``T = -K⁻¹ K_g`` solved by SciPy ARPACK (:func:`scipy.sparse.linalg.eigs`) with one
+  ``T = -K⁻¹ K_g`` solved by SciPy ARPACK (:func:`scipy.sparse.linalg.eigsh`) with one
   sparse factorization for ``K⁻¹``. ``O(nf · ncv)`` memory, never a dense ``N×N``. Runs
   purely host-side (no nested ``jax.pure_callback``), so it is leak-free under repeated
   calls (e.g. inside topology optimization).
@@ -276,8 +276,8 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
 
         T = -K⁻¹ K_g ,   T φ = μ φ   with   μ = 1/λ,
 
-    and find the largest-magnitude ``μ`` (the smallest positive ``λ``) with ARPACK
-    (:func:`scipy.sparse.linalg.eigs`) driving a ``LinearOperator`` ``v ↦ -K⁻¹(K_g v)``.
+    and find the largest ``μ`` (the smallest positive ``λ``) with ARPACK's symmetric
+    solver (:func:`scipy.sparse.linalg.eigsh`, ``T`` is self-adjoint in the K inner product).
     ``K⁻¹`` is one sparse factorization (CHOLMOD / SuperLU). Everything runs in plain
     SciPy/NumPy — **no** ``jax.pure_callback`` inside the eigensolve — so repeated calls
     in an optimization loop do not accumulate runtime callbacks / factors (no leak).
@@ -311,34 +311,40 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
     free = onp.asarray(free_dofs)
     nf = len(free)
     Kg_sp = _restrict_csr(Kg, free)                  # reduced sub-matrices (pure SciPy)
-    solve, backend = _make_host_solve(_restrict_csr(K, free))   # factorize K once (host)
+    K_sp = _restrict_csr(K, free)
+    K_sp = (0.5 * (K_sp + K_sp.T)).tocsr()           # clean round-off asymmetry
+    solve, backend = _make_host_solve(K_sp)          # factorize K once (host)
 
     def matvec(v):                                   # T v = -K⁻¹ (K_g v)
         return -solve(Kg_sp @ onp.asarray(v, dtype=onp.float64))
 
-    T = spla.LinearOperator((nf, nf), matvec=matvec, dtype=onp.float64)
-    k = int(min(num_modes + 4, nf - 2))
-    if k < 1:
-        raise BucklingConvergenceError(
-            f"too few free DoFs ({nf}) for the sparse eigensolve; use solver='dense'.")
-    ncv = int(min(nf - 1, max(num_matvecs, 2 * k + 1)))
-    v0 = onp.random.RandomState(seed).randn(nf)
+    # μ = 1/λ from the equivalent *symmetric* pencil -K_g φ = μ K φ: real spectrum,
+    # K-orthonormal modes, and "LA" targets the largest positive μ directly (with the
+    # largest-magnitude ones, negative μ of tension-dominated loads crowd them out).
+    A = (-0.5 * (Kg_sp + Kg_sp.T)).tocsr()
+    k = int(num_modes)
+    ncv = max(num_matvecs, 2 * k + 1)
     if verbose:
         print(f"[buckling/sparse] ARPACK shift-invert (K⁻¹={backend}) | "
-              f"N={N}, free={nf}, k={k}, ncv={ncv}")
-    try:
-        vals, vecs = spla.eigs(T, k=k, which="LM", ncv=ncv, v0=v0)
-    except spla.ArpackNoConvergence as e:            # use whatever converged
-        vals, vecs = e.eigenvalues, e.eigenvectors
-        if vals.size == 0:
-            raise BucklingConvergenceError(
-                f"ARPACK did not converge (k={k}, ncv={ncv}); increase num_matvecs "
-                "or check that K is SPD on the free DoFs.") from e
-
-    mu = vals.real
-    real_pair = onp.abs(vals.imag) <= 1e-8 * (onp.abs(vals.real) + 1e-30)
-    lam = onp.where(mu != 0.0, 1.0 / mu, onp.inf)
-    valid = real_pair & onp.isfinite(lam) & (lam > 1e-12)
+              f"N={N}, free={nf}, k={k}, ncv={min(ncv, nf)}")
+    if nf <= ncv:
+        # The Krylov basis would span the whole space: solve the small pencil directly.
+        import scipy.linalg as sla
+        mu, vecs = sla.eigh(A.toarray(), K_sp.toarray())
+    else:
+        v0 = onp.random.RandomState(seed).randn(nf)
+        Kinv = spla.LinearOperator((nf, nf), matvec=solve, dtype=onp.float64)
+        try:
+            mu, vecs = spla.eigsh(A, k=k, M=K_sp, Minv=Kinv, which="LA", ncv=ncv, v0=v0)
+        except spla.ArpackNoConvergence as e:        # use whatever converged
+            mu, vecs = e.eigenvalues, e.eigenvectors
+            if mu.size == 0:
+                raise BucklingConvergenceError(
+                    f"ARPACK did not converge (k={k}, ncv={ncv}); increase num_matvecs "
+                    "or check that K is SPD on the free DoFs.") from e
+
+    lam = onp.where(mu != 0.0, 1.0 / onp.where(mu != 0.0, mu, 1.0), onp.inf)
+    valid = onp.isfinite(lam) & (lam > 1e-12)
     order = onp.argsort(onp.where(valid, lam, onp.inf))
     order = order[valid[order]][:num_modes]
 
-- 
2.43.0


From 74d19729f2905d6129dcbf987bb19811710a7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:02 +0000
Subject: [PATCH 50/70] fix: buckling solvers returned round-off as huge finite
 factors

Directions without geometric stiffness have mu = 0 up to round-off; their sign and
size are noise, but 1/mu was reported as a finite positive buckling factor.
---
 feax/solvers/eigen.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index e8bea87..bb5ef33 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -86,6 +86,16 @@ def generalized_eigh(A: jnp.ndarray, B: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.n
     return w, X
 
 
+def _is_positive_mode(mu, scale=0.0):
+    """Mask of the ``μ = 1/λ`` that are positive beyond the round-off of the spectrum.
+
+    A ``μ`` that vanishes relative to the largest one (or to ``scale``) carries no
+    buckling load (``λ = ∞``); its sign is round-off and it is not a mode.
+    """
+    mu = onp.asarray(mu)
+    return mu > 1e-12 * max(scale, float(onp.max(onp.abs(mu), initial=0.0)))
+
+
 def _dense_buckling(K, Kg, free_dofs, num_modes: int = 6,
                     zero_tol: float = 1e-8, verbose: bool = False
                     ) -> Tuple[onp.ndarray, onp.ndarray]:
@@ -151,8 +161,9 @@ def _dense_buckling(K, Kg, free_dofs, num_modes: int = 6,
                         lo=jnp.min(gamma), hi=jnp.max(gamma), r=jnp.max(res_all))
     gamma = onp.asarray(gamma); Vf = onp.asarray(Vf)
 
-    lam = -1.0 / gamma
-    valid = (lam > zero_tol) & onp.isfinite(lam)
+    positive = _is_positive_mode(-gamma)             # μ = -γ = 1/λ
+    lam = onp.where(positive, -1.0 / onp.where(positive, gamma, -1.0), onp.inf)
+    valid = positive & (lam > zero_tol)
     order = onp.argsort(onp.where(valid, lam, onp.inf))[:num_modes]
     order = order[valid[order]]                      # keep only genuine positive modes
     if verbose:
@@ -322,6 +333,7 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
     # K-orthonormal modes, and "LA" targets the largest positive μ directly (with the
     # largest-magnitude ones, negative μ of tension-dominated loads crowd them out).
     A = (-0.5 * (Kg_sp + Kg_sp.T)).tocsr()
+    v0 = onp.random.RandomState(seed).randn(nf)
     k = int(num_modes)
     ncv = max(num_matvecs, 2 * k + 1)
     if verbose:
@@ -332,7 +344,6 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
         import scipy.linalg as sla
         mu, vecs = sla.eigh(A.toarray(), K_sp.toarray())
     else:
-        v0 = onp.random.RandomState(seed).randn(nf)
         Kinv = spla.LinearOperator((nf, nf), matvec=solve, dtype=onp.float64)
         try:
             mu, vecs = spla.eigsh(A, k=k, M=K_sp, Minv=Kinv, which="LA", ncv=ncv, v0=v0)
@@ -343,9 +354,11 @@ def _sparse_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 30
                     f"ARPACK did not converge (k={k}, ncv={ncv}); increase num_matvecs "
                     "or check that K is SPD on the free DoFs.") from e
 
-    lam = onp.where(mu != 0.0, 1.0 / onp.where(mu != 0.0, mu, 1.0), onp.inf)
-    valid = onp.isfinite(lam) & (lam > 1e-12)
-    order = onp.argsort(onp.where(valid, lam, onp.inf))
+    # ‖T v₀‖/‖v₀‖ gauges the whole spectrum (only its upper end was computed)
+    scale = float(onp.linalg.norm(matvec(v0)) / onp.linalg.norm(v0))
+    valid = _is_positive_mode(mu, scale)
+    lam = onp.where(valid, 1.0 / onp.where(valid, mu, 1.0), onp.inf)
+    order = onp.argsort(lam)
     order = order[valid[order]][:num_modes]
 
     def _resid(c):                                   # eigen-residual ‖Tφ − μφ‖/‖φ‖
@@ -471,9 +484,9 @@ def _create_cudss_bf(free_dofs, num_modes: int = 3, num_matvecs: int = 30,
         vals, Y = onp.linalg.eig(H[:m, :m])
         mu = vals.real
         real_pair = onp.abs(vals.imag) <= 1e-8 * (onp.abs(vals.real) + 1e-30)
-        lam = onp.where(mu != 0.0, 1.0 / mu, onp.inf)
-        valid = real_pair & onp.isfinite(lam) & (lam > 1e-12)
-        order = onp.argsort(onp.where(valid, lam, onp.inf))
+        valid = real_pair & _is_positive_mode(mu)
+        lam = onp.where(valid, 1.0 / onp.where(valid, mu, 1.0), onp.inf)
+        order = onp.argsort(lam)
         order = order[valid[order]][:mo]
         if conv_tol is not None and len(order) == 0:
             raise BucklingConvergenceError(
@@ -660,9 +673,9 @@ def _matfree_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 3
 
     mu = vals.real
     real_pair = onp.abs(vals.imag) <= 1e-8 * (onp.abs(vals.real) + 1e-30)
-    lam = onp.where(mu != 0.0, 1.0 / mu, onp.inf)
-    valid = real_pair & onp.isfinite(lam) & (lam > 1e-12)
-    order = onp.argsort(onp.where(valid, lam, onp.inf))
+    valid = real_pair & _is_positive_mode(mu)
+    lam = onp.where(valid, 1.0 / onp.where(valid, mu, 1.0), onp.inf)
+    order = onp.argsort(lam)
     order = order[valid[order]][:num_modes]
 
     def _resid(c):                                   # eigen-residual ‖Tφ − μφ‖/‖φ‖
-- 
2.43.0


From 368ff78fac28c8e1e22ac816ef99c763daa91462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:02 +0000
Subject: [PATCH 51/70] fix: buckling-factor gradients were NaN when fewer
 modes exist than requested

---
 feax/solvers/eigen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index bb5ef33..c7c3ebe 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -876,6 +876,9 @@ def create_linear_buckling_solver(free_dofs, num_modes: int = 3, solver: str = "
     def _bwd(res, cts):
         K, Kg, lam, phi = res
         lam_bar, _modes_bar = cts                     # mode-shape cotangent ignored
+        # padded (missing) modes have λ = ∞ and φ = 0: no sensitivity, not ∞·0
+        lam = jnp.where(jnp.isfinite(lam), lam, 0.0)
+        lam_bar = jnp.where(lam > 0.0, lam_bar, 0.0)
         K_cot = _outer_cotangent(K, phi, lam_bar * lam, free)
         Kg_cot = _outer_cotangent(Kg, phi, lam_bar * lam * lam, free)
         return (K_cot, Kg_cot)
-- 
2.43.0


From 1373b18d3545288cf845105fa4619c6ab808ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:15 +0000
Subject: [PATCH 52/70] fix: the matfree buckling backend never spanned small
 systems (num_matvecs >= free DoFs)

---
 feax/solvers/eigen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/solvers/eigen.py b/feax/solvers/eigen.py
index c7c3ebe..f66c0ee 100644
--- a/feax/solvers/eigen.py
+++ b/feax/solvers/eigen.py
@@ -649,7 +649,7 @@ def _matfree_buckling(K, Kg, free_dofs, num_modes: int = 6, num_matvecs: int = 3
     nf = len(free)
     Kf_sp = _restrict_csr(K, free)                   # reduced K (SciPy, for the factor)
     Kgf = _restrict_csr_jax(Kg, free)                # reduced K_g (JAX CSRMatrix, for @)
-    nkv = int(min(num_matvecs, nf - 1))
+    nkv = int(min(num_matvecs, nf))
     kinv, backend = _make_kinv_apply(Kf_sp)          # factorize K once (host)
     if verbose:
         jax.debug.print("[buckling/sparse] Arnoldi shift-invert (K⁻¹={bk}) | "
-- 
2.43.0


From c6d4140a074c02d669917ce6922af7b300e8a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:59 +0000
Subject: [PATCH 53/70] fix: box_to_triangle and box_to_tetrahedron accept
 arrays of design points

---
 feax/mechanics/orientation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/feax/mechanics/orientation.py b/feax/mechanics/orientation.py
index f94460f..781bda0 100644
--- a/feax/mechanics/orientation.py
+++ b/feax/mechanics/orientation.py
@@ -113,7 +113,7 @@ def box_to_triangle(x1: float, x2: float) -> Tuple[np.ndarray, np.ndarray]:
     a11, a22 : same shape as inputs
     """
     N = _serendipity_8(x1, x2)
-    return np.sum(_U * N), np.sum(_V * N)
+    return np.tensordot(_U, N, axes=1), np.tensordot(_V, N, axes=1)
 
 
 # ---------------------------------------------------------------------------
@@ -192,9 +192,7 @@ def box_to_tetrahedron(
     a11, a22, a33 : same shape as inputs
     """
     N = _trilinear_hex_8(x1, x2, x3)
-    a11 = np.sum(_TET_VERTICES[:, 0] * N)
-    a22 = np.sum(_TET_VERTICES[:, 1] * N)
-    a33 = np.sum(_TET_VERTICES[:, 2] * N)
+    a11, a22, a33 = np.tensordot(_TET_VERTICES.T, N, axes=1)
     return a11, a22, a33
 
 
-- 
2.43.0


From 3c14ab8f979090d8744b91e150b22fa61f7768d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:59 +0000
Subject: [PATCH 54/70] fix: bilinear cohesive law peaks at the documented
 opening delta_0 = sigma_c / k0

---
 feax/mechanics/cohesive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/mechanics/cohesive.py b/feax/mechanics/cohesive.py
index dd4a77c..91a207c 100644
--- a/feax/mechanics/cohesive.py
+++ b/feax/mechanics/cohesive.py
@@ -130,9 +130,9 @@ def bilinear_potential(delta, delta_max, *, Gamma, sigma_c):
         Cohesive energy density per node, shape ``(n_nodes,)``.
     """
     delta_f = 2.0 * Gamma / sigma_c
-    delta_0 = 2.0 * Gamma / (sigma_c * delta_f)
+    k0 = sigma_c**2 / (2.0 * Gamma)
+    delta_0 = sigma_c / k0
 
-    k0 = sigma_c / delta_0
     phi_ascending = 0.5 * k0 * delta**2
     phi_descending = Gamma - 0.5 * sigma_c * (delta_f - delta)**2 / (delta_f - delta_0 + 1e-30)
     phi_full = Gamma * np.ones_like(delta)
-- 
2.43.0


From 21e8161488c73026982a4550df7c733c43035046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:59 +0000
Subject: [PATCH 55/70] fix: finite derivatives of the extended logarithm at J
 = 0

---
 feax/mechanics/tmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/mechanics/tmc.py b/feax/mechanics/tmc.py
index 52b70ef..b4077bb 100644
--- a/feax/mechanics/tmc.py
+++ b/feax/mechanics/tmc.py
@@ -133,7 +133,7 @@ class ThirdMediumContact(fe.Problem):
             lnJ_min = np.log(J_min)
             s = (J - J_min) / J_min
             ext = lnJ_min + s - 0.5 * s ** 2
-            return np.where(J > J_min, np.log(J), ext)
+            return np.where(J > J_min, np.log(np.where(J > J_min, J, J_min)), ext)
 
         def psi(u_grad, mu, lmbda, *_unused):
             F = u_grad + np.eye(dim)
-- 
2.43.0


From ac6ddfa5282e20d5c4cd51e886ca8842fc137645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 56/70] fix: DensityField inverse mapping used the transposed
 Jacobian on skewed cells

---
 feax/gene/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index f6943a9..3df760c 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -625,7 +625,7 @@ class DensityField(SDF):
                 return xi
 
             try:
-                delta = onp.linalg.solve(J, residual)
+                delta = onp.linalg.solve(J.T, residual)
             except onp.linalg.LinAlgError:
                 return None
             xi = xi - delta
@@ -805,7 +805,7 @@ class DensityField(SDF):
 
             try:
                 # solve expects (N, dim, dim) @ (N, dim, 1) → (N, dim, 1)
-                delta = onp.linalg.solve(J, residual[..., None])[..., 0]
+                delta = onp.linalg.solve(J.swapaxes(1, 2), residual[..., None])[..., 0]
             except onp.linalg.LinAlgError:
                 return None
             xi = onp.ascontiguousarray(xi - delta)
-- 
2.43.0


From f72b43b3ceb7786d2af50592291586d7238c7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 57/70] fix: DensityField paired basix functions with the wrong
 nodes of quadratic cells

---
 feax/gene/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 3df760c..1c64a55 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -515,7 +515,7 @@ class DensityField(SDF):
         # --- basix element info ---
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
-        self._re_order = onp.array(re_order)
+        self._re_order = onp.argsort(re_order)  # mesh node of each basix dof
         self._element = basix.create_element(family, basix_ele, degree)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
@@ -526,7 +526,7 @@ class DensityField(SDF):
 
         # --- Precompute per-element data ---
         # Node coordinates per element: (E, nodes_per_elem, dim)
-        self._elem_nodes = points[cells[:, re_order]]
+        self._elem_nodes = points[cells[:, self._re_order]]
 
         if self._linear_simplex:
             # Direct barycentric: x = v0 + T @ lam
-- 
2.43.0


From b654f236d33eb12603aa4763dce3e44634ae24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 58/70] fix: DensityField interpolates QUAD8 and HEX20 with
 nodal shape functions

---
 feax/gene/sdf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 1c64a55..03a53c4 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -29,7 +29,7 @@ import meshio
 import numpy as onp
 from scipy.spatial import cKDTree
 
-from feax.basis import get_elements
+from feax.basis import get_elements, tabulate_nodal
 
 
 # ---------------------------------------------------------------------------
@@ -516,7 +516,7 @@ class DensityField(SDF):
         family, basix_ele, _, _, degree, re_order = get_elements(ele_type)
         self._basix_ele = basix_ele
         self._re_order = onp.argsort(re_order)  # mesh node of each basix dof
-        self._element = basix.create_element(family, basix_ele, degree)
+        self._tabulate = lambda nderivs, xi: tabulate_nodal(family, basix_ele, degree, nderivs, xi)
         self._ref_centroid = basix.geometry(basix_ele).mean(axis=0)
 
         # Fast path flag: TET4 / TRI3 have linear maps → direct solve
@@ -610,7 +610,7 @@ class DensityField(SDF):
         # Newton iteration: find xi s.t. x(xi) = p
         xi = self._ref_centroid.copy()
         for _ in range(self._newton_max_iter):
-            tab = self._element.tabulate(1, xi.reshape(1, -1))
+            tab = self._tabulate(1, xi.reshape(1, -1))
             N = tab[0, 0, :, 0]              # (nodes,)  basix order
             dN = tab[1:, 0, :, 0]             # (dim, nodes)  basix order
 
@@ -642,7 +642,7 @@ class DensityField(SDF):
         """
         if self._linear_simplex:
             return onp.concatenate([[1.0 - xi.sum()], xi])
-        tab = self._element.tabulate(0, xi.reshape(1, -1))
+        tab = self._tabulate(0, xi.reshape(1, -1))
         return tab[0, 0, :, 0]  # basix order
 
     def _ref_element_distance(self, xi):
@@ -788,7 +788,7 @@ class DensityField(SDF):
 
         for _ in range(self._newton_max_iter):
             # tabulate at all xi simultaneously — basix order
-            tab = self._element.tabulate(1, xi)
+            tab = self._tabulate(1, xi)
             # tab shape: (1+dim, N, nodes, 1)
             N_vals = tab[0, :, :, 0]    # (N, nodes) basix order
             dN = tab[1:, :, :, 0]        # (dim, N, nodes) basix order
@@ -827,7 +827,7 @@ class DensityField(SDF):
             lam0 = 1.0 - xi_batch.sum(axis=1, keepdims=True)  # (N, 1)
             return onp.concatenate([lam0, xi_batch], axis=1)
 
-        tab = self._element.tabulate(0, xi_batch)
+        tab = self._tabulate(0, xi_batch)
         return tab[0, :, :, 0]  # basix order
 
     # -- Bounds --------------------------------------------------------------
-- 
2.43.0


From 581ee7dbd9e420583c829e2a2ec1f36514dbf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 59/70] fix: batched inverse mapping accepted unconverged
 points and let one singular point spoil the batch

---
 feax/gene/sdf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 03a53c4..91f4e8c 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -770,7 +770,8 @@ class DensityField(SDF):
     def _inverse_map_batch(self, pts, ei):
         """Batch inverse mapping for ``pts`` (N, dim) into elements ``ei``.
 
-        Returns reference coordinates ``(N, dim)`` or None.
+        Returns reference coordinates ``(N, dim)`` (NaN where Newton did not
+        converge) or None.
         Uses basix-ordered node coordinates and raw (basix-ordered)
         shape functions — no re-ordering needed since both match.
         """
@@ -803,13 +804,18 @@ class DensityField(SDF):
             if max_res < self._newton_tol:
                 break
 
+            # A singular point fails on its own, not the whole batch
+            Jt = onp.ascontiguousarray(J.swapaxes(1, 2))
+            Jt[~(onp.abs(onp.linalg.det(Jt)) > 0.0)] = onp.nan
             try:
                 # solve expects (N, dim, dim) @ (N, dim, 1) → (N, dim, 1)
-                delta = onp.linalg.solve(J.swapaxes(1, 2), residual[..., None])[..., 0]
+                delta = onp.linalg.solve(Jt, residual[..., None])[..., 0]
             except onp.linalg.LinAlgError:
                 return None
             xi = onp.ascontiguousarray(xi - delta)
 
+        # Keep a point only if its iteration converged (NaN is never inside)
+        xi[~(onp.linalg.norm(residual, axis=1) < 1e-6)] = onp.nan
         return xi
 
     def _shape_vals_batch(self, xi_batch):
-- 
2.43.0


From d4a96a9d235426dd783a8810ab129ec18fb49b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 60/70] fix: from_vtk reads 2D meshes

---
 feax/gene/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 91f4e8c..8b6d5f3 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -951,6 +951,7 @@ def from_vtk(
         )
 
     from feax.mesh import Mesh
-    mesh = Mesh(points, cells, ele_type=ele_type)
+    dim = basix.geometry(get_elements(ele_type)[1]).shape[1]
+    mesh = Mesh(points[:, :dim], cells, ele_type=ele_type)  # VTK points are always 3D
 
     return DensityField(rho, mesh, threshold=threshold)
-- 
2.43.0


From ae39347e612c5ffd97a3996ceec2598f79108d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 61/70] fix: extract_surface returns a triangle mesh as
 documented

---
 feax/gene/mesh_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/feax/gene/mesh_extraction.py b/feax/gene/mesh_extraction.py
index 4bda603..e7a3415 100644
--- a/feax/gene/mesh_extraction.py
+++ b/feax/gene/mesh_extraction.py
@@ -116,7 +116,7 @@ def extract_surface(
     """
     grid = _to_pyvista(mesh, density)
     clipped = grid.clip_scalar(scalars='density', value=threshold, invert=False)
-    surface = clipped.extract_surface(algorithm=None)
+    surface = clipped.extract_surface(algorithm=None).triangulate()
 
     if smooth_iterations > 0:
         surface = surface.smooth(n_iter=smooth_iterations)
-- 
2.43.0


From 4711c42cb1bff26c831f7b12794242b9952d27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:12 +0000
Subject: [PATCH 62/70] fix: DensityField searches every element that can hold
 a point, not only the 16 nearest centroids

---
 feax/gene/sdf.py | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/feax/gene/sdf.py b/feax/gene/sdf.py
index 8b6d5f3..6a9c753 100644
--- a/feax/gene/sdf.py
+++ b/feax/gene/sdf.py
@@ -546,6 +546,9 @@ class DensityField(SDF):
         self._centroid_tree = cKDTree(self._centroids)
         self._node_tree = cKDTree(points)
         self._n_candidates = min(16, len(cells))
+        # No element reaches farther than this from its centroid.
+        self._reach = 1.01 * onp.linalg.norm(
+            self._elem_nodes - self._centroids[:, None, :], axis=2).max()
 
     # -- Single-point evaluation ---------------------------------------------
 
@@ -556,9 +559,7 @@ class DensityField(SDF):
 
     def _interpolate_single(self, p: onp.ndarray) -> float:
         """Interpolate density at a single point."""
-        _, cands = self._centroid_tree.query(p, k=self._n_candidates)
-        if self._n_candidates == 1:
-            cands = [cands]
+        cands = (ei[0] for _, ei in self._candidates(p[None, :], lambda: onp.array([True])))
 
         best_xi = None
         best_ei = None
@@ -594,6 +595,31 @@ class DensityField(SDF):
         _, ni = self._node_tree.query(p)
         return float(self._rho[ni])
 
+    def _candidates(self, points, missing):
+        """Yield ``(point rows, element ids)`` to try, one element per missing point.
+
+        The nearest centroids come first, then every other element that
+        could reach the point.  ``missing()`` masks the points not yet found.
+        """
+        n = self._n_candidates
+        _, near = self._centroid_tree.query(points, k=n)
+        near = near.reshape(len(points), n)
+        for k in range(n):
+            idx = onp.where(missing())[0]
+            if len(idx) == 0:
+                return
+            yield idx, near[idx, k]
+
+        rows = onp.where(missing())[0]
+        if n == len(self._cells) or len(rows) == 0:
+            return
+        reachable = self._centroid_tree.query_ball_point(points[rows], self._reach)
+        rest = {i: onp.setdiff1d(r, near[i]) for i, r in zip(rows, reachable)}
+        for k in range(max(len(r) for r in rest.values())):
+            idx = [i for i in onp.where(missing())[0] if len(rest[i]) > k]
+            if idx:
+                yield onp.array(idx), onp.array([rest[i][k] for i in idx])
+
     def _inverse_map_single(self, p, ei):
         """Map physical point *p* to reference coords for element *ei*.
 
@@ -677,26 +703,13 @@ class DensityField(SDF):
         n_query = len(points)
         dim = self._dim
 
-        _, cand_all = self._centroid_tree.query(
-            points, k=self._n_candidates,
-        )
-        if self._n_candidates == 1:
-            cand_all = cand_all[:, None]
-
         densities = onp.full(n_query, onp.nan)
         # Track best near-miss per point for fallback interpolation
         best_dist = onp.full(n_query, onp.inf)
         best_xi = onp.zeros((n_query, dim))
         best_ei = onp.zeros(n_query, dtype=onp.intp)
 
-        for k in range(self._n_candidates):
-            mask = onp.isnan(densities)
-            if not mask.any():
-                break
-
-            idx = onp.where(mask)[0]
-            ei = cand_all[idx, k]
-
+        for idx, ei in self._candidates(points, lambda: onp.isnan(densities)):
             # --- Batch inverse map ---
             xi_batch = self._inverse_map_batch(points[idx], ei)
             if xi_batch is None:
-- 
2.43.0


From 54b532abf81890b3b64d41946d23cba23fa02ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 63/70] fix: distributed.initialize ignored the configured
 coordinator port

---
 feax/distributed/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index c463e46..797a0f0 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -26,17 +26,18 @@ import jax
 def initialize():
     """Initialize JAX distributed runtime from environment variables.
 
-    Reads JAX_COORD_ADDR, JAX_NUM_PROCESSES, and JAX_PROCESS_ID from
-    the environment. If JAX_COORD_ADDR is not set, does nothing
-    (single-node mode).
+    Reads JAX_COORD_ADDR, JAX_COORD_PORT (default 1234),
+    JAX_NUM_PROCESSES, and JAX_PROCESS_ID from the environment. If
+    JAX_COORD_ADDR is not set, does nothing (single-node mode).
 
     Returns:
         True if distributed mode was initialized, False otherwise.
     """
     coord = os.environ.get("JAX_COORD_ADDR")
     if coord:
+        port = os.environ.get("JAX_COORD_PORT", "1234")
         jax.distributed.initialize(
-            coordinator_address=f"{coord}:1234",
+            coordinator_address=f"{coord}:{port}",
             num_processes=int(os.environ["JAX_NUM_PROCESSES"]),
             process_id=int(os.environ["JAX_PROCESS_ID"]),
         )
-- 
2.43.0


From 6f75955c8ef0d5dbba4d570522b808762298d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 64/70] fix: distributed launcher dropped the script arguments
 on every worker

---
 feax/distributed/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feax/distributed/__init__.py b/feax/distributed/__init__.py
index 797a0f0..32cf037 100644
--- a/feax/distributed/__init__.py
+++ b/feax/distributed/__init__.py
@@ -17,6 +17,7 @@ Usage as CLI launcher:
 """
 
 import os
+import shlex
 import subprocess
 import sys
 
@@ -144,6 +145,8 @@ def _launch(config_path, script, script_args):
             f" -e JAX_PROCESS_ID={i}"
             f" {container} python3 -"
         )
+        if script_args:
+            docker_cmd += " " + shlex.join(script_args)
         ssh_cmd.append(docker_cmd)
 
         with open(script) as f:
@@ -180,7 +183,7 @@ def main():
         help="Path to cluster config YAML (default: distributed.yml)",
     )
     parser.add_argument("script", help="Python script to run")
-    parser.add_argument("args", nargs="*", help="Arguments for the script")
+    parser.add_argument("args", nargs=argparse.REMAINDER, help="Arguments for the script")
 
     args = parser.parse_args()
     _launch(args.config, args.script, args.args)
-- 
2.43.0


From 1545ae23e014eb6d5757e4dd8e3783bb2d9e87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:56 +0000
Subject: [PATCH 65/70] fix: profile() stopped the clock before asynchronous
 work had finished

---
 feax/profiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/feax/profiler.py b/feax/profiler.py
index aedba27..723f13d 100644
--- a/feax/profiler.py
+++ b/feax/profiler.py
@@ -211,6 +211,7 @@ def profile(label: str = "default", block_until_ready: bool = True):
     finally:
         if block_until_ready:
             jax.effects_barrier()
+            jax.block_until_ready(jax.live_arrays())
         elapsed = time.perf_counter() - start
         result.records.append(TimingRecord(label=label, wall_time_s=elapsed))
 
-- 
2.43.0


From 1f1a1b6f3ab830cdff013af9b02f5b8316db6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:17 +0000
Subject: [PATCH 66/70] fix: memory_snapshot charged every device with all
 arrays of its platform

---
 feax/profiler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/feax/profiler.py b/feax/profiler.py
index 723f13d..8f299ea 100644
--- a/feax/profiler.py
+++ b/feax/profiler.py
@@ -23,6 +23,7 @@ Examples
 """
 
 import logging
+import math
 import time
 from contextlib import contextmanager
 from dataclasses import dataclass, field
@@ -134,7 +135,6 @@ def trace_jaxpr(fn: Callable, *args, **kwargs) -> JaxprInfo:
     primitives = _count_primitives(closed_jaxpr)
 
     static_avals = [v.aval for v in closed_jaxpr.jaxpr.constvars]
-    import math
     static_bytes = sum(
         math.prod(a.shape) * a.dtype.itemsize
         for a in static_avals
@@ -301,11 +301,18 @@ def memory_snapshot(backend: Optional[str] = None) -> List[MemorySnapshot]:
     devices = jax.devices(backend)
     snapshots = []
     for dev in devices:
-        live_arrays = jax.live_arrays(platform=dev.platform)
+        # Only the arrays this device holds, and of those only its shard
+        live_arrays = [
+            a for a in jax.live_arrays(platform=dev.platform)
+            if dev in a.sharding.device_set
+        ]
         n_buffers = len(live_arrays)
         total_bytes = None
         try:
-            total_bytes = sum(a.nbytes for a in live_arrays)
+            total_bytes = sum(
+                math.prod(a.sharding.shard_shape(a.shape)) * a.dtype.itemsize
+                for a in live_arrays
+            )
         except (AttributeError, TypeError):
             pass
         snapshots.append(MemorySnapshot(
-- 
2.43.0


From 8558196bda52a63eaf9786fffc31728da3b02384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 67/70] fix: run_narrowband_multires runs n_iter iterations on
 the finest level when it is the only one

---
 feax/gene/narrowband.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index c5cd2cd..134f20b 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -245,12 +245,12 @@ def run_narrowband_multires(build_fn, dims, volfrac, *, n_levels=2,
         grid, cmg, keep, load_fn = (parts["grid"], parts["cmg"],
                                     parts["keep"], parts["load_fn"])
         if lvl == 0:
-            x_init, gus, niter, tag = None, grid_update_start, coarse_iter, "explore"
+            x_init, gus, tag = None, grid_update_start, "explore"
         else:
             x_init = _upsample(rho_grid, d).reshape(-1)   # seed band from coarser design
             gus = 0                                        # no full-grid solve here
-            niter = n_iter if finest else coarse_iter
             tag = "refine"
+        niter = n_iter if finest else coarse_iter
         if verbose:
             ndof = 3 * (d[0] + 1) * (d[1] + 1) * (d[2] + 1)
             print(f"[multires] L{lvl} {d}  DOF={ndof:,}  {tag}  iters={niter}  "
-- 
2.43.0


From e3a6f21038871ac5c5f1cdd11082c38b1791116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 68/70] fix: no level of the resolution ladder is finer than
 the next one

---
 feax/gene/narrowband.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/feax/gene/narrowband.py b/feax/gene/narrowband.py
index 134f20b..14093a0 100644
--- a/feax/gene/narrowband.py
+++ b/feax/gene/narrowband.py
@@ -175,12 +175,12 @@ def run_narrowband_oc(grid, cmg, keep, volfrac, load_fn, *, rmin=1.5,
 def _res_ladder(dims, n_levels, factor, floor=8):
     """Resolution ladder coarse->fine: [dims/factor^(L-1), ..., dims/factor, dims].
 
-    Rounds each coarse dim to at least ``floor`` and stops early if a level can
-    get no coarser (so any dims/n_levels combo is safe).
+    Rounds each coarse dim to at least ``floor`` (a dim already below it is kept)
+    and stops early if a level can get no coarser (so any dims/n_levels combo is safe).
     """
     ladder = [tuple(int(d) for d in dims)]
     for _ in range(n_levels - 1):
-        coarse = tuple(max(floor, int(round(d / factor))) for d in ladder[0])
+        coarse = tuple(min(d, max(floor, int(round(d / factor)))) for d in ladder[0])
         if coarse == ladder[0]:
             break
         ladder.insert(0, coarse)
-- 
2.43.0


From 0ac19f141f7a43dae3ae9b6af44a669dad3fa096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 69/70] fix: narrow-band multigrid post-smooths in reverse
 color order so that CG converges

---
 feax/solvers/cmg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index c3e57b9..17bd2ac 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -224,10 +224,10 @@ class NarrowBandCMG:
         blk = jnp.where(fn[:, None, None], blk, jnp.eye(3)[None])
         return jnp.linalg.inv(blk)
 
-    def _smooth_j(self, u, b, lev, Dinv, sweeps):
+    def _smooth_j(self, u, b, lev, Dinv, sweeps, colors=range(8)):
         CN = lev["color"].shape[0]
         for _ in range(sweeps):
-            for c in range(8):
+            for c in colors:
                 r = (b - self._mv_j(u, lev)) * lev["free"]
                 du = jnp.einsum("nab,nb->na", Dinv, r.reshape(CN, 3))
                 un = u.reshape(CN, 3) + (lev["color"] == c)[:, None] * du
@@ -270,7 +270,8 @@ class NarrowBandCMG:
         ecn = ec.reshape(CNc, 3)
         uf = (lev["Pw"][:, :, None] * ecn[lev["Pidx"]]).sum(axis=1)
         u = u + uf.reshape(-1) * lev["free"]
-        return self._smooth_j(u, b, lev, Dinvs[l], self.post)
+        # Reverse color order: the V-cycle must be symmetric to precondition CG.
+        return self._smooth_j(u, b, lev, Dinvs[l], self.post, colors=range(7, -1, -1))
 
     def _solve_j(self, P, b, u0, token, coarse):
         Dinvs = [self._dinv_j(P[l]) for l in range(self.L - 1)]
-- 
2.43.0


From 8c3db258ecf53a6a8c3c06b45c04a04fff996637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 70/70] fix: narrow-band multigrid CG converges for different
 numbers of pre- and post-smoothing sweeps

---
 feax/solvers/cmg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/feax/solvers/cmg.py b/feax/solvers/cmg.py
index 17bd2ac..f793930 100644
--- a/feax/solvers/cmg.py
+++ b/feax/solvers/cmg.py
@@ -289,9 +289,11 @@ class NarrowBandCMG:
         def body(st):
             u, r, p, rz, k = st
             Ap = A(p); alpha = rz / (jnp.vdot(p, Ap) + 1e-30)
+            r_old = r
             u = u + alpha * p; r = r - alpha * Ap
             z = self._vcycle_j(r, P, Dinvs, token, coarse, 0); rz_new = jnp.vdot(r, z)
-            p = z + (rz_new / (rz + 1e-30)) * p
+            # Flexible beta: the cycle is not symmetric when pre != post.
+            p = z + (jnp.vdot(r - r_old, z) / (rz + 1e-30)) * p
             return (u, r, p, rz_new, k + 1)
 
         u, r, p, rz, k = jax.lax.while_loop(cond, body, (u, r, z, rz, 0))
-- 
2.43.0

