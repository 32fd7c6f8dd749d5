"""Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Assembled residual and tangent are exactly the sum of element contributions",
  "For every mesh, set of variables, volume/mass/surface/weak-form contribution and internal-variable kind (per node, per cell, per quadrature point, uniform), the assembled residual is the weak form summed once over every cell and every selected boundary face, and the assembled tangent is its derivative. Every route to them (with or without the precomputed structure, fused or separate, matrix-free, energy based, jitted or not) gives the same numbers whatever the number of cells, and the UPPER and LOWER storage views hold exactly the entries on and above / on and below the diagonal of the full tangent.",
  ["inputs", "configurations"],
  "All meshes, element types, numbers of cells relative to the internal batch size, variables, views, internal-variable kinds and assembly routes.",
  "Tests compare a few smooth problems on a handful of mesh sizes, mostly with uniform coefficients and one route at a time; an index, padding or filter error shows only for particular cell counts, views, several variables or non-uniform coefficients.",
  ["feax/assembler.py", "feax/problem.py", "feax/csr.py", "feax/traced_structure.py", "feax/fe.py"],
  [("COO/CSR structure and slot maps", "problem.py:_build_csr_assembly_structure"), ("batched scan with padding into a discard slot", "assembler.py:_scan_vmap_batched"), ("fused residual+tangent", "assembler.py:_assemble_volume_res_and_J")],
  ["feax.get_res", "feax.get_jacobian", "feax.create_res_bc_function", "feax.create_J_bc_csr_function", "feax.create_energy_fn"])

p("C02", "Dirichlet conditions are resolved and enforced exactly where they were asked",
  "Given any list of boundary specifications (a location predicate, one component or all, a value that may depend on position, a variable), the constrained set is exactly the selected degrees of freedom of the selected variables, each once, in increasing order, with the value of the first specification that selects it. Enforcing it replaces the residual of a constrained degree of freedom by its distance to the prescribed (possibly scaled) value, makes its tangent row (and, for symmetric elimination, its column) an identity row, and leaves every other entry untouched; replacing the values never changes which degrees of freedom are constrained.",
  ["inputs", "configurations"],
  "All lists of specifications (overlapping, empty, several variables and components), all matrices and residuals, symmetric or not, all storage views.",
  "Tests use disjoint faces with all components; overlaps, per-component specs on later variables, empty selections and non-symmetric elimination are sampled once or not at all.",
  ["feax/DCboundary.py", "feax/assembler.py"],
  [("spec resolution", "DCboundary.py:DirichletBCConfig.create_bc"), ("row/column elimination", "DCboundary.py:apply_boundary_to_J_csr"), ("residual replacement", "DCboundary.py:apply_boundary_to_res")],
  ["DirichletBCConfig.create_bc", "apply_boundary_to_res", "apply_boundary_to_J_csr", "DirichletBC.replace_vals"])

p("C03", "A linear solve returns the solution of the constrained discrete system",
  "For a linear problem the returned field satisfies the prescribed values exactly and equilibrium at every free degree of freedom, and it is the same (to solver tolerance) for every admissible choice of solver, preconditioner, storage view, elimination mode, initial guess and way of calling (eager, jitted, with overridden boundary values). Linear and Newton paths agree on linear problems started from a guess that satisfies the prescribed values.",
  ["inputs", "configurations"],
  "All linear problems with a unique solution, all solver options the library offers on this platform, all initial guesses and boundary-value overrides.",
  "Tests run one initial guess and mostly homogeneous or fixed boundary values per solver; the cross product of solver, view, elimination, guess and overridden values is never enumerated.",
  ["feax/solver.py", "feax/solvers/linear.py", "feax/solvers/common.py", "feax/solvers/options.py", "feax/solvers/direct/umfpack.py", "feax/solvers/direct/cholmod.py", "feax/solvers/direct/spsolve.py", "feax/solvers/amg.py", "feax/solvers/cmg.py"],
  [("linear solve", "solvers/linear.py:linear_solve"), ("solver factory", "solver.py:create_solver"), ("initial guess lifting", "solvers/common.py")],
  ["create_solver(...)(tp, guess)", "create_solver(...)(tp, guess, bc=...)"])

p("C04", "Gradients through a solve are the true sensitivities",
  "For the linear and Newton paths the gradient of any function of the solution with respect to volume variables, surface variables and prescribed boundary values equals the derivative of the discrete solution with respect to that parameter; this holds for every storage view, solver choice and adjoint solver choice, for symmetric and unsymmetric tangents, and for several variables. On the periodic/reduced path the same holds for volume and surface variables of symmetric problems.",
  ["inputs", "configurations"],
  "All linear functionals of the solution, all parameters, all solver paths, views, elimination modes and adjoint options.",
  "Tests compare a few gradients with finite differences at loose tolerances on symmetric problems; unsymmetric tangents, triangular views, boundary-value gradients and loads that depend on the solution are hardly touched.",
  ["feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solvers/reduced.py", "feax/solvers/common.py", "feax/solver.py"],
  [("adjoint rule", "custom_vjp in solvers/linear.py, newton.py, reduced.py"), ("transpose solve", "solvers/common.py")],
  ["jax.grad of create_solver(...)"])

p("C05", "The Newton loop follows its stopping and line-search rules on every residual",
  "From any starting point the nonlinear solver takes the full Newton step scaled by the first admissible backtracking factor that gives sufficient decrease (never accepting a non-finite residual), stops exactly when the absolute tolerance, the relative tolerance, the iteration budget or a failed line search says so, and returns the iterate it then holds. A result reported as converged satisfies the tolerance, a failed line search is raised by an eager call of the standard solver when raising was requested, and eager, jitted and batched runs take the same iterates. (Loops that carry an extra residual accept any decrease and stop quietly.)",
  ["inputs", "configurations", "histories"],
  "All residual functions, starting points, tolerances, iteration budgets and line-search options, and every position in a batch.",
  "Tests run convergent smooth problems; failed line searches, non-finite trial points, exhausted budgets, relative-tolerance stops and batches whose members stop at different iterations are not enumerated.",
  ["feax/solvers/newton.py", "feax/solvers/options.py", "feax/solver.py"],
  [("while_loop condition/body", "solvers/newton.py:newton_solve"), ("Armijo backtracking", "solvers/newton.py"), ("host loops", "solvers/newton.py")],
  ["create_solver(..., newton_options=...)"],
  [dict(name="(iterate, residual norm, iteration, line-search flag)", meaning="loop carry", where="newton.py")])

p("C06", "Solvers and problems carry no memory: results depend only on the inputs given",
  "Whatever sequence of solvers is built on a problem and whatever sequence of solves, gradients, batched solves, parameter changes and boundary-value changes has happened before, in whatever order, each call returns what a fresh problem and a fresh solver would return for the same inputs. Cached patterns, factorizations, detected properties and freed scratch data never leak from one call, matrix or solver to another.",
  ["histories", "schedules"],
  "All finite sequences of building solvers and calling them with different values and patterns on shared problems.",
  "Each test builds a fresh problem and calls it once or twice; cache reuse bugs need two specific calls in a specific order.",
  ["feax/solvers/direct/_callback_utils.py", "feax/solvers/direct/umfpack.py", "feax/solvers/direct/cholmod.py", "feax/solvers/direct/spsolve.py", "feax/solver.py", "feax/assembler.py", "feax/traced_structure.py", "feax/problem.py"],
  [("pattern/factor caches", "solvers/direct/_callback_utils.py"), ("cached zero-surface-tangent flag", "assembler.py:detect_zero_surface_jacobian"), ("scratch release", "traced_structure.py:from_problem")],
  ["results of sequences of public calls"])

p("C07", "Batched and compiled runs equal one-at-a-time runs",
  "Mapping a solve (or its gradient) over a batch of parameters, boundary values or initial guesses, in any nesting and for any batch size including one, returns member by member what separate calls return, and compiling changes nothing. In particular members never see another member's matrix, right-hand side or values, whichever of them are shared.",
  ["inputs", "configurations", "schedules"],
  "All batch sizes, nestings, which arguments are batched and which shared, all solver back ends.",
  "Tests batch two or three members over one argument; sharing patterns (shared matrix, batched right-hand side and the reverse), nested maps and batches of one are back-end specific branches.",
  ["feax/solvers/direct/umfpack.py", "feax/solvers/direct/cholmod.py", "feax/solvers/direct/spsolve.py", "feax/solvers/linear.py", "feax/solvers/newton.py", "feax/solver.py"],
  [("custom batching rules", "solvers/direct/*.py"), ("block-diagonal packing", "solvers/direct/_callback_utils.py")],
  ["jax.vmap(solver)", "jax.jit(solver)"])

p("C08", "Periodic and reduced solves tie exactly the matching degrees of freedom",
  "For any unit cell, wherever it is placed, periodic conditions pair every boundary node with the master that differs from it by whole periods, every degree of freedom depends on exactly one independent one (cyclic chains included, rotated where asked), and expanding any reduced vector gives a periodic field. The reduced solve returns the field that satisfies equilibrium tested with every admissible field, and homogenized properties built on it are the exact volume averages.",
  ["inputs", "configurations"],
  "All box cells (2D and 3D), origins, extents, numbers of components, pairings and loads.",
  "Tests use unit cells at the origin with a handful of resolutions; corner/edge chains, shifted cells, several components and cyclic pairings are special cases.",
  ["feax/flat/pbc.py", "feax/flat/unitcell.py", "feax/flat/solver.py", "feax/solvers/reduced.py"],
  [("pairings", "flat/pbc.py:periodic_bc_2D/periodic_bc_3D"), ("prolongation", "flat/pbc.py:prolongation_matrix, cyclic_prolongation_matrix"), ("reduced system", "solvers/reduced.py"), ("homogenization", "flat/solver.py")],
  ["prolongation_matrix(...)", "create_solver(..., P=...)", "create_homogenization_solver(...)"])

p("C09", "Time stepping visits exactly the steps asked for and reports them faithfully",
  "A transient run advances from the initial state to the final time through steps whose lengths sum exactly to the interval, each no longer than the current step size, the last one shortened to hit the end and no spurious extra step; adaptive step sizes stay inside their bounds. History, log file, saved frames and callbacks each contain exactly the steps their period selects (plus the initial state and the final step where promised), with the time, step number and state of that step, and the integrators compute their textbook update.",
  ["inputs", "configurations", "histories"],
  "All intervals, step sizes, adaptive policies, output periods, callbacks and integrators.",
  "Tests run one or two short intervals with dividing step sizes; round-off remainders, periods that do not divide the number of steps and adaptive limits are not enumerated.",
  ["feax/solvers/time_solver.py"],
  [("run loop", "solvers/time_solver.py:run"), ("integrators", "ExplicitPipeline/ImplicitPipeline")],
  ["feax.solvers.time_solver.run", "CSV/output files", "callbacks"],
  [dict(name="t, step, dt, history, frames, csv rows", meaning="loop state", where="time_solver.py:run")])

p("C10", "Saved results read back as the mesh and fields that were written",
  "Every file the library writes (single snapshots and time series) reads back with the same points, the same cells with the right cell type for the mesh's element, and every point and cell field with its name, shape and values, one frame per successful write in order with its time. A rejected or failed write never damages or blocks the frames before and after it, and a writer can be closed and reused.",
  ["histories", "inputs", "fault_sequences"],
  "All sequences of writes (valid, rejected, repeated, after reopening), all element types and field shapes.",
  "Tests only check that files exist; sequences with a failed or rejected write and less common element types are not exercised.",
  ["feax/utils.py"],
  [("snapshot", "utils.py:save_sol"), ("time series", "utils.py:XDMFWriter")],
  ["meshio.read of the written files", "XDMF XML + HDF5"])

p("C11", "The optimization driver evaluates, constrains and records what it was given",
  "In every run each evaluation sees the design inside its bounds with passive regions pinned, the continuation parameters scheduled for that evaluation, and the objective and constraints of the current mesh; histories, snapshots and log files contain one row per evaluation with those values in order. The iteration budget is respected across continuation and remeshing epochs, a remesh hands over the interpolated design and rebuilt responses (never stale ones), and the returned design was evaluated in the last epoch and comes with the objective and constraint values it has on the final mesh with the final parameters. The ready-made responses (compliance, volume fraction) equal their defining integrals for every kind of load and density array.",
  ["histories", "configurations", "inputs"],
  "All continuation schedules, constraint kinds, passive sets, remeshing intervals and iteration budgets.",
  "Tests run a few iterations of one problem without remeshing or continuation changes; schedule boundaries and remesh/continuation coincidences are not reached.",
  ["feax/gene/optimizer.py", "feax/gene/adaptive.py", "feax/gene/responses.py"],
  [("run loop", "gene/optimizer.py:run"), ("schedules", "gene/optimizer.py:Continuation"), ("transfer", "gene/adaptive.py:interpolate_field")],
  ["feax.gene.optimizer.run", "history dict", "CSV", "VTU snapshots"])

p("C12", "Meshes tile their domain: no cell lost, inverted, duplicated or mis-tagged",
  "Every generated or imported mesh contains all cells of its domain exactly once with positive orientation, every node used and distinct, and total volume equal to the domain's (exactly, for boxes and rectangles). Uniform refinement keeps the domain and multiplies the cells. Face selection returns exactly the cell faces whose corner nodes all satisfy the predicate, so that for a predicate that holds only on the boundary each such boundary face comes out exactly once. Importing a mesh keeps all points and every cell of the chosen type from all blocks.",
  ["inputs", "configurations"],
  "All division counts, sizes, origins, axes, element types, orders, refinement levels and imported multi-block meshes.",
  "Tests check node and cell counts for two or three cases; orientation, connectivity and boundary-face completeness for other sizes and element types are not checked.",
  ["feax/mesh.py", "feax/fe.py", "feax/basis.py"],
  [("generators", "mesh.py"), ("boundary faces", "fe.py:get_boundary_conditions_inds / problem boundary_inds"), ("import", "mesh.py:Mesh.from_gmsh")],
  ["Mesh.points/cells", "Problem.boundary_inds_list"])

p("C13", "Sparse grids and narrow bands map every voxel, node and dof exactly",
  "Index maps between full grids, active cells, band meshes and their degrees of freedom are bijections on what is active: scatter followed by gather is the identity, everything outside is reported as outside or filled with the given default, and boundary conditions and parameters restricted to a band name the same physical entities. Every history of band updates (grow, shrink, move, hit the grid edge, exceed the superset) leaves the band equal to a freshly built band of the same cells, and a solve on the band equals the solve on the full grid with the outside removed, for any number of levels and smoothing sweeps. Coarse-to-fine runs visit a ladder of ever finer grids ending at the requested one, start each level from the coarser design, and never solve the whole of a finer grid.",
  ["histories", "inputs"],
  "All grid shapes, active sets and sequences of band updates.",
  "Tests build a few fixed bands; sequences of updates, bands touching the grid edge, empty or full bands are not enumerated.",
  ["feax/spgrid.py", "feax/narrowband.py", "feax/gene/narrowband.py"],
  [("grid indexing", "spgrid.py:StructuredGrid/SparseDesign"), ("band mesh", "narrowband.py:NarrowBand/SupersetBand"), ("band OC loop", "gene/narrowband.py")],
  ["public maps of the grid and band objects"])

p("C14", "Solutions, fields and parameters keep their layout through every bridge",
  "A solution of a problem with any number of variables exposes each variable as a (nodes, components) field whose entry is the degree of freedom of that node, component and variable; arithmetic, indexing, flattening, tree transformation and conversion to a parameter agree with the plain vector. A parameter array is used as node, cell or quadrature data according to its shape, identically in every consumer, ambiguous or wrong shapes are never silently truncated, and replacing one parameter leaves all others unchanged.",
  ["inputs", "configurations"],
  "All numbers of variables, components, nodes, cells and parameter shapes.",
  "Tests use one- and two-variable problems where shapes differ; coinciding counts (cells = nodes) and wrong shapes are not tried.",
  ["feax/solution.py", "feax/traced_params.py", "feax/assembler.py"],
  [("layout", "solution.py"), ("parameter classification", "assembler.py:classify_volume_var"), ("replacement", "traced_params.py")],
  ["feax.Solution", "feax.TracedParams"])

p("C15", "Automatic solver choice is admissible and keeps every user option",
  "Resolving a solver configuration never changes an option the user set explicitly, always ends in a method valid for the class of the matrix (Cholesky or CG only for a matrix classified positive definite) and for its storage view, or in a refusal, and a matrix is classified symmetric only when it is, at every scale of its blocks, and positive definite only when its diagonal is positive (the documented test). The outcome depends only on the configuration, the matrix and the available back ends.",
  ["configurations", "inputs"],
  "All option records, views, matrix classes and sets of available back ends.",
  "Tests check two or three default resolutions; the option cross product (auto with explicit tolerance, restart, preconditioner, view, missing back end) is not enumerated.",
  ["feax/solvers/options.py", "feax/solvers/common.py", "feax/solver.py"],
  [("resolution", "solvers/options.py:resolve_direct_solver/resolve_iterative_solver"), ("detection", "solvers/options.py:detect_matrix_property")],
  ["resolve_direct_solver", "resolve_iterative_solver", "detect_matrix_property"])

p("C16", "Design filters and projections average exactly over the right neighbourhood",
  "The density filter and the sensitivity filter are weighted averages over the (active) points within the radius, with weights that depend only on distance, independent of numbering, ordering or point count, so constants are reproduced for every radius and results stay between the smallest and largest input in reach. The Helmholtz (PDE) filter is the exact solution of its discrete equation on every supported element type, for nodal and for cell data, and reproduces constants and preserves the integral. The projection is the documented smooth step, monotone from [0,1] into [0,1], and thresholds chosen by volume fraction are the exact percentile.",
  ["inputs", "configurations"],
  "All point sets, sizes relative to the internal batch, radii, weights, element types and projection parameters.",
  "Tests filter one small field; batch boundaries, radii at point distances, and other element types are not reached.",
  ["feax/gene/filters.py"],
  [("cone/Gaussian/constant filters", "gene/filters.py"), ("Helmholtz filter", "gene/filters.py:create_helmholtz_filter"), ("projection", "gene/filters.py")],
  ["filter functions"])

p("C17", "Multiplier updates and optimality-criteria steps obey their algorithm",
  "The multiplier method accumulates, for every equality and inequality constraint in any combination, exactly the damped gradient ascent/descent dynamics it documents, with multipliers of each constraint independent of the others. An optimality-criteria step keeps every design variable within its bounds and move limit, meets the volume target (to its bisection tolerance) whenever that is possible within those limits and otherwise goes to the nearest extreme, for sensitivities and volume weights of any magnitude, and is the fixed-point update elsewhere.",
  ["inputs", "histories"],
  "All constraint combinations, histories of updates, sensitivities, bounds and move limits.",
  "Tests run one loop and look at the final compliance.",
  ["feax/gene/mdmm.py", "feax/gene/narrowband.py"],
  [("constraint algebra", "gene/mdmm.py"), ("OC bisection", "gene/narrowband.py:oc_update")],
  ["mdmm.eq/ineq/combine/prepare_update", "oc_update"])

p("C18", "Every element type integrates and interpolates what its order promises",
  "On every supported element type the shape functions form a partition of unity, are one at their own node and zero at the others in the library's node order, and reproduce polynomials of the element's order with exact gradients on arbitrary affine cells; quadrature integrates volumes, moments and boundary-face areas, centroids and normals exactly. A linear field imposed on the boundary is reproduced inside (patch test) for every element type.",
  ["inputs", "configurations"],
  "All element types, face numbers, node orders and affine cells.",
  "Tests solve a few problems with two or three element types and look at convergence or shapes.",
  ["feax/basis.py", "feax/fe.py", "feax/problem.py"],
  [("basis tables and node reordering", "basis.py"), ("physical gradients, JxW, Nanson scale", "fe.py")],
  ["FiniteElement shape values, gradients, JxW, faces"])

p("C19", "Buckling factors and modes returned are the lowest positive true ones",
  "For every pencil (K + lambda Kg) phi = 0 with K positive definite on the free DoFs, the dense and sparse solvers return the requested number of lowest positive load factors in ascending order, none skipped, duplicated or invented, padded with infinity exactly when fewer exist (or refuse with BucklingConvergenceError), however many negative, zero or repeated ones there are and however many free DoFs. Each mode satisfies the eigen-equation, is zero on constrained DoFs, K-normalized and K-orthogonal to the others; factors have their true derivatives with respect to the matrix entries (also when padded), and every call depends on its arguments only. generalized_eigh returns the whole ascending spectrum with B-orthonormal vectors.",
  ["inputs", "configurations"],
  "All symmetric pencils, free-DoF sets, numbers of requested modes, backends, eager and jitted calls.",
  "Tests compare backends on one negative-definite banded pencil; indefinite, singular, small and repeated spectra are not reached.",
  ["feax/solvers/eigen.py"],
  [("eigen solve", "solvers/eigen.py")],
  ["eigen solver results"])

p("C20", "Lattice and unit-cell densities depend only on geometry, periodically",
  "For every lattice graph a point, cell or node is solid exactly when it (the cell centroid) lies within the strut radius of some edge, independent of edge order, direction or repetition, and graph descriptions convert between adjacency and edge form without loss. A unit cell reports the extents, corners, corner/edge/face nodes, cell centres, boundary selectors and periodic maps its mesh has, wherever it lies and however it is sized; the directional Young's modulus of a stiffness is that of its compliance tensor.",
  ["inputs", "configurations"],
  "All graphs, radii, meshes, cell origins and sizes, selectors, stiffness matrices and directions.",
  "Tests never exercise lattice graphs or shifted cells.",
  ["feax/flat/graph.py", "feax/flat/unitcell.py", "feax/flat/utils.py"],
  [("edge distance", "flat/graph.py"), ("boundary classification", "flat/unitcell.py")],
  ["graph functions", "UnitCell methods"])

p("C21", "Sparse derivative matrices equal the true derivatives for every pattern",
  "For every differentiable map the sparse Jacobian and Hessian producers return exactly the true derivative matrix at every point, whether the pattern is detected or given in any storage form, as long as it contains the true one; detected patterns miss no dependency. Merged patterns are the union, reduced (Galerkin) patterns contain every entry of P^T K P, matrices assembled through an operator pattern carry each contribution once, and a solve with an additional coupled residual of any sparsity returns the solution of the complete coupled system.",
  ["inputs", "configurations"],
  "All maps and sparsity patterns (dense rows, empty rows and columns, duplicates, any storage order), points, value updates and couplings.",
  "Tests use one banded pattern; coloring conflicts, empty rows and unsorted storage are not reached.",
  ["feax/asd.py", "feax/csr.py"],
  [("pattern detection, colouring, decompression", "asd.py"), ("pattern union and reduction", "asd.py")],
  ["asd functions", "solver with extra_residual_fn"])

p("C22", "Laminates, layered solids and wound vessels carry exactly their plies' stiffness",
  "For every stack of plies (any count, angles, thicknesses, properties, offsets) the rotated ply stiffnesses and the laminate, plate, thermal and geometric integrals are those of the stack, independent of how equal neighbouring plies are split; the virtual work of a plate or layered-solid element under any smooth field equals the through-thickness integral ply by ply for both kinematics, symmetric, and a single-ply layered solid equals the ordinary solid. The vessel mesh numbers nodes bijectively, tiles the closed ring once with positively oriented cells, its selectors pick exactly their faces, and its pins remove every in-plane rigid motion and no more. Inconsistent ply data are refused.",
  ["inputs", "configurations"],
  "All stacks, ply angles and thicknesses, element geometries, displacement fields, vessel dimensions and winding tables.",
  "Tests cover few symmetric stacks on one geometry; general angles, unsymmetric stacks and distorted elements are not sampled.",
  ["feax/mechanics/shell.py", "feax/mechanics/layered_solid_element.py", "feax/mechanics/copv.py"],
  [("ply rotation and laminate integrals", "mechanics/shell.py"), ("per-ply quadrature", "mechanics/layered_solid_element.py"), ("vessel mesh", "mechanics/copv.py")],
  ["ABD and rotated stiffnesses", "plate and layered-solid residuals and tangents", "vessel mesh and selectors"])

p("C23", "Fibre orientation descriptions average exactly and stay admissible",
  "For every population of fibres the orientation tensors are its moments and the averaged stiffness is the average of the turned laminae; closures contract to the second moment at any trace and are exact for aligned fibres; design boxes map onto the whole admissible simplex (and nothing else), pointwise and over arrays; principal directions are unit, ordered and consistent with the tensor; everything vectorises over elements without mixing them, and derivatives are finite everywhere, including isotropic, aligned and empty elements.",
  ["inputs", "configurations"],
  "All fibre populations, orientation tensors in two and three dimensions, design points and element fields.",
  "Tests check a few special states; general tensors, repeated eigenvalues and array inputs are not sampled.",
  ["feax/mechanics/orientation.py"],
  [("moments, closures and averaging", "mechanics/orientation.py"), ("design boxes", "mechanics/orientation.py")],
  ["orientation tensors", "averaged stiffness", "design maps"])

p("C24", "Cohesive interfaces remember their worst opening; contact follows its energy",
  "For every history of displacements, normals, mode mixity and law, the cohesive energy and traction of each node pair are those of the branch its history puts it on (virgin loading, secant unloading to the origin, fully failed), traction is the derivative of energy, compression costs nothing in the normal direction, and the stored maximum never decreases; interface weights integrate their line or surface exactly. A solver fed with the history returns the equilibrium for the current history at every load step. Third-medium contact returns the stress and tangent of its energy for every deformation (finite also for collapsed or inverted elements), scales only medium cells, and its regularisation acts on second derivatives of medium cells only.",
  ["inputs", "histories", "configurations"],
  "All opening histories with unloading, reloading and failure, interfaces in two and three dimensions, deformations and medium maps.",
  "Tests never exercise cohesive histories or third-medium contact.",
  ["feax/mechanics/cohesive.py", "feax/mechanics/tmc.py"],
  [("history branches", "mechanics/cohesive.py"), ("medium energy and regularisation", "mechanics/tmc.py")],
  ["cohesive energy, opening and weights", "solver steps with history", "contact residual and tangent"])

p("C25", "Implicit geometry of a density field is its finite element interpolation",
  "For every mesh of any supported cell type (distorted, sheared, elongated, curved), nodal density and query point, the signed value is the threshold minus the finite element interpolation of the density at that point, one by one, in batches of any size or order, and through a file; points far outside are void (or take the nearest node when the boundary is open). Union, intersection and difference are set algebra on the solids. Surfaces extracted from the field lie at the threshold, are closed triangle meshes that enclose exactly the solid, keep separate pieces separate and cover exactly the requested bounds.",
  ["inputs", "configurations"],
  "All meshes, element types, densities, thresholds, query points and combinations of fields.",
  "No test exercises these modules.",
  ["feax/gene/sdf.py", "feax/gene/mesh_extraction.py"],
  [("inverse mapping and interpolation", "gene/sdf.py"), ("surface extraction", "gene/mesh_extraction.py")],
  ["DensityField values", "CSG values", "extracted surfaces"])

p("C26", "Imports and cluster launches configure every process exactly as asked",
  "Importing the package sets precision, preallocation and compiler passes from the documented environment settings, an explicit user setting always winning and no other user flag being lost, and the switches afterwards change exactly what they name. Launching a script on a cluster starts every configured node exactly once in its own container with its own key; every process gets the same script, the same arguments verbatim, the number of processes, a rank of its own and the configured rendezvous address and port; gathers return every process's data in rank order, the same on all processes; shutting down is always safe; the launcher ends with the coordinator's status after every worker has ended.",
  ["inputs", "configurations", "schedules"],
  "All settings of the environment, all cluster configurations and script arguments, all schedules of the processes.",
  "No test imports the package under another environment or starts more than one process.",
  ["feax/__init__.py", "feax/distributed/__init__.py", "feax/distributed/__main__.py"],
  [("import-time settings", "feax/__init__.py"), ("rendezvous and gather", "distributed/__init__.py:initialize, gather, finalize"), ("launcher", "distributed/__init__.py:_launch, main")],
  ["environment and array types after import", "events of the launched processes"],
  [dict(name="per process: handed-over rank, joined, inside a gather, ended", meaning="launch state", where="distributed/__init__.py")])

p("C27", "Profiling reports exactly what ran and changes no result",
  "A profiled solve returns the solve's own result; the profiled Newton iteration takes exactly the Newton steps, records one norm and one time per iteration, and reports convergence exactly when a recorded norm fell below the tolerance within the budget. Timed calls run the requested warmup and timed repetitions, return the last value, and each record times its own call; every timing scope is recorded once under its own label, also when its body fails, and only closes after the work started inside it has finished. Operation counts, captured constants, memory charged to each device and cost summaries equal what the program contains, holds and costs.",
  ["inputs", "configurations", "histories"],
  "All tolerances and budgets, numbers of runs, nestings of scopes, programs and allocation histories.",
  "No test exercises the profiler.",
  ["feax/profiler.py"],
  [("Newton profile", "profiler.py:profile_solver_py"), ("timing", "profiler.py:profile, time_fn"), ("inspection", "profiler.py:trace_jaxpr, memory_snapshot, format_cost_analysis")],
  ["records, norms, counts and snapshots returned by feax.profiler"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
