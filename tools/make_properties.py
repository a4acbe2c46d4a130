"""Writes properties.jsonl (single source for ids/titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

BASIS='jax_fem/basis.py'; FE='jax_fem/fe.py'; PB='jax_fem/problem.py'; SV='jax_fem/solver.py'
GM='jax_fem/generate_mesh.py'; UT='jax_fem/utils.py'; MM='jax_fem/mma.py'

prop('C01','Every supported element is a correct nodal finite element',
 "For each of the nine supported element types, every quadrature rule name and every quadrature order, the tabulated shape functions are the nodal basis of that element's polynomial space in the mesh (meshio/VTK) node ordering, their reference gradients are the derivatives of those functions, and the quadrature integrates polynomials of the requested degree exactly. The same holds on every reference face, where the listed vertices, the unit outward normal and the weights describe that face. Asking for no rule or no order means the documented defaults; an unsupported element type or rule is rejected.",
 ['configurations'],"all 9 element types x all quadrature orders 0..10 (12 thorough) x all applicable rules x all faces",
 "The existing tests solve six fixed problems with HEX8/TET4-type elements and default quadrature; the other element types, faces, rules and orders are never tabulated.",
 [BASIS],[('element table and node re-ordering',BASIS+':get_elements'),('volume tabulation',BASIS+':get_shape_vals_and_grads'),('face tabulation',BASIS+':get_face_shape_vals_and_grads')],
 ['returned tables of the two tabulation functions'])
prop('C02','Cell and face geometry is exact on any valid mesh',
 "For every valid cell (any orientation-preserving numbering of its nodes, straight or curved) the physical shape gradients, integration weights, quadrature point coordinates and face measures equal those of the isoparametric map, so volumes, surface areas, the divergence theorem and interpolated values and gradients of nodal fields come out exactly. Passing replacement nodal coordinates gives the same quantities as a problem built on the moved mesh.",
 ['inputs','configurations'],"all element types x all orientation-preserving vertex numberings x affine/curved maps x all faces x coordinate overrides",
 "Tests use axis-aligned boxes and one cylinder in one numbering; wrong Jacobians on rotated numberings, faces or curved cells are invisible there.",
 [FE,PB],[('shape gradients and JxW',FE+':FiniteElement.get_shape_grads'),('Nanson face measure',FE+':FiniteElement.get_face_shape_grads'),('geometry refresh',PB+':Problem.initialize_geometric_quantities'),('interpolation helpers',FE+':convert_from_dof_to_quad/convert_from_dof_to_face_quad/sol_to_grad')],
 ['FiniteElement and Problem geometric arrays'])
prop('C03','Boundary faces and Dirichlet nodes are selected exactly as described',
 "A node carries a Dirichlet value of a given component exactly when the location function accepts its coordinates (and node number, when it takes two arguments), with the value function evaluated at that node. A face belongs to a surface set exactly when the location function accepts all of its corner vertices, each (cell, face) pair appears once, several sets are independent of each other, and the face counter of the mesh agrees. Location functions with another number of arguments, or lists of unequal length, are rejected.",
 ['inputs'],"all subsets of nodes of small meshes of every element type, as coordinate predicates and as node-number predicates, alone and in lists",
 "Tests select whole sides of boxes only; partial faces, interior faces, shared vertices, empty sets and several sets are not exercised.",
 [FE,GM],[('node selection',FE+':FiniteElement.Dirichlet_boundary_conditions'),('face selection',FE+':FiniteElement.get_boundary_conditions_inds'),('face counter',GM+':Mesh.count_selected_faces')],
 ['node_inds_list/vec_inds_list/vals_list','boundary_inds_list'])
prop('C04','The assembled residual is the integral of the weak form',
 "For every supported combination of volume terms (gradient, mass, universal), surface terms on any number of surface sets, number of components, coupled variables and element types, internal variables and number of cells, the residual returned for a nodal solution equals the weak form integrated over the mesh with the stated quadrature. Contributions of every cell and face are counted once, and the residual is linear in, and only in, the terms the user supplied.",
 ['inputs','configurations'],"all subsets of weak-form terms x element types x components x cell counts 1..45 (every batching remainder) x basis nodal fields",
 "Benchmarks use one kernel form and one mesh each; other batching remainders, couplings, surface sets and internal variables are not reached.",
 [PB],[('cell batching',PB+':Problem.split_and_compute_cell'),('kernels',PB+':get_laplace_kernel/get_mass_kernel/get_surface_kernel/pre_jit_fns'),('scatter',PB+':compute_residual_vars_helper')],
 ['Problem.compute_residual','Problem.newton_update'])
prop('C05','The tangent matrix is the exact derivative of the imposed residual',
 "After a tangent update at a nodal solution, the assembled global matrix equals the derivative of the residual with Dirichlet rows replaced by unit rows, for every weak form, coupling, surface term and internal variable, including non-symmetric and solution-dependent ones. The residual returned together with the tangent is the residual of the same solution.",
 ['inputs','configurations'],"the weak-form configurations of C04 x states x Dirichlet sets; every matrix entry compared",
 "A wrong tangent entry still lets Newton converge on the benchmark problems, only slower, so no test sees it; it corrupts adjoint gradients silently.",
 [PB,SV],[('jvp-based element tangent',PB+':pre_jit_fns'),('global pattern I/J',PB+':__post_init__'),('matrix assembly',SV+':get_A')],
 ['solver.get_A after Problem.newton_update'])
prop('C06','Dirichlet conditions are imposed by exact row elimination',
 "For every Dirichlet set, the imposed residual at a constrained degree of freedom is its current value minus the prescribed (possibly scaled) value and elsewhere the unmodified residual; the assignment, zeroing, one-setting and copying helpers touch exactly the constrained degrees of freedom. When several conditions name the same degree of freedom the later one wins in the assignment and in the imposed residual alike.",
 ['inputs'],"all subsets of degrees of freedom of small one- and two-variable problems, with overlapping and empty conditions, x scales",
 "Tests check solved fields under a few fixed boundary sets; overlaps, empty sets, per-component sets and multi-variable offsets are not covered.",
 [SV],[('imposed residual',SV+':apply_bc_vec/apply_bc'),('helpers',SV+':assign_bc/assign_ones_bc/assign_zeros_bc/copy_bc')],
 ['return values of the helpers'])
prop('C07','The tangent matrix never reflects stale boundary conditions or values',
 "Whatever sequence of boundary-condition updates, parameter changes, tangent updates and matrix requests a program performs, on one problem or on several interleaved ones, the matrix obtained is the one a freshly built problem with the current conditions, parameters and last tangent update would give. Reusing the stored matrix is an optimisation that never changes what a later request returns.",
 ['histories'],"all operation sequences up to depth 4 (5 thorough) over the update/request alphabet, for every boundary-condition alphabet and two interleaved problems",
 "Every test solves one problem once; the cache only goes wrong over histories with a boundary-condition change in between.",
 [SV,FE],[('tangent cache',SV+':_PetscTangentCache'),('BC update',FE+':update_Dirichlet_boundary_conditions')],
 ['solver.get_A'],[('tangent cache','matrix and constrained rows kept between calls',SV)])
prop('C08','A returned nonlinear solution is a discrete equilibrium',
 "Whenever the solver returns, the solution satisfies the Dirichlet values and its imposed residual meets the requested absolute tolerance or the requested reduction relative to the initial guess, for every initial guess, backend, tolerance, line-search setting and weak form. The outcome depends only on the current problem, boundary values and options, not on solves done before with the same problem; unconverged or non-finite states are never returned silently.",
 ['inputs','histories','configurations'],"option lattice x initial guesses x problems, plus all load-step histories up to length 3 (4 thorough)",
 "Tests run one load step from a zero guess with one backend and compare with a stored field at loose tolerance.",
 [SV],[('Newton loop and stopping rule',SV+':solver'),('step and line search',SV+':newton_step/line_search')],
 ['solver(problem, options)'])
prop('C09','Every linear backend solves the system it is given or raises',
 "For every available backend and option (with and without preconditioner, every supported Krylov method and preconditioner, any or no starting vector), the answer to a nonsingular system solves that system to the backend's accuracy, or an error is raised; the matrix, right-hand side and starting vector are left unchanged. A backend whose library is missing refuses instead of answering.",
 ['inputs','configurations'],"all nonsingular small matrices over a small integer alphabet x right-hand sides x backends",
 "Only the default backend on a handful of symmetric positive definite systems is run by the tests.",
 [SV],[('dispatch',SV+':linear_solver'),('backends',SV+':jax_solve/scipy_spsolve/petsc_solve/AMGX_solve')],
 ['linear_solver return value'])
prop('C10','Solver options mean what is documented and are never modified',
 "Nested option dictionaries and the equivalent legacy flat ones select the same method, linear solver, tolerances and guess; omitted keys take the documented defaults, and unknown control modes, method blocks that are not dictionaries and contradictory method choices are rejected with an error. No call modifies any dictionary or array the caller passed, so the same options object can be reused for any later call with the same meaning.",
 ['configurations','histories'],"all option dictionaries over the documented keys up to a size bound, in both layouts; all two-call histories sharing one options object",
 "Tests use two fixed option dictionaries and never reuse one.",
 [SV],[('normalisation',SV+':_resolve_solver_options'),('defaults',SV+':linear_solver/solver')],
 ['which linear solver is invoked, tolerances observed, caller dictionaries after the call'])
prop('C11','Linear-solver failures never become wrong solutions',
 "Whatever sequence of exact, inexact, wrong or non-finite answers the user-supplied linear solver gives, the nonlinear solver either returns a solution satisfying its stopping rule or raises; it hands that solver the current tangent, the negated imposed residual and a start vector that fulfils the boundary increments. An adjoint solve that receives a wrong answer changes only the gradient, never the stored solution or the problem.",
 ['fault_sequences'],"all sequences of up to 4 (5 thorough) linear-solver answers over {exact, half, zero, negated, scaled, garbage, NaN, inf, raise}",
 "No test injects a faulty linear solve; a solver that accepts garbage passes all of them.",
 [SV],[('custom solver hook',SV+':linear_solver'),('finiteness checks',SV+':solver')],
 ['custom_solver arguments, returned solution'])
prop('C12','Gradients through a solve are exact',
 "Reverse-mode derivatives through the differentiable solve equal the true derivative of the discrete solution with respect to the parameters, for every parameter route (scalars, quadrature fields, surface data, arbitrary pytrees, nodal coordinates, Dirichlet values), every output component, coupled variables, constraints by reduction matrix and every adjoint backend. The options of the forward solve, such as the initial guess, do not enter the derivative.",
 ['inputs','configurations'],"every parameter route x full basis of output cotangents x nonlinear states x backends",
 "No existing test differentiates through a solve at all.",
 [SV],[('adjoint',SV+':implicit_vjp'),('custom derivative',SV+':ad_wrapper')],
 ['jax.vjp / jax.grad of the wrapped forward function'])
prop('C13','Differentiable solves are independent of call history',
 "Any interleaving of forward evaluations, gradient evaluations (including backward passes run later, after other parameters were used), plain solves and residual or tangent requests on one problem gives each call the value it has in a fresh program. After a backward pass the problem remains usable with concrete parameters.",
 ['histories'],"all operation sequences up to depth 4 (5 thorough) over {forward, backward of any pending forward, gradient, plain solve, tangent, set parameters} with two parameter values",
 "A single gradient call in a fresh program cannot reveal leaked tracers, stale parameters or a clobbered tangent.",
 [SV],[('parameter state',SV+':implicit_vjp/ad_wrapper')],
 ['values, gradients and later solves'],[('problem.internal_vars','current parameters of the problem',PB)])
prop('C14','Multipoint constraints are satisfied with constrained equilibrium',
 "With a reduction matrix attached, the returned solution lies in its range, fulfils the Dirichlet values (given on tie-consistent sets) and makes the reduced imposed residual vanish, for ties, weighted combinations and periodic pairs, with every backend, initial guess and line-search setting. An identity matrix gives the unconstrained solution, and the periodic example's builder ties exactly the mapped node pairs.",
 ['inputs','configurations'],"all master/slave tie patterns and weight choices on small problems x options; all grid sizes and component sets for the periodic builder",
 "No test attaches a reduction matrix.",
 [SV,'applications/periodic_bc/example.py'],[('reduced tangent',SV+':get_A'),('reduced Newton',SV+':solver/newton_step/line_search'),('periodic builder','applications/periodic_bc/example.py:periodic_boundary_conditions')],
 ['solver return value','P_mat'])
prop('C15','Arc-length continuation stays on the equilibrium path',
 "Every continuation step of displacement- or force-controlled arc-length satisfies equilibrium at its recorded load factor and advances by the requested arc length without turning back; the history, callback and information record agree with each other and with the step limits. If and only if full load is reached, the returned solution is polished to the equilibrium of the unscaled problem; otherwise the record says so.",
 ['histories','configurations'],"control mode x arc length x psi x step limits x switch step, over complete continuation histories",
 "No test runs arc-length.",
 [SV],[('step',SV+':arc_length_solver_disp_driven/arc_length_solver_force_driven'),('outer loop',SV+':_solve_arc_length_disp/_solve_arc_length_force/_finish_arc_length')],
 ['returned solution, info record, callbacks'])
prop('C16','Dynamic relaxation returns the equilibrium of the given problem',
 "When dynamic relaxation returns, the Dirichlet values hold and the largest unconstrained residual component is below the tolerance, for single- and multi-variable problems, any initial guess and any stiffness-recomputation setting; where the equilibrium is unique it agrees with Newton's.",
 ['inputs','configurations'],"problems x initial guesses x recomputation intervals x tolerances x linear options",
 "No test runs dynamic relaxation.",
 [SV],[('relaxation loop',SV+':dynamic_relax_solve'),('stiffness rows',SV+':assembleCSR')],
 ['solver return value'])
prop('C17','Generated meshes are valid partitions of the requested domain',
 "The structured, gmsh box and cylinder generators return meshes whose cells are positively oriented, conforming, without unused or duplicate nodes, with exactly the requested subdivisions, and whose union is the requested domain; node order matches the element tables. The tetrahedron check returns each cell's signed measure and element names map to the matching mesh cell type.",
 ['inputs'],"all subdivision counts up to a bound x domain sizes x element types",
 "Tests use one box and one cylinder size.",
 [GM],[('generators',GM+':rectangle_mesh/box_mesh/box_mesh_gmsh/cylinder_mesh_gmsh'),('check',GM+':check_mesh_TET4/get_meshio_cell_type')],
 ['returned mesh'])
prop('C18','Each MMA step solves its convex subproblem within bounds',
 "For every number of variables and constraints and every history of design points, values and gradients, the MMA update returns a point inside the box, the move limit and the asymptotes that satisfies the optimality conditions of the documented convex approximation, and the asymptotes follow the documented expansion and contraction rule. The multipliers and slacks returned belong to that point.",
 ['inputs','histories'],"all sign/magnitude patterns of gradients over a small alphabet for n,m in {1,2,3} and all iterate histories up to depth 4",
 "No test runs the optimiser.",
 [MM],[('subproblem construction',MM+':MMA.mmasub'),('primal-dual solve',MM+':subsolv')],
 ['getOptimalValues/getLagrangeMultipliers/getAsymptoteValues'])
prop('C19','The optimisation loop filters, updates and stops as documented',
 "The density filter weights are the normalised cone weights of the documented radius over the flexible cells, the filters apply exactly those weights, and the optimisation loop calls the objective and constraints exactly once per iteration with the current design and iteration number, keeps the design within bounds and move limit, and stops after the requested number of iterations. It minimises: on convex test problems it approaches the known constrained optimum, and it does not modify the initial design.",
 ['inputs','configurations','histories'],"grid meshes x flexible subsets x iteration counts x move limits x convex test problems",
 "No test runs the optimiser.",
 [MM],[('filter',MM+':compute_filter_kd_tree/applySensitivityFilter/applyDensityFilter'),('loop',MM+':optimize')],
 ['filter matrices, callbacks, returned design'])
prop('C20','Saved files reproduce the data and bad data is rejected',
 "Reading back a saved solution yields the mesh, the solution and every extra cell and point field (in single precision) under their names, for every element type, path form and file format, and wrongly shaped extra data is rejected without creating or changing the file. The VTU version rewrite changes only the version marker, mesh conversion and configuration parsing preserve content, and the timing wrappers return the wrapped function's result and write the stated record.",
 ['inputs','configurations'],"element types x components x path forms x extra-data combinations and shape errors; all small line patterns for the rewrite",
 "Tests write one file and never read it back.",
 [UT],[('writer',UT+':save_sol'),('conversion',UT+':modify_vtu_file/read_abaqus_and_write_vtk/json_parse'),('timing',UT+':timeit/walltime')],
 ['files on disk, return values'])
prop('C21','Results do not depend on numbering of nodes, cells or frame',
 "Permuting node numbers, cell order or the starting vertex of cells, or translating and rotating the domain together with an objective problem's data, changes residuals, tangents and solutions only by the same permutation or rotation. Listing boundary or surface sets in another order does not change the solution.",
 ['inputs'],"all node permutations of a one-cell and all cell/vertex renumberings of small meshes; all generators of the axis-rotation group",
 "Tests use the generator's numbering only.",
 [FE,PB,SV],[('index tables',PB+':__post_init__'),('assembly',PB+':compute_residual_vars_helper')],
 ['solver return value','residual and matrix'])
prop('C22','Element activation bookkeeping equals recomputation from scratch',
 "In the quiet-element example, after any history of cell activations the incrementally maintained external faces equal the faces that belong to exactly one active cell, the active-face tables and quiet-node sets follow from them, and quiet cells contribute nothing to the system.",
 ['histories'],"all activation histories (ordered partitions of cells into growing sets) of small meshes",
 "No test runs the quiet-element example; incremental bookkeeping only fails after particular histories.",
 ['applications/quiet_element/example.py'],[('face hash map','applications/quiet_element/example.py:hash_map_for_faces/update_hash_map/initialize_hash_map'),('tables','applications/quiet_element/example.py:get_active_face_truth_tab/get_quiet_point_inds_set')],
 ['external_faces after each update'])
prop('C23','Finite-strain plasticity stays admissible along every load history',
 "Along every history of deformation increments the finite-strain J2 model keeps the stress on or inside the current yield surface, accumulates plastic strain only when the trial state yields and never decreases it, keeps the elastic isochoric strain volume-consistent with the return mapping, and gives stresses that rotate with the material. The stored state after a converged step is the one used to compute that step's stress.",
 ['histories'],"all increment sequences up to depth 3 (4 thorough) over an alphabet of elastic, plastic, volumetric, reverse and rotated increments",
 "The two existing tests check single states; loading, unloading and rotation sequences are not explored.",
 ['applications/finite_plasticity/model.py'],[('return map','applications/finite_plasticity/model.py:get_maps'),('state update','applications/finite_plasticity/model.py:update_int_vars_gp')],
 ['stress and internal variables per step'])
prop('C24','Crystal plasticity satisfies its implicit stress and flow equations',
 "Along every history of deformation increments and time steps (which may change between increments) and for every crystal orientation, the crystal model's converged stress satisfies its implicit constitutive equation, slips follow the power-law flow rule with the stated hardening, plastic flow preserves volume to first order, and its tangent is the derivative of its stress. Rotating the crystal and the loading together rotates the stress.",
 ['histories','inputs'],"all increment sequences up to depth 2 (3 thorough) x the 24 cubic orientations and a set of quaternions",
 "No test runs the crystal model.",
 ['applications/crystal_plasticity/models.py'],[('implicit stress solve','applications/crystal_plasticity/models.py:newton_solver'),('state update','applications/crystal_plasticity/models.py:update_int_vars_gp')],
 ['stress and internal variables per step'])
prop('C25','Spectral tensor functions have exact values and derivatives',
 "For every symmetric matrix, including zero, diagonal, repeated and nearly repeated eigenvalues, the custom spectral function of the phase-field example returns the matrix function of its argument and its derivative in every symmetric direction.",
 ['inputs'],"all symmetric 3x3 (and 2x2) matrices over a small integer alphabet x several scalar functions x all symmetric directions",
 "No test evaluates it; the failing inputs have repeated eigenvalues.",
 ['applications/phase_field_fracture/eigen.py'],[('custom derivative','applications/phase_field_fracture/eigen.py:get_eigen_f_custom')],
 ['value and jvp'])
prop('C26','Phase-field fracture is irreversible and in staggered equilibrium',
 "In the phase-field fracture example, along every load history the history field at each integration point is the largest tensile elastic energy reached so far (never decreasing, and not advanced inside the staggered iterations of a load step), the stress is the tension-degraded derivative of the energy of the spectral split, the converged damage and displacement satisfy their weak forms with the stored history, and the driver reports and saves the traction and fields of the converged step.",
 ['histories'],"all load histories (loading, unloading, reloading) up to depth 3 (4 thorough) on small meshes with and without notches, and schedules of the shipped driver",
 "No test runs the fracture example; irreversibility only shows after unloading.",
 ['applications/phase_field_fracture/example.py'],[('staggered driver','applications/phase_field_fracture/example.py:problem'),('history and energy','applications/phase_field_fracture/example.py:Elasticity/PhaseField')],
 ['history field, stress, damage, traction per step'])
prop('C27','Updated-Lagrangian steps compose to the total deformation',
 "In the updated-Lagrangian example, after any sequence of load steps the stored deformation gradient of every integration point is the gradient of the total map from the original to the current configuration, the reference geometry used for the next step is the moved mesh, and every converged step satisfies equilibrium and the prescribed displacements with the stress of the total deformation; results do not depend on how the total load is split into steps.",
 ['histories'],"all words of load steps up to depth 3 on small two- and three-dimensional bodies",
 "No test runs the example; composition order and stale geometry only show after two or more steps.",
 ['applications/updated_lagrangian/example.py'],[('push of the deformation gradient','applications/updated_lagrangian/example.py'),('mesh update','applications/updated_lagrangian/example.py')],
 ['F_prev, moved mesh, residual per step'])
prop('C28','Laser heating with plasticity advances heat, phase and stress consistently',
 "In the thermal-mechanical example each time step satisfies the implicit heat balance with laser, convection and radiation evaluated from the previous temperature on exactly the top and side faces of the body, each integration point passes powder to liquid to solid only by crossing the liquidus, the stress is the rate-form J2 return mapping from the stored stress and strain with the thermal strain of the temperature change since the previous mechanical step, the converged displacement is in equilibrium with it, and the saved fields are those of the step.",
 ['histories'],"all sequences of strain increments, temperature changes and phases at a point, of temperatures, of laser settings and of temperature fields up to depth 3, and runs of the shipped driver",
 "No test runs the example; phase and stress histories only differ after melting, cooling and reheating.",
 ['applications/thermal_mechanical/example.py'],[('heat fluxes','applications/thermal_mechanical/example.py:Thermal'),('phase and return mapping','applications/thermal_mechanical/example.py:Plasticity'),('driver','applications/thermal_mechanical/example.py')],
 ['temperature, phase, stress, saved fields per step'])
prop('C29','Time-stepping examples follow their discrete schemes',
 "In the wave, transient thermoelasticity and explicit dynamics examples every time step of every run satisfies the stated discrete scheme with the states of the previous steps in the right order, the current time increment and the prescribed boundary values; the explicit scheme equals central differences with the lumped mass and its reported energies and curves belong to that trajectory. The triangle reorientation used by the examples returns counter-clockwise cells with the same nodes (mid-side nodes kept on their sides) and leaves counter-clockwise cells alone.",
 ['histories','inputs'],"complete bases of the (linear) states, all words of time increments up to depth 3 (5 thorough), whole runs of the shipped loops, all node orders of triangles",
 "No test runs the examples; an error in the order of old states or a stale increment only shows after several steps.",
 ['applications/wave/example.py','applications/thermal_mechanical_full/example.py','applications/explicit_dynamics/example.py','applications/stokes/example.py'],[('wave scheme','applications/wave/example.py:wave'),('thermoelastic scheme','applications/thermal_mechanical_full/example.py:thermal_mechanical_full'),('central differences','applications/explicit_dynamics/example.py:main'),('node order','applications/wave/example.py:transform_cells')],
 ['state per step'])
prop('C30','Dendrite solidification steps follow the phase-field equations and conserve heat',
 "In the three dendrite examples (implicit and explicit finite elements, finite differences) every time step is the stated discretisation of the anisotropic phase-field and heat equations for the current state and noise: the gradient flux is the derivative of the anisotropic gradient energy, and in both finite-element schemes the heat released in a step is exactly the latent heat of the phase change of that step.",
 ['histories','inputs'],"all states of an alphabet (with and without vanishing gradients) x noise fields x parameter sets, all noise words up to depth 3 (5 thorough), whole runs of the shipped simulations with chosen noise",
 "No test runs the examples; stale coefficients and heat errors only show over several steps and with noise.",
 ['applications/dendrite/implicit_fem/example.py','applications/dendrite/explicit_fem/example.py','applications/dendrite/explicit_fd/example.py'],[('implicit scheme','applications/dendrite/implicit_fem/example.py:Solidification'),('explicit scheme','applications/dendrite/explicit_fem/example.py:get_explicit_dynamics'),('finite differences','applications/dendrite/explicit_fd/example.py:simulation')],
 ['phase field and temperature per step'])
prop('C31','Multi-field, boundary and post-processing examples evaluate their stated forms',
 "The Stokes, two-variable elasticity, Robin-boundary, nodal-stress and error-norm examples evaluate what they state on every mesh they accept: the Stokes residual is the momentum and mass balance for the velocity and pressure spaces, the no-slip boundary consists of exactly the nodes of the boundary edges away from inlet and outlet, splitting a displacement into two scalar variables gives the same system as one vector variable, the Robin term acts on exactly its boundary, nodal gradients are the gradients of the nodal field at each node of every element type, and the L2 and H1 error norms are the integrals they name.",
 ['inputs'],"complete bases of nodal vectors on every mesh of the bound, all sub-meshes of a small triangle mesh, nine element types and all node orders, whole runs of the shipped scripts",
 "No test runs the examples; wrong index maps and node orders only show on meshes other than the shipped ones.",
 ['applications/stokes/example.py','applications/stokes/example_1var.py','applications/stokes/example_2vars.py','applications/robin_bc/example.py','applications/nodal_stress/example.py','applications/convergence_rate/example.py'],[('stokes kernel','applications/stokes/example.py:Stokes'),('boundary finder','applications/stokes/example.py'),('nodal gradients','applications/nodal_stress/example.py')],
 ['residual, boundary faces, nodal gradients, norms'])
prop('C32','Third-medium contact regularisation follows its own history',
 "In the third-medium contact example, for every assignment of solid and void to the cells and along every load history, the stress is the derivative of the neo-Hookean energy in the solid and of the softened isochoric energy plus the rotation penalty in the void, the old rotation used by a step is the mean rotation of the cell at the previous converged step, and each saved state is in equilibrium with its own history and boundary values.",
 ['histories','inputs'],"all assignments of solid and void on small meshes, all words of load levels up to depth 3 (5 thorough), schedules of the shipped loop",
 "No test runs the example; the rotation history only matters from the second step on and only in the void.",
 ['applications/third_medium_contact/example.py'],[('stress','applications/third_medium_contact/example.py:HyperElasticity.get_tensor_map'),('rotation history','applications/third_medium_contact/example.py:HyperElasticity.set_params')],
 ['stress, rotation history, equilibrium per step'])
prop('C33','Gradients computed by the shipped inverse and sensitivity scripts are exact',
 "The derivatives that the shipped sensitivity and inverse scripts compute (crystal-plasticity stress and volume sensitivities through a whole load history, gradients with respect to node coordinates, gradients with respect to a density field) equal the derivatives of the functions they differentiate, component by component, for every load history, mesh and field inside the bound.",
 ['histories','inputs'],"all load words up to depth 3, all node coordinates of several meshes, all components of density fields",
 "No test runs these scripts; history-dependent adjoints are wrong only for histories with plastic flow or unloading.",
 ['applications/crystal_plasticity/stress_sensitivity.py','applications/crystal_plasticity/volume_sensitivity.py','applications/differentiable_mesh/example.py','applications/scalability/example_inverse_timing.py','jax_fem/solver.py'],[('adjoint','jax_fem/solver.py:ad_wrapper'),('history parameters','applications/crystal_plasticity/models.py:set_params')],
 ['value and gradient of each script'])
prop('C34','Shipped load-stepping, continuation and relaxation drivers solve every step',
 "The shipped finite-plasticity, polycrystal, arc-length, dynamic-relaxation, serendipity, surrogate-material, boundary-index and forward-scalability scripts, run as a whole on any schedule, end load and mesh, take every step they are asked for: each reported or saved state satisfies its prescribed values and equilibrium with the loads of that step (at the reported load factor) and the history of the previous converged step, saved stresses belong to the saved displacement, a continuation that claims to have reached the target returns the state of the full load, and a verification solve without the branch-selecting load stays on its branch.",
 ['histories','inputs'],"all load words up to depth 2 (3 thorough) over three levels, all (displacement, time) words for the polycrystal, several end loads, step lengths and meshes for continuation and relaxation",
 "No test runs these scripts; drivers that carry the wrong history or load factor only differ after two or more steps.",
 ['applications/finite_plasticity','applications/crystal_plasticity/polycrystal_neper.py','applications/arc_length','applications/dynamic_relaxation','applications/surrogate_model/example.py','applications/serendipity/example.py','applications/boundary_index/example.py','applications/scalability/example_forward.py','jax_fem/solver.py'],[('history and stress','applications/finite_plasticity/single_cell.py:simulation'),('polycrystal driver','applications/crystal_plasticity/polycrystal_neper.py:problem'),('continuation','jax_fem/solver.py:_solve_arc_length'),('relaxation','jax_fem/solver.py:dynamic_relax_solve')],
 ['solution, load factor and saved fields per step'])
prop('C35','The documented tutorials compute the solutions and gradients they show',
 "Executing all code cells of a tutorial notebook on any mesh, load history and parameter field of its kind yields solutions of the stated boundary value problem, saved fields that belong to them, and gradients (densities, boundary values, sources, tractions, boundary temperatures, shapes, and designs through a whole elasto-plastic history with warm starts) equal to the derivatives of the stated objective in every component; the optimisation tutorials evaluate objective, gradient and constraint at each design they visit.",
 ['inputs','histories'],"all load words up to depth 3 (4 thorough) over three levels for plasticity; several meshes and parameter fields for each of the 11 notebooks, all gradient components",
 "No test runs the notebooks; they print a comparison for one component on one mesh.",
 ['docs/source/learn','jax_fem/solver.py','jax_fem/problem.py','jax_fem/mma.py'],[('implicit differentiation','jax_fem/solver.py:ad_wrapper'),('Newton solver','jax_fem/solver.py:solver'),('optimiser','jax_fem/mma.py:optimize')],
 ['solutions, saved fields, objective values and gradients of each notebook'])
prop('C36','Results do not depend on the units of length, field and force',
 "Writing the same discrete problem in other units - a unit of length per axis (so also slender domains), a unit per solution variable, a unit per balance equation, tolerances converted accordingly - changes residual, tangent, solution (each linear solver, line search, reduction matrix, dynamic relaxation), objective values and gradients only by the conversion factors, for units from nanometres to megametres and fields and forces of any magnitude; generated meshes scale with their domain. No hidden absolute threshold decides a result. An iterative solver may refuse a system whose forces are large in absolute terms, by raising.",
 ['inputs'],"all element types and a mixed problem x 7 length units x 3 field units x 3 force units (9 x 5 x 5 thorough), 5 solver settings, relaxation, reduction, gradients",
 "Tests use one set of units, where absolute thresholds (1e-10, 0.1) are invisible; the thresholds bite at particular magnitudes only.",
 ['jax_fem/fe.py','jax_fem/problem.py','jax_fem/solver.py','jax_fem/generate_mesh.py'],[('geometry','jax_fem/fe.py:get_shape_grads'),('linear solvers','jax_fem/solver.py:jax_solve'),('Newton','jax_fem/solver.py:solver'),('relaxation','jax_fem/solver.py:dynamic_relax_solve')],
 ['residual, tangent, solution, gradients in unit scales'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
