"""Source of properties.jsonl and of the check list in MANIFEST.json (run tools/gen.py after editing)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note))


prop('F01', 'Element interpolation, quadrature and geometry are exact for every element type',
     'For every supported element type (HEX8, HEX20, HEX27, TET4, TET10, QUAD4, QUAD8, TRI3, TRI6) and every valid mesh, '
     'the shape functions seen at the quadrature points interpolate every polynomial of the element\'s order with its exact '
     'gradient, in the node ordering used by meshio. Cell weights are positive and integrate polynomials over the mesh exactly '
     '(total = domain volume), and the boundary-face quadrature reproduces surface area and satisfies the divergence theorem with outward normals.',
     ['inputs', 'configurations'], 'All nine element types, all mesh sizes, distortions, affine maps and node numberings.',
     'The tests use HEX8 (and one cylinder) on one undistorted mesh each and compare a norm with FEniCSx.',
     ['jax_am/fem/basis.py', 'jax_am/fem/core.py'],
     [('get_elements / reorder_inds tables', 'jax_am/fem/basis.py'), ('get_shape_grads, get_face_shape_grads', 'jax_am/fem/core.py')],
     ['FEM.shape_vals', 'FEM.shape_grads', 'FEM.JxW', 'get_physical_quad_points', 'get_face_shape_grads'],
     'monitored execution against an independent shape-function/quadrature oracle',
     'Every element type is executed on random distorted, rotated and renumbered meshes; monitors compare each quadrature point with hand-written shape functions and closed-form polynomial integrals.')

prop('F02', 'Patch test: exact polynomial solutions are reproduced on every mesh',
     'When the exact solution of a Poisson, anisotropic-diffusion or linear-elasticity problem lies in the finite element space '
     '(linear on any distorted mesh, quadratic on affine cells for quadratic elements), the solver returns it at every node, '
     'for every element type and every mix of Dirichlet, Neumann and body-force data that the exact field implies.',
     ['inputs', 'configurations'], 'All element types, meshes, polynomial fields, boundary-condition mixes and linear-solver choices.',
     'The tests run three fixed problems on HEX8/TET meshes and compare with a stored FEniCSx solution.',
     ['jax_am/fem/core.py', 'jax_am/fem/solver.py', 'jax_am/fem/models.py'],
     [('weak form kernels', 'jax_am/fem/core.py'), ('solver', 'jax_am/fem/solver.py')],
     ['solver(problem)'], 'monitored end-to-end solves against exact polynomial solutions',
     'Random exact polynomial fields, distorted meshes, mixed boundary conditions; nodal comparison at the linear solvers\' own tolerance.')

prop('F03', 'Assembled residual and tangent equal the declared weak form',
     'For any problem (flux, mass, body-source, Neumann and Cauchy boundary terms, with or without per-quadrature-point internal variables) and any trial field, '
     'the assembled residual equals the sum over cells and boundary faces of the user\'s integrands tested with every basis function, and the assembled sparse tangent is its exact derivative. '
     'The result does not depend on cell order, node numbering or the number of cells per batch.',
     ['inputs', 'configurations', 'histories'], 'All weak forms, element types, fields, internal-variable updates and cell/node orderings.',
     'The tests only look at converged solutions of three fixed models, where a wrong tangent merely costs iterations and unused terms never run.',
     ['jax_am/fem/core.py', 'jax_am/fem/solver.py'],
     [('split_and_compute_cell, compute_residual_vars, compute_face', 'jax_am/fem/core.py'), ('assembly of I, J, V', 'jax_am/fem/solver.py')],
     ['FEM.compute_residual', 'FEM.newton_update', 'FEM.I/J/V'], 'monitored assembly against an independent numpy assembly',
     'Random nonlinear forms evaluated both by the real assembly and by a slow numpy reference; tangent compared with central differences of the reference.')

prop('F04', 'Every solver result is an equilibrium that honours its boundary conditions',
     'Every field returned by the static solver makes the residual vanish at all unconstrained degrees of freedom to the advertised tolerance and equals the prescribed value at every Dirichlet degree of freedom '
     '(the last condition wins where several are prescribed), whichever linear solver, preconditioner, linear/nonlinear flag or initial guess is used and also after the boundary conditions have been replaced. '
     'Dynamic relaxation reaches the same equilibrium as the Newton solver.',
     ['inputs', 'configurations', 'histories'], 'All well-posed monotone problems, boundary-condition sets and updates, solver options and warm starts.',
     'The tests solve each problem once, with default options and one set of boundary conditions.',
     ['jax_am/fem/solver.py', 'jax_am/fem/core.py'],
     [('Newton loop, jax_solve / petsc_solve, row elimination', 'jax_am/fem/solver.py'), ('Dirichlet_boundary_conditions', 'jax_am/fem/core.py')],
     ['solver', 'dynamic_relax_solve', 'update_Dirichlet_boundary_conditions'], 'equilibrium monitor (reference residual) over solve histories',
     'Residual recomputed by an independent assembly for every returned field, over solve / update / warm-start histories and option combinations.')

prop('F05', 'Nodal forces carry exactly the applied loads; free bodies balance',
     'The nodal forces assembled from surface tractions and body forces have the exact resultant and moment of the applied load and vanish at nodes the load does not touch. '
     'For any displacement field the internal forces of a body have zero resultant and (for elastic bodies) zero moment, rigid motions produce no force, '
     'and in a solved equilibrium the reactions at the supports balance the applied loads in force and moment.',
     ['inputs', 'configurations'], 'All element types, meshes, load functions, loaded boundary sides and displacement fields.',
     'The tests apply Dirichlet data or one Neumann face and never total a force.',
     ['jax_am/fem/core.py', 'jax_am/fem/models.py'],
     [('compute_Neumann_integral_vars, compute_body_force, compute_residual_vars', 'jax_am/fem/core.py')],
     ['FEM.compute_residual', 'FEM.compute_Neumann_integral_vars', 'FEM.compute_body_force'],
     'force/moment conservation monitors on assembled nodal forces',
     'Random loads on random subsets of boundary sides; totals compared with exact polynomial integrals; balance over random displacement fields and solved states.')

prop('F06', 'Periodic constraints tie opposite sides and keep the tied equilibrium',
     'With periodic boundary conditions the returned field has equal values (for each tied component) at every pair of matched nodes and still meets the Dirichlet values. '
     'The nodal forces of each tied pair sum to zero and all other unconstrained degrees of freedom are in equilibrium, so the field is the solution of the periodic problem, for each linear solver offered.',
     ['inputs', 'configurations'], 'All element types, periodic directions, tied components, problem data and linear solvers.',
     'No test uses periodic conditions.',
     ['jax_am/fem/solver.py', 'jax_am/fem/core.py'],
     [('get_A_fn_and_res_aug, solver_lagrange_multiplier', 'jax_am/fem/solver.py'), ('periodic_boundary_conditions', 'jax_am/fem/core.py')],
     ['solver', 'FEM.periodic_boundary_conditions'], 'tied-equilibrium monitor on solved periodic problems',
     'Random periodic problems solved by the code and by a numpy master-slave elimination; periodicity and force balance observed on every returned field.')

prop('F07', 'Solver derivatives are the true derivatives of the solution',
     'For any problem parameters (material fields, boundary values, source terms, mesh shape) the vector-Jacobian product of ad_wrapper and the Jacobian-vector product of ad_wrapper_jvp '
     'are the derivatives of the solved field, for symmetric and non-symmetric tangents and for each linear solver. '
     'A pullback gives the derivative at the parameters it was created with, even after the problem has been solved with other parameters, and Hessian-vector products built from both wrappers match second derivatives.',
     ['inputs', 'configurations', 'histories'], 'All differentiable parametrisations, objectives, evaluation points, solver choices and call histories.',
     'The test suite compares one parameter against finite differences at one point.',
     ['jax_am/fem/solver.py'], [('implicit_vjp, ad_wrapper, ad_wrapper_jvp', 'jax_am/fem/solver.py')],
     ['ad_wrapper', 'ad_wrapper_jvp', 'jax.vjp / jax.jvp of the wrapped solve'], 'derivative monitor against differences of an independent reference solve',
     'Each derivative is compared with central differences of a polished numpy reference along random directions, over call histories.')

prop('F08', 'Material laws are objective, isotropic and consistent with their energy',
     'Linear elasticity follows Hooke\'s law with the documented constants in 2D and 3D; the hyperelastic stress is the derivative of the neo-Hookean energy, is zero for pure rotations, rotates with the body, '
     'is isotropic and agrees with Hooke\'s law for small strains. The nodal forces of a uniformly deformed body carry exactly that stress.',
     ['inputs'], 'All deformation gradients with positive determinant, rotations, element types.',
     'The tests check one boundary value problem against FEniCSx.',
     ['jax_am/fem/models.py', 'jax_am/fem/core.py'], [('get_tensor_map of LinearElasticity and HyperElasticity', 'jax_am/fem/models.py')],
     ['get_tensor_map', 'nodal forces'], 'constitutive-law monitors (closed form, objectivity, work)',
     'Random deformations from tiny to large; closed-form stress, objectivity, isotropy, energy-work identity and virial stress of whole bodies.')

prop('F09', 'Plasticity histories stay on the yield surface and never gain energy',
     'Along every loading history the J2 model reproduces the radial-return solution at every quadrature point: von Mises stress never exceeds the yield stress, plastic work is non-negative, the volumetric response stays elastic, unloading is elastic. '
     'The history variables change only when update_stress_strain accepts a step, never by evaluating residuals or tangents, and the reported volume-averaged stress is the volume average.',
     ['histories', 'inputs'], 'All loading, unloading and reverse-loading histories, element types and strain magnitudes.',
     'The test runs one loading path and compares one stress curve.',
     ['jax_am/fem/models.py', 'jax_am/fem/core.py'], [('Plasticity.get_maps, update_stress_strain, compute_avg_stress', 'jax_am/fem/models.py')],
     ['Plasticity.internal_vars', 'compute_avg_stress', 'solver'], 'lock-step return-mapping monitor over histories',
     'Random strain histories driven through the real model beside a numpy return-mapping reference; invariants observed at every point and step.')

prop('F10', 'Post-processing integrals and error norms equal their mathematical values',
     'Surface areas, surface integrals of a solution, traction resultants on +z surfaces, and the L2 and H1 norms of a field or of its error equal the corresponding integrals for every field and mesh. '
     'Values and gradients reported at quadrature points are those of the interpolated field.',
     ['inputs', 'configurations'], 'All element types, fields, surfaces and meshes.',
     'The tests use one of these functions once, on one mesh.',
     ['jax_am/fem/core.py', 'jax_am/fem/utils.py', 'jax_am/fem/models.py'],
     [('convert_from_dof_to_quad, surface integrals, error norms', 'jax_am/fem/core.py')],
     ['compute_traction', 'compute_L2', 'sol_to_grad'], 'oracle integrals beside each post-processing call',
     'Random polynomial and non-polynomial fields on distorted meshes; every reported integral compared with an independent quadrature.')

prop('F11', 'Generated meshes are valid, conforming and fill the requested shape',
     'Box, rectangle and cylinder meshes have positively oriented cells in the library\'s node order, fill exactly the requested domain with the requested resolution, are conforming and have no orphan or duplicate nodes. '
     'Boundary faces picked by a location function are exactly the faces all of whose vertices lie there, and get_meshio_cell_type and the quality helpers agree with the cells.',
     ['inputs', 'configurations'], 'All element types, sizes and resolutions of the mesh generators, all location functions.',
     'The tests use one or two meshes and never inspect them.',
     ['jax_am/fem/generate_mesh.py', 'jax_am/fem/core.py'],
     [('box_mesh, box_mesh_gmsh, cylinder_mesh, rectangle_mesh', 'jax_am/fem/generate_mesh.py'), ('get_boundary_conditions_inds', 'jax_am/fem/core.py')],
     ['Mesh.points', 'Mesh.cells', 'FEM.get_boundary_conditions_inds'], 'mesh validator monitor on every generated mesh',
     'Generators executed over random sizes; each mesh validated for orientation, volume, conformity, counts, extents and face selection.')

prop('F12', 'Saved solutions, tables and parsed files read back as the data that was given',
     'A saved VTU file holds the mesh, the solution and all attached point and cell data unchanged. The parameter and time tables built from files pair every file with its own values and times, and configuration files parse to the written values. '
     'Timing decorators return the wrapped function\'s result unchanged, and the timing file holds the start, end and duration of the latest call.',
     ['inputs', 'histories'], 'All element types, fields, numbers and names of files, and call sequences.',
     'No test reads back an output file.',
     ['jax_am/fem/utils.py', 'jax_am/common.py', 'jax_am/fem/generate_mesh.py'],
     [('save_sol, modify_vtu_file, read_abaqus_and_write_vtk', 'jax_am/fem/utils.py'), ('yaml_parse, timeit, walltime, box_mesh', 'jax_am/common.py')],
     ['files written', 'DataFrames'], 'write/read-back monitors in scratch directories',
     'Random data written by the code and read back independently; tables checked row by row over shuffled directory contents.')

prop('M01', 'Every MMA step solves its convex subproblem within bounds and move limit',
     'For every objective, constraint set and design, an MMA step returns a point inside the variable bounds, the move limit and the asymptotes that satisfies the optimality (KKT) conditions of the published convex subproblem, with non-negative multipliers and slacks. '
     'The asymptotes follow Svanberg\'s update, contracting on oscillation and expanding on monotone progress, and repeated steps reach the known optimum of standard problems.',
     ['inputs', 'histories'], 'All objectives, gradients, numbers of constraints, bounds, move limits and iteration histories.',
     'No test runs the optimizer.',
     ['jax_am/fem/mma.py', 'applications/fem/top_opt/mma.py'], [('mmasub, subsolv, asymptote update', 'jax_am/fem/mma.py')],
     ['getOptimalValues', 'getLagrangeMultipliers', 'getAsymptoteValues', 'getSlackValue'], 'KKT monitor on every subproblem of optimisation histories',
     'Random nonconvex problems, every step checked against the published subproblem; complete runs compared with known optima.')

prop('M02', 'The optimisation loop filters sensitivities and advances the design as specified',
     'The density filter weights every pair of flexible cells whose centroids are closer than the filter radius, and filtered sensitivities are the density-weighted filter average. '
     'Every design handed to the user callbacks stays in [0,1] and within the move limit of the previous one and is the MMA step for the filtered sensitivities; objective and constraints are called once per iteration, in order, on the same design, and the final design is returned.',
     ['inputs', 'histories'], 'All meshes, flexible-cell subsets, design vectors, callbacks and numbers of iterations.',
     'No test runs the optimizer.',
     ['jax_am/fem/mma.py'], [('compute_filter_kd_tree, applySensitivityFilter, optimize', 'jax_am/fem/mma.py')],
     ['user callbacks of optimize', 'filter matrix H'], 'lock-step monitor of the optimisation loop',
     'Real optimize() runs with recording callbacks, each iterate compared with a reference filter plus exact dual solution of the subproblem.')

prop('P01', 'The phase-field rate is the variational gradient flow with Arrhenius mobility',
     'For every order-parameter field, temperature field and set of grain orientations, the evolution rate of each cell is minus the Arrhenius mobility times the gradient of the free energy (multi-well bulk energy, liquid penalty above the liquidus, gradient energy with orientation-dependent anisotropy), with no flux through the domain walls. '
     'Perfect crystals below the liquidus and pure melt are stationary, crystals melt above it, an orientation absent everywhere never appears, '
     'and the rate is equivariant under relabelling of orientations and mirroring or exchange of the axes.',
     ['inputs', 'configurations'], 'All order-parameter and temperature fields, grid shapes, spacings, orientations and material constants.',
     'There is no phase-field test at all.',
     ['jax_am/phase_field/allen_cahn.py'], [('phase_field.state_rhs, local_energy_fn, update_anisotropy_helper', 'jax_am/phase_field/allen_cahn.py')],
     ['state_rhs'], 'rate monitor against an independent numpy energy model, with symmetry and dissipation monitors',
     'Random fields on random grids in single and double precision; cell-by-cell comparison, numerical energy derivative, invariances.')

prop('P02', 'Phase-field time stepping follows its scheme and stays physical',
     'Each step of the integrators is exactly explicit Euler, or classical fourth-order Runge-Kutta, from the previous state and time to the requested time. '
     'Along every stable history the order parameters stay in [0,1], the free energy never increases at constant temperature, melt regions lose their order, and remelted material regrows from the substrate with orientations that were present. '
     'The initial state is the one-hot orientation of each cell, forcing clears exactly the cells above the liquidus margin, and non-finite solutions are reported.',
     ['histories', 'inputs'], 'All right-hand sides, step sequences, temperature histories and initial crystals.',
     'There is no phase-field test at all.',
     ['jax_am/phase_field/allen_cahn.py'], [('rk4, explicit_euler, PFSolver.stepper, ini_cond, inspect_sol, get_force_eta_fn', 'jax_am/phase_field/allen_cahn.py')],
     ['PFSolver.stepper', 'rk4', 'explicit_euler'], 'lock-step integration monitor plus invariants over histories',
     'Histories under changing temperature fields beside a numpy integrator; melt/regrow scenarios run thousands of steps.')

prop('P03', 'Polycrystal set-up and phase-field output files carry the right data per cell',
     'The crystal built from the mesh files has the file\'s grid, spacing and cell centroids, one orientation per grain, right-handed orthonormal crystal axes given by the stored quaternions, and rejects a wrong grain count; stacked layers keep the lower layers and add shifted copies on top. '
     'Every written solution file is named by its output index and stores, for every cell, the temperature, the dominant orientation and its colour (black where liquid) without altering the solver\'s state.',
     ['inputs', 'configurations'], 'All grids, grain maps, orientation sets, layer counts and written steps.',
     'There is no phase-field test at all.',
     ['jax_am/phase_field/utils.py', 'jax_am/phase_field/allen_cahn.py'],
     [('Field, generate_new_mesh', 'jax_am/phase_field/utils.py'), ('PFSolver.write_sols', 'jax_am/phase_field/allen_cahn.py')],
     ['Field attributes', 'vtu files'], 'read-back monitors on synthesised polycrystals',
     'Structured polycrystal files in Neper\'s format are synthesised; in-memory structures and files written are compared cell by cell.')

prop('P04', 'Grain segmentation finds exactly the connected grains, their volumes and shapes',
     'For every orientation and temperature field the segmentation returns each maximal face-connected set of solid cells with one orientation exactly once, filed under its orientation, and never a liquid cell. '
     'Grain volumes add up to the solid volume, and aspect ratios are the principal-axis ratios of the grain (1 for grains of fewer than five cells), independent of how the sample is rotated.',
     ['inputs'], 'All grids, orientation maps, liquid regions and cell volumes.',
     'There is no phase-field test at all.',
     ['jax_am/phase_field/utils.py'], [('compute_edges_in_order, BFS, get_aspect_ratio_inputs, compute_aspect_ratios_and_vols, process_eta', 'jax_am/phase_field/utils.py')],
     ['BFS', 'compute_aspect_ratios_and_vols', 'process_eta'], 'segmentation monitor against independent labelling',
     'Random and Voronoi-like samples segmented by the code and by an independent label propagation; end-to-end runs on solver files.')

CF = ['jax_am/cfd/cfd_am.py']
prop('C01', 'Finite-volume operators honour boundary data, conserve, and match their stencils',
     'For every field, grid, spacing and boundary-condition set, ghost values reproduce the prescribed boundary value or derivative, and the Laplacian, advection divergence (upwind blend 0.125), gradient and face-velocity operators equal their finite-volume stencils in every cell, wall cells included. '
     'Summed over the grid, the Laplacian and divergence reduce to the boundary fluxes alone, and they are exact on polynomials of the stencil\'s order; face velocities on walls are the prescribed ones.',
     ['inputs', 'configurations'], 'All grid shapes, spacings, fields with one or three components, boundary types/values and velocity fields.',
     'There is no test of the flow solver at all.', CF,
     [('ghost_cell, get_GC_values, laplace, div, gradient, get_face_vels, get_face_vel_component', 'jax_am/cfd/cfd_am.py')],
     ['return values of the operators'], 'operator monitors against explicit per-cell formulas plus conservation/exactness identities',
     'Every operator executed on random non-cubic grids and boundary mixes; every cell compared and global balances checked.')

prop('C02', 'The implicit finite-volume solver returns the balanced solution on every mesh',
     'On every 2D/3D box grid the mesh has the right cell centres, volumes, face areas, neighbours and boundary surfaces. '
     'For every conductivity (constant, varying or temperature-dependent), source and mix of Dirichlet/Neumann walls the solvers return a field whose flux balance vanishes in every cell: harmonic-mean conduction, half-cell distance to Dirichlet walls, prescribed wall fluxes, with or without preconditioning, within the requested tolerance. '
     'Linear profiles are exact, source-free solutions stay within their boundary values, and the reported Newton iterations stop at the tolerance or the limit.',
     ['inputs', 'configurations'], 'All grids, conductivities, sources, boundary mixes, tolerances, relaxation factors, iteration limits and preconditioner choices.',
     'There is no test of the flow solver at all.', CF,
     [('poisson residual/matrix/BC application', 'jax_am/cfd/cfd_am.py'), ('mesh2d, mesh3d', 'jax_am/cfd/cfd_am.py'), ('solver_linear, solver_nonlinear', 'jax_am/cfd/cfd_am.py')],
     ['compute_residual', 'newton_update', 'solver_linear', 'solver_nonlinear', 'mesh attributes'], 'residual, matrix and solution monitors against a dense face-by-face reference',
     'Random linear and nonlinear problems; code residual, matrix and solution compared with an independent dense assembly; balances, maximum principle, closed forms.')

prop('C03', 'Every energy step of the melt-pool solver balances heat and honours the laser',
     'After each time step the temperature satisfies the implicit heat balance of every cell: conduction, latent heat through the effective heat capacity between solidus and liquidus, advection, convection and radiation at the top surface (the other walls are insulated), and the laser as surface flux or body source. '
     'While the laser is on the absorbed power totals power times absorptivity, centred on the toolpath; when off nothing is added and the solution stays finite. '
     'Without source, temperatures stay between ambient and their former extremes, an insulated block keeps its heat, and mirrored problems give mirrored answers.',
     ['inputs', 'histories', 'configurations'], 'All grids, material constants, temperature and flow states, laser states, loss coefficients and both heat-source models.',
     'There is no test of the flow solver at all.', CF,
     [('energy_eqn, get_energy_bc_fn, get_body_heat_source, eqn_T_init, time_integration', 'jax_am/cfd/cfd_am.py')],
     ['AM_3d.time_integration', 'AM_3d.T0'], 'lock-step balance monitor of every cell over real time steps',
     'Real AM_3d steps from random states; new temperatures substituted in an independent dense balance and integrated heat compared with power and losses.')

prop('C04', 'Velocity steps are momentum balance plus pressure projection, Marangoni driven',
     'After each time step the velocity in the flow region satisfies the discrete momentum balance (advection, viscosity, pressure gradient, mushy-zone drag, thermocapillary shear at the top surface, no-slip elsewhere), followed by the pressure correction that removes the divergence of the predicted velocity and updates the pressure gradient. '
     'Solid cells stay at rest, cells outside the flow region keep their velocity, uniform-temperature melt at rest stays at rest, surface flow points down the surface-tension slope, and mirrored problems give mirrored answers.',
     ['inputs', 'histories', 'configurations'], 'All grids, flow-region positions, material constants, temperature/velocity/pressure states and signs of the surface-tension slope.',
     'There is no test of the flow solver at all.', CF,
     [('velocity_eqn.update, get_vel_bc_fn, eqn_V_init, time_integration', 'jax_am/cfd/cfd_am.py')],
     ['AM_3d.vel0', 'AM_3d.p0 gradient', 'AM_3d.time_integration'], 'lock-step monitor of predictor, pressure and correction',
     'Real steps from random molten states; velocity and pressure gradient compared with dense reference solves; scene invariants.')

prop('C05', 'The explicit GAMMA thermal step conserves heat and matches its boundary fluxes',
     'For every temperature field, grid, time step and laser state, one GAMMA step changes each cell exactly by the explicit conduction balance with temperature-dependent conductivity and heat capacity (latent heat between solidus and liquidus), and at each wall the conductive flux equals the laser input (top wall only) minus convection and radiation. '
     'The absorbed laser flux integrates to absorptivity times power, heat content changes only by the wall fluxes, stable histories stay within the extremes of the data, and relax to ambient when the laser is off.',
     ['inputs', 'histories'], 'All temperature fields, grids, spacings, stable time steps, laser positions and material constants, in both precisions.',
     'There is no test of the GAMMA solver.', ['jax_am/cfd/gamma.py'],
     [('update_mat, BC_thermal, laplace, update_T', 'jax_am/cfd/gamma.py')],
     ['update_T', 'BC_thermal', 'update_mat'], 'lock-step monitor plus heat-balance monitor over histories',
     'Random states stepped by the code and by an independent numpy update in float32 and float64; fluxes, balances, symmetry.')

prop('C06', 'A melt-pool scan advances, records and writes exactly its own history',
     'From the documented start state every step advances time by one increment, solves flow only in the region that moves with the laser (clipped at the domain), refreshes the advection terms from the fields just computed, follows the toolpath, and keeps the melted record as the running maximum of the liquid fraction. '
     'Output files are named by step over output interval and hold every field of every cell of that step at its own location; stale files are removed before a run, and a non-finite temperature is reported as an error instead of being written.',
     ['histories', 'configurations'], 'All scan histories, domain/region sizes, laser schedules and output intervals.',
     'There is no test of the flow solver at all.', CF,
     [('AM_3d.time_integration, get_moving_box_boundary, update_convective_terms, toolpath', 'jax_am/cfd/cfd_am.py'), ('clean_sols, inspect_sol, write_sols', 'jax_am/cfd/cfd_am.py')],
     ['AM_3d state after each step', 'vtu files'], 'trace monitor of complete scans with file read-back',
     'Whole scans with the flow region touching each side of the domain; each recorded step replayed against reference bookkeeping.')

LB = ['jax_am/lbm/core.py', 'jax_am/lbm/utils.py']
prop('L01', 'The free-surface flow conserves mass and keeps a closed interface layer',
     'In every lattice-Boltzmann run enclosed by walls, total mass (liquid density plus interface mass) is conserved through every fill, emptying and conversion of cells, wall cells never change, and every other cell is liquid, interface or gas. '
     'Interface cells have liquid and gas around them, liquid never stays in direct contact with gas, gas and wall cells hold no mass, unmelted material does not move, a pool at rest stays at rest, and a free drop accelerates with gravity.',
     ['histories', 'inputs'], 'All initial geometries, material constants, numbers of steps, flow-only and thermal runs in the stable regime.',
     'There is no test of the lattice-Boltzmann solver.', LB,
     [('update_f, reini_lg_to_liquid, reini_gas_to_lg, reini_lg_to_gas, reini_liquid_to_lg, adhoc_step', 'jax_am/lbm/core.py')],
     ['fields written by simulation() each step'], 'invariant monitor over every recorded step of free-surface histories',
     'Pools, powder, drops, bubbles, dam breaks and obstacles, both precisions; conservation and phase invariants at every step.')

prop('L02', 'Laser heat, latent heat and losses balance in the lattice-Boltzmann solver',
     'In every thermal lattice-Boltzmann run the heat content (sensible plus latent heat between solidus and liquidus) rises each step by the absorbed laser energy at the beam position and falls by convective and radiative surface losses only; walls act as ambient-temperature sinks. '
     'Without heat input an isothermal body stays isothermal and temperatures stay between ambient and the initial maximum, and the melted record marks exactly the cells whose temperature has exceeded the solidus at some step so far.',
     ['histories', 'inputs'], 'All geometries, beam sizes, powers, material constants, loss coefficients and step counts in the stable regime.',
     'There is no test of the lattice-Boltzmann solver.', LB,
     [('compute_h_src, compute_T, collide_h, update_h, h_forcing_vmap, equilibrium_h', 'jax_am/lbm/core.py')],
     ['T, phase, mass, melted fields written each step'], 'heat-balance monitor over recorded temperature histories',
     'Conduction-only and melting runs; enthalpy recomputed from recorded temperatures and balanced against injected power and losses.')

prop('L03', 'Every lattice-Boltzmann step equals the published free-surface thermal scheme',
     'For every geometry, material and laser path, phase, mass, density, velocity, temperature, curvature and melted record after every step equal those of the published scheme: D3Q19 collision with forcing (material below the solidus is frozen), surface tension from height-function curvature, Marangoni force, recoil pressure, enthalpy transport, free-surface streaming and mass exchange, and conversion of full and empty interface cells with the mass defect spread evenly over the interface.',
     ['histories', 'inputs'], 'All initial geometries, material constants and step counts.',
     'There is no test of the lattice-Boltzmann solver.', LB,
     [('simulation and its kernels', 'jax_am/lbm/core.py'), ('to_id, to_id_xyz, shape_wrapper', 'jax_am/lbm/utils.py')],
     ['fields written by simulation() each step'], 'lock-step monitor against an independent numpy implementation',
     'Each recorded output of real double-precision runs compared cell by cell with a reference simulation of the same scheme.')

prop('L04', 'The laser follows its path, units scale, outputs hold the right step and cell',
     'For every path the simulation runs one step per sample, each segment traversed at the scanning speed from corner to corner with the laser on or off as the switch says. '
     'Output files appear every write interval under consecutive indices, replace stale files, and hold every field of every cell at its own location; the caller\'s inputs are left unchanged. '
     'Describing the same problem in other consistent units gives the same physical fields.',
     ['histories', 'configurations'], 'All paths, switch patterns, speeds, write intervals and unit systems.',
     'There is no test of the lattice-Boltzmann solver.', LB,
     [('read_path, output_result, unit conversion', 'jax_am/lbm/core.py'), ('clean_sols, compute_cell_centroid', 'jax_am/lbm/utils.py')],
     ['files written', 'temperature history'], 'path and file monitors over whole scans; metamorphic unit-scaling monitor',
     'Polygonal scans with random switches; temperature history reveals position and state; files read back; rescaled twins compared.')

prop('A01', 'Crystal-plasticity steps obey slip, hardening and elasticity laws in every grain',
     'For every orientation, loading history and time step of the crystal-plasticity model, the accepted state satisfies, at every material point, the power-law slip rate of each of the 12 systems, '
     'saturating hardening, the plastic-deformation update and the cubic-elastic stress in the crystal frame; slip never produces energy. The response is objective, rotates with the crystal, '
     'is blind to cubic symmetries, and its tangent is consistent. Solved polycrystals are in equilibrium, each cell uses its own grain\'s orientation, solving never alters the stored history, and cell-average stresses are volume averages.',
     ['inputs', 'histories'], 'All orientations, strain histories, step sizes, prior hardening states and polycrystal meshes (steps of up to 0.2 % strain).',
     'No test imports the crystal-plasticity model.',
     ['applications/fem/crystal_plasticity/models.py'],
     [('CrystalPlasticity.get_maps, implicit residual solve, update_int_vars_gp, compute_avg_stress', 'applications/fem/crystal_plasticity/models.py')],
     ['get_maps', 'update_int_vars_gp', 'solver(problem)', 'compute_avg_stress'], 'constitutive-law monitors on every material point of point-wise and polycrystal histories',
     'Flow, hardening and elasticity equations re-evaluated in numpy at each accepted state over load/unload histories; metamorphic rotations and cubic symmetries; equilibrium of solved polycrystals by an own assembly.')

prop('A02', 'Topology-optimisation analysis: SIMP stiffness, compliance and sensitivities',
     'For every density field the displacement returned by the topology-optimisation model is the equilibrium of the interpolated material E = Emin + (Emax - Emin) rho^p (plane stress in 2D, isotropic in 3D, two-material mix), '
     'with cells outside the design set fully solid. The compliance equals the work of the applied traction and twice the strain energy, its derivative with respect to each design variable is the exact one (never positive), '
     'evaluating other designs in between changes nothing, and 3D cell stresses are the volume-averaged von Mises stresses. Elastoplastic designs follow the radial return with density-dependent stiffness and yield stress, from a history that only an accepted step advances.',
     ['inputs', 'configurations', 'histories'], 'All density fields, design subsets (any order), meshes, tractions, case flags and linear solvers.',
     'No test imports the topology-optimisation model.',
     ['applications/fem/top_opt/fem_model.py', 'applications/fem/top_opt/plasticity.py', 'jax_am/fem/solver.py'],
     [('get_tensor_map_*, set_params, compute_compliance, compute_von_mises_stress', 'applications/fem/top_opt/fem_model.py'), ('ad_wrapper', 'jax_am/fem/solver.py')],
     ['ad_wrapper(problem)', 'compute_compliance', 'compute_von_mises_stress', 'jax.grad of compliance'], 'dense reference analysis of every evaluated design',
     'Each design is re-analysed with a dense numpy stiffness matrix; compliance, energy identity and analytic self-adjoint sensitivities compared; designs revisited after others.')

prop('A03', 'Thermal simulation with element birth heats exactly the body that exists',
     'After any sequence of cell births the active mesh is exactly the sub-mesh of the active cells and the external faces are exactly the faces of a single active cell. '
     'Every implicit step balances stored heat, conduction, convection over all external faces and laser flux over the upward faces (none at the base) of that body, with the current laser position, laser state, time step and previous temperature; '
     'newborn material starts at its stored temperature. The thin-wall and bare-plate simulations follow their tool path: right body, laser on or off, and time step in every step.',
     ['histories', 'inputs', 'configurations'], 'All birth sequences, meshes and numberings, tool paths with laser on/off segments and repeated passes, fluxes and material data.',
     'No test touches the thermal application; its drivers need data files that are not shipped.',
     ['applications/fem/thermal/models.py', 'applications/fem/thermal/thin_wall.py', 'applications/fem/thermal/bare_plate.py'],
     [('Thermal, hash_map_for_faces, update_hash_map, get_active_mesh', 'applications/fem/thermal/models.py'), ('ded_thin_wall', 'applications/fem/thermal/thin_wall.py'), ('bare_plate_single_track', 'applications/fem/thermal/bare_plate.py')],
     ['get_active_mesh', 'initialize_hash_map', 'update_hash_map', 'solver(problem)', 'every solve of the scripts'], 'heat-balance and sub-mesh monitors over birth histories, model-level and on the scripts run end to end',
     'External faces recounted from scratch after every birth; the nodal heat balance re-assembled in numpy for each step; both scripts run on small generated meshes and tool paths with every solve observed.')


prop('A04', 'Phase-field fracture: irreversible damage driven by the largest tensile energy',
     'In every load step of the fracture demonstration the displacement is in equilibrium under the degraded spectral-split stress with the prescribed top displacement, the damage satisfies its equation with the largest tensile energy so far, '
     'damage never heals and stays between 0 and 1 through unloading and compression, the history field never decreases, the recorded force is the normal force on the top surface, and the files of a step carry that step. '
     'Isotropic tensor functions and their derivatives are exact, also at repeated eigenvalues.',
     ['histories', 'inputs'], 'All load programmes with loading, unloading and compression; all symmetric tensors including repeated eigenvalues.',
     'No test touches the demonstration.',
     ['demos/fem/phase_field_fracture/example.py', 'demos/fem/phase_field_fracture/eigen.py'],
     [('Elasticity, PhaseField', 'demos/fem/phase_field_fracture/example.py'), ('get_eigen_f_custom', 'demos/fem/phase_field_fracture/eigen.py')],
     ['every solve of the script', 'every saved file', 'results.npy', 'get_eigen_f_custom'], 'equilibrium, damage-equation and irreversibility monitors over the load history of the demonstration run end to end',
     'The script runs unmodified on a small mesh; after each solve the residuals are re-assembled in numpy with an independent spectral split; saved files and the recorded force are compared with the reference.')

prop('A05', 'Thermo-mechanical demonstration: heat balance, phases and thermal plasticity',
     'In every time step of the thermo-mechanical demonstration the temperature balances stored heat, conduction, convection and radiation over the top and side walls and the moving laser flux on the top surface while the laser is on, with the base kept at ambient. '
     'Each material point starts as powder, becomes liquid above the liquidus and solid for good when it cools below it; only solid has full stiffness and thermal expansion. '
     'Every mechanical step is in equilibrium under the elastic, perfectly plastic stress that follows from the stress, strain, phase and temperature increment since the previous mechanical step, with the base clamped, and each file carries the fields of its own step.',
     ['histories', 'inputs'], 'All meshes of the plate, all time steps, all temperature and displacement histories of the constitutive update.',
     'No test touches the demonstration.',
     ['demos/fem/thermal_mechanical/example.py'],
     [('Thermal, Plasticity, time loop', 'demos/fem/thermal_mechanical/example.py')],
     ['every solve of the script', 'every saved file', 'constitutive update under random histories'], 'heat-balance, equilibrium and phase-history monitors over the demonstration run end to end',
     'The script runs unmodified, also on coarser meshes; after each solve the nodal balances are re-assembled in numpy with an independently tracked phase, stress and strain history; files are read back.')

prop('A06', 'The finite element demonstrations solve the problems they describe',
     'Every solve of the Poisson, linear elasticity, hyperelasticity, plasticity, inverse and topology-optimisation demonstrations is the equilibrium of the described material, loads and supports, and every written file holds the field of its own step. '
     'The plasticity path gives the uniaxial elastic, perfectly plastic response through unloading and reversed yield; each forward solve of the inverse demonstration sees exactly the parameters it was given and the reported derivatives agree with difference quotients; '
     'the topology optimisation keeps densities in [0, 1], the move limit and the volume bound, reports the work of the load as compliance and lowers it.',
     ['histories', 'inputs', 'configurations'], 'All load steps, parameter values, designs and mesh sizes of the demonstrations.',
     'No test runs the demonstrations; the unit tests compare the underlying solver with stored fields on single meshes.',
     ['demos/fem/poisson/example.py', 'demos/fem/linear_elasticity/example.py', 'demos/fem/hyperelasticity/example.py', 'demos/fem/plasticity/example.py', 'demos/fem/inverse/example.py', 'demos/fem/topology_optimization/example.py'],
     [('Plasticity.update_stress_strain, compute_avg_stress', 'demos/fem/plasticity/example.py'), ('HyperElasticity.set_params', 'demos/fem/inverse/example.py'), ('Elasticity.set_params, compute_compliance', 'demos/fem/topology_optimization/example.py'), ('solver, ad_wrapper', 'jax_am/fem/solver.py'), ('optimize', 'jax_am/fem/mma.py')],
     ['every solve of the scripts', 'every saved file', 'printed results'], 'equilibrium, history and result monitors over the demonstrations run end to end',
     'The scripts run unmodified, some on coarser meshes; every field is tested against an independent assembly, closed forms (uniaxial stress, cantilever) and direct solutions; printed derivatives and compliances are recomputed.')
