CORE, SOLV, AD, MMA = 'jax_am/fem/core.py', 'jax_am/fem/solver.py', 'jax_am/fem/autodiff_utils.py', 'jax_am/fem/mma.py'
AC, PU, CFD, GAM, LBM = 'jax_am/phase_field/allen_cahn.py', 'jax_am/phase_field/utils.py', 'jax_am/cfd/cfd_am.py', 'jax_am/cfd/gamma.py', 'jax_am/lbm/core.py'
seed('overlapping_dirichlet', 'F04', [(SOLV, """            sol[problem.node_inds_list[i], problem.vec_inds_list[i]],
            unique_indices=True))
        res = res.at[problem.node_inds_list[i],
                     problem.vec_inds_list[i]].add(-problem.vals_list[i])
""", """            sol[problem.node_inds_list[i], problem.vec_inds_list[i]],
            unique_indices=True))
    for i in range(len(problem.node_inds_list)):
        res = res.at[problem.node_inds_list[i],
                     problem.vec_inds_list[i]].add(-problem.vals_list[i])
""")], 'two Dirichlet conditions with non-zero values that share a node and component', 'the returned field has the sum of the prescribed values at shared nodes instead of the last one')
seed('neumann_vars_index', 'F03', [(CORE, "int_vars = internal_vars['neumann'][i]", "int_vars = internal_vars['neumann'][0]")],
     'at least two Neumann boundaries with their own internal variables', 'the traction of the second boundary is evaluated with the variables of the first')
seed('cauchy_tangent_transposed', 'F03', [(CORE, """            I_face = onp.repeat(inds_face[:, :, None],
                                self.num_nodes * self.vec,
                                axis=2).reshape(-1)
            J_face = onp.repeat(inds_face[:, None, :],
                                self.num_nodes * self.vec,
                                axis=1).reshape(-1)
""", """            I_face = onp.repeat(inds_face[:, None, :],
                                self.num_nodes * self.vec,
                                axis=1).reshape(-1)
            J_face = onp.repeat(inds_face[:, :, None],
                                self.num_nodes * self.vec,
                                axis=2).reshape(-1)
""")], 'a Cauchy boundary law that couples components of a vector field non-symmetrically', 'the tangent of the boundary term is transposed')
seed('stale_adjoint_params', 'F07', [(SOLV, """    problem.set_params(params)
    problem.newton_update(sol)
""", """    problem.newton_update(sol)
""")], 'a pullback used after the problem has been solved with other parameters', 'the gradient mixes the tangent of the latest parameters with the older solution')
seed('periodic_component', 'F06', [(SOLV, """                              (sol[problem.p_node_inds_list_A[i],
                                   problem.p_vec_inds_list[i]] -
                               sol[problem.p_node_inds_list_B[i],
                                   problem.p_vec_inds_list[i]]))
""", """                              (sol[problem.p_node_inds_list_A[i],
                                   problem.p_vec_inds_list[i]] -
                               sol[problem.p_node_inds_list_B[i],
                                   problem.p_vec_inds_list[0][:1]]))
""")], 'periodic conditions on a second component of a vector field, nonlinear solver path (more than one Newton step) or an initial field with values', 'the residual of the tie compares different components')
seed('mma_more_constraints', 'M01', [(MMA, "bz = delz-np.dot(a.T,(dellamyi/diaglamyi))", "bz = delz+np.dot(a.T,(dellamyi/diaglamyi))")],
     'at least as many constraints as design variables and a min-max (a != 0) formulation', 'the interior-point direction is wrong: the step is not the optimum of the subproblem')
seed('third_layer_centroids', 'P03', [(PU, "polycrystal_next.centroids[:, 2] + pf_args['domain_z']*layer", "polycrystal_next.centroids[:, 2] + pf_args['domain_z']")],
     'a third stacked layer (layer >= 2)', 'cell centroids of the third layer coincide with those of the second')
seed('grain_through_melt', 'P04', [(PU, "if visited[cn] == 0 and cell_ori_inds[cn] == oris_index and nonliquid[cn]:", "if visited[cn] == 0 and cell_ori_inds[cn] == oris_index and (nonliquid[cn] or nonliquid[s] and len(queue) > 3):")],
     'a melt cell of the same orientation next to a grain whose search front is wide', 'liquid cells are counted into a grain')
seed('harmonic_mean', 'C02', [(CFD, "mu = 2*self.mu_fn(Up)*self.mu_fn(Unb)/(self.mu_fn(Unb)+self.mu_fn(Up))", "mu = self.mu_fn((Unb+Up)/2)")],
     'temperature-dependent conductivity with a steep gradient between neighbouring cells', 'faces use the conductivity of the mean temperature instead of the harmonic mean')
seed('latent_heat_above_liquidus', 'C03', [(CFD, """            'Tl'] - args['Ts']) * (T > args['Ts']) * (T < args['Tl'])
""", """            'Tl'] - args['Ts']) * (T > args['Ts'])
""")], 'a cell above the liquidus at the start of a step', 'latent heat is charged to fully liquid cells')
seed('pressure_gradient_lost', 'C04', [(CFD, "return vel, self.vel_BCs, grad_p0 + gradient(p, self.step.msh.dX)", "return vel, self.vel_BCs, gradient(p, self.step.msh.dX)")],
     'a second time step of a flowing melt pool', 'the accumulated pressure gradient is replaced by the latest correction')
seed('gamma_wall_conductivity', 'C05', [(GAM, "q_y_pos/k[1:-1,-2,1:-1]*dy", "q_y_pos/k[1:-1,-1,1:-1]*dy")],
     'heat loss through the +y wall while ghost and wall cell differ in temperature', 'the wall flux is divided by the conductivity of the ghost cell')
seed('flow_region_clip', 'C06', [(CFD, "y0 = np.clip(y0,0,self.msh.shape[1]-self.msh_local.shape[1])", "y0 = np.clip(y0,0,self.msh.shape[0]-self.msh_local.shape[1])")],
     'a domain longer in x than in y with the track near the +y wall', 'the flow region leaves the domain')
seed('mass_defect_capped', 'L01', [(LBM, "mass = np.where(phase == ST.LG, mass + (total_mass - calculated_mass)/np.sum(phase == ST.LG), mass)", "mass = np.where(phase == ST.LG, mass + np.clip((total_mass - calculated_mass)/np.sum(phase == ST.LG), -1e-3, 1e-3), mass)")],
     'a violent step in which many interface cells fill or empty at once', 'mass is lost or created')
seed('melted_threshold', 'L02', [(LBM, "melted = np.where(T > T_solidus, 1., melted)", "melted = np.where(T > T_liquidus, 1., melted)")],
     'a cell that gets into the mushy range but never above the liquidus', 'the melted record misses partly melted cells')
seed('laser_state_late', 'L04', [(LBM, "xs[i + 1]/C_length, ys[i + 1]/C_length, ps[i + 1])", "xs[i + 1]/C_length, ys[i + 1]/C_length, ps[i])")],
     'a path on which the laser is switched between segments', 'the laser state lags the position by one step: the first sample of a segment uses the previous segment\'s switch')
CP, TOP, TH, COM, MOD, BAS = 'applications/fem/crystal_plasticity/models.py', 'applications/fem/top_opt/fem_model.py', 'applications/fem/thermal/models.py', 'jax_am/common.py', 'jax_am/fem/models.py', 'jax_am/fem/basis.py'
seed('saturated_hardening', 'A01', [(CP, "np.absolute(1 - slip_resistance_old/t_sat)**gss_a * np.sign(1 - slip_resistance_old/t_sat)", "np.absolute(1 - slip_resistance_old/t_sat)**gss_a")],
     'a slip system whose resistance exceeds the saturation value', 'slip resistance keeps growing beyond saturation instead of relaxing back to it')
seed('flex_order', 'A02', [(TOP, "full_params = full_params.at[self.flex_inds].set(params)", "full_params = full_params.at[np.unique(self.flex_inds)].set(params)")],
     'a design set listed in an order that is not ascending', 'densities are assigned to the wrong cells')
seed('thin_layer_top', 'A03', [(TH, "np.all(np.isclose(face_points_z, 0., atol=1e-5))", "np.all(np.isclose(face_points_z, 0., atol=1e-3))")],
     'layers thinner than a millimetre (mesh in metres)', 'the laser also heats the side faces of thin layers')
seed('micro_box', 'F11', [(COM, "    x = onp.linspace(0, domain_x, Nx + 1)\n    y = onp.linspace(0, domain_y, Ny + 1)\n    z = onp.linspace(0, domain_z, Nz + 1)\n",
     "    x, y, z = [onp.arange(n + 1)*onp.round(d/n, 6) for n, d in zip((Nx, Ny, Nz), (domain_x, domain_y, domain_z))]\n")],
     'a box whose cell size is not a multiple of a micrometre (in metres)', 'the mesh does not fill the requested domain')
seed('yield_tolerance', 'F09', [(MOD, "f_yield_plus = np.where(f_yield > 0., f_yield, 0.)", "f_yield_plus = np.where(f_yield > 1e-3*sig0, f_yield, 0.)")],
     'trial stresses within 0.1 % above the yield surface (small plastic increments)', 'stresses leave the yield surface by up to 0.1 % in small steps')
seed('upwind_down', 'C01', [(CFD, "(3 * fz[:, :, 2:-1] / 2 - fz[:, :, 3:] / 2) * (w_f < 0))", "(3 * fz[:, :, 2:-1] / 2 - fz[:, :, 1:-2] / 2) * (w_f < 0))")],
     'flow in the negative z direction', 'the upwind extrapolation of downward flow uses the downwind cell')
seed('aniso_extremum', 'P01', [(AC, """        angles = np.where(angles < np.pi/2., angles, np.pi - angles)
        angles = np.min(angles, axis=1)
        anisotropy_term = 1. + pf_args['anisotropy'] * (np.cos(angles)**4 + np.sin(angles)**4) # (num_edges, num_oris)
        anisotropy_term = anisotropy_term.reshape((edges.shape[0], edges.shape[1], edges.shape[2], pf_args['num_oris']))
        return anisotropy_term


    def local_energy_fn""", """        angles = np.where(angles < np.pi/2., angles, np.pi - angles)
        angles = np.where(np.linalg.norm(edge_directions, axis=-1)[:, None, :] > 0., angles, np.pi/4.)
        angles = np.min(angles, axis=1)
        anisotropy_term = 1. + pf_args['anisotropy'] * (np.cos(angles)**4 + np.sin(angles)**4) # (num_edges, num_oris)
        anisotropy_term = anisotropy_term.reshape((edges.shape[0], edges.shape[1], edges.shape[2], pf_args['num_oris']))
        return anisotropy_term


    def local_energy_fn""")], 'a cell at an exact local extremum of an order parameter (zero central difference) with anisotropy on', 'the gradient coefficient of such cells is that of an oblique interface')
seed('hex27_faces', 'F01', [(BAS, "17, 10, 12, 15, 14, 22, 23, 21, 24, 20, 25, 26]", "17, 10, 12, 15, 14, 22, 23, 24, 21, 20, 25, 26]")],
     '27-node hexahedra', 'two mid-face nodes are interchanged in the interpolation')
seed('avg_stress_weights', 'F09', [(MOD, "        sigma = np.sum(self.sigmas_old.reshape(-1, self.vec, self.dim) * self.JxW.reshape(-1)[:, None, None], 0)\n        vol = np.sum(self.JxW)\n        avg_sigma = sigma/vol\n",
     "        sigma = np.mean(self.sigmas_old, axis=1) # (num_cells, vec, dim)\n        avg_sigma = np.mean(sigma, axis=0)\n")],
     'a mesh with cells of unequal volume and a non-uniform stress', 'the reported average stress is not the volume average')
seed('void_filter', 'M02', [(MMA, "dJ = np.matmul(ft['H'], rho*dJ/np.maximum(1e-3, rho)/ft['Hs'][:, None])", "dJ = np.matmul(ft['H'], rho*dJ/np.maximum(1e-2, rho)/ft['Hs'][:, None])")],
     'design variables between 0.001 and 0.01 (nearly void cells)', 'objective sensitivities of nearly void cells are damped')
CORE, LBMC, FRA = 'jax_am/fem/core.py', 'jax_am/lbm/core.py', 'demos/fem/phase_field_fracture/example.py'
seed('affine_faces', 'F02', [(CORE, "        nanson_scale = nanson_scale * jacobian_det * selected_weights\n", "        nanson_scale = (nanson_scale * jacobian_det)[:, :1] * selected_weights\n")],
     'a traction on faces that are not parallelograms (distorted quadrilateral faces)', 'surface integrals use the area ratio of the first quadrature point: exact fields with Neumann data are not reproduced on distorted meshes')
seed('three_corners', 'F05', [(CORE, "                return onp.all(boundary_flag)\n", "                return onp.all(boundary_flag[:3])\n")],
     'a loaded region whose outline is not convex, so that it holds three of the four nodes of a face outside it', 'faces outside the loaded region carry load')
seed('compression_floor', 'F08', [(MOD, "            Jinv = J**(-2./3.)\n", "            Jinv = np.maximum(J, 0.5)**(-2./3.)\n")],
     'compression to less than half the volume', 'the stress of strongly compressed material is not that of the neo-Hookean energy')
seed('h1_cell_gradient', 'F10', [(MOD, "true_u_grads = jax.vmap(jax.vmap(jax.jacrev(true_u_fn)))(physical_quad_points)", "true_u_grads = jax.vmap(jax.jacrev(true_u_fn))(np.mean(physical_quad_points, axis=1))[:, None]")],
     'a true field whose gradient varies within a cell', 'the H1 error is measured against the gradient at the cell centre')
seed('nan_hidden', 'F12', [('jax_am/fem/utils.py', "    out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)\n", "    out_mesh.point_data['sol'] = onp.nan_to_num(onp.array(sol, dtype=onp.float32))\n")],
     'a solution with a non-finite entry', 'the saved file shows a diverged solution as finite')
seed('orientation_byte', 'P02', [(AC, "eta = eta.at[np.arange(num_nodes), self.polycrystal.cell_ori_inds].set(1)", "eta = eta.at[np.arange(num_nodes), np.asarray(self.polycrystal.cell_ori_inds, dtype=np.uint8)].set(1)")],
     'more than 256 grain orientations', 'grains with a high orientation number start with another orientation')
seed('curvature_sign', 'L03', [(LBMC, "np.where(np.logical_and(np.absolute(phi[..., 1]) >= np.absolute(phi[..., 0]), np.absolute(phi[..., 1]) >= np.absolute(phi[..., 2]))", "np.where(np.logical_and(phi[..., 1] >= np.absolute(phi[..., 0]), phi[..., 1] >= np.absolute(phi[..., 2]))")],
     'a free surface facing the -y direction', 'the curvature of such surfaces is taken from the wrong height function')
