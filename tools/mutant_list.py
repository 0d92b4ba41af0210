m('f01a', BASIS, '22, 23, 21, 24, 20', '22, 23, 24, 21, 20')
m('f01b', BASIS, 'onp.linalg.norm(onp.cross(jacobian[:, 0], jacobian[:, 1]))', 'onp.linalg.norm(jacobian[:, 0])*onp.linalg.norm(jacobian[:, 1])')
m('f01c', BASIS, '[0, 1, 2, 5, 3, 4]', '[0, 1, 2, 5, 4, 3]', props=['F01', 'F02'])
m('f01d', BASIS, 'gauss_order = 2 # 4, full integration', 'gauss_order = 1 # 4, full integration')
m('f01e', CORE, 'jacobian_det * self.quad_weights[None, :]', 'onp.mean(jacobian_det, axis=1, keepdims=True) * self.quad_weights[None, :]')
m('f01f', BASIS, 'gauss_order = 10 # 6x6x6', 'gauss_order = 3 # 6x6x6')
m('f02a', CORE, 'self.shape_vals[None, :, :, None] *\n                                       physical_coos', 'onp.mean(self.shape_vals, axis=0, keepdims=True)[None, :, :, None] *\n                                       physical_coos', props=['F02', 'F01'])
m('f03a', CORE, "internal_vars['neumann'][i]", "internal_vars['neumann'][0]")
m('f03b', CORE, "self.I = onp.hstack((self.I, I_face))\n            self.J = onp.hstack((self.J, J_face))", "self.I = onp.hstack((self.I, J_face))\n            self.J = onp.hstack((self.J, I_face))")
m('f03c', CORE, "self.I = I\n        self.J = J", "self.I = J\n        self.J = I")
m('f03d', CORE, "res = res.at[selected_cells.reshape(-1)].add(values)", "res = res.at[selected_cells[:len(boundary)].reshape(-1)].add(values)".replace('[:len(boundary)]', '[::-1]'))
m('f03e', CORE, "num_cuts = 20\n", "num_cuts = 20 if len(self.cells) < 1000 else 19\n        cells_sol = np.where(np.arange(len(cells_sol))[:, None, None] < (len(cells_sol)//num_cuts + 1)*num_cuts, cells_sol, 0.)\n")
m('f04a', SOLV, "        res = res.at[problem.node_inds_list[i],\n                     problem.vec_inds_list[i]].add(-problem.vals_list[i])\n", "    for i in range(len(problem.node_inds_list)):\n        res = res.at[problem.node_inds_list[i],\n                     problem.vec_inds_list[i]].add(-problem.vals_list[i])\n")
m('f04b', SOLV, "        tol = 1e-6\n        while res_val > tol:\n            dofs = ", "        tol = 1e-6*max(1., float(res_val))\n        while res_val > tol:\n            dofs = ")
m('f04c', CORE, "self.node_inds_list, self.vec_inds_list, self.vals_list = self.Dirichlet_boundary_conditions(\n            dirichlet_bc_info)\n\n    def periodic", "_, _, vals = self.Dirichlet_boundary_conditions(\n            dirichlet_bc_info)\n        if [len(v) for v in vals] == [len(v) for v in self.vals_list]:\n            self.vals_list = vals\n        else:\n            self.node_inds_list, self.vec_inds_list, self.vals_list = self.Dirichlet_boundary_conditions(dirichlet_bc_info)\n\n    def periodic")
m('f04d', SOLV, "        error = onp.max(onp.absolute(R))\n\n        # damping", "        error = onp.mean(onp.absolute(R))\n\n        # damping")
m('f04e', SOLV, "x0 = x0_1 - x0_2\n        inc = jax_solve(problem, A_fn, b, x0, precond)", "x0 = x0_1 - x0_2\n        inc = jax_solve(problem, A_fn, b, x0, precond and len(problem.node_inds_list) > 0)\n        inc = np.where(np.abs(inc) > 1e-7, inc, 0.)")
m('f05a', CORE, "self.JxW[:, :, None, None],\n                              axis=1)", "self.JxW[:1, :, None, None],\n                              axis=1)", props=['F05', 'F03'])
m('f05b', CORE, "nanson_scale = nanson_scale * jacobian_det * selected_weights", "nanson_scale = nanson_scale * onp.mean(jacobian_det, axis=1, keepdims=True) * selected_weights", props=['F05', 'F01'])
m('f05c', CORE, "integral = integral.at[subset_cells.reshape(-1)].add(int_vals)", "integral = integral.at[subset_cells.reshape(-1)].add(int_vals) if i == 0 else integral + np.zeros_like(integral).at[subset_cells.reshape(-1)].set(int_vals)")
m('f06a', CORE, "EPS = 1e-5\n                node_inds_B_ordered", "EPS = 1e-2\n                node_inds_B_ordered")
m('f06b', SOLV, "problem.vec * problem.p_node_inds_list_B[i] +\n                          problem.p_vec_inds_list[i]))", "problem.vec * problem.p_node_inds_list_B[i] +\n                          problem.p_vec_inds_list[0]))")
m('f06c', SOLV, "sol[problem.p_node_inds_list_B[i],\n                                   problem.p_vec_inds_list[i]]", "sol[problem.p_node_inds_list_B[i],\n                                   problem.p_vec_inds_list[0][:1]]")
m('f07a', SOLV, "    problem.set_params(params)\n    problem.newton_update(sol)\n", "    problem.newton_update(sol)\n")
m('f07b', AD, "    problem.set_params(params0)\n    problem.newton_update(sol0)", "    problem.newton_update(sol0)")
m('f07c', SOLV, "adjoint = petsc_solve(A_transpose, v.reshape(-1), 'bcgsl', 'ilu')", "v = assign_zeros_bc(v, problem)\n        adjoint = petsc_solve(A_transpose, v.reshape(-1), 'bcgsl', 'ilu')")
m('f07d', SOLV, "A_transpose = A_fn.transpose()", "A_transpose = A_fn")
m('f07e', SOLV, "adjoint = jax_solve(problem, adjoint_linear_fn, v.reshape(-1), None,", "adjoint = jax_solve(problem, adjoint_linear_fn, assign_zeros_bc(v.reshape(-1), problem), None,")
m('f08a', MOD, "lmbda = E*nu/((1+nu)*(1-2*nu))\n            epsilon = ", "lmbda = E*nu/((1+nu)*(1-2*nu)) if self.dim == 3 else E*nu/((1+nu)*(1-nu))\n            epsilon = ")
m('f08b', MOD, "I1 = np.trace(F.T @ F)", "I1 = np.trace(F @ F) if self.dim == 3 else np.trace(F.T @ F)")
m('f08c', MOD, "(kappa/2.) * (J - 1.)**2.", "(kappa/2.) * np.log(J)**2.")
m('f09a', MOD, "f_yield_plus = np.where(f_yield > 0., f_yield, 0.)", "f_yield_plus = np.where(f_yield > 1e-3*sig0, f_yield, 0.)")
m('f09b', MOD, "avg_sigma = sigma/vol", "avg_sigma = np.mean(self.sigmas_old.reshape(-1, self.vec, self.dim), 0)")
m('f09c', MOD, "self.sigmas_old = vmap_stress_rm(u_grads, self.sigmas_old, self.epsilons_old)\n        self.epsilons_old = vmap_strain(u_grads)", "self.sigmas_old = vmap_stress_rm(u_grads, self.sigmas_old, self.epsilons_old)\n        self.epsilons_old = np.where(np.sum(self.sigmas_old**2) > 0., vmap_strain(u_grads), self.epsilons_old)\n        self.epsilons_old = np.where(np.abs(self.epsilons_old) > 1e-6, self.epsilons_old, 0.)")
m('f10a', MOD, "l2_error = np.sqrt(np.sum((u - true_u)**2 * self.JxW[:, :, None]))", "l2_error = np.sqrt(np.sum((u - true_u)**2 * self.JxW[:, :1, None]))")
m('f10b', MOD, "grad_l2_error = np.sqrt(np.sum((u_grads - true_u_grads)**2 * self.JxW[:, :, None, None]))", "grad_l2_error = np.sqrt(np.sum((u_grads - true_u_grads)[:, :, 0]**2 * self.JxW[:, :, None]))")
m('f10c', MOD, "int_val = np.sum(traction * nanson_scale[:, :, None], axis=(0, 1))", "int_val = np.sum(np.mean(traction, axis=1) * np.sum(nanson_scale, axis=1)[:, None], axis=0)")
m('f11a', GEN, "onp.where(cells > 14, cells - 2, cells - 1)", "onp.where(cells > 15, cells - 2, cells - 1)")
m('f11b', COM, "points_inds_xy = points_inds.reshape(Nx + 1, Ny + 1)", "points_inds_xy = points_inds.reshape(Ny + 1, Nx + 1).T")
m('f11c', GEN, "        return boundary_inds.shape[0]", "        return len(onp.unique(boundary_inds[:, 0]))")
m('f11d', COM, "inds7 = points_inds_xyz[1:, 1:, 1:]\n    inds8 = points_inds_xyz[:-1, 1:, 1:]", "inds8 = points_inds_xyz[1:, 1:, 1:]\n    inds7 = points_inds_xyz[:-1, 1:, 1:]")
m('f11e', GEN, "extrude([s[1]], 0, 0, domain_z, [Nz], [1]", "extrude([s[1]], 0, 0, domain_z, [Nz if Nz < 5 else Nx], [1]")
m('f12a', COM, "data_dict[flattened_name] = data[(slice(None),) + idx]", "data_dict[flattened_name] = data[(slice(None),) + idx[::-1]]")
m('f12b', FU, "out_mesh.cell_data[name] = [onp.array(data, dtype=onp.float32)]", "out_mesh.cell_data[name] = [onp.array(data, dtype=onp.int32 if onp.all(onp.abs(data - onp.round(data)) < 1e-3) else onp.float32)]")
m('f12c', FU, "out_mesh.point_data[name] = onp.array(data, dtype=onp.float32)", "out_mesh.point_data[name] = onp.array(data, dtype=onp.float16)")
m('m01a', MMA, "if iter <= 2:", "if iter < 2:")
m('m01b', MMA, "axz = np.dot(-GG.T,(a/diaglamyi))", "axz = np.dot(GG.T,(a/diaglamyi))")
m('m01c', MMA, "factor[np.where(zzz<0)] = asydecr", "factor[np.where(zzz<-1e-3)] = asydecr")
m('m01d', MMA, "uppmax = xval+10*(xmax-xmin)", "uppmax = xval+10")
m('m01e', MMA, "zzz2 = xval+move*(xmax-xmin)", "zzz2 = xval+move*xmax")
m('m02a', MMA, "        xold2 = xold1.copy()\n        xold1 = xval.copy()", "        xold1 = xval.copy()\n        xold2 = xold1.copy()")
m('m02b', MMA, "avg_elem_V = V/problem.num_cells", "avg_elem_V = V/flex_num_cells")
m('m02c', MMA, "rho[None, :, :]*dvc/np.maximum(1e-3, rho[None, :, :])", "dvc")
m('p01a', AC, "eta_pos_z = np.concatenate((eta_xyz[1:, :, :, :], eta_xyz[-1:, :, :, :]), axis=0)", "eta_pos_z = np.concatenate((eta_xyz[1:, :, :, :], eta_xyz[:1, :, :, :]), axis=0)")
m('p01b', AC, "T = np.where(T > 2000., 2000., T)", "T = np.where(T > 1900., 1900., T)")
m('p01c', AC, "((eta_pos_y - eta_xyz) + (eta_neg_y - eta_xyz))/h_y**2", "((eta_pos_y - eta_xyz) + (eta_neg_y - eta_xyz))/h_x**2")
m('p01d', AC, "angles = np.where(angles < np.pi/2., angles, np.pi - angles)", "angles = np.where(angles < np.pi/2., angles, angles - np.pi/2.)", n=1)
m('p01e', AC, "np.tanh(1e10*(T/", "np.tanh(1e2*(T/")
m('p02a', AC, "k4 = h * f(y_prev + k3, t_prev + h, ode_params)", "k4 = h * f(y_prev + k3, t_prev + h/2., ode_params)")
m('p02b', AC, "liquid = T > pf_args['T_liquidus'] + shift_val", "liquid = T >= pf_args['T_liquidus']")
m('p02c', AC, "if not np.all(np.isfinite(pf_sol)):", "if np.any(np.isnan(pf_sol)):")
m('p02d', AC, "y_crt = y_prev + h * f(y_prev, t_prev, ode_params)", "y_crt = y_prev + h * f(y_prev, t_crt, ode_params)")
m('p03a', AC, "liquid = T.reshape(-1) > self.pf_args['T_liquidus']", "liquid = T.reshape(-1) >= self.pf_args['T_liquidus']")
m('p03b', PU, "polycrystal_next.centroids[:, 2] + pf_args['domain_z']*layer", "polycrystal_next.centroids[:, 2] + pf_args['domain_z']")
m('p03c', AC, "cell_ori_inds = onp.array(cell_ori_inds, dtype=onp.int32)", "cell_ori_inds = onp.array(cell_ori_inds, dtype=onp.int8)")
m('p03d', PU, "onp.concatenate((ori2.data[:, 1:], ori2.data[:, :1]), axis=1)", "ori2.data")
m('p03e', AC, "        ipf_x = onp.take(self.polycrystal.unique_oris_rgb[0], cell_ori_inds, axis=0)\n", "        ipf_x = onp.take(self.polycrystal.unique_oris_rgb[0], cell_ori_inds, axis=0)\n        T[liquid] = onp.minimum(T[liquid], 3000.) if isinstance(T, onp.ndarray) else 0.\n")
m('p04a', PU, "cell_ori_inds[cn] == oris_index and nonliquid[cn]", "cell_ori_inds[cn] == oris_index")
m('p04b', PU, "if len(grain_vol) < 5:", "if len(grain_vol) <= 5:")
m('p04c', PU, "nonliquid = T.reshape(-1) < pf_args['T_liquidus']", "nonliquid = T.reshape(-1) <= pf_args['T_liquidus'] + 5.")
m('p04d', PU, "edges_y = onp.stack((cell_inds[:, :-1, :], cell_inds[:, 1:, :])", "edges_y = onp.stack((cell_inds[:-1, :-1, :], cell_inds[1:, 1:, :])")
m('p04e', PU, "aspect_ratio = 2*lengths[0]/(lengths[1] + lengths[2])", "aspect_ratio = lengths[0]/lengths[1]")
m('c01a', CFD, "(neighbor[:, :, :, [1]] + dx * value[:, :, :, [1]])", "(neighbor[:, :, :, [1]] + dx * value[:, :, :, [0]])")
m('c01b', CFD, "(3 * fz[:, :, 2:-1] / 2 - fz[:, :, 3:] / 2) * (w_f < 0)", "(3 * fz[:, :, 2:-1] / 2 - fz[:, :, 1:-2] / 2) * (w_f < 0)")
m('c01c', CFD, "np.diff(f,axis=2,prepend=f_gc[4])*miu[2][:,:,:-1])/dX[2]*dX[0]*dX[1]", "np.diff(f,axis=2,prepend=f_gc[4])*miu[2][:,:,1:])/dX[2]*dX[0]*dX[1]")
m('c01d', CFD, "ghost_cell(BCs[0][2], BCs[1][2], -dX[1], f[:, [0], :])", "ghost_cell(BCs[0][2], BCs[1][2], dX[1], f[:, [0], :])")
m('c02a', CFD, "mu * 2 / self.msh.D[i] * self.msh.dS[i]", "mu / self.msh.D[i] * self.msh.dS[i]")
m('c02b', CFD, "-self.dX[1],\n            self.dX[1],\n            -self.dX[0],\n            self.dX[0],", "-self.dX[0],\n            self.dX[0],\n            -self.dX[1],\n            self.dX[1],")
m('c02c', CFD, "mu = 2*self.mu_fn(Up)*self.mu_fn(Unb)/(self.mu_fn(Unb)+self.mu_fn(Up))", "mu = (self.mu_fn(Unb)+self.mu_fn(Up))/2")
m('c02d', CFD, "mu = self.mu_fn(self.bc_value[i])\n                    else:\n                        mu = self.mu\n", "mu = self.mu_fn(U[self.msh.surf_cell[self.msh.surf_sets[i]]])\n                    else:\n                        mu = self.mu\n")
m('c02e', CFD, "surf_y_pos = self.Xc[y_pos_idx] + onp.array([0., self.dX[1] / 2., 0.])", "surf_y_pos = self.Xc[y_pos_idx] + onp.array([0., self.dX[0] / 2., 0.])")
m('c02f', CFD, "dofs = dofs + inc*relaxation", "dofs = dofs + inc")
m('c02g', CFD, "> tol) & (it < max_it)", "> tol) & (it <= max_it)")
m('c02h', CFD, "b = b.at[0].set(0.)", "b = b.at[0].set(b[0])")
m('c02i', CFD, "dofs = init\n", "dofs = init*0.\n")
m('c03a', CFD, "(T > args['Ts']) * (T < args['Tl'])", "(T > args['Ts'])")
m('c03b', CFD, "- args['rho'] * cp_fn(T0) * conv + Q", "- args['rho'] * args['cp'](T0) * conv + Q")
m('c03c', CFD, "(T_top**4-self.args['T_ref']**4)", "(T_top**4-300.**4)")
m('c03d', CFD, "P = self.args['P'] * (t < self.args['t_OFF'])", "P = self.args['P'] * (t <= self.args['t_OFF'])", props=['C03', 'C06'])
m('c03e', CFD, "d = self.args['phi'] * self.args['P'] / self.args['speed'] / self.args['rb']**2", "d = self.args['phi'] * self.args['P'] / self.args['speed'] / self.args['rb']")
m('c04a', CFD, "1e7 * self.rho * (\n                1 - fl)**2 / (fl**3 + 1e-5) * u", "1e7 * self.rho * (\n                1 - fl)**2 / (fl**2 + 1e-5) * u")
m('c04b', CFD, "self.msh_local.dX[1] * Dgamma_Dt / visco * fl_top", "self.msh_local.dX[0] * Dgamma_Dt / visco * fl_top")
m('c04c', CFD, "return vel, self.vel_BCs, grad_p0 + gradient(p, self.step.msh.dX)", "return vel, self.vel_BCs, gradient(p, self.step.msh.dX)")
m('c04d', CFD, "'symmetric')\n            return np.stack", "'wrap')\n            return np.stack")
m('c04e', CFD, "vel = vel - self.dt * gradient(p, self.step.msh.dX) / self.rho", "vel = vel - self.dt * gradient(p, self.step.msh.dX) / self.rho * (fl[..., :1] > 0)")
m('c05a', GAM, "(fl>0)*(fl<1)*gamma_args['L']", "(fl>0)*gamma_args['L']")
m('c05b', GAM, "q_y_pos/k[1:-1,-2,1:-1]*dy", "q_y_pos/k[1:-1,-1,1:-1]*dy")
m('c05c', GAM, "k = 0.0163*jnp.clip(T,300,gamma_args['Tl']) + 4.5847", "k = 0.0163*jnp.clip(T,300,gamma_args['Ts']) + 4.5847")
m('c05d', GAM, "T_y_neg**4-gamma_args['T0']**4", "T_y_neg**4-T_y_neg*gamma_args['T0']**3")
m('c05e', GAM, "T_zz = laplace(T, dx, dy, dz)", "T_zz = laplace(T, dx, dy, dy)")
m('c06a', CFD, "y0 = np.clip(y0,0,self.msh.shape[1]-self.msh_local.shape[1])", "y0 = np.clip(y0,0,self.msh.shape[0]-self.msh_local.shape[1])")
m('c06b', CFD, "self.solidID = np.maximum(self.solidID,fl0)", "self.solidID = self.solidID.at[:, :, 1:].set(np.maximum(self.solidID,fl0)[:, :, 1:])")
m('c06c', CFD, "if not np.all(np.isfinite(self.T)):", "if not np.isfinite(self.T.max()):")
m('c06d', CFD, "conv_T, conv = self.update_convective_terms(\n            self.T[x0:x1, y0:y1, z0:z1], vel, vel_BCs)", "conv_T, conv = self.update_convective_terms(\n            self.T[x0:x1, y0:y1, z0:z1], self.vel[x0:x1, y0:y1, z0:z1], vel_BCs)")
m('c06e', CFD, 'glob.glob(cfd_vtk_sols_folder + f"/*")', 'glob.glob(cfd_vtk_sols_folder + f"/u00*")')
m('c06f', CFD, "self.conv_T = self.conv_T.at[x0:x1, y0:y1, z0:z1].set(conv_T)", "self.conv_T = (self.conv_T*0.).at[x0:x1, y0:y1, z0:z1].set(conv_T)")
m('l01a', LBM, "mass_self > (1+theta)*rho_self", "mass_self > (1+10*theta)*rho_self", props=['L01', 'L03'])
m('l01b', LBM, "mass = np.where(phase == ST.LG, mass + (total_mass - calculated_mass)/np.sum(phase == ST.LG), mass)", "mass = np.where(phase == ST.LG, mass + np.clip((total_mass - calculated_mass)/np.sum(phase == ST.LG), -1e-3, 1e-3), mass)", props=['L01', 'L03'])
m('l01c', LBM, "liquid_flag = np.logical_and(phase_local[0] == ST.LG, liquid_nb_flag)", "liquid_flag = np.logical_and(np.logical_and(phase_local[0] == ST.LG, mass_self > 0.5*rho_self), liquid_nb_flag)", props=['L01', 'L03'])
m('l02a', LBM, "q_rad = SB_const*emissivity*(T0**4 - T_self**4)", "q_rad = SB_const*emissivity*(T0 - T_self)*T0**3*4", props=['L02', 'L03'])
m('l02b', LBM, "melted = np.where(T > T_solidus, 1., melted)", "melted = np.where(T > T_liquidus, 1., melted)", props=['L02', 'L03'])
m('l02c', LBM, "tau_diffusivity = np.where(T_self < T_solidus, tau_diffusivity_s, tau_diffusivity_l)", "tau_diffusivity = np.where(T_self < T_liquidus, tau_diffusivity_s, tau_diffusivity_l)", props=['L03'])
m('l02d', LBM, "return equilibrium_h(q, T0*heat_capacity, T0, np.zeros(3))", "return h_distribute_self[rev[q]]", props=['L02', 'L03'])
m('l02e', LBM, "q_conv = h_conv*(T0 - T_self)", "q_conv = h_conv*(T0 - T_self)*np.where(T_self > T_evap, 0., 1.)", props=['L02', 'L03'])
m('l03a', LBM, "- 2.*Hxy*Hx*Hy)", "+ 2.*Hxy*Hx*Hy)", props=['L03'])
m('l03b', LBM, "return (f_in - f_out) * (vof_in + vof_out) / 2.", "return (f_in - f_out) * vof_in", props=['L03', 'L01'])
m('l03c', LBM, "rho_avg =  np.sum(nb_liquid_flag * rho_local) / np.sum(nb_liquid_flag)", "rho_avg =  rho_g", props=['L03'])
m('l03d', LBM, "recoil_pressure = rp_coeff*p_atm*np.exp(", "recoil_pressure = rp_coeff*p_atm*np.minimum(1., 1.)*np.where(T < T_evap, 0., 1.)[:, :, :, None]*np.exp(", props=['L03'])
m('l03e', LBM, "T_avg = np.sum(nb_liquid_flag * T_local) / np.sum(nb_liquid_flag)", "T_avg = T0", props=['L03'])
m('l04a', LBM, "t_pre = t_pre + traveled_time\n", "t_pre = ts_seg[-1]\n")
m('l04b', LBM, "power_control = lbm_args['laser_path']['switch'][:-1]", "power_control = lbm_args['laser_path']['switch'][1:]")
m('l04c', LBM, "kappa, melted, (i + 1) // inverval)", "kappa, melted, i // inverval + 1)")
m('l04d', LBM, "SB_const = SB_const_real/(C_mass/C_time**3/C_temperature**4)", "SB_const = SB_const_real/(C_mass/C_time**3/C_temperature**3)")
m('l04e', LBM, "total_time_steps = len(ts) - 1", "total_time_steps = len(ts) - len(lbm_args['laser_path']['switch']) + 1")
m('l04f', LU, "files = glob.glob(os.path.join(vtk_dir, f'*'))", "files = glob.glob(os.path.join(vtk_dir, f'sol_00*'))")
# second sweep: changes that need something specific
m('f02z1', CORE, "assert len(body_force.shape) == 3\n            v_vals", "body_force = np.broadcast_to(body_force.mean(axis=1, keepdims=True), body_force.shape)\n            v_vals", props=['F02', 'F05'])
m('f03z1', CORE, "            mass_internal_vars = internal_vars['mass']\n", "            mass_internal_vars = internal_vars['mass'][:1]*len(internal_vars['mass'])\n")
m('f03z2', CORE, "return jax.jacfwd(kernel)(cell_sol, *args)", "return jax.jacfwd(kernel)(np.zeros_like(cell_sol) if self.vec > 1 else cell_sol, *args)")
m('f03z3', CORE, "        location_fns, value_fns = self.cauchy_bc_info\n        boundary_inds_list = self.get_boundary_conditions_inds(location_fns)\n", "        location_fns, value_fns = self.cauchy_bc_info\n        if not hasattr(FEM, '_cauchy_cache') or FEM._cauchy_cache[0] != (len(self.cells), len(location_fns)):\n            FEM._cauchy_cache = ((len(self.cells), len(location_fns)), self.get_boundary_conditions_inds(location_fns))\n        boundary_inds_list = FEM._cauchy_cache[1]\n")
m('f03z4', CORE, "if 'body' in internal_vars.keys():\n            self.body_force = self", "if 'body' in internal_vars.keys():\n            self.body_force = self.body_force*0. + self", props=['F03', 'F05'])
m('f04z1', SOLV, "A.zeroRows(row_inds)\n    else:", "A.zeroRows(row_inds[row_inds < 32768])\n    else:")
m('f04z2', SOLV, "            dofs = initial_guess.reshape(-1)\n", "            dofs = assign_bc(initial_guess.reshape(-1), problem)\n            return dofs.reshape(sol_shape) if np.linalg.norm(problem.compute_residual(dofs.reshape(sol_shape))) < 1e-4 else dofs\n".replace("            return dofs.reshape(sol_shape) if np.linalg.norm(problem.compute_residual(dofs.reshape(sol_shape))) < 1e-4 else dofs\n", ""))
m('f04z3', SOLV, "        tol = 1e-6\n        while res_val > tol:\n            dofs = ", "        tol, it = 1e-6, 0\n        while res_val > tol and (it := it + 1) < 8:\n            dofs = ")
m('f04z4', SOLV, "        dofs = assign_bc(dofs, problem)\n        res_vec, A_fn = newton_update_helper(dofs)\n", "        dofs = assign_bc(dofs, problem)\n        res_vec, A_fn = newton_update_helper(dofs*(np.abs(dofs) < 1e3))\n")
m('f05z1', CORE, "traction = jax.vmap(jax.vmap(self.neumann_value_fns[i]))(\n                    subset_quad_points,", "traction = jax.vmap(jax.vmap(self.neumann_value_fns[i]))(\n                    subset_quad_points if len(int_vars) == 0 else subset_quad_points[:, :1].repeat(subset_quad_points.shape[1], 1),", props=['F03', 'F05'])
m('f05z2', CORE, "                return onp.all(boundary_flag)\n", "                return onp.all(boundary_flag[:3])\n", props=['F05', 'F11', 'F10'])
m('f06z1', SOLV, "b = (problem.body_force + problem.neumann).reshape(-1)\n    b_aug", "b = (problem.body_force).reshape(-1)\n    b_aug")
m('f06z2', CORE, "                vec_inds = onp.ones_like(node_inds_A,\n                                         dtype=onp.int32) * vecs[i]", "                vec_inds = onp.ones_like(node_inds_A,\n                                         dtype=onp.int32) * vecs[min(i, self.dim)]")
m('f07z1', SOLV, "    vjp_result = jax.tree_map(lambda x: -x, vjp_result)\n", "    vjp_result = jax.tree_map(lambda x: -x if x.ndim < 3 else -np.clip(x, -1e3, 1e3), vjp_result)\n")
m('f07z2', SOLV, "        params, sol = res\n        vjp_result", "        params, sol = res\n        sol = assign_bc(sol.reshape(-1), problem).reshape(sol.shape)\n        vjp_result")
m('f08z1', MOD, "Jinv = J**(-2./3.)", "Jinv = np.where(J > 0.5, J, 0.5)**(-2./3.)")
m('f08z2', MOD, "epsilon = 0.5*(u_grad + u_grad.T)\n            sigma = lmbda", "epsilon = 0.5*(u_grad + u_grad.T) + 0.5*np.where(np.max(np.abs(u_grad)) > 0.05, 1., 0.)*u_grad.T @ u_grad\n            sigma = lmbda")
m('f10z1', MOD, "u_grads_face = sol[self.cells][boundary_inds[:, 0]][:, None, :, :, None]", "u_grads_face = sol[self.cells[boundary_inds[:, 0]]][:, None, :, :, None]")
m('f10z2', CORE, "boundary_inds = self.neumann_boundary_inds_list[index]", "boundary_inds = self.neumann_boundary_inds_list[min(index, 1)]", props=['F01'])
m('f10z3', MOD, "true_u_grads = jax.vmap(jax.vmap(jax.jacrev(true_u_fn)))(physical_quad_points)", "true_u_grads = jax.vmap(jax.vmap(jax.jacrev(true_u_fn)))(np.broadcast_to(physical_quad_points.mean(axis=1, keepdims=True), physical_quad_points.shape))")
m('f10z4', MOD, "h1_error = val_l2_error + grad_l2_error", "h1_error = np.maximum(val_l2_error, 0.) + np.maximum(grad_l2_error - 1e-4*val_l2_error, 0.)")
m('f11z1', CORE, "boundary_inds = onp.argwhere(\n                boundary_flags)", "boundary_inds = onp.argwhere(\n                boundary_flags)[:10000]", props=['F11', 'F05'])
m('f12z1', COM, "key=lambda f: f[-9:-4])", "key=lambda f: f)")
m('f12z2', COM, "time_value = round(int(vtu_file[-9:-4]) * dt, 8)", "time_value = round(int(vtu_file[-9:-4]) * dt, 6)")
m('f12z3', FU, "out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)", "out_mesh.point_data['sol'] = onp.nan_to_num(onp.array(sol, dtype=onp.float32))")
m('p01z1', AC, "graph_energy_2 = gamma * (np.sum(vmap_outer(eta, eta)**2) - np.sum(eta**4))", "graph_energy_2 = gamma * (np.sum(vmap_outer(eta, eta)[:, :, :64]**2) - np.sum(eta**4))")
m('p01z2', AC, "zeta = 0.5 * (1 - np.tanh(1e10*(T/pf_args['T_liquidus'] - 1)))", "zeta = np.where(T >= pf_args['T_liquidus'], 0., 1.)")
m('p01z3', AC, "np.exp(-pf_args['Qg'] / (T*pf_args['gas_const']))", "np.exp(-pf_args['Qg'] / (np.maximum(T, 400.)*pf_args['gas_const']))")
m('p01z4', AC, "angles = np.where(np.isfinite(angles), angles, 0.)", "angles = np.where(np.isfinite(angles), angles, np.pi/2.)", n=1)
m('p02z1', AC, "eta = eta.at[np.arange(num_nodes), self.polycrystal.cell_ori_inds].set(1)", "eta = eta.at[np.arange(num_nodes), self.polycrystal.cell_ori_inds.astype(onp.uint8)].set(1)", props=['P02', 'P03'])
m('p02z2', AC, "if not np.all(np.isfinite(pf_sol)):", "if not np.isfinite(np.max(pf_sol)):")
m('p02z3', AC, "eta = np.where(liquid, 0., eta)", "eta = np.where(liquid & (eta < 0.999), 0., eta)")
m('p03z1', PU, "polycrystal_next.mesh.cells[0].data = polycrystal_next.mesh.cells[0].data + len(polycrystal_next.mesh.points)*layer", "polycrystal_next.mesh.cells[0].data = polycrystal_next.mesh.cells[0].data + len(polycrystal.mesh.points) - len(polycrystal_next.mesh.points)*(layer - 1)")
m('p03z2', AC, "step = step // self.pf_args['write_sol_interval']", "step = round(step / self.pf_args['write_sol_interval'])")
m('p03z3', PU, "grain_directions = onp.stack((r.apply(dx), r.apply(dy), r.apply(dz)))", "grain_directions = onp.round(onp.stack((r.apply(dx), r.apply(dy), r.apply(dz))), 4)")
m('p04z1', PU, "visited = onp.zeros(num_graph_nodes)", "visited = onp.zeros(num_graph_nodes)\n    cell_ori_inds = onp.asarray(cell_ori_inds).astype(onp.uint8)")
m('p04z2', PU, "if len(grain_vol) < 5:", "if len(grain_vol) < 5 or onp.ptp(grain_centroids[i], axis=0).min() == 0:")
m('c01z2', CFD, "(u_f >= 0) + (1 - theta)", "(u_f > 0) + (1 - theta)")
m('c01z3', CFD, "return 2 * value - neighbor", "return 2 * value - np.where(np.abs(neighbor) < 1e4, neighbor, value)")
m('c01z4', CFD, "if np.isscalar(miu):", "if np.ndim(miu) == 0 or len(miu[0]) < 3:")
m('c02z1', CFD, "U_cell_nb = U[self.msh.cell_conn]\n", "U_cell_nb = U[np.minimum(self.msh.cell_conn, self.msh.cell_num - 1)]\n        U_cell_nb = np.where(np.abs(U_cell_nb) > 1e-12, U_cell_nb, 0.)\n")
m('c02z2', CFD, "eqn.precond_values = eqn.precond_values.at[0].set(1.)", "pass")
m('c02z3', CFD, "(flux, self.bc_value[i] * np.abs(self.msh.dS[i])))", "(flux, self.bc_value[i] * np.abs(self.msh.dS[0 if self.msh.dim == 2 and i < 2 else i])))")
m('c02z4', CFD, "np.linalg.norm(b)/np.linalg.norm(res_init) > tol", "np.linalg.norm(b)/np.maximum(np.linalg.norm(res_init), 1e-3) > tol", props=['C02', 'C03'])
m('c03z1', CFD, "Q_laser = Q_laser * ((zl - zc) <= d)", "Q_laser = Q_laser * (np.abs(zl - zc) < d)")
m('c03z2', CFD, "bc_values[-1] = bc_values[-1] + q_laser", "bc_values[-1] = np.where(q_laser > 0, bc_values[-1]*0., bc_values[-1]) + q_laser")
m('c03z3', CFD, "mu_fn = lambda T: args['k'](T)", "mu_fn = lambda T: args['k'](np.clip(T, args['T_ref'], 3000.))")
m('c04z1', CFD, "self.step.set_bc(bc_types[i],bc_values[i])", "self.step.set_bc(bc_types[i],bc_values[min(i, 1)])")
m('c04z2', CFD, "fl_top = self.fluid_frac(T_top)\n", "fl_top = (self.fluid_frac(T_top) > 0)*1.\n")
m('c04z3', CFD, "(w_f[:, :, 1:] - w_f[:, :, :-1]) /\n                   self.step.msh.dX[2]) / self.dt * self.rho", "(w_f[:, :, 1:] - w_f[:, :, :-1]) /\n                   self.step.msh.dX[1]) / self.dt * self.rho")
m('c05z1', GAM, "T = T.at[1:-1,1:-1,-1].set(T[1:-1,1:-1,-2]-q_z_pos/k[1:-1,1:-1,-2]*dz)", "T = T.at[1:-1,1:-1,-1].set(jnp.clip(T[1:-1,1:-1,-2]-q_z_pos/k[1:-1,1:-1,-2]*dz, 0., 4000.))")
m('c05z2', GAM, "cp = 0.2441*jnp.clip(T,300,gamma_args['Tl']) + 338.39", "cp = 0.2441*jnp.clip(T,300,gamma_args['Ts']) + 338.39")
m('c06z1', CFD, "step = step // self.args['write_sol_interval']\n        self.meshio", "step = (step + self.args['write_sol_interval'] - 1) // self.args['write_sol_interval']\n        self.meshio")
m('c06z2', CFD, "x0 = round(xl / self.msh.dX[0]) - round(self.msh_local.shape[0] / 2)", "x0 = round(xl / self.msh.dX[0]) - self.msh_local.shape[0] // 2")
m('c06z3', CFD, "self.t += self.args['dt']\n        \n", "self.t = round(self.t + self.args['dt'], 7)\n        \n")
m('c06z4', CFD, "x0, x1, y0, y1, z0, z1 = self.get_moving_box_boundary(self.t)\n\n        vel, vel_BCs", "x0, x1, y0, y1, z0, z1 = self.get_moving_box_boundary(min(self.t, self.args['t_OFF']))\n\n        vel, vel_BCs")
m('l01z1', LBM, "return ST.LG, rho_self\n", "return ST.LG, np.minimum(rho_self, 1.)\n", props=['L03'])
m('l01z2', LBM, "[mass_change_liquid, mass_change_lg, mass_change_gas_or_wall, mass_change_gas_or_wall]", "[mass_change_liquid, mass_change_lg, mass_change_gas_or_wall, mass_change_liquid]", props=['L01', 'L03'])
m('l01z3', LBM, "u = np.where((T < T_solidus)[:, :, :, None], 0., u)", "u = np.where((T <= T_solidus)[:, :, :, None], 0., u)", props=['L01'])
m('l02z1', LBM, "tmp = np.where(tmp > 0., tmp, 0.)", "tmp = np.abs(tmp)", props=['L02', 'L03'])
m('l02z2', LBM, "T_liquidus + (enthalpy - enthalpy_l)/heat_capacity))", "np.minimum(T_liquidus + (enthalpy - enthalpy_l)/heat_capacity, 2*T_evap)))", props=['L02', 'L03'])
m('l03z1', LBM, "(id_y + 1) % Ny, (id_y + 2) % Ny, (id_y + 3) % Ny]),\n                            np.array([(id_z - 1)", "(id_y + 1) % Ny, (id_y + 2) % Ny, (id_y + 2) % Ny]),\n                            np.array([(id_z - 1)", props=['L03'])
m('l03z2', LBM, "np.where(np.logical_and(np.absolute(phi[..., 1]) >= np.absolute(phi[..., 0]), np.absolute(phi[..., 1]) >= np.absolute(phi[..., 2])), kappa_2, kappa_3)", "np.where(np.logical_and(phi[..., 1] >= np.absolute(phi[..., 0]), np.absolute(phi[..., 1]) >= np.absolute(phi[..., 2])), kappa_2, kappa_3)", props=['L03'])
m('l03z3', LBM, "nb_liquid_flag = np.logical_or(phase_local == ST.LIQUID, phase_local == ST.LG)", "nb_liquid_flag = phase_local == ST.LIQUID", props=['L03'])
m('l03z4', LBM, "T_grid = np.where(np.logical_or(phase_grid == ST.GAS, phase_grid == ST.WALL), T_grid[c_id, c_id, c_id], T_grid)", "T_grid = np.where(phase_grid == ST.GAS, T_grid[c_id, c_id, c_id], T_grid)", props=['L03'])
m('l04z1', LBM, "ts_seg = onp.arange(t_pre, t_pre + traveled_time + 1e-10, lbm_args['dt']['value'])", "ts_seg = onp.arange(t_pre, t_pre + traveled_time, lbm_args['dt']['value'])")
m('l04z2', LBM, "u = np.where((phase == ST.LIQUID)[..., None], u, 0.)", "u = np.where((phase != ST.GAS)[..., None], u, 0.)", props=['L03'])
m('l04z3', LBM, "T = compute_T(compute_enthalpy(h_distribute))\n        rho = rho", "T = compute_T(np.maximum(compute_enthalpy(h_distribute), T0*heat_capacity))\n        rho = rho")
m('m01z1', MMA, "factor[np.where(zzz>0)] = asyincr", "factor[np.where(zzz>=0)] = asyincr")
