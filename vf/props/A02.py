import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = case flag | linear solver | design cells (all, subset) | history position; counted when displacement, compliance, sensitivities '
        'and stresses of that design were tested against a dense reference analysis')
ASSUMPTIONS = ['material laws: E = Emin + (Emax - Emin) rho^p with nu = 0.3; p = 3 (5 for the eigenvalue case); Emin/Emax = 1e-3 in the plane and freecad cases, '
               '1e-9 in the box case; two-material mixing E2 = 0.2 E1; plane stress in 2D',
               'supports are homogeneous, so compliance is self-adjoint and its exact derivative is minus the element strain energy times dE/E',
               'integrals are taken at the quadrature points the code reports (their accuracy is the subject of F01)']
REQUIRED = {'interpolation': 6, 'equilibrium': 6, 'compliance': 6, 'energy': 6, 'sensitivity': 6, 'stiffer-is-better': 6, 'repeat': 4, 'von-mises': 3, 'passive-cells': 3, 'plastic-return': 10, 'plastic-forces': 10, 'plastic-history': 10}
FLAGS = ['freecad', 'box', 'multi_material', 'plate', 'L_shape', 'eigen']
E3 = {'freecad': (70e3, 70.), 'box': (70e9, 70.), 'multi_material': (70e3, 70.), 'plate': (70e9, 70e6), 'L_shape': (70e9, 70e6), 'eigen': (70e9, 70e6)}
NU = .3


def young(flag, r):
    """E and dE/d(params) per cell from its design variables r (cells, k)."""
    hi, lo = E3[flag]
    p = 5. if flag == 'eigen' else 3.
    if flag == 'multi_material':
        a, b = r[:, 0], r[:, 1]
        mix = b**p * hi + (1 - b**p) * .2 * hi
        return lo + a**p * mix, onp.stack((p * a**(p - 1) * mix, a**p * p * b**(p - 1) * .8 * hi), 1)
    return lo + (hi - lo) * r[:, 0]**p, (hi - lo) * p * r**(p - 1)


def unit_law(flag):
    """Stiffness for E = 1 as a linear map on displacement gradients."""
    d = 2 if flag in ('plate', 'L_shape', 'eigen') else 3
    D = onp.zeros((d,) * 4)
    I = onp.eye(d)
    for i in range(d):
        for j in range(d):
            g = onp.zeros((d, d))
            g[i, j] = 1.
            e = .5 * (g + g.T)
            if d == 3:
                D[:, :, i, j] = NU / (1 + NU) / (1 - 2 * NU) * onp.trace(e) * I + e / (1 + NU)
            else:
                D[:, :, i, j] = (NU * onp.trace(e) * I + (1 - NU) * e) / (1 - NU**2)
    return D


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    for i in range(6 * k):
        f = FLAGS[i % 6]
        out.append(dict(kind='design', flag=f, petsc=bool((i + i // 6 + seed) % 2), rounds=2 if tier == 'quick' else 5, seed=[int(seed), i], cost=16, hang=600))
    for i in range(2 * k):
        out.append(dict(kind='plastic', rounds=2 if tier == 'quick' else 5, seed=[int(seed), 200 + i], cost=8))
    return out


def plastic(case, mon):
    """Elastoplastic designs: radial return with density-dependent stiffness and yield stress along load histories."""
    jax, np, FEM, Mesh = fu.mods()
    from applications.fem.top_opt.plasticity import Plasticity
    rng = onp.random.default_rng(case['seed'])
    P, C, U, A, b = fe.make_mesh('HEX8', (2, 2, 1), rng, jitter=.15, affine=False, lengths=rng.uniform(.7, 1.4, 3))
    pr = Plasticity(Mesh(P, C, 'HEX8'), vec=3, dim=3)
    nc = len(C)
    flex = rng.permutation(nc)[:nc - 1]
    pr.flex_inds = np.array(flex)
    th = rng.uniform(.3, 1., (len(flex), 2))
    full = onp.ones((nc, 2))
    full[flex] = th
    w = onp.asarray(pr.JxW)
    xq = onp.asarray(pr.get_physical_quad_points())
    nq = w.shape[1]
    G = onp.array([fe.geom('HEX8', P[C[c]], fe.inverse_map('HEX8', P[C[c]], xq[c]))[2] for c in range(nc)])
    params = pr.init_params(np.array(th))
    mon.close('interpolation', params[2], onp.repeat(full[:, None], nq, 1), 1e-12, 1., 'design variables at the quadrature points')
    E = 70. + (70e3 - 70.) * full[:, 0]**3
    sy = (250. + 100. * full[:, 1])[:, None]
    D = unit_law('freecad')
    s0 = onp.zeros((nc, nq, 3, 3))
    e0 = onp.zeros_like(s0)
    d1, d2 = rng.normal(size=(2,) + P.shape)
    rate = 2e-3
    u = onp.zeros_like(P)
    for k in range(6 if case['rounds'] < 3 else 14):
        mon.where = f'plastic step {k}'
        u = u + rate * (d1 if k % 4 < 2 else -d2)
        g = onp.einsum('cni,cqnj->cqij', u[C], G)
        e1 = .5 * (g + onp.swapaxes(g, -1, -2))
        tr = onp.einsum('ijkl,cqkl->cqij', D, e1 - e0) * E[:, None, None, None] + s0
        dev = tr - onp.trace(tr, axis1=2, axis2=3)[..., None, None] / 3 * onp.eye(3)
        vm = onp.sqrt(1.5 * (dev**2).sum((2, 3)))
        f = onp.maximum(vm - sy, 0.) / onp.maximum(vm, 1e-300)
        s1 = tr - f[..., None, None] * dev
        keep = [onp.array(v) for v in params]
        pr.set_params(params)
        R = onp.zeros_like(P)
        onp.add.at(R, C, onp.einsum('cqvd,cqnd,cq->cnv', s1, G, w))
        mon.close('plastic-forces', pr.compute_residual(np.array(u)), R, 1e-9, onp.abs(R).max())
        new = pr.update_stress_strain(np.array(u), params)
        for v, q in zip(params, keep):
            mon.equal('plastic-history', onp.asarray(v), q, 'evaluating a step changed its history')
        mon.close('plastic-return', new[0], s1, 1e-9, onp.abs(s1).max())
        mon.close('plastic-return', new[1], e1, 1e-12, 1e-2)
        mon.equal('plastic-history', onp.asarray(new[2]), keep[2], 'densities')
        params, s0, e0 = new, s1, e1
        mon.sig('plastic', k, int((f > 0).any()), int((f == 0).any()))


def design(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from applications.fem.top_opt.fem_model import Elasticity
    from jax_am.fem.solver import ad_wrapper
    rng = onp.random.default_rng(case['seed'])
    flag = case['flag']
    plane = flag in ('plate', 'L_shape', 'eigen')
    d = 2 if plane else 3
    et = 'QUAD4' if plane else 'HEX8'
    n = (4, 3) if plane else (3, 2, 2)
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=.15, affine=False, lengths=rng.uniform(.7, 1.4, d))
    load = float(rng.uniform(.5, 2.)) * E3[flag][0] * 1e-4
    dirn = rng.normal(size=d)
    dirn /= onp.linalg.norm(dirn)
    sl = rng.normal(size=(d, d)) * .3
    jd, jsl = np.array(dirn), np.array(sl)
    trac = lambda x: load * (jd + jsl @ x)
    dbc = [[fu.side_fn(A, b, 0, 0)] * d, list(range(d)), [lambda x: 0.] * d]
    pr = Elasticity(Mesh(P, C, et), vec=d, dim=d, ele_type=et, dirichlet_bc_info=dbc, neumann_bc_info=[[fu.side_fn(A, b, 0, 1)], [trac]],
                    additional_info=(flag,))
    nc = len(C)
    mon.equal('passive-cells', onp.sort(onp.asarray(pr.flex_inds)), onp.arange(nc), 'every cell is a design cell by default')
    mon.close('passive-cells', pr.cell_centroids, P[C].mean(1), 1e-12, 1., 'cell centroids')
    k = 2 if flag == 'multi_material' else 1
    flex = onp.arange(nc)
    if rng.random() < .7:
        flex = rng.permutation(nc)[:max(2, int(.6 * nc))]
        pr.flex_inds = np.array(flex)
    # reference pieces
    w = onp.asarray(pr.JxW)
    xq = onp.asarray(pr.get_physical_quad_points())
    nq = w.shape[1]
    G = onp.array([fe.geom(et, P[C[c]], fe.inverse_map(et, P[C[c]], xq[c]))[2] for c in range(nc)])
    D = unit_law(flag)
    ke = onp.einsum('cqnj,ijkl,cqml,cq->cnimk', G, D, G, w)
    F = onp.zeros((len(P), d))
    for c in range(nc):
        for f, (vs, _) in enumerate(fe.faces(et)):
            if onp.all(onp.abs(U[C[c]][sorted(vs), 0] - 1) < 1e-9):
                x, wa, _, N, _ = fe.face_integrals(et, P[C[c]], f, 2)
                F[C[c]] += onp.einsum('q,qn,qv->nv', wa, N, load * (dirn + x @ sl.T))
    free = onp.repeat(onp.abs(U[:, 0]) > 1e-9, d)
    fwd = ad_wrapper(pr, linear=True, use_petsc=case['petsc'])
    J = lambda p: pr.compute_compliance(trac, fwd(p))
    z = 1e3 if case['petsc'] else 1.   # PETSc's own relative tolerance is 1e-5 in the preconditioned norm
    lo = .45 if flag == 'box' else .25
    first = None
    for r in range(case['rounds']):
        p = rng.uniform(lo, 1., (len(flex), k))
        if r == 1 and flag != 'box':
            p[rng.integers(len(p))] = .02 if k == 1 else (.3, .02)
        mon.where = f'{flag} round {r} petsc {case["petsc"]}'
        full = onp.ones((nc, k))
        full[flex] = p
        E, dE = young(flag, full)
        K = onp.zeros((len(P) * d,) * 2)
        for c in range(nc):
            ix = (C[c][:, None] * d + onp.arange(d)).reshape(-1)
            K[onp.ix_(ix, ix)] += E[c] * ke[c].reshape(len(ix), len(ix))
        ur = onp.zeros(len(P) * d)
        ur[free] = onp.linalg.solve(K[onp.ix_(free, free)], F.reshape(-1)[free])
        ur = ur.reshape(len(P), d)
        val, grad = jax.value_and_grad(J)(np.array(p))
        sol = fwd(np.array(p))
        u = onp.asarray(sol)
        th = onp.asarray(pr.internal_vars['laplace'][0])
        mon.close('interpolation', onp.asarray(pr.full_params), full, 1e-12, 1., 'design variables of the cells')
        mon.close('interpolation', th, onp.repeat(full[:, None], nq, 1), 1e-12, 1., 'design variables at the quadrature points')
        R = (K @ u.reshape(-1) - F.reshape(-1))
        mon.close('equilibrium', R[free], onp.zeros(free.sum()), 2e-6 * z, onp.abs(F).max())
        mon.close('equilibrium', u.reshape(-1)[~free], onp.zeros((~free).sum()), 1e-12, onp.abs(ur).max() + 1e-300)
        mon.close('equilibrium', u, ur, 2e-5 * z, onp.abs(ur).max())
        c0 = float((F * u).sum())
        mon.close('compliance', pr.compute_compliance(trac, sol), c0, 1e-9, float(onp.abs(F * u).sum()))
        mon.close('compliance', val, float((F * ur).sum()), 1e-5 * z)
        se = onp.einsum('cni,cnimk,cmk->c', ur[C], ke, ur[C])
        mon.close('energy', c0, float((E * se).sum()), 1e-5 * z)
        want = -(dE * se[:, None])[flex]
        mon.close('sensitivity', grad, want, 2e-5 * z, onp.abs(want).max())
        mon.le('stiffer-is-better', onp.asarray(grad), 0., 1e-7 * z * onp.abs(want).max())
        if r == 0:
            first = p, float(val), onp.asarray(grad)
        else:
            v2, g2 = jax.value_and_grad(J)(np.array(first[0]))
            mon.close('repeat', v2, first[1], 1e-6 * z, detail='same design evaluated again after another one')
            mon.close('repeat', g2, first[2], 2e-5 * z, onp.abs(first[2]).max())
            pr.set_params(np.array(p))
        # stresses
        if flag != 'eigen':
            ut = rng.normal(size=u.shape) * 1e-3
            vm = onp.asarray(pr.compute_von_mises_stress(np.array(ut)))
            if d == 3:
                g = onp.einsum('cni,cqnj->cqij', ut[C], G)
                s = onp.einsum('ijkl,cqkl->cqij', D, g) * E[:, None, None, None]
                dev = s - onp.trace(s, axis1=2, axis2=3)[..., None, None] / 3 * onp.eye(3)
                ref = (onp.sqrt(1.5 * (dev**2).sum((2, 3))) * w).sum(1) / w.sum(1)
                mon.close('von-mises', vm, ref, 1e-9)
            else:
                vm2 = onp.asarray(pr.compute_von_mises_stress(np.array(-2.5 * ut)))
                mon.close('von-mises', vm2, 2.5 * vm, 1e-9)
                mon.le('von-mises', -vm, 0.)
            W = rng.normal(size=(d, d))
            rig = 1e-3 * (P @ (W - W.T).T + rng.normal(size=d))
            mon.close('von-mises', pr.compute_von_mises_stress(np.array(rig)), onp.zeros(nc), 1e-9, float(onp.abs(vm).max()))
        mon.sig(flag, case['petsc'], len(flex) == nc, r)


RUN = dict(design=design, plastic=plastic)
