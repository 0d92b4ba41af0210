import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = element type | model | loaded sides | role (load total, free-body balance, rigid motion, reaction); '
        'counted when a nodal force field produced by the code was summed and compared')
ASSUMPTIONS = ['nodal forces are read as the residual before Dirichlet conditions are applied',
               'load functions are polynomials of degree <= 1 (constant for TRI3/TET4, whose rules are exact to degree 1), integrated exactly on affine cells']
REQUIRED = {'total-load': 10, 'load-moment': 9, 'free-body-force': 10, 'free-body-moment': 6, 'rigid-motion': 8,
            'reaction-force': 4, 'reaction-moment': 3, 'unloaded-nodes': 4, 'nodal-load': 8}


def cases(tier, seed):
    out = []
    rng = onp.random.default_rng([seed, 505])
    reps = 1 if tier == 'quick' else 6
    for r in range(reps):
        for i, et in enumerate(fe.TYPES):
            out.append(dict(kind='load', et=et, vec=int(rng.integers(1, 4)), seed=[int(seed), r, i], cost=3))
        for i, (m, et) in enumerate([('elastic', 'QUAD4'), ('elastic', 'TRI6'), ('elastic', 'HEX8'), ('elastic', 'TET10'),
                                     ('elastic', 'HEX20'), ('hyper', 'HEX8'), ('hyper', 'TET4'), ('hyper', 'TET10'),
                                     ('plastic', 'HEX8'), ('plastic', 'TET4'), ('poisson', 'QUAD8'), ('poisson', 'HEX27')]):
            out.append(dict(kind='free', model=m, et=et, seed=[int(seed), r, 20 + i], cost=5))
        for i in range(5):
            m = ['elastic', 'elastic', 'poisson', 'elastic', 'plastic'][i]
            et = ['QUAD4', 'HEX8', 'TRI3', 'TET4', 'HEX8'][i]
            out.append(dict(kind='reaction', model=m, et=et, petsc=bool(rng.random() < .4), seed=[int(seed), r, 50 + i], cost=8))
    return out


def side_faces(et, C, U, a, s):
    on = onp.abs(U[:, a] - s) < 1e-9
    for c, cell in enumerate(C):
        for f, (vs, _) in enumerate(fe.faces(et)):
            if all(on[cell[v]] for v in vs):
                yield c, f


def side_load(et, P, C, U, a, s, t, about):
    """Total and first moments (sum F, sum x F) of the traction t(x) on a box side, own quadrature."""
    F, M = 0., 0.
    for c, f in side_faces(et, C, U, a, s):
        x, wa, _, _, _ = fe.face_integrals(et, P[C[c]], f, 5)
        v = onp.array([t(xx) for xx in x]) * wa[:, None]
        F = F + v.sum(0)
        M = M + onp.einsum('qv,qd->vd', v, x - about)
    return F, M


def spin(M):
    """Antisymmetric part of first moments M[v,d] = sum F_v x_d (moments of force)."""
    return M - M.T


def load(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    rng = onp.random.default_rng(case['seed'])
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    n = {2: (3, 2, 1), 3: (2, 2, 1)}[d]
    P, C, U, A, b = fe.make_mesh(et, n, rng, lengths=rng.uniform(.7, 1.6, d), grade=.45)
    sides = [(a, s) for a in range(d) for s in (0, 1)]
    k = int(rng.integers(1, len(sides) + 1))
    pick = [sides[i] for i in rng.permutation(len(sides))[:k]]
    if rng.random() < .5:       # two loads on the same side add up
        pick.append(pick[int(rng.integers(k))])
        k += 1
    T0 = rng.normal(size=(k, vec))
    lin = et not in ('TRI3', 'TET4')    # one-point rules: first moments are exact for constant loads
    T1 = rng.normal(size=(k, vec, d)) * (rng.random() < .7) * lin
    b0, b1 = rng.normal(size=vec), rng.normal(size=(vec, d)) * lin
    body = bool(rng.random() < .7)

    class M(FEM):
        def get_tensor_map(self):
            return lambda g: g
    pr = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
           neumann_bc_info=[[fu.side_fn(A, b, *s) for s in pick],
                            [(lambda x, i=i: np.array(T0[i]) + np.array(T1[i]) @ x) for i in range(k)]],
           source_info=(lambda x: np.array(b0) + np.array(b1) @ x) if body else None)
    F = -onp.asarray(pr.compute_residual(np.zeros((len(P), vec))))
    about = P.mean(0)
    Ft, Mt = onp.zeros(vec), onp.zeros((vec, d))
    for i, s in enumerate(pick):
        f, m = side_load(et, P, C, U, *s, lambda x: T0[i] + T1[i] @ x, about)
        Ft, Mt = Ft + f, Mt + m
    if body:
        Ft = Ft + fe.integrate_cells(et, P, C, lambda x: b0 + x @ b1.T)
        Mt = Mt + fe.integrate_cells(et, P, C, lambda x: onp.einsum('qv,qd->qvd', b0 + x @ b1.T, x - about).reshape(len(x), -1)).reshape(vec, d)
    sc = onp.abs(F).sum() + 1e-12
    mon.where = f'{et} vec {vec} sides {pick} body {body}'
    mon.close('total-load', F.sum(0), Ft, 1e-7, sc)
    mon.close('load-moment', onp.einsum('nv,nd->vd', F, P - about), Mt, 1e-6, sc * onp.abs(P - about).max())
    if not body:
        on = onp.zeros(len(P), bool)
        for a, s in pick:
            on |= onp.abs(U[:, a] - s) < 1e-9
        mon.close('unloaded-nodes', F[~on], onp.zeros((int((~on).sum()), vec)), 1e-9, sc)
    mon.sig(et, vec, sorted(pick), body)
    # two loads act independently: dropping one removes exactly its share
    if k > 1:
        pr2 = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
                neumann_bc_info=[[fu.side_fn(A, b, *pick[0])], [lambda x: np.array(T0[0]) + np.array(T1[0]) @ x]])
        F2 = -onp.asarray(pr2.compute_residual(np.zeros((len(P), vec))))
        f, m = side_load(et, P, C, U, *pick[0], lambda x: T0[0] + T1[0] @ x, about)
        mon.close('total-load', F2.sum(0), f, 1e-7, sc)
        on = onp.abs(U[:, pick[0][0]] - pick[0][1]) < 1e-9
        mon.close('unloaded-nodes', F2[~on], onp.zeros((int((~on).sum()), vec)), 1e-9, sc)
    # distorted cells and faces: a constant load still totals load times size, and an affine weighting of the nodal
    # forces is the load's first moment on simplices (exact rules); on other cells only totals are exact
    P, C, U, A, b = fe.make_mesh(et, {2: (3, 3, 1), 3: (2, 2, 2)}[d], rng, lengths=rng.uniform(.7, 1.6, d), jitter=.3)
    pr3 = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
            neumann_bc_info=[[fu.side_fn(A, b, *s) for s in pick], [(lambda x, i=i: np.array(T0[i])) for i in range(k)]],
            source_info=(lambda x: np.array(b0)) if body else None)
    F = -onp.asarray(pr3.compute_residual(np.zeros((len(P), vec))))
    Ft = onp.zeros(vec)
    for i, s in enumerate(pick):
        Ft = Ft + side_load(et, P, C, U, *s, lambda x: T0[i], P.mean(0))[0]
    if body:
        Ft = Ft + fe.integrate_cells(et, P, C, lambda x: onp.tile(b0, (len(x), 1)))
    mon.close('total-load', F.sum(0), Ft, 1e-7, onp.abs(F).sum() + 1e-12, detail='distorted')
    # node by node: the force on a node is the load weighted with its shape function; compare on one loaded side
    f1 = side_forces(et, P, C, U, *pick[0], T0[0])
    pr4 = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
            neumann_bc_info=[[fu.side_fn(A, b, *pick[0])], [lambda x: np.array(T0[0])]])
    F = -onp.asarray(pr4.compute_residual(np.zeros((len(P), vec))))
    tol = 1e-7 if et not in ('TRI3', 'TET4', 'HEX20', 'QUAD8', 'HEX27') else 1e-6
    # a loaded region with holes: faces that touch one of the removed corners carry nothing
    G = None
    vert = sorted({int(C[c][v]) for c, f in side_faces(et, C, U, *pick[0]) for v in fe.faces(et)[f][0]})
    for rep in range(2):
        gone = rng.choice(vert, int(rng.integers(1, 1 + max(1, len(vert) // 4))), replace=False)
        G = np.array(P[gone])
        pr5 = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
                neumann_bc_info=[[lambda p: fu.side_fn(A, b, *pick[0])(p) & (np.min(np.sum((G - p)**2, axis=1)) > 1e-12)], [lambda x: np.array(T0[0])]])
        F5 = -onp.asarray(pr5.compute_residual(np.zeros((len(P), vec))))
        mon.close('nodal-load', F5, side_forces(et, P, C, U, *pick[0], T0[0], gone), tol, onp.abs(F).sum() + 1e-12, detail=f'region with holes {gone.tolist()}')
    mon.close('nodal-load', F, f1, 1e-7 if et not in ('TRI3', 'TET4', 'HEX20', 'QUAD8', 'HEX27') else 1e-6, onp.abs(F).sum() + 1e-12)


def side_forces(et, P, C, U, a, s, t, gone=()):
    out = onp.zeros((len(P), len(t)))
    for c, f in side_faces(et, C, U, a, s):
        if set(C[c][sorted(fe.faces(et)[f][0])]) & set(gone):
            continue
        x, wa, *_ = fe.face_integrals(et, P[C[c]], f, 5)
        N = fe.geom(et, P[C[c]], fe.inverse_map(et, P[C[c]], x))[3]
        for i, node in enumerate(C[c]):
            out[node] += (N[:, i] * wa).sum() * t
    return out


def model(name):
    from jax_am.fem import models
    return dict(elastic=models.LinearElasticity, hyper=models.HyperElasticity, plastic=models.Plasticity,
                poisson=models.LinearPoisson)[name]


def rotation(rng, d):
    Q, _ = onp.linalg.qr(rng.normal(size=(d, d)))
    if onp.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def free(case, mon):
    """Any displacement: the internal nodal forces of an unsupported body are self-equilibrated."""
    jax, np, FEM, Mesh = fu.mods()
    rng = onp.random.default_rng(case['seed'])
    et, d, name = case['et'], fe.DIM[case['et']], case['model']
    n = {2: (3, 2, 1), 3: (2, 1, 1)}[d]
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=.2, lengths=rng.uniform(.8, 1.4, d))
    vec = d if name != 'poisson' else 2
    pr = model(name)(Mesh(P, C, et), vec=vec, dim=d, ele_type=et)
    mon.where = f'{et} {name}'
    for k in range(3):
        amp = {'elastic': 1., 'hyper': .05, 'plastic': [1e-4, 5e-3, 5e-2][k], 'poisson': 1.}[name]
        g = rng.normal(size=(vec, d)) * .3 * amp
        u = P @ g.T + rng.normal(size=(len(P), vec)) * amp * .3
        R = onp.asarray(pr.compute_residual(np.array(u)))
        sc = onp.abs(R).sum() + 1e-12
        mon.check('free-body-force', onp.isfinite(sc), 'non-finite forces')
        mon.close('free-body-force', R.sum(0), onp.zeros(vec), 1e-9, sc)
        if name != 'poisson':
            x = P + u if name == 'hyper' else P
            x = x - x.mean(0)
            mon.close('free-body-moment', spin(onp.einsum('nv,nd->vd', R, x)), onp.zeros((d, d)), 1e-9, sc * onp.abs(x).max())
        mon.sig(et, name, 'free', k)
        if name == 'plastic':
            pr.update_stress_strain(np.array(u))
    # rigid motions cause no force
    if name == 'plastic':
        pr = model(name)(Mesh(P, C, et), vec=vec, dim=d, ele_type=et)
    for k in range(3):
        c = rng.normal(size=vec)
        if name == 'poisson':
            u = onp.tile(c, (len(P), 1))
        elif name == 'hyper':
            Q = rotation(rng, d)
            u = P @ Q.T + c - P
        else:
            W = rng.normal(size=(d, d))
            u = c + P @ (W - W.T).T
        stiff = {'elastic': 1e5, 'hyper': 1e3, 'plastic': 1e5, 'poisson': 1.}[name]
        R = onp.asarray(pr.compute_residual(np.array(u)))
        mon.close('rigid-motion', R, onp.zeros_like(R), 1e-9, stiff * onp.abs(u).max())
        mon.sig(et, name, 'rigid', k)


def reaction(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    et, d, name = case['et'], fe.DIM[case['et']], case['model']
    n = {2: (3, 2, 1), 3: (2, 2, 1)}[d]
    P, C, U, A, b = fe.make_mesh(et, n, rng, lengths=rng.uniform(.8, 1.4, d), grade=.4)
    vec = d if name != 'poisson' else 1
    scale = {'elastic': 100., 'plastic': 8., 'poisson': 1.}[name]
    sides = [(0, 1), (1, 0), (1, 1)]
    k = 1 + int(rng.integers(3))
    pick = sides[:k]
    T0 = rng.normal(size=(k, vec)) * scale
    T1 = rng.normal(size=(k, vec, d)) * scale * (et not in ('TRI3', 'TET4'))
    b0 = rng.normal(size=vec) * scale
    pr = model(name)(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
                     dirichlet_bc_info=[[fu.side_fn(A, b, 0, 0)] * vec, list(range(vec)), [lambda x: 0.] * vec],
                     neumann_bc_info=[[fu.side_fn(A, b, *s) for s in pick],
                                      [(lambda x, i=i: np.array(T0[i]) + np.array(T1[i]) @ x) for i in range(k)]],
                     source_info=lambda x: np.array(b0))
    fu.bound_newton(pr, 60)
    lin = name != 'plastic' and not case['petsc']
    sol = solver(pr, linear=lin, use_petsc=case['petsc'])
    R = onp.asarray(pr.compute_residual(sol))
    fixed = onp.abs(U[:, 0]) < 1e-9
    about = P.mean(0)
    Ft, Mt = fe.integrate_cells(et, P, C, lambda x: onp.tile(b0, (len(x), 1))), \
        fe.integrate_cells(et, P, C, lambda x: onp.einsum('v,qd->qvd', b0, x - about).reshape(len(x), -1)).reshape(vec, d)
    for i, s in enumerate(pick):
        f, m = side_load(et, P, C, U, *s, lambda x: T0[i] + T1[i] @ x, about)
        Ft, Mt = Ft + f, Mt + m
    sc = onp.abs(R).sum() + 1e-12
    mon.where = f'{et} {name} sides {pick}'
    mon.close('reaction-force', R[fixed].sum(0), -Ft, 1e-6, sc)
    if name != 'poisson':
        mon.close('reaction-moment', spin(onp.einsum('nv,nd->vd', R[fixed], (P - about)[fixed])), -spin(Mt), 1e-6, sc * onp.abs(P).max())
    mon.sig(et, name, 'reaction', k, case['petsc'])


RUN = dict(load=load, free=free, reaction=reaction)
