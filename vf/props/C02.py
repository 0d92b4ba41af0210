import numpy as onp
from vf import femutil as fu
from vf.refs import fv

LEVEL = 'exploration'
RULE = ('signature = dimension | linear/nonlinear | boundary types | solver options | grid class; counted when a residual, matrix or '
        'solution produced by the code was compared with the face-by-face reference')
ASSUMPTIONS = ['Dirichlet conductivity is evaluated at the boundary value, interior faces use the harmonic mean (documented: Patankar)',
               'solution tolerances follow the Krylov tolerance requested and the condition number of the reference matrix']
REQUIRED = {'geometry': 20, 'neighbours': 20, 'surfaces': 20, 'residual': 30, 'matrix': 15, 'preconditioner': 15, 'solution': 15,
            'flux-balance': 10, 'exact-linear': 5, 'exact-slab': 3, 'max-principle': 5, 'gauge': 3, 'nonlinear-solution': 5, 'units': 10, 'iterations': 5}


def cases(tier, seed):
    rng = onp.random.default_rng([seed, 5252])
    out = []
    for i in range(22 if tier == 'quick' else 240):
        out.append(dict(kind='linear', dim=2 + i % 2, seed=[int(seed), i], cost=3))
        out.append(dict(kind='nonlinear', dim=2 + i % 2, seed=[int(seed), 1000 + i], cost=4))
    for i, n in enumerate([(260, 130), (40, 33, 27), (3, 2, 5500), (11000, 3)]):
        out.append(dict(kind='large', n=list(n), seed=[int(seed), 5000 + i], cost=6))
    for i in range(6 if tier == 'quick' else 30):
        out.append(dict(kind='large', n=[int(k) for k in onp.random.default_rng([seed, i]).integers(1, 7, 3)], scale=[1e-6, 1e-3, 1e4][i % 3],
                        seed=[int(seed), 5100 + i], cost=1))
    return out


def large(case, mon):
    """Geometry, residual and an exact linear solution on grids with tens of thousands of cells and in any length unit."""
    fu.quiet()
    import jax.numpy as np
    from jax_am.cfd.cfd_am import poisson, mesh2d, mesh3d
    rng = onp.random.default_rng(case['seed'])
    n = case['n']
    L = rng.uniform(.7, 1.4, len(n)) * n / max(n) * case.get('scale', 1.)
    m, b = (mesh2d if len(n) == 2 else mesh3d)([float(x) for x in L], list(n)), fv.Box(L, n)
    mon.where = f'{b.N} size {L}'
    geometry(mon, m, b)
    mu = float(rng.uniform(.5, 2.))
    t, v = bcs(rng, b, True)
    g = rng.normal(size=b.n)
    p = poisson(m, mu=mu, source_fn=lambda u, a: a - u, bc_type=t, bc_value=[np.array(x) for x in v])
    U = rng.normal(size=b.n)
    r = fv.residual(b, U, g - U, mu, t, v)
    mon.close('residual', p.compute_residual(np.array(U), np.array(g)), r, 1e-9, onp.abs(r).max())
    p.newton_update(np.array(U), np.array(g))
    w = rng.normal(size=b.n)
    r2 = fv.residual(b, U + w, g - U - w, mu, t, v)
    mon.close('matrix', p.compute_linearized_residual(np.array(w)), r2 - r, 1e-9, onp.abs(r2 - r).max())
    mon.sig('large', b.N, case.get('scale', 1.))


def box(rng, dim):
    n = [int(k) for k in (rng.integers(2, 8, 2) if dim == 2 else rng.integers(1, 6, 3))]
    L = rng.uniform(.5, 3, dim) * n / onp.mean(n)
    from jax_am.cfd.cfd_am import mesh2d, mesh3d
    return (mesh2d if dim == 2 else mesh3d)([float(x) for x in L], list(n)), fv.Box(L, n)


def geometry(mon, m, b):
    mon.close('geometry', m.Xc, b.c, 1e-10, b.L.max())
    mon.close('geometry', m.dX, b.h, 1e-10, b.h.min())
    mon.close('geometry', [m.dV * m.cell_num], [b.L.prod()], 1e-10, b.L.prod())
    mon.check('geometry', list(m.shape) == b.N and m.cell_num == b.n and m.dim == b.d, 'shape')
    conn = onp.asarray(m.cell_conn)
    mon.equal('neighbours', conn[:, 0], onp.arange(b.n))
    for i in range(2 * b.d):
        ax, s = i // 2, 2 * (i % 2) - 1
        nb = onp.clip(onp.indices(b.N)[ax] + s, 0, b.N[ax] - 1)
        idx = list(onp.indices(b.N))
        idx[ax] = nb
        mon.equal('neighbours', conn[:, 1 + i], b.id[tuple(idx)].reshape(-1))
        cells, d, A = b.side(i)
        st = onp.asarray(m.surf_sets[i])
        mon.equal('surfaces', onp.asarray(m.surf_cell)[st], cells)
        x = b.c[cells].copy()
        x[:, ax] += s * b.h[ax] / 2
        mon.close('surfaces', onp.asarray(m.surface)[st], x, 1e-10, b.L.max())
        mon.close('surfaces', [float(m.D[i]) / d, float(m.dS[i]) / A, float(m.surf_set_num[i]) / len(cells)], [s, s, 1], 1e-10, 1.)
        mon.check('surfaces', (onp.asarray(m.surf_orient)[st] == i).all(), 'orientation tags')
    mon.equal('surfaces', onp.sort(onp.concatenate([onp.asarray(s) for s in m.surf_sets])), onp.arange(len(m.surf_cell)))


def bcs(rng, b, dirichlet=None, scale=1.):
    t = [int(x) for x in rng.integers(0, 2, 2 * b.d)]
    if dirichlet and 0 not in t:
        t[int(rng.integers(2 * b.d))] = 0
    v = [rng.normal(size=len(b.side(i)[0])) * scale for i in range(2 * b.d)]
    return t, v


def linear(case, mon):
    fu.quiet()
    import jax.numpy as np
    from jax_am.cfd.cfd_am import poisson, solver_linear
    rng = onp.random.default_rng(case['seed'])
    m, b = box(rng, case['dim'])
    mon.where = f'{b.N}'
    geometry(mon, m, b)
    mu = float(rng.uniform(.2, 3))
    t, v = bcs(rng, b, True)
    g = rng.normal(size=b.n)
    s = rng.uniform(0, 2, b.n) * (rng.random() < .6)
    src = lambda u, a, k: a - k * u
    jv = [np.array(x) for x in v]
    style = int(rng.integers(2))
    p = poisson(m, mu=mu, source_fn=src, bc_type=t, bc_value=jv) if style else poisson(m, mu=mu, source_fn=src)
    if not style:
        p.set_bc(t, jv)
    f = lambda U: fv.residual(b, U, g - s * U, mu, t, v)
    mon.where = f'{b.N} types {t} reaction {bool(s.any())}'
    for _ in range(2):
        U = rng.normal(size=b.n)
        r = f(U)
        mon.close('residual', p.compute_residual(np.array(U), np.array(g), np.array(s)), r, 1e-9, onp.abs(r).max() + 1.)
    A = fv.jacobian(f, onp.zeros(b.n), lin=True)
    U = rng.normal(size=b.n)
    p.newton_update(np.array(U), np.array(g), np.array(s))
    w = rng.normal(size=b.n)
    mon.close('matrix', p.compute_linearized_residual(np.array(w)), A @ w, 1e-9, onp.abs(A).max() * b.n**.5)
    mon.close('preconditioner', p.jacobiPreconditioner(np.array(w)), w / onp.diag(A), 1e-9)
    x = onp.linalg.solve(A, -f(onp.zeros(b.n)))
    cond = onp.linalg.cond(A)
    pre = bool(rng.random() < .5)
    tol = float(rng.choice([1e-6, 1e-10]))
    got = onp.asarray(solver_linear(p, np.array(g), np.array(s), tol=tol, precond=pre))
    sc = onp.abs(x).max() + 1e-3
    mon.close('solution', got, x, 10 * tol * max(cond, 10.) + 1e-8, sc, detail=f'tol {tol} precond {pre}')
    again = onp.asarray(solver_linear(p, np.array(g) * 2, np.array(s), tol=tol, precond=pre, update=False))
    g2 = 2 * g
    x2 = onp.linalg.solve(A, -fv.residual(b, onp.zeros(b.n), g2, mu, t, v))
    mon.close('solution', again, x2, 10 * tol * max(cond, 10.) + 1e-8, onp.abs(x2).max() + 1e-3, detail='reused matrix')
    # exact linear field, any mixture of conditions
    a, c0 = rng.normal(size=b.d), rng.normal()
    ev = []
    for i in range(2 * b.d):
        ax, sg = i // 2, 2 * (i % 2) - 1
        X = b.c[b.side(i)[0]].copy()
        X[:, ax] += sg * b.h[ax] / 2
        ev.append(np.array(X @ a + c0 if t[i] == 0 else onp.full(len(X), mu * sg * a[ax])))
    p.set_bc(t, ev)
    z = np.zeros(b.n)
    u = onp.asarray(solver_linear(p, z, z, tol=1e-12, precond=True))
    mon.close('exact-linear', u, b.c @ a + c0, 1e-6 * max(1, cond * 1e-6), onp.abs(u).max() + 1)
    # net flux through the walls equals the production inside
    p.set_bc(t, jv)
    u = onp.asarray(solver_linear(p, np.array(g), z, tol=1e-12, precond=True))
    tot = g.sum() * b.V
    for i in range(2 * b.d):
        cc, d, Ar = b.side(i)
        tot += (mu * 2 * (v[i] - u[cc]) / d * Ar).sum() if t[i] == 0 else (v[i] * Ar).sum()
    mon.close('flux-balance', [tot], [0.], 1e-6 * max(1, cond * 1e-6), onp.abs(g).sum() * b.V + 10 * mu)
    # maximum principle
    tt = [1 if q else 0 for q in t]
    vv = [np.array(x if q == 0 else 0 * x) for x, q in zip(v, tt)]
    p.set_bc(tt, vv)
    u = onp.asarray(solver_linear(p, z, z, tol=1e-12, precond=True))
    lo, hi = min(x.min() for x, q in zip(v, tt) if q == 0), max(x.max() for x, q in zip(v, tt) if q == 0)
    mon.check('max-principle', u.min() >= lo - 1e-6 * (1 + abs(lo)) and u.max() <= hi + 1e-6 * (1 + abs(hi)), f'{u.min()} {u.max()} outside {lo} {hi}')
    # pure Neumann problem, gauge cell 0
    if b.d == 3 and b.n > 1:
        q = rng.normal(size=b.n)
        q -= q.mean()
        pn = poisson(m, mu=mu, source_fn=lambda u_, a_: a_)
        An = fv.jacobian(lambda U_: fv.residual(b, U_, 0 * q, mu, None, None), onp.zeros(b.n), lin=True)
        xn = onp.linalg.lstsq(An, -fv.residual(b, onp.zeros(b.n), q, mu, None, None), rcond=None)[0]
        ev_ = onp.sort(onp.linalg.eigvalsh(An))
        cn = ev_[-1] / max(ev_[1], 1e-300)
        got = onp.asarray(solver_linear(pn, np.array(q), tol=1e-10))
        mon.close('gauge', got - got.mean(), xn - xn.mean(), 1e-8 * max(10, cn), onp.abs(xn - xn.mean()).max() + 1e-6)
        got = onp.asarray(solver_linear(pn, np.array(q), tol=1e-10, relative=True, precond=bool(rng.random() < .5)))
        mon.close('gauge', [got[0]], [0.], 1e-6, onp.abs(xn).max() + 1e-6)
        mon.close('gauge', got - got.mean(), xn - xn.mean(), 1e-7 * max(10, cn * b.n), onp.abs(xn - xn.mean()).max() + 1e-6)
    mon.sig('linear', b.d, tuple(t), bool(s.any()), pre, tol, 1 in b.N)


def nonlinear(case, mon):
    fu.quiet()
    import jax.numpy as np
    from jax_am.cfd.cfd_am import poisson, solver_nonlinear
    rng = onp.random.default_rng(case['seed'])
    m, b = box(rng, case['dim'])
    a0, a1 = rng.uniform(.5, 2), rng.uniform(-.2, .4)
    mk = lambda xp: (lambda u: a0 * xp.exp(a1 * xp.clip(u, -3., 3.)))
    mu_n, mu_j = mk(onp), mk(np)
    t, v = bcs(rng, b, True, .7)
    g, s = rng.normal(size=b.n), rng.uniform(0, 1, b.n)
    src_n = lambda u: g - s * (u - .3 * onp.sin(u))
    p = poisson(m, nonlinear=True, mu_fn=mu_j, source_fn=lambda u, a, k: a - k * (u - .3 * np.sin(u)), bc_type=t, bc_value=[np.array(x) for x in v])
    f = lambda U: fv.residual(b, U, src_n(U), mu_n, t, v)
    mon.where = f'{b.N} types {t} nonlinear'
    ga, sa = np.array(g), np.array(s)
    U = rng.normal(size=b.n)
    r = f(U)
    mon.close('residual', p.compute_residual(np.array(U), ga, sa), r, 1e-9, onp.abs(r).max() + 1)
    p.newton_update(np.array(U), ga, sa)
    J = fv.jacobian(f, U)
    w = rng.normal(size=b.n)
    mon.close('matrix', p.compute_linearized_residual(np.array(w)), J @ w, 1e-5, onp.abs(J).max() * b.n**.5)
    mon.close('preconditioner', p.jacobiPreconditioner(np.array(w)), w / onp.diag(J), 1e-4)
    U0 = rng.normal(size=b.n) * .3
    x = fv.newton(f, U0)
    r0 = onp.linalg.norm(f(U0))
    pre = bool(rng.random() < .5)
    got, it = solver_nonlinear(p, ga, sa, init=np.array(U0), precond=pre)
    got = onp.asarray(got)
    mon.check('iterations', 0 <= int(it) < 50, f'{it} iterations')
    mon.le('nonlinear-solution', onp.linalg.norm(f(got)), 1.1e-5 * r0, 1e-12)
    Ji = onp.linalg.inv(fv.jacobian(f, x))
    mon.close('nonlinear-solution', got, x, 1., onp.linalg.norm(Ji, 2) * r0 * 3e-5 + 1e-9)
    tight, it2 = solver_nonlinear(p, ga, sa, init=np.array(U0), tol=1e-10, precond=pre)
    mon.close('nonlinear-solution', tight, x, 1., onp.linalg.norm(Ji, 2) * r0 * 3e-10 + 1e-8)
    mon.check('iterations', int(it2) >= int(it), 'a tighter tolerance used fewer iterations')
    again, it3 = solver_nonlinear(p, ga, sa, init=np.array(U0), max_it=1, tol=0., precond=pre)
    mon.check('iterations', int(it3) == 1, f'{it3} iterations with max_it=1')
    # the same problem in other units (conductivities, fluxes and sources times z): same solution
    z = [1e-8, 1e6][int(rng.integers(2))]
    pz = poisson(m, nonlinear=True, mu_fn=lambda u: z * mu_j(u), source_fn=lambda u, a, k: z * (a - k * (u - .3 * np.sin(u))), bc_type=t,
                 bc_value=[np.array(x if q == 0 else z * x) for x, q in zip(v, t)])
    got, it = solver_nonlinear(pz, ga, sa, init=np.array(U0), precond=pre)
    mon.le('units', onp.linalg.norm(f(onp.asarray(got))), 1.1e-5 * r0, 1e-12)
    mon.close('units', got, x, 1., onp.linalg.norm(Ji, 2) * r0 * 3e-5 + 1e-9)
    # layered conductor: series resistance gives the exact temperature (harmonic mean)
    if case['dim'] == 3:
        ax = int(rng.integers(3))
        from jax_am.cfd.cfd_am import mesh3d
        n = [1, 1, 1]
        n[ax] = 12
        L = [.3, .4, .5]
        mm = mesh3d(L, n)
        q = float(rng.uniform(.5, 2))
        hh = L[ax] / 12
        kf = lambda xp: (lambda u: 1. + 2. * u**2)
        bt = [1] * 6
        bt[2 * ax] = 0
        bv = [np.zeros(1 if i // 2 == ax else 12) for i in range(6)]
        bv[2 * ax + 1] = np.array([q])
        bv[2 * ax] = np.array([0.])
        pl = poisson(mm, nonlinear=True, mu_fn=kf(np), source_fn=lambda u: 0. * u, bc_type=bt, bc_value=bv)
        got, _ = solver_nonlinear(pl, init=np.array(onp.linspace(0, q * L[ax], 12)), tol=1e-9)
        got = onp.asarray(got)
        kk = kf(onp)(got)
        T = [q * hh / 2 / 1.]
        for i in range(11):
            T.append(T[-1] + q * hh * .5 * (1 / kk[i] + 1 / kk[i + 1]))
        mon.close('exact-slab', got, T, 1e-6, max(T))
    mon.sig('nonlinear', b.d, tuple(t), pre, int(it), 1 in b.N)


RUN = dict(large=large, linear=linear, nonlinear=nonlinear)
