import itertools
import numpy as onp
from vf.refs import fe, pf
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = driver | orientation class | step | slip regime (elastic, few, many active systems); counted when the state and '
        'stress returned by the model were tested against the flow, hardening and elasticity equations')
ASSUMPTIONS = ['constants of the model: C11/C12/C44 = 168.4/121.4/75.4 GPa, g0 60.8, h 541.5, saturation 109.8, exponents 0.1 and 2.5, rate 0.001',
               'the slip-system file (not part of the repository) holds the 12 FCC systems, normal then direction, three per normal',
               'steps of at most 0.2 % strain']
REQUIRED = {'flow-rule': 20, 'hardening': 20, 'plastic-deformation': 20, 'stress': 20, 'dissipation': 20, 'objectivity': 4, 'crystal-frame': 4,
            'cubic-symmetry': 4, 'elastic-limit': 4, 'tangent': 4, 'equilibrium': 2, 'history-untouched': 4, 'average': 2, 'slip-seen': 1}
C11, C12, C44 = 1.684e5, 1.214e5, .754e5
G0, H0, TS, GA, A0, XM = 60.8, 541.5, 109.8, 2.5, .001, .1


def slip_table():
    out = []
    for n in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)):
        for d in ((0, 1, -1), (1, 0, -1), (1, -1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)):
            if sum(a * b for a, b in zip(n, d)) == 0:
                out.append(list(n) + list(d))
    return onp.array(out, float)


def stiffness():
    C = onp.zeros((3,) * 4)
    for i, j in itertools.product(range(3), repeat=2):
        if i == j:
            C[i, i, i, i] = C11
        else:
            C[i, i, j, j] = C12
            C[i, j, i, j] = C[i, j, j, i] = C44
    return C


TAB = slip_table()
SCHMID = onp.einsum('sa,sb->sab', TAB[:, 3:] / 2**.5, TAB[:, :3] / 3**.5)
CC = stiffness()


def quat_mat(q):
    w, x, y, z = q
    return onp.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                      [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                      [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def make(mesh, et, quat, inds, dbc=None):
    from unittest import mock
    from applications.fem.crystal_plasticity import models as M
    real = onp.loadtxt

    def load(path, *a, **k):
        return TAB.copy() if str(path).endswith('input_slip_sys.txt') else real(path, *a, **k)
    with mock.patch.object(onp, 'loadtxt', load):
        return M.CrystalPlasticity(mesh, vec=3, dim=3, ele_type=et, dirichlet_bc_info=dbc, additional_info=(quat, inds))


def laws(mon, g, old, new, P, dt, tol=1e-6):
    """Every accepted point satisfies the model equations; arguments are batched (n, ...)."""
    Fp0, g0, s0, R0 = [onp.asarray(v) for v in old]
    Fp1, g1, s1, R1 = [onp.asarray(v) for v in new]
    n = len(g)
    F = onp.asarray(g) + onp.eye(3)
    M = onp.einsum('nia,njb,sab->nsij', R0, R0, SCHMID)
    dg = s1 - s0
    Fe = F @ Fp1
    E = .5 * (onp.swapaxes(Fe, -1, -2) @ Fe - onp.eye(3))
    El = onp.einsum('nia,njb,nij->nab', R0, R0, E)
    S = onp.einsum('nia,njb,nab->nij', R0, R0, onp.einsum('abcd,ncd->nab', CC, El))
    tau = onp.einsum('nij,nsij->ns', S, M)
    want = A0 * dt * onp.abs(tau / g0)**(1 / XM) * onp.sign(tau)
    mon.equal('history-untouched', R1, R0, 'orientation changed')
    mon.close('flow-rule', dg, want, 2e-6, max(onp.abs(want).max(), 1e-9))
    hard = H0 * onp.abs(dg) * onp.abs(1 - g0 / TS)**GA * onp.sign(1 - g0 / TS)
    mon.close('hardening', g1 - g0, onp.repeat(hard.sum(1)[:, None], 12, 1), 1e-8, max(onp.abs(hard).max(), 1e-6))
    mon.close('plastic-deformation', Fp1, Fp0 @ (onp.eye(3) - onp.einsum('ns,nsij->nij', dg, M)), 1e-10, 1.)
    sig = Fe @ S @ onp.swapaxes(Fe, -1, -2) / onp.linalg.det(Fe)[:, None, None]
    Pw = onp.linalg.det(F)[:, None, None] * sig @ onp.swapaxes(onp.linalg.inv(F), -1, -2)
    mon.close('stress', P, Pw, tol, max(onp.abs(Pw).max(), 1.))
    mon.le('dissipation', -(tau * dg).sum(1), 0., 1e-9)
    act = (onp.abs(dg) > 1e-6).sum(1)
    mon.event('slip-seen', int(act.sum()))
    return sig, int(act.max())


def cubic(rng):
    while True:
        p = rng.permutation(3)
        G = onp.zeros((3, 3))
        G[onp.arange(3), p] = rng.choice([-1, 1], 3)
        if onp.linalg.det(G) > 0:
            return G


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    for i in range(4 * k):
        out.append(dict(kind='point', steps=6 if tier == 'quick' else 14, seed=[int(seed), i], cost=14, hang=400))
    for i in range(2 * k):
        out.append(dict(kind='solve', et=['HEX8', 'TET4'][(i + seed) % 2], petsc=bool((i + seed + i // 2) % 2), steps=1 if tier == 'quick' else 4,
                        seed=[int(seed), 50 + i], cost=18, hang=400))
    return out


def point(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    rng = onp.random.default_rng(case['seed'])
    P0, C0, *_ = fe.make_mesh('TET4', (1, 1, 1), rng)
    q = pf.rotations(rng, 4)
    pr = make(Mesh(P0, C0, 'TET4'), 'TET4', np.array(q), rng.integers(0, 4, len(C0)))
    tm, um = pr.get_maps()
    dt = float(rng.choice([.02, .1, .5]))
    pr.dt = dt
    both = jax.jit(jax.vmap(lambda g, *v: (tm(g, *v), um(g, *v))))
    n = 12
    qs = pf.rotations(rng, n)
    R = onp.array([quat_mat(x) for x in qs])
    R[0] = onp.eye(3)
    # the model's own rotation matrices
    mon.close('crystal-frame', pr.internal_vars['laplace'][3][:, 0], onp.array([quat_mat(x) for x in q])[onp.asarray(cell_inds(pr, q))], 1e-9, 1.)
    gi = onp.full((n, 12), G0)
    gi[n // 2:] = rng.uniform(G0, 125., (n - n // 2, 12))         # hardened, and beyond saturation
    st = [onp.tile(onp.eye(3), (n, 1, 1)), gi, onp.zeros((n, 12)), R]
    rate = rng.normal(size=(n, 3, 3)) * 5e-4
    g = onp.zeros((n, 3, 3))
    # below any slip: linear cubic elasticity in the crystal frame
    e = rng.normal(size=(n, 3, 3)) * 1e-7
    Pe, _ = both(np.array(e), *map(np.array, st))
    sy = .5 * (e + onp.swapaxes(e, -1, -2))
    loc = onp.einsum('nia,njb,nij->nab', R, R, sy)
    want = onp.einsum('nia,njb,nab->nij', R, R, onp.einsum('abcd,ncd->nab', CC, loc))
    mon.close('elastic-limit', Pe, want, 1e-5, onp.abs(want).max())
    for k in range(case['steps']):
        mon.where = f'step {k} dt {dt}'
        if k in (3, 7):
            rate = -rate if k == 3 else rng.normal(size=(n, 3, 3)) * 5e-4
        g = g + rate
        P, new = both(np.array(g), *map(np.array, st))
        new = [onp.asarray(v) for v in new]
        if not mon.check('stress', onp.isfinite(onp.asarray(P)).all(), 'non-finite stress'):
            return
        _, act = laws(mon, g, st, new, P, dt)
        mon.sig('point', dt, k, min(act, 6))
        if k in (1, case['steps'] - 1):
            Q = onp.array([quat_mat(x) for x in pf.rotations(rng, n)])
            Qt = onp.swapaxes(Q, -1, -2)
            F = g + onp.eye(3)
            P2, n2 = both(np.array(Q @ F - onp.eye(3)), *map(np.array, st))
            sc = max(onp.abs(onp.asarray(P)).max(), 1.)
            mon.close('objectivity', P2, Q @ onp.asarray(P), 1e-6, sc)
            mon.close('objectivity', n2[2], new[2], 1e-6, max(onp.abs(new[2]).max(), 1e-6))
            P3, n3 = both(np.array(Q @ F @ Qt - onp.eye(3)), np.array(Q @ st[0] @ Qt), np.array(st[1]), np.array(st[2]), np.array(Q @ R))
            mon.close('crystal-frame', P3, Q @ onp.asarray(P) @ Qt, 1e-6, sc)
            mon.close('crystal-frame', n3[2], new[2], 1e-6, max(onp.abs(new[2]).max(), 1e-6))
            # crystal symmetries: with equal resistances the response cannot tell equivalent orientations apart
            G = onp.array([cubic(rng) for _ in range(n)])
            fresh = [st[0], onp.full((n, 12), 80.), onp.zeros((n, 12))]
            Pa, na = both(np.array(g), *map(np.array, fresh), np.array(R))
            Pb, nb = both(np.array(g), *map(np.array, fresh), np.array(R @ G))
            mon.close('cubic-symmetry', Pb, Pa, 1e-6, max(onp.abs(onp.asarray(Pa)).max(), 1.))
            mon.close('cubic-symmetry', onp.sort(onp.abs(nb[2])), onp.sort(onp.abs(na[2])), 1e-6, max(onp.abs(onp.asarray(na[2])).max(), 1e-6))
            # consistent tangent
            d = rng.normal(size=(n, 3, 3)) * 1e-4
            jv = jax.jit(jax.vmap(lambda a, b, *v: jax.jvp(lambda z: tm(z, *v), (a,), (b,))[1]))(np.array(g), np.array(d), *map(np.array, st))
            ep = 2e-3
            fd = (onp.asarray(both(np.array(g + ep * d), *map(np.array, st))[0]) - onp.asarray(both(np.array(g - ep * d), *map(np.array, st))[0])) / (2 * ep)
            mon.close('tangent', jv, fd, 2e-3, max(onp.abs(fd).max(), 1e-3))
        st = new


def cell_inds(pr, q):
    """Orientation of each cell, recovered from the rotation stored in it."""
    Rq = onp.array([quat_mat(x) for x in q])
    Rc = onp.asarray(pr.internal_vars['laplace'][3])[:, 0]
    return onp.abs(Rc[:, None] - Rq[None]).sum((-1, -2)).argmin(1)


def solve(case, mon):
    """Pulled polycrystals: equilibrium of the stress that satisfies the laws, history committed only on request."""
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    et = case['et']
    P, C, U, A, b = fe.make_mesh(et, (2, 1, 1), rng, jitter=.1, affine=False, lengths=rng.uniform(.8, 1.2, 3))
    q = pf.rotations(rng, 3)
    inds = rng.integers(0, 3, len(C))
    cur = {'v': 0.}

    def info():
        v = cur['v']
        return [[fu.side_fn(A, b, 0, 0)] * 3 + [fu.side_fn(A, b, 0, 1)], [0, 1, 2, 0], [lambda x: 0.] * 3 + [lambda x: v]]
    pr = make(Mesh(P, C, et), et, np.array(q), inds, info())
    cnt = fu.bound_newton(pr, 40)
    w = onp.asarray(pr.JxW)
    nc, nq = w.shape
    xq = onp.asarray(pr.get_physical_quad_points())
    G = onp.array([fe.geom(et, P[C[c]], fe.inverse_map(et, P[C[c]], xq[c]))[2] for c in range(nc)])
    Rw = onp.array([quat_mat(x) for x in q])[inds]
    params = pr.internal_vars['laplace']
    mon.close('crystal-frame', params[3], onp.repeat(Rw[:, None], nq, 1), 1e-9, 1.)
    flat = lambda v: onp.asarray(v).reshape((nc * nq,) + onp.asarray(v).shape[2:])
    mon.close('history-untouched', flat(params[0]), onp.tile(onp.eye(3), (nc * nq, 1, 1)), 1e-12, 1.)
    if rng.random() < .8:       # a body with a past: plastically deformed, unevenly hardened
        Fh = onp.eye(3) + rng.normal(size=(nc, nq, 3, 3)) * 2e-4
        params = [np.array(Fh), np.array(rng.uniform(G0, 120., (nc, nq, 12))), np.array(rng.normal(size=(nc, nq, 12)) * 1e-3), params[3]]
        pr.set_params(params)
    fixed = onp.abs(U[:, 0]) < 1e-9
    loaded = onp.abs(U[:, 0] - 1) < 1e-9
    dt = .1
    pr.dt = dt
    tm, _ = pr.get_maps()
    for k in range(case['steps']):
        cur['v'] = float(onp.ptp(P[:, 0]) * (1.2e-3 + k * 6e-4))
        pr.update_Dirichlet_boundary_conditions(info())
        cnt['n'] = 0
        keep = [onp.array(v) for v in params]
        sol = solver(pr, use_petsc=case['petsc'])
        u = onp.asarray(sol)
        mon.where = f'{et} step {k}'
        for a, v in zip(keep, params):
            mon.equal('history-untouched', onp.asarray(v), a, 'solving changed the history')
        g = onp.einsum('cnv,cqnd->cqvd', u[C], G)
        new = pr.update_int_vars_gp(sol, params)
        for a, v in zip(keep, params):
            mon.equal('history-untouched', onp.asarray(v), a, 'evaluating the update changed the history')
        Pk = jax.jit(jax.vmap(tm))(np.array(flat(g)), *[np.array(flat(v)) for v in params])
        sig, act = laws(mon, flat(g), [flat(v) for v in params], [flat(v) for v in new], Pk, dt)
        f = onp.einsum('cqvd,cqnd,cq->cnv', onp.asarray(Pk).reshape(nc, nq, 3, 3), G, w)
        R = onp.zeros_like(P)
        onp.add.at(R, C, f)
        R[fixed] = 0.
        R[loaded, 0] = 0.
        mon.close('equilibrium', R, onp.zeros_like(R), 1e-5, 1.)
        avg = onp.einsum('cqij,cq->cij', sig.reshape(nc, nq, 3, 3), w) / w.sum(1)[:, None, None]
        mon.close('average', pr.compute_avg_stress(sol, params), avg, 1e-6, max(onp.abs(avg).max(), 1.))
        params = new
        pr.set_params(params)
        mon.sig('solve', et, k, case['petsc'], min(act, 6))


RUN = dict(point=point, solve=solve)
