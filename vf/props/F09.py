import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = driver | element type | step number | regime reached (elastic, loading, unloading, reverse yielding); counted '
        'when the stress state after a step was compared with the lock-step return-mapping reference')
ASSUMPTIONS = ['perfect J2 plasticity with the constants in the model: E=70e3, nu=0.3, yield stress 250, one return per accepted step',
               'three-dimensional states']
REQUIRED = {'stress-history': 20, 'yield-surface': 20, 'dissipation': 20, 'volumetric-elastic': 20, 'forces-from-history': 10,
            'trial-does-not-commit': 10, 'average': 20, 'uniaxial': 4, 'plastic-points-seen': 1, 'unloading-points-seen': 1}
E_, NU, SY = 70e3, .3, 250.
MU, LM = E_ / (2 * (1 + NU)), E_ * NU / ((1 + NU) * (1 - 2 * NU))


def cases(tier, seed):
    out = []
    reps = 1 if tier == 'quick' else 6
    for r in range(reps):
        for i, et in enumerate(['HEX8', 'TET4', 'TET10', 'HEX8', 'HEX20', 'TET4']):
            out.append(dict(kind='driven', et=et, steps=8 if tier == 'quick' else 14, seed=[int(seed), r, i], cost=9))
        for i, et in enumerate(['HEX8', 'TET4']):
            out.append(dict(kind='uniaxial', et=et, seed=[int(seed), r, 40 + i], petsc=bool((i + seed) % 2), cost=14))
    return out


def hooke(e):
    return LM * onp.trace(e, axis1=-2, axis2=-1)[..., None, None] * onp.eye(3) + 2 * MU * e


def dev(s):
    return s - onp.trace(s, axis1=-2, axis2=-1)[..., None, None] * onp.eye(3) / 3


def vm(s):
    x = dev(s)
    return onp.sqrt(1.5 * onp.einsum('...ij,...ij->...', x, x))


def ret(e, s0, e0):
    st = s0 + hooke(e - e0)
    q = vm(st)[..., None, None]
    f = onp.where(q > SY, 1 - SY / onp.where(q > 0, q, 1.), 0.)
    return st - f * dev(st)


class State:
    def __init__(self, et, P, C, pr):
        self.xq = onp.asarray(pr.get_physical_quad_points())
        self.w = onp.asarray(pr.JxW)
        self.C, self.P = C, P
        self.G = onp.array([fe.geom(et, P[C[c]], fe.inverse_map(et, P[C[c]], self.xq[c]))[2] for c in range(len(C))])
        self.e = onp.zeros(self.w.shape + (3, 3))
        self.s = onp.zeros(self.w.shape + (3, 3))

    def strain(self, u):
        g = onp.einsum('cnv,cqnd->cqvd', u[self.C], self.G)
        return .5 * (g + onp.swapaxes(g, -1, -2))

    def trial(self, u):
        return ret(self.strain(u), self.s, self.e)

    def forces(self, s):
        f = onp.einsum('cqvd,cqnd,cq->cnv', s, self.G, self.w)
        R = onp.zeros_like(self.P)
        onp.add.at(R, self.C, f)
        return R

    def commit(self, u):
        s = self.trial(u)
        self.e, self.s = self.strain(u), s

    def avg(self):
        return onp.einsum('cqij,cq->ij', self.s, self.w) / self.w.sum()


def driven(case, mon):
    """Prescribed displacement histories: load, unload, reverse and rotate the load, with rejected trial states in between."""
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.models import Plasticity
    rng = onp.random.default_rng(case['seed'])
    et = case['et']
    P, C, U, A, b = fe.make_mesh(et, (2, 1, 1), rng, jitter=.15, lengths=rng.uniform(.8, 1.3, 3))
    pr = Plasticity(Mesh(P, C, et), vec=3, dim=3, ele_type=et)
    st = State(et, P, C, pr)
    u = onp.zeros_like(P)
    mode = rng.normal(size=(3, 3)) * 2e-3
    pert = rng.normal(size=P.shape) * 4e-4
    # (factor, new mode): tiny plastic increments follow a large one (yielding must not have a dead band)
    path = [(.3, 0), (1.5, 0), (1.5004, 0), (1.5009, 0), (1.2, 1), (-1., 0), (-2.5, 0), (0., 1), (1., 0), (3., 0), (2.9, 1), (-3., 0), (-3.0003, 0), (0., 0)]
    for k in range(case['steps']):
        mon.where = f'{et} step {k}'
        a, fresh = path[k]
        if fresh:
            mode = mode + rng.normal(size=(3, 3)) * 5e-4
            pert = rng.normal(size=P.shape) * 4e-4
        u = a * (P @ mode.T + pert)
        # rejected trial states leave no trace
        bad = rng.normal(size=P.shape) * 1e-2
        R1 = onp.asarray(pr.compute_residual(np.array(bad)))
        mon.close('forces-from-history', R1, st.forces(st.trial(bad)), 1e-8)
        Ra = onp.asarray(pr.compute_residual(np.array(u)))
        want = st.forces(st.trial(u))
        mon.close('trial-does-not-commit', Ra, want, 1e-8, max(onp.abs(want).max(), 1.))
        s0, e0 = st.s.copy(), st.e.copy()
        pr.update_stress_strain(np.array(u))
        st.commit(u)
        mon.close('average', pr.compute_avg_stress(), st.avg(), 1e-9, max(onp.abs(st.s).max(), 1.))
        # stress state seen by the next step: nodal forces of an unchanged displacement
        sg, eg = [onp.asarray(v) for v in pr.internal_vars['laplace']]
        mon.close('stress-history', sg, st.s, 1e-9, max(onp.abs(st.s).max(), 1.))
        mon.close('stress-history', eg, st.e, 1e-9, max(onp.abs(st.e).max(), 1e-6))
        Rb = onp.asarray(pr.compute_residual(np.array(u)))
        mon.close('forces-from-history', Rb, st.forces(st.s), 1e-8, max(onp.abs(Rb).max(), 1.), detail='after commit')
        mon.le('yield-surface', vm(sg), SY, 1e-7 * SY)
        de = st.e - e0
        dep = de - (sg - s0 - onp.trace(sg - s0, axis1=-2, axis2=-1)[..., None, None] * onp.eye(3) * LM / (3 * LM + 2 * MU)) / (2 * MU)
        diss = onp.einsum('cqij,cqij->cq', sg, dep)
        mon.le('dissipation', -diss, 0., 1e-9)
        mon.close('volumetric-elastic', onp.trace(sg, axis1=-2, axis2=-1), (3 * LM + 2 * MU) * onp.trace(st.e, axis1=-2, axis2=-1), 1e-9, max(onp.abs(sg).max(), 1.))
        pl = diss > 1e-9
        mon.event('plastic-points-seen', int(pl.sum()))
        mon.event('unloading-points-seen', int(((vm(s0) > SY * .999) & ~pl).sum()))
        mon.sig('driven', et, k, 'plastic' if pl.all() else 'mixed' if pl.any() else 'elastic')


def uniaxial(case, mon):
    """Solved cycles: roller-supported block pulled and pushed; every point carries the uniaxial perfect-plastic stress."""
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.models import Plasticity
    from jax_am.fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    et = case['et']
    L = rng.uniform(.8, 1.4, 3)
    P, C, U, A, b = fe.make_mesh(et, (2, 1, 1), rng, jitter=.1, affine=False, lengths=L)
    ax = int(rng.integers(3))
    others = [i for i in range(3) if i != ax]
    cur = {'v': 0.}
    sf = lambda a, s: fu.side_fn(A, b, a, s)

    def info():
        v = cur['v']
        return [[sf(ax, 0), sf(ax, 1), sf(others[0], 0), sf(others[1], 0)], [ax, ax, others[0], others[1]],
                [lambda x: 0., lambda x: v, lambda x: 0., lambda x: 0.]]
    pr = Plasticity(Mesh(P, C, et), vec=3, dim=3, ele_type=et, dirichlet_bc_info=info())
    fu.bound_newton(pr, 80)
    ey = SY / E_
    sig, e0 = 0., 0.
    path = onp.cumsum([.6, .9, -.7, -1.2, -1.5, .8, 1.9])[:5 if case['petsc'] else 6] * rng.uniform(.9, 1.1)
    st = fu.bound_newton(pr, 400)
    for k, x in enumerate(path):
        e1 = x * ey
        cur['v'] = float(e1 * L[ax])
        pr.update_Dirichlet_boundary_conditions(info())
        st['n'] = 0
        sol = solver(pr, use_petsc=case['petsc'])
        pr.update_stress_strain(sol)
        sig = float(onp.clip(sig + E_ * (e1 - e0), -SY, SY))
        e0 = e1
        want = onp.zeros((3, 3))
        want[ax, ax] = sig
        mon.where = f'{et} axis {ax} step {k} strain {x:.3f} ey'
        mon.close('uniaxial', pr.compute_avg_stress(), want, 2e-4, SY)
        sg = onp.asarray(pr.internal_vars['laplace'][0])
        mon.close('uniaxial', sg, onp.broadcast_to(want, sg.shape), 1e-3, SY)
        mon.sig('uniaxial', et, k, 'yield' if abs(abs(sig) - SY) < 1e-9 else 'elastic', case['petsc'])


RUN = dict(driven=driven, uniaxial=uniaxial)
