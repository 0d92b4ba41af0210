import numpy as onp
import scipy.sparse as sp
from vf.refs import fe
from vf import femutil as fu, weak

LEVEL = 'exploration'
RULE = ('signature = wrapper | linear solver | element type | vec | symmetric tangent? | parameter leaf | call history; counted '
        'when a derivative reported by the wrapper was compared with differences of the reference objective')
ASSUMPTIONS = ['reference objective: numpy assembly solved to 1e-11, central differences along random directions',
               'tolerance 1e-4 relative for JAX linear solves, 5e-3 for PETSc (rtol 1e-5)']
REQUIRED = {'value': 8, 'reverse': 20, 'forward': 3, 'hessian-vector': 1, 'stale-pullback': 3, 'vjp-linear': 4}


def cases(tier, seed):
    out = []
    rng = onp.random.default_rng([seed, 707])
    reps = 1 if tier == 'quick' else 5
    for r in range(reps):
        for i, (et, vec, petsc) in enumerate([('QUAD4', 1, False), ('TRI3', 2, True), ('HEX8', 1, True), ('QUAD4', 2, True),
                                              ('TRI6', 1, False), ('TET4', 1, True), ('QUAD8', 1, True)]):
            out.append(dict(kind='vjp', et=et, vec=vec, petsc=petsc, sym=bool((i + seed + r) % 2), lin=bool(rng.random() < .3),
                            cauchy=bool(rng.random() < .5), seed=[int(seed), r, i], cost=15))
        for i, (et, vec) in enumerate([('QUAD4', 1), ('TRI3', 2), ('QUAD4', 2)]):
            out.append(dict(kind='jvp', et=et, vec=vec, petsc=bool(i % 2), sym=bool((i + seed) % 2), lin=False, cauchy=False, hess=(i == 0),
                            seed=[int(seed), r, 30 + i], cost=30 if i == 0 else 20))
    return out


def build(case, rng):
    jax, np, FEM, Mesh = fu.mods()
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    n = {2: (3, 2, 1), 3: (2, 1, 1)}[d]
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=.15, lengths=rng.uniform(.8, 1.3, d))
    lin = case['lin']
    f = weak.Form(vec, d, rng, spd=case['sym'], beta=0. if lin else .15, c=0. if lin else .3, nl_cauchy=not lin)
    base = weak.make_class(FEM, np, f)
    D = fu.side_fn(A, b, 0, 0)
    nn = int((onp.abs(U[:, 0]) < 1e-9).sum())
    ns = [fu.side_fn(A, b, 1, 1)]
    cs = [fu.side_fn(A, b, 0, 1)] if case['cauchy'] else []

    class M(base):
        def set_params(self, p):
            nc, nq = len(self.cells), self.num_quads
            k = np.tile(p['k'][:, None], (1, nq))
            self.internal_vars['laplace'] = [k, np.zeros((nc, nq, vec, d))]
            self.internal_vars['mass'] = [np.tile(p['s'], (1, nq, 1))]
            nf = len(self.neumann_boundary_inds_list[0])
            fq = self.face_shape_vals.shape[1]
            self.internal_vars['neumann'] = [[np.tile(p['t'][None, None, :], (nf, fq, 1))]]
            self.vals_list[0] = p['b']
    pr = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
           dirichlet_bc_info=[[D] * vec, list(range(vec)), [lambda x: .1] * vec],
           neumann_bc_info=[ns, [lambda x, *v: f.neumann(np, x, 0, *v)]],
           cauchy_bc_info=[cs, [lambda u: f.cauchy(np, u, 0)]] if cs else None,
           source_info=lambda x: f.source(np, x))
    ref = weak.Ref(et, P, C, vec, f, pr, cs, ns)
    params = dict(k=rng.uniform(.3, 1.5, len(C)), s=rng.normal(size=(len(C), 1, vec)) * .5, t=rng.normal(size=vec) * .5,
                  b=rng.normal(size=nn) * .3)
    inds = onp.argsort(onp.where(onp.abs(U[:, 0]) < 1e-9, 0, 1), kind='stable')[:nn]
    W = rng.normal(size=(len(P), vec))
    tgt = rng.normal(size=(len(P), vec)) * .3

    def obj(xp, u):
        return xp.sum(xp.array(W) * u) + .5 * xp.sum((u - xp.array(tgt))**2) + xp.sum(u**4) * .1

    nq = ref.JxW.shape[1]

    class Oracle:
        def __init__(self):
            self.K = None

        def kw(self, p):
            return dict(lv=[onp.tile(p['k'][:, None], (1, nq)), onp.zeros((len(C), nq, vec, d))],
                        mv=[onp.tile(p['s'], (1, nq, 1))],
                        nv=[[onp.tile(p['t'], (len(ref.neu[0][0]), ref.neu[0][1].shape[1], 1))]])

        def solve(self, p, u0=None):
            u = onp.zeros((len(P), vec)) if u0 is None else u0.copy()
            for v in range(vec):
                u[inds, v] = p['b'] if v == 0 else .1
            free = onp.ones((len(P), vec), bool)
            free[inds] = False
            fr = onp.nonzero(free.reshape(-1))[0]
            kw = self.kw(p)
            for it in range(12):
                R = ref.residual(u, **kw).reshape(-1)[fr]
                if onp.abs(R).max() < 2e-12:
                    break
                if self.K is None or it % 4 == 3:
                    # dense reference tangent by complex-free differences: exact enough to steer the iteration
                    K = onp.zeros((len(fr), len(fr)))
                    for j, dof in enumerate(fr):
                        e = onp.zeros(u.size)
                        e[dof] = 1e-6
                        K[:, j] = (ref.residual(u + e.reshape(u.shape), **kw).reshape(-1)[fr] - R) / 1e-6
                    self.K = onp.linalg.inv(K)
                x = u.reshape(-1).copy()
                x[fr] -= self.K @ R
                u = x.reshape(u.shape)
            assert onp.abs(R).max() < 1e-10, 'reference solve did not converge'
            return u
    return jax, np, pr, params, obj, Oracle(), (P, C, et, vec, d)


def shift(p, q, t):
    return {k: p[k] + t * q[k] for k in p}


def direction(rng, p, leaf):
    return {k: (rng.normal(size=v.shape) if k == leaf else onp.zeros_like(v)) for k, v in p.items()}


def dot(g, q):
    return float(sum(onp.sum(onp.asarray(g[k]) * q[k]) for k in q))


def vjp(case, mon):
    rng = onp.random.default_rng(case['seed'])
    jax, np, pr, p, obj, orc, info = build(case, rng)
    from jax_am.fem.solver import ad_wrapper
    fu.bound_newton(pr, 200)
    fwd = ad_wrapper(pr, linear=case['lin'], use_petsc=case['petsc'])
    jp = {k: np.array(v) for k, v in p.items()}
    mon.where = f"ad_wrapper {info[2]} vec {info[3]} petsc {case['petsc']} sym {case['sym']} linear {case['lin']}"
    tol = 5e-3 if case['petsc'] else 1e-4
    u, pull = jax.vjp(fwd, jp)
    u0 = orc.solve(p)
    mon.close('value', u, u0, 2e-3 if case['petsc'] and case['lin'] else 2e-5, 1.)
    eps = 1e-4
    cot = np.array(onp.asarray(jax.grad(lambda x: obj(np, x))(np.array(u0))))
    g, = pull(cot)

    def fd(p, q):
        return (obj(onp, orc.solve(shift(p, q, eps), u0)) - obj(onp, orc.solve(shift(p, q, -eps), u0))) / (2 * eps)
    gs = {k: max(onp.abs(onp.asarray(g[k])).max(), 1e-3) for k in p}
    dirs = {leaf: direction(rng, p, leaf) for leaf in p}
    fds = {leaf: fd(p, q) for leaf, q in dirs.items()}
    tot = sum(abs(x) for x in fds.values())
    for leaf, q in dirs.items():
        sc = max(abs(fds[leaf]), gs[leaf] * onp.abs(q[leaf]).sum() * .3, 1e-3 * tot)
        mon.close('reverse', dot(g, q), fds[leaf], tol, sc, detail=f'leaf {leaf}')
        mon.sig('ad_wrapper', case['petsc'], info[2], info[3], case['sym'], case['lin'], leaf)
    # history: another forward solve in between must not change the earlier pullback; the pullback is linear
    p2 = shift(p, dict(k=onp.ones_like(p['k']), s=onp.ones_like(p['s']), t=onp.ones_like(p['t']), b=onp.ones_like(p['b'])), .3)
    fwd({k: np.array(v) for k, v in p2.items()})
    g2, = pull(cot)
    big = -2.5e6   # gradients in other units: nothing may saturate
    g3, = pull(big * cot)
    for k in p:
        mon.close('stale-pullback', g2[k], g[k], 1e-3 if case['petsc'] else 1e-6, gs[k], detail=f'leaf {k}')
        mon.close('vjp-linear', g3[k], big * onp.asarray(g[k]), 5e-3 if case['petsc'] else 1e-5, -big * gs[k], detail=f'leaf {k}')
    mon.sig('ad_wrapper', case['petsc'], info[2], 'history')


def jvp(case, mon):
    rng = onp.random.default_rng(case['seed'])
    jax, np, pr, p, obj, orc, info = build(case, rng)
    from jax_am.fem.autodiff_utils import ad_wrapper_jvp
    fu.bound_newton(pr, 300)
    fwd = ad_wrapper_jvp(pr, linear=case['lin'], use_petsc=case['petsc'])
    jp = {k: np.array(v) for k, v in p.items()}
    mon.where = f"ad_wrapper_jvp {info[2]} vec {info[3]} petsc {case['petsc']} sym {case['sym']}"
    u0 = orc.solve(p)
    tol = 1e-4
    J = lambda q: obj(np, fwd(q))
    val, g = jax.value_and_grad(J)(jp)
    mon.close('value', val, obj(onp, u0), 1e-4, max(1., abs(obj(onp, u0))))
    eps = 1e-4
    gs = {k: max(onp.abs(onp.asarray(g[k])).max(), 1e-3) for k in p}
    for leaf in p:
        q = direction(rng, p, leaf)
        want = (obj(onp, orc.solve(shift(p, q, eps), u0)) - obj(onp, orc.solve(shift(p, q, -eps), u0))) / (2 * eps)
        mon.close('reverse', dot(g, q), want, tol, max(abs(want), gs[leaf] * onp.abs(q[leaf]).sum() * .3, 1e-3), detail=f'leaf {leaf}')
        mon.sig('ad_wrapper_jvp', case['petsc'], info[2], info[3], case['sym'], leaf)
    q = {k: rng.normal(size=v.shape) for k, v in p.items()}
    jq = {k: np.array(v) for k, v in q.items()}
    up, um = orc.solve(shift(p, q, eps), u0), orc.solve(shift(p, q, -eps), u0)
    u, du = jax.jvp(fwd, (jp,), (jq,))
    mon.close('forward', du, (up - um) / (2 * eps), tol, onp.abs(up - um).max() / (2 * eps))
    mon.close('value', u, u0, 2e-5, 1.)
    mon.sig('ad_wrapper_jvp', 'forward', case['petsc'], info[2])
    if case['hess']:
        hv = jax.jvp(jax.grad(J), (jp,), (jq,))[1]
        e = 2e-3
        for leaf in ('k', 'b'):
            r = direction(rng, p, leaf)
            m = 0.
            for a in (1, -1):
                for c in (1, -1):
                    m += a * c * obj(onp, orc.solve(shift(shift(p, q, a * e), r, c * e), u0))
            want = m / (4 * e * e)
            mon.close('hessian-vector', dot(hv, r), want, 2e-3,
                      max(abs(want), onp.abs(onp.asarray(hv[leaf])).max() * onp.abs(r[leaf]).sum() * .3), detail=f'leaf {leaf}')
        mon.sig('ad_wrapper_jvp', 'hessian-vector', case['petsc'], info[2])


RUN = dict(vjp=vjp, jvp=jvp)
