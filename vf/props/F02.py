import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = element type | equation | exact-field degree | boundary-condition mix | linear solver; counted when '
        'the solved nodal field was compared with the exact polynomial')
ASSUMPTIONS = ['linear solves stop at the code\'s own Krylov tolerances: nodal comparison at 1e-6 (JAX) / 5e-3 (PETSc) of the field range']
REQUIRED = {'patch': 18}


def cases(tier, seed):
    out = []
    rng = onp.random.default_rng([seed, 202])
    reps = 1 if tier == 'quick' else 5
    for r in range(reps):
        for et in fe.TYPES:
            for eq in ('poisson', 'aniso', 'elastic'):
                deg = fe.ORDER[et] if (rng.random() < .6) else 1
                if eq == 'elastic' and fe.ORDER[et] == 2:
                    deg = 2
                n = {2: [3, 3], 3: [2, 2, 2]}[fe.DIM[et]]
                if et in ('HEX20', 'HEX27', 'TET10'):
                    n = [2, 1, 1] if et != 'TET10' else [1, 1, 2]
                else:
                    n = [int(k + rng.integers(0, 2)) for k in n]
                out.append(dict(kind='patch', et=et, eq=eq, deg=deg, n=n, mixed=bool(deg == 1 and rng.random() < .7),
                                linear=bool(rng.random() < .7), react=bool((fe.TYPES.index(et) + len(eq) + r + int(seed)) % 3 == 0), petsc=bool(rng.random() < .25),
                                seed=[int(seed), r, fe.TYPES.index(et), len(eq)], cost=5))
    # a strip with more nodes and prescribed values than 16-bit indices hold
    out.append(dict(kind='patch', et='QUAD4', eq='poisson', deg=1, n=[17000, 2], mixed=False, linear=True, petsc=False, strip=True,
                    seed=[int(seed), 900, 0, 0], cost=20))
    out.append(dict(out[-1], petsc=True, seed=[int(seed), 901, 0, 0]))
    return out


def patch(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.models import LinearPoisson, LinearElasticity
    from jax_am.fem.solver import solver
    et, d, eq = case['et'], fe.DIM[case['et']], case['eq']
    rng = onp.random.default_rng(case['seed'])
    # quadratic fields are reproduced exactly on affine cells, linear ones on any distortion
    P, C, U, A, b = fe.make_mesh(et, case['n'], rng, jitter=.2 if case['deg'] == 1 else 0.,
                                 lengths=rng.uniform(.7, 1.5, d) if 'strip' not in case else [17., .002], affine='strip' not in case)
    vec = {'poisson': 1 + int(rng.integers(0, 2)), 'aniso': 1, 'elastic': d}[eq]
    a0 = rng.normal(size=vec)
    a1 = rng.normal(size=(vec, d))
    a2 = rng.normal(size=(vec, d, d)) * .5 if case['deg'] == 2 else onp.zeros((vec, d, d))
    a2 = a2 + a2.transpose(0, 2, 1)
    exact = lambda x: a0 + a1 @ x + .5 * onp.einsum('vij,i,j->v', a2, x, x)
    Kt = onp.eye(d) + .3 * (lambda M: M @ M.T)(rng.normal(size=(d, d)))
    E, nu = 70e3, .3
    mu, lm = E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))

    def flux(g):
        if eq == 'poisson':
            return g
        if eq == 'aniso':
            return g @ Kt
        e = .5 * (g + g.T)
        return lm * onp.trace(e) * onp.eye(d) + 2 * mu * e
    # div flux is constant for a quadratic field: contract the flux of each second-derivative slice
    div = onp.zeros(vec)
    for j in range(d):
        div = div + flux(a2[:, :, j])[:, j]
    if eq == 'aniso':
        class M(FEM):
            def get_tensor_map(self):
                return lambda g: g @ np.array(Kt)
        cls = M
    else:
        cls = LinearPoisson if eq == 'poisson' else LinearElasticity
    sides = [(a, s) for a in range(d) for s in (0, 1)]
    neu = []
    if case['mixed']:
        neu = [s for s in sides[1:] if rng.random() < .5][:len(sides) - 2]
    dirs = [s for s in sides if s not in neu]
    ja0, ja1, ja2 = np.array(a0), np.array(a1), np.array(a2)
    jex = lambda x: ja0 + ja1 @ x + .5 * np.einsum('vij,i,j->v', ja2, x, x)
    locs, vecs, vals = [], [], []
    for s in dirs:
        for v in range(vec):
            locs.append(fu.side_fn(A, b, *s))
            vecs.append(v)
            vals.append(lambda x, v=v: jex(x)[v])
    nfn, nval = [], []
    for a, s in neu:
        n = onp.linalg.inv(A).T[:, a] * (2 * s - 1)
        n = n / onp.linalg.norm(n)
        t = np.array(flux(a1) @ n)
        nfn.append(fu.side_fn(A, b, a, s))
        nval.append(lambda x, t=t: t)
    # a reaction term: the body force then varies with the exact field itself
    react = float(rng.uniform(.5, 2.) * (mu if eq == 'elastic' else 1.)) if case.get('react') else 0.
    if react:
        cls = type('R', (cls,), dict(get_mass_map=lambda self: (lambda u: react * u)))
    pr = cls(Mesh(P, C, et), vec=vec, dim=d, ele_type=et, dirichlet_bc_info=[locs, vecs, vals],
             neumann_bc_info=[nfn, nval] if neu else None,
             source_info=(lambda x: np.array(-div) + react * jex(x)) if case['deg'] == 2 or react else None)
    fu.bound_newton(pr, 30)
    sol = onp.asarray(solver(pr, linear=case['linear'], use_petsc=case['petsc']))
    want = onp.array([exact(x) for x in P])
    rngv = onp.ptp(want) + 1e-12
    mon.where = f'{et} {eq} deg {case["deg"]} neumann sides {neu}'
    mon.close('patch', sol, want, 5e-3 if case['petsc'] else 1e-6, rngv)
    free = ~onp.any((U < 1e-9) | (U > 1 - 1e-9), axis=1)
    mon.event('free-nodes-observed', int(free.sum()))
    mon.sig(et, eq, case['deg'], len(neu), case['linear'], case['petsc'])


RUN = dict(patch=patch)
