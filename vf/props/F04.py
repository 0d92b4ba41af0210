import numpy as onp
from vf.refs import fe
from vf import femutil as fu, weak

LEVEL = 'exploration'
RULE = ('signature = element type | vec | boundary-condition mix | solver options | role (first solve, updated BC, warm '
        'start, relaxation); counted when the returned field was tested against the reference residual')
ASSUMPTIONS = ['problems are monotone (unique solution)', 'equilibrium threshold = the solver\'s own 1e-6 Newton '
               'tolerance plus rounding; 1e-3 relative for single PETSc linear solves (its rtol is 1e-5)']
REQUIRED = {'equilibrium': 20, 'dirichlet': 20, 'options-agree': 8, 'relax-agree': 2, 'warm-start-agree': 3, 'small-field': 2, 'large-field': 4}


def cases(tier, seed):
    out = []
    rng = onp.random.default_rng([seed, 404])
    reps = 1 if tier == 'quick' else 5
    ets = ['QUAD4', 'TRI3', 'HEX8', 'TET4', 'QUAD8', 'TRI6', 'TET10']
    for r in range(reps):
        for i in range(6):
            et = ets[(i + r) % 4] if i < 4 else ets[int(rng.integers(len(ets)))]
            out.append(dict(kind='nonlinear', et=et, vec=1 + int(rng.integers(2)), petsc=bool(i % 2), precond=bool((i // 2) % 2),
                            cauchy=bool(rng.random() < .6), neumann=bool(rng.random() < .6),
                            seed=[int(seed), r, i], cost=14))
        for i in range(6):
            et = ets[int(rng.integers(len(ets)))]
            out.append(dict(kind='linear', et=et, vec=1 + int(rng.integers(2)), cauchy=bool(i % 2),
                            neumann=bool(rng.random() < .6), seed=[int(seed), r, 50 + i], cost=8))
        for i in range(2):
            out.append(dict(kind='stiff', et=['QUAD4', 'TET4', 'TRI3', 'HEX8'][(2 * i + seed + r) % 4], vec=1 + (i + r) % 2,
                            petsc=bool((i + r) % 2), seed=[int(seed), r, 70 + i], cost=12))
        for i in range(2):
            out.append(dict(kind='hard', et=['TRI3', 'QUAD4', 'HEX8', 'TET4'][(2 * i + seed + r) % 4], vec=1 + (i + r) % 2,
                            petsc=bool((i + r + 1) % 2), seed=[int(seed), r, 90 + i], cost=12))
            out.append(dict(kind='hot', et=['HEX8', 'TRI3', 'TET4', 'QUAD4'][(2 * i + seed + r) % 4], vec=1 + (i + r) % 2,
                            seed=[int(seed), r, 95 + i], cost=8))
        for i in range(2):
            out.append(dict(kind='relax', et=['QUAD4', 'HEX8', 'TRI3'][(i + seed + r) % 3], vec=1 + (i + r) % 2,
                            seed=[int(seed), r, 80 + i], cost=16, hang=300))
    # more unknowns and prescribed values than 16-bit indices hold
    out.append(dict(kind='large', n=[12000, 3], petsc=True, seed=[int(seed), 990], cost=25))
    return out


def build(case, rng, linear=False, cauchy=True, neumann=True):
    jax, np, FEM, Mesh = fu.mods()
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    n = {2: (3, 3, 1), 3: (2, 2, 2)}[d]
    if et in ('QUAD8', 'TRI6'):
        n = (2, 2, 1)
    if et in ('TET4', 'TET10'):
        n = (2, 1, 1)
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=.15, lengths=rng.uniform(.8, 1.4, d))
    f = weak.Form(vec, d, rng, spd=True, beta=0. if linear else .15, c=0. if linear else .3, nl_cauchy=not linear)
    cs = [fu.side_fn(A, b, 0, 1)] if cauchy else []
    ns = [fu.side_fn(A, b, 1, 1), fu.side_fn(A, b, 1, 0)] if neumann else []
    cls = weak.make_class(FEM, np, f)

    def make(dbc):
        return cls(Mesh(P, C, et), vec=vec, dim=d, ele_type=et, dirichlet_bc_info=dbc,
                   cauchy_bc_info=[cs, [(lambda u, k=k: f.cauchy(np, u, k)) for k in range(len(cs))]] if cs else None,
                   neumann_bc_info=[ns, [(lambda x, *v, k=k: f.neumann(np, x, k, *v)) for k in range(len(ns))]] if ns else None,
                   source_info=lambda x: f.source(np, x))
    return jax, np, P, C, U, A, b, f, cs, ns, make


def rand_dbc(np, rng, A, b, d, vec, conflict=True):
    """Dirichlet groups with distinct values; a later group overlaps an earlier one with another value."""
    groups = []
    sides = [(0, 0), (d - 1, 1)]
    for a, s in sides:
        for v in range(vec):
            if rng.random() < .8 or (a, s) == (0, 0):
                groups.append((a, s, v, rng.normal() * .5, rng.normal(size=d) * .3))
    rng.shuffle(groups)
    groups = [(int(g[0]), int(g[1]), int(g[2]), float(g[3]), onp.asarray(g[4])) for g in groups]
    locs = [fu.side_fn(A, b, a, s) for a, s, *_ in groups]
    vals = [(lambda x, c=c, w=np.array(w): c + x @ w) for *_, c, w in groups]
    return groups, [locs, [g[2] for g in groups], vals]


def expected_bc(groups, P, U, vec):
    """Last group wins where groups overlap."""
    val = onp.full((len(P), vec), onp.nan)
    for a, s, v, c, w in groups:
        m = onp.abs(U[:, a] - s) < 1e-9
        val[m, v] = c + P[m] @ w
    return val


def judge(mon, ref, sol, want_bc, tol_bc, tol_res, tag):
    m = ~onp.isnan(want_bc)
    mon.close('dirichlet', sol[m], want_bc[m], tol_bc, 1., detail=tag)
    R = ref.residual(sol)
    mon.close('equilibrium', onp.where(m, 0., R), onp.zeros_like(R), tol_res, 1., detail=tag)


def nonlinear(case, mon):
    rng = onp.random.default_rng(case['seed'])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng, False, case['cauchy'], case['neumann'])
    from jax_am.fem.solver import solver
    d, vec = fe.DIM[case['et']], case['vec']
    groups, dbc = rand_dbc(np, rng, A, b, d, vec)
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    st = fu.bound_newton(pr, 60)
    mon.where = f"{case['et']} vec {vec} petsc {case['petsc']} precond {case['precond']}"
    s1 = onp.asarray(solver(pr, linear=False, precond=case['precond'], use_petsc=case['petsc']))
    judge(mon, ref, s1, expected_bc(groups, P, U, vec), 2e-6, 3e-6, 'first solve')
    mon.event('newton-updates', st['n'])
    mon.sig(case['et'], vec, case['petsc'], case['precond'], case['cauchy'], case['neumann'], 'first')
    # replace the boundary conditions (locations, components and values) and continue from the old field
    groups2, dbc2 = rand_dbc(np, rng, A, b, d, vec)
    pr.update_Dirichlet_boundary_conditions(dbc2)
    st['n'] = 0
    s2 = onp.asarray(solver(pr, linear=False, precond=case['precond'], use_petsc=case['petsc'], initial_guess=np.array(s1)))
    judge(mon, ref, s2, expected_bc(groups2, P, U, vec), 2e-6, 3e-6, 'updated BC, warm start')
    mon.sig(case['et'], vec, case['petsc'], 'updated-warm', len(groups), len(groups2))
    # a fresh problem solved cold with the other linear solver reaches the same field
    pr3 = make(dbc2)
    st = fu.bound_newton(pr3, 60)
    s3 = onp.asarray(solver(pr3, linear=False, use_petsc=not case['petsc']))
    mon.close('warm-start-agree', s3, s2, 2e-5, 1.)
    mon.close('options-agree', s3, s2, 2e-5, 1.)


def linear(case, mon):
    rng = onp.random.default_rng(case['seed'])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng, True, case['cauchy'], case['neumann'])
    from jax_am.fem.solver import solver
    d, vec = fe.DIM[case['et']], case['vec']
    groups, dbc = rand_dbc(np, rng, A, b, d, vec)
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    fu.bound_newton(pr, 200)
    want = expected_bc(groups, P, U, vec)
    mon.where = f"{case['et']} vec {vec}"
    sols = []
    for lin, pre, pet in ((True, True, False), (True, False, False), (True, True, True), (False, True, False), (False, True, True)):
        s = onp.asarray(solver(pr, linear=lin, precond=pre, use_petsc=pet))
        loose = lin and pet
        judge(mon, ref, s, want, 1e-3 if loose else 2e-6, 5e-3 if loose else 5e-6, f'linear={lin} precond={pre} petsc={pet}')
        sols.append(s)
        mon.sig(case['et'], vec, case['cauchy'], case['neumann'], lin, pre, pet)
    for k, s in enumerate(sols[1:]):
        mon.close('options-agree', s, sols[0], 5e-3 if k == 1 else 2e-5, 1.)
    # linearity: doubling nothing but the boundary values and loads is checked through a BC update and back
    groups2, dbc2 = rand_dbc(np, rng, A, b, d, vec)
    pr.update_Dirichlet_boundary_conditions(dbc2)
    s = onp.asarray(solver(pr, linear=True))
    judge(mon, ref, s, expected_bc(groups2, P, U, vec), 2e-6, 5e-6, 'updated BC')
    pr.update_Dirichlet_boundary_conditions(dbc)
    s = onp.asarray(solver(pr, linear=True))
    mon.close('options-agree', s, sols[0], 2e-5, 1., detail='BC restored')


def scaled(f, stiff, load):
    """The same form with stiffness-like terms times stiff and load terms times load."""
    f.K, f.beta, f.a, f.c, f.h, f.r = f.K * stiff, f.beta * stiff, f.a * stiff, f.c * stiff, f.h * stiff, f.r * stiff
    f.kc, f.s0, f.s1, f.t0, f.t1 = f.kc * load, f.s0 * load, f.s1 * load, f.t0 * load, f.t1 * load


def dense_solve(ref, bc):
    """Own direct solve of a linear reference form with the prescribed values bc (nan where free)."""
    shape = bc.shape
    bc = bc.reshape(-1)
    r0 = ref.residual(onp.zeros(shape)).reshape(-1)
    K = onp.array([ref.residual(e.reshape(shape)).reshape(-1) - r0 for e in onp.eye(bc.size)]).T
    fix = ~onp.isnan(bc)
    want = onp.where(fix, bc, 0.)
    want[~fix] = onp.linalg.solve(K[onp.ix_(~fix, ~fix)], -(r0 + K @ want)[~fix])
    return want


def hot(case, mon):
    """Large fields (temperatures in kelvin): prescribed values between 300 and 3000, every solver option."""
    rng = onp.random.default_rng(case['seed'])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng, True, True, True)
    from jax_am.fem.solver import solver
    d, vec = fe.DIM[case['et']], case['vec']
    groups, dbc = rand_dbc(np, rng, A, b, d, vec)
    groups = [(a_, s_, v, float(rng.choice([300., 1700., 3000., -1500.])) + 100. * c, w * 300.) for a_, s_, v, c, w in groups]
    dbc[2] = [(lambda x, c=c, w=np.array(w): c + x @ w) for *_, c, w in groups]
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    fu.bound_newton(pr, 60)
    bc = expected_bc(groups, P, U, vec)
    want = dense_solve(ref, bc).reshape(bc.shape)
    sc = onp.abs(want).max()
    m = ~onp.isnan(bc)
    for lin, pet in ((True, False), (True, True), (False, bool(case['seed'][-1] % 2))):
        mon.where = f"{case['et']} vec {vec} hot linear {lin} petsc {pet}"
        s = onp.asarray(solver(pr, linear=lin, use_petsc=pet))
        tol = 1e-3 if lin and pet else 1e-6
        mon.close('dirichlet', s[m], bc[m], tol, sc)
        mon.close('large-field', s, want, 5 * tol, sc)
        mon.sig(case['et'], vec, 'hot', lin, pet)


def hard(case, mon):
    """A strongly nonlinear reaction (the first Newton step overshoots by orders of magnitude): however many steps it
    takes, what is returned is in equilibrium."""
    rng = onp.random.default_rng(case['seed'])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng, False, False, False)
    from jax_am.fem.solver import solver
    d, vec = fe.DIM[case['et']], case['vec']
    groups, dbc = rand_dbc(np, rng, A, b, d, vec)
    f.beta, f.c = 0., float(rng.uniform(1., 3.))
    f.s0 = f.s0 / onp.abs(f.s0).max() * 2e4
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    st = fu.bound_newton(pr, 200)
    mon.where = f"{case['et']} vec {vec} petsc {case['petsc']} strong reaction"
    s = onp.asarray(solver(pr, linear=False, use_petsc=case['petsc']))
    judge(mon, ref, s, expected_bc(groups, P, U, vec), 2e-6, 3e-6, 'strong reaction')
    mon.event('newton-updates-hard', st['n'])
    mon.sig(case['et'], vec, case['petsc'], 'hard', st['n'] > 8)


def large(case, mon):
    """A strip of unit square cells; the oracle is the closed-form bilinear stencil, assembled with scipy."""
    import scipy.sparse as sp
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    nx, ny = case['n']
    X, Y = onp.meshgrid(onp.arange(nx + 1.), onp.arange(ny + 1.), indexing='ij')
    P = onp.stack([X.reshape(-1), Y.reshape(-1)], 1)
    i, j = [a.reshape(-1) for a in onp.meshgrid(onp.arange(nx), onp.arange(ny), indexing='ij')]
    nd = lambda i, j: i * (ny + 1) + j
    C = onp.stack([nd(i, j), nd(i + 1, j), nd(i + 1, j + 1), nd(i, j + 1)], 1)
    k0, src, w = float(rng.uniform(.5, 2.)), float(rng.normal()), float(rng.uniform(.1, .4))
    cls = type('S', (FEM,), dict(get_tensor_map=lambda self: (lambda g: k0 * g)))
    top = lambda x: np.isclose(x[1], float(ny), atol=1e-5)
    bot = lambda x: np.isclose(x[1], 0., atol=1e-5)
    pr = cls(Mesh(P, C, 'QUAD4'), vec=1, dim=2, ele_type='QUAD4', source_info=lambda x: np.array([src]),
             dirichlet_bc_info=[[bot, top], [0, 0], [lambda x: np.sin(w * x[0]), lambda x: np.cos(.5 * w * x[0])]])
    fu.bound_newton(pr, 30)
    mon.where = f"QUAD4 strip {nx}x{ny} petsc {case['petsc']}"
    s = onp.asarray(solver(pr, linear=False, use_petsc=case['petsc']))
    ke = onp.array([[4, -1, -2, -1], [-1, 4, -1, -2], [-2, -1, 4, -1], [-1, -2, -1, 4]]) / 6. * k0
    K = sp.coo_matrix((onp.tile(ke.reshape(-1), len(C)), (onp.repeat(C, 4, 1).reshape(-1), onp.tile(C, (1, 4)).reshape(-1))),
                      shape=(len(P),) * 2).tocsr()
    F = onp.bincount(C.reshape(-1), minlength=len(P)) * src / 4.
    fix = (P[:, 1] == 0) | (P[:, 1] == ny)
    bc = onp.where(P[:, 1] == 0, onp.sin(w * P[:, 0]), onp.cos(.5 * w * P[:, 0]))
    mon.close('dirichlet', s[fix, 0], bc[fix], 2e-6, 1., detail='strip')
    mon.close('equilibrium', onp.where(fix, 0., K @ s[:, 0] - F), onp.zeros(len(P)), 3e-6, 1., detail='strip')
    mon.sig('QUAD4', 'strip', case['petsc'], len(P))


def stiff(case, mon):
    """Units must not matter: a stiff body under heavy loads still ends within the absolute Newton tolerance, and one
    under unit loads (a field of order 1e-6) is still resolved to its own scale."""
    rng = onp.random.default_rng(case['seed'])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng, False, True, True)
    from jax_am.fem.solver import solver
    d, vec = fe.DIM[case['et']], case['vec']
    groups, dbc = rand_dbc(np, rng, A, b, d, vec)
    scaled(f, 1e4, 1e4)
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    fu.bound_newton(pr, 60)
    mon.where = f"{case['et']} vec {vec} petsc {case['petsc']} stiff"
    s = onp.asarray(solver(pr, linear=False, use_petsc=case['petsc']))
    judge(mon, ref, s, expected_bc(groups, P, U, vec), 2e-6, 3e-6, 'stiffness and loads times 1e4')
    mon.sig(case['et'], vec, case['petsc'], 'stiff')
    # small fields: own dense solve of the reference system
    rng2 = onp.random.default_rng(case['seed'] + [1])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng2, True, True, True)
    scaled(f, 1e5, 1.)
    groups, dbc = rand_dbc(np, rng2, A, b, d, vec)
    groups = [(a_, s_, v, c * 1e-5, w * 1e-5) for a_, s_, v, c, w in groups]
    dbc[2] = [(lambda x, c=c, w=np.array(w): c + x @ w) for *_, c, w in groups]
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    fu.bound_newton(pr, 60)
    want = dense_solve(ref, expected_bc(groups, P, U, vec))
    s = onp.asarray(solver(pr, linear=True)).reshape(-1)
    mon.close('small-field', s, want, 1e-4, onp.abs(want).max())
    mon.sig(case['et'], vec, 'small')


def relax(case, mon):
    rng = onp.random.default_rng(case['seed'])
    jax, np, P, C, U, A, b, f, cs, ns, make = build(case, rng, False, False, True)
    from jax_am.fem.solver import solver, dynamic_relax_solve
    d, vec = fe.DIM[case['et']], case['vec']
    groups, dbc = rand_dbc(np, rng, A, b, d, vec)
    pr = make(dbc)
    ref = weak.Ref(case['et'], P, C, vec, f, pr, cs, ns)
    want = expected_bc(groups, P, U, vec)
    tol = 1e-6
    s = onp.asarray(dynamic_relax_solve(pr, tol=tol, nKMat=50, nPrint=1000, info=False, info_force=False))
    judge(mon, ref, s, want, 1e-6, 2e-6, 'dynamic relaxation')
    pr2 = make(dbc)
    fu.bound_newton(pr2, 60)
    s2 = onp.asarray(solver(pr2))
    mon.close('relax-agree', s, s2, 2e-5, 1.)
    mon.sig(case['et'], vec, 'relax')


RUN = dict(nonlinear=nonlinear, linear=linear, stiff=stiff, relax=relax, hot=hot, hard=hard, large=large)
