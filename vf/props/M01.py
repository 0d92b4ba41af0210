import numpy as onp
from vf import femutil as fu
from vf.refs import mma as rm

LEVEL = 'exploration'
RULE = ('signature = design variables | constraints | active-set pattern (bounds, move limit, constraints, slack) | iteration phase; '
        'counted when the point returned for a subproblem passed through the KKT monitor')
ASSUMPTIONS = ['method constants of Svanberg\'s MMA as published and used by the code (asymptote factors 0.5/0.7/1.2, 0.1 bound factor)',
               'well-scaled problems (gradients of order 0.01 to 100)']
REQUIRED = {'within-bounds': 30, 'move-limit': 30, 'kkt-stationarity': 30, 'kkt-complementarity': 30, 'kkt-feasibility': 30,
            'asymptotes': 30, 'subproblem-optimum': 10, 'converges': 4}


def cases(tier, seed):
    rng = onp.random.default_rng([seed, 3131])
    out = []
    k = 80 if tier == "quick" else 600
    for i in range(k):
        m = int(rng.choice([1, 1, 2, 3, 5]))
        n = int(rng.choice([1, 2, 3, 8, 30, 100]))
        out.append(dict(kind='steps', n=n, m=m, iters=8, move=float(rng.choice([.05, .1, .2, .5, 1.])),
                        shape=str(rng.choice(['unit', 'wide', 'mixed'])), seed=[int(seed), i], cost=1))
    for i in range(12 if tier == "quick" else 60):
        out.append(dict(kind='conv', which=i % 3, seed=[int(seed), 500 + i], cost=1))
    # the copy shipped with the topology-optimisation application
    for i in range(24 if tier == "quick" else 150):
        c = out[(7 * i + 3) % k]
        out.append(dict(c, app=True, seed=[int(seed), 3000 + i]))
    # long histories, many variables, many constraints
    for i, (n, m, it) in enumerate([(40, 1, 90), (6, 2, 60), (2000, 3, 5), (300, 1, 25), (10, 14, 25), (4, 30, 6)] * (1 if tier == "quick" else 8)):
        out.append(dict(kind='steps', n=n, m=m, iters=it, move=float(rng.choice([.05, .2, .5])), shape=['unit', 'wide', 'mixed'][i % 3],
                        seed=[int(seed), 4000 + i], cost=3))
    for i in range(3):
        out.append(dict(kind='conv', which=i % 3, app=True, seed=[int(seed), 3500 + i], cost=1))
    return out


def new(n, m, xmin, xmax, x0, move, c=1e4, a=None, d=None, app=None):
    if app:
        from applications.fem.top_opt.mma import MMA
    else:
        from jax_am.fem.mma import MMA
    o = MMA()
    o.setNumConstraints(m)
    o.setNumDesignVariables(n)
    col = lambda v: onp.asarray(v, float).reshape(-1, 1)
    o.setMinandMaxBoundsForDesignVariables(col(xmin), col(xmax))
    o.registerMMAIter(col(x0), col(x0), col(x0))
    o.setLowerAndUpperAsymptotes(onp.ones((n, 1)), onp.ones((n, 1)))
    o.setScalingParams(1., col(a if a is not None else onp.zeros(m)), c * onp.ones((m, 1)), col(d if d is not None else onp.zeros(m)))
    o.setMoveLimit(move)
    return o


def problem(rng, n, m):
    """Random smooth nonconvex objective and constraints."""
    A = rng.normal(size=(m + 1, n))
    B = rng.uniform(.1, 2., size=(m + 1, n)) * (rng.random((m + 1, n)) < .7)
    w = rng.normal(size=(m + 1, n))
    cst = rng.normal(size=m + 1) * n**.5

    def f(x):
        v = A @ x + B @ (x**2) + onp.sin(x * w).sum(1) + cst
        g = A + 2 * B * x + onp.cos(x * w) * w
        return v / n**.5, g / n**.5
    return f


def steps(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    n, m, move = case['n'], case['m'], case['move']
    if case['shape'] == 'unit':
        xmin, xmax = onp.zeros(n), onp.ones(n)
    elif case['shape'] == 'wide':
        xmin, xmax = -rng.uniform(1, 5, n), rng.uniform(1, 5, n)
    else:
        xmin = rng.normal(size=n)
        xmax = xmin + 10.**rng.uniform(-1.5, 1, n)
    f = problem(rng, n, m)
    x = xmin + (xmax - xmin) * rng.random(n)
    a = rng.uniform(0., 1.5, m) if rng.random() < .3 else onp.zeros(m)      # a != 0: min-max type problems
    d = onp.ones(m) if rng.random() < .4 else onp.zeros(m)
    c = float(rng.choice([1e4, 1e3, 5.]))
    o = new(n, m, xmin, xmax, x, move, c, a, d, app=case.get('app'))
    x1, x2 = x.copy(), x.copy()
    low = upp = None
    for it in range(case['iters']):
        v, g = f(x)
        o.setObjectiveWithGradient(v[0], g[0][:, None])
        o.setConstraintWithGradient(v[1:, None], g[1:])
        o.mmasub(x[:, None].copy())
        xm, ym, zm = [onp.asarray(t).reshape(-1) for t in o.getOptimalValues()]
        lam, xsi, eta, mu, zet = [onp.asarray(t).reshape(-1) for t in o.getLagrangeMultipliers()]
        s = onp.asarray(o.getSlackValue()).reshape(-1)
        gl, gu = [onp.asarray(t).reshape(-1) for t in o.getAsymptoteValues()]
        low, upp = rm.asymptotes(it + 1, x, x1, x2, low, upp, xmin, xmax)
        mon.where = f"n {n} m {m} move {move} {case['shape']} iteration {it}"
        mon.close('asymptotes', onp.array([gl, gu]), onp.array([low, upp]), 1e-9, onp.abs(xmax - xmin).max() + onp.abs(x).max())
        sub = rm.Sub(x, v[1:], g[1:], low, upp, xmin, xmax, move, g[0])
        r = xmax - xmin
        mon.check('within-bounds', (xm >= xmin - 1e-10).all() and (xm <= xmax + 1e-10).all(), 'design variable out of bounds')
        mon.check('move-limit', (onp.abs(xm - x) <= move * r + 1e-9).all(), 'move limit exceeded')
        mon.check('within-bounds', (xm > low).all() and (xm < upp).all(), 'outside asymptotes')
        # KKT of the published subproblem
        plam, qlam = sub.p0 + sub.P.T @ lam, sub.q0 + sub.Q.T @ lam
        dx = plam / (upp - xm)**2 - qlam / (xm - low)**2
        sc = 1. + onp.abs(g).max() * (1 + lam.max())
        mon.close('kkt-stationarity', dx - xsi + eta, onp.zeros(n), 1e-5, sc)
        mon.close('kkt-stationarity', c + d * ym - mu - lam, onp.zeros(m), 1e-5, 1. + c)
        mon.close('kkt-stationarity', 1. - zet - a @ lam, onp.zeros(1), 1e-5, 1.)
        mon.close('kkt-feasibility', sub.g(xm) - a * zm - ym + s, onp.zeros(m), 1e-4, 1. + onp.abs(v).max() + onp.abs(sub.b).max() * 1e-3)
        for nm, t in (('lam', lam), ('xsi', xsi), ('eta', eta), ('mu', mu), ('s', s), ('y', ym), ('z', zm), ('zet', zet)):
            mon.check('kkt-feasibility', (t >= -1e-12).all(), f'{nm} negative')
        comp = onp.concatenate((xsi * (xm - sub.alfa), eta * (sub.beta - xm), mu * ym, lam * s, zet * zm))
        mon.close('kkt-complementarity', comp, onp.zeros_like(comp), 1e-5, 1.)
        if m == 1 and d[0] == 0 and a[0] == 0:
            xe, le = sub.solve1(c)
            phi = lambda z: sub.f0(z) + c * max(0., sub.g(z)[0])
            mon.le('subproblem-optimum', phi(xm), phi(xe), 1e-4 * (1 + abs(phi(xe)) + c * 1e-3), detail='objective of the returned point')
        act = (int((onp.abs(xm - xmin) < 1e-5).any()), int((onp.abs(xm - xmax) < 1e-5).any()),
               int((onp.abs(onp.abs(xm - x) - move * r) < 1e-5).any()), int((lam > 1e-4).sum()), int((ym > 1e-5).any()))
        mon.sig(n, m, act, bool(a.any()), 'first' if it < 2 else 'adaptive')
        x2, x1, x = x1, x, xm
        o.registerMMAIter(x[:, None], x1[:, None], x2[:, None])


def conv(case, mon):
    """Known optima of complete MMA runs."""
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    w = case['which']
    if w == 0:      # Svanberg's five-variable cantilever beam
        n, m = 5, 1
        C = onp.array([61., 37., 19., 7., 1.])
        fn = lambda x: (.0624 * x.sum(), .0624 * onp.ones(n), onp.array([(C / x**3).sum() - 1.]), (-3 * C / x**4)[None])
        xmin, xmax, x0, want = onp.ones(n), 10 * onp.ones(n), onp.full(n, rng.uniform(4., 6.)), None
        lam = (.0624 / 3 / C)**-.25
        t = ((C / lam**3).sum())**(1 / 3)
        want = lam * t
    elif w == 1:    # weighted projection on a plane
        n, m = int(rng.integers(3, 30)), 1
        tgt, wt, q = rng.uniform(.2, .8, n), rng.uniform(.5, 2, n), rng.uniform(.5, 1.5, n)
        vol = .8 * q @ tgt
        fn = lambda x: (.5 * (wt * (x - tgt)**2).sum(), wt * (x - tgt), onp.array([(q @ x - vol) / n]), (q / n)[None])
        xmin, xmax, x0 = onp.zeros(n), onp.ones(n), rng.random(n)
        l = 0.
        a, b = 0., 100.
        for _ in range(200):
            l = .5 * (a + b)
            if q @ onp.clip(tgt - l * q / wt, 0, 1) > vol:
                a = l
            else:
                b = l
        want = onp.clip(tgt - l * q / wt, 0, 1)
    else:           # two-ball problem of Svanberg: closest point, bound-active optimum
        n, m = int(rng.integers(2, 12)), 2
        ctr = rng.normal(size=n)
        ctr = ctr / onp.linalg.norm(ctr) * 2
        fn = lambda x: (.5 * ((x - ctr)**2).sum(), x - ctr, onp.array([x @ x - 1., -5.]), onp.array([2 * x, onp.zeros(n)]))
        xmin, xmax, x0 = -3 * onp.ones(n), 3 * onp.ones(n), rng.normal(size=n) * .3
        want = ctr / 2
    o = new(n, m, xmin, xmax, x0, .3, app=case.get('app'))
    x = x0.copy()
    x1, x2 = x.copy(), x.copy()
    for it in range(80):
        f0, g0, f, g = fn(x)
        o.setObjectiveWithGradient(f0, g0[:, None])
        o.setConstraintWithGradient(f[:, None], g)
        o.mmasub(x[:, None].copy())
        xm = onp.asarray(o.getOptimalValues()[0]).reshape(-1)
        x2, x1, x = x1, x, xm
        o.registerMMAIter(x[:, None], x1[:, None], x2[:, None])
    mon.where = f'problem {w} n {n}'
    if w < 2:
        mon.close('converges', x, want, 5e-3, 1.)
    else:       # MMA may approach the ball slowly: value and feasibility
        mon.le('converges', fn(x)[0], fn(want)[0] * 1.05, 0.)
        mon.le('converges', fn(x)[2], 0., .03)
    mon.sig('conv', w, n)


RUN = dict(steps=steps, conv=conv)
