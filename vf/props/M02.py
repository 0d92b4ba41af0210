import numpy as onp
from vf import femutil as fu
from vf.refs import fe, mma as rm

LEVEL = 'exploration'
RULE = ('signature = element type | flexible-cell subset | design components | iteration | constraint state; counted when an iterate '
        'handed to the user callbacks was compared with the reference filter plus MMA step')
ASSUMPTIONS = ['filter radius 1.5 times the average cell size and weights (radius - distance) between flexible-cell centroids',
               'one constraint in the lock-step comparison (dual solution in closed form)']
REQUIRED = {'filter-matrix': 8, 'filter-rowsum': 8, 'filter-apply': 8, 'design-bounds': 30, 'move-limit': 30, 'lock-step': 30,
            'callback-protocol': 8, 'returned': 8}


def cases(tier, seed):
    rng = onp.random.default_rng([seed, 3232])
    out = []
    k = 25 if tier == "quick" else 250
    for i in range(k):
        et = ['QUAD4', 'TRI3', 'HEX8', 'TET4', 'QUAD8'][i % 5]
        out.append(dict(kind='filter', et=et, seed=[int(seed), i], cost=2))
        out.append(dict(kind='opt', et=et, comps=int(rng.choice([1, 1, 2])), move=float(rng.choice([.05, .1, .2, .5])),
                        iters=int(rng.integers(3, 9)), seed=[int(seed), 100 + i], cost=2))
    out.append(dict(kind='opt', et='QUAD4', comps=1, move=.1, iters=40, seed=[int(seed), 800], cost=6))
    out.append(dict(kind='opt', et='TRI3', comps=2, move=.05, iters=25, seed=[int(seed), 801], cost=6))
    out.append(dict(kind='filter', et='QUAD4', n=[45, 38], seed=[int(seed), 802], cost=6))
    return out


def make(case, rng):
    jax, np, FEM, Mesh = fu.mods()
    et, d = case['et'], fe.DIM[case['et']]
    n = [int(k) for k in (rng.integers(3, 8, 2) if d == 2 else rng.integers(2, 4, 3))]
    n = case.get('n') or n
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=float(rng.choice([0., .2])), lengths=rng.uniform(.5, 4., d), affine=False)

    class M(FEM):
        def get_tensor_map(self):
            return lambda g: g
    pr = M(Mesh(P, C, et), vec=1, dim=d, ele_type=et)
    if rng.random() < .5:
        flex = onp.arange(len(C))
    else:
        flex = onp.sort(rng.choice(len(C), max(2, int(len(C) * rng.uniform(.3, .9))), replace=False))
    pr.flex_inds = flex
    cen = P[C].mean(1)[flex]
    vol = fe.integrate_cells(et, P, C, lambda x: onp.ones((len(x), 1)))[0]
    rmin = 1.5 * (vol / len(C))**(1 / d)
    H = onp.maximum(0., rmin - onp.linalg.norm(cen[:, None] - cen[None], axis=-1))
    return pr, flex, H, n, len(flex) == len(C)


def filt(case, mon):
    rng = onp.random.default_rng(case['seed'])
    pr, flex, H, n, full = make(case, rng)
    from jax_am.fem.mma import compute_filter_kd_tree, applySensitivityFilter
    h, hs = compute_filter_kd_tree(pr)
    h, hs = onp.asarray(h), onp.asarray(hs).reshape(-1)
    mon.where = f"{case['et']} {n} flexible {len(flex)}"
    mon.close('filter-matrix', h, H, 1e-9)
    mon.close('filter-rowsum', hs, H.sum(1), 1e-9)
    mon.check('filter-rowsum', (hs > 0).all(), 'empty row')
    mon.event('neighbour-pairs', int((H > 0).sum() - len(H)))
    for k in (1, 3):
        rho = rng.random((len(flex), k))
        rho[rng.random(rho.shape) < .2] = 0.
        rho[rng.random(rho.shape) < .2] = 5e-4
        dJ = rng.normal(size=rho.shape)
        dv = rng.normal(size=(2,) + rho.shape)
        s = lambda g: H @ (rho * g / onp.maximum(1e-3, rho) / H.sum(1)[:, None])
        a, b = applySensitivityFilter({'H': h, 'Hs': hs}, rho, dJ, dv)
        mon.close('filter-apply', a, s(dJ), 1e-9)
        mon.close('filter-apply', b, onp.stack([s(x) for x in dv]), 1e-9)
    mon.sig('filter', case['et'], n, full)


def opt(case, mon):
    rng = onp.random.default_rng(case['seed'])
    pr, flex, H, n, full = make(case, rng)
    from jax_am.fem.mma import optimize
    nf, k = len(flex), case['comps']
    Hs = H.sum(1)
    tgt, w = rng.random((nf, k)), rng.uniform(.2, 2., (nf, k))
    vol = rng.uniform(.2, .8)
    log = []

    def obj(rho):
        r = onp.asarray(rho)
        log.append(('J', r.copy()))
        J = .5 * (w * (r - tgt)**2).sum() + onp.sin(3 * r).sum()
        dJ = w * (r - tgt) + 3 * onp.cos(3 * r)
        return onp.array(J), dJ

    def cons(rho, epoch):
        r = onp.asarray(rho)
        log.append(('c', r.copy(), epoch))
        return onp.array([r.mean() / vol - 1.]), onp.full((1, nf, k), 1. / (nf * k) / vol)
    rho0 = rng.uniform(.1, .9, (nf, k))
    start = rho0.copy()
    out = onp.asarray(optimize(pr, rho0, {'maxIters': case['iters'], 'movelimit': case['move']}, obj, cons, 1))
    mon.where = f"{case['et']} {n} flexible {nf} comps {k} move {case['move']}"
    mon.equal('callback-protocol', rho0, start, 'caller\'s initial design modified')
    Js = [e[1] for e in log if e[0] == 'J']
    cs = [e for e in log if e[0] == 'c']
    mon.check('callback-protocol', len(Js) == case['iters'] and [e[2] for e in cs] == list(range(1, case['iters'] + 1)),
              f'{len(Js)} objective calls, epochs {[e[2] for e in cs]}')
    mon.check('callback-protocol', all(onp.array_equal(a, b[1]) for a, b in zip(Js, cs)), 'objective and constraint saw different designs')
    mon.equal('callback-protocol', Js[0], start)
    seq = Js + [out]
    mon.check('returned', out.shape == start.shape, out.shape)
    xmin, xmax = onp.zeros(nf * k), onp.ones(nf * k)
    low = upp = None
    filt_ = lambda r, g: H @ (r * g / onp.maximum(1e-3, r) / Hs[:, None])
    for it in range(case['iters']):
        r = seq[it]
        x = r.reshape(-1)
        x1 = seq[max(it - 1, 0)].reshape(-1)
        x2 = seq[max(it - 2, 0)].reshape(-1)
        low, upp = rm.asymptotes(it + 1, x, x1, x2, low, upp, xmin, xmax)
        dJ = filt_(r, w * (r - tgt) + 3 * onp.cos(3 * r)).reshape(-1)
        dc = filt_(r, onp.full((nf, k), 1. / (nf * k) / vol)).reshape(-1)
        sub = rm.Sub(x, onp.array([r.mean() / vol - 1.]), dc[None], low, upp, xmin, xmax, case['move'], dJ)
        xe, lam = sub.solve1(1e4)
        nx = seq[it + 1].reshape(-1)
        mon.check('design-bounds', (nx >= -1e-10).all() and (nx <= 1 + 1e-10).all(), f'iteration {it}')
        mon.le('move-limit', onp.abs(nx - x), case['move'], 1e-9, detail=f'iteration {it}')
        # the interior-point method stops at a finite barrier: judge x, or (flat directions) the value of the subproblem
        phi = lambda z: sub.f0(z) + 1e4 * max(0., sub.g(z)[0])
        span = onp.abs(dJ).sum() * case['move']
        gap = (phi(nx) - phi(xe)) / (span + 1e-6)
        mon.worst['lock-step-gap'] = max(mon.worst.get('lock-step-gap', 0), gap)
        if gap > 2e-5 or onp.abs(nx - xe).max() > .1:
            mon.close('lock-step', nx, xe, 2e-3, 1., detail=f'iteration {it} relative gap {gap:.2g}')
        else:
            mon.event('lock-step')
        mon.sig('opt', case['et'], full, k, it, 'active' if lam > 1e-6 else 'slack')


RUN = dict(filter=filt, opt=opt)
