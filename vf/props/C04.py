"""Momentum and pressure step of the AM solver, observed through whole time steps."""
import numpy as onp
from vf import femutil as fu
from vf.refs import am, fv

LEVEL = 'exploration'
RULE = ('signature = fluid state | moving box or whole domain | Marangoni sign | grid class; counted when the velocity and pressure gradient after a real '
        'time step were compared with the dense reference momentum and pressure solves')
ASSUMPTIONS = ['the fluid fraction and surface gradient are those of the temperature just computed in the same step',
               'linear solves are judged at 1e-6 of the size of their data (the solver asks for 1e-10)']
REQUIRED = {'momentum': 20, 'pressure': 20, 'projection': 20, 'untouched': 10, 'solid': 4, 'rest': 4, 'marangoni-direction': 3, 'mirror': 3}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 12
    out = []
    for i in range(18 * n):
        out.append(dict(kind='step', i=i, seed=[int(seed), i], cost=8))
    for i in range(9 * n):
        out.append(dict(kind='scene', i=i, seed=[int(seed), 5000 + i], cost=8))
    return out


def observe(mon, s, a, box, loc, T0, v0, c0, g0, t):
    import jax.numpy as np
    s.T = np.array(T0.reshape(box.N + [1]))
    s.conv_T = s.T * 0.
    s.vel, s.conv, s.grad_p0 = np.array(v0), np.array(c0), np.array(g0)
    s.t = t
    s.time_integration()
    T, v, g = [onp.asarray(x) for x in (s.T, s.vel, s.grad_p0)]
    if not mon.check('momentum', v.shape == tuple(box.N) + (3,) and g.shape == v.shape and onp.isfinite(v).all() and onp.isfinite(g).all(), 'shape or non-finite velocity'):
        return None
    x0, x1, y0, y1, z0, z1 = am.box_bounds(box.N, loc.N, box.h, t, a)
    B = (slice(x0, x1), slice(y0, y1), slice(z0, z1))
    out = onp.ones(box.N, bool)
    out[B] = False
    mon.equal('untouched', v[out], v0[out], 'velocity outside the flow region')
    mon.equal('untouched', g[out], g0[out], 'pressure gradient outside the flow region')
    fl = am.fluid(T[B][..., 0], a).reshape(-1)
    Tt = T[B][:, :, -1, 0]
    dg = g[B] - g0[B]
    pred = v[B] + a['dt'] / a['rho'] * dg          # undo the documented correction u -= dt/rho grad p
    size = onp.abs(v[B]).max() + a['dt'] / a['rho'] * onp.abs(dg).max() + 1e-300
    want = onp.zeros_like(pred)
    for i in range(3):
        f, darcy = am.momentum_fn(loc, i, v0[B][..., i].reshape(-1), c0[B][..., i].reshape(-1), g0[B][..., i].reshape(-1), fl, Tt, a)
        b = f(onp.zeros(loc.n))
        L = fv.jacobian(lambda u: f(u) - b, onp.zeros(loc.n), lin=True)
        want[..., i] = onp.linalg.solve(L, -b).reshape(loc.N)
        # the predictor carries round-off of the correction added and removed again
        D = onp.diag(L)
        bn = onp.linalg.norm(b)
        mon.le('momentum', onp.linalg.norm(f(pred[..., i].reshape(-1))) , 3e-9 * bn + 1e-11 * onp.linalg.norm(D) * size, 0.,
               f'component {i}: residual of the reference momentum balance, data {bn:.4g}')
        mon.close('momentum', pred[..., i], want[..., i], 1e-6, onp.abs(want).max() + 1e-9 * size, f'component {i}')
    gp, rhs, p = am.pressure_gradient(loc, pred, Tt, a)
    mon.close('pressure', dg, gp, 1e-6, onp.abs(gp).max() + 1e-9 * onp.abs(rhs).max() * loc.h.max() + 1e-300)
    # solved from reference data end to end
    gw, _, _ = am.pressure_gradient(loc, want, Tt, a)
    mon.close('projection', v[B], want - a['dt'] / a['rho'] * gw, 1e-6, onp.abs(want).max() + 1e-9 * size)
    return T, v, g, B, fl


def step(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    N = [int(k) for k in rng.integers(3, 7, 3)]
    local = None
    if i % 3:
        local = [int(k) for k in rng.integers(2, onp.array(N) + 1)]
    if i % 6 == 5:
        N[int(rng.integers(3))] += 6
    a, box, loc = am.problem(rng, N, local, heat_source=0)
    a['P'] *= .1
    # keep the laser away from rounding ties of the box position
    t0 = float(rng.uniform(0, 5e-5))
    for ax in (0, 1):
        cell = int(rng.integers(0, N[ax]))
        a['X0'][ax] = float((cell + rng.uniform(-.35, .35)) * box.h[ax] - (t0 * a['speed'] if ax == 0 else 0))
    s = am.build(a, box, loc, case['_scratch'], same=local is None and i % 2 == 0)
    for j in range(3):
        mode = ['mixed', 'liquid', 'solid'][int(rng.integers(3))] if j else 'mixed'
        T0 = am.field(rng, box) if mode == 'mixed' else (rng.uniform(1800, 2500, box.n) if mode == 'liquid' else rng.uniform(300, 1200, box.n))
        if mode == 'mixed' and rng.random() < .5:
            T0 = rng.uniform(1500, 1700, box.n)
        v0 = rng.normal(size=box.N + [3]) * rng.choice([0., 1., 3.])
        c0 = rng.normal(size=box.N + [3]) * 1e5 * rng.choice([0., 1.])
        g0 = rng.normal(size=box.N + [3]) * 1e8 * rng.choice([0., 1.])
        mon.where = f'N {N} box {loc.N} {mode}'
        o = observe(mon, s, a, box, loc, T0, v0, c0, g0, t0)
        if o is None:
            return
        T, v, g, B, fl = o
        if mode == 'solid' and fl.max() == 0.:
            pred = v[B] + a['dt'] / a['rho'] * (g[B] - g0[B])
            damp = 1 + 1e12 * a['dt']
            push = onp.abs(v0[B] - a['dt'] * (c0[B] + g0[B] / a['rho'])).max()
            mon.le('solid', onp.abs(pred).max(), push / damp, 1e-9 * push + 1e-9 * a['dt'] / a['rho'] * onp.abs(g[B]).max(), 'solid material moves')
        mon.sig(mode, local is None, a['Marangoni'] > 0, min(loc.N) < 3, onp.abs(v0).max() > 0)


def scene(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    nx, ny = 2 * int(rng.integers(2, 4)) + 1, 2 * int(rng.integers(2, 4)) + 1
    N = [nx, ny, int(rng.integers(3, 6))]
    a, box, loc = am.problem(rng, N, heat_source=0, P=0., h=0., emissivity=0., dt=1e-7)
    a['X0'] = [float(box.L[0] / 2), float(box.L[1] / 2), float(box.L[2])]
    s = am.build(a, box, loc, case['_scratch'])
    Z = onp.zeros(box.N + [3])
    mon.where = f'N {N}'
    # 1. uniform melt at rest, and solid at rest whatever its temperature gradients
    o = observe(mon, s, a, box, loc, onp.full(box.n, 2000.), Z, Z, Z, 0.)
    if o is None:
        return
    mon.le('rest', onp.abs(o[1]).max(), 0., 1e-12, 'uniform melt at rest started to flow')
    o = observe(mon, s, a, box, loc, rng.uniform(300, 1500, box.n), Z, Z, Z, 0.)
    if o is None:
        return
    mon.le('rest', onp.abs(o[1]).max(), 0., 1e-12, 'solid started to flow')
    # 2. hot spot in the middle of a melt: surface flow away from it for a negative surface-tension slope, towards it for a positive one
    c = box.c / box.L - onp.array([.5, .5, 1.])
    hot = 2000. + 500 * onp.exp(-4 * (c**2).sum(1))
    o = observe(mon, s, a, box, loc, hot, Z, Z, Z, 0.)
    if o is None:
        return
    v = o[1]
    out = -onp.sign(a['Marangoni'])
    cx, cy = c[:, 0].reshape(box.N), c[:, 1].reshape(box.N)
    for comp, cc in ((0, cx), (1, cy)):
        m = cc[:, :, -1] != 0
        m &= onp.abs(cc[:, :, -1]) > 1e-9
        mon.check('marangoni-direction', (onp.sign(v[:, :, -1, comp][m]) == out * onp.sign(cc[:, :, -1][m])).all(), f'component {comp}')
        # antisymmetric about the hot spot's plane, other components symmetric
        sc = onp.abs(v).max()
        mon.close('mirror', onp.flip(v[..., comp], comp), -v[..., comp], 1e-6, sc)
        mon.close('mirror', onp.flip(v[..., 1 - comp], comp), v[..., 1 - comp], 1e-6, sc)
        mon.close('mirror', onp.flip(v[..., 2], comp), v[..., 2], 1e-6, sc)
    # 3. the same spot in solid material, below the solidus: nothing
    o = observe(mon, s, a, box, loc, hot - 1000., Z, Z, Z, 0.)
    if o is None:
        return
    mon.le('solid', onp.abs(o[1]).max(), 0., 1e-12, 'thermocapillary flow in solid material')
    mon.sig('scene', a['Marangoni'] > 0, nx, ny)


RUN = dict(step=step, scene=scene)
