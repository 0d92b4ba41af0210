"""Energy step of the AM solver: lock-step residual monitor, heat balance, bounds, symmetry."""
import numpy as onp
from vf import femutil as fu
from vf.refs import am, fv

LEVEL = 'exploration'
RULE = ('signature = heat source | laser state | convection/radiation | advection on/off | grid class; counted when the temperature after a real '
        'time step satisfied or violated the reference balance of every cell')
ASSUMPTIONS = ['properties are evaluated at the start of the step as documented (effective heat capacity with latent heat between solidus and liquidus)',
               'losses use the surface temperature at the start of the step',
               'the nonlinear solve is judged at its own stopping rule (relative residual 1e-5)']
REQUIRED = {'step-balance': 20, 'step-solution': 10, 'heat-balance': 20, 'laser-power': 4, 'body-power': 3, 'laser-off': 4, 'bounds': 4,
            'insulated': 4, 'mirror': 3, 'steady': 3, 'defaults': 2}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 12
    out = []
    for i in range(16 * n):
        out.append(dict(kind='step', i=i, seed=[int(seed), i], cost=8))
    for i in range(6 * n):
        out.append(dict(kind='power', i=i, seed=[int(seed), 10000 + i], cost=8))
    for i in range(8 * n):
        out.append(dict(kind='calm', i=i, seed=[int(seed), 20000 + i], cost=8))
    return out


def put(s, box, T, convT, t):
    import jax.numpy as np
    s.T = np.array(T.reshape(box.N + [1]))
    s.conv_T = np.array(convT.reshape(box.N + [1]))
    s.t = t


def observe(mon, s, box, a, T0, convT, t, tag=''):
    """one real time step from the given state; returns the new temperature after checking every cell's balance"""
    put(s, box, T0, convT, t)
    s.time_integration()
    T = onp.asarray(s.T)
    if not mon.check('step-balance', T.shape == tuple(box.N) + (1,) and onp.isfinite(T).all(), f'{tag} shape {T.shape} or non-finite temperature'):
        return None
    T = T.reshape(-1)
    f, cp, q, Q = am.energy_fn(box, T0, convT, t, a)
    r0, r = f(T0), f(T)
    s0 = onp.linalg.norm(r0)
    # scale of the terms that cancel, for round-off
    eps = 1e-11 * onp.linalg.norm(a['rho'] * cp * T0 / a['dt'] * box.V)
    mon.le('step-balance', onp.linalg.norm(r), 1.05e-5 * s0 + eps, 0., f'{tag}: residual of the reference balance, initially {s0:.4g}; net heat in {float(-r0.sum()):.5g}')
    # total heat: stored = in - advected
    stored = (a['rho'] * cp * (T - T0) / a['dt']).sum() * box.V
    gain = (q.sum() * box.side(5)[2] + Q.sum() * box.V - (a['rho'] * cp * convT).sum() * box.V)
    mon.close('heat-balance', [stored], [gain], 1., 1.05e-5 * s0 * onp.sqrt(box.n) + eps * onp.sqrt(box.n), f'{tag} at t={t:g}')
    return T


def step(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    N = [int(k) for k in rng.integers(3, 9, 3)]
    if i % 5 == 4:
        N[int(rng.integers(3))] = 1 if rng.random() < .5 else 2
    a, box, loc = am.problem(rng, N, heat_source=i % 2)
    same = bool(rng.random() < .3)
    s = am.build(a, box, loc, case['_scratch'], same=same)
    mon.where = f'N {N} heat source {i % 2}'
    for j in range(3):
        on = j != 1
        t = float(rng.uniform(0, .98) * a['t_OFF']) if on else float(a['t_OFF'] * rng.uniform(1., 3.))
        if j == 1 and rng.random() < .3:
            t = a['t_OFF']
        T0 = am.field(rng, box)
        adv = bool(rng.random() < .6)
        convT = rng.normal(size=box.n) * 1e6 * adv
        T = observe(mon, s, box, a, T0, convT, t, f'laser {"on" if on else "off"}')
        if T is None:
            return
        f = am.energy_fn(box, T0, convT, t, a)[0]
        X, A = am.sparse_newton(box, f, T0)
        if onp.abs(f(X)).max() <= 1e-8 * onp.abs(f(T0)).max():
            # implicit Euler matrix is an M-matrix with row sums >= rho cp V/dt: |error| <= |residual| / that (2x for the conductivity's slope)
            w = (a['rho'] * 300. * box.V / a['dt'])
            mon.close('step-solution', T, X, 1., 3 * onp.linalg.norm(f(T0)) * 1.1e-5 / w + 1e-6, f'laser {"on" if on else "off"}')
        else:
            mon.event('reference-not-converged')
        if not on:
            # no laser: same step as with the laser switched off altogether
            b = dict(a, P=0.) if a['heat_source'] == 0 else a
            if a['heat_source'] == 0:
                g = am.energy_fn(box, T0, convT, t, b)[0]
                mon.close('laser-off', g(T), f(T), 1e-9, 1e-300 + onp.abs(f(T0)).max())
            else:
                src = onp.asarray(s.get_body_heat_source(t)).reshape(-1)
                mon.check('laser-off', src.shape == (box.n,) and (src == 0).all(), f'heat source while the laser is off: {src[:4]}')
        mon.sig(i % 2, on, a['h'] > 0, a['emissivity'] > 0, adv, same, min(N) <= 2)


def power(case, mon):
    """a beam well inside a resolved surface deposits P*eta, whatever the scan position; body source the same when its depth is resolved"""
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    loc = [6, 6, 4]
    hs = i % 2
    a, box, lb = am.problem(rng, [8, 8, 8], loc, heat_source=hs, h=0., emissivity=0.)
    a['rb'] = float(3.2 * box.h[:2].max())
    m = a['rb'] * 2.2
    N = [int(onp.ceil((2 * m + r * box.h[:2].max()) / hh)) for r, hh in zip((5, 2), box.h)] + [8]
    box = fv.Box(box.h * N, N)
    mon.where = f'N {N}'
    a['X0'] = [float(rng.uniform(m, .5 * box.L[0])), float(rng.uniform(m, max(m * 1.001, box.L[1] - m))), float(box.L[2])]
    if hs == 1:
        lay = int(rng.integers(1, 9))       # whole layers (centres at depth (l-1/2)h, so a depth of (l +- .4)h heats l layers)
        a['phi'] = float(lay * box.h[2] * a['speed'] * a['rb']**2 / a['P'])
    a['t_OFF'] = float(.8 * (box.L[0] - m - a['X0'][0]) / a['speed'])
    s = am.build(a, box, lb, case['_scratch'])
    for j in range(3):
        t = float(rng.uniform(0, .95) * a['t_OFF'])
        T0 = onp.full(box.n, a['T_ref'])
        T = observe(mon, s, box, a, T0, onp.zeros(box.n), t)
        if T is None:
            return
        absorbed = (a['rho'] * am.cp_np(T0) * (T - T0)).sum() * box.V / a['dt']
        mon.close('laser-power' if hs == 0 else 'body-power', [absorbed], [a['P'] * a['eta']], 4e-3, a['P'] * a['eta'],
                  'absorbed power of a fully resolved beam')
        # hottest column is under the laser
        c = box.c[int(T.argmax())]
        mon.close('beam-centre', c[:2], [a['X0'][0] + a['speed'] * t, a['X0'][1]], 1., .75 * box.h[:2].max())
    mon.sig('power', hs, j)


def calm(case, mon):
    fu.quiet()
    import jax.numpy as np
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    N = [int(k) for k in rng.integers(3, 8, 3)]
    a, box, loc = am.problem(rng, N, heat_source=(i // 2) % 2, h=0., emissivity=0.)
    a['t_OFF'] = 1e-12
    if i % 4 >= 2:
        a['h'] = 1e4
        a['emissivity'] = .7
    b = dict(a)
    if a['h'] == 0:
        for key in ('h', 'emissivity', 'stefan_boltzmann'):
            b.pop(key)                      # documented defaults: no convection, no radiation
    s = am.build(b, box, loc, case['_scratch'])
    mon.event('defaults', a['h'] == 0)
    T0 = am.field(rng, box, lo=a['T_ref'])
    T0 = onp.maximum(T0, a['T_ref'])
    z = onp.zeros(box.n)
    T = observe(mon, s, box, a, T0, z, 1e-5, 'no laser')
    if T is None:
        return
    r0 = onp.linalg.norm(am.energy_fn(box, T0, z, 1e-5, a)[0](T0))
    w = a['rho'] * 300. * box.V / a['dt']
    slack = 3 * 1.1e-5 * r0 / w + 1e-7
    # no source: never hotter than before; without losses never colder either
    mon.le('bounds', T.max(), T0.max(), slack, 'heated without a source')
    q = am.top_flux(box, T0[box.side(5)[0]], 1e-5, a)
    drop = (-q).clip(0).max() * a['dt'] / (a['rho'] * 400. * box.h[2])
    mon.le('bounds', T0.min() - drop, T.min(), slack, 'cooled below everything around it')
    if a['h'] == 0:
        cp = am.energy_fn(box, T0, z, 1e-5, a)[1]
        mon.close('insulated', [(a['rho'] * cp * (T - T0)).sum() * box.V], [0.], 1., (1.05e-5 * r0 * onp.sqrt(box.n) * a['dt']) + 1e-12 * (a['rho'] * cp * T0).sum() * box.V)
    else:
        cp = am.energy_fn(box, T0, z, 1e-5, a)[1]
        mon.le('insulated', float((cp * (T - T0)).sum()), 0., slack * cp.sum(), 'a hot body with losses gained heat')
    # mirrored state gives the mirrored result (laser off)
    for ax in (0, 1):
        M = lambda v: onp.flip(v.reshape(box.N), ax).reshape(-1)
        put(s, box, M(T0), z, 1e-5)
        s.vel, s.conv, s.grad_p0 = [np.zeros(box.N + [3])] * 3
        s.time_integration()
        mon.close('mirror', onp.asarray(s.T).reshape(-1), M(T), 1., 2 * slack + 1e-6, f'axis {ax}')
    # uniform at the reference temperature: nothing happens
    U = onp.full(box.n, a['T_ref'])
    put(s, box, U, z, 1e-5)
    s.time_integration()
    mon.close('steady', onp.asarray(s.T).reshape(-1), U, 1e-10)
    mon.sig('calm', a['h'] > 0, a['heat_source'])


RUN = dict(step=step, power=power, calm=calm)
