"""GAMMA thermal solver (jax_am.cfd.gamma): lock-step, boundary flux, heat balance, histories."""
import numpy as onp
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = precision | temperature regime | losses | laser | grid class; counted when the state after a real step was compared cell by cell '
        'with the reference update')
ASSUMPTIONS = ['boundary temperatures are the mean of ghost and wall cell at the start of the step', 'conductivity of the wall cell at each wall',
               'heat balance is exact where the conductivity is uniform (below 300 K, above the liquidus)']
REQUIRED = {'step': 40, 'wall-flux': 200, 'material': 40, 'laser-power': 8, 'heat-balance': 8, 'history': 8, 'bounds': 8, 'mirror': 8, 'steady': 4, 'relaxes': 4}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 12
    out = []
    for i in range(40 * n):
        out.append(dict(kind='step', i=i, seed=[int(seed), i], cost=2))
    for i in range(8 * n):
        out.append(dict(kind='power', i=i, seed=[int(seed), 5000 + i], cost=2))
        out.append(dict(kind='history', i=i, seed=[int(seed), 6000 + i], cost=3))
    return out


def make(rng, N=None):
    N = [int(k) for k in rng.integers(1, 8, 3)] if N is None else N
    d = rng.uniform(.5, 2, 3) * 1e-5
    a = dict(eta=float(rng.uniform(.1, .9)), r=float(rng.uniform(1.5, 5) * d[:2].max()), rho=float(rng.uniform(4000, 9000)), h=float(rng.choice([0., 10., 1e5])),
             eps=float(rng.choice([0., .4, 1.])), SB=5.67e-8, T0=float(rng.uniform(290, 400)), Ts=1563., Tl=1623., L=float(rng.uniform(1e3, 6e3)))
    x, y, z = onp.meshgrid(*[(onp.arange(n) + .5) * h for n, h in zip(N, d)], indexing='ij')
    return N, d, a, x, y


def mat(T, a):
    k = .0163 * onp.clip(T, 300, a['Tl']) + 4.5847
    cp = .2441 * onp.clip(T, 300, a['Tl']) + 338.39 + onp.where((T > a['Ts']) & (T < a['Tl']), a['L'], 0.)
    return onp.clip((T - a['Ts']) / (a['Tl'] - a['Ts']), 0, 1), k, cp


def fluxes(T, a, xl, yl, x, y, P):
    """heat flux into the body through each wall, from the state at the start of the step"""
    I = slice(1, -1)
    out = []
    for ax in range(3):
        for g, c in ((0, 1), (-1, -2)):
            s, q = [I] * 3, [I] * 3
            s[ax], q[ax] = g, c
            Tf = .5 * (T[tuple(s)] + T[tuple(q)])
            f = -a['h'] * (Tf - a['T0']) - a['SB'] * a['eps'] * (Tf**4 - a['T0']**4)
            if ax == 2 and g == -1:
                f = f + 2 * P * a['eta'] / onp.pi / a['r']**2 * onp.exp(-2 * ((x[:, :, 0] - xl)**2 + (y[:, :, 0] - yl)**2) / a['r']**2)
            out.append((ax, g, c, f))
    return out


def ref_step(T, a, xl, yl, x, y, P, d, dt):
    I = slice(1, -1)
    _, k, cp = mat(T, a)
    F = fluxes(T, a, xl, yl, x, y, P)
    Ti, ki = T[I, I, I], k[I, I, I]
    rate = onp.zeros_like(Ti)
    for ax in range(3):
        n = Ti.shape[ax]
        dT = onp.diff(Ti, axis=ax) / d[ax]
        lo = onp.zeros_like(Ti)
        hi = onp.zeros_like(Ti)
        s = [slice(None)] * 3
        s[ax] = slice(1, None)
        lo[tuple(s)] = -ki[tuple(s)] * dT           # flow in from the lower neighbour
        s[ax] = slice(0, n - 1)
        hi[tuple(s)] = ki[tuple(s)] * dT
        for (b, g, c, f) in F:
            if b == ax:
                s = [slice(None)] * 3
                s[ax] = 0 if g == 0 else n - 1
                (lo if g == 0 else hi)[tuple(s)] = f
        rate += (lo + hi) / d[ax]
    return Ti + dt * rate / a['rho'] / cp[I, I, I], F, k, cp


def call(T, xl, yl, x, y, P, d, dt, a, f32=False):
    import jax
    import jax.numpy as np
    from jax_am.cfd import gamma
    jax.config.update('jax_enable_x64', not f32)
    return gamma.update_T(np.array(T), xl, yl, np.array(x), np.array(y), P, *[float(v) for v in d], dt, a)


def state(rng, N):
    m = int(rng.integers(4))
    s = [n + 2 for n in N]
    if m == 0:
        T = rng.uniform(250, 3000, s)
    elif m == 1:
        T = rng.uniform(1500, 1700, s)
    elif m == 2:
        T = 300 + 2000 * onp.exp(-((onp.indices(s) - rng.uniform(0, 6, (3, 1, 1, 1)))**2).sum(0) / 6)
    else:
        T = rng.uniform(250, 310, s)
    return m, T


def step(case, mon):
    fu.quiet()
    from jax_am.cfd import gamma
    import jax
    import jax.numpy as np
    rng = onp.random.default_rng(case['seed'])
    f32 = case['i'] % 4 == 3
    N, d, a, x, y = make(rng)
    for j in range(3):
        m, T = state(rng, N)
        for v in (1563., 1623.):
            T = onp.where(onp.abs(T - v) < 1e-3, v + 1, T)
        if f32:
            T = T.astype(onp.float32).astype(float)
        P = float(rng.choice([0., 50., 200.]))
        xl, yl = [float(rng.uniform(-.3, 1.3) * n * h) for n, h in zip(N[:2], d)]
        dt = float(10.**rng.uniform(-7, -5.5))
        mon.where = f'N {N} regime {m} P {P} f32 {f32}'
        got = onp.asarray(call(T, xl, yl, x, y, P, d, dt, a, f32), float)
        if not mon.check('step', got.shape == T.shape, f'shape {got.shape}'):
            return
        want, F, k, cp = ref_step(T, a, xl, yl, x, y, P, d, dt)
        I = slice(1, -1)
        big = onp.abs(T[I, I, I]).max() + onp.abs(want - T[I, I, I]).max()
        # float32 loses digits in the second differences: error ~ eps * T * dt k/(rho cp h^2) per axis
        dif = (dt * k[I, I, I] / a['rho'] / cp[I, I, I]).max() / d.min()**2
        tol = 1e-12 if not f32 else 4e-6 * (1 + 4 * dif)
        mon.close('step', got[I, I, I], want, tol * (1 + (4 * dif if not f32 else 0)), big)
        fl, kk, cc = [onp.asarray(v, float) for v in gamma.update_mat(np.array(T), a)]
        for g, w in zip((fl, kk, cc), (mat(T, a))):
            mon.close('material', g, w, 1e-10 if not f32 else 2e-5)
        # the ghost layers carry exactly the prescribed wall flux
        for ax, g, c, f in F:
            s, q = [I] * 3, [I] * 3
            s[ax], q[ax] = g, c
            jump = got[tuple(s)] - T[tuple(q)]
            mon.close('wall-flux', k[tuple(q)] * jump / d[ax], f, 1.,
                      (1e-4 if f32 else 1e-8) * onp.abs(f).max() + (1e-6 if f32 else 1e-14) * (k.max() * T.max() / d[ax]) + 1e-30, f'axis {ax} side {g}')
        # mirrored problem
        ax = int(rng.integers(2))
        Lx = N[ax] * d[ax]
        b = onp.asarray(call(onp.flip(T, ax).copy(), Lx - xl if ax == 0 else xl, Lx - yl if ax == 1 else yl, x, y, P, d, dt, a, f32), float)
        mon.close('mirror', onp.flip(b, ax)[I, I, I], got[I, I, I], (1e-11 if not f32 else 1e-5) * (1 + 4 * dif), big)
        mon.sig(f32, m, a['h'] > 0, a['eps'] > 0, P > 0, min(N) == 1)
    jax.config.update('jax_enable_x64', True)


def power(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    N, d, a, x, y = make(rng, [4, 4, 4])
    a['h'] = a['eps'] = 0.
    a['r'] = float(3.2 * d[:2].max())
    N = [int(onp.ceil(4.6 * a['r'] / h)) + 1 for h in d[:2]] + [int(rng.integers(2, 6))]
    x, y, _ = onp.meshgrid(*[(onp.arange(n) + .5) * h for n, h in zip(N, d)], indexing='ij')
    m = 2.2 * a['r']
    xl, yl = [float(rng.uniform(m, n * h - m)) for n, h in zip(N[:2], d)]
    P, dt = float(rng.uniform(20, 200)), 1e-7
    hot = case['i'] % 2
    base = 2000. if hot else 295.
    T = onp.full([n + 2 for n in N], base)
    got = onp.asarray(call(T, xl, yl, x, y, P, d, dt, a))[1:-1, 1:-1, 1:-1]
    cp = mat(onp.array(base), a)[2]
    Q = (a['rho'] * cp * (got - base)).sum() * d.prod() / dt
    mon.close('laser-power', [Q], [P * a['eta']], 4e-3, P * a['eta'])
    i = onp.unravel_index(got.argmax(), got.shape)
    mon.check('laser-power', i[2] == N[2] - 1 and abs((i[0] + .5) * d[0] - xl) < .75 * d[0] and abs((i[1] + .5) * d[1] - yl) < .75 * d[1], f'hottest cell {i}')
    # uniform conductivity (melt above the liquidus): heat balance of a random state, exactly
    a['h'], a['eps'] = float(rng.choice([0., 1e4])), float(rng.choice([0., .5]))
    T = rng.uniform(1700, 2600, [n + 2 for n in N])
    got = onp.asarray(call(T, xl, yl, x, y, P, d, dt, a))[1:-1, 1:-1, 1:-1]
    Q = (a['rho'] * cp * 0 + a['rho'] * mat(onp.array(2000.), a)[2] * (got - T[1:-1, 1:-1, 1:-1])).sum() * d.prod() / dt
    gain = sum(f.sum() * d.prod() / d[ax] for ax, _, _, f in fluxes(T, a, xl, yl, x, y, P))
    mon.close('heat-balance', [Q], [gain], 1e-7, a['rho'] * 700. * 2000 * d.prod() / dt)
    mon.close('heat-balance', [Q], [gain], 1e-6, abs(gain) + 1e-6 * a['rho'] * 700. * 2000 * d.prod() / dt)
    mon.sig('power', hot, a['h'] > 0, a['eps'] > 0)


def history(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    N, d, a, x, y = make(rng, [int(k) for k in rng.integers(3, 7, 3)])
    a['h'] = float(rng.choice([10., 1e4]))
    dt = float(.1 * d.min()**2 / (31 / (a['rho'] * 400.)))
    T = onp.full([n + 2 for n in N], a['T0'])
    P0 = float(rng.uniform(.5, 2) * 2000 * 31 * a['r'] / a['eta'])
    I = slice(1, -1)
    ref = T.copy()
    cur = T
    tmax = []
    for n in range(60):
        P = P0 if n < 30 else 0.
        xl, yl = float((.2 + .02 * n) * N[0] * d[0]), float(.5 * N[1] * d[1])
        before = onp.asarray(cur)
        cur = onp.asarray(call(cur, xl, yl, x, y, P, d, dt, a))
        w, F, k, cp = ref_step(before, a, xl, yl, x, y, P, d, dt)
        mon.close('history', cur[I, I, I], w, 1e-11)
        if P == 0.:
            # explicit step below the stability limit: no new extremes, ambient is the lower bound
            mon.le('bounds', cur[I, I, I].max(), before[I, I, I].max(), 1e-6, f'step {n}: heated with the laser off')
            lo = min(before[I, I, I].min(), a['T0'])
            drop = max(0., max(-(f.min()) / d[ax] for ax, _, _, f in F)) * dt / a['rho'] / 400.
            mon.le('bounds', lo - 3 * drop, cur[I, I, I].min(), 1e-6, f'step {n}')
        tmax.append(cur[I, I, I].max())
    mon.check('relaxes', tmax[29] > a['T0'] + 10 and tmax[-1] < tmax[29], f'peak {tmax[29]} then {tmax[-1]}')
    U = onp.full([n + 2 for n in N], a['T0'])
    mon.close('steady', onp.asarray(call(U, xl, yl, x, y, 0., d, dt, a)), U, 1e-13)
    mon.sig('history', a['h'], a['eps'] > 0)


RUN = dict(step=step, power=power, history=history)
