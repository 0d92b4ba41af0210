import numpy as onp
from vf import femutil as fu
from vf.refs import pf

LEVEL = 'exploration'
RULE = ('signature = grid shape class | number of orientations | anisotropy | field class | precision; counted when the evolution rate '
        'returned by the code was compared with the reference at every cell')
ASSUMPTIONS = ['model constants: temperature capped at 2000 K, sharp solid/liquid switch at the liquidus, no-flux domain walls',
               'temperatures closer than 1e-6 (relative) to the liquidus but not equal to it are not sampled (the switch is discontinuous there)']
REQUIRED = {'rate': 40, 'energy-gradient': 10, 'dissipation': 10, 'no-flux-conservation': 10, 'absent-orientation': 5, 'fixed-points': 10,
            'relabel': 10, 'mirror': 10, 'axis-swap': 10, 'isotropy-limit': 5}


def cases(tier, seed):
    rng = onp.random.default_rng([seed, 4141])
    out = []
    for i in range(24 if tier == 'quick' else 200):
        out.append(dict(kind='rate', x64=bool(i % 4), cls=['random', 'grains', 'simplex', 'missing'][int(rng.integers(4))],
                        seed=[int(seed), i], cost=2))
        if i % 12 == 5:     # hundreds of orientations on a few cells
            out.append(dict(kind='rate', x64=True, cls='random', seed=[int(seed), 2000 + i], oris=int(rng.integers(70, 400)), cost=3))
        out.append(dict(kind='sym', seed=[int(seed), 1000 + i], cost=3))
    return out


def build(a, h, dirs):
    from jax_am.phase_field.allen_cahn import phase_field
    return phase_field(pf.crystal(h, dirs, a), a)


def ev(f, eta, T):
    import jax.numpy as np
    return onp.asarray(f(np.array(eta), 0., [np.array(T)]), dtype=float)


def rate(case, mon):
    fu.quiet()
    import jax
    jax.config.update('jax_enable_x64', case['x64'])
    rng = onp.random.default_rng(case['seed'])
    a, h = pf.args(rng, n=[3, 2, 2], num_oris=case['oris']) if 'oris' in case else pf.args(rng)
    N = a['Nx'] * a['Ny'] * a['Nz']
    q = pf.rotations(rng, a['num_oris'])
    if rng.random() < .3:       # axis-aligned crystals
        q = onp.tile([1., 0, 0, 0], (a['num_oris'], 1))
    dirs = pf.dirs_of(q)
    f = build(a, h, dirs)
    mon.where = f"{a['Nx']}x{a['Ny']}x{a['Nz']} oris {a['num_oris']} aniso {a['anisotropy']} {case['cls']} x64 {case['x64']}"
    for k in range(3):
        eta, T = pf.field(rng, a, N, case['cls']), pf.temperature(rng, a, N)
        if k == 1:
            T[:] = rng.choice([300., 1500., 1800., 2500.])
        if 'oris' in case:
            eta = eta * .2
        g = ev(f, eta, T)
        w = pf.rhs(eta, T, a, h, dirs)
        # the fluxes cancel: scale by the largest contribution
        sc = (pf.mobility(T, a) * (onp.abs(pf.bulk_grad(eta, T, a)) + a['kappa_g'] * a['ad_hoc'] * 4 * sum(1 / x**2 for x in h))).max()
        mon.close('rate', g, w, 1e-9 if case['x64'] else 3e-5, sc)
        # the coldest cells carry tiny mobilities: compare them on their own scale
        M = pf.mobility(T, a)
        mon.close('rate', g / M, w / M, 1e-9 if case['x64'] else 3e-4,
                  onp.abs(pf.bulk_grad(eta, T, a)).max() + a['kappa_g'] * a['ad_hoc'] * 4 * sum(1 / x**2 for x in h))
        mon.sig('rate', 1 in (a['Nx'], a['Ny'], a['Nz']), a['num_oris'], a['anisotropy'], case['cls'], case['x64'], k == 1)
    z = onp.where(eta > 2, eta, 0.)
    mon.close('fixed-points', ev(f, z, T), z, 1e-12, 1.)


def sym(case, mon):
    fu.quiet()
    import jax
    jax.config.update('jax_enable_x64', True)
    rng = onp.random.default_rng(case['seed'])
    a, h = pf.args(rng)
    n, m = (a['Nx'], a['Ny'], a['Nz']), a['num_oris']
    N = n[0] * n[1] * n[2]
    dirs = pf.dirs_of(pf.rotations(rng, m))
    f = build(a, h, dirs)
    eta, T = pf.field(rng, a, N, 'random'), pf.temperature(rng, a, N)
    base = ev(f, eta, T)
    sc = onp.abs(base).max()
    mon.where = f"{n} oris {m} aniso {a['anisotropy']}"
    p = rng.permutation(m)
    mon.close('relabel', ev(build(a, h, dirs[:, p]), eta[:, p], T), base[:, p], 1e-9, sc)
    # mirror one axis (field, temperature, crystal directions)
    ax = int(rng.integers(3))
    sh = (a['Nz'], a['Ny'], a['Nx'])
    fl = lambda u: onp.flip(u.reshape(sh + (-1,)), 2 - ax).reshape(N, -1)
    d2 = dirs.copy()
    d2[..., ax] *= -1
    mon.close('mirror', ev(build(a, h, d2), fl(eta), fl(T)), fl(base), 1e-9, sc)
    # rotate the whole set-up: relabel the spatial axes
    pr = rng.permutation(3)
    a3 = dict(a, Nx=n[pr[0]], Ny=n[pr[1]], Nz=n[pr[2]])
    order = (2, 1, 0)
    tr = lambda u: onp.transpose(u.reshape(sh + (-1,)).transpose(2, 1, 0, 3), tuple(pr) + (3,)).transpose(2, 1, 0, 3).reshape(N, -1)
    mon.close('axis-swap', ev(build(a3, tuple(h[k] for k in pr), dirs[..., pr]), tr(eta), tr(T)), tr(base), 1e-9, sc)
    # energy structure of the isotropic model
    ai = dict(a, anisotropy=0.)
    fi = build(ai, h, dirs)
    gi = ev(fi, eta, T)
    M = pf.mobility(T, ai)
    v = rng.normal(size=eta.shape)
    # fourth-order polynomial: five-point rule is exact up to rounding
    s = .5
    E = [pf.energy(eta + t * s * v, T, ai, h) for t in (-2, -1, 1, 2)]
    dE = (E[0] - 8 * E[1] + 8 * E[2] - E[3]) / (12 * s)
    mon.close('energy-gradient', [-(gi / M * v).sum()], [dE], 1e-8, onp.abs(gi / M * v).sum())
    dedt = (-(gi / M) * gi).sum()
    mon.check('dissipation', dedt <= 0 and (gi**2).sum() > 0, f'energy rate {dedt}')
    e1 = pf.energy(eta, T, ai, h)
    dt = 1e-9 * onp.abs(eta).max() / onp.abs(gi).max() * 1e3
    mon.le('dissipation', pf.energy(eta + dt * gi, T, ai, h), e1, 1e-12 * abs(e1) + 1e-9 * onp.abs(gi * gi / M).sum() * dt)
    # without bulk energy and at uniform temperature the total amount of each orientation is conserved
    a0 = dict(a, m_g=0., anisotropy=0.)
    Tu = onp.full((N, 1), rng.uniform(400, 3000))
    g0 = ev(build(a0, h, dirs), eta, Tu)
    mon.close('no-flux-conservation', g0.sum(0), onp.zeros(m), 1e-10, onp.abs(g0).sum() + 1e-300)
    uni = onp.tile(rng.uniform(0, 1, (1, m)), (N, 1))
    mon.close('no-flux-conservation', ev(build(a0, h, dirs), uni, T), onp.zeros((N, m)), 1e-10, 1.)
    # orientations that are nowhere present stay absent; perfect crystal and pure liquid are stationary
    if m > 1:
        ab = eta.copy()
        ab[:, 0] = 0.
        mon.check('absent-orientation', (ev(f, ab, T)[:, 0] == 0).all(), 'orientation nucleated from nothing')
    one = onp.zeros((N, m))
    one[:, int(rng.integers(m))] = 1.
    Ts = rng.uniform(300., .999 * a['T_liquidus'], (N, 1))
    mon.close('fixed-points', ev(f, one, Ts), onp.zeros((N, m)), 1e-9, a['m_g'] * pf.mobility(Ts, a).max())
    mon.close('fixed-points', ev(f, 0 * one, T), onp.zeros((N, m)), 1e-12, 1.)
    # a crystal melts above the liquidus
    Th = rng.uniform(1.001 * a['T_liquidus'], 4000., (N, 1))
    mon.check('fixed-points', (ev(f, one, Th)[one == 1] < 0).all(), 'solid does not melt above the liquidus')
    small = dict(a, anisotropy=1e-9)
    mon.close('isotropy-limit', ev(build(small, h, dirs), eta, T), gi, 1e-7, onp.abs(gi).max())
    mon.sig('sym', 1 in n, m, a['anisotropy'], ax, tuple(int(k) for k in pr))


RUN = dict(rate=rate, sym=sym)
