"""Heat in the lattice-Boltzmann solver: absorbed power, latent heat, losses, walls, melted record."""
import numpy as onp
from vf import femutil as fu
from vf.refs import lbm

LEVEL = 'exploration'
RULE = ('signature = melts or stays solid | losses | geometry | precision; counted per real simulation whose heat content was balanced step by step '
        'from the recorded temperatures')
ASSUMPTIONS = ['heat content per cell follows from temperature by the documented enthalpy curve (sensible + latent between solidus and liquidus)',
               'balances are taken without flow (no driving forces), before heat reaches the isothermal walls', 'surface share of a flat free surface sums to one (interface + first liquid layer)']
REQUIRED = {'absorbed-power': 60, 'losses': 12, 'no-flow': 60, 'melted': 60, 'bounds': 30, 'isothermal': 20, 'wall-cooling': 4, 'latent': 3, 'centroid': 4, 'mixture': 3}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 10
    out = []
    for i in range(10 * n):
        out.append(dict(kind='balance', i=i, seed=[int(seed), i], cost=9))
    for i in range(6 * n):
        out.append(dict(kind='cool', i=i, seed=[int(seed), 3000 + i], cost=9))
    for i in range(6 * n):
        out.append(dict(kind='melt', i=i, seed=[int(seed), 4000 + i], cost=9))
    return out


QUIET = dict(gravity=0., st_coeff=0., st_grad_coeff=0., rp_coeff=0.)


def heat(T, A):
    """specific enthalpy [J/kg] of a temperature [K]"""
    v = lambda k: A[k]['value']
    cp, Ts, Tl, Lf = v('heat_capacity'), v('T_solidus'), v('T_liquidus'), v('latent_heat_fusion')
    return onp.where(T < Ts, cp * T, onp.where(T < Tl, cp * Ts + (T - Ts) / (Tl - Ts) * (cp * (Tl - Ts) + Lf), cp * T + Lf))


def melted_log(mon, log, Ts):
    want = onp.zeros(log[0][2]['T'].shape)
    for i, (_, _, d) in enumerate(log):
        if i:
            T = log[i - 1][2]['T']
            edge = onp.abs(T - Ts) < 1e-3
            want = onp.where(edge, d['melted'], onp.maximum(want, T > Ts))
        mon.equal('melted', d['melted'], want, f'output {i}: record of melted cells')


def balance(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    N = (int(rng.integers(19, 22)), int(rng.integers(19, 22)), int(rng.integers(11, 14)))
    ph = onp.full(N, lbm.GAS)
    zb = int(rng.integers(7, N[2] - 3))
    ph[:, :, :zb] = lbm.LIQ
    lbm.shell(ph)
    melts, lossy, x64 = i % 2 == 1, i % 4 >= 2, i % 5 != 4
    h, dt, rho, cp = 6e-6, 2e-7, float(rng.uniform(4000, 9000)), float(rng.uniform(400, 800))
    r = float(rng.uniform(2.2, 2.9))
    o = dict(QUIET, rho0=rho, heat_capacity=cp, beam_size=r * h, absorbed_fraction=float(rng.uniform(.2, .9)), T0=float(rng.uniform(280, 400)),
             thermal_diffusivitity_l=float(rng.uniform(.02, .12) * h * h / dt), thermal_diffusivitity_s=float(rng.uniform(.02, .12) * h * h / dt),
             emissivity=float(rng.uniform(.2, 1.)) if lossy else 0., h_conv=float(10.**rng.uniform(6, 7)) if lossy else 0.)
    rate = rng.uniform(60, 250) * (8. if i % 4 == 1 else 1.)
    P = float(rate * rho * cp * h * onp.pi * (r * h)**2 / 2 / dt / o['absorbed_fraction'])
    o['laser_power'] = P
    if melts:
        o['T_solidus'] = o['T0'] + float(rng.uniform(100, 300))
        o['T_liquidus'] = o['T_solidus'] + float(rng.uniform(20, 100))
        o['latent_heat_fusion'] = float(rng.uniform(2e4, 1.5e5))
        o['T_evap'] = o['T_liquidus'] + 20. * float(rng.uniform(.5, 1.))        # far beyond boiling (no recoil here): the enthalpy curve goes on
    steps, sv = 9, float(rng.uniform(.01, .12) * h / dt)
    xs = [float(N[0] / 2 + rng.uniform(-1, .5)) * h]
    ys = float(N[1] / 2 + rng.uniform(-1, 1)) * h
    A = lbm.params(N, steps, xy=dict(x_pos=[xs[0], xs[0] + sv * dt * (5 + .4), xs[0] + sv * dt * (9 + .8)], y_pos=[ys] * 3, switch=[1, 0, 0]), scanning_vel=sv, **o)
    rec = lbm.run_real(A, ph, case['_scratch'], x64=x64)
    path = lbm.path(A)
    mon.where = f'melts {melts} losses {lossy} x64 {x64} N {N}'
    act = rec.log[0][2]['phase'] <= lbm.LG
    m = rho * h**3
    total = []
    for k, (_, _, d) in enumerate(rec.log):
        mon.check('no-flow', onp.array_equal(d['phase'] <= lbm.LG, act) and onp.abs(d['vel']).max() < 1e-3 * h / dt, f'output {k}: driven without forces')
        T = d['T']
        Q = (heat(T[act], A) - heat(onp.array(o['T0']), A)).sum() * m
        total.append(Q)
        if k == 0:
            mon.close('isothermal', T[act], onp.full(int(act.sum()), o['T0']), 1e-5)
            continue
        # absorbed power by this step's switch, losses from the temperatures before the step
        Tp = rec.log[k - 1][2]['T']
        on = path[k][2]
        gain = on * P * o['absorbed_fraction'] * dt
        # flat surface: interface layer carries half of the area measure, the layer below the other half
        lay = [zb, zb - 1]
        loss = 0.
        for z in lay:
            Tz = Tp[1:-1, 1:-1, z]
            loss += .5 * (o['h_conv'] * (Tz - o['T0']) + o['emissivity'] * 5.67e-8 * (Tz**4 - o['T0']**4)).sum() * h * h * dt
        # cells next to the side walls see a bent surface: keep them cold in the set-up, ignore their share
        full = P * o['absorbed_fraction'] * dt
        mon.close('absorbed-power', [total[k] - total[k - 1]], [gain - loss], 5e-3 if not lossy and k <= 5 else 1.5e-2, full, f'step {k} laser {on}')
        if lossy and loss > .01 * full:
            mon.close('losses', [gain - (total[k] - total[k - 1])], [loss], .1, max(loss, .1 * full))
        elif lossy:
            mon.event('losses-small')
        if on and not lossy and k == 1:
            D = (heat(T, A) - heat(onp.array(o['T0']), A)) * act
            ii = onp.indices(N) + .5
            c = [(D * ii[a]).sum() / D.sum() for a in range(2)]
            mon.close('centroid', c, [path[1][0] / h, path[1][1] / h], .01, 1.)
            mon.check('centroid', set(onp.unique(onp.argwhere(D > .02 * D.max())[:, 2])) <= {zb, zb - 1, zb - 2}, 'heat appears below the surface at once')
        if not lossy and k > 6:
            hot = rec.log[k - 1][2]['T'][act].max()
            mon.le('bounds', T[act].max(), hot, .02 * (hot - o['T0']) + 1e-4 * hot, f'step {k}: heats up after the laser is off')
        # (over-relaxed lattice diffusion undershoots slightly)
        mon.le('bounds', o['T0'], T[act].min(), .08 * (heat(T[act].max(), A) - heat(onp.array(o['T0']), A)) / cp + 1e-4 * o['T0'], f'step {k}: colder than the surroundings')
    melted_log(mon, rec.log, A['T_solidus']['value'])
    if melts and rec.log[-1][2]['melted'].any():
        mon.event('latent')
    mon.sig('balance', melts, lossy, x64)


def cool(case, mon):
    """no laser: everything stays at the ambient temperature; a heated block between cold walls relaxes to it"""
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    geom = ['powder', 'pool', 'drop', 'bubble', 'obstacle', 'dam'][case['i'] % 6]
    N = tuple(int(k) for k in rng.integers(8, 11, 3))
    ph = lbm.geometry(rng, N, geom)
    T0 = float(rng.uniform(280, 400))
    h, dt = 6e-6, 2e-7
    A = lbm.params(N, 10, **dict(QUIET, T0=T0, laser_power=0., h_conv=1e6, emissivity=.8))
    rec = lbm.run_real(A, ph, case['_scratch'])
    for k, (_, _, d) in enumerate(rec.log):
        act = d['phase'] <= lbm.LG
        mon.close('isothermal', d['T'][act], onp.full(int(act.sum()), T0), 1e-6, detail=f'output {k} without any heating')
    melted_log(mon, rec.log, 1563.)
    # heat, switch off, and wait: walls at the ambient temperature take the heat out
    ph = lbm.geometry(rng, N, 'flat')
    sv = .01 * h / dt
    P = float(250 * 8440 * 588.23 * h * onp.pi * (2.5 * h)**2 / 2 / dt / .4)
    x, y = N[0] / 2 * h, N[1] / 2 * h
    A = lbm.params(N, 100, xy=dict(x_pos=[x, x + sv * dt * 4.4, x + sv * dt * 100.8], y_pos=[y] * 3, switch=[1, 0, 0]), scanning_vel=sv, interval=1,
                   **dict(QUIET, T0=T0, laser_power=P, beam_size=2.5 * h, emissivity=0., h_conv=0., thermal_diffusivitity_s=.15 * h * h / dt, thermal_diffusivitity_l=.15 * h * h / dt,
                          T_solidus=20000., T_liquidus=20100.))
    rec = lbm.run_real(A, ph, case['_scratch'])
    act = rec.log[1][2]['phase'] <= lbm.LG
    pk = [d['T'][act].max() - T0 for _, _, d in rec.log]
    ex = [(d['T'][act] - T0).sum() for _, _, d in rec.log]
    mon.check('wall-cooling', pk[5] > 100, f'peak rise {pk[5]}')
    mon.check('wall-cooling', all(b <= a * (1 + 1e-6) for a, b in zip(ex[8:], ex[9:])), 'heat content grows without a source')
    mon.check('wall-cooling', ex[-1] < .8 * ex[6] and pk[-1] < .5 * pk[6], f'heat {ex[6]:.4g} -> {ex[-1]:.4g}, peak {pk[6]:.4g} -> {pk[-1]:.4g}')
    mon.le('bounds', T0, min(d['T'][act].min() for _, _, d in rec.log[1:]), .03 * max(pk))
    mon.sig('cool', geom)


def melt(case, mon):
    """real flow: the melted record, bounds and the solid/molten split over a melting history"""
    fu.quiet()
    from vf.props.L03 import scenario
    rng = onp.random.default_rng(case['seed'])
    N, ph, A = scenario(rng, ['powder', 'pool', 'obstacle'][case['i'] % 3], 'thermal', 26)
    x64 = case['i'] % 2 == 0
    rec = lbm.run_real(A, ph, case['_scratch'], x64=x64)
    T = rec.log[-1][2]['T']
    if not onp.isfinite(T).all() or T.max() > 12000:
        mon.event('stopped-unstable')
        return
    melted_log(mon, rec.log, A['T_solidus']['value'])
    # a molten cell without solid neighbours at any time may move, material whose whole neighbourhood stayed solid must not
    cold = onp.ones(N, bool)
    for k, (_, _, d) in enumerate(rec.log[1:], 1):
        Tp = rec.log[k - 1][2]['T']
        hot = Tp >= A['T_solidus']['value'] * (1 - 1e-6)
        near = hot | onp.stack([lbm.shift(hot, e) for e in lbm.E[1:]]).any(0)
        edge = onp.stack([lbm.shift((d['phase'] != rec.log[k - 1][2]['phase']) | (Tp == 0) & (d['phase'] <= 1), e) for e in lbm.E]).any(0)
        still = ~near & (d['phase'] == lbm.LIQ) & (rec.log[k - 1][2]['phase'] == lbm.LIQ) & ~edge
        rp = rec.log[k - 1][2]['rho']
        same = onp.stack([onp.abs(lbm.shift(rp, e) - rp) < 1e-6 * rp for e in lbm.E[1:]]).all(0)
        if (still & same).any():
            mon.le('mixture', onp.abs(d['vel'][still & same]).max(), 0., 2e-6 * 30 + (1e-4 if not x64 else 0), f'output {k}: solid material moves')
    mon.sig('melt', x64, bool(rec.log[-1][2]['melted'].any()))


RUN = dict(balance=balance, cool=cool, melt=melt)
