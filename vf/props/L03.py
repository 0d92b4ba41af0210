"""Lock-step of the free-surface thermal lattice-Boltzmann solver against an independent reference."""
import numpy as onp
from vf import femutil as fu
from vf.refs import lbm

LEVEL = 'exploration'
RULE = ('signature = geometry | flow only or thermal | molten/solid/growing/shrinking cells seen; counted per real simulation whose every output was compared '
        'cell by cell with the reference')
ASSUMPTIONS = ['the domain is closed by wall cells, as in all examples', 'double precision', 'a comparison stops where the reference sits on a discrete threshold to 1e-10',
               'among curvature directions equal to round-off either choice is accepted']
FIELDS = ('phase', 'mass', 'rho', 'vel', 'T', 'kappa', 'melted')
REQUIRED = dict({k: 60 for k in FIELDS}, **{'conversions': 6, 'melting': 3, 'initial': 8})


def cases(tier, seed):
    kinds = ['pool', 'powder', 'drop', 'bubble', 'dam', 'obstacle']
    out = []
    n = 24 if tier == 'quick' else 240
    for i in range(n):
        out.append(dict(kind='run', geom=kinds[i % 6], mode=['flow', 'thermal'][(i // 6) % 2], i=i, seed=[int(seed), i], steps=24 if tier == 'quick' else 60, cost=7))
    return out


def scenario(rng, geom, mode, steps, interval=1, N=None):
    N = N or tuple(int(k) for k in rng.integers(9, 13, 3))
    ph = lbm.geometry(rng, N, geom)
    U = 6e-6 / (2e-7)**2
    o = dict(gravity=float(rng.choice([9.8, rng.uniform(2e-4, 8e-4) * U])), dynamic_viscosity=float(10.**rng.uniform(-2.1, -1)),
             st_coeff=float(rng.uniform(0., 2.)), st_grad_coeff=float(rng.choice([-1, 1]) * rng.uniform(0, 2e-3)),
             rp_coeff=float(rng.choice([0., .54])), emissivity=float(rng.choice([0., .3, 1.])), h_conv=float(rng.choice([0., 100., 1e6])),
             heat_capacity=float(rng.uniform(400, 800)), thermal_diffusivitity_l=float(10.**rng.uniform(-5.3, -4.7)),
             thermal_diffusivitity_s=float(10.**rng.uniform(-5.6, -4.7)), T0=float(rng.uniform(280, 400)), rho0=float(rng.uniform(4000, 9000)),
             beam_size=float(rng.uniform(1.5, 4) * 6e-6), absorbed_fraction=float(rng.uniform(.2, .9)), T_evap=float(rng.uniform(2800, 3300)))
    if mode == 'thermal':
        # heat the spot by roughly 60-400 K per step while it is on
        rate = rng.uniform(100, 450)
        o['laser_power'] = float(rate * o['rho0'] * o['heat_capacity'] * (6e-6) * onp.pi * o['beam_size']**2 / 2 / 2e-7 / o['absorbed_fraction'])
        o['T_solidus'] = float(rng.uniform(500, 800))
        o['T_liquidus'] = o['T_solidus'] + float(rng.uniform(20, 150))
        o['latent_heat_fusion'] = float(rng.uniform(2e4, 2e5))
    sv = float(rng.uniform(.3, 3) * 6e-6 / 2e-7 / 10)
    o['scanning_vel'] = sv
    h, dt = 6e-6, 2e-7
    k = int(rng.integers(5, steps - 6))
    ang = rng.uniform(0, 2 * onp.pi, 2)
    d = [(k + .4) * dt * sv, (steps - k - 1 + .4) * dt * sv]
    x = [N[0] * rng.uniform(.35, .65) * h]
    y = [N[1] * rng.uniform(.35, .65) * h]
    for a, dd in zip(ang, d):
        x.append(x[-1] + dd * float(onp.cos(a)))
        y.append(y[-1] + dd * float(onp.sin(a)))
    A = lbm.params(N, steps, xy=dict(x_pos=[float(v) for v in x], y_pos=[float(v) for v in y], switch=[1, int(rng.integers(2)), 0]), interval=interval, **o)
    return N, ph, A


def run(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    N, ph, A = scenario(rng, case['geom'], case['mode'], case['steps'])
    only = case['mode'] == 'flow'
    rec = lbm.run_real(A, ph, case['_scratch'], only)
    s = lbm.Sim(A, ph, only)
    U = s.U
    seen = set()
    mon.where = f"{case['geom']} {case['mode']} {N}"
    if not mon.check('initial', len(rec.log) == len(s.path), f'{len(rec.log)} outputs for {len(s.path)} laser samples'):
        return
    prev = None
    for i, (_, _, d) in enumerate(rec.log):
        if i:
            s.step(hint=d['kappa'])
        o = s.out()
        big = onp.abs(o['vel']).max() / (U.L / U.t)
        if s.tie or not all(onp.isfinite(v).all() for v in o.values()) or big > .35 or o['T'].max() > 12000:
            mon.event('stopped-' + (s.tie or 'unstable'))
            mon.sig('stopped', s.tie or 'unstable', case['geom'])
            break
        mon.where = f"{case['geom']} {case['mode']} {N} output {i}"
        if not mon.equal('phase', d['phase'], o['phase']):
            return
        act = o['phase'] <= lbm.LG
        sc = dict(mass=1., rho=U.rho, vel=max(onp.abs(o['vel']).max(), 1e-3 * U.L / U.t), T=o['T'].max(), kappa=max(1., onp.abs(o['kappa']).max()), melted=1.)
        ok = True
        for k in FIELDS[1:]:
            g, w = d[k], o[k]
            if k == 'kappa' and i:
                g, w = onp.where(s.amb, 0, g), onp.where(s.amb, 0, w)
            ok &= mon.close(k, g, w, 2e-6 if k != 'melted' else 1e-9, sc[k])
        if not ok:
            return
        if i == 0:
            mon.event('initial')
        if prev is not None and (prev != o['phase']).any():
            mon.event('conversions', int((prev != o['phase']).sum()))
            for a, b in set(zip(prev[prev != o['phase']].tolist(), o['phase'][prev != o['phase']].tolist())):
                seen.add(f'{a}>{b}')
        if o['melted'].sum() > 0 and not only:
            mon.event('melting')
        prev = o['phase'].copy()
    mon.sig(case['geom'], case['mode'], sorted(seen), bool(o['melted'].max() > 0))


RUN = dict(run=run)
