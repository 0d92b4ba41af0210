"""Free-surface bookkeeping of the lattice-Boltzmann solver: mass and phase invariants over histories."""
import numpy as onp
from vf import femutil as fu
from vf.refs import lbm
from vf.props.L03 import scenario

LEVEL = 'exploration'
RULE = ('signature = geometry | flow or thermal | precision | kinds of phase conversions seen; counted per real simulation whose every output satisfied '
        'or violated the invariants')
ASSUMPTIONS = ['the domain is closed by wall cells, as in all examples', 'total mass = density of liquid cells + mass of interface cells',
               'invariants are judged while the run is in the stable regime (lattice speed below 0.35)']
REQUIRED = {'mass': 100, 'walls': 100, 'phases': 100, 'interface': 100, 'no-leak': 60, 'empty-cells': 100, 'frozen': 4, 'free-fall': 3, 'rest': 3, 'converted': 5, 'finite': 100, 'initial': 8}


def cases(tier, seed):
    kinds = ['pool', 'powder', 'drop', 'bubble', 'dam', 'obstacle']
    out = []
    n = 18 if tier == 'quick' else 180
    for i in range(n):
        out.append(dict(kind='run', geom=kinds[i % 6], mode=['flow', 'thermal', 'flow'][(i // 6) % 3], i=i, seed=[int(seed), 700 + i],
                        steps=50 if tier == 'quick' else 200, x64=bool(i % 2), cost=8))
    # long histories, and a domain with more cells than 16-bit indices hold
    for i in range(3 if tier == 'quick' else 12):
        out.append(dict(kind='run', geom=kinds[(i + seed) % 6], mode=['flow', 'thermal'][i % 2], i=i, seed=[int(seed), 1700 + i], steps=260 if i < 2 else 14,
                        N=[36, 35, 30] if i % 3 == 2 else None, x64=bool((i + seed) % 2), cost=12))
    for i in range(4 if tier == 'quick' else 24):
        out.append(dict(kind='still', i=i, seed=[int(seed), 5000 + i], cost=8))
        out.append(dict(kind='fall', i=i, seed=[int(seed), 6000 + i], cost=8))
    return out


def neighbours(mask):
    return onp.stack([lbm.shift(mask, e) for e in lbm.E[1:]]).any(0)


def watch(mon, log, ph0, rho0, x64=True, vmax=None):
    """invariants of every recorded output; returns conversions seen"""
    tol = 2e-6 if x64 else 4e-5
    wall = ph0 == lbm.WALL
    first = log[0][2]
    # start: liquid untouched, gas next to liquid becomes interface, half full
    lg0 = (ph0 == lbm.GAS) & neighbours(ph0 == lbm.LIQ)
    mon.equal('initial', first['phase'], onp.where(lg0, lbm.LG, ph0))
    mon.close('initial', first['mass'][lg0], onp.full(int(lg0.sum()), .5), 1e-6)
    m0 = (ph0 == lbm.LIQ).sum() + .5 * lg0.sum()
    prev, pair, seen = first['phase'], onp.zeros((18,) + ph0.shape, bool), set()
    for i, (_, _, d) in enumerate(log):
        ph = d['phase']
        speed = onp.abs(d['vel']).max() if onp.isfinite(d['vel']).all() else onp.inf
        if vmax is not None and (speed > vmax or d['T'].max() > 12000):
            mon.event('stopped-unstable')
            break
        if not mon.check('finite', all(onp.isfinite(v).all() for v in d.values()), f'output {i} has non-finite values'):
            break
        liq, lg, gas = ph == lbm.LIQ, ph == lbm.LG, ph == lbm.GAS
        mon.check('phases', (liq | lg | gas | (ph == lbm.WALL)).all(), f'output {i}: phases {onp.unique(ph)}')
        mon.equal('walls', ph == lbm.WALL, wall, f'output {i}')
        if lg.any():
            mon.close('mass', [d['rho'][liq].sum() / rho0 + d['mass'][lg].sum()], [m0], tol, detail=f'output {i}: total mass')
        else:
            mon.event('no-interface')
        if i:
            near_l, near_g = neighbours(liq), neighbours(gas)
            mon.check('interface', not (lg & ~near_l).any(), f'output {i}: interface cells without liquid neighbour {onp.argwhere(lg & ~near_l)[:3].tolist()}')
            mon.check('interface', not (lg & ~near_g).any(), f'output {i}: interface cells without gas neighbour {onp.argwhere(lg & ~near_g)[:3].tolist()}')
            now = onp.stack([liq & lbm.shift(gas, e) for e in lbm.E[1:]])
            mon.check('no-leak', not (now & pair).any(), f'output {i}: liquid stays in contact with gas')
            if now.any():
                mon.event('transient-contact')
            pair = now
            off = gas | wall
            mon.check('empty-cells', not d['mass'][off].any() and not d['vel'][off].any() and (d['T'][off] == 0).all(), f'output {i}: gas or wall cells carry mass, velocity or heat')
            ch = ph != prev
            for a, b in set(zip(prev[ch].tolist(), ph[ch].tolist())):
                seen.add(f'{int(a)}>{int(b)}')
        prev = ph
    if seen:
        mon.event('converted')
    return sorted(seen)


def run(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    N, ph, A = scenario(rng, case['geom'], case['mode'], case['steps'], N=tuple(case['N']) if case.get('N') else None)
    mon.where = f"{case['geom']} {case['mode']} {N} x64={case['x64']}"
    rec = lbm.run_real(A, ph, case['_scratch'], case['mode'] == 'flow', x64=case['x64'])
    seen = watch(mon, rec.log, ph, A['rho0']['value'], case['x64'], vmax=.3 * A['h']['value'] / A['dt']['value'])
    mon.sig(case['geom'], case['mode'], case['x64'], seen)


def still(case, mon):
    """below the solidus nothing moves; a flat molten layer without forces stays at rest"""
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    geom = ['powder', 'pool', 'drop', 'obstacle'][case['i'] % 4]
    N = tuple(int(k) for k in rng.integers(9, 12, 3))
    ph = lbm.geometry(rng, N, geom)
    A = lbm.params(N, 12, laser_power=0., gravity=1e5)
    rec = lbm.run_real(A, ph, case['_scratch'])
    watch(mon, rec.log, ph, 8440.)
    for i, (_, _, d) in enumerate(rec.log[1:]):
        act = d['phase'] <= lbm.LG
        mon.le('frozen', onp.abs(d['vel']).max(), 0., 1e-9, f'output {i}: solid material moves')
        mon.close('frozen', d['rho'][act], onp.full(int(act.sum()), 8440.), 1e-6)
        mon.close('frozen', d['T'][act], onp.full(int(act.sum()), 300.), 1e-6)
    ph = lbm.geometry(rng, N, 'flat')
    A = lbm.params(N, 12, gravity=0., st_grad_coeff=1e-3, rp_coeff=0.)
    rec = lbm.run_real(A, ph, case['_scratch'], fluid_only=True)
    watch(mon, rec.log, ph, 8440.)
    # away from the side walls (where the wall cells bend the reconstructed surface) a flat layer without driving force is at rest
    for i, (_, _, d) in enumerate(rec.log[1:2]):
        mon.le('rest', onp.abs(d['vel'][3:-3, 3:-3]).max() if min(N[:2]) > 6 else 0., 0., 1e-9, f'output {i}')
    mon.sig('still', geom)


def fall(case, mon):
    """a drop surrounded by gas falls with the gravitational acceleration"""
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    N = (12, 12, 14)
    x, y, z = onp.indices(N) + .5
    ph = onp.full(N, lbm.GAS)
    w = int(rng.integers(2, 4))
    ph[(abs(x - 6) < w) & (abs(y - 6) < w) & (abs(z - 8) < 3)] = lbm.LIQ
    lbm.shell(ph)
    g = float(rng.uniform(1e-4, 6e-4))
    A = lbm.params(N, 30, gravity=g * 6e-6 / 4e-14, st_coeff=0., dynamic_viscosity=float(rng.uniform(.02, .1)))
    rec = lbm.run_real(A, ph, case['_scratch'], fluid_only=True)
    watch(mon, rec.log, ph, 8440.)
    for n in (5, 10, 20, 30):
        d = rec.log[n][2]
        liq = d['phase'] == lbm.LIQ
        v = d['vel'][liq].mean(0) / (6e-6 / 2e-7)
        mon.close('free-fall', v, [0, 0, -g * n], .02, g * n, f'mean velocity after {n} steps')
    mon.sig('fall', w)


RUN = dict(run=run, still=still, fall=fall)
