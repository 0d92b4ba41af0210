"""Laser path, unit handling and output files of the lattice-Boltzmann solver."""
import os
import numpy as onp
from vf import femutil as fu
from vf.refs import lbm

LEVEL = 'exploration'
RULE = ('signature = number of path segments | switch pattern | output interval | direction changes; counted per real simulation whose temperature history '
        'and files were checked against the prescribed path')
ASSUMPTIONS = ['solid, insulated substrate so that the temperature history reveals the laser position and state of every step',
               'a segment of duration T is sampled floor(T/dt)+1 times, evenly from corner to corner']
REQUIRED = {'steps': 6, 'path': 60, 'spot': 5, 'switch': 20, 'file-names': 6, 'file-data': 20, 'file-mesh': 6, 'clean': 6, 'units': 4, 'state-untouched': 6}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 10
    out = []
    for i in range(14 * n):
        out.append(dict(kind='scan', i=i, seed=[int(seed), i], cost=9))
    for i in range(n):
        out.append(dict(kind='scan', i=i, nseg=24, seed=[int(seed), 900 + i], cost=14))
    for i in range(6 * n):
        out.append(dict(kind='units', i=i, seed=[int(seed), 2000 + i], cost=12))
    return out


def material(rng, N, h=6e-6, dt=2e-7, **over):
    rho, cp = float(rng.uniform(4000, 9000)), float(rng.uniform(400, 800))
    o = dict(gravity=0., st_coeff=0., st_grad_coeff=0., rp_coeff=0., rho0=rho, heat_capacity=cp, h=h, dt=dt, beam_size=float(rng.uniform(1.2, 2.2) * h), absorbed_fraction=.5,
             thermal_diffusivitity_s=float(rng.uniform(.03, .1) * h * h / dt), thermal_diffusivitity_l=.1 * h * h / dt, emissivity=0., h_conv=0.,
             T_solidus=50000., T_liquidus=50100., T_evap=60000.)
    o['laser_power'] = float(150 * rho * cp * h * onp.pi * o['beam_size']**2 / 2 / dt / .5)
    o.update(over)
    return o


def scan(case, mon):
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    N = tuple(int(k) for k in (rng.integers(10, 15), rng.integers(10, 15), rng.integers(8, 10)))
    ph = lbm.geometry(rng, N, 'flat')
    h, dt = 6e-6, 2e-7
    o = material(rng, N)
    v = float(rng.uniform(.15, .8) * h / dt)
    o['scanning_vel'] = v
    nseg = case.get('nseg') or int(rng.integers(1, 5))
    pts = [onp.array([rng.uniform(2.5, N[0] - 2.5), rng.uniform(2.5, N[1] - 2.5)]) * h]
    for _ in range(nseg):
        # travel times clearly between two samples, or exactly a whole number of steps
        T = (int(rng.integers(2, 9)) + (rng.uniform(.15, .85) if rng.random() < .7 else 0.)) * dt
        a = rng.uniform(0, 2 * onp.pi)
        if nseg > 5:        # long paths wander about the centre
            a = onp.arctan2(*(onp.array(N[:2]) * h / 2 - pts[-1])[::-1]) + rng.normal() * .7
        pts.append(pts[-1] + T * v * onp.array([onp.cos(a), onp.sin(a)]))
    sw = [int(s) for s in rng.integers(0, 2, nseg)] + [int(rng.integers(0, 2))]
    sw[int(rng.integers(nseg))] = 1
    interval = int(rng.integers(1, 4)) if case['i'] % 2 else 1
    A = lbm.params(N, xy=dict(x_pos=[float(p[0]) for p in pts], y_pos=[float(p[1]) for p in pts], switch=sw), interval=interval, **o)
    vtk = os.path.join(case['_scratch'], 'vtk')
    os.makedirs(vtk)
    for k in (0, 3, 77):
        open(os.path.join(vtk, f'sol_{k:04d}.vtu'), 'w').write('stale')
    # file content goes through the real mesh writer; a tap keeps what was handed over
    import copy
    import json
    import meshio
    from jax_am.common import box_mesh
    real = box_mesh(*N, *N)
    tap = lbm.Recorder(N)
    seen = []

    def write(path, *a, **k):
        seen.append(sorted(os.listdir(vtk)))
        tap.cell_data = real.cell_data
        lbm.Recorder.write(tap, path)
        return meshio.Mesh.write(real, path, *a, **k)
    real.write = write
    keep_args, keep_ph = json.dumps(A, sort_keys=True), ph.copy()
    lbm.run_real(A, ph, case['_scratch'], x64=case['i'] % 3 != 2, mesh=real)
    mon.check('state-untouched', json.dumps(A, sort_keys=True) == keep_args and onp.array_equal(ph, keep_ph), 'simulation changed its inputs')
    mon.check('clean', seen and seen[0] == [], f'before the first write the folder held {seen[:1]}')
    path = lbm.path(A)
    nout = (len(path) - 1) // interval + 1
    mon.where = f'N {N} segments {nseg} switch {sw} interval {interval} samples {len(path)}'
    names = sorted(os.listdir(vtk))
    if not mon.equal('file-names', names, [f'sol_{k:04d}.vtu' for k in range(nout)]):
        return
    mon.check('steps', [r[0] for r in tap.log] == names, f'written in the order {[r[0] for r in tap.log][:5]}')
    # temperature history of the prescribed path (exact reference) and, independently, where heat appears
    s = lbm.Sim(A, ph)
    U = s.U
    f32 = case['i'] % 3 == 2
    prevT = None
    for k, (_, _, d) in enumerate(tap.log):
        if k:
            for _ in range(interval):
                s.step(hint=None)
        mon.close('path', d['T'], s.out()['T'], 3e-6 if not f32 else 2e-4, detail=f'output {k}')
        T = d['T']
        if interval == 1 and k:
            act = d['phase'] <= lbm.LG
            x, y, on = path[k]
            dT = onp.where(act, T - prevT, 0.)
            if on:
                # heat injected in this step: centroid of the increase over the two surface layers, the rest only diffuses
                rise = dT.sum()
                full = A['laser_power']['value'] * .5 * dt / (A['rho0']['value'] * h**3 * A['heat_capacity']['value'])
                edge = min(x / h - 1, N[0] - 1 - x / h, y / h - 1, N[1] - 1 - y / h) / (A['beam_size']['value'] / h)
                if edge > 1.6 and k < 6:
                    mon.close('spot', [rise], [full], .05, full, f'step {k}: heat of one step')
                    ii = onp.indices(N) + .5
                    if k == 1:
                        mon.close('spot', [(dT * ii[0]).sum() / rise, (dT * ii[1]).sum() / rise], [x / h, y / h], .05, 1., f'step {k}: spot position')
                mon.event('switch')
            else:
                mon.le('switch', dT.sum(), 0., .02 * 150 * (U.r**2), f'step {k}: heated while the laser is off')
                if not any(p[2] for p in path[1:k + 1]):
                    mon.close('switch', T[act], onp.full(int(act.sum()), A['T0']['value']), 1e-5)
        prevT = T
    if any(p[2] for p in path[1:]):
        mon.event('spot')
    # files: the mesh and every field of every cell
    for k in sorted({0, nout - 1, nout // 2}):
        m = meshio.read(os.path.join(vtk, names[k]))
        mon.close('file-mesh', m.points, real.points, 1e-9, max(N))
        mon.equal('file-mesh', m.cells_dict['hexahedron'], real.cells_dict['hexahedron'])
        c = m.points[m.cells_dict['hexahedron']].mean(1)
        ijk = tuple((c - .5 + 1e-6).astype(int).T)
        for key in ('phase', 'mass', 'rho', 'kappa', 'vel', 'T', 'melted'):
            g = m.cell_data_dict.get(key, {}).get('hexahedron')
            if mon.check('file-data', g is not None and len(g) == len(c), f'{key} missing in {names[k]}'):
                w = tap.log[k][2][key][ijk]
                mon.close('file-data', onp.asarray(g, float).reshape(w.shape), w, 1e-6, onp.abs(w).max() + 1e-30, key)
    mon.sig('scan', nseg, sw[:-1], interval, f32)


def units(case, mon):
    """the same physical problem described with another cell size/time step ratio of units gives the same physical answer: scaling invariance"""
    fu.quiet()
    rng = onp.random.default_rng(case['seed'])
    from vf.props.L03 import scenario
    thermal = bool(case['i'] % 2)
    N, ph, A = scenario(rng, ['powder', 'pool', 'dam'][case['i'] % 3], 'thermal' if thermal else 'flow', 14)
    r1 = lbm.run_real(A, ph, case['_scratch'], not thermal)
    # dimensional scaling: lengths a, times b, densities c, temperatures e, chosen with the matching powers for every constant
    a, b, c, e = [float(x) for x in 2.**rng.uniform(-2, 2, 4)]
    B = {k: (dict(v) if isinstance(v, dict) else v) for k, v in A.items()}
    M = c * a**3
    F = M * a / b**2
    En = F * a
    scale = dict(h=a, dt=b, rho0=c, T0=e, gravity=a / b**2, dynamic_viscosity=M / a / b, st_coeff=F / a, st_grad_coeff=F / a / e, laser_power=En / b,
                 beam_size=a, scanning_vel=a / b, heat_capacity=En / M / e, thermal_diffusivitity_l=a * a / b, thermal_diffusivitity_s=a * a / b,
                 h_conv=M / b**3 / e, latent_heat_fusion=En / M, latent_heat_evap=En / M, T_liquidus=e, T_solidus=e, T_evap=e, enthalpy_s=En / M, enthalpy_l=En / M)
    for k, f in scale.items():
        B[k]['value'] = A[k]['value'] * f
    # fixed physical constants: molar mass absorbs the gas constant, the coefficients absorb atmospheric pressure and Stefan-Boltzmann
    B['M0']['value'] = A['M0']['value'] * e / (En / M)
    B['rp_coeff']['value'] = A['rp_coeff']['value'] * (F / a**2)
    B['emissivity']['value'] = A['emissivity']['value'] * (M / b**3 / e**4)
    lp = A['laser_path']
    B['laser_path'] = dict(x_pos=[x * a for x in lp['x_pos']], y_pos=[y * a for y in lp['y_pos']], switch=lp['switch'])
    r2 = lbm.run_real(B, ph, case['_scratch'], not thermal)
    mon.where = f'scales length {a:.3g} time {b:.3g} density {c:.3g} temperature {e:.3g}'
    if b < .02 or not mon.check('units', len(r1.log) == len(r2.log), f'{len(r1.log)} and {len(r2.log)} outputs'):
        return
    for k, ((_, _, x), (_, _, y)) in enumerate(zip(r1.log, r2.log)):
        if not onp.isfinite(x['T']).all() or x['T'].max() > 12000 or onp.abs(x['vel']).max() > .3 * 30:
            break
        if (x['phase'] != y['phase']).any():
            s = lbm.Sim(A, ph, not thermal)     # a threshold hit exactly may fall either way
            for j in range(k):
                s.step(hint=r1.log[j + 1][2]['kappa'])
            if s.tie:
                mon.event('stopped-tie')
                break
        amb = onp.abs(x['kappa'] - y['kappa']) > 1e-4
        if amb[x['phase'] <= 1].any() and k > 1:
            mon.event('stopped-direction-tie')
            break
        mon.equal('units', y['phase'], x['phase'], f'output {k}')
        mon.close('units', y['T'], x['T'] * e, 1e-5, detail=f'T output {k}')
        mon.close('units', y['rho'], x['rho'] * c, 1e-5, detail=f'rho output {k}')
        mon.close('units', y['vel'], x['vel'] * a / b, 1e-5, max(onp.abs(x['vel']).max(), 1e-3 * 30) * a / b, f'vel output {k}')
    mon.sig('units', thermal, case['i'] % 3)


RUN = dict(scan=scan, units=units)
