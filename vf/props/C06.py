"""AM driver: whole scan histories, moving flow region, advection terms, melted record, output files."""
import os
import numpy as onp
from vf import femutil as fu
from vf.refs import am, fv

LEVEL = 'exploration'
RULE = ('signature = heat source | moving region clipped at which side | laser on/off during the history | output interval; counted per real scan history '
        'whose every step was replayed against the reference bookkeeping')
ASSUMPTIONS = ['advection is explicit: evaluated from the fields at the end of a step and used by the next', 'the melted record is the largest fluid fraction seen so far']
REQUIRED = {'start': 6, 'time': 40, 'region': 40, 'advection-T': 40, 'advection-vel': 40, 'outside': 40, 'melted': 40, 'energy-chain': 40, 'toolpath': 40,
            'file-names': 6, 'file-data': 12, 'clean': 6, 'non-finite': 6, 'melted-liquid': 2}


def cases(tier, seed):
    n = 1 if tier == 'quick' else 10
    out = []
    for i in range(14 * n):
        out.append(dict(kind='scan', i=i, seed=[int(seed), i], cost=10))
    return out


def scan(case, mon):
    fu.quiet()
    import contextlib
    import io
    import jax.numpy as np
    import meshio
    rng = onp.random.default_rng(case['seed'])
    i = case['i']
    N = [int(rng.integers(7, 12)), int(rng.integers(4, 8)), int(rng.integers(3, 6))]
    loc = [int(rng.integers(3, N[0])), int(rng.integers(2, N[1] + 1)), int(rng.integers(2, N[2] + 1))]
    a, box, lb = am.problem(rng, N, loc, heat_source=i % 2)
    steps = 22
    a['dt'] = float(rng.uniform(3e-7, 1e-6))
    # scan across the domain, switching off before the end; power enough to melt
    a['speed'] = float(box.L[0] * rng.uniform(.5, 1.1) / (steps * a['dt']))
    a['X0'][0] = float(rng.uniform(-.1, .4) * box.L[0])
    a['t_OFF'] = float((rng.integers(8, 26) + .5) * a['dt'])
    if i % 2:
        a['phi'] = float(rng.uniform(.3, 1.) * box.L[2] * a['speed'] * a['rb']**2 / a['P'])
    a['write_sol_interval'] = int(rng.integers(1, 5))
    d = os.path.join(case['_scratch'], 'data')
    stale = os.path.join(d, 'vtk/cfd/sols')
    os.makedirs(stale)
    for k in (0, 7):
        open(os.path.join(stale, f'u{k:03d}.vtu'), 'w').write('stale')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s = am.build(a, box, lb, case['_scratch'])
    mon.where = f'N {N} region {loc} source {i % 2}'
    mon.check('clean', os.path.isdir(stale) and os.listdir(stale) == [], f'left over: {os.listdir(stale)}')
    z1, z3 = onp.zeros(N + [1]), onp.zeros(N + [3])
    for name, w in (('T', z1 + a['T_ref']), ('solidID', z1), ('conv_T', z1), ('vel', z3), ('conv', z3), ('grad_p0', z3)):
        mon.close('start', onp.asarray(getattr(s, name)), w, 1e-13, 1.)
    mon.close('start', [float(s.t)], [0.], 1e-15)
    cells = onp.asarray(s.meshio_mesh.cells_dict['hexahedron'])
    centre = onp.asarray(s.meshio_mesh.points)[cells].mean(1)
    seen, files, clipped, snap = z1.copy(), {}, set(), {}

    def write(k):
        with contextlib.redirect_stdout(out):
            s.write_sols(k)
        files[k // a['write_sol_interval']] = [onp.array(v).reshape(-1, m) for v, m in ((s.T, 1), (s.vel, 3), (s.solidID, 1))]
    write(0)
    for n in range(steps):
        old = {k: onp.array(getattr(s, k)) for k in ('T', 'vel', 'conv', 'conv_T', 'grad_p0', 'solidID')}
        t = float(s.t)
        x, y, zl, P = s.toolpath(t)
        mon.close('toolpath', [float(x), float(y), float(zl), float(P)], am.laser(t, a), 1e-12)
        s.time_integration()
        mon.close('time', [float(s.t)], [(n + 1) * a['dt']], 1e-9, a['dt'])
        T, v, cT, cv, gp, sid = [onp.asarray(getattr(s, k)) for k in ('T', 'vel', 'conv_T', 'conv', 'grad_p0', 'solidID')]
        if not mon.check('energy-chain', all(onp.isfinite(q).all() for q in (T, v, cT, cv, gp, sid)), f'step {n}: non-finite field'):
            return
        # temperature: balance with the advection left by the previous step
        f = am.energy_fn(box, old['T'].reshape(-1), old['conv_T'].reshape(-1), t, a)[0]
        r0 = f(old['T'].reshape(-1))
        eps = 1e-11 * onp.linalg.norm(a['rho'] * 500 * T / a['dt'] * box.V)
        mon.le('energy-chain', onp.linalg.norm(f(T.reshape(-1))), 1.05e-5 * onp.linalg.norm(r0) + eps, 0., f'step {n}')
        # region: nearest-cell centring; skip the comparison only at rounding ties
        bb = am.box_bounds(N, loc, box.h, t, a)
        B = tuple(slice(bb[2 * q], bb[2 * q + 1]) for q in range(3))
        q = (a['X0'][0] + a['speed'] * t) / box.h[0], a['X0'][1] / box.h[1]
        if any(abs(abs(e - onp.floor(e)) - .5) < 1e-6 for e in q):
            mon.event('rounding-tie')
            seen = onp.maximum(seen, sid)
            continue
        got = [int(e) for e in s.get_moving_box_boundary(t)]
        mon.equal('region', got, bb, f'step {n}')
        clipped.add((bb[0] == 0, bb[1] == N[0]))
        outside = onp.ones(N, bool)
        outside[B] = False
        for name, w in (('vel', v), ('conv', cv), ('conv_T', cT), ('grad_p0', gp)):
            mon.equal('outside', w[outside], old[name][outside], f'{name} step {n}')
        # advection terms from the new fields
        bc = am.vel_bcs(T[B][:, :, -1, 0], box.h, a)
        vf = fv.face_vels(v[B], box.h, bc)
        wT, wv = fv.div(T[B], vf, box.h), fv.div(v[B], vf, box.h)
        sT = onp.abs(T[B]).max() * sum(onp.abs(e).max() / h for e, h in zip(vf, box.h)) + 1e-300
        sv = onp.abs(v[B]).max() * sum(onp.abs(e).max() / h for e, h in zip(vf, box.h)) + 1e-300
        mon.close('advection-T', cT[B], wT, 1e-12, sT, f'step {n}')
        mon.close('advection-vel', cv[B], wv, 1e-12, sv, f'step {n}')
        # momentum over the chain (undo the correction, check the predictor balance)
        dg = gp[B] - old['grad_p0'][B]
        pred = v[B] + a['dt'] / a['rho'] * dg
        fl = am.fluid(T[B][..., 0], a).reshape(-1)
        for c in range(3):
            g, darcy = am.momentum_fn(lb, c, *[old[k][B][..., c].reshape(-1) for k in ('vel', 'conv', 'grad_p0')], fl, T[B][:, :, -1, 0], a)
            b0 = g(onp.zeros(lb.n))
            size = onp.abs(v[B]).max() + a['dt'] / a['rho'] * onp.abs(dg).max()
            diag = (darcy.max() + a['rho'] / a['dt']) * lb.V + a['visco'] * 12 * lb.V / lb.h.min()**2
            mon.le('momentum-chain', onp.linalg.norm(g(pred[..., c].reshape(-1))), 3e-9 * onp.linalg.norm(b0) + 1e-11 * onp.sqrt(lb.n) * diag * size, 0., f'step {n} component {c}')
        seen = onp.maximum(seen, am.fluid(T, a))
        mon.close('melted', sid, seen, 1e-12, 1., f'step {n}')
        if (n + 1) % a['write_sol_interval'] == 0:
            write(n + 1)
        if n % 7 == 0:
            with contextlib.redirect_stdout(out):
                s.inspect_sol(n + 1, steps)
    if T.max() > a['Tl'] or seen.max() >= 1:
        mon.event('melted-liquid')
    # files: one per written index, all fields of each cell at that cell's own location
    names = sorted(os.listdir(stale))
    mon.equal('file-names', names, sorted(f'u{k:03d}.vtu' for k in files))
    ijk = onp.floor(centre / box.h + 1e-6).astype(int)
    flat = onp.ravel_multi_index(tuple(ijk.T), N)
    for k in (list(files)[:2] + list(files)[-3:]):
        if f'u{k:03d}.vtu' not in names:
            continue
        m = meshio.read(os.path.join(stale, f'u{k:03d}.vtu'))
        mon.close('file-data', m.points, s.meshio_mesh.points, 1e-6, box.L.max())
        for name, w in zip(('T', 'vel', 'solidID'), files[k]):
            g = m.cell_data_dict.get(name, {}).get('hexahedron')
            if mon.check('file-data', g is not None and len(g) == box.n, f'{name} missing in file {k}'):
                mon.close('file-data', onp.asarray(g, float).reshape(box.n, -1), w[flat], 2e-7, onp.abs(w).max() + 1e-30, f'{name} of file {k}')
    # a non-finite temperature is reported, a finite one is not
    keep = s.T
    for bad in (onp.nan, onp.inf, -onp.inf):
        s.T = keep.at[tuple(int(rng.integers(m)) for m in N) + (0,)].set(bad)
        try:
            with contextlib.redirect_stdout(out):
                s.inspect_sol(1, 1)
            mon.fail('non-finite', f'{bad} accepted')
        except ValueError:
            mon.event('non-finite')
    s.T = keep
    mon.sig(i % 2, sorted(clipped), a['t_OFF'] < steps * a['dt'], a['write_sol_interval'], bool(seen.max() >= 1))


RUN = dict(scan=scan)
