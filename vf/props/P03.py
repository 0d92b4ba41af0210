import contextlib
import io
import os
import numpy as onp
from vf import femutil as fu
from vf.refs import pf

LEVEL = 'exploration'
RULE = ('signature = grid | grains | orientations | layer count or written step | liquid pattern; counted when the data structure built '
        'by the code or a file it wrote was compared with what went in')
ASSUMPTIONS = ['the polycrystal files are synthesised in Neper\'s format (structured hexahedra, x fastest; Neper itself is not installed)',
               'orientation colours are only compared between the in-memory palette and the files (the palette comes from orix)']
REQUIRED = {'grid-size': 6, 'spacing': 6, 'centroids': 6, 'grain-orientation': 6, 'directions': 6, 'orthonormal': 6, 'ini-cond': 6,
            'mesh-file': 6, 'quat-file': 6, 'sol-T': 10, 'sol-ori': 10, 'sol-colour': 10, 'sol-names': 10, 'layers': 4, 'rejects-mismatch': 4}


def cases(tier, seed):
    out = []
    for i in range(8 if tier == 'quick' else 40):
        out.append(dict(kind='field', layers=[1, 1, 2, 3][i % 4], many=i % 8 == 4, seed=[int(seed), i], cost=8))
    return out


def field(case, mon):
    fu.quiet()
    import matplotlib
    matplotlib.use('Agg')
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    import meshio
    from orix.quaternion import Orientation
    from jax_am.phase_field.utils import Field, generate_new_mesh
    from jax_am.phase_field.allen_cahn import PFSolver
    rng = onp.random.default_rng(case['seed'])
    n = [int(k) for k in rng.permutation([int(rng.integers(1, 4)), int(rng.integers(3, 6)), int(rng.integers(4, 8))])]
    a, h = pf.args(rng, n=n, num_oris=int(rng.integers(130, 300)) if case.get('many') else int(rng.integers(2, 9)))
    N, m = n[0] * n[1] * n[2], a['num_oris']
    G = int(rng.integers(2, min(N, 12)))
    grains = onp.concatenate((onp.arange(G), rng.integers(0, G, N - G)))
    grains = rng.permutation(grains)
    a.update(num_grains=G, data_dir=os.path.join(case['_scratch'], 'data'))
    full = dict(a)
    for k in ('Nx', 'Ny', 'Nz'):
        del a[k]
    P, C = pf.write_neper(os.path.join(a['data_dir'], 'neper'), full, rng, grains)
    q = pf.rotations(rng, m)
    given = rng.random() < .7
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pc = Field(a, Orientation(q.copy()) if given else None)
    mon.where = f'{n} grains {G} oris {m} {"given" if given else "random"}'
    mon.equal('grid-size', [a['Nx'], a['Ny'], a['Nz']], n)
    mon.close('spacing', pc.mesh_h_xyz, h, 1e-6, max(h))
    cen = onp.array([((i + .5) * h[0], (j + .5) * h[1], (k + .5) * h[2]) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])
    mon.close('centroids', pc.centroids, cen, 1e-6, max(full['domain_x'], full['domain_y'], full['domain_z']))
    oi = onp.asarray(pc.cell_ori_inds)
    mon.check('grain-orientation', oi.shape == (N,) and oi.min() >= 0 and oi.max() < m, 'orientation index out of range')
    mon.check('grain-orientation', all(len(set(oi[grains == g])) == 1 for g in range(G)), 'cells of one grain have different orientations')
    quat = onp.load(os.path.join(a['data_dir'], 'numpy/pf/quat.npy'))
    d = onp.asarray(pc.unique_grain_directions)
    if given:
        mon.close('quat-file', quat, q, 1e-9)
    else:
        mon.close('quat-file', onp.linalg.norm(quat, axis=1), onp.ones(m), 1e-9)
    mon.close('directions', d, pf.dirs_of(quat), 1e-9)
    mon.close('orthonormal', onp.einsum('iak,jak->aij', d, d), onp.tile(onp.eye(3), (m, 1, 1)), 1e-9)
    mon.close('orthonormal', onp.einsum('ak,ak->a', onp.cross(d[0], d[1]), d[2]), onp.ones(m), 1e-9)
    f = meshio.read(os.path.join(a['data_dir'], 'vtk/pf/mesh/fd_mesh.vtu'))
    mon.close('mesh-file', f.points, P, 1e-6, onp.abs(P).max())
    mon.equal('mesh-file', f.cells_dict['hexahedron'], C)
    mon.equal('mesh-file', onp.asarray(f.cell_data['grain_inds'][0]).reshape(-1), grains)
    mon.check('mesh-file', os.path.getsize(os.path.join(a['data_dir'], 'vtk/pf/mesh/poly_mesh.vtu')) > 0, 'no polyhedral mesh')
    # stacking layers
    ori_layers = [oi.copy()]
    for L in range(1, case['layers']):
        with contextlib.redirect_stdout(out):
            # the code edits the next layer's own copy; earlier layers must keep their cells
            before = (pc.mesh.points.copy(), pc.mesh.cells[0].data.copy(), onp.asarray(pc.cell_ori_inds).copy())
            nxt = generate_new_mesh(a, Orientation(quat.copy()), pc, L)
        shift = onp.array([0, 0, full['domain_z'] * L])
        k = len(before[0])
        mon.where = f'{n} grains {G} oris {m} layer {L}'
        mon.close('layers', nxt.mesh.points, onp.concatenate((before[0], P + shift)), 1e-6, onp.abs(P).max() * (L + 1))
        mon.equal('layers', nxt.mesh.cells[0].data, onp.concatenate((before[1], C + len(P) * L)))
        mon.close('layers', nxt.centroids, nxt.mesh.points[nxt.mesh.cells[0].data].mean(1), 1e-9)
        mon.equal('layers', onp.asarray(nxt.mesh.cell_data['grain_inds'][0]).reshape(-1), onp.tile(grains, L + 1))
        o = onp.asarray(nxt.cell_ori_inds)
        mon.equal('layers', o[:len(before[2])], before[2], 'orientations of the lower layers changed')
        top = o[len(before[2]):]
        mon.check('layers', len(top) == N and all(len(set(top[grains == g])) == 1 for g in range(G)) and top.min() >= 0 and top.max() < m,
                  'cells of one grain of the new layer have different orientations')
        mon.close('layers', nxt.unique_grain_directions, d, 1e-9)
        pc = nxt
    # the solver on the stacked crystal
    if case['layers'] > 1:
        a['Nz'] = n[2] * case['layers']
    NN = N * case['layers']
    itv = int(rng.choice([1, 5, 20]))
    a['write_sol_interval'] = itv
    with contextlib.redirect_stdout(out):
        s = PFSolver(a, pc)
    e0 = onp.asarray(s.ini_cond())
    mon.equal('ini-cond', e0, onp.eye(m)[onp.asarray(pc.cell_ori_inds)])
    T0 = a['T_liquidus']
    for j, step in enumerate([0, itv, int(itv * rng.integers(2, 300))]):
        eta = e0 if j == 0 else rng.dirichlet(onp.ones(m), NN)
        T = T0 + rng.choice([-900., -300., -5., 5., 600.], (NN, 1)) + rng.uniform(-1, 1, (NN, 1))
        eta_in, T_in, pal = eta.copy(), T.copy(), onp.asarray(pc.unique_oris_rgb).copy()
        with contextlib.redirect_stdout(out):
            s.write_sols(np.array(eta) if j % 2 else eta, np.array(T) if j % 2 else T, step)
        name = os.path.join(a['data_dir'], f'vtk/pf/sols/u{step // itv:03d}.vtu')
        mon.where = f'{n}x{case["layers"]} oris {m} step {step} interval {itv}'
        if not mon.check('sol-names', os.path.exists(name), f'{os.listdir(os.path.dirname(name))}'):
            return
        f = meshio.read(name)
        mon.equal('sol-names', f.cells_dict['hexahedron'], pc.mesh.cells[0].data)
        mon.close('sol-T', onp.asarray(f.cell_data['T'][0]).reshape(-1), T_in.reshape(-1), 1e-6)
        am = eta_in.argmax(1)
        mon.equal('sol-ori', onp.asarray(f.cell_data['ori_inds'][0]).reshape(-1), am)
        liq = T_in.reshape(-1) > T0
        for i, nm in enumerate(('ipf_x', 'ipf_y', 'ipf_z')):
            w = pal[i][am]
            w[liq] = 0.
            mon.close('sol-colour', f.cell_data[nm][0], w, 1e-6, 1.)
        mon.equal('sol-colour', pc.unique_oris_rgb, pal, 'palette modified by writing')
        mon.equal('sol-ori', eta, eta_in, 'solution modified by writing')
        mon.sig('sol', m, itv, j, bool(liq.any()))
    mon.check('sol-names', len(os.listdir(os.path.join(a['data_dir'], 'vtk/pf/sols'))) == len({0, 1, step // itv}), 'unexpected files')
    bad = dict(full, num_grains=G + int(rng.choice([-1, 1, 5])))
    try:
        with contextlib.redirect_stdout(out):
            Field(bad, Orientation(q.copy()))
        mon.check('rejects-mismatch', False, 'wrong number of grains accepted')
    except AssertionError:
        mon.event('rejects-mismatch')
    mon.sig('field', tuple(n), G, m, case['layers'], given)


RUN = dict(field=field)
