import json
import os
import time
import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = reader/writer | element type or file population | data attached; counted when the content read back was '
        'compared with what was written')
ASSUMPTIONS = ['meshio reads back what it writes', 'VTU field data is stored in single precision (documented by the writer)']
REQUIRED = {'points': 9, 'cells': 9, 'sol': 9, 'cell-data': 5, 'point-data': 5, 'frame-rows': 6, 'frame-time': 6, 'frame-values': 6,
            'csv': 6, 'parse': 6, 'timer-transparent': 10, 'walltime-file': 4, 'vtu-version': 3, 'abaqus': 3}


def cases(tier, seed):
    out = []
    reps = 2 if tier == 'quick' else 10
    for r in range(reps):
        for i, et in enumerate(fe.TYPES):
            out.append(dict(kind='save', et=et, vec=1 + (i + r) % 3, seed=[int(seed), r, i], cost=2))
        for i in range(6):
            out.append(dict(kind='frame', seed=[int(seed), r, 20 + i], cost=1))
        for i in range(3):
            out.append(dict(kind='misc', seed=[int(seed), r, 40 + i], cost=1))
    return out


def save(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    import meshio
    from jax_am.fem.utils import save_sol, modify_vtu_file
    rng = onp.random.default_rng(case['seed'])
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    P, C, U, A, b = fe.make_mesh(et, [int(k) for k in rng.integers(1, 4, d)], rng, jitter=.15)

    class M(FEM):
        def get_tensor_map(self):
            return lambda g: g
    pr = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et)
    ci = [(f'c{i}', rng.normal(size=len(C)) * 10.**rng.integers(-5, 5)) for i in range(int(rng.integers(0, 3)))]
    if rng.random() < .4:       # values that are nearly whole numbers, and tags
        ci.append(('tag', rng.integers(0, 20, len(C)) + 3e-4 * rng.random(len(C))))
    pi = [(f'p{i}', rng.normal(size=(len(P),) if rng.random() < .5 else (len(P), 3))) for i in range(int(rng.integers(0, 3)))]
    path = os.path.join(case['_scratch'], 'a', 'deep', 'dir', f'u_{int(rng.integers(100)):05d}.vtu')
    mon.where = f'{et} vec {vec} cell {len(ci)} point {len(pi)}'
    for k in range(2):          # overwriting an older file leaves the new content
        sol = rng.normal(size=(len(P), vec))
        bad = bool(k and case['seed'][1] % 2 == 0)
        if bad:     # a diverged run is written as it is, not prettified
            sol[int(rng.integers(len(P))), 0] = [onp.nan, onp.inf, -onp.inf][int(rng.integers(3))]
            sol[int(rng.integers(len(P))), -1] = onp.nan
        save_sol(pr, np.array(sol), path, cell_infos=[(n, np.array(v)) for n, v in ci] if ci or k else None,
                 point_infos=[(n, np.array(v)) for n, v in pi] if pi or k else None)
        m = meshio.read(path)
        mon.close('points', m.points[:, :d], P, 1e-12)
        mon.check('cells', list(m.cells_dict) == [fe.MESHIO[et]], list(m.cells_dict))
        mon.equal('cells', m.cells_dict[fe.MESHIO[et]], C)
        got = onp.asarray(m.point_data['sol']).reshape(sol.shape)
        fin = onp.isfinite(sol)
        mon.close('sol', got[fin], sol[fin], 1e-6)
        mon.check('sol', onp.array_equal(got[~fin], sol[~fin].astype(got.dtype), equal_nan=True), f'non-finite values read back as {got[~fin]}')
        mon.check('sol', set(m.point_data) == {'sol'} | {n for n, _ in pi} and set(m.cell_data) == {n for n, _ in ci},
                  f'{sorted(m.point_data)} {sorted(m.cell_data)}')
        for n, v in ci:
            mon.close('cell-data', m.cell_data[n][0], v, 1e-6)
        for n, v in pi:
            mon.close('point-data', m.point_data[n], v, 1e-6)
        mon.sig('save', et, vec, len(ci), len(pi), k)
    txt = open(path).read()
    old = os.path.join(case['_scratch'], 'old.vtu')
    new = os.path.join(case['_scratch'], 'new.vtu')
    head = '<VTKFile type="UnstructuredGrid" version="{}">'
    body = '\n'.join(f'line {i} version="2.2" {x}' for i, x in enumerate(rng.integers(0, 99, 30)))
    open(old, 'w').write('<?xml version="1.0"?>\n' + head.format('2.2') + '\n' + body + '\n</VTKFile>\n')
    modify_vtu_file(old, new)
    mon.check('vtu-version', open(new).read() == '<?xml version="1.0"?>\n' + head.format('1.0') + '\n' + body + '\n</VTKFile>\n',
              'only the version attribute may change')
    modify_vtu_file(path, new)
    mon.check('vtu-version', open(new).read() == txt, 'a file without version 2.2 must be copied unchanged')


def frame(case, mon):
    fu.quiet()
    import meshio
    import pandas as pd
    from jax_am.common import to_data_frame
    rng = onp.random.default_rng(case['seed'])
    n = int(rng.integers(4, 40))
    P = rng.normal(size=(n, 3))
    dd = os.path.join(case['_scratch'], 'data')
    os.makedirs(os.path.join(dd, 'msh'))
    os.makedirs(os.path.join(dd, 'vtk'))
    cells = [('tetra', onp.array([[0, 1, 2, 3]]))]
    meshio.write(os.path.join(dd, 'msh', 'box.msh'), meshio.Mesh(P, cells), file_format='gmsh22', binary=False)
    ns = int(rng.integers(1, 8))
    gap = int(rng.choice([1, 10, 20, 137]))
    start = int(rng.choice([0, 0, 3]))
    steps = [(start + k) * gap for k in range(ns)]
    if rng.random() < .4:
        steps = sorted(int(x) for x in rng.choice(99999, ns, replace=False))
    dt = float(rng.choice([1., 2e-6, 1e-2, .5, 2e-7, 3e-8]))
    vec = int(rng.integers(0, 4))
    data = {}
    for s in rng.permutation(steps):
        s = int(s)
        v = rng.normal(size=(n, vec) if vec else n)
        T = rng.normal(size=n)
        data[s] = (v, T)
        meshio.write(os.path.join(dd, 'vtk', f'u_{s:05d}.vtu'), meshio.Mesh(P, cells, point_data={'sol': v, 'T': T}))
    open(os.path.join(dd, 'vtk', 'readme.txt'), 'w').write('x')
    df = to_data_frame(dd, dt=dt)
    mon.where = f'{ns} files, steps {steps}, dt {dt}, vec {vec}'
    mon.check('frame-rows', len(df) == n * ns, f'{len(df)} rows instead of {n * ns}')
    cols = ['sol'] if vec == 0 else [f'sol_{i}' for i in range(vec)]
    for name in ['x', 'y', 'z', 'time', 'T'] + cols:
        mon.check('frame-values', name in df.columns, f'column {name} missing from {list(df.columns)}')
    # every file's rows carry the time of its own step and its own values, in mesh order
    for k, s in enumerate(sorted(steps)):
        rows = df.iloc[k * n:(k + 1) * n]
        mon.close('frame-time', rows['time'].values, onp.full(n, s * dt), 1e-7, max(s * dt, 1e-7 if dt > 1e-3 else 1e-1))
        mon.close('frame-values', rows[['x', 'y', 'z']].values, P, 1e-9)
        mon.close('frame-values', rows['T'].values, data[s][1], 1e-9)
        mon.close('frame-values', rows[cols].values, data[s][0].reshape(n, -1), 1e-9)
    csv = pd.read_csv('data_frame.csv')
    mon.close('csv', csv.values, df.values, 1e-9)
    mon.sig('frame', ns, gap, dt, vec)


def misc(case, mon):
    fu.quiet()
    import meshio
    from jax_am.common import json_parse, yaml_parse, timeit, walltime
    from jax_am.fem.utils import read_abaqus_and_write_vtk
    import yaml
    rng = onp.random.default_rng(case['seed'])
    tree = {'a': float(rng.normal()), 'b': int(rng.integers(1 << 30)), 'c': [float(x) for x in rng.normal(size=3)],
            'd': {'e': True, 'f': None, 'g': 'text', 'h': 1e-5 * float(rng.random())}}
    json.dump(tree, open('p.json', 'w'))
    mon.check('parse', json_parse('p.json') == tree, 'json')
    yaml.dump(tree, open('p.yaml', 'w'))
    mon.check('parse', yaml_parse('p.yaml') == tree, 'yaml')
    calls = []

    def fn(a, b=2, *args, **kw):
        """doc"""
        calls.append((a, b, args, kw))
        if a == 'boom':
            raise ValueError('boom')
        return (a, b, args, kw)
    for wrap in (timeit(fn), walltime()(fn), walltime('w', 'name')(fn), walltime('w2')(fn)):
        for args, kw in (((1,), {}), ((1, 3, 4, 5), {'z': 1}), (('x',), {'b': 7})):
            calls.clear()
            got = wrap(*args, **kw)
            mon.check('timer-transparent', got == fn(*args, **kw) and len(calls) == 2, f'{got} {calls}')
        try:
            wrap('boom')
            mon.check('timer-transparent', False, 'exception swallowed')
        except ValueError:
            mon.check('timer-transparent', True)
    files = {os.path.relpath(os.path.join(r, f)) for dname in ('w', 'w2') for r, _, fs in os.walk(dname) for f in fs}
    mon.check('walltime-file', files == {'w/name_cpu.txt', 'w2/walltime_cpu.txt'}, sorted(files))

    def slow():
        time.sleep(.05)
    walltime('w3', 'n')(slow)()
    t = [float(x) for x in open('w3/n_cpu.txt').read().strip().split(',')]
    mon.check('walltime-file', len(t) == 3 and abs((t[1] - t[0]) - t[2]) < 1e-5 and .04 < t[2] < 30, t)
    time.sleep(.02)
    walltime('w3', 'n')(lambda: time.sleep(.12))()
    t2 = [float(x) for x in open('w3/n_cpu.txt').read().strip().split(',')]
    mon.check('walltime-file', len(t2) == 3 and t2[0] >= t[1] and abs((t2[1] - t2[0]) - t2[2]) < 1e-5 and .1 < t2[2] < 30, f'second call recorded as {t2}')
    et = fe.TYPES[int(rng.integers(len(fe.TYPES)))] if False else ['HEX8', 'TET4', 'HEX20', 'TET10'][int(rng.integers(4))]
    P, C, U, A, b = fe.make_mesh(et, (2, 1, 1), rng)
    meshio.write('m.inp', meshio.Mesh(P, [(fe.MESHIO[et], C)]))
    read_abaqus_and_write_vtk('m.inp', 'm.vtu')
    m = meshio.read('m.vtu')
    mon.close('abaqus', m.points, P, 1e-9)
    mon.equal('abaqus', m.cells_dict[fe.MESHIO[et]], C)
    mon.sig('misc', et)


RUN = dict(save=save, frame=frame, misc=misc)
