import contextlib
import io
import os
import numpy as onp
from vf import femutil as fu
from vf.refs import pf

LEVEL = 'exploration'
RULE = ('signature = grid shape class | orientations | liquid fraction class | number of grains found; counted when the segmentation '
        'returned by the code was compared with an independent labelling')
ASSUMPTIONS = ['grains are face-connected sets of solid cells with the same orientation', 'grains of fewer than five cells report aspect ratio 1']
REQUIRED = {'adjacency': 15, 'partition': 15, 'components': 15, 'grouping': 15, 'volumes': 15, 'aspect': 15, 'end-to-end': 6, 'rotation-invariance': 6}


def cases(tier, seed):
    out = []
    for i in range(40 if tier == 'quick' else 400):
        out.append(dict(kind='seg', seed=[int(seed), i], cost=1))
    for i in range(12 if tier == 'quick' else 80):
        out.append(dict(kind='e2e', seed=[int(seed), 1000 + i], cost=1))
    for i in range(2 if tier == 'quick' else 8):
        out.append(dict(kind='large', big=i % 2 == 0, seed=[int(seed), 2000 + i], cost=8))
    return out


def components(ids, solid):
    """Connected components of a large sample through a sparse graph."""
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    idx = onp.arange(ids.size).reshape(ids.shape)
    I, J = [], []
    for ax in range(3):
        lo, hi = [slice(None)] * 3, [slice(None)] * 3
        lo[ax], hi[ax] = slice(0, -1), slice(1, None)
        lo, hi = tuple(lo), tuple(hi)
        same = solid[lo] & solid[hi] & (ids[lo] == ids[hi])
        I.append(idx[lo][same])
        J.append(idx[hi][same])
    I, J = onp.concatenate(I), onp.concatenate(J)
    return connected_components(coo_matrix((onp.ones(len(I)), (I, J)), shape=(ids.size,) * 2), directed=False)[1]


def large(case, mon):
    """Many cells, many orientations and a grain that winds through the whole sample."""
    fu.quiet()
    from jax_am.phase_field import utils as U
    rng = onp.random.default_rng(case['seed'])
    n = [int(k) for k in (rng.integers(33, 37, 3) if case['big'] else rng.integers(13, 19, 3))]
    sh, N = (n[2], n[1], n[0]), int(onp.prod(n))
    m = int(rng.integers(270, 400)) if not case['big'] else int(rng.integers(3, 40))
    ids = onp.repeat(onp.repeat(onp.repeat(rng.integers(0, m, [-(-k // 3) for k in sh]), 3, 0), 3, 1), 3, 2)[:sh[0], :sh[1], :sh[2]].copy()
    ids[rng.random(sh) < .2] = m - 1
    snake = int(rng.integers(m))        # one cell wide, turning back and forth in the lower layers
    for k in range(0, min(sh[0], 9), 2):
        ids[k] = onp.where(ids[k] == snake, (snake + 1) % m, ids[k])
        ids[k, ::2, :] = snake
        for j in range(1, sh[1], 2):
            ids[k, j, 0 if (j // 2) % 2 else -1] = snake
        if k:
            ids[k - 1] = onp.where(ids[k - 1] == snake, (snake + 1) % m, ids[k - 1])
            ids[k - 1, 0, 0] = snake
    solid = rng.random(sh) >= .05
    solid |= ids == snake
    a = dict(Nx=n[0], Ny=n[1], Nz=n[2], num_oris=m)
    cen = onp.stack(onp.meshgrid(*[onp.arange(k) + .5 for k in sh], indexing='ij'), -1)[..., ::-1].reshape(-1, 3)
    w = onp.ones(N)
    mon.where = f'{n} oris {m} large'
    with contextlib.redirect_stdout(io.StringIO()):
        edges = U.compute_edges_in_order(a)
        mon.equal('adjacency', onp.array([len(e) for e in edges]),
                  sum((cen[:, k] > 1).astype(int) + (cen[:, k] < n[k] - 1) for k in range(3)), 'number of neighbours')
        I = onp.repeat(onp.arange(N), [len(e) for e in edges])
        J = onp.concatenate([onp.asarray(e, int) for e in edges])
        mon.equal('adjacency', onp.abs(cen[I] - cen[J]).sum(1), onp.ones(len(I)), 'neighbours share a face')
        mon.check('adjacency', len(onp.unique(I * N + J)) == len(I), 'neighbour listed twice')
        sep = U.BFS(edges, solid.reshape(-1), ids.reshape(-1), a, combined=False)
        grains = U.BFS(edges, solid.reshape(-1), ids.reshape(-1), a)
        gv, gc = U.get_aspect_ratio_inputs(grains, w, cen)
        vols, ratios = U.compute_aspect_ratios_and_vols(gv, gc)
    fid, fs = ids.reshape(-1), solid.reshape(-1)
    mon.check('grouping', len(sep) == m and all((fid[onp.asarray(x, int)] == o).all() for o, gs in enumerate(sep) for x in gs),
              'grains filed under the wrong orientation')
    mon.check('grouping', [sorted(map(int, x)) for gs in sep for x in gs] == [sorted(map(int, x)) for x in grains], 'combined list differs')
    lab = components(ids, solid)
    gid = onp.full(N, -1)
    tot = 0
    for k, g in enumerate(grains):
        gid[onp.asarray(g, int)] = k
        tot += len(g)
    mon.check('partition', tot == fs.sum() and ((gid >= 0) == fs).all(), 'cells lost or counted twice')
    pairs = onp.unique(onp.stack((gid[fs], lab[fs])), axis=1).shape[1]
    mon.check('components', pairs == len(grains) == len(onp.unique(lab[fs])), f'{len(grains)} grains instead of {len(onp.unique(lab[fs]))}')
    mon.close('volumes', onp.asarray(vols, float), [len(g) for g in grains], 1e-9)
    for g, r in sorted(zip(grains, ratios), key=lambda x: -len(x[0]))[:40]:
        e = 1. if len(g) < 5 else ratio(cen[g], w[g])
        if e is not None:
            mon.close('aspect', [float(r)], [e], 1e-6, e)
    mon.sig('large', case['big'], max(map(len, grains)) > 900, len(grains) > 300)


def label(ids, solid):
    """Connected components by repeated minimum propagation (independent of BFS)."""
    lab = onp.where(solid, onp.arange(ids.size).reshape(ids.shape), -1)
    while True:
        new = lab.copy()
        for ax in range(3):
            for s in (1, -1):
                if ids.shape[ax] == 1:
                    continue
                lo = [slice(None)] * 3
                hi = [slice(None)] * 3
                lo[ax], hi[ax] = slice(0, -1), slice(1, None)
                a, b = (tuple(lo), tuple(hi)) if s > 0 else (tuple(hi), tuple(lo))
                same = solid[a] & solid[b] & (ids[a] == ids[b])
                new[a] = onp.where(same, onp.minimum(new[a], new[b]), new[a])
        if (new == lab).all():
            return lab
        lab = new


def ratio(P, w):
    X = P * w[:, None]
    X = X - X.mean(0)
    ev = onp.sort(onp.linalg.eigvalsh(X.T @ X / (len(X) - 1)))[::-1]
    l = onp.sqrt(onp.maximum(ev, 0))
    return 2 * l[0] / (l[1] + l[2]) if l[1] + l[2] > 1e-6 * l[0] else None


def sample(rng):
    n = [int(k) for k in rng.integers(1, 8, 3)]
    m = int(rng.integers(1, 6))
    N = n[0] * n[1] * n[2]
    sh = (n[2], n[1], n[0])
    if rng.random() < .5:       # compact grains
        k = int(rng.integers(1, 8))
        pts = rng.random((k, 3)) * n
        g = onp.stack(onp.meshgrid(*[onp.arange(s) + .5 for s in sh], indexing='ij'), -1)[..., ::-1]
        own = ((g[..., None, :] - pts)**2).sum(-1).argmin(-1)
        ids = rng.integers(0, m, k)[own]
    else:
        ids = rng.integers(0, m, sh)
    p = rng.choice([0., .1, .5, 1.])
    solid = rng.random(sh) >= p
    return n, m, N, sh, ids, solid


def compare(mon, grains, vols, ratios, lab, ids, w, cen, m):
    flat, fid = lab.reshape(-1), ids.reshape(-1)
    want = {}
    for c in onp.unique(flat[flat >= 0]):
        want[frozenset(onp.nonzero(flat == c)[0].tolist())] = int(fid[c])
    got = [frozenset(int(x) for x in g) for g in grains]
    allc = [int(x) for g in grains for x in g]
    mon.check('partition', len(allc) == len(set(allc)) and set(allc) == set(onp.nonzero(flat >= 0)[0].tolist()), 'cells lost or counted twice')
    mon.check('components', set(got) == set(want) and len(got) == len(want), f'{len(got)} grains instead of {len(want)}')
    if vols is not None:
        mon.close('volumes', [v for v in vols], [sum(w[i] for i in g) for g in got], 1e-9)
        for g, r in zip(got, ratios):
            idx = sorted(g)
            if len(idx) < 5:
                mon.check('aspect', r == 1., f'small grain reports {r}')
            else:
                e = ratio(cen[idx], w[idx])
                if e is None:
                    mon.check('aspect', not r < 1e5, f'needle reports {r}')
                else:
                    mon.close('aspect', [r], [e], 1e-6, e)
                    mon.check('aspect', r >= 1 - 1e-9, r)


def seg(case, mon):
    fu.quiet()
    from jax_am.phase_field import utils as U
    rng = onp.random.default_rng(case['seed'])
    n, m, N, sh, ids, solid = sample(rng)
    a = dict(Nx=n[0], Ny=n[1], Nz=n[2], num_oris=m)
    h = rng.uniform(.5, 2, 3)
    cen = onp.array([((i + .5) * h[0], (j + .5) * h[1], (k + .5) * h[2]) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])])
    w = rng.uniform(.5, 1.5, N) if rng.random() < .5 else onp.full(N, h.prod())
    mon.where = f'{n} oris {m} solid {int(solid.sum())}/{N}'
    with contextlib.redirect_stdout(io.StringIO()):
        edges = U.compute_edges_in_order(a)
        adj = onp.zeros((N, N), int)
        for i, l in enumerate(edges):
            for j in l:
                adj[i, j] += 1
        g = onp.round(onp.abs((cen[:, None] - cen[None]) / h)).sum(-1)
        mon.equal('adjacency', adj, (g == 1).astype(int))
        grains = U.BFS(edges, solid.reshape(-1), ids.reshape(-1), a)
        sep = U.BFS(edges, solid.reshape(-1), ids.reshape(-1), a, combined=False)
        gv, gc = U.get_aspect_ratio_inputs(grains, w, cen)
        vols, ratios = U.compute_aspect_ratios_and_vols(gv, gc)
    mon.check('grouping', len(sep) == m and all(ids.reshape(-1)[c] == o for o, gs in enumerate(sep) for x in gs for c in x),
              'grains filed under the wrong orientation')
    mon.check('grouping', [sorted(map(int, x)) for gs in sep for x in gs] == [sorted(map(int, x)) for x in grains], 'combined list differs')
    lab = label(ids, solid)
    compare(mon, grains, vols, ratios, lab, ids, w, cen, m)
    # rotating the sample does not change the aspect ratios (uniform cells)
    if len(grains):
        q = pf.rotations(rng, 1)
        R = pf.dirs_of(q)[:, 0]
        w0 = onp.ones(N)
        with contextlib.redirect_stdout(io.StringIO()):
            gv, gc = U.get_aspect_ratio_inputs(grains, w0, cen)
            _, r1 = U.compute_aspect_ratios_and_vols(gv, gc)
            gv, gc = U.get_aspect_ratio_inputs(grains, w0, cen @ R.T + rng.normal(size=3))
            _, r2 = U.compute_aspect_ratios_and_vols(gv, gc)
        for x, y, g_ in zip(r1, r2, grains):
            if len(g_) >= 5 and ratio(cen[g_], w0[g_]) is not None:
                mon.close('rotation-invariance', [y], [x], 1e-5, x)
    mon.sig('seg', 1 in n, m, int(4 * solid.mean()), min(len(grains), 12))


def e2e(case, mon):
    """process_eta on the file the solver writes."""
    fu.quiet()
    import meshio
    from jax_am.phase_field import utils as U
    rng = onp.random.default_rng(case['seed'])
    n, m, N, sh, ids, solid = sample(rng)
    a, h = pf.args(rng, n=n, num_oris=m)
    a['data_dir'] = os.path.join(case['_scratch'], 'data')
    P, C = pf.write_neper(os.path.join(a['data_dir'], 'neper'), a, rng, onp.zeros(N, int))
    T = onp.where(solid.reshape(-1), rng.uniform(300, .999 * a['T_liquidus'], N), rng.uniform(1.001, 1.5, N) * a['T_liquidus'])
    near = rng.random(N) < .4       # cells just below and just above the liquidus
    T = onp.where(near, a['T_liquidus'] + onp.where(solid.reshape(-1), -1, 1) * 10.**rng.uniform(-1.5, 1, N), T)
    os.makedirs(os.path.join(a['data_dir'], 'vtk/pf/sols'))
    meshio.Mesh(P, [('hexahedron', C)], cell_data={'T': [onp.float32(T)[:, None]], 'ori_inds': [onp.int32(ids.reshape(-1))]}).write(
        os.path.join(a['data_dir'], 'vtk/pf/sols/u013.vtu'))
    with contextlib.redirect_stdout(io.StringIO()):
        vols, ratios = U.process_eta(a)
    lab = label(ids, solid)
    w = onp.full(N, onp.prod(h))
    cen = P[C].mean(1)
    flat = lab.reshape(-1)
    mon.where = f'{n} oris {m} solid {int(solid.sum())}/{N}'
    want = []
    for c in onp.unique(flat[flat >= 0]):
        idx = onp.nonzero(flat == c)[0]
        e = 1. if len(idx) < 5 else ratio(cen[idx], w[idx])
        want.append((len(idx) * w[0], e if e is not None else onp.inf))
    got = sorted((round(v / w[0]), r) for v, r in zip(vols, ratios))
    want = sorted((round(v / w[0]), r) for v, r in want)
    mon.equal('end-to-end', [v for v, _ in got], [v for v, _ in want], 'grain volumes')
    mon.close('volumes', [sum(vols)], [solid.sum() * w[0]], 1e-9, N * w[0])
    for k in sorted({v for v, _ in want}):
        x = onp.sort([min(r, 1e4) for v, r in got if v == k])
        y = onp.sort([min(r, 1e4) for v, r in want if v == k])
        mon.close('end-to-end', x, y, 1e-4)
    mon.sig('e2e', 1 in n, m, int(4 * solid.mean()), min(len(vols), 12))


RUN = dict(large=large, seg=seg, e2e=e2e)
