import itertools
import os
import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = generator | element type | resolution; counted when the produced mesh passed through the mesh validator '
        '(orientation, volume, conformity, counts, coordinates)')
ASSUMPTIONS = ['gmsh is the mesher used by the code (installed in the sandbox)',
               'cylinder: the polygon with 4*(circle_mesh-1) vertices inscribed in the circle is the meshed cross-section']
REQUIRED = {'positive-cells': 12, 'volume': 12, 'conforming': 12, 'no-orphans': 12, 'counts': 10, 'extent': 12, 'usable': 6,
            'selected-faces': 10, 'tet-quality': 2}


def cases(tier, seed):
    rng = onp.random.default_rng([seed, 1111])
    out = []
    reps = 1 if tier == 'quick' else 6
    for r in range(reps):
        for i, et in enumerate(['HEX8', 'TET4', 'TET10', 'HEX27', 'HEX8', 'TET4']):
            n = [int(k) for k in rng.integers(1, 5, 3)]
            if et == 'HEX8':
                n[int(rng.integers(3)) if i else 2] = int(rng.integers(5, 9))
            out.append(dict(kind='box', et=et, n=n, L=[float(x) for x in rng.uniform(.3, 4., 3)], seed=[int(seed), r, i], cost=4))
        for i in range(4):
            n = [int(k) for k in rng.integers(1, 6, 3)]
            out.append(dict(kind='common3', n=n, L=[float(x) for x in rng.uniform(.3, 4., 3)], seed=[int(seed), r, 20 + i], cost=1))
            out.append(dict(kind='common2', n=n, L=[float(x) for x in rng.uniform(.3, 4., 3)], seed=[int(seed), r, 30 + i], cost=1))
        for i in range(3):
            out.append(dict(kind='cylinder', R=float(rng.uniform(.5, 6.)), H=float(rng.uniform(1., 12.)), cm=int(rng.integers(3, 7)),
                            hm=int(rng.integers(2, 9)), ratio=float(rng.uniform(.3, .55)), seed=[int(seed), r, 40 + i], cost=4))
        for i, et in enumerate(fe.TYPES):
            out.append(dict(kind='faces', et=et, seed=[int(seed), r, 60 + i], cost=2))
    # meshes with more nodes and cells than 16-bit indices hold, in one direction and overall
    for i, (gen, n) in enumerate([('box', (40, 36, 43)), ('common3', (43, 36, 40)), ('common2', (260, 255)), ('common2', (33001, 1)),
                                  ('common3', (1, 1, 16500)), ('box', (1100, 2, 1))]):
        out.append(dict(kind='large', gen=gen, n=list(n), L=[float(x) for x in 10.**rng.uniform(-4, 2, 3)], seed=[int(seed), 80 + i], cost=6))
    return out


def structured_any(mon, P, C, n, L):
    nn = onp.array(n)
    g = onp.asarray(P) / (onp.array(L) / nn)
    mon.check('counts', len(C) == nn.prod() and len(P) == (nn + 1).prod(), f'{len(C)} cells for {n}')
    mon.close('extent', onp.sort(g, axis=0), onp.sort(onp.indices(nn + 1).reshape(3, -1).T, axis=0), 1e-6, 1., detail=f'second mesh {n} {L}')
    mon.close('volume', onp.prod(onp.ptp(onp.asarray(P)[C], axis=1), axis=1).sum(), onp.prod(L), 1e-6)


def large(case, mon):
    """Every cell of a large structured mesh is one box of the requested grid; all indices are in use; vectorised."""
    fu.quiet()
    from jax_am import common
    from jax_am.fem import generate_mesh
    n, L = case['n'], case['L'][:len(case['n'])]
    mon.where = f"{case['gen']} {n} {L}"
    if case['gen'] == 'box':
        m = generate_mesh.box_mesh(*n, *L, data_dir=case['_scratch'])
    else:
        m = (common.box_mesh if len(n) == 3 else common.rectangle_mesh)(*n, *L)
    et, d = ('HEX8', 3) if len(n) == 3 else ('QUAD4', 2)
    P, C = onp.asarray(m.points)[:, :d], onp.asarray(m.cells_dict[fe.MESHIO[et]])
    nn = onp.array(n)
    mon.check('counts', len(C) == nn.prod() and len(P) == (nn + 1).prod(), f'{len(C)} cells {len(P)} points')
    if not mon.check('no-orphans', C.min() >= 0 and C.max() < len(P) and len(onp.unique(C)) == len(P), 'unused points or wild indices'):
        return
    g = P / (onp.array(L) / nn)
    ig = onp.rint(g).astype(int)
    mon.close('extent', g, ig, 1e-5, 1., detail='points on the grid lines')
    key = onp.ravel_multi_index(ig.T.clip(0, nn[:, None]), nn + 1)
    mon.equal('no-orphans', onp.sort(key), onp.arange((nn + 1).prod()), 'one node per grid point')
    lo = ig[C].min(1)
    mon.equal('conforming', onp.sort(onp.ravel_multi_index(lo.T.clip(0, nn[:, None] - 1), nn)), onp.arange(nn.prod()), 'one cell per box')
    loc = ig[C] - lo[:, None]
    mon.check('conforming', loc.max() == 1 and (onp.sort(loc @ 2**onp.arange(d), axis=1) == onp.arange(2**d)).all(), 'cell is not the box between its grid lines')
    xi = fe.ref_nodes(et)[:2**d]
    _, dN = fe.shape(et, xi)
    det = onp.linalg.det(onp.einsum('cna,qnb->cqab', loc.astype(float), dN))
    mon.close('positive-cells', det, onp.ones_like(det), 1e-9, 1.)
    mon.close('volume', onp.prod(onp.ptp(P[C], axis=1), axis=1).sum(), onp.prod(L), 1e-6)
    # selections with many faces: one grid plane at each end of every axis
    from vf import femutil
    jax, np, FEM, Mesh = femutil.mods()
    M = type('M', (FEM,), dict(get_tensor_map=lambda self: (lambda g: g)))
    fem_mesh = Mesh(P, C, et)
    pr = M(fem_mesh, vec=1, dim=d, ele_type=et)
    sides = [(a, s) for a in range(d) for s in (0, 1)]
    locs = [(lambda x, a=a, v=s * L[a], t=1e-3 * L[a] / n[a]: np.abs(x[a] - v) < t) for a, s in sides]
    for (a, s), loc, bi in zip(sides, locs, pr.get_boundary_conditions_inds(locs)):
        cells = onp.nonzero(lo[:, a] == s * (nn[a] - 1))[0]
        mon.equal('selected-faces', onp.sort(onp.asarray(bi)[:, 0]), cells, f'side {a},{s}: one face of every cell along it')
        mon.check('selected-faces', int(fem_mesh.count_selected_faces(loc)) == len(cells), f'count on side {a},{s}')
    mon.event('largest-selection', int(max(nn.prod() // k for k in nn)))
    mon.sig('large', case['gen'], n)


def validate(mon, et, P, C, volume, tag):
    """Independent validity monitor for any mesh claimed to be of type et."""
    P, C = onp.asarray(P, float), onp.asarray(C)
    d = fe.DIM[et]
    nn = len(fe.ref_nodes(et))
    mon.check('counts', C.shape[1] == nn, f'{C.shape[1]} nodes per cell for {et}')
    if not mon.check('no-orphans', C.min() >= 0 and C.max() < len(P) and len(onp.unique(C)) == len(P),
                     f'{len(onp.unique(C))} of {len(P)} points used, index range {C.min()}..{C.max()}'):
        return False
    P = P[:, :d]
    key = {tuple(k) for k in onp.round(P / (onp.ptp(P, axis=0).max()), 9)}
    mon.check('no-orphans', len(key) == len(P), 'duplicate points')
    mon.check('no-orphans', all(len(set(c)) == nn for c in C), 'repeated node in a cell')
    xi, w = fe.ref_rule(et, 3)
    vol, mn = 0., onp.inf
    pts = onp.vstack((xi, fe.ref_nodes(et)[:fe.num_vertices(et)]))
    for c in C:
        _, J, _, _ = fe.geom(et, P[c], pts)
        det = onp.linalg.det(J)
        mn = min(mn, det.min())
        vol += (det[:len(w)] * w).sum()
    mon.check('positive-cells', mn > 0, f'{tag}: smallest Jacobian {mn}')
    mon.close('volume', vol, volume, 1e-6, detail=tag)
    # every face belongs to one or two cells, and the boundary is closed: sum of outward area vectors vanishes
    cnt, area = {}, onp.zeros(d)
    for i, c in enumerate(C):
        for f, (vs, _) in enumerate(fe.faces(et)):
            cnt.setdefault(tuple(sorted(int(c[v]) for v in vs)), []).append((i, f))
    mon.check('conforming', all(len(v) <= 2 for v in cnt.values()), 'face shared by more than two cells')
    bnd = [v[0] for v in cnt.values() if len(v) == 1]
    tot = 0.
    for i, f in bnd:
        x, wa, nv, _, _ = fe.face_integrals(et, P[C[i]], f, 3)
        area += (wa[:, None] * nv).sum(0)
        tot += wa.sum()
    mon.close('conforming', area, onp.zeros(d), 1e-9, tot, detail='boundary not closed')
    return tot, len(bnd)


def usable(mon, et, P, C, tag):
    """The generated mesh is accepted by the finite element code and integrates its own volume and surface."""
    jax, np, FEM, Mesh = fu.mods()
    d = fe.DIM[et]

    class M(FEM):
        def get_tensor_map(self):
            return lambda g: g
    pr = M(Mesh(onp.asarray(P)[:, :d], C, et), vec=1, dim=d, ele_type=et)
    g = onp.asarray(pr.sol_to_grad(np.array((onp.asarray(P)[:, :d] @ onp.arange(1., d + 1))[:, None])))
    mon.close('usable', g, onp.broadcast_to(onp.arange(1., d + 1), g.shape), 1e-6, detail=tag)
    return float(onp.sum(onp.asarray(pr.JxW)))


def box(case, mon):
    fu.quiet()
    from jax_am.fem.generate_mesh import box_mesh, get_meshio_cell_type
    import meshio
    et, n, L = case['et'], case['n'], case['L']
    mon.where = f'box_mesh {et} {n} {L}'
    m = box_mesh(*n, *L, data_dir=case['_scratch'], ele_type=et)
    ct = fe.MESHIO[et]
    mon.check('counts', get_meshio_cell_type(et) == ct and list(m.cells_dict) == [ct], f'cell blocks {list(m.cells_dict)}')
    P, C = m.points, m.cells_dict[ct]
    r = validate(mon, et, P, C, onp.prod(L), mon.where)
    if r:
        mon.close('conforming', r[0], 2 * (L[0] * L[1] + L[1] * L[2] + L[0] * L[2]), 1e-6)
    mon.close('extent', onp.array([P.min(0), P.max(0)]), onp.array([onp.zeros(3), L]), 1e-9, max(L))
    if et == 'HEX8':
        mon.check('counts', len(C) == onp.prod(n), f'{len(C)} cells for {n}')
    if et in ('HEX8', 'HEX27'):
        k = fe.ORDER[et]
        grid = onp.array(list(itertools.product(*[onp.linspace(0, L[i], k * n[i] + 1) for i in range(3)])))
        a = onp.array(sorted(map(tuple, onp.round(P / onp.array(L), 7) + 0.)))
        bb = onp.array(sorted(map(tuple, onp.round(grid / onp.array(L), 7) + 0.)))
        mon.close('extent', a, bb, 1e-6, 1., detail='grid lines')
    v = usable(mon, et, P, C, mon.where)
    mon.close('volume', v, onp.prod(L), 1e-6)
    f = os.path.join(case['_scratch'], 'msh', 'box.msh')
    mon.check('counts', os.path.exists(f) and len(meshio.read(f).points) == len(P), 'mesh file missing or different')
    # another mesh in the same place and process: the new request is what comes back, the first mesh is untouched
    keep = P.copy(), C.copy()
    n2 = [k % 3 + 1 for k in n]
    L2 = [2.5 * x for x in L[::-1]]
    m2 = box_mesh(*n2, *L2, data_dir=case['_scratch'], ele_type='HEX8')
    structured_any(mon, m2.points, m2.cells_dict['hexahedron'], n2, L2)
    mon.check('counts', onp.array_equal(P, keep[0]) and onp.array_equal(C, keep[1]), 'a second mesh changed the first')
    mon.sig('box', et, n)


def structured(mon, et, P, C, n, L, tag):
    d = len(n)
    validate(mon, et, P, C, onp.prod(L), tag)
    grid = onp.array(list(itertools.product(*[onp.linspace(0, L[i], n[i] + 1) for i in range(d)])))
    mon.close('extent', P, grid, 1e-12, max(L), detail='points in x-major order')
    mon.check('counts', len(C) == onp.prod(n), f'{len(C)} cells')
    # cell (i, j, k) in x-major order is the box between its grid lines
    lo = onp.array(list(itertools.product(*[onp.arange(k) for k in n])))
    h = onp.array(L) / onp.array(n)
    cen = P[C].mean(1)
    mon.close('extent', cen, (lo + .5) * h, 1e-10, max(L), detail='cell order')


def common3(case, mon):
    fu.quiet()
    from jax_am.common import box_mesh
    m = box_mesh(*case['n'], *case['L'])
    mon.where = f"common.box_mesh {case['n']}"
    structured(mon, 'HEX8', m.points, m.cells_dict['hexahedron'], case['n'], case['L'], mon.where)
    if case['seed'][-1] % 2 == 0:
        usable(mon, 'HEX8', m.points, m.cells_dict['hexahedron'], mon.where)
    mon.sig('common.box_mesh', case['n'])


def common2(case, mon):
    fu.quiet()
    from jax_am.common import rectangle_mesh
    n, L = case['n'][:2], case['L'][:2]
    m = rectangle_mesh(*n, *L)
    mon.where = f'rectangle_mesh {n}'
    structured(mon, 'QUAD4', m.points, m.cells_dict['quad'], n, L, mon.where)
    if case['seed'][-1] % 2 == 0:
        usable(mon, 'QUAD4', m.points, m.cells_dict['quad'], mon.where)
    mon.sig('rectangle_mesh', n)


def cylinder(case, mon):
    fu.quiet()
    from jax_am.fem.generate_mesh import cylinder_mesh
    R, H, cm, hm = case['R'], case['H'], case['cm'], case['hm']
    m = cylinder_mesh(case['_scratch'], R=R, H=H, circle_mesh=cm, hight_mesh=hm, rect_ratio=case['ratio'])
    P, C = m.points, m.cells_dict['hexahedron']
    k = 4 * (cm - 1)
    mon.where = f'cylinder {R:.3f} {H:.3f} {cm} {hm}'
    validate(mon, 'HEX8', P, C, H * k / 2 * R * R * onp.sin(2 * onp.pi / k), mon.where)
    mon.check('counts', len(C) == 5 * (cm - 1)**2 * hm, f'{len(C)} cells')
    rad = onp.hypot(P[:, 0], P[:, 1])
    mon.close('extent', [rad.max(), P[:, 2].min(), P[:, 2].max()], [R, 0., H], 1e-9, max(R, H))
    mon.check('extent', (onp.abs(rad - R) < 1e-6 * R).sum() == k * (hm + 1), 'points on the mantle')
    v = usable(mon, 'HEX8', P, C, mon.where)
    mon.close('volume', v, H * k / 2 * R * R * onp.sin(2 * onp.pi / k), 1e-6)
    mon.sig('cylinder', cm, hm)


def onp_any(np, xs):
    out = xs[0]
    for x in xs[1:]:
        out = np.logical_or(out, x)
    return out


def faces(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.generate_mesh import check_mesh_TET4, get_meshio_cell_type
    import meshio
    from vf.props.F05 import side_faces
    rng = onp.random.default_rng(case['seed'])
    et, d = case['et'], fe.DIM[case['et']]
    n = [int(k) for k in rng.integers(1, 4, d)]
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=.15)
    m = Mesh(P, C, et)
    mon.where = f'{et} {n}'
    ct = get_meshio_cell_type(et)
    mon.check('counts', ct == fe.MESHIO[et] and meshio._mesh.num_nodes_per_cell.get(ct, C.shape[1]) == C.shape[1], f'{ct} for {et}')
    sides = [(a, s) for a in range(d) for s in (0, 1)]
    for a, s in sides:
        got = m.count_selected_faces(fu.side_fn(A, b, a, s))
        mon.check('selected-faces', int(got) == len(list(side_faces(et, C, U, a, s))), f'side {a},{s}: {got}')
    got = m.count_selected_faces(lambda p: np.logical_or(fu.side_fn(A, b, 0, 0)(p), fu.side_fn(A, b, 0, 1)(p)))
    if n[0] > 1:
        mon.check('selected-faces', int(got) == sum(len(list(side_faces(et, C, U, 0, s))) for s in (0, 1)), f'two sides: {got}')
    # a selection may take several faces of one cell: two sides meeting in an edge, and everything
    for sel in ([sides[0], sides[2]], [sides[1], sides[2]], sides):
        got = int(m.count_selected_faces(lambda p: onp_any(np, [fu.side_fn(A, b, *q)(p) for q in sel])))
        on = onp.any([onp.abs(U[:, a] - s) < 1e-9 for a, s in sel], axis=0)
        inner = sum(all(on[c[v]] for v in vs) for c in C for vs, _ in fe.faces(et))
        want = sum(len(list(side_faces(et, C, U, *q))) for q in sel)
        if inner == want:       # otherwise faces inside the body have all their vertices on the selected sides
            mon.check('selected-faces', got == want, f'sides {sel}: {got} instead of {want}')
            mon.event('faces-of-one-cell', want)
    mon.check('selected-faces', int(m.count_selected_faces(lambda p: p[0] > 1e6)) == 0, 'empty selection')
    # regions with holes: every face of a side except those that touch one of a few corners
    class M(FEM):
        def get_tensor_map(self):
            return lambda g: g
    pr = M(m, vec=1, dim=d, ele_type=et)
    table = onp.asarray(pr.face_inds)
    for a, s in sides:
        fs = list(side_faces(et, C, U, a, s))
        vert = sorted({int(C[c][v]) for c, f in fs for v in fe.faces(et)[f][0]})
        gone = rng.choice(vert, int(rng.integers(1, 1 + max(1, len(vert) // 3))), replace=False)
        G = np.array(P[gone])
        loc = lambda p: fu.side_fn(A, b, a, s)(p) & (np.min(np.sum((G - p)**2, axis=1)) > 1e-12)
        want = {(c, frozenset(int(C[c][v]) for v in fe.faces(et)[f][0])) for c, f in fs if not set(C[c][sorted(fe.faces(et)[f][0])]) & set(gone)}
        mon.check('selected-faces', int(m.count_selected_faces(loc)) == len(want), f'side {a},{s} without {len(gone)} corners')
        bi = onp.asarray(pr.get_boundary_conditions_inds([loc])[0])
        nv = fe.num_vertices(et)
        got = [(int(c), frozenset(int(C[c][v]) for v in table[f] if v < nv)) for c, f in bi]
        mon.check('selected-faces', len(got) == len(set(got)) and set(got) == want, f'side {a},{s} without {len(gone)} corners: {len(got)} instead of {len(want)}')
        mon.event('holes', len(fs) - len(want))
    mon.sig('faces', et, n)
    if et == 'TET4':
        q = onp.asarray(check_mesh_TET4(P, C))
        want = onp.array([onp.linalg.det(P[c[1:]] - P[c[0]]) for c in C])
        mon.close('tet-quality', q, want, 1e-9)
        C2 = C.copy()
        k = int(rng.integers(len(C)))
        C2[k, [1, 2]] = C2[k, [2, 1]]
        q2 = onp.asarray(check_mesh_TET4(P, C2))
        mon.check('tet-quality', q2[k] < 0 and (onp.delete(q2, k) > 0).all(), 'inverted cell not signalled')


RUN = dict(large=large, box=box, common3=common3, common2=common2, cylinder=cylinder, faces=faces)
