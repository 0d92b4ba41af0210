import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = element type | distortion class | cell counts | what was compared; every signature is an element '
        'table or a distorted, renumbered mesh on which all table/geometry monitors decided')
ASSUMPTIONS = ['reference shape functions are built from the element polynomial space and the meshio/VTK node '
               'coordinates, with no use of basix', 'meshes are positively oriented boxes under random affine maps']
REQUIRED = {'shape-values': 9, 'shape-grads-ref': 9, 'quad-exact': 9, 'face-nodes': 9, 'face-normal': 9,
            'cell-gradients': 9, 'cell-JxW': 9, 'face-area': 9, 'face-selection': 9, 'interp-quad': 9,
            'interp-grad': 9, 'interp-face': 9, 'face-moment': 9}


def cases(tier, seed):
    out = [dict(kind='tables', et=et, cost=1) for et in fe.TYPES]
    out += [dict(kind='alternate', seed=[int(seed), 900 + i], cost=9) for i in range(1 if tier == 'quick' else 4)]
    reps = 3 if tier == 'quick' else 14
    for et in fe.TYPES:
        for r in range(reps):
            rng = onp.random.default_rng([seed, r, len(et), ord(et[0]), ord(et[-1])])
            n = [int(k) for k in rng.integers(1, 4 if fe.DIM[et] == 2 else 3, 3)]
            if et == 'HEX27':
                n = [min(k, 2) for k in n]
            out.append(dict(kind='mesh', et=et, n=n, jitter=[0., .22, .22][r % 3],
                            curved=.06 if (r % 3 == 2 and fe.ORDER[et] == 2) else 0.,
                            vec=int(rng.integers(1, 4)), seed=[int(seed), r], cost=4 if et == 'HEX27' else 2))
    return out


def exact_exps(et):
    import itertools
    d = fe.DIM[et]
    if et == 'HEX27':
        return [e for e in itertools.product(range(11), repeat=d) if sum(e) <= 10]
    if et in ('TET4', 'TRI3'):
        return [e for e in itertools.product(range(2), repeat=d) if sum(e) <= 1]
    if et in ('TET10', 'TRI6'):
        return [e for e in itertools.product(range(3), repeat=d) if sum(e) <= 2]
    return list(itertools.product(range(4), repeat=d))


def tables(case, mon):
    from jax_am.fem.basis import get_shape_vals_and_grads, get_face_shape_vals_and_grads
    fu.quiet()
    et = case['et']
    d = fe.DIM[et]
    R = fe.ref_nodes(et)
    mon.where = et
    sv, sg, w = [onp.asarray(a, float) for a in get_shape_vals_and_grads(et)]
    xi = sv @ R
    N, dN = fe.shape(et, xi)
    mon.close('shape-values', sv, N, 1e-9, 1.)
    mon.close('shape-grads-ref', sg, dN, 1e-9, 1.)
    mon.check('quad-inside', _inside(et, xi, 1e-9), 'quadrature point outside the element')
    mon.check('quad-positive', onp.all(w > 0), f'weights {w}')
    for e in exact_exps(et):
        got = (w * onp.prod(xi**onp.array(e), axis=1)).sum()
        mon.close('quad-exact', got, fe.mono_integral(et, e), 1e-9, 1., detail=f'monomial {e}')
    fv, fg, fw, fn, fi = [onp.asarray(a, float) for a in get_face_shape_vals_and_grads(et)]
    fi = fi.astype(int)
    ref = fe.faces(et)
    mon.equal('face-count', len(fv), len(ref))
    want = {vs: n for vs, n in ref}
    seen = set()
    for f in range(len(fv)):
        vs = frozenset(fi[f].reshape(-1).tolist())
        mon.where = f'{et} face {f}'
        if not mon.check('face-nodes', vs in want and vs not in seen, f'face {f} lists nodes {sorted(vs)}'):
            continue
        seen.add(vs)
        n = want[vs]
        mon.close('face-normal', fn[f], n, 1e-9, 1.)
        x = fv[f] @ R
        plane = x @ n
        mon.close('face-points-on-face', plane, onp.full(len(x), R[sorted(vs)[0]] @ n), 1e-9, 1.)
        mon.check('face-points-inside', _inside(et, x, 1e-9))
        N, dN = fe.shape(et, x)
        mon.close('face-values', fv[f], N, 1e-9, 1.)
        mon.close('face-grads-ref', fg[f], dN, 1e-9, 1.)
        fidx = [i for i, (s, _) in enumerate(ref) if s == vs][0]
        xr, wr, T = fe.face_rule(et, fidx, 7)
        area = onp.linalg.norm(onp.cross(T[0], T[1])) if d == 3 else onp.linalg.norm(T[0])
        deg = {'TET4': 1, 'TRI3': 1, 'HEX27': 6}.get(et, 2)
        import itertools
        for e in itertools.product(range(deg + 1), repeat=d):
            if sum(e) > deg:
                continue
            g = lambda y: onp.prod(y**onp.array(e), axis=1)
            mon.close('face-quad-exact', (fw[f] * g(x)).sum(), (wr * area * g(xr)).sum(), 1e-9, 1.,
                      detail=f'monomial {e}')
    mon.sig(et, 'tables', len(w), len(fv), fv.shape[1])


def _inside(et, xi, tol):
    if not onp.all(xi > -tol):
        return False
    if fe.is_tensor(et):
        return bool(onp.all(xi < 1 + tol))
    return bool(onp.all(xi.sum(1) < 1 + tol))


def mesh(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.basis import get_shape_vals_and_grads
    et, d = case['et'], fe.DIM[case['et']]
    rng = onp.random.default_rng(case['seed'] + [hash_et(et)])
    P, C, U, A, b = fe.make_mesh(et, case['n'], rng, jitter=case['jitter'], curved=case['curved'],
                                 lengths=rng.uniform(.5, 2., d))
    sides = [(a, s) for a in range(d) for s in (0, 1)]
    fns = [fu.side_fn(A, b, a, s) for a, s in sides]
    vec = case['vec']
    fem = FEM(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
              neumann_bc_info=[fns, [lambda x: np.zeros(vec)] * len(fns)])
    scale = onp.abs(P).max()
    xq = onp.asarray(fem.get_physical_quad_points())
    JxW = onp.asarray(fem.JxW)
    SG = onp.asarray(fem.shape_grads)
    _, _, w = get_shape_vals_and_grads(et)
    sol = rng.normal(size=(len(P), vec))
    uq = onp.asarray(fem.convert_from_dof_to_quad(np.array(sol)))
    ug = onp.asarray(fem.sol_to_grad(np.array(sol)))
    mon.equal('num-cells', fem.num_cells, len(C))
    e_sg, e_jw, e_uq, e_ug = [], [], [], []
    vol = 0.
    inside = True
    for c in range(len(C)):
        xi = fe.inverse_map(et, P[C[c]], xq[c])
        x, J, G, N = fe.geom(et, P[C[c]], xi)
        inside &= _inside(et, xi, 1e-6)
        e_sg.append(onp.abs(SG[c] - G).max() / onp.abs(G).max())
        dj = onp.linalg.det(J) * w
        e_jw.append(onp.abs(JxW[c] - dj).max() / onp.abs(dj).max())
        e_uq.append(onp.abs(uq[c] - N @ sol[C[c]]).max())
        g = onp.einsum('nv,qnd->qvd', sol[C[c]], G)
        e_ug.append(onp.abs(ug[c] - g).max() / onp.abs(g).max())
    mon.check('quad-inside-cell', inside, 'a quadrature point lies outside its cell')
    for name, e in (('cell-gradients', e_sg), ('cell-JxW', e_jw), ('interp-quad', e_uq), ('interp-grad', e_ug)):
        mon.close(name, onp.array(e), onp.zeros(len(e)), 1e-7, 1.)
    # integration of the constant and linear functions over the whole mesh, against the own rule
    want = fe.integrate_cells(et, P, C, lambda x: onp.hstack((onp.ones((len(x), 1)), x)))
    got = onp.concatenate(([JxW.sum()], (JxW[:, :, None] * xq).sum((0, 1))))
    if not case['curved'] or et == 'HEX27':
        mon.close('volume-and-centroid', got, want, 1e-8, max(1., onp.abs(want).max()))
    mon.close('volume-box', JxW.sum(), abs(onp.linalg.det(A)), 1e-8 if not case['curved'] or et == 'HEX27' else 2e-2)
    if case['jitter'] == 0. and et not in ('TET4', 'TRI3'):
        q2 = lambda x: onp.einsum('qi,qj->qij', x, x).reshape(len(x), -1)
        want = fe.integrate_cells(et, P, C, q2)
        got = (JxW.reshape(-1)[:, None] * q2(xq.reshape(-1, d))).sum(0)
        mon.close('second-moment', got, want, 1e-8, max(1., onp.abs(want).max()))
    # faces
    vert = fe.faces(et)
    inds = fem.get_boundary_conditions_inds(fns)
    for k, (a, s) in enumerate(sides):
        mon.where = f'side {a}{s}'
        exp = set()
        for c in range(len(C)):
            for f, (vs, _) in enumerate(vert):
                if onp.all(onp.abs(U[C[c]][sorted(vs)][:, a] - s) < 1e-9):
                    exp.add((c, vs))
        bi = onp.asarray(inds[k])
        got = [(int(c), frozenset(onp.asarray(fem.face_inds)[int(f)].reshape(-1).tolist())) for c, f in bi]
        if not mon.check('face-selection', set(got) == exp and len(got) == len(exp),
                         f'selected {len(got)} faces, expected {len(exp)}'):
            continue
        fgr, ns = [onp.asarray(t) for t in fem.get_face_shape_grads(bi)]
        xf = onp.asarray(fem.get_physical_surface_quad_points(bi))
        uf = onp.asarray(fem.convert_neumann_from_dof(np.array(sol), k))
        at = mt = 0.
        e_f, e_u, e_pl = [], [], []
        for i, (c, vs) in enumerate(got):
            fid = [j for j, (v, _) in enumerate(vert) if v == vs][0]
            x, wa, nv, Nf, Gf = fe.face_integrals(et, P[C[c]], fid, 6)
            at += wa.sum()
            mt = mt + (wa[:, None] * x).sum(0)
            xi = fe.inverse_map(et, P[C[c]], xf[i])
            _, _, G, N = fe.geom(et, P[C[c]], xi)
            e_f.append(onp.abs(fgr[i] - G).max() / onp.abs(G).max())
            e_u.append(onp.abs(uf[i] - N @ sol[C[c]]).max())
            u = onp.linalg.solve(A, (xf[i] - b).T).T
            e_pl.append(onp.abs(u[:, a] - s).max())
        mon.close('face-gradients', onp.array(e_f), onp.zeros(len(e_f)), 1e-7, 1.)
        mon.close('interp-face', onp.array(e_u), onp.zeros(len(e_u)), 1e-7, 1.)
        mon.close('face-points-on-boundary', onp.array(e_pl), onp.zeros(len(e_pl)), 1e-7, 1.)
        mon.close('face-area', ns.sum(), at, 1e-8)
        mon.close('face-moment', (ns[:, :, None] * xf).sum((0, 1)), mt, 1e-8, max(1., onp.abs(mt).max()))
    mon.sig(et, 'mesh', case['n'], case['jitter'], case['curved'] > 0, vec)


def alternate(case, mon):
    """All element types, orders of construction and mesh sizes in one process: what one problem built never leaks into another."""
    jax, np, FEM, Mesh = fu.mods()
    rng = onp.random.default_rng(case['seed'])

    class M(FEM):
        def get_tensor_map(self):
            return lambda g: g
    for r in range(2):
        objs = []
        for et in rng.permutation(fe.TYPES):
            et = str(et)
            d = fe.DIM[et]
            for _ in range(2):
                P, C, U, A, b = fe.make_mesh(et, (1, 1 + r, 1), rng, jitter=.2)
                objs.append((et, P, C, A, b, M(Mesh(P, C, et), vec=2, dim=d, ele_type=et)))
        for et, P, C, A, b, pr in [objs[i] for i in rng.permutation(len(objs))]:
            mon.where = f'{et} among {len(objs)} problems'
            xq = onp.asarray(pr.get_physical_quad_points())
            u = rng.normal(size=(len(P), 2))
            g = onp.asarray(pr.sol_to_grad(np.array(u)))
            for c in range(len(C)):
                _, J, G, N = fe.geom(et, P[C[c]], fe.inverse_map(et, P[C[c]], xq[c]))
                mon.close('interp-gradient', g[c], onp.einsum('nv,qnd->qvd', u[C[c]], G), 1e-7, onp.abs(G).max())
            mon.close('volume-box', onp.asarray(pr.JxW).sum(), abs(onp.linalg.det(A)), 1e-8)
            bi = onp.asarray(pr.get_boundary_conditions_inds([fu.side_fn(A, b, 0, 0)])[0])
            xf = onp.asarray(pr.get_physical_surface_quad_points(bi))
            mon.close('face-points-on-boundary', onp.linalg.solve(A, (xf.reshape(-1, xf.shape[-1]) - b).T)[0], onp.zeros(xf.shape[0] * xf.shape[1]), 1e-7, 1.)
    mon.sig('alternate')


def hash_et(et):
    return fe.TYPES.index(et)


RUN = dict(tables=tables, mesh=mesh, alternate=alternate)
