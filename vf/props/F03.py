import copy
import numpy as onp
from vf.refs import fe
from vf import femutil as fu, weak

LEVEL = 'exploration'
RULE = ('signature = element type | vec | number of cells (assembly batches) | optional terms present; counted when '
        'residual and tangent were both compared with the reference assembly')
ASSUMPTIONS = ['quadrature points and weights are those reported by the code (decided by F01)',
               'reference tangent = central difference of the numpy residual (cubic forms, step 1e-4)']
REQUIRED = {'residual': 10, 'newton-residual': 10, 'tangent': 20, 'residual-again': 8, 'face-set': 2, 'geometry': 3}

COUNTS2 = [(1, 1), (19, 1), (5, 4), (7, 3), (13, 3), (41, 1), (2, 1), (6, 4), (20, 2), (9, 7)]
COUNTS3 = [(1, 1, 1), (2, 1, 1), (3, 3, 2), (5, 2, 2), (7, 3, 1), (3, 7, 2)]


def cases(tier, seed):
    out = []
    rng = onp.random.default_rng([seed, 303])
    reps = 2 if tier == 'quick' else 8
    for r in range(reps):
        for et in fe.TYPES:
            d = fe.DIM[et]
            big = et in ('HEX27', 'HEX20', 'TET10')
            if d == 2:
                n = COUNTS2[int(rng.integers(len(COUNTS2)))]
                if et in ('QUAD8', 'TRI6'):
                    n = [(1, 1), (3, 2), (7, 1), (5, 4), (7, 3)][int(rng.integers(5))]
            elif big:
                n = [(1, 1, 1), (2, 1, 1), (2, 2, 1)][int(rng.integers(3))] if et != 'HEX27' else (1, 1, 2)[:3]
            else:
                n = COUNTS3[int(rng.integers(len(COUNTS3)))]
                if et == 'TET4':
                    n = [(1, 1, 1), (2, 1, 1), (2, 2, 1)][int(rng.integers(3))]
            out.append(dict(kind='form', et=et, n=list(n), vec=int(rng.integers(1, d + 1)) if not big else 1,
                            opts=['lv', 'mv', 'cauchy', 'neumann', 'nv', 'body'] if r % 2 == 0 else
                            [o for o in ('lv', 'mv', 'cauchy', 'neumann', 'nv', 'body', 'nomass') if rng.random() < .5],
                            seed=[int(seed), r, fe.TYPES.index(et)], cost=8))
        # assembly batching: cell counts around and beyond the batch boundaries
        for k, n in enumerate([(1, 1), (19, 1), (4, 5), (7, 3), (39, 1), (20, 2), (41, 1), (9, 7)]):
            if tier == 'quick' and r == 1:
                continue
            out.append(dict(kind='form', et='QUAD4', n=list(n) + [1], vec=1 + (k + r) % 2,
                            opts=['lv', 'mv'] + (['cauchy'] if k % 3 == 0 else []),
                            seed=[int(seed), r, 100 + k], cost=5))
    # more nodes, cells, faces and degrees of freedom than any small index type or fixed batch holds
    for k, (et, n, vec) in enumerate([('QUAD4', (33000, 1), 2), ('HEX8', (60, 27, 21), 2)][:1 if tier == 'quick' else 2]):
        out.append(dict(kind='large', et=et, n=list(n), vec=vec, seed=[int(seed), 500 + k], cost=20))
    return out


def large(case, mon):
    """Same oracle, vectorised: every node of a mesh with tens of thousands of nodes."""
    jax, np, FEM, Mesh = fu.mods()
    import scipy.sparse
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    rng = onp.random.default_rng(case['seed'])
    L = onp.array(case['n'], float) / min(case['n'])**.5
    P, C, U, A, b = fe.make_mesh(et, case['n'], rng, jitter=.15, lengths=L, affine=False)
    K = rng.normal(size=(vec, d, vec, d)) * .3 + onp.eye(vec * d).reshape(vec, d, vec, d)
    a, c3, s0, s1 = rng.uniform(.5, 1.), rng.uniform(.2, .5), rng.normal(size=vec), rng.normal(size=(vec, d)) * .1
    h1, t0 = rng.uniform(.5, 1.), rng.normal(size=vec)

    class M(FEM):
        def get_tensor_map(self):
            return lambda g, k: k * np.einsum('aibj,bj->ai', np.array(K), g)

        def get_mass_map(self):
            return lambda u: a * u + c3 * u**3
    side = lambda p: np.isclose(p[1], 0., atol=1e-6 * L[1])
    top = lambda p: np.isclose(p[1], L[1], atol=1e-6 * L[1])
    fem = M(Mesh(P, C, et), vec=vec, dim=d, ele_type=et, source_info=lambda x: np.array(s0) + np.array(s1) @ x,
            cauchy_bc_info=[[side], [lambda u: h1 * u]], neumann_bc_info=[[top], [lambda x: np.array(t0) * (1. + np.sin(x[0]))]])
    w = onp.asarray(fem.JxW)
    xq = onp.asarray(fem.get_physical_quad_points())
    nq = w.shape[1]
    xi = fe.inverse_map(et, P[C[0]], xq[0])
    N, dN = fe.shape(et, xi)
    J = onp.einsum('cna,qnb->cqab', P[C], dN)
    G = onp.einsum('qnb,cqba->cqna', dN, onp.linalg.inv(J))
    mon.close('geometry', xq, onp.einsum('qn,cna->cqa', N, P[C]), 1e-9, L.max())
    kq = rng.uniform(.5, 1.5, (len(C), nq))
    fem.internal_vars = {'laplace': [np.array(kq)]}
    faces = []
    for k, loc in enumerate((0., 1.)):
        bi = onp.asarray(fem.get_boundary_conditions_inds([[side, top][k]])[0])
        on = onp.abs(U[:, 1] - loc) < 1e-9
        want = {(int(i), tuple(sorted(vs))) for vs, _ in fe.faces(et) for i in onp.nonzero(on[C[:, sorted(vs)]].all(1))[0]}
        got = {(int(i), tuple(sorted(onp.nonzero(on[C[i]])[0]))) for i, _ in bi}
        mon.check('face-set', len(bi) == len(want) and got == want, f'{len(bi)} faces instead of {len(want)}')
        xf = onp.asarray(fem.get_physical_surface_quad_points(bi))
        _, ns = fem.get_face_shape_grads(bi)
        # each local face index maps to fixed reference points
        Nf = onp.zeros(xf.shape[:2] + (C.shape[1],))
        for f in onp.unique(bi[:, 1]):
            r = onp.nonzero(bi[:, 1] == f)[0]
            Nf[r] = fe.shape(et, fe.inverse_map(et, P[C[bi[r[0], 0]]], xf[r[0]]))[0]
        mon.close('geometry', xf, onp.einsum('fqn,fna->fqa', Nf, P[C[bi[:, 0]]]), 1e-9, L.max())
        faces.append((bi[:, 0], xf, onp.asarray(ns), Nf))

    def ref(u):
        g = onp.einsum('cnv,cqnd->cqvd', u[C], G)
        uq = onp.einsum('cnv,qn->cqv', u[C], N)
        e = onp.einsum('cqai,cqni,cq->cna', kq[:, :, None, None] * onp.einsum('aibj,cqbj->cqai', K, g), G, w)
        e += onp.einsum('cqa,qn,cq->cna', a * uq + c3 * uq**3 - s0 - xq @ s1.T, N, w)
        R = onp.zeros_like(u)
        onp.add.at(R, C, e)
        for k, (cs, xf, ns, Nf) in enumerate(faces):
            v = h1 * onp.einsum('fnv,fqn->fqv', u[C[cs]], Nf) if k == 0 else -t0 * (1. + onp.sin(xf[..., :1]))
            onp.add.at(R, C[cs], onp.einsum('fqa,fqn,fq->fna', v, Nf, ns))
        return R
    u = rng.normal(size=(len(P), vec))
    want = ref(u)
    mon.where = f'{et} {len(C)} cells {len(P)} nodes'
    mon.close('residual', fem.compute_residual(np.array(u)), want, 1e-9, onp.abs(want).max())
    mon.close('newton-residual', fem.newton_update(np.array(u)), want, 1e-9, onp.abs(want).max())
    nd = len(P) * vec
    Amat = scipy.sparse.coo_matrix((onp.array(fem.V), (onp.array(fem.I), onp.array(fem.J))), shape=(nd, nd)).tocsr()
    du = rng.normal(size=u.shape)
    jv = (ref(u + 1e-4 * du) - ref(u - 1e-4 * du)) / 2e-4
    mon.close('tangent', (Amat @ du.reshape(-1)).reshape(u.shape), jv, 2e-6, onp.abs(jv).max())
    mon.sig(et, 'large')


def form(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    import scipy.sparse
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    o = set(case['opts'])
    rng = onp.random.default_rng(case['seed'])
    P, C, U, A, b = fe.make_mesh(et, case['n'], rng, jitter=.15, lengths=rng.uniform(.8, 1.6, d))
    f = weak.Form(vec, d, rng, spd=False, has_mass='nomass' not in o)
    cs = [fu.side_fn(A, b, 0, 1), fu.side_fn(A, b, d - 1, 0)] if 'cauchy' in o else []
    nsd = [fu.side_fn(A, b, 0, 0), fu.side_fn(A, b, 1, 1)] if 'neumann' in o else []
    cls = weak.make_class(FEM, np, f)
    hooks = {}
    body_np = lambda u: 2. * u + u**2
    if 'body' in o:
        cls.get_body_map = lambda self: (lambda u: 2. * u + u**2)
    fem = cls(Mesh(P, C, et), vec=vec, dim=d, ele_type=et,
              cauchy_bc_info=[cs, [(lambda u, k=k: f.cauchy(np, u, k)) for k in range(len(cs))]] if cs else None,
              neumann_bc_info=[nsd, [(lambda x, *v, k=k: f.neumann(np, x, k, *v)) for k in range(len(nsd))]] if nsd else None,
              source_info=lambda x: f.source(np, x))
    ref = weak.Ref(et, P, C, vec, f, fem, cs, nsd)
    nq = ref.JxW.shape[1]
    iv, kw = {}, {}
    if 'lv' in o:
        lv = [rng.uniform(.2, 1., (len(C), nq, 1, 1)), rng.normal(size=(len(C), nq, vec, d))]
        iv['laplace'] = [np.array(x) for x in lv]
        kw['lv'] = lv
    if 'mv' in o and f.has_mass:
        mv = [rng.normal(size=(len(C), nq, vec)) for _ in range(1 + case['seed'][-1] % 2)]
        iv['mass'] = [np.array(x) for x in mv]
        kw['mv'] = mv
    if 'nv' in o and nsd:
        nv = [[rng.normal(size=ref.neu[k][1].shape[:2] + (vec,)) for _ in range(1 + (k + case['seed'][-1]) % 2)] for k in range(len(nsd))]
        iv['neumann'] = [[np.array(x) for x in s] for s in nv]
        kw['nv'] = nv
    if 'body' in o:
        bs = rng.normal(size=(len(P), vec))
        iv['body'] = np.array(bs)
        kw['body'] = (bs, body_np)
    fem.internal_vars = iv
    u = rng.normal(size=(len(P), vec)) * .7
    want = ref.residual(u, **kw)
    sc = max(1., onp.abs(want).max())
    mon.where = f'{et} {len(C)} cells {sorted(o)}'
    mon.close('residual', fem.compute_residual(np.array(u)), want, 1e-8, sc)
    mon.close('newton-residual', fem.newton_update(np.array(u)), want, 1e-8, sc)
    nd = len(P) * vec
    Amat = scipy.sparse.coo_matrix((onp.array(fem.V), (onp.array(fem.I), onp.array(fem.J))), shape=(nd, nd)).tocsr()
    for t in range(2):
        du = rng.normal(size=u.shape)
        jv = ref.jvp(u, du, **kw)
        mon.close('tangent', (Amat @ du.reshape(-1)).reshape(u.shape), jv, 2e-6, max(1., onp.abs(jv).max()))
    # a second evaluation of the same object at another state sees no memory of the first
    u2 = rng.normal(size=u.shape) * .5
    want2 = ref.residual(u2, **kw)
    mon.close('residual-again', fem.compute_residual(np.array(u2)), want2, 1e-8, max(1., onp.abs(want2).max()))
    mon.sig(et, vec, len(C), '+'.join(sorted(o)))
    if case['seed'][-1] % 3 == 0:
        # another problem of the same class on another mesh of the same size does not see this one, nor the other way round
        P2 = P * onp.linspace(1.1, 1.4, d)
        D = onp.diag(onp.linspace(1.1, 1.4, d))
        cs2 = [fu.side_fn(D @ A, D @ b, 0, 0), fu.side_fn(D @ A, D @ b, d - 1, 1)][:len(cs)]
        ns2 = [fu.side_fn(D @ A, D @ b, 0, 1), fu.side_fn(D @ A, D @ b, 1, 0)][:len(nsd)]
        fem2 = cls(Mesh(P2, C, et), vec=vec, dim=d, ele_type=et, source_info=lambda x: f.source(np, x),
                   cauchy_bc_info=[cs2, [(lambda u, k=k: f.cauchy(np, u, k + 1)) for k in range(len(cs2))]] if cs2 else None,
                   neumann_bc_info=[ns2, [(lambda x, k=k: f.neumann(np, x, k)) for k in range(len(ns2))]] if ns2 else None)
        f2 = copy.copy(f)
        f2.cauchy = lambda xp, u, k=0: f.cauchy(xp, u, k + 1)
        ref2 = weak.Ref(et, P2, C, vec, f2, fem2, cs2, ns2)
        kw2, iv2 = {}, {}
        if 'lv' in o:
            lv = [rng.uniform(.2, 1., (len(C), nq, 1, 1)), rng.normal(size=(len(C), nq, vec, d))]
            iv2['laplace'], kw2['lv'] = [np.array(x) for x in lv], lv
        if 'mv' in o and f.has_mass:
            mv = [rng.normal(size=(len(C), nq, vec))]
            iv2['mass'], kw2['mv'] = [np.array(x) for x in mv], mv
        if 'body' in o:
            iv2['body'], kw2['body'] = np.array(bs[::-1].copy()), (bs[::-1], body_np)
        fem2.internal_vars = iv2
        want3 = ref2.residual(u, **kw2)
        mon.where += ' interleaved'
        mon.close('residual', fem2.compute_residual(np.array(u)), want3, 1e-8, max(1., onp.abs(want3).max()))
        mon.close('residual', fem.compute_residual(np.array(u)), want, 1e-8, sc)
        mon.close('newton-residual', fem2.newton_update(np.array(u)), want3, 1e-8, max(1., onp.abs(want3).max()))


RUN = dict(form=form, large=large)
