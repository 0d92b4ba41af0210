import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = quantity | element type | field class | surface; counted when a post-processing result was compared with '
        'an independent integral')
ASSUMPTIONS = ['traction resultants are taken on surfaces with normal +z (the documented limitation of compute_traction)',
               'error norms are evaluated at the code\'s quadrature points (F01 decides the rule) with our own interpolation']
REQUIRED = {'surface-area': 8, 'surface-integral': 8, 'traction': 6, 'l2-error': 8, 'h1-error': 8, 'h1-definition': 4,
            'quad-values': 8, 'quad-gradients': 8}


def cases(tier, seed):
    out = []
    reps = 1 if tier == 'quick' else 6
    for r in range(reps):
        for i, et in enumerate(fe.TYPES):
            out.append(dict(kind='norms', et=et, vec=1 + (i + r + seed) % 3, seed=[int(seed), r, i], cost=4))
            if fe.DIM[et] == 3:
                out.append(dict(kind='surface', et=et, model='elastic' if (i + seed) % 3 else 'hyper', seed=[int(seed), r, 20 + i], cost=5))
            else:
                out.append(dict(kind='surface', et=et, model='elastic', seed=[int(seed), r, 20 + i], cost=5))
    return out


def norms(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.models import LinearPoisson
    rng = onp.random.default_rng(case['seed'])
    et, d, vec = case['et'], fe.DIM[case['et']], case['vec']
    P, C, U, A, b = fe.make_mesh(et, (2, 2, 1)[:d], rng, jitter=.2, lengths=rng.uniform(.8, 1.4, d))
    pr = LinearPoisson(Mesh(P, C, et), vec=vec, dim=d, ele_type=et)
    w = onp.asarray(pr.JxW)
    xq = onp.asarray(pr.get_physical_quad_points())
    mon.where = f'{et} vec {vec}'
    V = fe.integrate_cells(et, P, C, lambda x: onp.ones((len(x), 1)))[0]
    for k in range(3):
        sol = rng.normal(size=(len(P), vec)) * 10.**rng.integers(-3, 3)
        c0, c1 = rng.normal(size=vec), rng.normal(size=(vec, d))
        amp = 0. if k == 0 else 1.
        true = lambda x: np.array(c0) + np.array(c1) @ x + amp * np.sin(x[0]) * np.array(c0)
        tv = c0 + xq @ c1.T + amp * onp.sin(xq[..., :1]) * c0
        tg = onp.broadcast_to(c1, xq.shape[:2] + c1.shape).copy()
        tg[..., :, 0] += amp * onp.cos(xq[..., :1]) * c0
        uq, gq = [], []
        for c in range(len(C)):
            xi = fe.inverse_map(et, P[C[c]], xq[c])
            _, _, G, N = fe.geom(et, P[C[c]], xi)
            uq.append(N @ sol[C[c]])
            gq.append(onp.einsum('nv,qnd->qvd', sol[C[c]], G))
        uq, gq = onp.array(uq), onp.array(gq)
        js = np.array(sol)
        mon.close('quad-values', pr.convert_from_dof_to_quad(js), uq, 1e-9)
        mon.close('quad-gradients', pr.sol_to_grad(js), gq, 1e-8)
        l2 = onp.sqrt((((uq - tv)**2).sum(-1) * w).sum())
        g2 = onp.sqrt((((gq - tg)**2).sum((-1, -2)) * w).sum())
        mon.close('l2-error', float(pr.compute_l2_norm_error(js, true)), l2, 1e-8)
        mon.close('h1-error', float(pr.compute_h1_norm_error(js, true)), l2 + g2, 1e-8)
        mon.sig('norms', et, vec, k)
    # constant offset from an exactly represented field: closed form
    off = rng.normal(size=vec)
    s = c0 + P @ c1.T + off
    tr = lambda x: np.array(c0) + np.array(c1) @ x
    want = onp.linalg.norm(off) * onp.sqrt(V)
    mon.close('l2-error', float(pr.compute_l2_norm_error(np.array(s), tr)), want, 1e-8)
    mon.close('h1-definition', float(pr.compute_h1_norm_error(np.array(s), tr)), want, 1e-6)
    dg = rng.normal(size=(vec, d))
    s2 = s - off + P @ dg.T
    tr2 = lambda x: np.array(c0) + np.array(c1) @ x
    l2 = float(pr.compute_l2_norm_error(np.array(s2), tr2))
    mon.close('h1-definition', float(pr.compute_h1_norm_error(np.array(s2), tr2)) - l2, onp.linalg.norm(dg) * onp.sqrt(V), 1e-8)


def face_grads(pr, et, P, C, loc, u):
    bi = onp.asarray(pr.get_boundary_conditions_inds([loc])[0])
    xf = onp.asarray(pr.get_physical_surface_quad_points(bi))
    sc = onp.asarray(pr.get_face_shape_grads(bi)[1])
    g = []
    for k in range(len(bi)):
        X = P[C[bi[k, 0]]]
        g.append(onp.einsum('nv,qnd->qvd', u[C[bi[k, 0]]], fe.geom(et, X, fe.inverse_map(et, X, xf[k]))[2]))
    return onp.array(g), sc


def surface(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem import models
    from vf.props.F05 import side_faces
    from vf.props.F08 import hooke_ref, pk_ref
    rng = onp.random.default_rng(case['seed'])
    et, d = case['et'], fe.DIM[case['et']]
    # keep the top and bottom horizontal so that +z is the outward normal of the top surface
    L = rng.uniform(.8, 1.5, d)
    P, C, U, A, b = fe.make_mesh(et, (2, 2, 1)[:d], rng, jitter=.2, affine=False, lengths=L)
    cls = models.LinearElasticity if case['model'] == 'elastic' else models.HyperElasticity
    pr = cls(Mesh(P, C, et), vec=d, dim=d, ele_type=et)
    law = hooke_ref if case['model'] == 'elastic' else (lambda g: pk_ref(g + onp.eye(3)))
    amp = 1e-2 if case['model'] == 'elastic' else .05
    sides = [(a, s) for a in range(d) for s in (0, 1)]
    mon.where = f"{et} {case['model']}"
    for k, (a, s) in enumerate(sides):
        loc = fu.side_fn(A, b, a, s)
        area = onp.prod([L[i] for i in range(d) if i != a])
        u = rng.normal(size=P.shape) * amp
        js = np.array(u)
        got = onp.asarray(pr.compute_surface_area(loc, js))
        mon.close('surface-area', got, onp.full(d, area), 1e-8)
        # arbitrary integrand of the displacement gradient; exact on fields with constant gradient
        G = rng.normal(size=(d, d)) * amp
        ua = P @ G.T
        B = rng.normal(size=(d, d))
        fn = lambda g: (g @ np.array(B))[..., 0] + np.sum(g * g, axis=(-1, -2))[..., None]
        want = ((G @ B)[:, 0] + (G * G).sum()) * area
        mon.close('surface-integral', pr.surface_integral(loc, fn, np.array(ua)), want, 1e-8)
        # linear integrand of an arbitrary field: own face quadrature
        w2 = onp.zeros(d)
        for c, f in side_faces(et, C, U, a, s):
            x, wa, nv, N, Gf = fe.face_integrals(et, P[C[c]], f, 6)
            g = onp.einsum('nv,qnd->qvd', u[C[c]], Gf)
            w2 = w2 + onp.einsum('qvd,d,q->v', g, B[:, 0], wa)
        # any field on any faces: sum of the integrand over the code's own face quadrature (F01 decides the rule)
        g, sc = face_grads(pr, et, P, C, loc, u)
        if case['model'] == 'hyper':        # stay away from inverted cells
            k = min(1., .2 / onp.abs(g).max())
            u, g, w2 = u * k, g * k, w2 * k
            js = np.array(u)
        w3 = onp.einsum('fqvd,d,fq->v', g, B[:, 0], sc) + onp.einsum('fqvd,fqvd,fq->', g, g, sc)
        mon.close('surface-integral', pr.surface_integral(loc, fn, js), w3, 1e-8, onp.abs(w3).max() + onp.abs(u).max() * area, detail='varying')
        if d == 3 and a == 2:
            t3 = onp.array([[law(h)[:, 2] for h in q] for q in g])
            mon.close('traction', pr.compute_traction(loc, js), onp.einsum('fqv,fq->v', t3, sc), 1e-8, onp.abs(t3).max() * area, detail='varying')
        if et in ('TET4', 'TRI3', 'QUAD4', 'HEX8') or et in ('TET10', 'TRI6'):
            # constant normal/metric on flat faces: polynomial integrand
            got = pr.surface_integral(loc, lambda g: (g @ np.array(B))[..., 0], js)
            rat = 1e-7 if et in ('TET4', 'TRI3', 'TET10', 'TRI6') else None
            if rat:
                mon.close('surface-integral', got, w2, rat, max(onp.abs(u).max() * area, 1e-9) * 10)
        mon.sig('surface', et, a, s)
        if d == 3 and a == 2:
            mon.close('traction', pr.compute_traction(loc, np.array(ua)), law(G)[:, 2] * area, 1e-8, onp.abs(law(G)).max() * area)
            mon.sig('traction', et, case['model'], s)
    # a surface made of several sides
    loc = lambda p: fu.side_fn(A, b, 0, 0)(p)
    l2 = lambda p: np.logical_or(fu.side_fn(A, b, 0, 0)(p), fu.side_fn(A, b, 0, 1)(p))
    ar = onp.prod([L[i] for i in range(1, d)])
    mon.close('surface-area', pr.compute_surface_area(l2, np.array(u)), onp.full(d, 2 * ar), 1e-8)
    # translation changes nothing, scaling of the field scales the traction of a linear material
    if case['model'] == 'elastic' and d == 3:
        top = fu.side_fn(A, b, 2, 1)
        t1 = onp.asarray(pr.compute_traction(top, np.array(u)))
        t2 = onp.asarray(pr.compute_traction(top, np.array(-3 * u + 1.)))
        mon.close('traction', t2, -3 * t1, 1e-7, onp.abs(t1).max() * 3 + 1e-9)


RUN = dict(norms=norms, surface=surface)
