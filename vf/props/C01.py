import numpy as onp
from vf import femutil as fu
from vf.refs import fv

LEVEL = 'exploration'
RULE = ('signature = operator | boundary types | number of components | grid class; counted when the operator\'s output was compared with '
        'the explicit per-cell formula or a conservation/exactness identity')
ASSUMPTIONS = ['prescribed derivatives are along the positive axis direction', 'blending factor 0.125 unless given']
REQUIRED = {'ghost': 20, 'laplace': 20, 'laplace-conservation': 10, 'laplace-exact': 5, 'div': 20, 'div-conservation': 10, 'div-exact': 5,
            'gradient': 20, 'gradient-exact': 5, 'face-vels': 20, 'face-component': 20, 'no-slip': 5, 'defaults': 10, 'units': 20}


def cases(tier, seed):
    return [dict(kind='op', seed=[int(seed), i], cost=2) for i in range(48 if tier == 'quick' else 400)]


def op(case, mon):
    fu.quiet()
    import jax.numpy as np
    from jax_am.cfd import cfd_am as c
    rng = onp.random.default_rng(case['seed'])
    n = [int(k) for k in rng.integers(2, 7, 3)]
    if rng.random() < .2:
        n[int(rng.integers(3))] = 1
    dX = 10.**rng.uniform(-1, 1, 3)
    k = int(rng.choice([1, 3]))
    f = rng.normal(size=n + [k])
    types = [int(t) for t in rng.integers(0, 2, 6)]
    if k == 3 and rng.random() < .5:
        types[5] = 2
    vals = []
    for i in range(6):
        sh = n + [k]
        sh[i // 2] = 1
        vals.append(rng.normal(size=sh) if rng.random() < .6 or types[i] == 2 else float(rng.normal()))
    BC = [types, vals]
    J = lambda b: [b[0], [np.array(v) for v in b[1]]]
    mon.where = f'{n} comps {k} types {types}'
    # ghost values: the face value / the face derivative are the prescribed ones
    G = c.get_GC_values(np.array(f), J(BC), np.array(dX))
    for i in range(6):
        ax, s = i // 2, -1 if i % 2 == 0 else 1
        nb = onp.take(f, [0 if s < 0 else n[ax] - 1], ax)
        g = onp.asarray(G[i])
        v = onp.broadcast_to(vals[i], nb.shape)
        if not mon.check('ghost', g.shape == nb.shape, f'{g.shape}'):
            continue
        val, der = (g + nb) / 2, (g - nb) / dX[ax] * s
        want_val = types[i] == 0
        if types[i] == 2:
            mon.close('ghost', der[..., :2], v[..., :2], 1e-10, 10 + onp.abs(f).max() / dX[ax])
            mon.close('ghost', val[..., 2], v[..., 2], 1e-10, 10)
        else:
            mon.close('ghost', val if want_val else der, v, 1e-10, 10 + onp.abs(f).max() / dX[ax])
    names = {0: 'Dirchlet', 1: 'Neumann', 2: 'Marangoni_Z'}
    G2 = c.get_GC_values(np.array(f), J([[names[t] for t in types], vals]), np.array(dX))
    for a, b in zip(G, G2):
        mon.close('ghost', b, a, 1e-12, 10.)
    V = dX.prod()
    # Laplacian
    mu = float(rng.uniform(.5, 2))
    muf = [rng.uniform(.1, 3, size=[n[0] + (ax == 0), n[1] + (ax == 1), n[2] + (ax == 2), 1]) for ax in range(3)]
    sc = onp.abs(f).max() * V * (1 / dX**2).sum() * 10 + sum(onp.abs(v).max() for v in vals) * V / dX.min() * 10
    for m, mj in ((mu, mu), (muf, [np.array(x) for x in muf])):
        L = onp.asarray(c.laplace(np.array(f), G, mj, np.array(dX), J(BC)))
        mon.close('laplace', L, fv.laplace(f, m, dX, BC), 1e-10, sc)
        ins = onp.asarray(c.laplace(np.array(f), None, mj, np.array(dX)))
        mon.close('defaults', ins, fv.laplace(f, m, dX, fv.ZERO), 1e-10, sc)
        mon.close('laplace-conservation', ins.sum((0, 1, 2)), onp.zeros(k), 1e-9, sc * onp.prod(n))
    # quadratic fields: exact second derivatives with exact boundary derivatives
    A = rng.normal(size=(3, 3))
    A = A + A.T
    b = rng.normal(size=3)
    X = onp.stack(onp.meshgrid(*[(onp.arange(m) + .5) * d for m, d in zip(n, dX)], indexing='ij'), -1)
    q = lambda x: (.5 * onp.einsum('...i,ij,...j', x, A, x) + x @ b + 1.)[..., None]
    gq = lambda x: x @ A + b
    ev, lin = [], []
    for i in range(6):
        ax = i // 2
        x = onp.take(X, [0 if i % 2 == 0 else n[ax] - 1], ax).copy()
        x[..., ax] += (-1 if i % 2 == 0 else 1) * dX[ax] / 2
        ev.append(gq(x)[..., [ax]])
        lin.append((x @ b + 1.)[..., None])
    Q = q(X)
    BQ = [[1] * 6, ev]
    GQ = c.get_GC_values(np.array(Q), J(BQ), np.array(dX))
    s2 = (onp.abs(A).max() * (dX * n).max() + 5) * V / dX.min() * 10
    mon.close('laplace-exact', c.laplace(np.array(Q), GQ, 1., np.array(dX), J(BQ)), onp.full_like(Q, onp.trace(A) * V), 1e-9,
              s2 + onp.abs(Q).max() * V / dX.min()**2)
    # gradient
    one = f[..., :1]
    B1 = [[min(t, 1) for t in types], [onp.asarray(v)[..., :1] if onp.ndim(v) else v for v in vals]]
    gs = 10 * (onp.abs(f).max() + 5) / dX.min() + 50
    mon.close('gradient', c.gradient(np.array(one), np.array(dX), J(B1)), fv.gradient(one, dX, B1), 1e-10, gs)
    mon.close('defaults', c.gradient(np.array(one), np.array(dX)), fv.gradient(one, dX), 1e-10, gs)
    Ln = (X @ b + 1.)[..., None]
    for BL in ([[1] * 6, [float(b[i // 2]) for i in range(6)]], [[0] * 6, lin], [[i % 2 for i in range(6)], [lin[i] if i % 2 == 0 else float(b[i // 2]) for i in range(6)]]):
        mon.close('gradient-exact', c.gradient(np.array(Ln), np.array(dX), J(BL)), onp.broadcast_to(b, n + [3]), 1e-9, 5 + onp.abs(Ln).max() / dX.min())
    # face velocities
    vel = rng.normal(size=n + [3])
    tv = [int(t) for t in rng.integers(0, 2, 6)]
    if rng.random() < .5:
        tv[5] = 2
    vv = []
    for i in range(6):
        sh = n + [3]
        sh[i // 2] = 1
        vv.append(rng.normal(size=sh) if i % 2 or tv[i] == 2 else rng.normal(size=3))
    VB = [tv, vv]
    fw = fv.face_vels(vel, dX, VB)
    vs = 20 + 20 * dX.max()
    got = c.get_face_vels(np.array(vel), np.array(dX), J(VB))
    for a, w in zip(got, fw):
        mon.close('face-vels', a, w, 1e-11, vs)
    for a, w in zip(c.get_face_vels(np.array(vel), np.array(dX)), fv.face_vels(vel, dX, fv.ZERO)):
        mon.close('defaults', a, w, 1e-11, vs)
    for ax in range(3):
        w = fv.face_mean(one, ax, B1, dX)
        mon.close('face-component', c.get_face_vel_component(np.array(one), np.array(dX), ax, J(B1)), w, 1e-11, vs)
        mon.close('face-component', c.get_face_vel_component(np.array(one), np.array(dX), ax), fv.face_mean(one, ax, fv.ZERO, dX), 1e-11, vs)
    ns = c.get_face_vels(np.array(vel), np.array(dX), [[0] * 6, [np.zeros(3)] * 6])
    for ax, a in enumerate(ns):
        a = onp.asarray(a)
        mon.close('no-slip', onp.take(a, [0, n[ax]], ax), onp.take(a, [0, n[ax]], ax) * 0, 1e-12, 1.)
    # convection
    vf = [rng.normal(size=[n[0] + (ax == 0), n[1] + (ax == 1), n[2] + (ax == 2), 1]) for ax in range(3)]
    for v in vf:
        v[rng.random(v.shape) < .15] = 0.
    vj = [np.array(v) for v in vf]
    ds = 30 * (onp.abs(f).max() + 5 * dX.max() + 5) / dX.min()
    th = float(rng.choice([0., .125, .5, 1.]))
    mon.close('div', c.div(np.array(f), vj, np.array(dX), th, J(BC)), fv.div(f, vf, dX, th, BC), 1e-10, ds)
    D = onp.asarray(c.div(np.array(f), vj, np.array(dX)))
    mon.close('defaults', D, fv.div(f, vf, dX), 1e-10, ds)
    closed = [v.copy() for v in vf]
    for ax in range(3):
        s = [slice(None)] * 4
        for e in (0, -1):
            s[ax] = e
            closed[ax][tuple(s)] = 0.
    D = onp.asarray(c.div(np.array(f), [np.array(v) for v in closed], np.array(dX), th, J(BC)))
    mon.close('div-conservation', D.sum((0, 1, 2)), onp.zeros(k), 1e-9, ds * onp.prod(n))
    cst = onp.full(n + [1], 2.5)
    U0 = rng.normal(size=3)
    uni = [onp.full_like(v, u) for v, u in zip(vf, U0)]
    mon.close('div-exact', c.div(np.array(cst), [np.array(v) for v in uni], np.array(dX)), 0 * cst, 1e-9, ds)
    # linear fields carried by uniform flow: exact away from the walls
    E = onp.asarray(c.div(np.array(Ln), [np.array(v) for v in uni], np.array(dX), th, [[0] * 6, [np.array(v) for v in lin]]))
    # other units: every operator is linear in the field and its boundary values
    for z in (1e7, 1e-9):
        sBC = [types, [onp.asarray(v) * z for v in vals]]
        sB1 = [B1[0], [onp.asarray(v) * z for v in B1[1]]]
        zf, zG = np.array(f * z), c.get_GC_values(np.array(f * z), J(sBC), np.array(dX))
        for a, w in zip(zG, G):
            mon.close('units', onp.asarray(a) / z, w, 1e-10, 10 + onp.abs(f).max() + 10 * dX.max())
        mon.close('units', onp.asarray(c.laplace(zf, zG, mu, np.array(dX), J(sBC))) / z, c.laplace(np.array(f), G, mu, np.array(dX), J(BC)), 1e-10, sc)
        mon.close('units', onp.asarray(c.gradient(zf[..., :1], np.array(dX), J(sB1))) / z, c.gradient(np.array(one), np.array(dX), J(B1)), 1e-10, gs)
        mon.close('units', onp.asarray(c.div(zf, vj, np.array(dX), th, J(sBC))) / z, c.div(np.array(f), vj, np.array(dX), th, J(BC)), 1e-10, ds)
    core = E[2:-2, 2:-2, 2:-2]
    mon.close('div-exact', core, onp.full_like(core, b @ U0), 1e-9, 5 + 20 * onp.abs(Ln).max() / dX.min())
    mon.sig('op', tuple(types), k, 1 in n, th)


RUN = dict(op=op)
