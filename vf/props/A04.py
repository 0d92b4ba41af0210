"""Phase-field fracture demonstration: spectral split, history field, irreversibility, reaction force."""
import os
import numpy as onp
from vf import femutil as fu, script
from vf.refs import fe

LEVEL = 'exploration'
RULE = ('signature = loading direction (loading, unloading, compression) | damage growing or not; counted per load step of the real script whose displacement, '
        'damage, history and files were compared with the reference')
ASSUMPTIONS = ['constants and equations of the demonstration\'s README (Miehe\'s split, residual stiffness 1e-3)',
               'the script runs unmodified on a coarser mesh and load programme (both are given to it through the library functions it calls)']
REQUIRED = {'eigen-value': 20, 'eigen-derivative': 20, 'equilibrium': 10, 'damage-equation': 10, 'history': 15, 'irreversible': 15, 'prescribed': 10, 'force': 8,
            'files': 10}
GC, E, NU, L0 = 2.7e-3, 210., .3, .02
MU, LM = E / 2 / (1 + NU), E * NU / (1 + NU) / (1 - 2 * NU)


def cases(tier, seed):
    out = [dict(kind='run', n=n, cut=c, seed=[int(seed), i], cost=60, hang=840) for i, (n, c) in
           enumerate([(4, 0)] if tier == 'quick' else [(4, 0), (6, 20), (5, 15), (8, 0)])]
    for i in range(24 if tier == 'quick' else 200):
        out.append(dict(kind='eigen', seed=[int(seed), 100 + i], cost=2))
    return out


def split(eps):
    """psi_plus and the two parts of the stress, for eps (..., 3, 3)."""
    w, v = onp.linalg.eigh(eps)
    tr = onp.trace(eps, axis1=-2, axis2=-1)
    I = onp.eye(3)
    part = lambda s: onp.einsum('...ik,...k,...jk->...ij', v, s(w), v)
    up, dn = lambda x: onp.maximum(x, 0.), lambda x: onp.minimum(x, 0.)
    psi = LM / 2 * up(tr)**2 + MU * (up(w)**2).sum(-1)
    return psi, LM * up(tr)[..., None, None] * I + 2 * MU * part(up), LM * dn(tr)[..., None, None] * I + 2 * MU * part(dn)


def stress(g, d):
    p, sp, sm = split(.5 * (g + onp.swapaxes(g, -1, -2)))
    return ((1 - d)**2 + 1e-3)[..., None, None] * sp + sm


def eigen(case, mon):
    """Isotropic tensor functions and their derivative, also at repeated eigenvalues."""
    jax, np, FEM, Mesh = fu.mods()
    from demos.fem.phase_field_fracture.eigen import get_eigen_f_custom, get_eigen_f_jax
    rng = onp.random.default_rng(case['seed'])
    n = int(rng.integers(2, 6))
    mode = ['distinct', 'pair', 'zero', 'isotropic', 'diagonal'][int(rng.integers(5))]
    a, b = rng.normal(size=2)
    fns = [(lambda x: x, lambda x: 1. + 0 * x), (lambda x: x**2, lambda x: 2 * x), (lambda x: a * x + b * x**3, lambda x: a + 3 * b * x**2),
           (lambda x: 1.5 * (x + abs(x)) + .5 * (x - abs(x)), None)]
    k = int(rng.integers(4))
    f, df = fns[k]
    if df is None:
        df = lambda x: onp.where(x > 0, 3., onp.where(x < 0, 1., 2.))
    ev = rng.normal(size=n)
    Q = onp.eye(n)
    if mode == 'distinct':
        Q = onp.linalg.qr(rng.normal(size=(n, n)))[0]
        ev = onp.sort(ev) + .3 * onp.arange(n)
    elif mode == 'pair':
        ev[:2] = ev[0]
    elif mode == 'zero':
        ev[:] = 0.
    elif mode == 'isotropic':
        ev[:] = ev[0]
    x = (Q * ev) @ Q.T
    x = .5 * (x + x.T)
    mon.where = f'{mode} n {n} function {k}'
    w, V = onp.linalg.eigh(x)
    want = (V * f(w)) @ V.T
    F = get_eigen_f_custom(f)
    mon.close('eigen-value', F(np.array(x)), want, 1e-9, 1. + onp.abs(want).max())
    mon.close('eigen-value', get_eigen_f_jax(f)(np.array(x)), want, 1e-9, 1. + onp.abs(want).max())
    dw = w[:, None] - w[None]
    same = onp.abs(dw) < 1e-9
    if (same & (dw != 0)).any() or k == 3 and (onp.abs(w) < 1e-9).any():
        return          # equal only up to round-off, or at the kink: the derivative is not defined
    th = onp.where(same, df(w)[:, None], (f(w)[:, None] - f(w)[None]) / onp.where(same, 1., dw))
    for _ in range(2):
        v = rng.normal(size=(n, n))
        v = v + v.T
        D = V @ (th * (V.T @ v @ V)) @ V.T
        got = jax.jvp(F, (np.array(x),), (np.array(v),))[1]
        mon.close('eigen-derivative', got, D, 1e-7, 1. + onp.abs(D).max())
    mon.sig('eigen', mode, n, k)


def run(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    import meshio
    rng = onp.random.default_rng(case['seed'])
    st = dict(k=0, H=None, d=None, u=None, force=[0.], disp=[0.])

    def setup(pu):
        P, C = onp.asarray(pu.points), onp.asarray(pu.cells)
        xq = onp.asarray(pu.get_physical_quad_points())
        st['w'] = onp.asarray(pu.JxW)
        geo = [fe.geom('HEX8', P[c], fe.inverse_map('HEX8', P[c], x)) for c, x in zip(C, xq)]
        st['G'], st['N'] = onp.array([a[2] for a in geo]), onp.array([a[3] for a in geo])
        st['P'], st['C'] = P, C
        st['H'] = onp.zeros(st['w'].shape)
        st['d'] = ((onp.abs(P[:, 1] - .5) < .01) & (P[:, 0] > .5)).astype(float)
        lo, hi = onp.abs(P[:, 1]) < 1e-6, onp.abs(P[:, 1] - 1) < 1e-6
        st['lo'], st['hi'] = lo, hi
        st['faces'] = [(c, f, fe.face_integrals('HEX8', P[C[c]], f, 2)) for c in range(len(C)) for f, (vs, _) in enumerate(fe.faces('HEX8'))
                       if hi[C[c][sorted(vs)]].all()]
        # the material law at random strains
        psi_fn, sig_fn = pu.get_maps() if hasattr(pu, 'get_maps') else (None, None)
        for _ in range(12 if psi_fn else 0):
            gr = rng.normal(size=(3, 3)) * 10.**rng.uniform(-4, -1)
            d = rng.uniform(0, 1, 1)
            want = stress(gr, d[0] + onp.zeros(()))
            psi, sp, sm = split(.5 * (gr + gr.T))
            mon.close('law', psi_fn(np.array(gr)), psi, 1e-9, psi + 1e-12)
            mon.close('law', sig_fn(np.array(gr), np.array(d)), want, 1e-6, onp.abs(sp).max() + onp.abs(sm).max() + 10.)
            dg = rng.normal(size=(3, 3))
            h = 1e-4 * onp.abs(gr).max()
            fd = (split(.5 * (gr + gr.T) + h * .5 * (dg + dg.T))[0] - split(.5 * (gr + gr.T) - h * .5 * (dg + dg.T))[0]) / (2 * h)
            got = float((onp.asarray(sig_fn(np.array(gr), np.array([0.]))) * dg).sum() - (sm * dg).sum()) / 1.001
            mon.close('energy-derivative', got, fd, 2e-3, onp.abs(sp).max() * onp.abs(dg).sum() + 1e-2)

    def observe(pr, sol, g):
        if st['H'] is None:
            setup(pr)
        P, C, G, N, w = (st[k] for k in 'PCGNw')
        x = onp.asarray(sol)
        if pr.vec == 3:
            st['k'] += 1
            k = st['k']
            st['u'] = x
            disp = float(x[st['hi'], 1].mean())
            st['disp'].append(disp)
            mon.where = f"step {k} disp {disp:.5f} mesh {case['n']}"
            bc = onp.zeros((len(P), 3))
            bc[st['hi'], 1] = disp
            on = st['lo'] | st['hi']
            mon.close('prescribed', x[on], bc[on], 1e-7, 1e-2)
            gr = onp.einsum('cni,cqnj->cqij', x[C], G)
            dq = onp.einsum('cn,cqn->cq', st['d'][C], N)
            S = stress(gr, dq)
            R = onp.zeros_like(P)
            onp.add.at(R, C, onp.einsum('cqij,cqnj,cq->cni', S, G, w))
            mon.close('equilibrium', R[~on], onp.zeros(R[~on].shape), 5e-6, 1.)
            st['psi'] = split(.5 * (gr + onp.swapaxes(gr, -1, -2)))[0]
        else:
            # damage equation with the largest tensile energy of the earlier steps
            d = x[:, 0]
            dq = onp.einsum('cn,cqn->cq', d[C], N)
            gd = onp.einsum('cn,cqnj->cqj', d[C], G)
            R = onp.zeros(len(P))
            onp.add.at(R, C, onp.einsum('cq,cqn,cq->cn', GC / L0 * dq - 2 * (1 - dq) * st['H'], N, w) + GC * L0 * onp.einsum('cqj,cqnj,cq->cn', gd, G, w))
            mon.close('damage-equation', R, onp.zeros_like(R), 5e-6, 1.)
            mon.close('history', onp.asarray(pr.internal_vars['mass'][0]), st['H'], 1e-6, st['H'].max() + 1e-6)
            st['dnew'] = onp.maximum(d, st['d'])
            st['Hnew'] = onp.maximum(st['H'], st['psi'])

    def saved(path, g):
        m = meshio.read(path)
        name = os.path.basename(path)
        if st['k'] == 0:
            mon.check('files', name == 'u_00000.vtu', name)
            return
        P, C = st['P'], st['C']
        old = st['d']
        dsave = m.point_data['sol'].reshape(-1)
        mon.check('files', name == f"u_{st['k']:05d}.vtu", f"{name} at step {st['k']}")
        mon.close('files', dsave, st['dnew'], 1e-6, 1., detail='damage in the file')
        mon.close('files', m.point_data['u'], st['u'], 1e-6, 1e-2, detail='displacement in the file')
        mon.close('history', m.cell_data['history'][0].reshape(-1), st['Hnew'].mean(1), 1e-5, st['Hnew'].max() + 1e-6)
        mon.le('irreversible', float((old - dsave).max()), 0., 1e-6, 'damage healed')
        mon.le('irreversible', float(dsave.max()), 1., 1e-4, 'damage above one')
        mon.le('irreversible', float(-dsave.min()), 0., 1e-4, 'negative damage')
        F = onp.zeros(3)
        for c, f, (xf, wa, nv, Nf, Gf) in st['faces']:
            gr = onp.einsum('ni,qnj->qij', st['u'][C[c]], Gf)
            F += onp.einsum('qij,qj,q->i', stress(gr, Nf @ st['dnew'][C[c]]), nv, wa)
        st['force'].append(F[1] / .02)
        dsp = st['disp']
        k = st['k']
        mon.sig('step', 'load' if dsp[k] > dsp[k - 1] else 'unload', dsp[k] < 0, bool((st['dnew'] - old).max() > 1e-6))
        st['d'], st['H'] = st['dnew'], st['Hnew']

    nx = case['n']
    g = script.execute(case, mon, 'demos/fem/phase_field_fracture/example.py', observe, saved, mesh=lambda a, b, c: (nx, nx, 1), linspace=lambda n: n // case['cut'] if case['cut'] and n // case['cut'] > 3 else 3)
    if st['H'] is None:
        return
    r = onp.load(os.path.join(case['_scratch'], 'script/data/numpy/results.npy'))
    mon.check('force', r.shape == (2, st['k'] + 1), f"results for {r.shape} after {st['k']} solved steps")
    mon.close('prescribed', st['disp'], r[0], 1e-6, 1e-2, detail='displacement of the top surface against the reported load programme')
    mon.check('prescribed', max(st['disp']) > .0099 and min(st['disp']) < -.0039, f"programme from {min(st['disp'])} to {max(st['disp'])}")
    want = onp.array(st['force'])
    for k in range(len(want)):
        mon.close('force', r[1][k], want[k], 2e-4, onp.abs(want).max(), detail=f'force on the top surface, step {k}')


RUN = dict(run=run, eigen=eigen)
