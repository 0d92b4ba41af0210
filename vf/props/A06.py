"""The finite element demonstrations, run as they are (some on coarser meshes): every solve, file and printed result observed."""
import contextlib
import io
import os
import re
import numpy as onp
from vf import femutil as fu, script
from vf.refs import fe

LEVEL = 'exploration'
RULE = ('signature = demonstration | mesh | load step class; counted per solve of the real script whose field was tested against the '
        'reference assembly')
ASSUMPTIONS = ['material laws, loads and supports as described by the demonstrations\' README files', 'volume quadrature as reported by the code (F01)',
               'a single PETSc linear solve is judged with its rtol 1e-5 (1e-3 of the largest load), Newton solves with 1e-6']
REQUIRED = {'equilibrium': 40, 'supports': 40, 'file': 20, 'uniaxial': 10, 'derivative': 1, 'compliance': 1, 'volume': 3, 'beam': 1}


def cases(tier, seed):
    rng = onp.random.default_rng([6, int(seed)])
    r = lambda a, b: int(rng.integers(a, b))
    out = []
    for k in range(1 if tier == 'quick' else 5):
        mk = lambda i, demo, n, cost, **kw: out.append(dict(kind=demo, n=n, seed=[int(seed), k, i], cost=cost, hang=840, **kw))
        mk(0, 'poisson', None if k == 0 else (r(6, 30), r(6, 30)), 10)
        mk(1, 'beam', (r(6, 9), 2, 2), 30)
        mk(2, 'hyper', (r(3, 6), r(2, 5), r(2, 5)), 20)
        mk(3, 'plastic', None if k == 0 else (r(2, 5),) * 3, 60)
        mk(4, 'inverse', (r(2, 4), r(2, 4), r(2, 4)), 30)
        mk(5, 'topopt', (2 * r(6, 10), 10), 60, stop=14 if tier == 'quick' else 200)
        if tier != 'quick' and k == 0:
            for i, d in enumerate(('beam', 'hyper', 'inverse')):
                mk(10 + i, d, None, 120)
    return out


class Body:
    """Own assembly on the problem's mesh."""

    def __init__(self, pr, et):
        self.et = et
        P, C = onp.asarray(pr.points), onp.asarray(pr.cells)
        self.P, self.C, self.d = P[:, :fe.DIM[et]], C, fe.DIM[et]
        P = self.P
        xq = onp.asarray(pr.get_physical_quad_points())
        geo = [fe.geom(et, P[c], fe.inverse_map(et, P[c], x)) for c, x in zip(C, xq)]
        self.w, self.xq = onp.asarray(pr.JxW), xq
        self.G, self.N = onp.array([a[2] for a in geo]), onp.array([a[3] for a in geo])

    def on(self, ax, v):
        return onp.abs(self.P[:, ax] - v) < 1e-6

    def grads(self, u):
        return onp.einsum('cni,cqnj->cqij', u[self.C], self.G)

    def internal(self, S):
        R = onp.zeros((len(self.P), S.shape[-2]))
        onp.add.at(R, self.C, onp.einsum('cqij,cqnj,cq->cni', S, self.G, self.w))
        return R

    def volume_load(self, f):
        R = onp.zeros((len(self.P), f.shape[-1]))
        onp.add.at(R, self.C, onp.einsum('cqi,cqn,cq->cni', f, self.N, self.w))
        return R

    def surface_load(self, sel, t, n=2):
        """sel: nodes of the surface; t(x) -> traction."""
        R, area = None, 0.
        for c in self.C:
            for f, (vs, _) in enumerate(fe.faces(self.et)):
                if sel[c[sorted(vs)]].all():
                    x, wa, _, N, _ = fe.face_integrals(self.et, self.P[c], f, n)
                    v = onp.einsum('qi,qn,q->ni', t(x), N, wa)
                    R = onp.zeros((len(self.P), v.shape[1])) if R is None else R
                    onp.add.at(R, c, v)
                    area += wa.sum()
        return R, area


def hooke(e, E, nu=.3):
    mu, lm = E / 2 / (1 + nu), E * nu / (1 + nu) / (1 - 2 * nu)
    return lm * onp.trace(e, axis1=-2, axis2=-1)[..., None, None] * onp.eye(3) + 2 * mu * e


def sym(g):
    return .5 * (g + onp.swapaxes(g, -1, -2))


def neo(g, E, nu=.3):
    """First Piola-Kirchhoff stress of the compressible neo-Hookean energy."""
    mu, ka = E / 2 / (1 + nu), E / 3 / (1 - 2 * nu)
    F = g + onp.eye(3)
    J = onp.linalg.det(F)[..., None, None]
    I1 = (F * F).sum((-1, -2))[..., None, None]
    Fit = onp.swapaxes(onp.linalg.inv(F), -1, -2)
    return mu * J**(-2 / 3) * (F - I1 / 3 * Fit) + ka * (J - 1) * J * Fit


def launch(case, mon, rel, et, check, singular=False):
    """check(body, u, problem, k) after each solve; returns printed text, number of solves, files [(path, solves so far, last field)]."""
    import meshio
    st = dict(k=0, b=None, u=None, files=[])

    def observe(pr, sol, g):
        if st['b'] is None:
            st['b'] = Body(pr, et)
        import jax
        try:
            u = onp.asarray(sol)
        except jax.errors.TracerArrayConversionError:
            mon.event('traced-solve')
            return
        mon.where = f"{rel} mesh {case['n']} solve {st['k']}"
        if not mon.check('equilibrium', u.shape == (len(st['b'].P), pr.vec) and onp.isfinite(u).all(), f'shape {u.shape} or not finite'):
            raise script.Halt()
        st['u'] = u
        go = check(st['b'], u, pr, st['k'])
        st['k'] += 1
        if go is False:
            raise script.Halt()

    def saved(path, g):
        m = meshio.read(path)
        u = st['u']
        s = onp.asarray(m.point_data['sol']).reshape(len(m.points), -1)
        mon.close('file', s[:, :u.shape[1]], u, 1e-6, onp.abs(u).max() + 1e-12, detail=os.path.basename(path))
        mon.close('file', m.points[:, :st['b'].d], st['b'].P, 1e-9, onp.abs(st['b'].P).max())
        st['files'].append((os.path.basename(path), m))

    text = io.StringIO()
    mesh = (lambda *n: case['n']) if case['n'] else None
    with contextlib.redirect_stdout(text):
        g = script.execute(case, mon, f'demos/fem/{rel}/example.py', observe, saved, mesh, singular=singular)
    st['broke'] = g.get('_broke', False)
    mon.check('file', st['k'] > 0 and len(st['files']) > 0, f"{st['k']} solves, {len(st['files'])} files")
    return text.getvalue(), st


def balance(mon, R, fixed, tol, scale, tag=''):
    free = onp.where(fixed, 0., R)
    return mon.close('equilibrium', free, onp.zeros_like(free), tol, scale, detail=tag)


def poisson(case, mon):
    ref = {}

    def check(b, u, pr, k):
        left, right = b.on(0, 0.), b.on(0, 1.)
        fix = (left | right)[:, None]
        t = lambda x: onp.sin(5. * x[:, :1])
        F = b.surface_load(b.on(1, 0.), t)[0] + b.surface_load(b.on(1, 1.), t)[0]
        F += b.volume_load(10 * onp.exp(-((b.xq - .5)**2).sum(-1, keepdims=True) / .02))
        R = b.internal(b.grads(u)) - F
        mon.close('supports', u[fix[:, 0]], onp.zeros((fix.sum(), 1)), 1e-4, onp.abs(u).max())
        balance(mon, R, fix, 1e-3, onp.abs(F).max())
        mon.sig('poisson', len(b.C))
        # direct solution of the reference system
        import scipy.sparse as sp
        import scipy.sparse.linalg as sl
        ke = onp.einsum('cqni,cqmi,cq->cnm', b.G, b.G, b.w)
        n = b.C.shape[1]
        K = sp.coo_matrix((ke.reshape(-1), (onp.repeat(b.C, n, 1).reshape(-1), onp.tile(b.C, (1, n)).reshape(-1))), shape=(len(b.P),) * 2).tocsr()
        fr = onp.nonzero(~fix[:, 0])[0]
        want = onp.zeros(len(b.P))
        want[fr] = sl.spsolve(K[fr][:, fr].tocsc(), F[fr, 0])
        mon.close('equilibrium', u[:, 0], want, 5e-3, onp.abs(want).max(), detail='direct solution')
    _, st = launch(case, mon, 'poisson', 'QUAD4', check)
    mon.check('file', st['k'] == 1 and len(st['files']) == 1, 'one solve, one file')


def beam(case, mon):
    def check(b, u, pr, k):
        fix = onp.repeat(b.on(0, 0.)[:, None], 3, 1)
        F, area = b.surface_load(b.on(0, 10.), lambda x: onp.tile([0., 0., -100.], (len(x), 1)), 3)
        I = b.internal(hooke(sym(b.grads(u)), 70e3))
        mon.close('supports', u[fix], onp.zeros(fix.sum()), 1e-4, onp.abs(u).max())
        balance(mon, I - F, fix, 1e-3, onp.abs(F).max())
        mon.close('equilibrium', I[b.on(0, 0.)].sum(0), [0., 0., 400.], 2e-3, 400., detail='support reaction')
        # slender cantilever: bending plus shear deflection of the free end
        tip = -u[b.on(0, 10.), 2].mean()
        EI, GA = 70e3 * 2 * 2**3 / 12., 70e3 / 2.6 * 4
        mon.close('beam', tip, 400. * 1e3 / 3 / EI + 1.2 * 400. * 10 / GA, .08, detail='end deflection')
        mon.sig('beam', len(b.C))
    launch(case, mon, 'linear_elasticity', 'TET10', check)


def hyper(case, mon):
    def check(b, u, pr, k):
        left, right = b.on(0, 0.), b.on(0, 1.)
        y, z = b.P[left, 1] - .5, b.P[left, 2] - .5
        c, s = .5, onp.sqrt(3.) / 2
        want = onp.stack([0 * y, (c * y - s * z - y) / 2, (s * y + c * z - z) / 2], 1)
        mon.close('supports', u[left], want, 2e-6, 1.)
        mon.close('supports', u[right], onp.zeros((right.sum(), 3)), 2e-6, 1.)
        balance(mon, b.internal(neo(b.grads(u), 10.)), onp.repeat((left | right)[:, None], 3, 1), 3e-6, 1.)
        mon.check('equilibrium', onp.linalg.det(b.grads(u) + onp.eye(3)).min() > 0, 'inverted points')
        mon.sig('hyper', len(b.C))
    launch(case, mon, 'hyperelasticity', 'HEX8', check)


def plastic(case, mon):
    disps = onp.hstack((onp.linspace(0., .1, 11), onp.linspace(.09, 0., 10)))
    st = dict(s=0., e=0., avg=[], u1=0.)

    def check(b, u, pr, k):
        low, up = b.on(2, 0.), b.on(2, 10.)
        d = disps[min(k, len(disps) - 1)]
        mon.close('supports', onp.concatenate([u[low, 2], u[up, 2] - d]), onp.zeros(low.sum() + up.sum()), 2e-6, 1.)
        e = sym(b.grads(u))
        tr = st['s'] + hooke(e - st['e'], 70e3)
        dev = tr - onp.trace(tr, axis1=-2, axis2=-1)[..., None, None] / 3 * onp.eye(3)
        vm = onp.sqrt(1.5 * (dev**2).sum((-1, -2)))[..., None, None]
        S = tr - onp.where(vm > 250., (vm - 250.) / onp.where(vm > 0, vm, 1.), 0.) * dev
        st['s'], st['e'] = S, e
        fix = onp.zeros((len(b.P), 3), bool)
        fix[:, 2] = low | up
        ok = balance(mon, b.internal(S), fix, 3e-6, 1.)
        # uniaxial stress: elastic, perfectly plastic, elastic unloading, reversed yield
        st['u1'] = float(onp.clip(st['u1'] + 70e3 * (d - st.get('d', 0.)) / 10., -250., 250.))
        st['d'] = d
        mean = onp.einsum('cqij,cq->ij', S, b.w) / b.w.sum()
        want = onp.zeros((3, 3))
        want[2, 2] = st['u1']
        mon.close('uniaxial', mean, want, 1e-5, 250.)
        st['avg'].append(mean)
        mon.sig('plastic', 'loading' if k < 11 else 'unloading', 'yield' if abs(st['u1']) == 250. else 'elastic')
        return ok
    text, run = launch(case, mon, 'plasticity', 'HEX8', check, singular=True)
    if run['broke']:
        return
    mon.check('supports', run['k'] == len(disps), f"{run['k']} load steps instead of {len(disps)}")
    mon.check('file', len(run['files']) == len(disps) and [f for f, _ in run['files']] == sorted({f for f, _ in run['files']}), 'one file per load step, in order')
    num = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
    mats = [onp.array([float(x) for x in re.findall(num, m)]).reshape(3, 3) for m in re.findall(r'\[\[[^\]]*\][^\]]*\][^\]]*\]\]', text)
            if len(re.findall(num, m)) == 9]
    if len(mats) == len(disps):       # the script prints the average stress of every step
        for a, w in zip(mats, st['avg']):
            mon.close('average-stress', a, w, 1e-5, 250.)
    else:
        mon.event('average-stress-not-printed')


def inverse(case, mon):
    def check(b, u, pr, k):
        low = b.on(2, 0.)
        E = float(pr.E)
        rho = onp.asarray(pr.internal_vars['laplace'][0])
        st.setdefault('sup', []).append(u[low].mean(0))
        mon.close('supports', u[low][:, :2], onp.zeros((low.sum(), 2)), 2e-6, 1.)
        S = neo(b.grads(u), E) * rho[..., None, None]
        I = b.internal(S)
        F, area = b.surface_load(b.on(2, 1.), lambda x: onp.tile([0., 0., -100.], (len(x), 1)))
        V = b.volume_load(onp.broadcast_to([100., 0., 0.], b.w.shape + (3,)))
        # one scale at a time is perturbed by 1e-3: recover the load scales from the resultants, then demand equilibrium node by node
        free = ~low
        tot = I[free].sum(0)
        sv = float((I[free, 0] * V[free, 0]).sum() / (V[free, 0]**2).sum())
        sn = float((I[free, 2] * F[free, 2]).sum() / (F[free, 2]**2).sum())
        R = I - sv * V - sn * F
        balance(mon, R, onp.repeat(low[:, None], 3, 1), 3e-6, 1., f'load scales {sv} {sn}')
        st['scales'].append((E, float(u[low, 2].mean()), sn, sv, float(rho.max())))
        mon.sig('inverse', k)
    st = dict(scales=[])
    text, run = launch(case, mon, 'inverse', 'HEX8', check)
    base = onp.array([1e6, 1., 1., 1., .5])
    sc = onp.array(st['scales'])
    mon.close('supports', sc[0] / base, onp.ones(5), 1e-6, 1., detail='parameters of the first solve')
    # each forward solve sees exactly the parameters it was given: one of them 1.001 times the base
    moved = {int(onp.argmax(onp.abs(s / base - 1))) for s in sc if onp.abs(s / base - 1).max() > 5e-4}
    mon.check('derivative', moved == {0, 1, 2, 3, 4}, f'parameters that were ever perturbed in the solves: {sorted(moved)} of 5')
    for s in sc:
        k = int(onp.argmax(onp.abs(s / base - 1)))
        want = onp.ones(5)
        if abs(s[k] / base[k] - 1) > 5e-4:
            want[k] = 1.001
        mon.close('supports', s / base, want, 2e-6, 1., detail='parameters of the solve')
    num = r'([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)'
    pairs = re.findall(r'= ' + num + r',\s*\w+(?:\[[^\]]*\])? = ' + num, text)
    if len(pairs) == 5:
        vals = onp.array([[float(x) for x in p] for p in pairs])
        for name, (ad, fd) in zip(('E', 'rho', 'scale_d', 'scale_n', 'scale_s'), vals):
            # the printed difference quotient is one-sided with step 1e-3; rho[0, 0] moves the objective by the least
            mon.close('derivative', ad, fd, .02 if name == 'rho' else 5e-3, abs(fd) + 1e-12, detail=name)
    else:
        mon.event('derivatives-not-printed')


def topopt(case, mon):
    st = dict(th=[], comp=[], vol=[])

    def check(b, u, pr, k):
        th = onp.asarray(pr.internal_vars['laplace'][0])[..., 0]
        low = b.on(0, 0.)
        E = 70. + (70e3 - 70.) * th**3
        e, nu = sym(b.grads(u)), .3
        S = (E / (1 - nu**2))[..., None, None] * ((1 - nu) * e + nu * onp.trace(e, axis1=-2, axis2=-1)[..., None, None] * onp.eye(2))
        sel = b.on(0, 60.) & (b.P[:, 1] <= 3. + 1e-4)
        F, area = b.surface_load(sel, lambda x: onp.tile([0., -100.], (len(x), 1)))
        mon.close('supports', u[low], onp.zeros((low.sum(), 2)), 1e-7, onp.abs(u).max())
        balance(mon, b.internal(S) - F, onp.repeat(low[:, None], 2, 1), 1e-4, onp.abs(F).max())
        mon.check('volume', (th >= -1e-9).all() and (th <= 1 + 1e-9).all() and onp.ptp(th, axis=1).max() < 1e-12, f'densities {th.min()}..{th.max()}')
        st['th'].append(th[:, 0])
        st['comp'].append(float((F * u).sum()))
        st['vol'].append(th[:, 0].mean())
        mon.sig('topopt', min(k, 3))
        return len(st['th']) < 2 * case['stop']
    text, run = launch(case, mon, 'topology_optimization', 'QUAD4', check)
    # each design is solved for the objective and again for the output file
    printed = [float(x) for x in re.findall(r'^compliance = ([-+0-9.eE]+)', text, re.M)]
    for a, w in zip(printed, st['comp'][0::2]):
        mon.close('compliance', a, w, 1e-5)
    mon.event('compliances-printed', len(printed))
    for i, (name, m) in enumerate(run['files']):
        j = 2 * i + 1
        if j < len(st['th']):
            mon.close('file', m.cell_data['theta'][0], st['th'][j], 1e-6, 1., detail=f'{name} densities')
            mon.close('volume', st['th'][j], st['th'][j - 1], 1e-12, 1., detail='output solve uses the same design')
    d = onp.array(st['th'][0::2])
    mon.close('volume', d[0], onp.full(d.shape[1], .5), 1e-9, 1., detail='initial design')
    mon.check('volume', onp.abs(onp.diff(d, axis=0)).max() <= .1 + 1e-9, f'move limit exceeded: {onp.abs(onp.diff(d, axis=0)).max()}')
    mon.check('volume', max(st['vol']) <= .5 * 1.01, f"volume fraction {max(st['vol'])}")
    mon.check('compliance', st['comp'][0] > 1.3 * min(st['comp']), f"compliance went from {st['comp'][0]} to {min(st['comp'])}")


RUN = dict(poisson=poisson, beam=beam, hyper=hyper, plastic=plastic, inverse=inverse, topopt=topopt)
