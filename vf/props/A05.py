"""Thermo-mechanical demonstration: heat balance, phase history, thermal strain, perfect plasticity, saved files."""
import os
import re
import numpy as onp
from vf import femutil as fu, script
from vf.refs import fe

LEVEL = 'exploration'
RULE = ('signature = laser on/off | phases present | plastic points present; counted per time step of the real script whose temperature, displacement and files '
        'were compared with the reference')
ASSUMPTIONS = ['constants and equations of the demonstration\'s README; integrals with 2-point Gauss rules per direction',
               'the script runs unmodified; some cases give it a coarser mesh through box_mesh and stop it early']
REQUIRED = {'heat-balance': 40, 'bottom': 40, 'equilibrium': 5, 'fixed': 5, 'law': 20, 'files': 5, 'solid-points': 1, 'liquid-points': 1, 'plastic-points': 1}
CP, RHO, K, TL, H, ETA, SB, EM, T0, VEL, RB, PW, DT = 588., 8440., 15., 1623., 100., .25, 5.67e-8, .3, 300., .5, 5e-5, 50., 2e-6
LX, LY, LZ = .5e-3, .2e-3, .05e-3
ON = .5 * LX / VEL
NU, E0, SIG0, AL = .3, 70e9, 250e6, 1e-5


def cases(tier, seed):
    rng = onp.random.default_rng([5, int(seed)])
    full = dict(kind='run', n=None, stop=3, seed=[int(seed), 0], cost=60, hang=840)
    many = lambda i, n, s: dict(kind='run', n=n, stop=s, seed=[int(seed), i], cost=100, hang=840)
    law = [dict(kind='run', n=tuple(int(v) for v in rng.integers(1, 4, 3)), stop=1, law=True, seed=[int(seed), 50 + i], cost=30, hang=840) for i in range(4 if tier == 'quick' else 40)]
    if tier == 'quick':
        return [full, many(1, (int(rng.integers(9, 13)), int(rng.integers(4, 6)), int(rng.integers(3, 6))), 60)] + law
    return law + [dict(full, stop=30, hang=3000)] + [dict(many(i, (int(rng.integers(8, 13)), int(rng.integers(4, 8)), int(rng.integers(2, 6))), 300), hang=3000) for i in range(1, 4)]


def trial(g, so, eo, dT, ph):
    eps = .5 * (g + onp.swapaxes(g, -1, -2))
    solid = (ph == 2)[..., None, None]
    E = onp.where(solid, E0, .01 * E0)
    mu, lm = E / 2 / (1 + NU), E * NU / (1 + NU) / (1 - 2 * NU)
    I = onp.eye(3)
    e = eps - eo - onp.where(solid, AL, 0.) * dT[..., None, None] * I
    tr = onp.trace(e, axis1=-2, axis2=-1)[..., None, None]
    s = so + lm * tr * I + 2 * mu * e
    dev = s - onp.trace(s, axis1=-2, axis2=-1)[..., None, None] / 3 * I
    vm = onp.sqrt(1.5 * (dev**2).sum((-1, -2)))
    f = onp.maximum(vm - SIG0, 0.)
    return s - (f / onp.where(vm > 0, vm, 1.))[..., None, None] * dev, eps, f


def run(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    import meshio
    st = dict(k=0)

    def setup(pr):
        P, C = onp.asarray(pr.points), onp.asarray(pr.cells)
        xq = onp.asarray(pr.get_physical_quad_points())
        geo = [fe.geom('HEX8', P[c], fe.inverse_map('HEX8', P[c], x)) for c, x in zip(C, xq)]
        st.update(P=P, C=C, w=onp.asarray(pr.JxW), G=onp.array([a[2] for a in geo]), N=onp.array([a[3] for a in geo]))
        st['low'] = onp.abs(P[:, 2]) < 1e-9
        st['T'] = st['Tu'] = onp.full(len(P), T0)
        on = {1: onp.abs(P[:, 2] - LZ) < 1e-9, 0: None}
        sides = [onp.abs(P[:, 0]) < 1e-9, onp.abs(P[:, 0] - LX) < 1e-9, onp.abs(P[:, 1]) < 1e-9, onp.abs(P[:, 1] - LY) < 1e-9]
        F = []
        for c in range(len(C)):
            for f, (vs, _) in enumerate(fe.faces('HEX8')):
                v = C[c][sorted(vs)]
                top = bool(on[1][v].all())
                if top or any(s[v].all() for s in sides):
                    x, wa, nrm, N, _ = fe.face_integrals('HEX8', P[C[c]], f, 2)
                    F.append((c, top, x, wa, N))
        st['fc'] = C[[a[0] for a in F]]
        st['ft'], st['fx'], st['fw'], st['fN'] = (onp.array([a[i] for a in F]) for i in (1, 2, 3, 4))
        q = C.shape[0], 8
        st.update(so=onp.zeros(q + (3, 3)), eo=onp.zeros(q + (3, 3)), ph=onp.zeros(q, int), u=onp.zeros((len(P), 3)))

    def law(pu):
        """Random histories of temperature and displacement: stress, strain, phase and temperature increment follow the reference."""
        rng = onp.random.default_rng(case['seed'])
        C, G, N = st['C'], st['G'], st['N']
        sig = jax.vmap(jax.vmap(pu.get_tensor_map()))
        par, T = pu.internal_vars['laplace'], onp.full(len(st['P']), T0)
        so, eo, ph = st['so'], st['eo'], st['ph']
        amp = LZ * 10**rng.uniform(-3.3, -2.)
        for k in range(8):
            mon.where = f"history step {k} mesh {case['n']}"
            Tn = T + rng.normal(size=len(T)) * 100 if rng.random() < .3 else rng.uniform(300, 3000, len(T)) if rng.random() < .6 else onp.full(len(T), rng.choice([400., 1600., 2500.]))
            if rng.random() < .2:
                Tn = T.copy()
            u = rng.normal(size=(len(T), 3)) * amp * (rng.random() < .85)
            dT, Tq = (onp.einsum('cn,cqn->cq', a[C], N) for a in (Tn - T, Tn))
            if (onp.abs(Tq - TL) < 1e-4).any():
                continue
            ph = onp.where((ph == 0) & (Tq > TL), 1, onp.where((ph == 1) & (Tq < TL), 2, ph))
            par = pu.update_dT_and_phase(np.array(Tn - T)[:, None], np.array(Tn)[:, None], par)
            g = onp.einsum('cni,cqnj->cqij', u[C], G)
            S, eps, f = trial(g, so, eo, dT, ph)
            mon.close('law', sig(np.array(g), *par), S, 1e-8, SIG0)
            par, info = pu.update_stress_strain(np.array(u), par)
            mon.close('law', info[0], f[..., None] if onp.ndim(info[0]) == 3 else f, 1e-8, SIG0)
            mon.close('law', info[1], S[..., 0, 0][..., None] if onp.ndim(info[1]) == 3 else S[..., 0, 0], 1e-8, SIG0)
            so, eo, T = S, eps, Tn
            mon.event('solid-points', int((ph == 2).sum()))
            mon.event('liquid-points', int((ph == 1).sum()))
            mon.event('plastic-points', int((f > 0).sum()))
            mon.sig('law', k, sorted(set(ph.ravel().tolist())), bool((f > 0).any()))

    def heat(sol):
        k = st['k'] = st['k'] + 1
        P, C, G, N, w, To = (st[a] for a in ('P', 'C', 'G', 'N', 'w', 'T'))
        T = onp.asarray(sol)
        mon.where = f"step {k} mesh {case['n']}"
        if not mon.check('heat-balance', T.shape == (len(P), 1) and onp.isfinite(T).all(), 'temperature field'):
            raise script.Halt()
        T = T[:, 0]
        mon.close('bottom', T[st['low']], onp.full(st['low'].sum(), T0), 1e-7, T0)
        t = k * DT
        R = onp.zeros(len(P))
        a = RHO * CP / DT * onp.einsum('cq,cq,cqn->cn', w, onp.einsum('cn,cqn->cq', (T - To)[C], N), N)
        b = K * onp.einsum('cq,cqj,cqnj->cn', w, onp.einsum('cn,cqnj->cqj', T[C], G), G)
        onp.add.at(R, C, a + b)
        Tf = onp.einsum('fn,fqn->fq', To[st['fc']], st['fN'])
        q = H * (T0 - Tf) + SB * EM * (T0**4 - Tf**4)
        d2 = (st['fx'][..., 0] - LX * .25 - VEL * t)**2 + (st['fx'][..., 1] - LY / 2)**2
        ql = 2 * ETA * PW / (onp.pi * RB**2) * onp.exp(-2 * d2 / RB**2) * st['ft'][:, None]
        on = None if abs(t / ON - 1) < 1e-6 else t < ON          # at the switching time either state is right
        best = None
        for s in ((0., 1.) if on is None else (float(on),)):
            r = R.copy()
            onp.add.at(r, st['fc'], -onp.einsum('fq,fq,fqn->fn', st['fw'], q + s * ql, st['fN']))
            if best is None or onp.abs(r[~st['low']]).max() < onp.abs(best).max():
                best = r[~st['low']]
        ok = mon.close('heat-balance', best, onp.zeros_like(best), 5e-6, 1., detail=f'heat stored {a.sum():.4g} laser {on}')
        st['T'] = T
        mon.sig('T', on, bool((T > TL).any()))
        if not ok or k >= case['stop']:
            raise script.Halt()

    def mech(sol):
        P, C, G, N, w = (st[a] for a in ('P', 'C', 'G', 'N', 'w'))
        mon.equal('files', st['k'] % 10, 0, 'the mechanical problem is solved every tenth step')
        u = onp.asarray(sol)
        dT = onp.einsum('cn,cqn->cq', (st['T'] - st['Tu'])[C], N)
        Tq = onp.einsum('cn,cqn->cq', st['T'][C], N)
        ph = st['ph']
        if (onp.abs(Tq - TL) < 1e-4).any():
            raise script.Halt()                                   # a point at the liquidus to round-off: its phase is not determined
        st['ph'] = onp.where((ph == 0) & (Tq > TL), 1, onp.where((ph == 1) & (Tq < TL), 2, ph))
        g = onp.einsum('cni,cqnj->cqij', u[C], G)
        S, eps, f = trial(g, st['so'], st['eo'], dT, st['ph'])
        R = onp.zeros_like(P)
        onp.add.at(R, C, onp.einsum('cqij,cqnj,cq->cni', S, G, w))
        low = st['low']
        mon.close('fixed', u[low], onp.zeros(u[low].shape), 1e-9, onp.abs(u).max() + 1e-9)
        ok = mon.close('equilibrium', R[~low], onp.zeros(R[~low].shape), 5e-6, 1., detail=f'largest force {onp.abs(R).max():.4g}, phases {onp.bincount(st["ph"].ravel(), minlength=3).tolist()}')
        st.update(so=S, eo=eps, Tu=st['T'], u=u, f=f)
        mon.event('solid-points', int((st['ph'] == 2).sum()))
        mon.event('liquid-points', int((st['ph'] == 1).sum()))
        mon.event('plastic-points', int((f > 0).sum()))
        mon.sig('u', sorted(set(st['ph'].ravel().tolist())), bool((f > 0).any()))
        if not ok:
            raise script.Halt()

    def observe(pr, sol, g):
        if 'P' not in st:
            setup(pr)
            if case.get('law'):
                pu = [v for v in g.values() if isinstance(v, FEM) and v.vec == 3]
                if len(pu) == 1 and hasattr(pu[0], 'update_dT_and_phase') and hasattr(pu[0], 'update_stress_strain'):
                    law(pu[0])
        heat(sol) if pr.vec == 1 else mech(sol)

    def saved(path, g):
        m = meshio.read(path)
        k = int(re.findall(r'(\d+)\.vtu$', path)[0])
        if 'P' not in st:
            mon.equal('files', k, 0, 'number of the initial file')
            mon.close('files', m.point_data['sol'].reshape(-1), onp.full(len(m.points), T0), 1e-6, T0)
            for n, d in list(m.cell_data.items()) + [('u', [m.point_data['u']])]:
                mon.equal('files', onp.asarray(d[0]) * 1., onp.zeros(onp.shape(d[0])), n + ' of the initial file')
            return
        mon.equal('files', k, st['k'], 'step number of the file')
        mon.close('files', m.point_data['sol'].reshape(-1), st['T'], 1e-6, 3e3, detail='temperature of the step')
        mon.close('files', m.point_data['u'], st['u'], 1e-6, onp.abs(st['u']).max() + 1e-12, detail='displacement of the step')
        mon.close('files', m.cell_data['f_plus'][0], st['f'].mean(1), 2e-5, SIG0, detail='yield overshoot')
        mon.close('files', m.cell_data['stress_xx'][0], st['so'][..., 0, 0].mean(1), 2e-5, SIG0, detail='stress')
        mon.equal('files', onp.asarray(m.cell_data['phase'][0]) * 1., st['ph'].max(1) * 1., 'phase')

    mesh = (lambda nx, ny, nz: case['n']) if case['n'] else None
    script.execute(case, mon, 'demos/fem/thermal_mechanical/example.py', observe, saved, mesh)


RUN = dict(run=run)
