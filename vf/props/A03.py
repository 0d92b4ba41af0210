import importlib
import os
import runpy
import shutil
import numpy as onp
from vf import core
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = driver | element type | cells born in the step (none, few, many) | laser on/off; counted when the step returned by '
        'the code was tested against an independent heat balance on an independently computed active body')
ASSUMPTIONS = ['conductivity 15 (hard-coded in the model); cells are only ever added, and born bottom-up (no overhangs)',
               'heat balances are taken with 2-point Gauss rules per direction; in the model cases loads are polynomial and cells rectangular, so any exact rule agrees',
               'the drivers are run as scripts on small meshes and tool paths placed beside a copy of the script; their mesh and tool-path files are not part of the repository']
REQUIRED = {'active-map': 20, 'external-faces': 20, 'balance': 10, 'energy': 10, 'driver-step': 8, 'driver-body': 8, 'driver-laser-on': 3,
            'driver-laser-off': 2, 'born': 5, 'unborn-kept': 3}
KC = 15.


# ------------------------------------------------------------------------------------------------ own heat balance
def cell_faces(et, cells):
    """[(frozenset of global vertices)] per cell and face of the own face list."""
    return [[frozenset(int(c[i]) for i in vs) for vs, _ in fe.faces(et)] for c in cells]


def outer_faces(et, cells):
    """{vertex set: (cell, face)} of the faces that belong to exactly one of the given cells."""
    seen = {}
    for c, fs in enumerate(cell_faces(et, cells)):
        for f, key in enumerate(fs):
            seen.setdefault(key, []).append((c, f))
    return {k: v[0] for k, v in seen.items() if len(v) == 1}


def is_top(X, et, f):
    vs = sorted(fe.faces(et)[f][0])
    z = X[vs, 2]
    return onp.ptp(z) < 1e-5 and z[0] > 1e-12


def residual(et, P, C, T, T0, rc, dt, fluxes, n=2):
    """Nodal heat balance of an implicit step; fluxes = [(top only?, q(x, T0))].  Returns residual, total stored rate, total heat in, scale."""
    R = onp.zeros(len(P))
    sc = onp.zeros(len(P))
    store = heat = 0.
    xi, w = fe.ref_rule(et, n)
    for c in C:
        x, J, G, N = fe.geom(et, P[c], xi)
        jw = onp.linalg.det(J) * w
        dT = N @ (T[c] - T0[c])
        g = onp.einsum('qnd,n->qd', G, T[c])
        a = rc / dt * (jw * dT) @ N
        b = KC * onp.einsum('q,qd,qnd->n', jw, g, G)
        store += a.sum()
        R[c] += a + b
        sc[c] += onp.abs(rc / dt * (jw * (N @ onp.abs(T[c]))) @ N) + onp.abs(b)
    for c, f in outer_faces(et, C).values():
        X = P[C[c]]
        x, wa, nrm, N, _ = fe.face_integrals(et, X, f, n)
        for top, q in fluxes:
            if top and not is_top(X, et, f):
                continue
            qv = onp.array([q(a, t) for a, t in zip(x, N @ T0[C[c]])])
            a = (wa * qv) @ N
            heat += a.sum()
            R[C[c]] -= a
            sc[C[c]] += onp.abs(a)
    return R, store, heat, sc.max()


# ---------------------------------------------------------------------------------------------------- births
def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 6
    for i in range(4 * k):
        out.append(dict(kind='birth', et=['HEX8', 'TET4', 'HEX20', 'TET10'][i % 4], seed=[int(seed), i], cost=4))
    for i in range(4 * k):
        out.append(dict(kind='step', et='HEX8', steps=3 if tier == 'quick' else 10, seed=[int(seed), 20 + i], cost=20))
    for i in range(2 * k):
        out.append(dict(kind='wall', remelt=bool(i % 2), seed=[int(seed), 60 + i], cost=40))
    for i in range(1 if tier == 'quick' else 3):
        out.append(dict(kind='plate', steps=3, seed=[int(seed), 90 + i], cost=25))
    return out


def truth_tabs(rng, P, C, k, supported):
    """A monotone history of active cells starting from a plate."""
    cen = P[C].mean(1)
    z = onp.unique(onp.round(cen[:, 2], 9))
    tab = cen[:, 2] <= z[0] + 1e-9 if supported else rng.random(len(C)) < .4
    if not tab.any():
        tab[rng.integers(len(C))] = True
    out = [tab]
    for i in range(k):
        new = out[-1].copy()
        kind = rng.integers(4)
        if kind == 0 and i:
            pass
        elif supported:
            ctr = cen[rng.integers(len(C))]
            r = rng.choice([.3, .6, 1.2]) * onp.ptp(P[:, 0])
            new |= (cen[:, 2] < ctr[2] + 1e-9) & (((cen[:, :2] - ctr[:2])**2).sum(1) <= r * r)
        elif kind == 1:
            off = onp.argwhere(~new).reshape(-1)
            if len(off):
                new[rng.choice(off)] = True
        elif kind == 2:
            new |= rng.random(len(C)) < .3
        else:
            new |= onp.linalg.norm(cen - cen[rng.integers(len(C))], axis=1) < .5 * onp.ptp(P[:, 0])
        out.append(new)
    if rng.random() < .5:
        out.append(onp.ones(len(C), bool))
    return out


def check_active(mon, P, C, tab, active, pmap, cmap):
    """The active mesh is the sub-mesh of the active cells; returns its points and cells."""
    Pa, Ca = onp.asarray(active.points), onp.asarray(active.cells)
    pmap, cmap = onp.asarray(pmap), onp.asarray(cmap)
    used = onp.unique(C[tab])
    mon.equal('active-map', onp.sort(pmap), used, 'active nodes are those of the active cells')
    mon.equal('active-map', Pa, P[pmap], 'coordinates of the active nodes')
    ids = onp.argwhere(tab).reshape(-1)
    mon.equal('active-map', onp.sort(cmap[ids]), onp.arange(len(ids)), 'numbering of the active cells')
    if len(Ca) == len(ids):
        mon.equal('active-map', pmap[Ca[cmap[ids]]], C[ids], 'active cells keep their nodes')
    else:
        mon.fail('active-map', f'{len(Ca)} active cells instead of {len(ids)}')
        raise core.StopCase()
    return Pa, Ca


def check_faces(mon, et, face_inds, Ca, ext):
    want = set(outer_faces(et, Ca))
    ext = onp.asarray(ext)
    got = [frozenset(int(v) for v in Ca[c][face_inds[f]]) for c, f in ext]
    mon.equal('external-faces', len(set(got)), len(got), 'a face listed twice')
    mon.check('external-faces', set(got) == want, f'{len(set(got) - want)} faces that are not external, {len(want - set(got))} external faces missing of {len(want)}')


def face_table(et):
    from jax_am.fem.basis import get_face_shape_vals_and_grads
    return onp.asarray(get_face_shape_vals_and_grads(et)[4])


def birth(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from applications.fem.thermal import models as M
    rng = onp.random.default_rng(case['seed'])
    et = case['et']
    nv = fe.num_vertices(et)
    for rep in range(3):
        n = rng.integers(1, 5, 3) if et != 'TET4' else rng.integers(1, 4, 3)
        P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=.2 if et in ('HEX8', 'TET4') else 0., affine=bool(rep % 2))
        tabs = truth_tabs(rng, P, C, 5, False)
        fi = face_table(et)[:, :len(fe.faces(et)[0][0])]
        full = Mesh(P, C, et)
        active, pm, cm = M.get_active_mesh(full, tabs[0])
        Pa, Ca = check_active(mon, P, C, tabs[0], active, pm, cm)
        ext, cf, hm, inner, allf = M.initialize_hash_map(full, tabs[0], cm, et)
        check_faces(mon, et, fi, Ca, ext)
        for a, t in zip(tabs, tabs[1:]):
            mon.where = f'{et} {n.tolist()} {int(a.sum())}->{int(t.sum())} of {len(C)} cells'
            active, pm, cm = M.get_active_mesh(full, t)
            Pa, Ca = check_active(mon, P, C, t, active, pm, cm)
            ext, hm, inner, allf = M.update_hash_map(a, t, cm, cf, hm, inner, allf)
            check_faces(mon, et, fi, Ca, ext)
            d = int(t.sum() - a.sum())
            mon.event('born', d)
            mon.sig('birth', et, min(d, 4))


def step(case, mon):
    """A growing body heated on its top and cooled (or heated) on all of its surface."""
    jax, np, FEM, Mesh = fu.mods()
    from applications.fem.thermal import models as M
    from jax_am.fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    et = case['et']
    L = rng.uniform(.6, 2., 3) * float(rng.choice([3e-3, .1, 1.]))
    n = rng.integers(2, 4, 3)
    P, C, U, A, b = fe.make_mesh(et, n, rng, affine=False, lengths=L, grade=.2)
    full = Mesh(P, C, et)
    tabs = truth_tabs(rng, P, C, case['steps'], True)
    rho, cp = float(rng.uniform(500, 9000)), float(rng.uniform(100, 900))
    h, Tinf = float(rng.uniform(10, 200)), float(rng.uniform(250, 320))
    s = L.mean()
    q0 = rho * cp * s * 2.
    st = {'c': L[0] / 2}
    # polynomial of degree one per variable, so that every quadrature of the element's own order is exact
    laser_np = lambda x, t: q0 * (1 + .7 * (x[0] - st['c']) / s + .3 * x[1] / s)
    wall_np = lambda x, t: h * (Tinf - t) * (1. + .2 * x[2] / s)

    def walls(x, t):
        return np.array([h * (Tinf - t[0]) * (1. + .2 * x[2] / s)])

    def top(x, t):
        return np.array([q0 * (1 + .7 * (x[0] - st['c']) / s + .3 * x[1] / s)])
    T = onp.full(len(P), Tinf) if rng.random() < .3 else Tinf + 100 * rng.random(len(P))
    active, pm, cm = M.get_active_mesh(full, tabs[0])
    ext, cf, hm, inner, allf = M.initialize_hash_map(full, tabs[0], cm, et)
    nq = 2 if et == 'HEX8' else 4
    for k, (a, t) in enumerate(zip([tabs[0]] + tabs, tabs)):
        on = bool(k == 1 or rng.random() < .6)
        dt = float(10**rng.uniform(-2, 0))
        st['c'] = float(rng.uniform(0, L[0]))
        if k:
            active, pm, cm = M.get_active_mesh(full, t)
            ext, hm, inner, allf = M.update_hash_map(a, t, cm, cf, hm, inner, allf)
        Pa, Ca = check_active(mon, P, C, t, active, pm, cm)
        T0 = T[pm]
        pr = M.Thermal(active, vec=1, dim=3, ele_type=et, dirichlet_bc_info=[[], [], []],
                       neumann_bc_info=[None, [walls, top] if on else [walls]],
                       additional_info=(np.array(T0)[:, None], rho, cp, dt, ext))
        for sub in range(2):
            mon.where = f'{et} step {k}.{sub} laser {"on" if on else "off"} {len(Ca)} cells'
            T1 = onp.asarray(solver(pr, linear=True))
            if not mon.check('balance', T1.shape == (len(Pa), 1) and onp.isfinite(T1).all(), 'temperature field'):
                return
            T1 = T1[:, 0]
            R, store, heat, sc = residual(et, Pa, Ca, T1, T0, rho * cp, dt, [(False, wall_np)] + ([(True, laser_np)] if on else []), nq)
            mon.close('balance', R, onp.zeros_like(R), 2e-7, sc)
            mon.close('energy', store, heat, 1e-6, sc * len(R)**.5)
            pr.update_int_vars(np.array(T1)[:, None])
            T0 = T1
            st['c'] = float(rng.uniform(0, L[0]))
        T = T.copy()
        T[onp.asarray(pm)] = T1
        mon.event('born', int(t.sum() - a.sum()))
        mon.sig('step', et, min(int(t.sum() - a.sum()), 4), on)


# ---------------------------------------------------------------------------------------------------- drivers
class Halt(Exception):
    pass


def run_script(case, mon, name, observe, prepare):
    """Run a copy of a driver as a script; observe(problem, solution) sees every linear solve it asks for."""
    import jax_am.fem.solver as S
    import jax_am.fem.generate_mesh as G
    d = os.path.join(case['_scratch'], 'app')
    os.makedirs(os.path.join(d, 'data'))
    src = os.path.join(core.REPO, 'applications/fem/thermal', name)
    shutil.copy(src, d)
    keep = S.solver, G.box_mesh
    own = []

    def solver(problem, *a, **k):
        sol = keep[0](problem, *a, **k)
        try:
            observe(problem, sol)
        except Exception as e:
            own.append(e)
            raise
        return sol
    S.solver = solver
    try:
        prepare(os.path.join(d, 'data'), G)
        runpy.run_path(os.path.join(d, name), run_name='__main__')
    except Halt:
        pass
    except Exception as e:
        if isinstance(e, MemoryError) or own and own[-1] is e:
            raise
        import traceback
        mon.fail('no-crash', f'{name} fails on valid data: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}')
    finally:
        S.solver, G.box_mesh = keep


def match(mon, Pa, P):
    """Index in P of every row of Pa."""
    d = ((Pa[:, None] - P[None])**2).sum(-1)
    i = d.argmin(1)
    if not mon.check('driver-body', d[onp.arange(len(i)), i].max() < 1e-16, 'solved on points that are not mesh points'):
        raise core.StopCase()
    return i


T0_, CP_, RHO_, H_, RB_, ETA_, PW_ = 300., 500., 8440., 50., 1e-3, .4, 500.


def gauss(c):
    return lambda x, t: 2 * ETA_ * PW_ / (onp.pi * RB_**2) * onp.exp(-2 * ((x[0] - c[0])**2 + (x[1] - c[1])**2) / RB_**2)


def conv(x, t):
    return H_ * (T0_ - t)


def one_step(mon, problem, sol, P, C, tab, T, dt, laser):
    """Compare one solve of a driver with the expected body, and its field with the expected heat balance; T is updated in place."""
    Pa, Ca = onp.asarray(problem.points), onp.asarray(problem.cells)
    i = match(mon, Pa, P)
    got = {frozenset(i[c].tolist()) for c in Ca}
    want = {frozenset(c.tolist()) for c in C[tab]}
    if not mon.check('driver-body', got == want, f'the solve runs on {len(got)} cells, {len(want)} are active'):
        raise core.StopCase()
    T1 = onp.asarray(sol)
    if not mon.check('driver-step', T1.shape == (len(Pa), 1) and onp.isfinite(T1).all(), 'temperature field'):
        raise core.StopCase()
    T1 = T1[:, 0]
    R, store, heat, sc = residual('HEX8', Pa, Ca, T1, T[i], RHO_ * CP_, dt, [(False, conv)] + ([(True, laser)] if laser else []))
    ok = mon.close('driver-step', R, onp.zeros_like(R), 2e-7, sc, detail=f'laser {"on" if laser else "off"}: heat in {heat:.6g}, stored {store:.6g}')
    T[i] = T1
    mon.event('driver-laser-on' if laser else 'driver-laser-off')
    if not ok:
        raise core.StopCase()


def wall(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    import meshio
    rng = onp.random.default_rng(case['seed'])
    nx = int(rng.integers(4, 6))
    dx = float(rng.choice([.8, 1.]))
    hl = float(rng.choice([.5, 1.]))
    xs = onp.arange(nx + 1) * dx
    ys = onp.array([0., .7, 1.4])
    zs = onp.array([0., 12., 20., 20. + hl, 20. + 2 * hl])
    B, C = fe.block('HEX8', (len(xs) - 1, len(ys) - 1, len(zs) - 1))
    ix = onp.round(B * onp.array([len(xs) - 1, len(ys) - 1, len(zs) - 1])).astype(int)
    P = onp.stack((xs[ix[:, 0]], ys[ix[:, 1]], zs[ix[:, 2]]), 1)
    p = rng.permutation(len(P))
    inv = onp.empty_like(p)
    inv[p] = onp.arange(len(p))
    P, C = P[p], inv[C][rng.permutation(len(C))]
    # tool path: time, x, y, z, laser state of the segment that ends there
    sp = float(rng.choice([5., 10.]))                    # mm/s
    x0, x1 = .5 * dx, .5 * dx + .5
    y = .7
    tp = [[0., x0, y, hl, 0]]
    add = lambda x, z, on, v: tp.append([tp[-1][0] + (max(abs(x - tp[-1][1]) / v, .05)), x, y, z, on])
    add(x0, hl, 0, sp)
    add(x1, hl, 1, sp)
    add(x1, hl, 0, sp)
    if case['remelt']:
        add(x1 - .25, hl, 1, sp * .5)                     # same layer again, at another speed: nothing is born
    else:
        add(x0, 2 * hl, 1, sp)
    tp = onp.array(tp)
    Pm = P / 1e3
    cen = Pm[C].mean(1)
    base = 20e-3
    # expected steps of the schedule
    exp = []
    tab = cen[:, 2] <= base
    for i in range(1, len(tp)):
        if tp[i, 4] == 0:
            m = 2 if i == 1 else 10
            exp += [(tab, (tp[i, 0] - tp[i - 1, 0]) / m, None)] * m
        else:
            a, b = tp[i - 1], tp[i]
            m = round(float(onp.linalg.norm(b[1:4] - a[1:4]) / 1e3) / (.125e-3))
            for j in range(m):
                s = j / m
                c = (a[1:3] + s * (b[1:3] - a[1:3])) / 1e3
                new = tab | ((cen[:, 2] < b[3] / 1e3 + base) & (((cen[:, :2] - c)**2).sum(1) <= RB_**2))
                mon.event('born', int(new.sum() - tab.sum()))
                tab = new
                exp.append((tab, (b[0] - a[0]) / m, gauss(c)))
    T = onp.full(len(P), T0_)
    k = [0]

    def observe(problem, sol):
        if k[0] >= len(exp):
            mon.fail('driver-step', 'more steps than the tool path has')
            raise core.StopCase()
        tab, dt, laser = exp[k[0]]
        mon.where = f'solve {k[0]} of {len(exp)}, {int(tab.sum())} of {len(C)} cells'
        un = onp.setdiff1d(onp.arange(len(P)), C[tab])
        mon.equal('unborn-kept', T[un], onp.full(len(un), T0_))
        one_step(mon, problem, sol, Pm, C, tab, T, dt, laser)
        mon.sig('wall', case['remelt'], k[0], laser is not None)
        k[0] += 1

    def prepare(data, G):
        os.makedirs(os.path.join(data, 'abaqus'))
        os.makedirs(os.path.join(data, 'toolpath'))
        meshio.Mesh(P, {'hexahedron': C}).write(os.path.join(data, 'abaqus', 'thinwall.inp'))
        onp.savetxt(os.path.join(data, 'toolpath', 'thinwall_toolpath.crs'), tp)
    run_script(case, mon, 'thin_wall.py', observe, prepare)
    if not mon.viol:
        mon.equal('driver-step', k[0], len(exp), 'number of time steps')


def plate(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    rng = onp.random.default_rng(case['seed'])
    st = {}
    n = [int(v) for v in rng.integers((6, 3, 2), (9, 5, 4))]
    Lx, Ly = 30e-3, 6e-3
    k = [0]

    def observe(problem, sol):
        P, C = st['P'], st['C']
        mon.where = f'solve {k[0]}'
        k[0] += 1
        one_step(mon, problem, sol, P, C, onp.ones(len(C), bool), st['T'], 1e-2, gauss((Lx * .2 + .01 * k[0] * 1e-2, Ly / 2)))
        mon.sig('plate', k[0])
        if k[0] >= case['steps']:
            raise Halt()

    def prepare(data, G):
        real = G.box_mesh

        def coarse(Nx, Ny, Nz, *a, **kw):
            m = real(*n, *a, **kw)
            st['P'], st['C'] = onp.array(m.points), onp.array(m.cells_dict['hexahedron'])
            st['T'] = onp.full(len(st['P']), T0_)
            return m
        G.box_mesh = coarse
    run_script(case, mon, 'bare_plate.py', observe, prepare)


RUN = dict(birth=birth, step=step, wall=wall, plate=plate)
