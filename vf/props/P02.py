import os
import numpy as onp
from vf import femutil as fu
from vf.refs import pf

LEVEL = 'exploration'
RULE = ('signature = integrator or scenario | right-hand side class | grid | anisotropy | regime reached (melting, resolidified); counted '
        'when a state returned after a step was compared with the lock-step reference or an invariant')
ASSUMPTIONS = ['stable explicit steps (below the diffusion and reaction limits)', 'stepper is explicit Euler, as documented']
REQUIRED = {'euler-step': 20, 'rk4-step': 20, 'time-carried': 20, 'rk4-order': 3, 'stepper-lockstep': 60, 'energy-decreases': 30,
            'bounded': 40, 'no-new-orientation': 10, 'liquid-decays': 5, 'regrowth': 3, 'force-zero': 10, 'ini-cond': 5, 'inspect': 5}


def cases(tier, seed):
    rng = onp.random.default_rng([seed, 4242])
    out = []
    k = 2 if tier == 'quick' else 16
    for i in range(6 * k):
        out.append(dict(kind='ode', seed=[int(seed), i], cost=3))
    for i in range(8 * k):
        out.append(dict(kind='run', seed=[int(seed), 100 + i], aniso=[0., .15][i % 2], iso=bool(i % 4 < 2), cost=5))
    for i in range(5 * k):
        out.append(dict(kind='melt', seed=[int(seed), 300 + i], cost=6))
    for i in range(5 * k):
        out.append(dict(kind='misc', seed=[int(seed), 400 + i], cost=3))
    return out


def ode(case, mon):
    """Integrators on arbitrary right-hand sides, non-uniform and negative steps."""
    fu.quiet()
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.phase_field.allen_cahn import rk4, explicit_euler
    rng = onp.random.default_rng(case['seed'])
    n = int(rng.integers(1, 6))
    A = rng.normal(size=(n, n)) * .7
    w = rng.uniform(.5, 3)

    def make(xp):
        return lambda y, t, p: xp.sin(y @ A.T) * p[0] + p[1] * xp.cos(w * t) * y**2 * .2 + p[0] * t
    fj, fn = make(np), make(onp)
    y, t = rng.normal(size=(4, n)), float(rng.uniform(-1, 1))
    sj = {'e': (np.array(y), t), 'r': (np.array(y), t)}
    sn = {'e': y.copy(), 'r': y.copy()}
    for k in range(8):
        p = [onp.array(rng.normal()), onp.array(rng.normal())]
        h = float(rng.choice([.01, .1, .3, -.05, 0.]))
        t1 = t + h
        pj = [np.array(x) for x in p]
        sj['e'], oe = explicit_euler(sj['e'], t1, fj, pj)
        sj['r'], o4 = rk4(sj['r'], t1, fj, pj)
        sn['e'] = sn['e'] + h * fn(sn['e'], t, p)
        z = sn['r']
        k1 = fn(z, t, p)
        k2 = fn(z + h / 2 * k1, t + h / 2, p)
        k3 = fn(z + h / 2 * k2, t + h / 2, p)
        k4 = fn(z + h * k3, t1, p)
        sn['r'] = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        mon.close('euler-step', sj['e'][0], sn['e'], 1e-11, 1 + onp.abs(sn['e']).max())
        mon.close('rk4-step', sj['r'][0], sn['r'], 1e-11, 1 + onp.abs(sn['r']).max())
        mon.close('time-carried', [sj['e'][1], sj['r'][1]], [t1, t1], 1e-12, 1.)
        mon.equal('time-carried', oe, sj['e'][0], 'returned solution differs from the returned state')
        mon.equal('time-carried', o4, sj['r'][0], 'returned solution differs from the returned state')
        t = t1
        mon.sig('ode', n, k, h)
    # order: halving the step divides the error by 16 (2 for Euler)
    y0, p = rng.normal(size=(1, n)), [np.array(1.), np.array(.3)]

    def solve(meth, N):
        s = (np.array(y0), 0.)
        for i in range(N):
            s, _ = meth(s, (i + 1) / N, fj, p)
        return onp.asarray(s[0])
    ref = solve(rk4, 256)
    e = [onp.abs(solve(rk4, N) - ref).max() for N in (8, 16)]
    g = [onp.abs(solve(explicit_euler, N) - ref).max() for N in (32, 64)]
    if e[0] > 1e-7:
        mon.check('rk4-order', e[0] / e[1] > 7., f'errors {e}')
    else:
        mon.event('rk4-order')
    mon.check('rk4-order', g[1] < .75 * g[0] + 1e-9, f'Euler errors {g}')


def solver(case, a, h, dirs, ori=None, rng=None):
    from jax_am.phase_field.allen_cahn import PFSolver
    a['data_dir'] = os.path.join(case['_scratch'], 'data')
    pc = pf.crystal(h, dirs, a)
    N = a['Nx'] * a['Ny'] * a['Nz']
    pc.centroids = onp.zeros((N, 3))
    pc.cell_ori_inds = ori
    return PFSolver(a, pc)


def dt_of(a, h):
    """Well inside the explicit stability limit at the hottest possible temperature."""
    M = a['L0'] * onp.exp(-a['Qg'] / (2000. * a['gas_const']))
    lim = M * (a['m_g'] * 10 / a['ad_hoc'] + (1 + a['anisotropy']) * a['kappa_g'] * a['ad_hoc'] * 4 * sum(1 / x**2 for x in h))
    return .3 / lim


def run(case, mon):
    """Stepper histories under moving temperature fields, in lock-step with numpy."""
    fu.quiet()
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    rng = onp.random.default_rng(case['seed'])
    a, h = pf.args(rng, aniso=case['aniso'])
    m, N = a['num_oris'], a['Nx'] * a['Ny'] * a['Nz']
    dirs = pf.dirs_of(pf.rotations(rng, m))
    ori = rng.integers(0, m, N)
    if m > 1:
        ori[ori == m - 1] = 0       # one orientation is absent
    s = solver(case, a, h, dirs, ori)
    y = s.ini_cond()
    want = onp.eye(m)[ori]
    mon.equal('ini-cond', onp.asarray(y), want)
    dt = dt_of(a, h)
    t = 0.
    state, ref = (y, t), want.copy()
    mon.where = f"{a['Nx']}x{a['Ny']}x{a['Nz']} oris {m} aniso {a['anisotropy']}"
    iso = case['iso']
    T = pf.temperature(rng, a, N)
    for k in range(20):
        if not iso:
            T = pf.temperature(rng, a, N)
        d = dt * rng.uniform(.1, 1.)
        t1 = t + d
        old = ref
        ref = ref + (t1 - t) * pf.rhs(ref, T, a, h, dirs)
        state, out = s.stepper(state, t1, [np.array(T)])
        g = onp.asarray(state[0])
        mon.close('stepper-lockstep', g, ref, 1e-7, 1.)
        mon.equal('time-carried', out, g)
        mon.close('time-carried', [state[1]], [t1], 1e-12, t1)
        mon.check('bounded', (g > -1e-9).all() and (g < 1 + 1e-9).all(), f'order parameters left [0,1]: {g.min()} {g.max()}')
        if m > 1:
            mon.check('no-new-orientation', (g[:, m - 1] == 0).all(), 'an absent orientation appeared')
        if case['aniso'] == 0 and iso:
            e0, e1 = pf.energy(old, T, a, h), pf.energy(g, T, a, h)
            mon.le('energy-decreases', e1, e0, 1e-9 * (abs(e0) + abs(e1)))
        t = t1
        ref = g.copy()      # resynchronise: rounding must not accumulate through the sharp switch
    mon.sig('run', a['Nx'], m, a['anisotropy'], iso)


def melt(case, mon):
    """A remelted bicrystal regrows epitaxially from the unmelted substrate with the substrate's orientations only."""
    fu.quiet()
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    rng = onp.random.default_rng(case['seed'])
    a, h = pf.args(rng, n=[int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(14, 19))], num_oris=int(rng.integers(2, 6)), aniso=0.)
    h = (4e-6,) * 3
    a['ad_hoc'] = 1.
    m, n = a['num_oris'], (a['Nx'], a['Ny'], a['Nz'])
    N = n[0] * n[1] * n[2]
    z = onp.repeat(onp.arange(n[2]), n[0] * n[1])
    cut = n[2] // 2
    lower, upper = [int(k) for k in rng.permutation(m)[:2]]
    ori = onp.where(z < cut, lower, upper)
    s = solver(case, a, h, pf.dirs_of(pf.rotations(rng, m)), ori)
    dt = dt_of(a, h) * 3
    Tl = a['T_liquidus']
    state = (s.ini_cond(), 0.)
    hot = onp.where(z < cut - 1, Tl - 1., 1900.)[:, None]
    K = 900
    scan = jax.jit(lambda st, T, k: jax.lax.fori_loop(0, k, lambda i, s_: s.stepper(s_, s_[1] + dt, [T])[0], st), static_argnums=2)
    state = scan(state, np.array(hot), K)
    g = onp.asarray(state[0])
    mon.where = f'{n} oris {m} orientations {lower},{upper}'
    mon.check('bounded', (g > -1e-9).all() and (g < 1 + 1e-9).all(), f'{g.min()} {g.max()}')
    top = z >= cut + 3
    mon.le('liquid-decays', g[top].max(), .02, detail='melt not liquid')
    mon.check('liquid-decays', (onp.abs(g[z < 2, lower] - 1) < .05).all(), 'unmelted substrate lost its crystal')
    state = scan(state, np.full((N, 1), Tl - 20.), 6 * K)
    g = onp.asarray(state[0])
    mon.check('regrowth', (g[:, lower] > .9).all(), f'substrate crystal does not fill the melt: {g[:, lower].min()}')
    others = [k for k in range(m) if k not in (lower, upper)]
    mon.check('no-new-orientation', (g[:, others] == 0).all(), 'orientation nucleated')
    mon.check('bounded', (g > -1e-9).all() and (g < 1 + 1e-9).all(), f'{g.min()} {g.max()}')
    mon.sig('melt', n, m)


def misc(case, mon):
    fu.quiet()
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as np
    from jax_am.phase_field.allen_cahn import get_force_eta_fn
    rng = onp.random.default_rng(case['seed'])
    a, h = pf.args(rng)
    m, N = a['num_oris'], a['Nx'] * a['Ny'] * a['Nz']
    f = get_force_eta_fn(a)
    for k in range(3):
        eta = rng.normal(size=(N, m))
        T = a['T_liquidus'] + rng.choice([-500., -.5, 0., .5, 1.5, 800.], (N, 1))
        t = float(rng.normal())
        e, tt = f((np.array(eta), t), np.array(T))
        mon.equal('force-zero', e, onp.where(T > a['T_liquidus'] + 1, 0., eta))
        mon.close('force-zero', [tt], [t], 1e-12, 1.)
    s = solver(case, a, h, pf.dirs_of(pf.rotations(rng, m)), rng.integers(0, m, N))
    old = os.path.join(a['data_dir'], 'vtk/pf/sols')
    eta, T = rng.random((N, m)), pf.temperature(rng, a, N)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        s.inspect_sol(np.array(eta), np.array(eta), np.array(T), onp.zeros(5), 2)
        mon.event('inspect')
        for bad in (onp.nan, onp.inf, -onp.inf):
            b = eta.copy()
            b[int(rng.integers(N)), int(rng.integers(m))] = bad
            try:
                s.inspect_sol(np.array(b), np.array(eta), np.array(T), onp.zeros(5), 2)
                ok = False
            except ValueError:
                ok = True
            mon.check('inspect', ok, f'{bad} not reported')
    # a new solver starts with an empty solution folder and leaves the neighbours alone
    os.makedirs(old, exist_ok=True)
    open(old + '/u000.vtu', 'w').close()
    keep = os.path.join(a['data_dir'], 'vtk/pf/mesh')
    os.makedirs(keep, exist_ok=True)
    open(keep + '/fd_mesh.vtu', 'w').close()
    solver(case, a, h, s.polycrystal.unique_grain_directions, s.polycrystal.cell_ori_inds)
    mon.check('ini-cond', os.listdir(old) == [] and os.listdir(keep) == ['fd_mesh.vtu'], 'stale solutions kept or other files removed')
    mon.equal('ini-cond', onp.asarray(s.ini_cond()), onp.eye(m)[s.polycrystal.cell_ori_inds])
    mon.sig('misc', m, N)
    # many orientations: every cell starts as its own
    m = int(rng.integers(257, 700))
    a, h = pf.args(rng, n=[4, 3, 5], num_oris=m, aniso=0.)
    ori = rng.integers(0, m, 60)
    ori[:2] = m - 1, 256
    s = solver(case, a, h, pf.dirs_of(pf.rotations(rng, m)), ori)
    mon.equal('ini-cond', onp.asarray(s.ini_cond()), onp.eye(m)[ori], f'{m} orientations')
    mon.sig('misc', 'many-orientations')


RUN = dict(ode=ode, run=run, melt=melt, misc=misc)
