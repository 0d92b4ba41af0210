"""Independent numpy reference of the free-surface thermal lattice-Boltzmann solver, and drivers of the real one."""
import numpy as np

LIQ, LG, GAS, WALL = 0, 1, 2, 3

E = np.array([(0, 0, 0)] + [(s, 0, 0) for s in (1, -1)] + [(0, s, 0) for s in (1, -1)] + [(0, 0, s) for s in (1, -1)]
             + [(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if abs(a) + abs(b) + abs(c) == 2])
W = np.array([1 / 3] + [1 / 18] * 6 + [1 / 36] * 12)
OPP = np.array([int(np.where((E == -e).all(1))[0][0]) for e in E])


def shift(a, e):
    """value at x + e (periodic; only used next to the wall shell)"""
    return np.roll(a, (-e[0], -e[1], -e[2]), (0, 1, 2))


class Units:
    def __init__(self, A):
        v = lambda k: A[k]['value']
        L, t, rho, Tm, Mm = v('h'), v('dt'), v('rho0'), v('T0'), v('M0')
        M = rho * L**3
        En = M * L**2 / t**2
        self.L, self.t, self.rho, self.T = L, t, rho, Tm
        self.g = v('gravity') / (L / t**2)
        self.nu = v('dynamic_viscosity') / rho / (L**2 / t)
        self.st = v('st_coeff') / (M / t**2)
        self.stg = v('st_grad_coeff') / (M / t**2 / Tm)
        self.rp = v('rp_coeff') * 101325 / (M / L / t**2)
        # Clausius-Clapeyron exponent: latent heat per mole over R T
        self.evap = v('latent_heat_evap') * v('M0') / 8.314 / Tm
        self.Tevap = v('T_evap') / Tm
        self.P = v('laser_power') / (En / t) * v('absorbed_fraction')
        self.r = v('beam_size') / L
        self.cp = v('heat_capacity') / (En / M / Tm)
        self.al, self.as_ = [v(k) / (L**2 / t) for k in ('thermal_diffusivitity_l', 'thermal_diffusivitity_s')]
        self.sb = 5.67e-8 * v('emissivity') / (M / t**3 / Tm**4)
        self.hc = v('h_conv') / (M / t**3 / Tm)
        self.Ts, self.Tl = v('T_solidus') / Tm, v('T_liquidus') / Tm
        self.Hs, self.Hl = v('enthalpy_s') / (En / M), v('enthalpy_l') / (En / M)


def path(A):
    """laser position and state of every sample, segment by segment"""
    x, y, sw = A['laser_path']['x_pos'], A['laser_path']['y_pos'], A['laser_path']['switch']
    out = []
    for i in range(len(x) - 1):
        T = np.hypot(x[i + 1] - x[i], y[i + 1] - y[i]) / A['scanning_vel']['value']
        n = int(np.floor((T + 1e-10) / A['dt']['value'])) + 1
        s = np.linspace(0, 1, n) if n > 1 else np.zeros(1)
        out += [(x[i] + (x[i + 1] - x[i]) * k, y[i] + (y[i + 1] - y[i]) * k, sw[i]) for k in s]
    return out


def feq(rho, u):
    eu = u @ E.T
    return W * rho[..., None] * (1 + 3 * eu + 4.5 * eu**2 - 1.5 * (u**2).sum(-1)[..., None])


class Sim:
    def __init__(self, A, phase, fluid_only=False):
        self.A, self.U, self.only = A, Units(A), fluid_only
        self.ph = np.array(phase)
        N = self.ph.shape
        self.N = N
        self.f = np.tile(W, N + (1,))
        self.h = np.tile(W, N + (1,)) * self.U.cp
        near = np.zeros(N, bool)
        for e in E[1:]:
            near |= shift(self.ph, e) == LIQ
        new = (self.ph == GAS) & near
        self.ph[new] = LG
        self.f[new] = W
        self.h[new] = self.heq(np.array([self.U.cp]), np.ones(1), np.zeros((1, 3)))[0]
        self.mass = np.where(self.ph == LG, .5, 1.)
        self.mass[new] = .5
        self.total = self.total_mass()
        self.melted = np.zeros(N)
        self.kappa = np.zeros(N)
        self.path = path(A)
        self.c = np.stack(np.meshgrid(*[np.arange(n) + .5 for n in N], indexing='ij'), -1)
        self.n = 0
        self.tie = ''

    def total_mass(self):
        return self.f.sum(-1)[self.ph == LIQ].sum() + self.mass[self.ph == LG].sum()

    def heq(self, H, T, u):
        cp = self.U.cp
        eu = u @ E.T
        g = W * cp * T[..., None] * (1 + 3 * eu + 4.5 * eu**2 - 1.5 * (u**2).sum(-1)[..., None])
        g[..., 0] = H - cp * T + W[0] * cp * T * (1 - 1.5 * (u**2).sum(-1))
        return g

    def temp(self, H):
        U = self.U
        return np.where(H < U.Hs, H / U.cp, np.where(H < U.Hl, U.Ts + (H - U.Hs) / (U.Hl - U.Hs) * (U.Tl - U.Ts), U.Tl + (H - U.Hl) / U.cp))

    def grad(self, a):
        return np.stack([(shift(a, e) - shift(a, -e)) / 2 for e in np.eye(3, dtype=int)], -1)

    def curvature(self, vof, hint):
        phi = self.grad(vof)
        ks = []
        for ax in range(3):
            Hh = sum(np.roll(vof, k, ax) for k in range(-3, 4))
            a, b = [np.eye(3, dtype=int)[k] for k in range(3) if k != ax]
            S = lambda e: shift(Hh, e)
            Ha, Hb = (S(a) - S(-a)) / 2, (S(b) - S(-b)) / 2
            Haa, Hbb = S(a) - 2 * Hh + S(-a), S(b) - 2 * Hh + S(-b)
            Hab = (S(a + b) - S(b - a) - S(a - b) + S(-a - b)) / 4
            ks.append(-(Haa + Hbb + Haa * Hb**2 + Hbb * Ha**2 - 2 * Hab * Ha * Hb) / (1 + Ha**2 + Hb**2)**1.5)
        ks = np.stack(ks, -1)
        p = np.abs(phi)
        pick = np.where((p[..., 0] >= p[..., 1]) & (p[..., 0] >= p[..., 2]), 0, np.where((p[..., 1] >= p[..., 0]) & (p[..., 1] >= p[..., 2]), 1, 2))
        kap = np.take_along_axis(ks, pick[..., None], -1)[..., 0]
        # direction choices that are equal up to round-off: follow the recorded curvature among the tied candidates
        self.amb = np.zeros(self.N, bool)
        if self.n > 0:
            top = p.max(-1, keepdims=True)
            tied = p > top - 1e-11
            self.amb = (tied & (np.abs(ks - kap[..., None]) > 1e-9)).any(-1)
            if hint is not None and self.amb.any():
                d = np.where(tied, np.abs(ks - hint[..., None]), np.inf)
                j = d.argmin(-1)[..., None]
                ok = np.take_along_axis(d, j, -1)[..., 0] < 1e-5 * (1 + np.abs(hint))
                kap = np.where(self.amb & ok, np.take_along_axis(ks, j, -1)[..., 0], kap)
        return phi, kap

    def laser(self, i):
        x, y, s = self.path[i]
        return x / self.U.L, y / self.U.L, s

    def step(self, hint=None):
        U, ph, N = self.U, self.ph, self.N
        if self.only:
            self.h = np.tile(W, N + (1,)) * (U.Hl + 1.)
        f, h = self.f, self.h
        np.seterr(all='ignore')
        rho, H = f.sum(-1), h.sum(-1)
        T = self.temp(H)
        fluid = (ph == LIQ) | (ph == LG)
        if (np.abs(T - U.Ts)[fluid] < 1e-9).any():
            self.tie = 'solidus'
        vof = np.select([ph == LIQ, ph == LG, ph == GAS], [rho, self.mass, 0. * rho], 1.)
        phi, kap = self.curvature(vof, hint)
        # temperature gradient: gas and wall neighbours count as the cell itself
        gT = np.zeros(N + (3,))
        for a, e in enumerate(np.eye(3, dtype=int)):
            v = [np.where(shift(ph, s * e) >= GAS, T, shift(T, s * e)) for s in (1, -1)]
            gT[..., a] = (v[0] - v[1]) / 2
        np_ = np.linalg.norm(phi, axis=-1)
        with np.errstate(all='ignore'):
            nrm = np.nan_to_num(phi / np_[..., None], nan=0., posinf=0., neginf=0.)
            rec = np.where(T > 0, U.rp * np.exp(U.evap * (T - U.Tevap) / np.where(T > 0, T, 1.) / U.Tevap), 0.)
        tang = gT - (nrm * gT).sum(-1)[..., None] * nrm
        F = (rho[..., None] * np.array([0, 0, -U.g]) + U.st * kap[..., None] * phi + U.stg * tang * (np_ * 2 * vof)[..., None] + rec[..., None] * phi)
        x, y, sw = self.laser(self.n + 1)
        q = sw * U.P * 2 / np.pi / U.r**2 * np.exp(-2 * ((self.c[..., 0] - x)**2 + (self.c[..., 1] - y)**2) / U.r**2)
        S = np.maximum(-phi[..., 2], 0) * q * 2 * vof + np_ * 2 * vof * (U.hc * (1 - T) + U.sb * (1 - T**4))
        self.heat = np.where(fluid, S, 0.)
        r1 = np.where(rho == 0, 1., rho)
        u = (f @ E + .5 * F) / r1[..., None]
        u[(rho == 0) | (T < U.Ts)] = 0.
        solid = T < U.Ts
        # collision
        tau = 3 * U.nu + .5
        eu, ef, uF = u @ E.T, F @ E.T, (u * F).sum(-1)[..., None]
        force = (1 - .5 / tau) * W * (3 * (ef - uF) + 9 * eu * ef)
        fc = np.where(solid[..., None], W * rho[..., None], f + (feq(rho, u) - f) / tau + force)
        th = 3 * np.where(solid, U.as_, U.al) + .5
        hc = h + (self.heq(H, T, u) - h) / th[..., None] + (S / r1)[..., None] * W
        fc[~fluid] = 0.
        hc[~fluid] = 0.
        # streaming
        fn, hn = np.zeros_like(f), np.zeros_like(h)
        fg = feq(np.ones(N), u)
        for k, e in enumerate(E):
            src = shift(ph, -e)
            fn[..., k] = np.select([src == GAS, src == WALL], [fg[..., k] + fg[..., OPP[k]] - fc[..., OPP[k]], fc[..., OPP[k]]], shift(fc[..., k], -e))
            hn[..., k] = np.select([src == GAS, src == WALL], [hc[..., OPP[k]], W[k] * U.cp + 0 * T], shift(hc[..., k], -e))
        dm = np.zeros(N)
        for k, e in enumerate(E[1:], 1):
            nb = shift(ph, e)
            ex = shift(fc[..., OPP[k]], e) - fc[..., k]
            dm += np.select([nb == LIQ, nb == LG], [ex, ex * .5 * (vof + shift(vof, e))], 0.)
        fn[~fluid] = 0.
        hn[~fluid] = 0.
        mass = np.select([ph == LIQ, ph == LG], [rho, self.mass + dm], 0.)
        rn = fn.sum(-1)
        # conversions
        lg = ph == LG
        if (np.abs(mass - 1.001 * rn)[lg] < 1e-10).any() or (np.abs(mass + .001 * rn)[lg] < 1e-10).any():
            self.tie = 'filling threshold'
        ph = np.where(lg & (mass > 1.001 * rn), LIQ, ph)
        nbr = lambda cond: np.stack([shift(cond, e) for e in E[1:]])
        grow = (ph == GAS) & nbr(ph == LIQ).any(0)
        ok = ph <= LG
        cnt = sum(shift(ok, e).astype(float) for e in E)
        avg = lambda a: sum(shift(np.where(ok.reshape(N + (1,) * (a.ndim - 3)), a, 0.), e) for e in E) / np.where(cnt > 0, cnt, 1).reshape(N + (1,) * (a.ndim - 3))
        ra, ua, Ha, Ta = avg(rho), avg(u), avg(H), avg(T)
        fn = np.where(grow[..., None], feq(ra, ua), fn)
        hn = np.where(grow[..., None], self.heq(Ha, Ta, ua), hn)
        mass = np.where(grow, 0., mass)
        ph = np.where(grow, LG, ph)
        rn = fn.sum(-1)
        ph = np.where((ph == LG) & (mass < -.001 * rn), GAS, ph)
        shrink = (ph == LIQ) & nbr(ph == GAS).any(0)
        mass = np.where(shrink, rn, mass)
        ph = np.where(shrink, LG, ph)
        noliq, nogas = ~nbr(ph == LIQ).any(0), ~nbr(ph == GAS).any(0)
        ph = np.where(ph == LG, np.where(noliq, GAS, np.where(nogas, LIQ, LG)), ph)
        self.f, self.h, self.ph, self.mass = fn, hn, ph, mass
        nlg = (ph == LG).sum()
        if nlg:
            self.mass = np.where(ph == LG, mass + (self.total - self.total_mass()) / nlg, mass)
        off = ph >= GAS
        self.f[off] = 0.
        self.h[off] = 0.
        self.mass = np.where(off, 0., self.mass)
        self.melted = np.where(T > U.Ts, 1., self.melted)
        self.kappa, self.T0, self.u = kap, T, u
        self.n += 1

    def out(self):
        U = self.U
        rho = self.f.sum(-1)
        r1 = np.where(rho == 0, 1., rho)
        v = np.where((self.ph == LIQ)[..., None], self.f @ E / r1[..., None], 0.)
        return dict(phase=self.ph, mass=self.mass, rho=r1 * U.rho, kappa=self.kappa, vel=v * U.L / U.t, T=self.temp(self.h.sum(-1)) * U.T, melted=self.melted)


# ---- driving the real solver ------------------------------------------------------------------------------------
BASE = dict(h=6e-6, dt=2e-7, rho0=8440., T0=300., M0=6.14e-2, gravity=9.8, dynamic_viscosity=.007, st_coeff=1.8, st_grad_coeff=-2e-5, rp_coeff=.54,
            laser_power=100., beam_size=2.5e-5, absorbed_fraction=.4, scanning_vel=.4, heat_capacity=588.23, thermal_diffusivitity_l=5.769e-6,
            thermal_diffusivitity_s=1.885e-6, emissivity=.3, h_conv=100., latent_heat_fusion=2.557e5, latent_heat_evap=6.173e6,
            T_liquidus=1623., T_solidus=1563., T_evap=3000.)


def params(N, steps=10, xy=None, interval=1, **over):
    p = dict(BASE, **over)
    A = {k: dict(value=v, unit='', comment='') for k, v in p.items()}
    for k, n in zip(('Nx', 'Ny', 'Nz'), N):
        A[k] = dict(value=int(n), unit='', comment='')
    A['enthalpy_s'] = dict(value=p['heat_capacity'] * p['T_solidus'])
    A['enthalpy_l'] = dict(value=p['heat_capacity'] * p['T_liquidus'] + p['latent_heat_fusion'])
    if xy is None:      # one straight segment taking the wanted number of steps
        x0, y0 = N[0] * .4 * p['h'], N[1] * .5 * p['h']
        d = (steps + .4) * p['dt'] * p['scanning_vel']
        xy = dict(x_pos=[x0, x0 + d], y_pos=[y0, y0], switch=[1, 0])
    A['laser_path'] = xy
    A['output_interval'] = interval
    return A


def shell(ph):
    for ax in range(3):
        for k in (0, -1):
            s = [slice(None)] * 3
            s[ax] = k
            ph[tuple(s)] = WALL
    return ph


class Recorder:
    """stands in for the meshio mesh: same geometry, keeps what would be written"""

    def __init__(self, N):
        from jax_am.common import box_mesh
        m = box_mesh(*N, *N)
        self.points, self.cells_dict, self.cells = m.points, m.cells_dict, m.cells
        self.cell_data = {}
        self.N = tuple(N)
        self.log = []

    def write(self, path, *a, **k):
        import os
        d = {}
        for key, v in self.cell_data.items():
            v = np.array(v[0], dtype=float)
            d[key] = v.reshape(self.N + (3,)) if key == 'vel' else v.reshape(self.N)
        self.log.append((os.path.basename(path), os.path.dirname(path), d))


def run_real(A, phase, scratch, fluid_only=False, x64=True, mesh=None):
    import contextlib
    import io
    import jax
    import jax.numpy as jnp
    jax.config.update('jax_enable_x64', bool(x64))
    from jax_am.lbm.core import simulation
    N = phase.shape
    rec = Recorder(N) if mesh is None else mesh
    with contextlib.redirect_stdout(io.StringIO()):
        simulation(A, scratch, rec, jnp.array(phase, dtype=jnp.int64 if x64 else jnp.int32), fluid_only=fluid_only)
    jax.config.update('jax_enable_x64', True)
    return rec


def geometry(rng, N, kind):
    """initial phases inside a wall shell"""
    ph = np.full(N, GAS)
    x, y, z = np.indices(N) + .5
    bed = rng.uniform(.35, .6) * N[2]
    if kind == 'pool':
        ph[z < bed + .8 * rng.normal(size=N[:2])[:, :, None]] = LIQ
    elif kind == 'flat':
        ph[z < int(bed) + .1] = LIQ
    elif kind == 'powder':
        ph[z < int(bed)] = LIQ
        for _ in range(4):
            r = rng.uniform(1.5, 2.6)
            ph[(x - rng.uniform(2, N[0] - 2))**2 + (y - rng.uniform(2, N[1] - 2))**2 + (z - int(bed) - r)**2 < r**2] = LIQ
    elif kind == 'drop':
        c, r = [n / 2 + rng.uniform(-1, 1) for n in N], rng.uniform(2.1, 3.2)
        ph[((x - c[0]) / rng.uniform(.8, 1.2))**2 + ((y - c[1]) / rng.uniform(.8, 1.2))**2 + (z - c[2])**2 < r**2] = LIQ
    elif kind == 'bubble':
        ph[:] = LIQ
        c, r = [n / 2 + rng.uniform(-1, 1) for n in N], rng.uniform(1.8, 3.)
        ph[(x - c[0])**2 + (y - c[1])**2 + (z - c[2])**2 < r**2] = GAS
    elif kind == 'dam':
        ph[(x < rng.uniform(.35, .6) * N[0]) & (z < rng.uniform(.6, .9) * N[2])] = LIQ
    elif kind == 'obstacle':
        ph[z < bed + .6 * rng.normal(size=N[:2])[:, :, None]] = LIQ
        for _ in range(3):
            i = [int(rng.integers(2, n - 2)) for n in N]
            ph[i[0], i[1]:i[1] + 2, :i[2]] = WALL
    return shell(ph)
