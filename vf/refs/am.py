"""Independent dense reference of one AM_3d step (numpy), and a generator of realistic problems."""
import numpy as np

from vf.refs import fv


def cp_np(T):
    return .2441 * np.clip(T, 300, 1563) + 338.39


def k_np(T):
    return .0163105 * np.clip(T, 300, 1563) + 4.5847


def fluid(T, a):
    return np.clip((T - a['Ts']) / (a['Tl'] - a['Ts']), 0., 1.)


def laser(t, a):
    return a['X0'][0] + t * a['speed'], a['X0'][1], a['X0'][2], (a['P'] if t < a['t_OFF'] else 0.)


def gauss(x, y, xl, yl, r):
    return 2 / np.pi / r**2 * np.exp(-2 * ((x - xl)**2 + (y - yl)**2) / r**2)


def top_flux(box, T_top, t, a):
    """net heat flux into the top surface"""
    xl, yl, _, P = laser(t, a)
    q = -a['h'] * (T_top - a['T_ref']) - a['stefan_boltzmann'] * a['emissivity'] * (T_top**4 - a['T_ref']**4)
    if a['heat_source'] == 0:
        c = box.c[box.side(5)[0]]
        q = q + P * a['eta'] * gauss(c[:, 0], c[:, 1], xl, yl, a['rb'])
    return q


def body_source(box, t, a):
    if a['heat_source'] != 1:
        return np.zeros(box.n)
    xl, yl, zl, P = laser(t, a)
    d = a['phi'] * a['P'] / a['speed'] / a['rb']**2
    c = box.c
    return P * a['eta'] / d * gauss(c[:, 0], c[:, 1], xl, yl, a['rb']) * (zl - c[:, 2] <= d)


def energy_fn(box, T0, convT, t, a):
    """residual function of the implicit temperature step; T0, convT flat"""
    cp = cp_np(T0) + a['latent_heat'] / (a['Tl'] - a['Ts']) * ((T0 > a['Ts']) & (T0 < a['Tl']))
    top = box.side(5)[0]
    q = top_flux(box, T0[top], t, a)
    Q = body_source(box, t, a)
    bt = [1] * 6
    bv = [np.zeros(len(box.side(i)[0])) for i in range(5)] + [q]

    def f(T):
        return fv.residual(box, T, -a['rho'] * cp * (T - T0) / a['dt'] - a['rho'] * cp * convT + Q, k_np, bt, bv)
    return f, cp, q, Q


def sparse_newton(box, f, T, it=40, tol=1e-11):
    """Newton with a finite-difference Jacobian of 7-point sparsity (coloured by (i+2j+3k) mod 7)."""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    ijk = np.stack(np.meshgrid(*[np.arange(m) for m in box.N], indexing='ij'), -1).reshape(-1, 3)
    col = (ijk @ np.array([1, 2, 3])) % 7
    nbr = [(np.arange(box.n), np.arange(box.n))]
    for p, q, _, _ in box.faces():
        nbr += [(p, q), (q, p)]
    I = np.concatenate([p for p, _ in nbr])
    Jc = np.concatenate([q for _, q in nbr])
    r = f(T)
    r0 = np.abs(r).max()
    for _ in range(it):
        s = 1e-6 * (1 + np.abs(T).max())
        D = np.stack([(f(T + s * (col == c)) - f(T - s * (col == c))) / (2 * s) for c in range(7)], 1)
        A = sp.csc_matrix((D[I, col[Jc]], (I, Jc)), shape=(box.n, box.n))
        if np.abs(r).max() <= tol * r0 + 1e-300:
            break
        T = T - sl.spsolve(A, r)
        r = f(T)
    return T, A


def marangoni(T_top, dX, a):
    """surface shear rate du/dz, dv/dz, 0 from the temperature field of the top layer [nx, ny]"""
    g = np.zeros(T_top.shape + (3,))
    p = np.pad(T_top, 1, 'edge')
    c = a['Marangoni'] / a['visco'] * fluid(T_top, a)
    g[..., 0] = (p[2:, 1:-1] - p[:-2, 1:-1]) / 2 / dX[0] * c
    g[..., 1] = (p[1:-1, 2:] - p[1:-1, :-2]) / 2 / dX[1] * c
    return g


def vel_bcs(T_top, dX, a):
    z = np.zeros(3)
    return [[0, 0, 0, 0, 0, 2], [z] * 5 + [marangoni(T_top, dX, a)[:, :, None, :]]]


def momentum_fn(box, i, u0, conv, gp, fl, T_top, a):
    """residual function of the implicit velocity component i (flat arrays)"""
    bt = [0] * 6
    bv = [np.zeros(len(box.side(j)[0])) for j in range(6)]
    if i < 2:
        bt[5] = 1
        bv[5] = marangoni(T_top, box.h, a)[..., i].reshape(-1) * a['visco']
    darcy = 1e7 * a['rho'] * (1 - fl)**2 / (fl**3 + 1e-5)

    def f(u):
        return fv.residual(box, u, -a['rho'] * (u - u0) / a['dt'] - a['rho'] * conv - gp - darcy * u, a['visco'], bt, bv)
    return f, darcy


def pressure_gradient(box, vel, T_top, a):
    """gradient of the pressure correction for a predicted velocity [nx,ny,nz,3], zero normal derivative at the walls"""
    uf = fv.face_vels(vel, box.h, vel_bcs(T_top, box.h, a))
    d = sum((fv.take(uf[ax], ax, 1, box.N[ax] + 1) - fv.take(uf[ax], ax, 0, box.N[ax])) / box.h[ax] for ax in range(3))[..., 0]
    rhs = d.reshape(-1) * a['rho'] / a['dt']
    L = np.zeros((box.n, box.n))
    for p, q, dist, A in box.faces():
        w = A / dist / box.V
        L[p, q] += w
        L[q, p] += w
        L[p, p] -= w
        L[q, q] -= w
    p = np.linalg.lstsq(L, rhs, rcond=1e-13)[0] if box.n > 1 else np.zeros(1)
    return fv.gradient(p.reshape(box.N + [1]), box.h), rhs, p


def box_bounds(N, n, dX, t, a):
    xl, yl, _, _ = laser(t, a)
    out = []
    for ax, xx in ((0, xl), (1, yl)):
        s = min(max(round(xx / dX[ax]) - round(n[ax] / 2), 0), N[ax] - n[ax])
        out += [s, s + n[ax]]
    return out + [N[2] - n[2], N[2]]


def problem(rng, N, local=None, heat_source=None, **over):
    """a realistic AM set-up: (args without meshes, Box, local Box)"""
    dX = rng.uniform(.6, 1.6, 3) * 1e-5
    L = dX * N
    local = list(N) if local is None else list(local)
    hs = int(rng.integers(2)) if heat_source is None else heat_source
    a = dict(rho=float(rng.uniform(4000, 9000)), visco=float(rng.uniform(3e-3, 1e-2)), Marangoni=float(rng.choice([-1, 1]) * rng.uniform(1e-5, 4e-4)),
             dt=float(10.**rng.uniform(-6.7, -5.7)), speed=float(rng.uniform(.2, 1.5)), rb=float(rng.uniform(2, 5) * dX[:2].max()),
             eta=float(rng.uniform(.2, .8)), P=float(rng.uniform(20, 200)), T_ref=float(rng.uniform(290, 500)), Ts=1563., Tl=1623.,
             latent_heat=float(rng.uniform(1e5, 3e5)), heat_source=hs, t_OFF=float(rng.uniform(1e-5, 1e-4)), write_sol_interval=int(rng.integers(1, 6)),
             check_sol_interval=10, h=float(rng.choice([0., 100., 1e5])), emissivity=float(rng.choice([0., .4, 1.])), stefan_boltzmann=5.67e-8,
             X0=[float(rng.uniform(.2, .6) * L[0]), float(rng.uniform(.2, .8) * L[1]), float(L[2])])
    if hs == 1:
        # absorption depth phi*P/speed/rb^2 a random fraction of the height
        a['phi'] = float(rng.uniform(.2, 1.1) * L[2] * a['speed'] * a['rb']**2 / a['P'])
    a.update(over)
    return a, fv.Box(L, list(N)), fv.Box(dX * local, local)


def build(a, box, loc, scratch, same=False):
    """the real solver on this set-up"""
    import jax.numpy as jnp
    from jax_am.cfd.cfd_am import AM_3d, mesh3d
    from jax_am.common import box_mesh
    import os
    args = dict(a)
    m = mesh3d([float(x) for x in box.L], list(box.N))
    args['mesh'] = m
    args['mesh_local'] = m if same else mesh3d([float(x) for x in loc.L], list(loc.N))
    args['meshio_mesh'] = box_mesh(*box.N, *[float(x) for x in box.L])
    args['cp'] = lambda T: .2441 * jnp.clip(T, 300, 1563) + 338.39
    args['k'] = lambda T: .0163105 * jnp.clip(T, 300, 1563) + 4.5847
    args['data_dir'] = os.path.join(scratch, 'data')
    return AM_3d(args)


def field(rng, box, lo=300., hi=2600.):
    """random smooth-plus-rough temperature field, kept away from the discontinuities of the effective heat capacity"""
    c = box.c / box.L
    T = lo + (hi - lo) * np.exp(-rng.uniform(1, 8) * ((c - rng.uniform(0, 1, 3))**2).sum(1)) * rng.uniform(.5, 1)
    T = T + rng.normal(size=box.n) * rng.choice([0., 5., 100.])
    T = np.clip(T, 290., 3000.)
    for s in (1563., 1623.):
        T = np.where(np.abs(T - s) < 1e-6, s + 1., T)
    return T
