"""Independent phase-field reference (numpy): energy, right-hand side, explicit Euler; polycrystal file writer."""
import os
import numpy as np
from types import SimpleNamespace


def zeta(T, a):
    T = np.minimum(T, 2000.)
    return .5 * (1 - np.tanh(np.clip(1e10 * (T / a['T_liquidus'] - 1), -40, 40)))


def mobility(T, a):
    T = np.minimum(T, 2000.)
    return a['L0'] * np.exp(-a['Qg'] / (T * a['gas_const']))


def second_diff(e, ax, h):
    """No-flux second difference: face fluxes summed per cell."""
    n = e.shape[ax]
    out = np.zeros_like(e)
    if n > 1:
        lo = [slice(None)] * e.ndim
        hi = [slice(None)] * e.ndim
        lo[ax], hi[ax] = slice(0, n - 1), slice(1, n)
        f = (e[tuple(hi)] - e[tuple(lo)]) / h**2
        out[tuple(lo)] += f
        out[tuple(hi)] -= f
    return out


def grid(eta, a):
    return eta.reshape(a['Nz'], a['Ny'], a['Nx'], a['num_oris'])


def aniso(e, a, dirs):
    """1 + c (cos^4 t + sin^4 t) with t the smallest angle between the order-parameter gradient and the cube axes."""
    c = np.zeros(e.shape + (3,))
    for k, ax in enumerate((2, 1, 0)):      # x, y, z
        n = e.shape[ax]
        i = np.arange(n)
        c[..., k] = np.take(e, np.minimum(i + 1, n - 1), ax) - np.take(e, np.maximum(i - 1, 0), ax)
    nrm = np.sqrt((c**2).sum(-1))
    best = np.zeros(e.shape)
    for d in range(3):
        cs = np.abs((c * dirs[d]).sum(-1)) / np.where(nrm == 0, 1, nrm)
        best = np.maximum(best, np.minimum(cs, 1.))
    best = np.where(nrm == 0, 1., best)
    c2 = best**2
    return 1 + a['anisotropy'] * (c2**2 + (1 - c2)**2)


def bulk_grad(eta, T, a):
    s = (eta**2).sum(1, keepdims=True)
    z = zeta(T, a)
    return a['m_g'] * (eta**3 - eta + 4 * eta * (s - eta**2) + 2 * (1 - z)**2 * eta) / a['ad_hoc']


def rhs(eta, T, a, h, dirs):
    e = grid(eta, a)
    lap = second_diff(e, 2, h[0]) + second_diff(e, 1, h[1]) + second_diff(e, 0, h[2])
    if a['anisotropy'] > 0:
        lap = lap * aniso(e, a, dirs)
    return -mobility(T, a) * (bulk_grad(eta, T, a) - a['kappa_g'] * a['ad_hoc'] * lap.reshape(eta.shape))


def energy(eta, T, a, h):
    """Total (isotropic) free energy per cell volume."""
    z = zeta(T, a)
    s = (eta**2).sum(1)
    q = (eta**4).sum(1)
    w = a['m_g'] * (q / 4 - s / 2 + (s**2 - q) + (1 - z[:, 0])**2 * s) / a['ad_hoc']
    e = grid(eta, a)
    g = sum((np.diff(e, axis=ax)**2).sum() / hh**2 for ax, hh in ((2, h[0]), (1, h[1]), (0, h[2])))
    return w.sum() + .5 * a['kappa_g'] * a['ad_hoc'] * g


def rotations(rng, n):
    q = rng.normal(size=(n, 4))
    return q / np.linalg.norm(q, axis=1)[:, None]


def rotate(q, v):
    """Rotation of v by unit quaternions q (scalar first)."""
    w, u = q[:, :1], q[:, 1:]
    v = np.broadcast_to(v, u.shape)
    return v + 2 * np.cross(u, np.cross(u, v) + w * v)


def dirs_of(q):
    return np.stack([rotate(q, np.eye(3)[k]) for k in range(3)])


def args(rng, n=None, num_oris=None, aniso=None):
    if n is None:
        n = [int(k) for k in rng.integers(1, 8, 3)]
    h = 1e-6 * rng.uniform(.5, 3., 3)
    a = dict(dim=3, num_oris=int(num_oris or rng.integers(1, 9)), Nx=n[0], Ny=n[1], Nz=n[2], T_liquidus=float(rng.choice([1623., 1733.])),
             T_ambient=300., gas_const=8.3, Qg=1.4e5, L0=3.5e3, kappa_g=2.77e-6, m_g=2.4e5,
             anisotropy=float(rng.choice([0., .15, .4]) if aniso is None else aniso), ad_hoc=float(rng.choice([1., 1., .4, 3.])),
             write_sol_interval=1)
    a['domain_x'], a['domain_y'], a['domain_z'] = [float(k * hh) for k, hh in zip(n, h)]
    return a, tuple(float(k) for k in h)


def crystal(h, dirs, a):
    return SimpleNamespace(mesh_h_xyz=h, unique_grain_directions=dirs)


def temperature(rng, a, N):
    Tl = a['T_liquidus']
    T = rng.uniform(300., 1.1 * Tl, N)
    k = rng.random(N)
    T = np.where(k < .15, rng.uniform(2000., 4000., N), T)
    T = np.where((k > .15) & (k < .3), Tl * (1 + rng.choice([-1e-3, 1e-3], N)), T)
    T = np.where((k > .3) & (k < .36), Tl, T)
    return T[:, None]


def field(rng, a, N, cls):
    m = a['num_oris']
    if cls == 'random':
        return rng.uniform(-.2, 1.2, (N, m))
    if cls == 'grains':
        e = np.zeros((N, m))
        e[np.arange(N), rng.integers(0, m, N)] = 1.
        return e
    e = rng.dirichlet(np.ones(m), N)
    if cls == 'missing' and m > 1:
        e[:, rng.integers(m)] = 0.
    return e


# ---- a structured "Neper" output --------------------------------------------------------------------------------
def write_neper(folder, a, rng, grains):
    import meshio
    Nx, Ny, Nz = a['Nx'], a['Ny'], a['Nz']
    x, y, z = [np.linspace(0, a['domain_' + k], n + 1) for k, n in (('x', Nx), ('y', Ny), ('z', Nz))]
    P = np.array([(i, j, k) for k in z for j in y for i in x])
    pid = lambda i, j, k: i + (Nx + 1) * (j + (Ny + 1) * k)
    C = np.array([[pid(i, j, k), pid(i + 1, j, k), pid(i + 1, j + 1, k), pid(i, j + 1, k),
                   pid(i, j, k + 1), pid(i + 1, j, k + 1), pid(i + 1, j + 1, k + 1), pid(i, j + 1, k + 1)]
                  for k in range(Nz) for j in range(Ny) for i in range(Nx)])
    g = np.asarray(grains) + 1
    m = meshio.Mesh(P, [('hexahedron', C)], cell_data={'gmsh:physical': [g], 'gmsh:geometrical': [g]})
    os.makedirs(folder, exist_ok=True)
    m.write(os.path.join(folder, 'domain.msh'), file_format='gmsh22', binary=False)
    cor = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    with open(os.path.join(folder, 'domain.obj'), 'w') as f:
        for c in cor:
            f.write('v %.9g %.9g %.9g\n' % tuple(u * a['domain_' + k] for u, k in zip(c, 'xyz')))
        f.write('g poly1\n')
        for q in ((1, 2, 3, 4), (5, 6, 7, 8), (1, 2, 6, 5), (2, 3, 7, 6), (3, 4, 8, 7), (4, 1, 5, 8)):
            f.write('f ' + ' '.join(map(str, q)) + '\n')
    return P, C
