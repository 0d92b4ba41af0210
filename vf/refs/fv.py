"""Independent finite-volume reference (numpy, dense): operators on structured grids, Poisson-type steps, AM steps."""
import numpy as np


# ---- structured operators (explicit per-cell formulas) -----------------------------------------------------------
def ghost(t, v, nb, dx, side):
    """side -1/+1. t 0: face value v; t 1: derivative v along the +axis direction; 2: components 0,1 derivative, 2 value."""
    if t == 0:
        return 2 * v - nb + 0 * nb
    if t == 1:
        return nb + side * dx * v
    v = np.broadcast_to(v, nb.shape)
    g = nb + side * dx * v
    g[..., 2] = 2 * v[..., 2] - nb[..., 2]
    return g


def padded(f, ax, BCs, dX, width=1):
    n = f.shape[ax]
    sl = lambda i: np.take(f, [i], ax)
    lo = ghost(BCs[0][2 * ax], BCs[1][2 * ax], sl(0), dX[ax], -1)
    hi = ghost(BCs[0][2 * ax + 1], BCs[1][2 * ax + 1], sl(n - 1), dX[ax], 1)
    return np.concatenate([lo] * width + [f] + [hi] * width, ax)


ZERO = [[1] * 6, [0.] * 6]


def take(g, ax, a, b):
    s = [slice(None)] * g.ndim
    s[ax] = slice(a, b)
    return g[tuple(s)]


def laplace(f, mu, dX, BCs):
    """Sum over faces of mu * df/dn * area, per cell."""
    V = dX[0] * dX[1] * dX[2]
    out = np.zeros_like(f)
    for ax in range(3):
        p = padded(f, ax, BCs, dX)
        n = f.shape[ax]
        flux = (take(p, ax, 1, n + 2) - take(p, ax, 0, n + 1)) / dX[ax] * (V / dX[ax])
        flux = flux * (mu if np.isscalar(mu) else mu[ax])
        out = out + take(flux, ax, 1, n + 1) - take(flux, ax, 0, n)
    return out


def gradient(f, dX, BCs=ZERO):
    out = []
    for ax in range(3):
        p = padded(f, ax, BCs, dX)
        n = f.shape[ax]
        out.append((take(p, ax, 2, n + 2) - take(p, ax, 0, n)) / (2 * dX[ax]))
    return np.concatenate(out, -1)


def face_mean(f, ax, BCs, dX):
    p = padded(f, ax, BCs, dX)
    n = f.shape[ax]
    return (take(p, ax, 0, n + 1) + take(p, ax, 1, n + 2)) / 2


def face_vels(vel, dX, BCs):
    return [face_mean(vel, ax, BCs, dX)[..., [ax]] for ax in range(3)]


def div(f, vf, dX, theta=.125, BCs=ZERO):
    out = np.zeros_like(f)
    for ax in range(3):
        p = padded(f, ax, BCs, dX, 2)
        n = f.shape[ax]
        LL, L, R, RR = [take(p, ax, k, k + n + 1) for k in range(4)]
        u = vf[ax]
        up = np.where(u >= 0, 1.5 * L - .5 * LL, 1.5 * R - .5 * RR)
        face = (theta * .5 * (L + R) + (1 - theta) * up) * u
        out = out + (take(face, ax, 1, n + 1) - take(face, ax, 0, n)) / dX[ax]
    return out


# ---- implicit Poisson-type problems on 2-D / 3-D boxes ------------------------------------------------------------
class Box:
    def __init__(self, L, N):
        self.L, self.N, self.d = np.asarray(L, float), list(N), len(N)
        self.h = self.L / np.array(N)
        self.V = self.h.prod()
        self.n = int(np.prod(N))
        self.id = np.arange(self.n).reshape(N)
        self.c = np.stack(np.meshgrid(*[(np.arange(k) + .5) * hh for k, hh in zip(N, self.h)], indexing='ij'), -1).reshape(-1, self.d)

    def faces(self):
        """interior faces: (cell a, cell b, distance, area)"""
        for ax in range(self.d):
            a = np.take(self.id, range(self.N[ax] - 1), ax).reshape(-1)
            b = np.take(self.id, range(1, self.N[ax]), ax).reshape(-1)
            yield a, b, self.h[ax], self.V / self.h[ax]

    def side(self, i):
        ax, s = divmod(i, 2)
        return np.take(self.id, 0 if s == 0 else self.N[ax] - 1, ax).reshape(-1), self.h[ax], self.V / self.h[ax]


def residual(box, U, src, mu_fn, bct, bcv):
    """-(net diffusive inflow) - src*V - boundary inflow; src per cell. mu_fn None-able scalar or function."""
    mf = mu_fn if callable(mu_fn) else (lambda u: np.full(np.shape(u), float(mu_fn)))
    r = -src * box.V
    for a, b, d, A in box.faces():
        m = 2 * mf(U[a]) * mf(U[b]) / (mf(U[a]) + mf(U[b]))
        q = m * (U[b] - U[a]) / d * A       # into a
        np.add.at(r, a, -q)
        np.add.at(r, b, q)
    if bct is not None:
        for i in range(2 * box.d):
            c, d, A = box.side(i)
            q = mf(np.broadcast_to(bcv[i], c.shape)) * 2 * (bcv[i] - U[c]) / d * A if bct[i] == 0 else bcv[i] * A * np.ones(len(c))
            np.add.at(r, c, -q)
    return r


def jacobian(f, U, lin=False):
    n = len(U)
    J = np.zeros((n, n))
    s = 1. if lin else 1e-6 * (1 + np.abs(U).max())
    for j in range(n):
        e = np.zeros(n)
        e[j] = s
        J[:, j] = (f(U + e) - f(U - e)) / (2 * s)
    return J


def newton(f, U, it=30, tol=1e-12):
    r = f(U)
    r0 = np.abs(r).max()
    for _ in range(it):
        if np.abs(r).max() <= tol * r0 + 1e-300:
            break
        U = U - np.linalg.solve(jacobian(f, U), r)
        r = f(U)
    return U
