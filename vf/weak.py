"""Random weak forms, given both to the real FEM code (jax functions) and to a numpy reference assembly."""
import numpy as onp

from vf.refs import fe
from vf import femutil as fu


class Form:
    """flux(g,*lv) = K:g + beta |g|^2 g + lv0 g ; mass(u,*mv) = a u + c u^3 + cm u + mv0 ;
    cauchy(u) = h u + r u^3 + cc u + k ; source(x), neumann(x,*nv) smooth."""

    def __init__(self, vec, dim, rng, spd=True, beta=.3, a=.5, c=.4, cauchy=True, nl_cauchy=True,
                 lv=False, mv=False, nv=False, has_mass=True, source=True):
        n = vec * dim
        M = rng.normal(size=(n, n)) * .25
        K = onp.eye(n) * 1.5 + (M @ M.T if spd else M)
        self.K = K.reshape(vec, dim, vec, dim)
        self.vec, self.dim = vec, dim
        self.beta = beta * rng.uniform(.5, 1.5)
        self.a = a * rng.uniform(.5, 1.5)
        self.c = c * rng.uniform(.5, 1.5)
        self.h = rng.uniform(.5, 1.5)
        self.r = rng.uniform(.2, .6) if nl_cauchy else 0.
        self.kc = rng.normal(size=vec)
        self.s0 = rng.normal(size=vec)
        self.s1 = rng.normal(size=(vec, dim))
        self.t0 = rng.normal(size=vec)
        self.t1 = rng.normal(size=(vec, dim))
        # component coupling of the zeroth-order terms, non-symmetric unless a symmetric form was asked for
        self.cm, self.cc = (onp.zeros((vec, vec)),) * 2 if spd else (rng.normal(size=(vec, vec)) * .15, rng.normal(size=(vec, vec)) * .3)
        self.lv, self.mv, self.nv, self.has_mass, self.src = lv, mv, nv, has_mass, source

    # every function takes the array module so that jax and numpy see the same formula
    def flux(self, xp, g, *lv):
        out = xp.einsum('aibj,bj->ai', xp.array(self.K), g) + self.beta * xp.sum(g * g) * g
        if lv:
            out = out + lv[0] * g + lv[1]
        return out

    def mass(self, xp, u, *mv):
        out = self.a * u + self.c * u**3 + xp.array(self.cm) @ u
        if mv:
            out = out + mv[0]
        if len(mv) > 1:
            out = out + mv[1] * u
        return out

    def cauchy(self, xp, u, k=0):
        return self.h * (1. + k) * u + self.r * u**3 + xp.array(self.kc) + xp.array(self.cc) @ u

    def source(self, xp, x):
        return xp.array(self.s0) + xp.array(self.s1) @ x + xp.sin(x[0]) * xp.array(self.s0)

    def neumann(self, xp, x, k, *nv):
        out = (xp.array(self.t0) + xp.array(self.t1) @ x) * (1. + k) + xp.cos(x[-1]) * xp.array(self.t0)
        if nv:
            out = out + nv[0]
        if len(nv) > 1:
            out = out + nv[1]**2
        return out


def make_class(FEM, np, form):
    class P(FEM):
        def get_tensor_map(self):
            return lambda g, *v: form.flux(np, g, *v)
    if form.has_mass:
        P.get_mass_map = lambda self: (lambda u, *v: form.mass(np, u, *v))
    return P


class Ref:
    """Numpy assembly of the same form.  Quadrature points/weights are the ones the code reports
    (property F01 decides that they are right); shape functions, gradients and normals are our own."""

    def __init__(self, et, P, C, vec, form, fem, cauchy_sides=(), neumann_sides=()):
        self.et, self.P, self.C, self.vec, self.form = et, P, C, vec, form
        xq = onp.asarray(fem.get_physical_quad_points())
        self.JxW = onp.asarray(fem.JxW)
        self.N, self.G = [], []
        for c in range(len(C)):
            xi = fe.inverse_map(et, P[C[c]], xq[c])
            _, _, G, N = fe.geom(et, P[C[c]], xi)
            self.N.append(N)
            self.G.append(G)
        self.N, self.G, self.xq = onp.array(self.N), onp.array(self.G), xq
        self.cau = [self._face(fem, f) for f in cauchy_sides]
        self.neu = [self._face(fem, f) for f in neumann_sides]

    def _face(self, fem, loc):
        bi = onp.asarray(fem.get_boundary_conditions_inds([loc])[0])
        xf = onp.asarray(fem.get_physical_surface_quad_points(bi))
        _, ns = fem.get_face_shape_grads(bi)
        Ns = []
        for i, (c, _) in enumerate(bi):
            X = self.P[self.C[c]]
            Ns.append(fe.geom(self.et, X, fe.inverse_map(self.et, X, xf[i]))[3])
        return bi[:, 0], xf, onp.asarray(ns), onp.array(Ns)

    def residual(self, u, lv=(), mv=(), nv=None, body=None):
        """lv, mv: lists of (cells, quads, ...) arrays; nv: per neumann side list of lists; body: replaces source."""
        f, C = self.form, self.C
        R = onp.zeros((len(self.P), self.vec))
        for c in range(len(C)):
            uc = u[C[c]]
            for q in range(self.JxW.shape[1]):
                w, N, G = self.JxW[c, q], self.N[c, q], self.G[c, q]
                g = uc.T @ G
                R_c = G @ f.flux(onp, g, *[v[c, q] for v in lv]).T * w
                if f.has_mass:
                    R_c = R_c + onp.outer(N, f.mass(onp, uc.T @ N, *[v[c, q] for v in mv])) * w
                if body is None and f.src:
                    R_c = R_c - onp.outer(N, f.source(onp, self.xq[c, q])) * w
                if body is not None:
                    R_c = R_c - onp.outer(N, body[1](body[0][C[c]].T @ N)) * w
                onp.add.at(R, C[c], R_c)
        for k, (cs, xf, ns, Ns) in enumerate(self.cau):
            for i, c in enumerate(cs):
                for q in range(len(xf[i])):
                    onp.add.at(R, C[c], onp.outer(Ns[i][q], f.cauchy(onp, u[C[c]].T @ Ns[i][q], k)) * ns[i, q])
        for k, (cs, xf, ns, Ns) in enumerate(self.neu):
            for i, c in enumerate(cs):
                for q in range(len(xf[i])):
                    v = [a[i, q] for a in nv[k]] if nv is not None else []
                    onp.add.at(R, C[c], -onp.outer(Ns[i][q], f.neumann(onp, xf[i][q], k, *v)) * ns[i, q])
        return R

    def jvp(self, u, du, eps=1e-4, **kw):
        return (self.residual(u + eps * du, **kw) - self.residual(u - eps * du, **kw)) / (2 * eps)
