"""Independent finite-element reference: shape functions, meshes, integration.

Nothing here imports jax_am or basix.  Node orderings are those of meshio/VTK.
"""
import itertools
import numpy as np

TYPES = ['HEX8', 'HEX20', 'HEX27', 'TET4', 'TET10', 'QUAD4', 'QUAD8', 'TRI3', 'TRI6']
DIM = dict(HEX8=3, HEX20=3, HEX27=3, TET4=3, TET10=3, QUAD4=2, QUAD8=2, TRI3=2, TRI6=2)
ORDER = dict(HEX8=1, HEX20=2, HEX27=2, TET4=1, TET10=2, QUAD4=1, QUAD8=2, TRI3=1, TRI6=2)
MESHIO = dict(HEX8='hexahedron', HEX20='hexahedron20', HEX27='hexahedron27', TET4='tetra', TET10='tetra10',
              QUAD4='quad', QUAD8='quad8', TRI3='triangle', TRI6='triangle6')

_HV = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
_HE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_QV = [(0, 0), (1, 0), (1, 1), (0, 1)]
_QE = [(0, 1), (1, 2), (2, 3), (3, 0)]
_TV = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
_TE = [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]
_RV = [(0, 0), (1, 0), (0, 1)]
_RE = [(0, 1), (1, 2), (2, 0)]


def _with_mid(v, e):
    v = [np.array(p, float) for p in v]
    return np.array(v + [(v[a] + v[b]) / 2 for a, b in e])


def ref_nodes(et):
    if et == 'HEX8':
        return np.array(_HV, float)
    if et == 'HEX20':
        return _with_mid(_HV, _HE)
    if et == 'HEX27':
        faces = [(0, .5, .5), (1, .5, .5), (.5, 0, .5), (.5, 1, .5), (.5, .5, 0), (.5, .5, 1), (.5, .5, .5)]
        return np.vstack((_with_mid(_HV, _HE), faces))
    if et == 'TET4':
        return np.array(_TV, float)
    if et == 'TET10':
        return _with_mid(_TV, _TE)
    if et == 'QUAD4':
        return np.array(_QV, float)
    if et == 'QUAD8':
        return _with_mid(_QV, _QE)
    if et == 'TRI3':
        return np.array(_RV, float)
    if et == 'TRI6':
        return _with_mid(_RV, _RE)
    raise KeyError(et)


def num_vertices(et):
    return dict(HEX=8, TET=4, QUA=4, TRI=3)[et[:3]]


def is_tensor(et):
    return et[:3] in ('HEX', 'QUA')


def exponents(et):
    """Monomials spanning the element's polynomial space."""
    d = DIM[et]
    k = ORDER[et]
    if et in ('HEX20', 'QUAD8'):
        # superlinear degree <= 2: factors of exponent 1 do not count
        return [e for e in itertools.product(range(3), repeat=d) if sum(i for i in e if i > 1) <= 2]
    if is_tensor(et):
        return list(itertools.product(range(k + 1), repeat=d))
    return [e for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]


def _mono(exps, x):
    x = np.atleast_2d(x)
    return np.stack([np.prod([x[:, j]**e[j] for j in range(x.shape[1])], axis=0) for e in exps], axis=1)


def _dmono(exps, x):
    x = np.atleast_2d(x)
    d = x.shape[1]
    out = np.zeros((len(x), len(exps), d))
    for i, e in enumerate(exps):
        for a in range(d):
            if e[a] == 0:
                continue
            t = e[a] * np.ones(len(x))
            for j in range(d):
                t = t * x[:, j]**(e[j] - 1 if j == a else e[j])
            out[:, i, a] = t
    return out


_VINV = {}


def shape(et, xi):
    """N (q, nodes), dN (q, nodes, dim) at reference points xi (q, dim)."""
    if et not in _VINV:
        ex = exponents(et)
        V = _mono(ex, ref_nodes(et))
        assert V.shape[0] == V.shape[1], (et, V.shape)
        _VINV[et] = (ex, np.linalg.inv(V))
    ex, C = _VINV[et]
    return _mono(ex, xi) @ C, np.einsum('qid,ij->qjd', _dmono(ex, xi), C)


def faces(et):
    """Local vertex sets and outward normals of the reference faces."""
    if et[:3] == 'HEX':
        out = []
        for ax in range(3):
            for s in (0, 1):
                n = np.zeros(3)
                n[ax] = 2 * s - 1
                out.append((frozenset(i for i, v in enumerate(_HV) if v[ax] == s), n))
        return out
    if et[:3] == 'QUA':
        out = []
        for ax in range(2):
            for s in (0, 1):
                n = np.zeros(2)
                n[ax] = 2 * s - 1
                out.append((frozenset(i for i, v in enumerate(_QV) if v[ax] == s), n))
        return out
    V = np.array(_TV if et[:3] == 'TET' else _RV, float)
    d = V.shape[1]
    out = []
    for ax in range(d):
        n = np.zeros(d)
        n[ax] = -1
        out.append((frozenset(i for i in range(d + 1) if V[i, ax] == 0), n))
    out.append((frozenset(range(1, d + 1)), np.ones(d) / np.sqrt(d)))
    return out


def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def ref_rule(et, n=6):
    """High-order quadrature on the reference element (own rule: Gauss / Duffy)."""
    return simplex_rule(DIM[et], n) if not is_tensor(et) else tensor_rule(DIM[et], n)


def tensor_rule(d, n):
    x, w = gauss01(n)
    P = np.array(list(itertools.product(x, repeat=d)))
    W = np.array([np.prod(c) for c in itertools.product(w, repeat=d)])
    return P, W


def simplex_rule(d, n):
    P, W = tensor_rule(d, n)
    if d == 1:
        return P, W
    if d == 2:
        u, v = P.T
        return np.stack((u, v * (1 - u)), 1), W * (1 - u)
    u, v, t = P.T
    return np.stack((u, v * (1 - u), t * (1 - u) * (1 - v)), 1), W * (1 - u)**2 * (1 - v)


def mono_integral(et, e):
    from math import factorial
    if is_tensor(et):
        return float(np.prod([1. / (k + 1) for k in e]))
    return float(np.prod([factorial(k) for k in e])) / factorial(sum(e) + len(e))


# ----------------------------------------------------------------- geometry
def geom(et, X, xi):
    """X (nodes, dim) -> x (q, dim), J (q, dim, dim)=dx/dxi, dN/dx (q, nodes, dim), N."""
    N, dN = shape(et, xi)
    J = np.einsum('na,qnb->qab', X, dN)
    G = np.einsum('qnb,qba->qna', dN, np.linalg.inv(J))
    return N @ X, J, G, N


def inverse_map(et, X, x, iters=30):
    """Reference coordinates of physical points x (q, dim)."""
    c = ref_nodes(et)[:num_vertices(et)].mean(0)
    xi = np.tile(c, (len(x), 1))
    for _ in range(iters):
        xx, J, _, _ = geom(et, X, xi)
        d = np.linalg.solve(J, (x - xx)[:, :, None])[:, :, 0]
        xi = xi + d
        if np.max(np.abs(d)) < 1e-14:
            break
    return xi


# ------------------------------------------------------------------- meshes
_HEXROT = None


def hex_rotations():
    global _HEXROT
    if _HEXROT is None:
        V = np.array(_HV) * 2 - 1
        out = []
        for p in itertools.permutations(range(3)):
            for s in itertools.product((1, -1), repeat=3):
                M = np.zeros((3, 3))
                for i in range(3):
                    M[i, p[i]] = s[i]
                if np.linalg.det(M) > 0:
                    out.append((M, [int(np.argmin(np.abs(V - M @ v).sum(1))) for v in V]))
        _HEXROT = out
    return _HEXROT


def _local_sym(et, rng):
    """Orientation-preserving renumbering of a cell's local nodes."""
    R = ref_nodes(et)
    if et[:3] == 'HEX':
        M, _ = hex_rotations()[rng.integers(24)]
        img = (R - .5) @ M.T + .5
    elif et[:3] == 'QUA':
        M = np.linalg.matrix_power(np.array([[0., -1.], [1., 0.]]), int(rng.integers(4)))
        img = (R - .5) @ M.T + .5
    else:
        d = DIM[et]
        V = R[:d + 1]
        while True:
            p = rng.permutation(d + 1)
            A = (V[p][1:] - V[p][0]).T
            if np.linalg.det(A) > 0:
                break
        img = R @ A.T + V[p][0]
    return [int(np.argmin(np.abs(R - v).sum(1))) for v in img]


def block(et, n):
    """Structured unit-box mesh: points in [0,1]^d, cells in meshio ordering."""
    d = DIM[et]
    k = ORDER[et]
    n = tuple(n)[:d]
    R = ref_nodes(et)
    keys, pts, cells = {}, [], []

    def node(ix):          # integer lattice coordinates at 2 per cell
        if ix not in keys:
            keys[ix] = len(pts)
            pts.append([ix[a] / (2 * n[a]) for a in range(d)])
        return keys[ix]

    if is_tensor(et):
        for c in itertools.product(*[range(m) for m in n]):
            cells.append([node(tuple(int(round(2 * (c[a] + r[a]))) for a in range(d))) for r in R])
    else:
        for c in itertools.product(*[range(m) for m in n]):
            for p in itertools.permutations(range(d)):
                v = [np.array(c)]
                for a in p:
                    w = v[-1].copy()
                    w[a] += 1
                    v.append(w)
                A = np.array([v[i + 1] - v[0] for i in range(d)], float)
                if np.linalg.det(A.T) < 0:
                    v[-1], v[-2] = v[-2], v[-1]
                B = np.array(v, float)
                cells.append([node(tuple(int(round(2 * (B[0][a] + sum(r[j] * (B[j + 1][a] - B[0][a])
                                                                      for j in range(d)))))
                                         for a in range(d))) for r in R])
    return np.array(pts), np.array(cells)


def make_mesh(et, n, rng, jitter=0., affine=True, lengths=None, shuffle=True, rotate=True, curved=0., grade=0.):
    """Distorted, renumbered box mesh.  Returns points, cells, unit (box coordinates of every node), A, b."""
    d = DIM[et]
    unit, cells = block(et, n)
    lengths = np.ones(d) if lengths is None else np.asarray(lengths, float)
    h = 1. / np.array(tuple(n)[:d])
    mov = unit.copy()
    nv = num_vertices(et)
    verts = np.unique(cells[:, :nv])
    if jitter:
        for i in verts:
            for a in range(d):
                if 1e-9 < unit[i, a] < 1 - 1e-9:
                    mov[i, a] += jitter * h[a] * rng.uniform(-1, 1)
        # non-vertex nodes follow the (multi-)linear map of their cell
        lin = {'HEX': 'HEX8', 'TET': 'TET4', 'QUA': 'QUAD4', 'TRI': 'TRI3'}[et[:3]]
        if et != lin:
            N, _ = shape(lin, ref_nodes(et))
            for c in cells:
                mov[c] = N @ mov[c[:nv]]
    if grade:
        # unequal cell layers (cells stay parallelepipeds): grid planes move, everything between follows linearly
        for a in range(d):
            k = np.arange(n[a] + 1.)
            k[1:-1] += grade * rng.uniform(-1, 1, n[a] - 1) if n[a] > 1 else 0.
            mov[:, a] = np.interp(mov[:, a], np.arange(n[a] + 1.) / n[a], k / n[a])
    if curved:
        for i in range(len(unit)):
            if np.all((unit[i] > 1e-9) & (unit[i] < 1 - 1e-9)) and i not in set(verts):
                mov[i] += curved * h * rng.uniform(-1, 1, d)
    if affine:
        while True:
            A = np.eye(d) + rng.uniform(-.35, .35, (d, d))
            if np.linalg.det(A) > .5:
                break
        A = A @ np.diag(lengths)
        b = rng.uniform(-1, 1, d)
    else:
        A, b = np.diag(lengths), np.zeros(d)
    pts = mov @ A.T + b
    if rotate:
        cells = np.array([c[_local_sym(et, rng)] for c in cells])
    if shuffle:
        p = rng.permutation(len(pts))
        inv = np.empty_like(p)
        inv[p] = np.arange(len(p))
        pts, unit = pts[p], unit[p]
        cells = inv[cells][rng.permutation(len(cells))]
    return pts, cells, unit, A, b


def integrate_cells(et, pts, cells, fn, n=6):
    """Integral of fn(x)->(q,k) over the mesh with the own high-order rule."""
    xi, w = ref_rule(et, n)
    tot = 0.
    for c in cells:
        x, J, _, _ = geom(et, pts[c], xi)
        tot = tot + ((np.linalg.det(J) * w)[:, None] * fn(x)).sum(0)
    return tot


def face_rule(et, f, n=5):
    """Own quadrature on reference face number f of faces(et): points xi, weights, tangents (d-1, d)."""
    vs, nrm = faces(et)[f]
    R = ref_nodes(et)
    d = DIM[et]
    v = sorted(vs)
    if is_tensor(et):
        o = R[v[0]]
        T = []
        for i in v[1:]:
            t = R[i] - o
            if abs(np.abs(t).sum() - 1) < 1e-12:
                T.append(t)
        T = np.array(T)
        P, W = tensor_rule(d - 1, n)
    else:
        o = R[v[0]]
        T = np.array([R[i] - o for i in v[1:]])
        P, W = simplex_rule(d - 1, n)
    return o + P @ T, W, T


def face_integrals(et, X, f, n=5):
    """x (q,d), weights*area (q,), unit outward normals (q,d), N(q,nodes) on face f of the cell with nodes X."""
    xi, w, T = face_rule(et, f, n)
    x, J, G, N = geom(et, X, xi)
    t = np.einsum('qab,kb->qka', J, T)
    if DIM[et] == 3:
        nv = np.cross(t[:, 0], t[:, 1])
    else:
        nv = np.stack((t[:, 0, 1], -t[:, 0, 0]), 1)
    area = np.linalg.norm(nv, axis=1)
    nv = nv / area[:, None]
    ref_n = faces(et)[f][1]
    out = np.einsum('a,qab->qb', ref_n, np.linalg.inv(J))
    s = np.sign(np.einsum('qa,qa->q', out, nv))
    return x, w * area, nv * s[:, None], N, G
