import numpy as onp
from vf.refs import fe
from vf import femutil as fu, weak

LEVEL = 'exploration'
RULE = ('signature = element type | vec | periodic directions | tied components | linear solver | linear flag; counted when '
        'a solved field was tested for periodicity, boundary values and balance of tied nodal forces')
ASSUMPTIONS = ['monotone problems (unique solution)', 'meshes whose opposite sides match node for node',
               'tolerances: 3e-6 after Newton iterations, 2e-3 relative for a single PETSc linear solve (its rtol is 1e-5)']
REQUIRED = {'periodic': 8, 'dirichlet': 8, 'tied-equilibrium': 8, 'reference-solution': 8}


def cases(tier, seed):
    out = []
    rng = onp.random.default_rng([seed, 606])
    reps = 1 if tier == 'quick' else 6
    confs = [('QUAD4', 1), ('TRI3', 1), ('QUAD8', 1), ('TRI6', 2), ('HEX8', 1), ('QUAD4', 2), ('TET4', 1), ('HEX8', 3),
             ('TRI3', 2), ('QUAD4', 2), ('QUAD4', 1), ('QUAD8', 2), ('TRI6', 1), ('HEX8', 2)]
    for r in range(reps):
        for i, (et, vec) in enumerate(confs):
            petsc = i not in (1, 10)
            out.append(dict(kind='periodic', et=et, vec=vec, petsc=petsc, linear=bool((i + r + seed) % 2),
                            small=i in (0, 5, 8), two=bool(rng.random() < .5), pair=bool(rng.random() < .5), seed=[int(seed), r, i], cost=8))
    return out


def periodic(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.solver import solver
    rng = onp.random.default_rng(case['seed'])
    et, d, vec, lin = case['et'], fe.DIM[case['et']], case['vec'], case['linear']
    n = {2: (3, 3, 1), 3: (2, 2, 2)}[d]
    size = .02 if case.get('small') else 1.      # node spacing below 0.01 in the small cells
    P, C, U, A, b = fe.make_mesh(et, n, rng, jitter=0., lengths=rng.uniform(.8, 1.3, d) * size)
    # interior nodes may move: sides keep matching
    f = weak.Form(vec, d, rng, spd=True, beta=0. if lin else .15, a=.6, c=0. if lin else .3, cauchy=False)
    if size < 1:                # same boundary value problem in small units (two dimensions: stiffness unchanged)
        f.s0, f.s1, f.a, f.c, f.beta = f.s0 / size**2, f.s1 / size**3, f.a / size**2, f.c / size**2, f.beta * size**2
    cls = weak.make_class(FEM, np, f)
    dirs = [0, 1] if case['two'] else [0 if rng.random() < .5 else d - 1]
    if d == 3 and case['seed'][-1] % 2:
        dirs = [2, 0, 1]
    flip = [bool(rng.random() < .5) for _ in dirs]     # direction of the mapping: low -> high or high -> low
    la, lb, mp, vc, tied = [], [], [], [], []
    for a, fl in zip(dirs, flip):
        comps = list(range(vec)) if case['pair'] or vec == 1 else [int(rng.integers(vec))]
        for v in comps:
            s = 1 if fl else 0
            la.append(fu.side_fn(A, b, a, s))
            lb.append(fu.side_fn(A, b, a, 1 - s))
            off = A[:, a] * (1 - 2 * s)
            mp.append(lambda p, off=onp.array(off): p + off)
            vc.append(v)
            tied.append((a, s, v))
    # Dirichlet data on a corner set or on a side across the periodic ones
    free = [a for a in range(d) if a not in dirs]
    dl, dv, df, dd = [], [], [], []
    if free and rng.random() < .7:
        a = free[0]
        for v in range(vec):
            c0 = float(rng.normal() * .5)
            dl.append(fu.side_fn(A, b, a, 0))
            dv.append(v)
            df.append(lambda x, c0=c0: c0)
            dd.append((a, v, c0))
    ns = [fu.side_fn(A, b, free[0], 1)] if free and size == 1 and rng.random() < .6 else []
    kwn = dict(neumann_bc_info=[ns, [lambda x: f.neumann(np, x, 0)]]) if ns else {}
    pr = cls(Mesh(P, C, et), vec=vec, dim=d, ele_type=et, dirichlet_bc_info=[dl, dv, df] if dl else None,
             periodic_bc_info=[la, lb, mp, vc], source_info=lambda x: f.source(np, x), **kwn)
    ref = weak.Ref(et, P, C, vec, f, pr, (), ns)
    fu.bound_newton(pr, 60)
    mon.where = f"{et} vec {vec} dirs {dirs} flip {flip} tied {tied} petsc {case['petsc']} linear {lin}"
    sol = onp.asarray(solver(pr, linear=lin, use_petsc=case['petsc']))
    # union-find of tied dofs, from geometry alone
    par = list(range(len(P) * vec))

    def find(i):
        while par[i] != i:
            i = par[i]
        return i
    key = {tuple(onp.round(u, 7)): i for i, u in enumerate(U)}
    nt = 0
    for a, s, v in tied:
        for i, u in enumerate(U):
            if abs(u[a] - s) < 1e-9:
                w = u.copy()
                w[a] = 1 - s
                j = key[tuple(onp.round(w, 7))]
                ri, rj = find(i * vec + v), find(j * vec + v)
                if ri != rj:
                    par[ri] = rj
                nt += 1
    root = onp.array([find(i) for i in range(len(par))])
    loose = lin and case['petsc']
    x = sol.reshape(-1)
    tol = 2e-3 if loose else 3e-6
    sc = max(1., onp.abs(x).max())
    mon.close('periodic', x, x[root], tol, sc)
    mon.event('tied-pairs', nt)
    fixed = onp.zeros(len(x), bool)
    val = onp.zeros(len(x))
    for a, v, c0 in dd:
        for i, u in enumerate(U):
            if abs(u[a]) < 1e-9:
                fixed[i * vec + v] = True
                val[i * vec + v] = c0
    fixed_root = onp.isin(root, root[fixed])
    mon.close('dirichlet', x[fixed], val[fixed], tol, sc)
    R = ref.residual(sol).reshape(-1)
    G = onp.zeros(len(x))
    onp.add.at(G, root, R)
    G[fixed_root] = 0.
    mon.close('tied-equilibrium', G, onp.zeros_like(G), 1e-2 if loose else 5e-6, 1.)
    # reference solution by elimination of the tied dofs (numpy Newton on the reference assembly)
    ur, inv = onp.unique(root, return_inverse=True)
    z = onp.zeros(len(ur))
    zf = onp.zeros(len(ur), bool)
    zf[inv[fixed]] = True
    z[inv[fixed]] = val[fixed]
    T = onp.zeros((len(x), len(ur)))
    T[onp.arange(len(x)), inv] = 1.
    pr2 = cls(Mesh(P, C, et), vec=vec, dim=d, ele_type=et, source_info=lambda x: f.source(np, x), **kwn)
    for _ in range(8):
        u = (T @ z).reshape(-1, vec)
        r = T.T @ ref.residual(u).reshape(-1)
        pr2.newton_update(np.array(u))      # tangent only steers the iteration; convergence is judged by the reference residual
        import scipy.sparse as sp
        K = sp.csr_matrix((onp.asarray(pr2.V), (onp.asarray(pr2.I), onp.asarray(pr2.J))), shape=(len(x), len(x)))
        Kz = T.T @ (K @ T)
        if onp.abs(r[~zf]).max() < 1e-10:
            break
        z[~zf] -= onp.linalg.solve(Kz[onp.ix_(~zf, ~zf)], r[~zf])
    if onp.abs((T.T @ ref.residual((T @ z).reshape(-1, vec)).reshape(-1))[~zf]).max() < 1e-8:
        mon.close('reference-solution', x, T @ z, 5e-3 if loose else 2e-5, sc)
    mon.sig(et, vec, dirs, size < 1, len(tied), bool(dd), bool(ns), case['petsc'], lin)


RUN = dict(periodic=periodic)
