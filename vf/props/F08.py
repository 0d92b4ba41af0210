import numpy as onp
from vf.refs import fe
from vf import femutil as fu

LEVEL = 'exploration'
RULE = ('signature = model | law checked | magnitude class of the sampled deformation; counted when stresses reported by the code '
        '(stress map at sampled gradients, or nodal forces of a deformed body) were compared')
ASSUMPTIONS = ['elastic constants are the ones the models document in code: E=70e3, nu=0.3 (linear), E=1e3, nu=0.3 (hyperelastic)',
               'three-dimensional states for the hyperelastic model (its energy is the 3D one)']
REQUIRED = {'hooke': 6, 'stress-closed-form': 6, 'objectivity': 4, 'isotropy': 4, 'stress-free': 4, 'tangent-symmetric': 4,
            'energy-work': 4, 'small-strain-limit': 2, 'body-stress': 6, 'nodal-objectivity': 2}


def cases(tier, seed):
    out = []
    k = 4 if tier == 'quick' else 24
    for i in range(k):
        out.append(dict(kind='hooke', dim=2 + i % 2, seed=[int(seed), i], cost=4))
        out.append(dict(kind='hyper', seed=[int(seed), 40 + i], cost=6))
    for i, (m, et) in enumerate([('elastic', 'HEX8'), ('elastic', 'TRI3'), ('elastic', 'TET10'), ('elastic', 'QUAD8'),
                                 ('hyper', 'HEX8'), ('hyper', 'TET4'), ('hyper', 'HEX20')] * (1 if tier == 'quick' else 4)):
        out.append(dict(kind='body', model=m, et=et, seed=[int(seed), 80 + i], cost=6))
    return out


def rot(rng, d):
    Q, _ = onp.linalg.qr(rng.normal(size=(d, d)))
    if onp.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def hooke_ref(g, E=70e3, nu=.3):
    d = g.shape[-1]
    mu, lm = E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))
    e = .5 * (g + onp.swapaxes(g, -1, -2))
    return lm * onp.trace(e, axis1=-2, axis2=-1)[..., None, None] * onp.eye(d) + 2 * mu * e


def psi_ref(F, E=1e3, nu=.3):
    mu, ka = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))
    J = onp.linalg.det(F)
    return mu / 2 * (J**(-2 / 3) * onp.einsum('...ij,...ij->...', F, F) - 3) + ka / 2 * (J - 1)**2


def pk_ref(F, E=1e3, nu=.3):
    mu, ka = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))
    J = onp.linalg.det(F)[..., None, None]
    I1 = onp.einsum('...ij,...ij->...', F, F)[..., None, None]
    Fit = onp.swapaxes(onp.linalg.inv(F), -1, -2)
    return mu * J**(-2 / 3) * (F - I1 / 3 * Fit) + ka * (J - 1) * J * Fit


def tiny(cls, d):
    jax, np, FEM, Mesh = fu.mods()
    et = {2: 'QUAD4', 3: 'HEX8'}[d]
    P, C = fe.block(et, (1,) * d)
    return cls(Mesh(P, C, et), vec=d, dim=d, ele_type=et)


def samples(rng, d, n, amp):
    G = rng.normal(size=(n, d, d)) * amp
    if amp > .1:
        F = G + onp.eye(d)
        G = G[onp.linalg.det(F) > .2]
    return G


def hooke(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.models import LinearElasticity
    rng = onp.random.default_rng(case['seed'])
    d = case['dim']
    sig = jax.jit(jax.vmap(tiny(LinearElasticity, d).get_tensor_map()))
    mon.where = f'linear elastic dim {d}'
    for amp in (1e-8, 1e-3, 1., 50.):
        G = rng.normal(size=(200, d, d)) * amp
        S = onp.asarray(sig(np.array(G)))
        mon.close('hooke', S, hooke_ref(G), 1e-11)
        Q = rot(rng, d)
        mon.close('isotropy', onp.asarray(sig(np.array(Q @ G @ Q.T))), Q @ S @ Q.T, 1e-10, onp.abs(S).max())
        W = G - G.transpose(0, 2, 1)
        mon.close('stress-free', onp.asarray(sig(np.array(W))), onp.zeros_like(W), 1e-9, onp.abs(S).max())
        mon.sig('elastic', d, amp)
    K = onp.asarray(jax.jacfwd(lambda g: sig(g[None])[0])(np.array(rng.normal(size=(d, d)))))
    mon.close('tangent-symmetric', K, K.transpose(2, 3, 0, 1), 1e-10)
    H = onp.asarray(rng.normal(size=(50, d, d)))
    H = H + H.transpose(0, 2, 1)
    w = onp.einsum('nij,ijkl,nkl->n', H, K, H)
    mon.check('energy-work', (w > 0).all(), 'elastic tangent is not positive definite on symmetric strains')


def hyper(case, mon):
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem.models import HyperElasticity
    rng = onp.random.default_rng(case['seed'])
    d = 3
    P1 = tiny(HyperElasticity, d).get_tensor_map()
    Pf = jax.jit(jax.vmap(P1))
    I = onp.eye(d)
    mon.where = 'hyperelastic'
    for amp in (1e-4, 1e-2, .2, .5):
        G = samples(rng, d, 200, amp)
        F = G + I
        S = onp.asarray(Pf(np.array(G)))
        want = pk_ref(F)
        mon.close('stress-closed-form', S, want, 1e-9, max(onp.abs(want).max(), 1.))
        Q = rot(rng, d)
        sc = max(onp.abs(S).max(), 1.)
        mon.close('objectivity', onp.asarray(Pf(np.array(Q @ F - I))), Q @ S, 1e-9, sc)
        mon.close('isotropy', onp.asarray(Pf(np.array(F @ Q - I))), S @ Q, 1e-9, sc)
        # Kirchhoff stress symmetric (balance of angular momentum)
        tau = S @ F.transpose(0, 2, 1)
        mon.close('objectivity', tau, tau.transpose(0, 2, 1), 1e-9, sc)
        # stress power = change of stored energy
        H = rng.normal(size=G.shape)
        e = 1e-5
        dW = (psi_ref(F + e * H) - psi_ref(F - e * H)) / (2 * e)
        mon.close('energy-work', onp.einsum('nij,nij->n', S, H), dW, 1e-5, max(onp.abs(dW).max(), 1.))
        mon.sig('hyper', amp)
    Qs = onp.array([rot(rng, d) for _ in range(20)])
    mon.close('stress-free', onp.asarray(Pf(np.array(Qs - I))), onp.zeros((20, d, d)), 1e-9, 1e3)
    for amp in (0., .3):
        g = samples(rng, d, 50, amp)[0]
        K = onp.asarray(jax.jacfwd(P1)(np.array(g)))
        mon.close('tangent-symmetric', K, K.transpose(2, 3, 0, 1), 1e-9, onp.abs(K).max())
        # tangent against differences of the closed form
        H = rng.normal(size=(d, d))
        e = 1e-6
        mon.close('tangent-symmetric', onp.einsum('ijkl,kl->ij', K, H),
                  (pk_ref(g + I + e * H) - pk_ref(g + I - e * H)) / (2 * e), 1e-6, onp.abs(K).max())
    G = rng.normal(size=(50, d, d)) * 1e-6
    mon.close('small-strain-limit', onp.asarray(Pf(np.array(G))), hooke_ref(G, 1e3, .3), 1e-4)


def body(case, mon):
    """Mean stress of a uniformly strained body, from nodal forces alone (virial theorem)."""
    jax, np, FEM, Mesh = fu.mods()
    from jax_am.fem import models
    rng = onp.random.default_rng(case['seed'])
    et, d, m = case['et'], fe.DIM[case['et']], case['model']
    P, C, U, A, b = fe.make_mesh(et, (2, 1, 1)[:d], rng, jitter=.2, lengths=rng.uniform(.8, 1.4, d))
    pr = (models.LinearElasticity if m == 'elastic' else models.HyperElasticity)(Mesh(P, C, et), vec=d, dim=d, ele_type=et)
    V = fe.integrate_cells(et, P, C, lambda x: onp.ones((len(x), 1)))[0]
    f = jax.jit(pr.compute_residual)
    mon.where = f'{et} {m}'
    for amp in (1e-3, .15):
        G = samples(rng, d, 40, amp)[0] if m == 'hyper' else rng.normal(size=(d, d)) * amp
        u = P @ G.T
        R = onp.asarray(f(np.array(u)))
        S = onp.einsum('nv,nd->vd', R, P) / V
        want = hooke_ref(G) if m == 'elastic' else pk_ref(G + onp.eye(d))
        mon.close('body-stress', S, want, 1e-7, onp.abs(want).max())
        mon.sig('body', m, et, amp)
        if m == 'hyper':
            u = P @ G.T + rng.normal(size=P.shape) * .02
            R = onp.asarray(f(np.array(u)))
            Q = rot(rng, d)
            u2 = (P + u) @ Q.T - P + rng.normal(size=d)
            R2 = onp.asarray(f(np.array(u2)))
            mon.close('nodal-objectivity', R2, R @ Q.T, 1e-7, onp.abs(R).max())


RUN = dict(hooke=hooke, hyper=hyper, body=body)
