"""Helpers that drive the real FEM code (imported lazily inside workers)."""
import numpy as onp

from vf.core import Diverged


def quiet():
    import logging
    logging.disable(logging.CRITICAL)


def mods():
    quiet()
    import jax
    import jax.numpy as np
    from jax_am.fem.core import FEM
    from jax_am.fem.generate_mesh import Mesh
    return jax, np, FEM, Mesh


def side_fn(A, b, axis, s, tol=1e-6):
    """Location function of box side axis/s under the affine map x = A u + b."""
    import jax.numpy as np
    Ai = np.array(onp.linalg.inv(A))
    b = np.array(b)
    return lambda p: np.isclose((Ai @ (p - b))[axis], float(s), atol=tol)


def bnd_fn(A, b, tol=1e-6):
    import jax.numpy as np
    Ai = np.array(onp.linalg.inv(A))
    b = np.array(b)

    def f(p):
        u = Ai @ (p - b)
        return np.any(np.isclose(u, 0., atol=tol) | np.isclose(u, 1., atol=tol))
    return f


def bound_newton(problem, limit=60):
    """Count newton_update calls and stop a non-terminating Newton loop."""
    orig = problem.newton_update
    st = {'n': 0, 'last': None}

    def nu(sol):
        st['n'] += 1
        if st['n'] > limit:
            raise Diverged(f'more than {limit} Newton updates')
        return orig(sol)
    problem.newton_update = nu
    return st
