"""Run a driver script of the repository from a scratch copy, with every solve and every saved file observed."""
import inspect
import os
import shutil

from vf import core


class Halt(Exception):
    pass


def execute(case, mon, rel, observe, saved=None, mesh=None, linspace=None, singular=False):
    """rel: path below the repository.  observe(problem, solution, globals) after every solve (may raise Halt);
    saved(path, globals, args) after every save_sol; mesh(Nx, Ny, Nz) -> resolution to use instead.  Returns the script's globals."""
    import jax.numpy as np
    import jax_am.fem.solver as S
    import jax_am.fem.generate_mesh as G
    import jax_am.fem.utils as U
    import jax_am.common as M
    d = os.path.join(case['_scratch'], 'script')
    os.makedirs(os.path.join(d, 'data', 'vtk'))
    os.makedirs(os.path.join(d, 'data', 'numpy'), exist_ok=True)
    path = os.path.join(d, os.path.basename(rel))
    shutil.copy(os.path.join(core.REPO, rel), path)
    import numpy as onp
    keep = S.solver, G.box_mesh, U.save_sol, np.linspace, onp.linspace
    g = {'__name__': '__main__', '__file__': path}
    own = []

    def guard(fn, *a):
        try:
            fn(*a)
        except Exception as e:
            own.append(e)
            raise

    def solver(problem, *a, **k):
        sol = keep[0](problem, *a, **k)
        guard(observe, problem, sol, g)
        return sol

    def save_sol(problem, sol, file, *a, **k):
        out = keep[2](problem, sol, file, *a, **k)
        if saved:
            guard(saved, file, g)
        return out

    def coarser(fn, names):
        sig = inspect.signature(fn)

        def wrapped(*a, **k):
            b = sig.bind(*a, **k)
            if mesh and all(n in b.arguments for n in names):
                b.arguments.update(zip(names, mesh(*[b.arguments[n] for n in names])))
            return fn(*b.args, **b.kwargs)
        return wrapped
    rect = M.rectangle_mesh
    M.rectangle_mesh = coarser(rect, list(inspect.signature(rect).parameters)[:2])
    S.solver, G.box_mesh, U.save_sol = solver, coarser(keep[1], list(inspect.signature(keep[1]).parameters)[:3]), save_sol
    if linspace:
        np.linspace = lambda a, b, n=50, *r, **k: keep[3](a, b, linspace(n), *r, **k)
        onp.linspace = lambda a, b, n=50, *r, **k: keep[4](a, b, linspace(n), *r, **k)
    try:
        exec(compile(open(path).read(), path, 'exec'), g)
    except Halt:
        pass
    except Exception as e:
        if isinstance(e, MemoryError) or own and own[-1] is e:
            raise
        if singular and 'NaN' in str(e):
            mon.event('krylov-breakdown')       # the demonstration leaves rigid motions free
            g['_broke'] = True
            return g
        import traceback
        mon.fail('no-crash', f'{rel} fails: {type(e).__name__}: {e} {traceback.format_exc()[-300:]}')
    finally:
        S.solver, G.box_mesh, U.save_sol, np.linspace, onp.linspace = keep
        M.rectangle_mesh = rect
    return g
