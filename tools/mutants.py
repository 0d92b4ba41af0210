"""Development aid: sensitivity sweep. Each mutant is applied to a scratch copy and its property's quick check is run on it.
usage: mutants.py [id-prefix ...]   (results in /tmp/mut.log)"""
import os, re, shutil, subprocess, sys, tempfile
CORE, SOLV, BASIS, MOD = 'jax_am/fem/core.py', 'jax_am/fem/solver.py', 'jax_am/fem/basis.py', 'jax_am/fem/models.py'
AD, GEN, FU, COM, MMA = 'jax_am/fem/autodiff_utils.py', 'jax_am/fem/generate_mesh.py', 'jax_am/fem/utils.py', 'jax_am/common.py', 'jax_am/fem/mma.py'
AC, PU, CFD, GAM, LBM, LU = 'jax_am/phase_field/allen_cahn.py', 'jax_am/phase_field/utils.py', 'jax_am/cfd/cfd_am.py', 'jax_am/cfd/gamma.py', 'jax_am/lbm/core.py', 'jax_am/lbm/utils.py'
M = []


def m(name, f, old, new, n=0, props=None):
    M.append((name, props or [name[:3].upper()], f, old, new, n))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mutant_list.py')).read())

if __name__ == '__main__':
    want = sys.argv[1:]
    for name, props, f, old, new, n in M:
        if want and not any(name.startswith(w) for w in want):
            continue
        d = tempfile.mkdtemp(prefix='mut_')
        subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {d} --exclude=*.ipynb --exclude=*/experiments/*', shell=True)
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) <= n:
            print(name, 'NOT APPLICABLE', s.count(old), flush=True)
            shutil.rmtree(d)
            continue
        i = -1
        for _ in range(n + 1):
            i = s.index(old, i + 1)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
        for pid in props:
            r = subprocess.run(['./check.sh', pid, 'quick'], cwd='/verif', env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            out = r.stdout + r.stderr
            v = re.findall(r'VIOLATION.*', out)
            det = [l for l in out.splitlines() if 'violation' in l.lower() or 'INCONCL' in l or 'monitor' in l]
            print(f'{name} {pid} exit={r.returncode} {"caught" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "BROKEN"} {len(v)} | {det[0][:230] if det else ""}', flush=True)
        shutil.rmtree(d)
