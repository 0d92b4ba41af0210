"""Development aid: random syntactic mutants of the library, judged by the quick checks (scratch copies only).
usage: automut.py COUNT SEED [file-substring ...]   survivors are printed as 'SURVIVED' with their diff"""
import ast, os, random, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'jax_am/fem/basis.py': ['F01'],
    'jax_am/fem/core.py': ['F03', 'F10', 'F05', 'F04', 'F06', 'F01', 'F12'],
    'jax_am/fem/solver.py': ['F04', 'F06', 'F07', 'F02', 'F03'],
    'jax_am/fem/models.py': ['F08', 'F09', 'F02'],
    'jax_am/fem/generate_mesh.py': ['F11'],
    'jax_am/fem/utils.py': ['F12'],
    'jax_am/fem/autodiff_utils.py': ['F07'],
    'jax_am/fem/mma.py': ['M01', 'M02'],
    'jax_am/common.py': ['F11', 'F12', 'P03'],
    'jax_am/phase_field/allen_cahn.py': ['P01', 'P02', 'P03', 'P04'],
    'jax_am/phase_field/utils.py': ['P03', 'P04', 'P02'],
    'jax_am/cfd/cfd_am.py': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06'],
    'jax_am/cfd/gamma.py': ['C05', 'C06'],
    'jax_am/lbm/core.py': ['L01', 'L02', 'L03', 'L04'],
    'jax_am/lbm/utils.py': ['L03', 'L04'],
    'applications/fem/crystal_plasticity/models.py': ['A01'],
    'applications/fem/top_opt/fem_model.py': ['A02'],
    'applications/fem/thermal/models.py': ['A03'],
}
SKIP = ('logger', 'print', 'plt', 'logging', 'wandb', 'time', 'ax', 'fig')


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, a, b):
        return self.b[a:b].decode()

    def add(self, a, b, new, n):
        self.out.append((a, b, new, n.lineno))

    def visit_Call(self, n):
        f = n.func
        while isinstance(f, ast.Attribute):
            f = f.value
        if isinstance(f, ast.Name) and f.id in SKIP:
            return
        if isinstance(n.func, ast.Attribute):
            swap = {'logical_and': 'logical_or', 'logical_or': 'logical_and', 'maximum': 'minimum', 'minimum': 'maximum', 'max': 'min', 'min': 'max',
                    'argmax': 'argmin', 'argmin': 'argmax', 'sum': 'mean', 'ones': 'zeros', 'zeros': 'ones', 'all': 'any', 'any': 'all', 'add': 'set', 'sin': 'cos', 'cos': 'sin'}
            if n.func.attr in swap:
                a, b = self.pos(n.func)
                self.add(b - len(n.func.attr), b, swap[n.func.attr], n)
        if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            i = random.randrange(len(n.args) - 1)
            (a, b), (c, d) = self.pos(n.args[i]), self.pos(n.args[i + 1])
            if self.text(a, b) != self.text(c, d):
                self.add(a, d, self.text(c, d) + self.text(b, c) + self.text(a, b), n)
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Assert(self, n):
        return

    def visit_JoinedStr(self, n):
        return

    def visit_AnnAssign(self, n):
        return

    def visit_BinOp(self, n):
        self.generic_visit(n)
        a, b = self.pos(n.left)[1], self.pos(n.right)[0]
        op = self.text(a, b)
        for k, v in {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.MatMult: ('@', '*'), ast.FloorDiv: ('//', '*')}.items():
            if isinstance(n.op, k) and op.count(v[0]) == 1:
                self.add(a, b, op.replace(*v), n)
        if isinstance(n.op, (ast.Add, ast.Sub)):
            x, y = self.pos(n)
            self.add(x, y, self.text(*self.pos(n.left)), n)     # drop a term

    def visit_Compare(self, n):
        self.generic_visit(n)
        a, b = self.pos(n.left)[1], self.pos(n.comparators[0])[0]
        op = self.text(a, b)
        for k, v in {ast.Lt: [('<', '<='), ('<', '>')], ast.Gt: [('>', '>='), ('>', '<')], ast.LtE: [('<=', '<')], ast.GtE: [('>=', '>')], ast.Eq: [('==', '!=')]}.items():
            if isinstance(n.ops[0], k):
                for w in v:
                    self.add(a, b, op.replace(*w, 1), n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return
        a, b = self.pos(n)
        if isinstance(v, int):
            self.add(a, b, str(v + 1), n)
            if v:
                self.add(a, b, str(v - 1), n)
        else:
            self.add(a, b, repr(v * 1.2) if v else '0.3', n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            a, b = self.pos(n)
            self.add(a, b, self.text(*self.pos(n.operand)), n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == 'T':
            a, b = self.pos(n)
            self.add(b - 2, b, '', n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        a, b = self.pos(n)
        self.add(a, b, 'pass', n)

    def visit_Assign(self, n):
        self.generic_visit(n)
        t = n.targets[0]
        if isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
            a, b = self.pos(n)
            self.add(a, b, 'pass', n)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        a, b = self.pos(n)
        self.add(a, b, self.text(*self.pos(n.body)), n)

    def visit_If(self, n):
        self.generic_visit(n)
        a, b = self.pos(n.test)
        self.add(a, b, f'not ({self.text(a, b)})', n)


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    random.seed(seed)
    files = [f for f in MAP if not sys.argv[3:] or any(x in f for x in sys.argv[3:])]
    pool = []
    for f in files:
        src = open(os.path.join('/repo', f)).read()
        v = Find(src)
        v.visit(ast.parse(src))
        seen = {}
        for x in v.out:
            seen.setdefault((f, x[3]), []).append((f, src) + x)
        pool += [random.choice(c) for c in seen.values()]        # at most one mutant per line
    random.shuffle(pool)
    done = 0
    for f, src, a, b, new, line in pool:
        if done >= count:
            break
        mut = src.encode()[:a] + new.encode() + src.encode()[b:]
        try:
            compile(mut, f, 'exec')
        except SyntaxError:
            continue
        done += 1
        d = tempfile.mkdtemp(prefix='mut_')
        subprocess.check_call(f'git -C /repo archive HEAD | tar x -C {d} --exclude=*.ipynb --exclude=*/experiments/*', shell=True)
        open(os.path.join(d, f), 'wb').write(mut)
        res = 'SURVIVED'
        tried = []
        for pid in MAP[f]:
            try:
                r = subprocess.run(['./check.sh', pid, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_REPO=d, VF_FIRST='1'), capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            tried.append(f'{pid}:{rc}')
            if rc == 1:
                res = 'killed'
                break
        shutil.rmtree(d)
        lo = src.encode()[:a].rfind(b'\n') + 1
        hi = src.encode().find(b'\n', b)
        old = src.encode()[lo:hi].decode().strip()
        nw = (src.encode()[lo:a] + new.encode() + src.encode()[b:hi]).decode().strip()
        print(f'{res} {f}:{line} {" ".join(tried)}', flush=True)
        if res != 'killed':
            print(f'    - {old}\n    + {nw}', flush=True)


if __name__ == '__main__':
    main()
