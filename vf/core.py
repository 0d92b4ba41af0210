"""Runtime-monitoring core: cases, monitors, worker pool, verdicts, evidence.

A property module (vf/props/<ID>.py) provides
    TITLE, LEVEL, ASSUMPTIONS
    cases(tier, seed) -> list of JSON-able dicts, each with 'kind' (and optional
                         'cost' seconds, used for scheduling, and 'timeout')
    RUN = {kind: fn(case, mon)}
    REQUIRED = {monitor_name: minimum number of observations}
Every case drives the real code imported from /repo; `mon` observes what comes
out and compares it with an independent oracle.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class StopCase(Exception):
    """Raised after a violation that makes the rest of the case meaningless."""


class Diverged(Exception):
    """Raised by an iteration-bounding hook (counts, never wall-clock)."""


class Monitor:
    def __init__(self, case):
        self.case = case
        self.counts = {}        # monitor name -> observations decided
        self.viol = []          # list of dict(monitor, detail)
        self.sigs = set()       # distinct non-trivial signatures
        self.worst = {}         # monitor name -> worst error / tolerance ratio
        self.notes = []
        self.where = ''         # free text: which step / element the monitor is at

    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.add('|'.join(str(p) for p in parts))

    def check(self, name, ok, detail=''):
        self.event(name)
        if not bool(ok):
            self.fail(name, detail)
            return False
        return True

    def fail(self, name, detail=''):
        self.viol.append(dict(monitor=name, where=self.where, detail=str(detail)[:600]))
        if len(self.viol) > 40:
            raise StopCase()

    def close(self, name, got, want, tol, scale=None, detail=''):
        """max|got-want| <= tol * scale  (scale defaults to max(|want|), or 1)."""
        import numpy as onp
        got = onp.asarray(got, dtype=float)
        want = onp.asarray(want, dtype=float)
        self.event(name)
        if got.shape != want.shape:
            self.fail(name, f'shape {got.shape} instead of {want.shape} {detail}')
            return False
        if got.size == 0:
            return True
        if scale is None:
            s = float(onp.max(onp.abs(want)))
            scale = s if s > 0 else 1.
        if not onp.all(onp.isfinite(got)):
            self.fail(name, f'non-finite output {detail}')
            return False
        err = onp.abs(got - want)
        e = float(err.max())
        ratio = e / (tol * scale)
        if ratio > self.worst.get(name, 0.):
            self.worst[name] = ratio
        if ratio > 1.:
            i = onp.unravel_index(int(err.argmax()), err.shape)
            self.fail(name, f'max error {e:.6g} > {tol:g}*{scale:.6g} at {tuple(int(k) for k in i)}: '
                            f'got {got[i]:.10g}, expected {want[i]:.10g} {detail}')
            return False
        return True

    def le(self, name, a, b, slack=0., detail=''):
        """a <= b + slack, elementwise."""
        import numpy as onp
        a = onp.asarray(a, dtype=float)
        self.event(name)
        if a.size == 0:
            return True
        d = a - onp.asarray(b, dtype=float)
        if not onp.all(onp.isfinite(d)) or float(d.max()) > slack:
            self.fail(name, f'exceeds bound by {float(onp.max(d)):.6g} (slack {slack:g}) {detail}')
            return False
        return True

    def equal(self, name, got, want, detail=''):
        import numpy as onp
        self.event(name)
        got = onp.asarray(got)
        want = onp.asarray(want)
        if got.shape != want.shape or not bool(onp.all(got == want)):
            self.fail(name, f'got {onp.array2string(got.reshape(-1)[:12])} shape {got.shape}, expected '
                            f'{onp.array2string(want.reshape(-1)[:12])} shape {want.shape} {detail}')
            return False
        return True


def _in_repo(tb):
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_one(mod, case):
    mon = Monitor(case)
    t0 = time.time()
    err = None
    scratch = tempfile.mkdtemp(prefix='vf_')
    cwd = os.getcwd()
    os.chdir(scratch)
    case['_scratch'] = scratch
    try:
        mod.RUN[case['kind']](case, mon)
    except StopCase:
        pass
    except Diverged as e:
        mon.fail('terminates', str(e))
    except Exception as e:
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if _in_repo(e.__traceback__):
            mon.fail('no-crash', f'{type(e).__name__} on valid input: {e}\n{txt}'[:600])
        elif isinstance(e, (AttributeError, ImportError, NameError, KeyError, AssertionError, MemoryError, OSError)):
            err = txt
        else:
            mon.fail('well-formed-output', f'{type(e).__name__}: {e}\n{txt}'[:600])
    finally:
        os.chdir(cwd)
        case.pop('_scratch', None)
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(counts=mon.counts, viol=mon.viol, sigs=sorted(mon.sigs), worst=mon.worst,
                notes=mon.notes, wall=time.time() - t0, error=err)


def worker_main(pid, conn, cache):
    # orix ships numba kernels with an on-disk cache that concurrent processes corrupt: interpret them, private cache
    os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ['NUMBA_CACHE_DIR'] = tempfile.tempdir = cache
    fd = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VF_VERBOSE'):
        os.dup2(fd, 1)
        os.dup2(fd, 2)
    sys.path.insert(0, VERIF)
    try:
        mod = importlib.import_module(f'vf.props.{pid}')
        if hasattr(mod, 'setup'):
            mod.setup()
        import jax_am
        p = os.path.abspath(jax_am.__file__)
        if not p.startswith(REPO + os.sep):
            raise AssertionError(f'jax_am imported from {p}, not from {REPO}')
    except Exception as e:
        conn.send(dict(fatal=traceback.format_exc(), in_repo=_in_repo(e.__traceback__)))
        return
    conn.send(dict(ready=True))
    while True:
        try:
            case = conn.recv()
        except EOFError:
            return
        if case is None:
            return
        conn.send(run_one(mod, case))


class Worker:
    def __init__(self, ctx, pid):
        self.conn, child = ctx.Pipe()
        self.cache = tempfile.mkdtemp(prefix='vf_w_')
        self.p = ctx.Process(target=worker_main, args=(pid, child, self.cache), daemon=True)
        self.p.start()
        child.close()
        self.idx = None
        self.ready = False
        self.deadline = time.time() + 300

    def kill(self):
        try:
            self.p.kill()
            self.p.join(5)
        except Exception:
            pass
        shutil.rmtree(self.cache, ignore_errors=True)


def run_pool(pid, cases, nproc, default_timeout=400.):
    """Returns (results by index, infra_errors)."""
    ctx = mp.get_context('spawn')
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get('cost', 5))
    results, infra = {}, []
    nproc = max(1, min(nproc, len(cases)))
    workers = [Worker(ctx, pid) for _ in range(nproc)]
    pending = list(order)
    fatal = None
    retried = set()
    while len(results) < len(cases) and workers:
        ready = mpc.wait([w.conn for w in workers], timeout=1.)
        now = time.time()
        for w in list(workers):
            if w.conn in ready:
                try:
                    msg = w.conn.recv()
                except (EOFError, OSError):
                    # worker died (crash, OOM kill): retry its case once in a fresh worker
                    i = w.idx
                    w.kill()
                    workers.remove(w)
                    if i is not None:
                        if i in retried:
                            results[i] = dict(counts={}, viol=[], sigs=[], worst={}, notes=[], wall=0,
                                              error='worker process died twice on this case')
                        else:
                            retried.add(i)
                            pending.insert(0, i)
                    if pending and len(retried) < 4:
                        workers.append(Worker(ctx, pid))
                    continue
                if 'fatal' in msg:
                    fatal = msg
                    w.kill()
                    workers.remove(w)
                    continue
                if 'ready' in msg:
                    w.ready = True
                else:
                    results[w.idx] = msg
                    w.idx = None
                    if msg['viol'] and os.environ.get('VF_FIRST'):       # development: the first violation is enough
                        for v in workers:
                            v.kill()
                        return results, infra, fatal
                if pending:
                    w.idx = pending.pop(0)
                    w.deadline = now + cases[w.idx].get('hang', cases[w.idx].get('timeout', default_timeout))
                    w.conn.send(cases[w.idx])
                else:
                    try:
                        w.conn.send(None)
                    except OSError:
                        pass
                    workers.remove(w)
                    w.p.join(0.2)
                    shutil.rmtree(w.cache, ignore_errors=True)
            elif now > w.deadline:
                i = w.idx
                w.kill()
                workers.remove(w)
                if i is not None and cases[i].get('hang'):
                    # normal duration is a few seconds: a case that does not return is a hang of the code
                    results[i] = dict(counts={'terminates': 1}, sigs=[], worst={}, notes=[], wall=0, error=None,
                                      viol=[dict(monitor='terminates', where='',
                                                 detail=f"no result after {cases[i]['hang']} s")])
                elif i is not None:
                    results[i] = dict(counts={}, viol=[], sigs=[], worst={}, notes=[], wall=0,
                                      error='watchdog: case did not finish in time (inconclusive)')
                else:
                    infra.append('worker did not start in time')
                if pending:
                    workers.append(Worker(ctx, pid))
    for w in workers:
        w.kill()
    if fatal is not None:
        infra.append(fatal['fatal'])
    return results, infra, fatal


def load_findings():
    """known_findings.txt: 'open: property=<id> case=<key> monitor=<name> <what>' /
    'fixed: property=<id> <commit> <what>'."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('open:'):
                f = dict(t.split('=', 1) for t in line.split()[1:4])
                f['what'] = ' '.join(line.split()[4:])
                out.append(f)
    return out


def case_key(case):
    c = {k: v for k, v in case.items() if not k.startswith('_') and k not in ('cost', 'timeout', 'hang')}
    return c.get('key') or hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:12]


def main(pid, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    # case generation must not import the (slow) code under test
    spec = importlib.import_module(f'vf.specs.{pid}') if os.path.exists(
        os.path.join(VERIF, 'vf', 'specs', f'{pid}.py')) else None
    cases_mod = spec or importlib.import_module(f'vf.props.{pid}')
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = cases_mod.cases(tier, seed)
    nproc = int(os.environ.get('VF_JOBS', '8'))
    results, infra, fatal = run_pool(pid, cases, nproc)

    counts, sigs, worst, viols, errors = {}, set(), {}, [], list(infra)
    for i, c in enumerate(cases):
        r = results.get(i)
        if r is None:
            errors.append(f'case {i} produced no result')
            continue
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r['sigs'])
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0.), v)
        if r['error']:
            errors.append(f"case {i} {case_key(c)} {c.get('kind')}: {r['error']}")
        for v in r['viol']:
            viols.append((i, v))
    if fatal is not None and fatal.get('in_repo'):
        viols.append((0, dict(monitor='import', where='', detail='importing the code under test failed: '
                              + fatal['fatal'][-400:])))

    findings = [f for f in load_findings() if f['property'] == pid]
    known, new = {}, []
    for i, v in viols:
        k = case_key(cases[i])
        hit = next((f for f in findings if f['case'] == k and f['monitor'] == v['monitor']), None)
        if hit:
            known[hit['case'] + hit['monitor']] = hit
        else:
            new.append((i, v))
    for f in known.values():
        print(f"KNOWN-FINDING: property={pid} {f['what']}")

    missing = {}
    if not replay:
        for name, n in cases_mod.REQUIRED.items():
            if counts.get(name, 0) < n:
                missing[name] = (counts.get(name, 0), n)

    rdir = os.path.join(VERIF, 'replays', pid)
    rc = 0
    if new:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        by_case = {}
        for i, v in new:
            by_case.setdefault(i, []).append(v)
        for i, vs in list(by_case.items())[:10]:
            path = os.path.join(rdir, f'{case_key(cases[i])}.json')
            json.dump(dict(property=pid, case={k: v for k, v in cases[i].items() if not k.startswith('_')},
                           violations=vs), open(path, 'w'), indent=1)
            print(f"  case kind={cases[i].get('kind')} monitor={vs[0]['monitor']} [{vs[0]['where']}] {vs[0]['detail'][:500]}")
            print(f'VIOLATION property={pid} replay={path}')
    elif errors or missing:
        rc = 2
        for e in errors[:8]:
            print('INCONCLUSIVE:', e[:1500])
        for k, v in missing.items():
            print(f'INCONCLUSIVE: monitor {k} observed {v[0]} events, needs {v[1]}')

    if not replay:
        ev = dict(property=pid, tier=tier, seed=seed, level=cases_mod.LEVEL,
                  coverage=dict(
                      evaluations=int(sum(counts.values())),
                      distinct_nontrivial=len(sigs),
                      rule=cases_mod.RULE,
                      samples=sorted(sigs)[:: max(1, len(sigs) // 12)][:12],
                      cases=len(cases),
                      monitor_events=dict(sorted(counts.items())),
                      worst_error_over_tolerance={k: float(f'{v:.3g}') for k, v in sorted(worst.items())},
                      inconclusive=errors[:5]),
                  wall_s=round(time.time() - t0, 2),
                  assumptions=list(getattr(cases_mod, 'ASSUMPTIONS', [])),
                  violations=len(new))
        if new:
            ev['coverage']['violation_details'] = [dict(case=case_key(cases[i]), **v) for i, v in new[:20]]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)
    slow = sorted(((results[i]['wall'], cases[i].get('kind'), case_key(cases[i])) for i in results), reverse=True)[:4]
    print(f"{pid} {tier} seed={seed}: {len(cases)} cases, {sum(counts.values())} monitor decisions, "
          f"{len(sigs)} distinct signatures, {len(new)} violations, {len(errors)} inconclusive, "
          f"{time.time()-t0:.1f}s; slowest {[(round(a,1),b,c) for a,b,c in slow]}")
    return rc
