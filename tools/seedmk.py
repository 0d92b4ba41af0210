"""Development aid: writes seeded/<id>/{patch.diff,demo.sh,meta.json} from tools/seed_list.py (demo.py lies there already)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
S = []


def seed(id, prop, edits, needs, breaks):
    S.append((id, prop, edits, needs, breaks))


exec(open(os.path.join(HERE, 'seed_list.py')).read())
DEMO = '''#!/bin/bash
# exit 0: behaviour is right; nonzero: the property is broken. Runs the code of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH=$PWD NUMBA_DISABLE_JIT=1 NUMBA_CACHE_DIR=$scratch DEMO_SCRATCH=$scratch
python "$here/demo.py" > "$scratch/log" 2>&1
rc=$?
tail -3 "$scratch/log"
exit $rc
'''
if __name__ == '__main__':
    for id, prop, edits, needs, breaks in S:
        if sys.argv[1:] and id not in sys.argv[1:]:
            continue
        d = tempfile.mkdtemp(prefix='seed_')
        subprocess.check_call(f'git -C /repo worktree add -q --detach {d}/w HEAD', shell=True)
        try:
            for f, old, new in edits:
                p = f'{d}/w/{f}'
                s = open(p).read()
                assert s.count(old) == 1, (id, f, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', '-C', f'{d}/w', 'diff'], text=True)
        finally:
            subprocess.check_call(f'git -C /repo worktree remove --force {d}/w', shell=True)
            shutil.rmtree(d)
        o = os.path.join(HERE, '..', 'seeded', id)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write(DEMO)
        os.chmod(o + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
        print(id, len(diff), os.path.exists(o + '/demo.py'))
