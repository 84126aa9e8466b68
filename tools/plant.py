"""plant(...) keeps a planted bug below /verif/seeded after checking it.

The change is made in a scratch copy of /repo; it is kept only if the stable
tests pass with it and the demonstration passes without it and fails with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on this scenario
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys, tempfile, shutil, warnings, atexit
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, ignore_errors=True)
'''


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def run_tests(root):
    work = tempfile.mkdtemp(prefix='plant-t-')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               AWS_EC2_METADATA_DISABLED='true', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONPATH=root)
    r = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 '
           f'--timeout=120 --basetemp={work}/tmp --processes --n_workers 1 '
           '--threads_per_worker 1 -o junit_family=xunit2 '
           f'--junitxml={work}/junit.xml', root, env, 900)
    r2 = sh(f'/usr/bin/python3 /opt/vp/results.py {work}/o.json '
            f'junit:{work}/junit.xml', root)
    d = json.load(open(f'{work}/o.json'))
    shutil.rmtree(work, ignore_errors=True)
    passed = set(d.get('passed', []))
    return sorted(stable() - passed), r.stdout[-600:]


def demo(folder, root):
    d = tempfile.mkdtemp(prefix='plant-d-')
    for f in os.listdir(folder):
        if f not in ('meta.json', 'patch.diff'):
            shutil.copy(os.path.join(folder, f), d)
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    try:
        return sh(f'bash {d}/demo.sh', root, env, 300)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def plant(bug, prop, needs, breaks, edits, demo_py, tests=True, keep=False):
    root = f'/tmp/plant-{bug}'
    shutil.rmtree(root, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', root], check=True)
    try:
        for path, old, new in edits:
            p = os.path.join(root, 'zcollection', path)
            s = open(p).read()
            if s.count(old) != 1:
                print(bug, 'edit matches', s.count(old), 'times:', old[:60])
                return False
            open(p, 'w').write(s.replace(old, new))
        folder = os.path.join(SEEDED, bug)
        shutil.rmtree(folder, ignore_errors=True)
        os.makedirs(folder)
        diff = sh('git diff', root).stdout
        open(f'{folder}/patch.diff', 'w').write(diff)
        open(f'{folder}/demo.sh', 'w').write(DEMO)
        open(f'{folder}/demo.py', 'w').write(PRE + demo_py)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                  open(f'{folder}/meta.json', 'w'), indent=1)
        a, b = demo(folder, '/repo'), demo(folder, root)
        ok = a.returncode == 0 and b.returncode != 0
        print(bug, 'demo clean rc', a.returncode, 'patched rc', b.returncode,
              (a.stdout[-500:] if a.returncode else ''), b.stdout[-300:])
        if ok and tests:
            missing, tail = run_tests(root)
            if missing:
                print(bug, 'tests fail', missing[:3], tail[-300:])
                ok = False
        if not ok:
            shutil.rmtree(folder, ignore_errors=True)
        print(bug, 'KEPT' if ok else 'REJECTED')
        return ok
    finally:
        if not keep:
            shutil.rmtree(root, ignore_errors=True)


def caught(bugs=None):
    """Run the check of each planted bug against a copy of /repo."""
    for bug in sorted(bugs or os.listdir(SEEDED)):
        folder = os.path.join(SEEDED, bug)
        prop = json.load(open(f'{folder}/meta.json'))['property']
        root = f'/tmp/caught-{bug}'
        shutil.rmtree(root, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        r0 = sh(f'git apply {folder}/patch.diff', root)
        if r0.returncode:
            print(bug, 'DOES NOT APPLY', r0.stdout[-300:])
            continue
        env = dict(os.environ, VERIF_REPO=root, VERIF_SEED='1',
                   VERIF_TIER='quick')
        r = sh(f'/opt/venv/bin/python check.py {prop}', '/verif', env, 900)
        line = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        print(bug, prop, 'CAUGHT' if r.returncode == 1 else
              f'missed rc={r.returncode}', (line or [''])[0], flush=True)
        for x in r.stdout.splitlines():
            if x.startswith('  '):
                print('     ', x[:260])
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    caught(sys.argv[1:])
