"""Runs the contracts and the run-time contract checks of one property."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
NPROC = 8

TRUSTED = [
    'pydv (the verification condition generator: AST instrumentation of '
    '/repo sources on every run, symbolic execution, path enumeration, loop '
    'invariants) - cross-checked by replaying every counter-model natively '
    'and by the conformance self-tests in pydv/conformance.py',
    'z3 and cvc5',
    'CPython; integers are mathematical; datetime64/timedelta64 are '
    'mathematical integers in their unit (no 64-bit overflow, no NaT)',
    'assumed contracts of numpy/itertools/builtins written in '
    'pydv/theory.py (conformance-tested against the real ones)',
]


def ensure_version():
    """zcollection/version.py is git-ignored and generated by the build."""
    p = os.path.join(REPO, 'zcollection', 'version.py')
    if os.path.exists(p):
        return
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='2024.2.0')
    subprocess.run([sys.executable, '-m', 'setuptools_scm',
                    '--force-write-version-files'], cwd=REPO, env=env,
                   check=False, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    if not os.path.exists(p):
        with open(p, 'w', encoding='utf-8') as f:
            f.write("__version__ = version = '2024.2.0'\n"
                    "__version_tuple__ = version_tuple = (2024, 2, 0)\n")


# ------------------------------------------------------------------ tasks
def load_contracts(prop):
    import contracts
    from pydv import harness
    for m in pkgutil.iter_modules(contracts.__path__):
        if m.name.startswith('c'):
            path = os.path.join(contracts.__path__[0], m.name + '.py')
            with open(path, encoding='utf-8') as f:
                if f"'{prop}'" not in f.read():
                    continue
        importlib.import_module('contracts.' + m.name)
    return [c for c in harness.REGISTRY if c.prop == prop]


def conformance_task(seed):
    """The assumed contracts of numpy against numpy."""
    from pydv import conformance
    n, skipped, bad = conformance.main(20, seed)
    return dict(kind='conformance', comparisons=n, skipped=skipped,
                differences=[str(b)[:300] for b in bad])


def deductive_task(prop, index, tier):
    from pydv import harness, world
    c = load_contracts(prop)[index]
    world.start_coverage()
    r = harness.discharge(c, tier)
    out = dict(kind='contract', name=c.name, status=r.status, bound=r.bound,
               wall=r.wall, detail=r.detail, targets=list(c.targets),
               note=c.note, assumes=list(c.assumes), functions=None,
               replayable=c.replay is not None, ces=[], unstated=c.unbounded)
    runs = []
    for k, run in r.runs:
        backends = {}
        for o in run.obligations:
            if o.status == 'discharged':
                backends[o.backend] = backends.get(o.backend, 0) + 1
        runs.append(dict(mode=k, paths=run.paths,
                         obligations=len(run.obligations),
                         discharged=len(run.discharged), backends=backends,
                         queries=run.queries,
                         solver_s=round(run.solver_time, 2),
                         covers=run.covers,
                         unsupported=sorted(set(run.unsupported))[:5]))
    out['runs'] = runs
    out['functions'] = world.functions_seen()
    names = {}
    for k, run in r.runs[-1:]:
        for o in run.discharged:
            names[o.name] = names.get(o.name, 0) + 1
    out['obligation_names'] = names
    # replay the counter-models on the real code (at most a few of each)
    seen = {}
    t0 = time.time()
    for o in r.counterexamples:
        if seen.get(o.name, 0) >= 4:
            continue
        seen[o.name] = seen.get(o.name, 0) + 1
        ce = dict(obligation=o.name, inputs=o.inputs, detail=o.detail,
                  model=o.model, errors=None, replayed=False)
        if c.replay is not None and o.inputs is not None \
                and time.time() - t0 < 120:
            try:
                ce['errors'] = [str(e) for e in (c.replay(o.inputs) or [])]
                ce['replayed'] = True
            except Exception as exc:
                if from_repo(exc):
                    ce['errors'] = [f'unexpected {exc!r}']
                    ce['replayed'] = True
                else:
                    ce['replay_error'] = traceback.format_exc()[-1500:]
        out['ces'].append(ce)
    return out


def from_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/zcollection'):
            return True
        tb = tb.tb_next
    return False


def rtc_module(prop):
    try:
        return importlib.import_module('rtc.' + prop.lower())
    except ModuleNotFoundError as exc:
        if exc.name in ('rtc.' + prop.lower(), ):
            return None
        raise


def run_case(mod, case, inputs):
    """Errors of one case; None when the harness itself had trouble."""
    try:
        return [str(e) for e in (mod.CASES[case](inputs) or [])], None
    except Exception as exc:
        if from_repo(exc):
            tb = traceback.format_exc()
            return [f'unexpected exception {type(exc).__name__}: {exc}\n' +
                    tb[-3000:]], None
        return None, traceback.format_exc()[-2000:]


def rounds(mod, seed, tier):
    """The cases of the seed, then those of further seeds."""
    n = getattr(mod, 'ROUNDS', {}).get(tier, 4 if tier == 'quick' else 2)
    for k in range(n):
        yield from mod.generate(seed + 7919 * k, tier)


def rtc_task(prop, shard, nshards, seed, tier):
    from rtc import base
    mod = rtc_module(prop)
    out = dict(kind='rtc', evaluations=0, nontrivial=0, samples=[],
               failures=[], trouble=[], cases={}, shard=shard,
               rule=(mod.__doc__ or '').strip())
    keys = set()
    budget = getattr(mod, 'BUDGET', {}).get(tier, 45 if tier == 'quick'
                                            else 600)
    t0 = time.time()
    base.start(shard)
    try:
        for i, (case, inputs) in enumerate(rounds(mod, seed, tier)):
            if i % nshards != shard:
                continue
            if time.time() - t0 > budget:
                out['truncated'] = True
                break
            errs, trouble = run_case(mod, case, inputs)
            key = json.dumps([case, inputs], sort_keys=True, default=str)
            out['evaluations'] += 1
            out['cases'][case] = out['cases'].get(case, 0) + 1
            if key not in keys and not base.trivial(inputs):
                keys.add(key)
                out['nontrivial'] += 1
            if len(out['samples']) < 2:
                out['samples'].append(dict(case=case, inputs=inputs))
            if trouble:
                if len(out['trouble']) < 3:
                    out['trouble'].append(dict(case=case, inputs=inputs,
                                               error=trouble))
                continue
            if errs:
                # confirm: a violation must reproduce
                errs2, _ = run_case(mod, case, inputs)
                if errs2:
                    out['failures'].append(dict(case=case, inputs=inputs,
                                                errors=errs2[:5]))
                    if len(out['failures']) >= 3:
                        break
                else:
                    out['trouble'].append(dict(case=case, inputs=inputs,
                                               error='not reproducible: ' +
                                               str(errs[:2])))
    finally:
        base.stop()
    out['wall'] = time.time() - t0
    return out


def _child(fn, args, path):
    # whatever is written to a relative path stays in the scratch directory
    os.chdir(os.path.dirname(path))
    try:
        r = fn(*args)
    except BaseException:
        r = dict(kind='error', error=traceback.format_exc())
    with open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(r, f, default=str)
    os.replace(path + '.tmp', path)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def schedule(tasks, limit, tmp):
    """Run (fn, args) tasks in child processes; results in order."""
    ctx = mp.get_context('fork')
    results = [None] * len(tasks)
    running = {}
    todo = list(range(len(tasks)))
    t0 = time.time()
    while todo or running:
        while todo and len(running) < NPROC:
            i = todo.pop(0)
            path = os.path.join(tmp, f'r{i}.json')
            p = ctx.Process(target=_child, args=(*tasks[i], path))
            p.start()
            running[i] = (p, path)
        time.sleep(0.02)
        over = time.time() - t0 > limit
        for i, (p, path) in list(running.items()):
            if p.is_alive() and not over:
                continue
            if p.is_alive():
                p.kill()
            p.join()
            if os.path.exists(path):
                with open(path, encoding='utf-8') as f:
                    results[i] = json.load(f)
            else:
                results[i] = dict(kind='error',
                                  error='killed: out of time or memory')
            del running[i]
        if over:
            for i in todo:
                results[i] = dict(kind='error', error='not started: no time')
            todo = []
    return results
