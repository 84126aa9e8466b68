#!/opt/venv/bin/python
"""check.py PROPERTY            decide one property on /repo's working tree
check.py --replay FILE          re-run the failing case of a replay file
"""
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('DASK_DISTRIBUTED__DIAGNOSTICS__NVML', 'False')

from pydv import runner  # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d['property'] == prop:
                    out.append(d)
    return out


def replay(path):
    d = json.load(open(path, encoding='utf-8'))
    runner.ensure_version()
    sys.path.insert(0, runner.REPO)
    if d['kind'] == 'rtc':
        mod = runner.rtc_module(d['property'])
        errs, trouble = runner.run_case(mod, d['case'], d['inputs'])
        print(errs or trouble or 'no error')
        return 1 if errs else 0
    if d.get('inputs') is None:
        print('no concrete input; verifier output:')
        print(json.dumps(d, indent=1)[:4000])
        return 1
    for c in runner.load_contracts(d['property']):
        if c.name == d['contract'] and c.replay:
            errs = c.replay(d['inputs'])
            print(errs or 'no error')
            return 1 if errs else 0
    return 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if sys.argv[1] == '--setup':
        runner.ensure_version()
        from pydv import core  # noqa: F401 (z3 must be importable)
        print('ready')
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(runner.EVID, 'replays'), exist_ok=True)
    evid = os.path.join(runner.EVID, f'{prop}.json')
    runner.ensure_version()
    sys.path.insert(0, runner.REPO)
    tmp = tempfile.mkdtemp(prefix='zcverif-run-')
    try:
        contracts = runner.load_contracts(prop)
        tasks = [(runner.deductive_task, (prop, i, tier))
                 for i in range(len(contracts))]
        has_rtc = os.path.exists(os.path.join(HERE, 'rtc',
                                              prop.lower() + '.py'))
        nsh = 4 if tier == 'quick' else 8
        if has_rtc:
            tasks = [(runner.rtc_task, (prop, s, nsh, seed, tier))
                     for s in range(nsh)] + tasks
        if tier == 'thorough' and prop in ('C01', 'C03'):
            tasks.append((runner.conformance_task, (seed, )))
        limit = 780 if tier == 'quick' else 5400
        results = runner.schedule(tasks, limit, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return conclude(prop, tier, seed, t0, results, contracts, evid)


def conclude(prop, tier, seed, t0, results, contracts, evid):
    ded = [r for r in results if r['kind'] == 'contract']
    rtc = [r for r in results if r['kind'] == 'rtc']
    errors = [r for r in results if r['kind'] == 'error']
    conf = [r for r in results if r['kind'] == 'conformance']
    listed = known_findings(prop)
    violations = []
    known = set()
    tainted = False

    def match(kind, name, errs):
        for k in listed:
            if k.get('status') == 'fixed':
                continue
            if k.get('case', name) != name:
                continue
            if errs and all(k['match'] in e for e in errs):
                known.add(k['what'])
                return True
        return False

    for r in rtc:
        for f in r['failures']:
            if match('rtc', f['case'], f['errors']):
                continue
            violations.append(dict(kind='rtc', property=prop, case=f['case'],
                                   inputs=f['inputs'], errors=f['errors'],
                                   replayed=True))
    n_ob = n_dis = 0
    backends = {}
    solver = 0.0
    proved, bounded, undecided = [], [], []
    functions = set()
    names = {}
    for r in ded:
        functions.update(r['functions'] or [])
        for n, c in r['obligation_names'].items():
            names[f"{r['name']}: {n}"] = c
        for run in r['runs']:
            solver += run['solver_s']
        last = r['runs'][-1] if r['runs'] else None
        if last:
            n_ob += last['obligations']
            n_dis += last['discharged']
            for k, v in last['backends'].items():
                backends[k] = backends.get(k, 0) + v
        if r['status'] == 'proved':
            proved.append(r)
            continue
        if r['status'] == 'bounded':
            bounded.append(r)
            continue
        if r['status'] == 'refuted':
            real = [c for c in r['ces'] if c['errors']]
            clean = [c for c in r['ces'] if c['replayed'] and not c['errors']]
            if real:
                c = real[0]
                if match('contract', r['name'], c['errors']):
                    continue
                violations.append(dict(kind='contract', property=prop,
                                       contract=r['name'],
                                       obligation=c['obligation'],
                                       inputs=c['inputs'],
                                       errors=c['errors'], replayed=True))
                continue
            if clean and len(clean) == len(r['ces']):
                # every counter-model behaves on the real code: the failed
                # obligation is an artefact of the abstraction
                r['detail'].append('counter-models replay cleanly on the '
                                   'real code: spurious, undecided')
                undecided.append(r)
                continue
            c = r['ces'][0] if r['ces'] else {}
            violations.append(dict(kind='contract', property=prop,
                                   contract=r['name'],
                                   obligation=c.get('obligation'),
                                   inputs=c.get('inputs'), model=c.get('model'),
                                   detail=c.get('detail'),
                                   replay_error=c.get('replay_error'),
                                   errors=None, replayed=False))
            continue
        undecided.append(r)
    replayed = [v for v in violations if v['replayed']]
    evals = sum(r['evaluations'] for r in rtc)
    level = 'proof' if (proved or bounded) else 'exploration'
    try:
        level = LEVELS.get(prop, level)
    except NameError:
        pass
    bounded_names = [dict(contract=r['name'], bound=r['bound'],
                          why=r['detail'][:2]) for r in bounded]
    cov = dict(
        contracts=len(ded), contracts_proved_unbounded=len(proved),
        contracts_bounded=bounded_names,
        contracts_undecided=[dict(contract=r['name'], why=r['detail'][:3],
                                  ) for r in undecided],
        functions_under_contract=sorted({t for r in ded
                                         for t in r['targets']}),
        functions_executed_by_the_verifier=sorted(functions),
        obligations=n_ob, discharged=n_dis, discharged_by=backends,
        solver_s=round(solver, 2),
        distinct_obligations=len(names),
        checker_cmd=f'/opt/venv/bin/python /verif/check.py {prop} {tier} '
        '(pydv -> z3 5.3.2, cvc5 1.1.2)',
        trusted_base=runner.TRUSTED + sorted({a for r in ded
                                              for a in r['assumes']}),
        evaluations=evals,
        distinct_nontrivial=sum(r['nontrivial'] for r in rtc),
        rule=(rtc[0]['rule'] if rtc else 'no run-time contract check'),
        samples=[s for r in rtc[:2] for s in r['samples']][:3] or
        [dict(obligation=n) for n in list(names)[:3]],
        standin_cases={k: sum(r['cases'].get(k, 0) for r in rtc)
                       for k in sorted({k for r in rtc for k in r['cases']})},
        theory_conformance=[dict(comparisons=r['comparisons'],
                                 skipped=r['skipped'],
                                 differences=r['differences'])
                            for r in conf],
        standin_truncated=any(r.get('truncated') for r in rtc),
        trouble=[t for r in rtc for t in r['trouble']][:5] +
        [e['error'][-800:] for e in errors],
        explanation='Obligations generated from /repo sources of this run; '
        'contracts listed under contracts_bounded hold only up to the stated '
        'bound; the run-time contract check (evaluations) is a bounded '
        'stand-in on the real code and is not counted as proof.')
    out = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=sorted({a for r in ded for a in r['assumes']}) + [
                   'integers and times are mathematical; no NaT',
                   'only obligations of unbounded contracts count as proved'],
               wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(evid, 'w', encoding='utf-8') as f:
        json.dump(out, f, indent=1, default=str)
    for k in listed:
        if k.get('status') == 'open' and (k['what'] in known or
                                          k.get('always')):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f'{prop}: {len(proved)} contracts proved, {len(bounded)} bounded, '
          f'{len(undecided)} undecided, {n_dis}/{n_ob} obligations, '
          f'{evals} run-time cases, {time.time() - t0:.1f}s')
    for r in undecided + bounded:
        print(f"  {r['status']}: {r['name']} {str(r['detail'])[:300]}")
    for r in conf:
        print(f"  theory: {r['comparisons']} comparisons with numpy, "
              f"{len(r['differences'])} differences")
    for t in cov['trouble'][:3]:
        print('  trouble:', str(t)[-600:])
    if not violations:
        return 0
    v = (replayed or violations)[0]
    n = 0
    while True:
        path = os.path.join(runner.EVID, 'replays', f'{prop}-{n}.json')
        if not os.path.exists(path):
            break
        n += 1
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(dict(v, all=violations[:6]), f, indent=1, default=str)
    print(f"  {v.get('case') or v.get('contract')}: "
          f"{v.get('obligation') or ''} {str(v.get('errors') or '')[:900]}")
    tail = '' if v['replayed'] else ' no-failing-input-found'
    print(f'VIOLATION property={prop} replay={path}{tail}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
