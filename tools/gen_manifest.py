"""Writes /verif/MANIFEST.json from the contracts and run-time checks present."""
import importlib
import json
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
from pydv import harness, runner  # noqa: E402

props = [json.loads(x) for x in (HERE / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p['id']
    cs = runner.load_contracts(i)
    rtc = (HERE / 'rtc' / (i.lower() + '.py')).exists()
    if not cs and not rtc:
        na.append(dict(property=i, reason='check not built yet'))
        continue
    targets = sorted({t for c in cs for t in c.targets})
    if cs:
        tech = ('contract-based deductive verification: obligations generated '
                'from the real source on every run, discharged by z3/cvc5')
        if rtc:
            tech += '; contracts also evaluated at run time (bounded stand-in)'
        note = (f'{len(cs)} contracts over {len(targets)} functions of /repo '
                '(DESIGN.md lists them, with those holding only up to a '
                'stated bound). Trusts pydv, the solvers and the assumed '
                'contracts of numpy/dask/zarr/fsspec listed in the evidence; '
                'integers and times are mathematical. ')
        if rtc:
            note += ('The run-time contract check runs the real code on '
                     'generated inputs; it is bounded and not counted as '
                     'proof.')
    else:
        tech = ('executable contracts of the public operations evaluated at '
                'run time on the real code (bounded stand-in of the '
                'deductive check)')
        note = ('Bounded: the contract holds on every generated case; no '
                'proof is claimed.')
    checks.append(dict(
        property=i, quick_cmd=f'/opt/venv/bin/python check.py {i}',
        thorough_cmd=f'/opt/venv/bin/python check.py {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=tech,
        level='proof' if cs else 'exploration', level_note=note))
out = dict(version=1,
           setup_cmd='/opt/venv/bin/python check.py --setup',
           checks=checks, not_applicable=na,
           notes='No hooks in /repo: the verifier instruments the source when '
           'it is loaded. See DESIGN.md.')
(HERE / 'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')
print(len(checks), 'checks', [x['property'] for x in na])
