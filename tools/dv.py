"""Developer entry: run the contracts of a property and print the outcome."""
import sys, importlib, pkgutil, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contracts
from pydv import harness
def load():
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module('contracts.' + m.name)
if __name__ == '__main__':
    load()
    sel = sys.argv[1]
    tier = 'quick'
    for c in harness.REGISTRY:
        if c.prop == sel or sel in c.name:
            r = harness.discharge(c, tier)
            print(f'== {c.prop} {c.name}: {r.status} bound={r.bound} {r.wall:.1f}s', str(r.detail)[:600])
            for k, run in r.runs:
                print('   ', k, 'paths', run.paths, 'obl', len(run.obligations), 'disch', len(run.discharged), 'queries', run.queries, f'{run.solver_time:.1f}s', 'covers', run.covers, str(set(run.unsupported))[:500])
                for e in run.errors[:1]: print(e[-700:])
                seen=set()
                for o in run.refuted + run.unknown:
                    if o.name in seen: continue
                    seen.add(o.name)
                    print('      ', o.status, o.name, o.detail, o.inputs, f'{o.time:.1f}s')
                    if o.inputs and c.replay:
                        try: print('         replay:', c.replay(o.inputs)[:3])
                        except Exception as e: print('         replay error', repr(e))
