"""Collections with unequal partitions loaded with every combination of
filter, indexer, variable selection and laziness, and mapped; non-trivial: at
least one row."""
import numpy

from rtc import base, zc


def load(i):
    s = zc.Schema(i['kind'], res='D', dim=i['dim'], imm=i['imm'], ncol=2,
                  delayed=False, missing=True)
    rows = s.rows(i['times'], i['keys'], i['seed'])
    p = base.scratch()
    err = []
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        c = zc.reopen(p, 'r')
        state = s.split(rows)
        keys = sorted(state)
        for q in i['queries']:
            ks = [k for k in keys
                  if q['filter'] is None or eval(q['filter'], {}, dict(k))]
            sel = q['variables']
            kw = dict(filters=q['filter'], delayed=q['delayed'],
                      selected_variables=sel)
            sub = {k: state[k] for k in ks}
            if q['indexer'] is not None:
                # [position of the partition, start, stop] in any order
                idx = [(keys[a % len(keys)], slice(b, e))
                       for a, b, e in q['indexer']]
                kw['indexer'] = iter(idx) if q['gen'] else idx
                sub = {}
                for k in ks:
                    parts = [zc.take(state[k], sl) for kk, sl in idx
                             if kk == k]
                    if parts:
                        sub[k] = zc.cat(parts)
            label = f'load({q})'
            zds = c.load(**kw)
            names = None if sel is None else set(sel)
            if not sub:
                if zds is not None:
                    err.append(f'{label}: something loaded')
                continue
            if zds is None:
                err.append(f'{label}: nothing loaded')
                continue
            want = zc.expect(zc.cat(sub[k] for k in sorted(sub)), s)
            if s.imm:
                want['imm'] = s.imm_values()
            if names is not None:
                want = {k: v for k, v in want.items() if k in names}
            err += zc.diff_rows(zc.ds_rows(zds), want, label)
            if {a.name: a.value for a in zds.attrs} != {'title': 'T'}:
                err.append(f'{label}: attributes {zds.attrs}')
            for k, v in zds.variables.items():
                att = {a.name: a.value for a in v.attrs}
                w = {} if k == 'imm' else {'unit': k + '_unit'}
                if att != w:
                    err.append(f'{label}: attributes of {k} {att}')
                if tuple(v.dimensions) != s.dims(k):
                    err.append(f'{label}: dimensions of {k} {v.dimensions}')
            if zds.delayed != q['delayed']:
                err.append(f'{label}: delayed={zds.delayed}')
            if q['indexer'] is None:
                f = q['filter']
                m = dict(c.map(lambda z: zc.ds_rows(z), filters=f,
                               delayed=q['delayed'],
                               selected_variables=sel).compute())
                if set(m) != set(ks) or len(m) != len(ks):
                    err.append(f'map: partitions {sorted(m)}')
                for k in set(m) & set(ks):
                    w = zc.expect(state[k], s)
                    if s.imm:
                        w['imm'] = s.imm_values()
                    if names is not None:
                        w = {a: b for a, b in w.items() if a in names}
                    err += zc.diff_rows(m[k], w, f'map {k}')
            if err:
                return err[:5]
        return err[:5]
    finally:
        base.clean(p)


CASES = dict(load=load)


def generate(seed, tier):
    r = base.rng(seed, 'c08')
    q = tier == 'quick'
    for j in range(20 if q else 300):
        kind = ['date', 'seq'][j % 2]
        n = int(r.integers(1, 16))
        qs = []
        for _ in range(4):
            f = None if r.random() < 0.4 else (
                ['day < 4', 'day % 2 == 0', 'day == 99'] if kind == 'date'
                else ['k0 == 1', 'j1 != 0', 'k0 > 99'])[r.integers(3)]
            idx = None
            if r.random() < 0.5:
                idx = []
                for _ in range(int(r.integers(1, 4))):
                    a = int(r.integers(0, 3))
                    b = int(r.integers(0, 4))
                    idx.append([int(r.integers(0, 8)), a, a + b])
            v = None if r.random() < 0.6 else [
                ['v1'], ['time', 'v2'], ['v2', 'imm'], ['v1', 'nothing'],
                ['v3', 'time'], []
            ][r.integers(6)]
            if v == [] and idx is not None:
                v = ['v1']  # rows without any variable cannot be indexed
            qs.append(dict(filter=f, indexer=idx, variables=v,
                           delayed=bool(r.integers(2)),
                           gen=bool(r.integers(2))))
        yield 'load', dict(kind=kind, dim=str(r.choice(['num', 'time'])),
                           imm=bool(r.integers(2)), seed=j, queries=qs,
                           times=zc.rand_times(r, n, 150),
                           keys=zc.rand_keys(r, n, 2))
