"""Histories of index updates (partitions added, re-indexed to other ranges or
to nothing, reopened index) with arbitrary disjoint, contiguous, overlapping
and nested ranges, each followed by queries compared with a row-by-row model.
Non-trivial: at least one indexed range."""
import numpy

from rtc import base, zc

OPS = {
    'and': lambda a, b: a and b,
    'or': lambda a, b: a or b,
    'xor': lambda a, b: a != b,
    'and_not': lambda a, b: a and not b,
}


def indexer_class():
    from zcollection.indexing import Indexer

    class Idx(Indexer):

        def dtype(self, **_):
            return super().dtype() + [('c', 'int16'), ('d', 'uint16'),
                                      ('s', 'S2')]

        @classmethod
        def create(cls, path, zds, *, filesystem=None, **kw):
            return super()._create(path, zds, meta={'m': b'x'},
                                   filesystem=filesystem)

        def update(self, zds, *, partition_size=None, npartitions=None,
                   table=None):

            def func(z, dtype=None):
                k = tuple(int(zc.values(z[n])[0]) for n in ('k0', 'j1'))
                return numpy.array([tuple(x[:4]) + (x[4].encode(), )
                                    for x in table.get(k, [])], dtype=dtype)

            self._update(zds, func, partition_size, npartitions,
                         dtype=self.dtype())

    return Idx


def merge(rows, keyed):
    """[(key, columns, start, stop)] sorted -> [(key, columns), (a, b)]."""
    out = []
    for key, cols, a, b in rows:
        tag = (key, cols) if keyed else key
        if out and out[-1][0] == tag and a <= out[-1][1][1]:
            p = out[-1][1]
            p[1] = max(p[1], b)
        else:
            out.append((tag, [a, b]))
    return out


def oracle(index, query, op, keyed):
    sel = []
    for key in index:
        for a, b, c, d, s in index[key]:
            hit = None
            for col, vals in query:
                v = dict(c=c, d=d, s=s, k0=key[0], j1=key[1])[col]
                m = v in (vals if isinstance(vals, list) else [vals])
                hit = m if hit is None else OPS.get(op, OPS['and'])(hit, m)
            if hit is None:
                hit = True
            if op == 'invert' and query:
                hit = not hit
            if hit:
                sel.append((key, (c, d, s), a, b))
    sel.sort(key=lambda x: (x[0], x[2], x[3]))
    return merge(sel, keyed)


def history(i):
    s = zc.Schema('seq', ncol=2, delayed=False)
    keys = [tuple(k) for k in i['parts']]
    rows = s.rows(['2000-01-01'] * len(keys), keys, 1)
    p = base.scratch()
    err = []
    try:
        Idx = indexer_class()
        c = zc.create(s, rows, p)
        path = p + '.parquet'
        ix = Idx.create(path, c)
        index = {}
        stored = []
        for n, step in enumerate(i['steps']):
            if step['op'] == 'insert':
                ks = [keys[j] for j in step['parts']]
                r = s.rows(['2000-01-01'] * len(ks), ks, 1)
                list(c.insert(s.dataset(r)))
                stored = sorted(set(stored) | set(ks))
            elif step['op'] == 'drop':
                k = keys[step['part']]
                c.drop_partitions(filters=f'k0 == {k[0]} and j1 == {k[1]}')
                stored = [x for x in stored if x != k]
            elif step['op'] == 'update':
                table = {keys[j]: [tuple(x) for x in v]
                         for j, v in enumerate(step['table'])}
                ix.update(c, npartitions=step['npart'], table=table)
                for k in stored:
                    index[k] = table.get(k, [])
            elif step['op'] == 'reopen':
                import os
                if os.path.exists(path):
                    ix = Idx.open(path)
                    if ix.meta.get('m') != b'x':
                        err.append(f'step {n}: metadata {ix.meta}')
            elif step['op'] == 'query' and any(index.values()):
                q = step['query']
                val = lambda v: v.encode() if isinstance(v, str) else v
                qq = {k: [val(x) for x in v] if isinstance(v, list) else
                      val(v) for k, v in q}
                keyed = step['keyed']
                got = []
                for tag, sl in ix.query(qq, logical_op=step['log'],
                                        only_partition_keys=not keyed):
                    t = dict(tag)
                    k = (int(t['k0']), int(t['j1']))
                    if keyed:
                        k = (k, (int(t['c']), int(t['d']),
                                 bytes(t['s']).decode()))
                    elif tuple(t) != ('k0', 'j1'):
                        err.append(f'step {n}: keys {tag}')
                    got.append((k, [int(sl.start), int(sl.stop)]))
                want = oracle(index, q, step['log'] or 'and', keyed)
                if got != want:
                    err.append(f'step {n}: query {q} {step["log"]} gives '
                               f'{got[:8]} instead of {want[:8]}')
            if err:
                return err[:3]
        return err
    finally:
        base.clean(p)


def load(i):
    """The rows loaded with a query are the rows of the ranges."""
    s = zc.Schema('seq', ncol=2, delayed=False)
    rows = s.rows(['2000-01-01'] * len(i['keys']), i['keys'], 1)
    p = base.scratch()
    try:
        Idx = indexer_class()
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        state = s.split(rows)
        table = {}
        for k, v in state.items():
            kk = tuple(x for _, x in k)
            table[kk] = [(j, j + 1, int(v['v1'][j] > 0), j % 3, 'ab')
                         for j in range(len(v['time']))]
        ix = Idx.create(p + '.parquet', c)
        ix.update(c, table=table)
        zds = c.load(indexer=ix.query({'c': i['c'], 'd': i['d']}),
                     delayed=False)
        parts = []
        for k in sorted(state):
            v = state[k]
            sel = [j for j in range(len(v['time'])) if
                   int(v['v1'][j] > 0) in i['c'] and j % 3 in i['d']]
            if sel:
                parts.append(zc.take(v, sel))
        if not parts:
            return [] if zds is None else ['something loaded']
        if zds is None:
            return ['nothing loaded']
        return zc.diff_rows(zc.ds_rows(zds), zc.expect(zc.cat(parts), s),
                            'load')
    finally:
        base.clean(p)


CASES = dict(history=history, load=load)


def generate(seed, tier):
    r = base.rng(seed, 'c16')
    q = tier == 'quick'

    def ranges():
        out = []
        k = r.integers(5)
        pos = 0
        for _ in range(int(r.integers(0, 5))):
            if k == 0:
                a, b = sorted(int(x) for x in r.integers(0, 12, 2))
            else:
                a = pos + int(r.integers(0, 2))
                b = a + int(r.integers(1, 4))
                pos = b
            if a < b:
                out.append([a, b, int(r.integers(-1, 2)),
                            int(r.integers(0, 2)),
                            ['ab', 'cd'][r.integers(2)]])
        return out

    def query():
        qs = []
        for col, hi in (('c', 2), ('d', 2), ('j1', 3), ('s', 0)):
            if r.random() < 0.45:
                one = lambda: ['ab', 'cd', 'zz'][r.integers(3)] \
                    if col == 's' else int(r.integers(-1 if col == 'c' else 0,
                                                      hi))
                qs.append([col, one() if r.integers(2) else
                           [one() for _ in range(int(r.integers(0, 3)))]])
        log = [None, 'and', 'or', 'xor', 'and_not', 'invert'][r.integers(6)]
        if log == 'invert':
            qs = qs[:int(r.integers(3))]
        return dict(op='query', query=qs, log=log, keyed=bool(r.integers(4)
                                                              == 0))

    for j in range(40 if q else 600):
        np_ = int(r.integers(1, 6))
        parts = sorted({(int(a), int(b)) for a, b in
                        r.integers(-1, 3, (np_, 2))})
        np_ = len(parts)
        upd = lambda: dict(op='update', npart=[None, 1, 2][r.integers(3)],
                           table=[ranges() for _ in range(np_)])
        steps = [dict(op='insert', parts=sorted(int(x) for x in set(
            r.integers(0, np_, 3)))), upd(), query(), query()]
        for _ in range(int(r.integers(2, 8))):
            k = r.integers(10)
            if k < 4:
                steps.append(query())
            elif k < 6:
                steps.append(upd())
            elif k < 8:
                steps.append(dict(op='reopen'))
            elif k < 9:
                steps.append(dict(op='insert', parts=sorted(
                    int(x) for x in set(r.integers(0, np_, 2)))))
            else:
                steps += [dict(op='drop', part=int(r.integers(np_))), upd(),
                          query()]
        steps += [upd(), query(), dict(op='reopen'), query(), query()]
        yield 'history', dict(parts=[list(x) for x in parts], steps=steps)
    for j in range(6 if q else 60):
        yield 'load', dict(keys=zc.rand_keys(r, int(r.integers(1, 20)), 2),
                           c=[[0], [1], [0, 1]][r.integers(3)],
                           d=[[0], [1, 2], [0, 1, 2]][r.integers(3)])
