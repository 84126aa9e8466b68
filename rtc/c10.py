"""Updates with various functions, filters, batch counts, arguments and
returned array types (numpy, dask, masked); every other byte of the collection
is compared before and after; non-trivial: at least one partition."""
import os

import numpy

from rtc import base, zc


def update(i):
    s = zc.Schema(i['kind'], res='D', dim=i['dim'], imm=i['imm'], ncol=2,
                  delayed=False)
    rows = s.rows(i['times'], i['keys'], i['seed'])
    p = base.scratch()
    err = []
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        state = s.split(rows)
        sel = {k for k in state
               if i['filter'] is None or eval(i['filter'], {}, dict(k))}
        before = base.tree(p)
        kind = i['ret']
        names = i['names']

        def func(zds, a, b=0):
            out = {}
            for n in names:
                x = numpy.ma.filled(zc.values(zds[n]), 0)
                if n == 'v3':
                    x = x.T
                t = zc.values(zds['time']).astype('int64') // 10**9 % 1000
                y = (x * a + b).astype(x.dtype)
                y[..., ] = y + (t if y.ndim == 1 else t[:, None])
                if kind == 'masked':
                    y = numpy.ma.masked_where(
                        (t % 2 == 0) if y.ndim == 1 else numpy.stack(
                            [t % 2 == 0] * y.shape[1], 1), y)
                if n == 'v3':
                    y = y.T
                if kind == 'dask':
                    import dask.array
                    y = dask.array.from_array(y, chunks=1)
                out[n] = y
            return out

        kw = dict(filters=i['filter'], delayed=i['delayed'],
                  npartitions=i['npart'])
        if i['variables']:
            kw['variables'] = list(names)
        if i['select']:
            kw['selected_variables'] = list(names) + ['time']
        c.update(func, 3, b=2, **kw)
        for k in sel:
            t = state[k]['time'].astype('int64') // 10**9 % 1000
            for n in names:
                x = state[k][n]
                y = (x * 3 + 2).astype(x.dtype)
                y = y + (t if y.ndim == 1 else t[:, None]).astype(x.dtype)
                if kind == 'masked':
                    m = t % 2 == 0
                    y[m] = s.fill(n)
                state[k][n] = y.astype(x.dtype)
        err += zc.check_store(p, s, state)
        after = base.tree(p)
        ok = {s.relname(k) + '/' + n + '/' for k in sel for n in names}
        for d in base.tree_diff(before, after):
            path = d.split(' ', 1)[1]
            if not any(path.startswith(o) for o in ok):
                err.append(f'also {d}')
            elif path.split('/')[-1].startswith('.z'):
                err.append(f'metadata {d}')
        return err[:5]
    finally:
        base.clean(p)


def refusal(i):
    s = zc.Schema('date', res='D', delayed=False)
    rows = s.rows(i['times'], None, 3)
    p = base.scratch()
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        before = base.tree(p)
        n = len(s.split(rows))
        w = i['what']
        if w == 'unknown':
            def f(zds):
                return {'v1': zds['v1'].values * 0, 'nope': zds['v1'].values}
            exc = ValueError
        else:
            def f(zds):
                raise KeyError('boom-42')
            exc = Exception
        kw = dict(variables=['v1']) if w == 'raise-late' else {}
        try:
            c.update(f, delayed=i['delayed'], depth=i['depth'], **kw)
            return [f'{w}: accepted']
        except exc as e:
            if w != 'unknown' and 'boom-42' not in str(e) and \
                    'boom-42' not in repr(e.__cause__):
                return [f'{w}: the error is replaced by {e!r}']
        d = base.tree_diff(before, base.tree(p))
        return [f'{w}: changed {d[:4]}'] if d else []
    finally:
        base.clean(p)


def calls(i):
    """Every selected partition exactly once (variables given)."""
    s = zc.Schema('seq', ncol=1, delayed=False)
    rows = s.rows(zc.rand_times(base.rng(1, 'x'), len(i['keys']), 99),
                  [[k] for k in sorted(i['keys'])], 1)
    p = base.scratch()
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        log = p + '.log'

        def f(zds):
            fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b'%d\n' % int(zc.values(zds['k0'])[0]))
            os.close(fd)
            return {'v1': zc.values(zds['v1'])}

        c.update(f, variables=['v1'], npartitions=i['npart'],
                 depth=i['depth'], **({} if i['depth'] == 0 else {}))
        got = [int(x) for x in open(log, encoding='utf-8').read().split()]
        want = sorted(set(i['keys']))
        if i['depth'] == 0:
            if sorted(got) != want:
                return [f'applied to {sorted(got)} instead of {want}']
        elif len(got) != len(want):
            return [f'applied {len(got)} times to {len(want)} partitions']
        return zc.check_store(p, s, s.split(rows))
    finally:
        base.clean(p)


CASES = dict(update=update, refusal=refusal, calls=calls)


def generate(seed, tier):
    r = base.rng(seed, 'c10')
    q = tier == 'quick'
    for w in ('unknown', 'raise', 'raise-late'):
        for d in (0, 1):
            yield 'refusal', dict(what=w, depth=d, delayed=bool(d),
                                  times=zc.rand_times(r, 6, 90))
    for j in range(6 if q else 60):
        yield 'calls', dict(keys=[int(x) for x in r.integers(0, 6, 8)],
                            npart=int(r.integers(1, 5)), depth=j % 2)
    for j in range(24 if q else 400):
        n = int(r.integers(1, 12))
        kind = ['date', 'seq'][j % 2]
        f = None if r.random() < 0.5 else (
            ['day < 4', 'day % 2 == 0'] if kind == 'date' else
            ['k0 == 1', 'j1 != 0'])[r.integers(2)]
        yield 'update', dict(
            kind=kind, dim=str(r.choice(['num', 'time'])), seed=j,
            imm=bool(r.integers(2)), filter=f, delayed=bool(r.integers(2)),
            npart=[None, 1, 2, 5][r.integers(4)],
            ret=str(r.choice(['numpy', 'dask', 'masked'])),
            names=[['v1'], ['v2'], ['v1', 'v2'], ['v3'],
                   ['v3', 'v1']][r.integers(5)],
            variables=bool(r.integers(2)), select=bool(r.integers(2)),
            times=zc.rand_times(r, n, 150), keys=zc.rand_keys(r, n, 2))
