"""Key or date sequences (sorted, interleaved, reversed, random walks) split
in memory and lazily with several chunkings; non-trivial: at least one row."""
import itertools

import numpy

from rtc import base, zc


def reference(keys):
    """Runs of equal keys, or None when a key decreases."""
    runs = []
    for i, k in enumerate(keys):
        if runs and runs[-1][0] == k:
            runs[-1][2] = i + 1
        else:
            if runs and runs[-1][0] > k:
                return None
            runs.append([k, i, i + 1])
    return [(k, a, b) for k, a, b in runs]


def one(build, handler, axis, want, names, modes=((False, None), (True, -1),
                                                  (True, 1), (True, 3))):
    err = []
    for delayed, chunks in modes:
        label = f'delayed={delayed} chunks={chunks}'
        zds = build(delayed, chunks)
        try:
            parts = list(handler.split_dataset(zds, axis))
            got = []
            for name, idx in parts:
                if list(idx) != [axis]:
                    err.append(f'{label}: indexer {idx}')
                s = idx[axis]
                if s.step not in (None, 1):
                    err.append(f'{label}: step {s}')
                got.append((tuple(name), int(s.start), int(s.stop)))
            idx2 = [(int(s.start), int(s.stop))
                    for _, s in handler.index_dataset(zds)]
            if idx2 != [(a, b) for _, a, b in got]:
                err.append(f'{label}: index_dataset disagrees {idx2}')
        except ValueError as exc:
            got = None
            if want is not None:
                err.append(f'{label}: refused: {exc}')
            continue
        if want is None:
            err.append(f'{label}: decreasing keys accepted: {got}')
            continue
        exp = [(names(k), a, b) for k, a, b in want]
        if got != exp:
            err.append(f'{label}: split into {got} instead of {exp}')
    return err


def mk(D, delayed, chunks, name, arr):
    if not delayed:
        return D.Array(name, arr, ('num', ))
    import dask.array
    return D.DelayedArray(name, dask.array.from_array(
        arr, chunks=chunks if chunks and chunks > 0 else -1), ('num', ))


def seq(i):
    from zcollection import dataset as D
    from zcollection import partitioning as P
    keys = [tuple(k) for k in i['keys']]
    ncol = len(keys[0])
    vn = [f'k{j}' for j in range(ncol)]
    dt = i.get('dtype', 'int64')

    def build(delayed, chunks):
        return D.Dataset([
            mk(D, delayed, chunks, n,
               numpy.array([k[j] for k in keys], dtype=dt))
            for j, n in enumerate(vn)
        ], delayed=delayed)

    return one(build, P.Sequence(vn), 'num', reference(keys),
               lambda k: tuple(f'{n}={v}' for n, v in zip(vn, k)))


def date(i):
    from zcollection import dataset as D
    from zcollection import partitioning as P
    t = numpy.array(i['times'], dtype=f"datetime64[{i['unit']}]")
    res = i['res']
    keys = [zc.date_key(x.astype(f'datetime64[{res}]'), res) for x in t]

    def build(delayed, chunks):
        return D.Dataset([mk(D, delayed, chunks, 't', t)], delayed=delayed)

    return one(build, P.Date(('t', ), res), 'num', reference(keys),
               lambda k: tuple(f'{n}={v:02d}' for n, v in k))


def big(i):
    """Sizes around the limits of the narrow integer types."""
    from zcollection import dataset as D
    from zcollection import partitioning as P
    n, runs = i['n'], i['runs']
    cuts = [0] + [n * (j + 1) // runs for j in range(runs)]
    k = numpy.concatenate([numpy.full(cuts[j + 1] - cuts[j], i['first'] + j,
                                      dtype=i['dtype'])
                           for j in range(runs)])

    def build(delayed, chunks):
        return D.Dataset([mk(D, delayed, chunks, 'k', k)], delayed=delayed)

    want = [((i['first'] + j, ), cuts[j], cuts[j + 1]) for j in range(runs)
            if cuts[j] < cuts[j + 1]]
    return one(build, P.Sequence(('k', )), 'num', want,
               lambda k: (f'k={k[0]}', ),
               modes=((False, None), (True, -1), (True, n // 3 + 1)))


def insert(i):
    """The rows end up in the directories named by their keys."""
    s = zc.Schema(i['kind'], res=i['res'], ncol=2, delayed=i['delayed'])
    rows = s.rows(i['times'], i['keys'], i['seed'])
    p = base.scratch()
    try:
        c = zc.create(s, rows, p)
        state = s.split(rows)
        ks = [s.key(rows, j) for j in range(len(rows['time']))]
        try:
            list(c.insert(s.dataset(rows)))
        except ValueError:
            return [] if reference(ks) is None else ['insertion refused']
        if reference(ks) is None:
            return ['decreasing keys accepted']
        return zc.check_store(p, s, state)
    finally:
        base.clean(p)


CASES = dict(big=big, seq=seq, date=date, insert=insert)


def generate(seed, tier):
    r = base.rng(seed, 'c01')
    q = tier == 'quick'
    for n in range(1, 5 if q else 6):
        for k in itertools.product(range(3), repeat=n):
            yield 'seq', dict(keys=[[x] for x in k])
    for n in range(1, 4):
        for k in itertools.product([(0, 0), (0, 1), (1, 0), (1, -1)],
                                   repeat=n):
            yield 'seq', dict(keys=[list(x) for x in k])
    for n in (127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537,
              200000):
        yield 'big', dict(n=n, runs=4, first=-1, dtype='int64')
    for first, dt in ((2**63 - 5, 'int64'), (-2**63, 'int64'),
                      (2**63 + 5, 'uint64'), (-128, 'int8'), (250, 'uint8'),
                      (2**31 - 3, 'int32'), (32760, 'int16')):
        yield 'big', dict(n=9, runs=3, first=first, dtype=dt)
    yield 'seq', dict(keys=[[-2**62 - 5, 1], [2**62 + 5, 0]])
    yield 'seq', dict(keys=[[2**62 + 5, 1], [-2**62 - 5, 0]])
    yield 'seq', dict(keys=[[0, 2**63 - 1], [1, -2**63]])
    yield 'seq', dict(keys=[[1, -2**63], [0, 2**63 - 1]])
    units = ['s', 'ms', 'us', 'ns']
    step = dict(Y=200 * 86400, M=11 * 86400, D=40000, h=1700, m=29, s=1)
    for j in range(160 if q else 4000):
        n = int(r.integers(1, 25))
        ncol = int(r.integers(1, 4))
        hi = int(r.choice([2, 3, 1000]))
        k = r.integers(-hi, hi, (n, ncol))
        if r.random() < 0.6:
            k = k[numpy.lexsort(k.T[::-1])]
            if n > 2 and r.random() < 0.3:
                a, b = r.integers(0, n, 2)
                k[[a, b]] = k[[b, a]]
        yield 'seq', dict(keys=k.tolist(),
                          dtype=str(r.choice(['int64', 'int32', 'int16'])))
        res = str(r.choice(list(step)))
        off = numpy.cumsum(r.integers(0, step[res] + 1, n))
        if r.random() < 0.3:
            a, b = r.integers(0, n, 2)
            off[[a, b]] = off[[b, a]]
        t0 = int(r.integers(-3 * 10**9, 3 * 10**9))
        u = str(r.choice(units))
        mult = dict(s=1, ms=10**3, us=10**6, ns=10**9)[u]
        sub = int(r.integers(0, mult))
        yield 'date', dict(times=[(t0 + int(o)) * mult + sub for o in off],
                           unit=u, res=res)
    for j in range(0, 320 if q else 2000, 20):
        for j in (j, j + 10):
            n = int(r.integers(1, 9))
            keys = r.integers(0, 3, (n, 2))
            keys = keys[numpy.lexsort(keys.T[::-1])] if j % 20 else keys
            yield 'insert', dict(
                kind=str(r.choice(['date', 'seq'])), seed=j,
                res=str(r.choice(['Y', 'M', 'D', 'h'])),
                delayed=bool(r.integers(2)), keys=keys.tolist(),
                times=zc.rand_times(r, n, 2000, sort=j % 20 != 0))
