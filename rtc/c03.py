"""Pairs of ordered time axes at every small relative position (touching,
adjacent, nested, repeated instants), with and without tolerance, in memory
and lazily, plus insertions with merge_time_series; non-trivial: both axes
non-empty."""
import itertools

import numpy

from rtc import base, zc


def model(e, i, tol):
    """Indices kept: list of (time, source, index) sorted by time."""
    pieces = []
    for j, t in enumerate(i):
        if j == 0 or (tol is not None and t - i[j - 1] > tol):
            pieces.append([t, t])
        pieces[-1][1] = t
    kept = [(t, 0, j) for j, t in enumerate(e)
            if not any(a <= t <= b for a, b in pieces)]
    return kept + [(t, 1, j) for j, t in enumerate(i)]


def build(times, src, delayed, unit):
    from zcollection import dataset as D
    cls = D.DelayedArray if delayed else D.Array
    n = len(times)
    ident = numpy.arange(n) + 1000 * src
    return D.Dataset([
        cls('time', numpy.array(times, dtype=f'datetime64[{unit}]'),
            ('num', )),
        cls('a', ident.astype('int64'), ('num', )),
        cls('b', numpy.stack([ident, -ident], 1).astype('float64'),
            ('num', 'nx')),
        cls('c', numpy.stack([ident, ident * 2], 0).astype('float64'),
            ('nx', 'num')),
    ], attrs=[D.Attribute('x', 1)], delayed=delayed)


def judge(zds, e, i, tol, unit, label):
    err = []
    want = model(e, i, tol)
    got_t = zc.values(zds['time'])
    if not numpy.all(got_t[1:] >= got_t[:-1]):
        err.append(f'{label}: not ordered {got_t.astype("int64")}')
    got = list(zip(got_t.astype(f'datetime64[{unit}]').astype('int64'
                                                              ).tolist(),
                   (zc.values(zds['a']) // 1000).tolist(),
                   (zc.values(zds['a']) % 1000).tolist()))
    if sorted(got) != sorted(want):
        err.append(f'{label}: rows (time, source, index) {got} instead of '
                   f'{sorted(want)} for existing={e} inserted={i} tol={tol}')
    a = zc.values(zds['a'])
    b, c = zc.values(zds['b']), zc.values(zds['c'])
    if b.shape != (a.size, 2) or c.shape != (2, a.size) or not (
            numpy.array_equal(b, numpy.stack([a, -a], 1)) and
            numpy.array_equal(c, numpy.stack([a, a * 2], 0))):
        err.append(f'{label}: values of a row separated')
    for s in (0, 1):
        k = [x for x in got if x[1] == s]
        if k != sorted(k):
            err.append(f'{label}: rows of source {s} reordered')
    if zds.dimensions['num'] != a.size:
        err.append(f'{label}: dimensions {zds.dimensions}')
    return err


def merge(i):
    from zcollection.merging import merge_time_series
    err = []
    for delayed in (False, True):
        e = build(i['e'], 0, delayed, i['unit'])
        n = build(i['i'], 1, delayed, i['unit'])
        kw = {}
        if i['tol'] is not None:
            kw['tolerance'] = numpy.timedelta64(i['tol'], i['unit'])
        z = merge_time_series(e, n, 'time', 'num', **kw)
        err += judge(z, i['e'], i['i'], i['tol'], i['unit'],
                     f'delayed={delayed}')
    return err


def insert(i):
    """Successive insertions with the merge function through a collection."""
    from zcollection import partitioning as P
    from zcollection.merging import merge_time_series
    base.client()
    p = base.scratch()
    unit = 'us'
    state = None
    try:
        c = None
        for k, (times, tol) in enumerate(zip(i['series'], i['tols'])):
            zds = build(times, 1, i['delayed'], unit)
            if c is None:
                c = zc.z().create_collection('time', zds,
                                             P.Date(('time', ), 'Y'), p)
            kw = {} if tol is None else dict(
                tolerance=numpy.timedelta64(tol, unit))
            list(c.insert(zds, merge_callable=merge_time_series, **kw))
            if state is None:
                state = list(times)
            else:
                state = sorted(t for t, _, _ in model(state, times, tol))
            got = c.load(delayed=False)['time'].values
            got = got.astype(f'datetime64[{unit}]').astype('int64').tolist()
            if got != state:
                return [f'after insertion {k} of {i["series"]} '
                        f'(tolerances {i["tols"]}): times {got} instead of '
                        f'{state}']
        return []
    finally:
        base.clean(p)


CASES = dict(merge=merge, insert=insert)


def generate(seed, tier):
    r = base.rng(seed, 'c03')
    q = tier == 'quick'
    # every pair of subsets of a small timeline
    n = 5 if q else 7
    subs = [[t for t in range(n) if m >> t & 1] for m in range(1, 1 << n)]
    pairs = list(itertools.product(subs, subs))
    idx = r.permutation(len(pairs))[:700 if q else 6000]
    for j in sorted(idx):
        e, i = pairs[j]
        yield 'merge', dict(e=e, i=i, tol=[None, None, 1, 2][j % 4],
                            unit='us')
    for _ in range(150 if q else 4000):
        m = int(r.choice([8, 20, 60]))
        e = sorted(int(x) for x in r.integers(0, m, r.integers(1, 12)))
        i = sorted(int(x) for x in r.integers(-3, m + 3, r.integers(1, 10)))
        tol = None if r.random() < 0.4 else int(r.integers(0, 6))
        yield 'merge', dict(e=e, i=i, tol=tol,
                            unit=str(r.choice(['s', 'ms', 'us', 'ns'])))
    for _ in range(8 if q else 120):
        k = int(r.integers(2, 5))
        yield 'insert', dict(
            series=[sorted(int(x) for x in r.integers(0, 30, r.integers(1, 8)))
                    for _ in range(k)],
            tols=[None if r.random() < 0.5 else int(r.integers(0, 5))
                  for _ in range(k)], delayed=bool(r.integers(2)))
