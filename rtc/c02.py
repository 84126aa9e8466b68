"""Keys over every resolution (leap days, ends of months, years 1-9999) and
signed integer tuples, converted to names and back; partitions created in
random order and listed; non-trivial: a key with a non-zero component."""
import datetime
import itertools

import numpy

from rtc import base, zc


def date(i):
    from zcollection import partitioning as P
    err = []
    res = i['res']
    h = P.Date(('t', ), res)
    d = datetime.datetime(*i['dt'])
    key = tuple(zip(zc.RESKEYS, d.timetuple()[:zc.RESN[res]]))
    for sep in ('/', '\\'):
        name = h.join(key, sep)
        if h.parse(name) != key:
            err.append(f'parse(join({key})) = {h.parse(name)}')
    want = '/'.join(f'{k}={v:02d}' for k, v in key)
    if h.join(key, '/') != want:
        err.append(f'join: {h.join(key, "/")} instead of {want}')
    enc = h.encode(key)
    t = numpy.datetime64(d, 's').astype(f'datetime64[{res}]')
    if len(enc) != 1 or enc[0] != t or enc[0].dtype != t.dtype:
        err.append(f'encode({key}) = {enc!r} instead of {t!r}')
    if h.decode(enc) != key:
        err.append(f'decode(encode({key})) = {h.decode(enc)}')
    if h.decode((t, )) != key:
        err.append(f'decode({t}) = {h.decode((t,))} instead of {key}')
    if h.encode(h.decode((t, )))[0] != t:
        err.append(f'encode(decode({t}))')
    # the name written at insertion
    from zcollection import dataset as D
    zds = D.Dataset([D.Array('t', numpy.array(
        [numpy.datetime64(d, 's')]).astype('datetime64[us]'), ('n', ))],
        delayed=False)
    names = [n for n, _ in h.split_dataset(zds, 'n')]
    if names != [tuple(want.split('/'))]:
        err.append(f'inserted under {names} instead of {want}')
    elif h.parse('/'.join(names[0])) != key:
        err.append(f'the name of the inserted rows parses to '
                   f'{h.parse("/".join(names[0]))}')
    if tuple(k for k, _ in h.dtype()) != tuple(k for k, _ in key):
        err.append(f'dtype keys {h.dtype()}')
    for (k, dt), (_, v) in zip(h.dtype(), key):
        if int(numpy.array(v).astype(dt)) != v:
            err.append(f'{k}={v} does not fit {dt}')
    return err


def seq(i):
    from zcollection import partitioning as P
    err = []
    names = tuple(i['names'])
    h = P.Sequence(names)
    key = tuple(zip(names, i['values']))
    for sep in ('/', '\\'):
        if h.parse(h.join(key, sep)) != key:
            err.append(f'parse(join({key})) = {h.parse(h.join(key, sep))}')
        if h.parse('/a/b' + sep + h.join(key, sep)) != key:
            err.append('absolute path')
    if h.join(key, '/') != '/'.join(f'{k}={v}' for k, v in key):
        err.append(f'join {h.join(key, "/")}')
    if h.encode(key) != tuple(i['values']):
        err.append(f'encode({key}) = {h.encode(key)}')
    if h.decode(tuple(i['values'])) != key:
        err.append(f'decode = {h.decode(tuple(i["values"]))}')
    if tuple(h.decode(h.encode(key))) != key:
        err.append('decode(encode)')
    from zcollection import dataset as D
    zds = D.Dataset([D.Array(n, numpy.array([v], dtype='int64'), ('n', ))
                     for n, v in key], delayed=False)
    got = [n for n, _ in h.split_dataset(zds, 'n')]
    if got != [tuple(f'{k}={v}' for k, v in key)]:
        err.append(f'inserted under {got}')
    return err


def foreign(i):
    """Names of another scheme are refused."""
    from zcollection import partitioning as P
    h = P.Date(('t', ), i['res']) if i['res'] else P.Sequence(i['names'])
    try:
        k = h.parse(i['name'])
    except ValueError:
        return []
    return [f'{i["name"]!r} parsed as {k}']


def listing(i):
    """Empty directories named after keys, created in the given order."""
    import os
    import fsspec
    from zcollection import partitioning as P
    p = base.scratch(i['base'])
    fs = fsspec.filesystem(i['fs'])
    try:
        if i['res']:
            h = P.Date(('t', ), i['res'])
            keys = [tuple(zip(zc.RESKEYS, k)) for k in i['keys']]
            fmt = '{}={:02d}'
        else:
            h = P.Sequence([f'k{j}' for j in range(len(i['keys'][0]))])
            keys = [tuple((f'k{j}', v) for j, v in enumerate(k))
                    for k in i['keys']]
            fmt = '{}={}'
        fs.makedirs(p, exist_ok=True)
        for k in keys:
            d = '/'.join([p] + [fmt.format(a, b) for a, b in k])
            fs.makedirs(d, exist_ok=True)
            with fs.open(d + '/.zmetadata', 'w') as f:
                f.write('{}')
        for hid in ('.immutable', '.tmp', '.x=3'):
            fs.makedirs(p + '/' + hid, exist_ok=True)
            with fs.open(p + '/' + hid + '/f', 'w') as f:
                f.write('')
        with fs.open(p + '/.zcollection', 'w') as f:
            f.write('{}')
        want = ['/'.join([p] + [fmt.format(a, b) for a, b in k])
                for k in sorted(set(keys))]
        got = list(h.list_partitions(fs, p))
        if got != want:
            return [f'listed {got} instead of {want}']
        return []
    finally:
        if i['fs'] == 'memory':
            fs.rm(p, recursive=True)
        base.clean(p)


def types(i):
    """Keys of any type: refused, or named so that they can be read."""
    import numpy
    from zcollection import dataset as D
    from zcollection import partitioning as P
    cls = D.DelayedArray if i['delayed'] else D.Array
    n = len(i['keys'])
    vs, cols = [], []
    for j, t in enumerate(i['types']):
        x = numpy.array([k[j] for k in i['keys']]).astype(t)
        cols.append(x)
        vs.append(cls(f'k{j}', x, ('num', )))
    h = P.Sequence([f'k{j}' for j in range(len(i['types']))])
    try:
        got = list(h.split_dataset(D.Dataset(vs, delayed=i['delayed']),
                                   'num'))
    except (TypeError, ValueError):
        return []
    err = []
    for name, sl in got:
        try:
            key = h.parse('/'.join(name))
        except ValueError as exc:
            err.append(f'{name} cannot be read: {exc}')
            continue
        for (_, v), c in zip(key, cols):
            if not (c[sl['num']] == v).all():
                err.append(f'{name} holds {c[sl["num"]]}')
    return err[:3]


CASES = dict(types=types, date=date, seq=seq, foreign=foreign, listing=listing)


def generate(seed, tier):
    r = base.rng(seed, 'c02')
    q = tier == 'quick'
    for j in range(24 if q else 200):
        ts = [str(r.choice(['int8', 'int16', 'uint8', 'uint32', 'uint64',
                            'int64', 'float32', 'float64', 'bool',
                            'datetime64[D]'])) for _ in range(1 + j % 2)]
        ks = sorted([float(x) / 2 if 'float' in t else int(x) for x, t in zip(
            r.integers(0, 40, len(ts)), ts)] for _ in range(1 + j % 5))
        yield 'types', dict(types=ts, keys=ks, delayed=bool(r.integers(2)))
    res = 'YMDhms'
    for x in res:
        for d in ((2000, 2, 29, 23, 59, 59), (1999, 12, 31, 0, 0, 0),
                  (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59),
                  (1969, 12, 31, 23, 59, 59), (1970, 1, 1, 0, 0, 0),
                  (10, 10, 10, 10, 10, 10), (999, 3, 1, 1, 1, 1)):
            yield 'date', dict(res=x, dt=list(d))
    for _ in range(300 if q else 5000):
        d = datetime.datetime(1, 1, 1) + datetime.timedelta(
            days=int(r.integers(0, 3652058)),
            seconds=int(r.integers(0, 86400)))
        yield 'date', dict(res=str(r.choice(list(res))),
                           dt=list(d.timetuple()[:6]))
        n = int(r.integers(1, 5))
        hi = int(r.choice([3, 200, 10**6, 2**62]))
        yield 'seq', dict(names=[f'k{j}' for j in range(n)],
                          values=[int(v) for v in r.integers(-hi, hi, n)])
    for names in (['cycle', 'pass'], ['a', 'aa'], ['aa', 'a'], ['x_1']):
        yield 'seq', dict(names=names, values=list(range(3, 3 + len(names))))
    for x, bad in (('D', ['year=2020', 'year=2020/month=01', 'month=1/day=2',
                          'foo', '', 'year=2020/month=aa/day=01',
                          'year=2020/day=01/month=01']),
                   ('Y', ['month=01', 'yea=2020', 'year=', 'year=x',
                          'xyear=2020', 'year=2020x', 'year=2020/x',
                          'year =2020', 'year=20-20'])):
        for b in bad:
            yield 'foreign', dict(res=x, name=b)
    for b in ('a=1', 'b=1', 'a=1/b=', 'a=/b=1', 'a=1/c=1', 'b=1/a=1', 'foo',
              'a=1/b=z', 'ba=1/b=1', 'a=1/xb=1', 'a=1//b=1', 'a=1/b=1/c=1',
              'a=1b=1', 'a=1/b=1.5', 'a=1.5/b=1'):
        yield 'foreign', dict(res=None, names=['a', 'b'], name=b)
    for name in ('a.b', 'a+b', 'a(b', 'a*', '[x]', 'a-b', 'a b'):
        yield 'seq', dict(names=[name, 'k'], values=[7, -3])
        yield 'seq', dict(names=['k', name], values=[0, 12])
    yield 'foreign', dict(res=None, names=['a.b'], name='axb=1')
    yield 'foreign', dict(res=None, names=['k', 'a.b'], name='k=1/axb=1')
    for j in range(30 if q else 200):
        n = int(r.integers(1, 12))
        bs = str(r.choice(['c', 'k0=5', 'year=2020', 'a.b', 'x=1']))
        fs = str(r.choice(['file', 'memory']))
        if j % 2:
            m = int(r.integers(1, 4))
            hi = int(r.choice([3, 12, 2000]))
            yield 'listing', dict(res=None, base=bs, fs=fs,
                                  keys=r.integers(-hi, hi, (n, m)).tolist())
        else:
            x = str(r.choice(list(res)))
            keys = []
            for _ in range(n):
                d = datetime.datetime(int(r.choice([900, 1999, 2000])), 1, 1
                                      ) + datetime.timedelta(seconds=int(
                                          r.integers(0, 4 * 10**7)))
                keys.append(list(d.timetuple()[:zc.RESN[x]]))
            yield 'listing', dict(res=x, base=bs, fs=fs, keys=keys)
