"""Compressed arrays of several types, shapes, fill values (also zero), chunks
and codecs, compared with numpy.ma arrays holding the same values: regions,
types, shapes, writes, operators with arrays of other fill values, numpy
functions, rechunking, dask; non-trivial: missing values present."""
import operator

import dask.array
import numcodecs
import numpy

from rtc import base

UFUNCS = ('add', 'subtract', 'multiply', 'maximum', 'minimum', 'less',
          'equal')
FUNCS = (('mean', {}), ('sum', dict(axis=0)), ('sum', {}), ('max', {}),
         ('std', {}), ('ravel', {}), ('clip', None), ('transpose', {}),
         ('cumsum', dict(axis=0)), ('diff', dict(axis=0)), ('sort', {}))


def build(d):
    """(reference array, compressed array) described by d."""
    from zcollection.compressed_array import CompressedArray
    r = base.rng(d['seed'], 'c23')
    a = r.integers(-3, 4, d['shape']).astype(d['dtype'])
    fill = d['fill']
    if d['dtype'][0] == 'f':
        a /= 2
    if d['dtype'].startswith('M8'):
        a = r.integers(0, 5, d['shape']).astype('i8').astype(d['dtype'])
        fill = None if fill is None else numpy.datetime64(2, 'D')
    ref = a if fill is None else numpy.ma.masked_equal(a, fill)
    given = a
    if d['masked'] and fill is not None:
        # The values under the mask are arbitrary.
        data = a.copy()
        data[numpy.ma.getmaskarray(ref)] = a.flat[0]
        given = numpy.ma.array(data, mask=numpy.ma.getmaskarray(ref))
    kw = {}
    if fill is not None:
        kw['fill_value'] = fill
    if d['chunks']:
        kw['chunks'] = tuple(max(1, min(c, s)) for c, s in
                             zip(d['chunks'], d['shape']))
    if d['comp']:
        kw['compressor'] = numcodecs.Zlib(1)
    if d['filters']:
        kw['filters'] = [numcodecs.Delta(dtype=d['dtype'])]
    return ref, CompressedArray(given, **kw)


def same(got, want):
    """Same values, type and missing entries."""
    if isinstance(got, dask.array.Array):
        got = got.compute(scheduler='synchronous')
    if type(got).__name__ == 'CompressedArray':
        got = got[...]
    mask = numpy.ma.getmaskarray(numpy.ma.asarray(want))
    if not numpy.array_equal(numpy.ma.getmaskarray(numpy.ma.asarray(got)),
                             mask):
        return False
    g, w = (numpy.ma.getdata(numpy.ma.asarray(x)) for x in (got, want))
    return g.shape == w.shape and g.dtype == w.dtype and \
        base.same(g[~mask], w[~mask])


def key(spec, shape):
    res = []
    for s, n in zip(spec, shape):
        if s[0] == 'int':
            res.append(s[1] % n)
        else:
            a, b = sorted((s[1] % (n + 1), s[2] % (n + 1)))
            res.append(slice(a, b))
    return tuple(res)


def outcome(f):
    try:
        return 'value', f()
    except Exception as e:  # noqa: BLE001
        return 'error', f'{type(e).__name__}: {e}'


def agree(err, lb, got, want):
    """When the plain array gives a result, the compressed one gives it."""
    kind, w = outcome(want)
    if kind == 'error':
        return
    k, g = outcome(got)
    if k == 'error':
        err.append(f'{lb}: {g}')
    elif not same(g, w):
        err.append(f'{lb}: {g!r} instead of {w!r}')


def read(i):
    err = []
    ref, c = build(i['a'])
    agree(err, 'all', lambda: c[...], lambda: ref)
    agree(err, '__array__', lambda: c.__array__(), lambda: ref)
    k = key(i['key'], ref.shape)
    if not err and not all(isinstance(x, int) for x in k):
        agree(err, f'{k}', lambda: c[k], lambda: ref[k])
    for t in ('f8', 'f4', 'i4'):
        if not i['a']['dtype'].startswith('M8'):
            agree(err, f'astype {t}', lambda: c.astype(t),
                  lambda: ref.astype(t))
            agree(err, f'__array__ {t}', lambda: c.__array__(t),
                  lambda: ref.astype(t))
    agree(err, 'astype', lambda: c.astype(), lambda: ref)
    agree(err, 'reshape', lambda: c.reshape(-1), lambda: ref.reshape(-1))
    agree(err, 'reshape', lambda: c.reshape(*ref.shape[::-1]),
          lambda: ref.reshape(*ref.shape[::-1]))
    if (c.shape, c.ndim, c.size, c.dtype, c.nbytes) != \
            (ref.shape, ref.ndim, ref.size, ref.dtype, ref.nbytes):
        err.append(f'shape {c.shape} {c.ndim} {c.size} {c.dtype}')
    return err[:4]


def write(i):
    """Writing a region changes it only."""
    err = []
    ref, c = build(i['a'])
    k = key(i['key'], ref.shape)
    if any(isinstance(x, int) for x in k):
        k = tuple(slice(x, x + 1) if isinstance(x, int) else x for x in k)
    val, _ = build(dict(i['a'], seed=i['a']['seed'] + 1000))
    want = ref.copy()
    if not want[k].size:
        return []
    given = val[k]
    want[k] = given
    if numpy.ma.isMaskedArray(given):
        data = given.data.copy()
        data[given.mask] = val.data.flat[0]
        given = numpy.ma.array(data, mask=numpy.ma.getmaskarray(given))
    c[k] = given
    agree(err, f'write {k}', lambda: c[...], lambda: want)
    return err


def ops(i):
    err = []
    ra, ca = build(i['a'])
    rb, cb = build(i['b'])
    if i['other'] == 'plain':
        cb = rb
    elif i['other'] == 'scalar':
        rb = cb = i['scalar']
    elif i['other'] == 'dask':
        cb = dask.array.from_array(rb)
    for name in UFUNCS:
        u = getattr(numpy, name)
        agree(err, name, lambda: u(ca, cb), lambda: u(ra, rb))
        if i['other'] not in ('plain', 'dask'):
            agree(err, name, lambda: u(cb, ca), lambda: u(rb, ra))
        agree(err, name + ' out', lambda: u(ca, ca), lambda: u(ra, ra))
    if i['other'] != 'dask':
        for op in (operator.add, operator.mul, operator.gt, operator.ne):
            agree(err, op.__name__, lambda: op(ca, cb), lambda: op(ra, rb))
    for u in (numpy.negative, numpy.absolute, numpy.square):
        agree(err, u.__name__, lambda: u(ca), lambda: u(ra))
    for axis in (0, None, ra.ndim - 1):
        for u in (numpy.add, numpy.maximum):
            agree(err, f'{u.__name__} reduce {axis}',
                  lambda: u.reduce(ca, axis=axis),
                  lambda: u.reduce(ra, axis=axis))
    return err[:4]


def functions(i):
    err = []
    ref, c = build(i['a'])
    for name, kw in FUNCS:
        f = getattr(numpy, name)
        args = (-1, 1) if kw is None else ()
        agree(err, name, lambda: f(c, *args, **(kw or {})),
              lambda: f(ref, *args, **(kw or {})))
    rb, cb = build(i['b'])
    agree(err, 'where', lambda: numpy.where(ref.astype(bool), c, cb),
          lambda: numpy.where(ref.astype(bool), ref, rb))
    for name in ('concatenate', 'stack', 'vstack'):
        f = getattr(numpy, name)
        agree(err, name, lambda: f([c, cb]), lambda: f([ref, rb]))
        agree(err, name, lambda: f((ref, cb)), lambda: f((ref, rb)))
    agree(err, 'by name', lambda: numpy.sum(a=c), lambda: numpy.sum(a=ref))
    agree(err, 'equal', lambda: numpy.array_equal(c, cb),
          lambda: numpy.array_equal(ref, rb))
    return err[:4]


def rechunk(i):
    """Rechunking, copying and dask keep the content."""
    from zcollection.compressed_array import (
        CompressedArray, dask_array_from_compressed_array)
    err = []
    ref, c = build(i['a'])
    ch = tuple(max(1, min(x, s)) for x, s in zip(i['chunks'], ref.shape))
    d = c.rechunk(ch)
    if tuple(d.chunks) != ch:
        err.append(f'chunks {d.chunks} instead of {ch}')
    for lb, x in (('rechunk', d), ('rechunk twice', d.rechunk(c.chunks)),
                  ('copy', CompressedArray(c)), ('unchanged', c)):
        agree(err, lb, lambda: x[...], lambda: ref)
        agree(err, lb + ' sum', lambda: numpy.add.reduce(x, axis=0),
              lambda: numpy.add.reduce(ref, axis=0))
        if x.dtype != ref.dtype or x.shape != ref.shape:
            err.append(f'{lb}: {x.shape} {x.dtype}')
        if (x.compressor, x.filters) != (c.compressor, c.filters):
            err.append(f'{lb}: {x.compressor} {x.filters}')
        f = c.fill_value
        if f is None and x.fill_value is not None or f is not None and \
                x.fill_value != f:
            err.append(f'{lb}: fill value {x.fill_value} instead of {f}')
    for x in (c, d):
        y = dask_array_from_compressed_array(x)
        agree(err, 'dask', lambda: y.compute(), lambda: ref)
        if i['a']['dtype'].startswith('M8'):
            continue
        agree(err, 'dask +', lambda: (y + 1).compute(), lambda: ref + 1)
        agree(err, 'dask sum', lambda: y.sum(axis=0).compute(),
              lambda: ref.sum(axis=0))
        mean = outcome(lambda: y.mean().compute())
        if mean[0] == 'error' or not numpy.ma.allclose(mean[1], ref.mean()):
            err.append(f'dask mean {mean[1]} instead of {ref.mean()}')
    return err[:4]


def blocks(i):
    """Compressed blocks of a dask array."""
    from zcollection.compressed_array import CompressedArray
    err = []
    ref, _ = build(dict(i['a'], masked=False))
    fill = None if i['a']['fill'] is None else ref.fill_value
    if i['a']['dtype'].startswith('M8'):
        return []
    x = dask.array.from_array(numpy.ma.getdata(ref), chunks=tuple(
        max(1, min(c, s)) for c, s in zip(i['chunks'], ref.shape)))
    y = x.map_blocks(CompressedArray, fill_value=fill).persist(
        scheduler='synchronous')

    def run(f):
        return lambda: f(y).compute(scheduler='synchronous')

    agree(err, 'compute', run(lambda y: y), lambda: ref)
    agree(err, 'sum', run(lambda y: y.sum(axis=0)), lambda: ref.sum(axis=0))
    agree(err, 'slice', run(lambda y: y[1:]), lambda: ref[1:])
    agree(err, 'join', run(lambda y: dask.array.concatenate([y, y[:2], y])),
          lambda: numpy.ma.concatenate([ref, ref[:2], ref]))
    if fill is not None:
        plain = numpy.ma.getdata(ref)
        z = x.map_blocks(CompressedArray).persist(scheduler='synchronous')
        for lb, o in (('plain', x), ('compressed', z)):
            agree(err, f'join {lb}', run(
                lambda y: dask.array.concatenate([y, o])),
                lambda: numpy.ma.concatenate([ref, plain]))
            agree(err, f'join to {lb}', run(
                lambda y: dask.array.concatenate([o, y[:2]])),
                lambda: numpy.ma.concatenate([plain, ref[:2]]))
    m = outcome(run(lambda y: y.mean()))
    if m[0] == 'error' or not numpy.ma.allclose(m[1], ref.mean()):
        err.append(f'mean {m[1]} instead of {ref.mean()}')
    return err[:4]


CASES = dict(read=read, write=write, ops=ops, functions=functions,
             rechunk=rechunk, blocks=blocks)


def generate(seed, tier):
    r = base.rng(seed, 'c23')

    def one(shape, fills=(None, 0, 2, 0, -1)):
        dt = ('i8', 'f8', 'i4', 'f4')[int(r.integers(4))]
        return dict(shape=shape, dtype=dt, seed=int(r.integers(1 << 30)),
                    fill=fills[int(r.integers(len(fills)))],
                    masked=bool(r.integers(2)), comp=bool(r.integers(2)),
                    filters=bool(r.integers(3) == 0),
                    chunks=None if r.integers(3) == 0 else
                    [int(x) for x in r.integers(1, 5, len(shape))])

    for j in range(30 if tier == 'quick' else 300):
        shape = [int(x) for x in r.integers(1, 7, 1 + j % 3)]
        a, b = one(shape), one(shape)
        if j % 10 == 7:
            a = dict(a, dtype='M8[D]', filters=False)
        k = [('int', int(r.integers(9))) if r.integers(3) == 0 else
             ('slice', int(r.integers(9)), int(r.integers(9)))
             for _ in shape]
        ch = [int(x) for x in r.integers(1, 7, len(shape))]
        yield 'read', dict(a=a, key=k)
        yield 'write', dict(a=a, key=k)
        yield 'rechunk', dict(a=a, chunks=ch)
        yield 'blocks', dict(a=a, chunks=ch)
        if a['dtype'][0] == 'M':
            continue
        yield 'functions', dict(a=a, b=b)
        yield 'ops', dict(a=a, b=b, scalar=(2, 1.5, True)[j % 3], other=(
            'compressed', 'plain', 'scalar', 'compressed', 'dask')[j % 5])
