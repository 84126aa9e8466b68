"""Random datasets (shapes with zero sizes and scalars, integer, float,
boolean, date and string types, fill values, masks, compressors, chunks and
block size limits) written and read back, lazily and eagerly; arrays updated
and added in place; non-trivial: at least one variable."""
import numpy

from rtc import base, zc

DT = ('int8', 'uint16', 'int32', 'int64', 'float32', 'float64', 'bool',
      'datetime64[ns]', 'timedelta64[us]', 'U4', 'S3')


def array(v, sizes, r):
    shape = tuple(sizes[d] for d in v['dims'])
    a = r.integers(0, 6, shape)
    dt = v['dtype']
    if dt[0] in 'US':
        return a.astype(dt)
    if dt.startswith('float') and v['nan'] and a.size:
        a = a.astype(dt)
        a.flat[0] = numpy.nan
        return a
    return a.astype(dt)


ATTRS = dict(unit='m', n=[1, 2], i=2**60 + 1, f=0.1, b=True, s='xyz',
             a=[[1, 2], [3, 4]], none=None, z=0, l=['u', 1.5])


def given_attrs():
    """The attributes ATTRS, as given by users."""
    return dict(ATTRS, i=numpy.int64(2**60 + 1), f=numpy.float64(0.1),
                b=numpy.bool_(True), s=numpy.str_('xyz'),
                a=numpy.array([[1, 2], [3, 4]], 'int16'),
                z=numpy.uint8(0)).items()


def typed(x):
    return (type(x).__name__, [typed(y) for y in x] if isinstance(x, list)
            else x)


def same_attrs(attrs, want):
    got = {x.name: x.value for x in attrs}
    return len(attrs) == len(want) and {
        k: typed(v) for k, v in got.items()} == {
            k: typed(v) for k, v in want.items()}


def fill(v):
    if v['fill'] is None:
        return None
    return numpy.dtype(v['dtype']).type(v['fill'])


def make(i, delayed):
    import numcodecs
    from zcollection import dataset as D
    r = numpy.random.default_rng(i['seed'])
    ref, vs = {}, []
    for k, v in i['vars'].items():
        a = array(v, i['sizes'], r)
        ref[k] = a
        f = fill(v)
        data = a.copy()
        if v['masked'] and f is not None and a.ndim:
            data = numpy.ma.masked_array(
                numpy.where(a == f, f, a).astype(a.dtype), mask=(a == f),
                fill_value=f)
        if delayed and a.ndim and a.size and i['src_chunk'] and \
                not numpy.ma.isMaskedArray(data):
            import dask.array
            data = dask.array.from_array(data, chunks=i['src_chunk'])
        vs.append((D.DelayedArray if delayed else D.Array)(
            k, data, v['dims'],
            attrs=tuple(D.Attribute(*x) for x in given_attrs()),
            fill_value=f,
            compressor=numcodecs.Zlib(1) if v['zlib'] else None,
            filters=[numcodecs.Shuffle(a.dtype.itemsize)]
            if v['zlib'] and v['dtype'][0] in 'if' else None))
    return ref, D.Dataset(
        vs, attrs=[D.Attribute('title', 'x')] + [
            D.Attribute(*x) for x in given_attrs()], delayed=delayed,
        block_size_limit=i['limit'], chunks=[
            D.Dimension(d, c) for d, c in i['chunks'].items()])


def compare(zds, ref, i, lb, delayed):
    err = []
    if set(zds.variables) != set(ref):
        return [f'{lb}: variables {sorted(zds.variables)}']
    if not same_attrs(zds.attrs, dict(ATTRS, title='x')):
        err.append(f'{lb}: attributes {zds.attrs}')
    for k, a in ref.items():
        v, d = zds.variables[k], i['vars'][k]
        if type(v).__name__ != ('DelayedArray' if delayed else 'Array'):
            err.append(f'{lb}: {k} is a {type(v).__name__}')
        if tuple(v.dimensions) != tuple(d["dims"]):
            err.append(f'{lb}: {k} dimensions {v.dimensions}')
        if v.dtype != a.dtype:
            err.append(f'{lb}: {k} dtype {v.dtype} instead of {a.dtype}')
        if v.shape != a.shape:
            err.append(f'{lb}: {k} shape {v.shape} instead of {a.shape}')
        if not same_attrs(v.attrs, ATTRS):
            err.append(f'{lb}: {k} attributes {v.attrs}')
        f = fill(d)
        if (v.fill_value is None) != (f is None) or (
                f is not None and f == f and v.fill_value != f):
            err.append(f'{lb}: {k} fill value {v.fill_value!r} instead of '
                       f'{f!r}')
        if a.ndim and (v.compressor is None) == d['zlib']:
            err.append(f'{lb}: {k} compressor {v.compressor}')
        want = a if f is None else numpy.ma.masked_equal(a, f)
        if not zc.eq_masked(v.values, want):
            err.append(f'{lb}: {k} is {zc.show(v.values)} instead of '
                       f'{zc.show(want)}')
    return err


def store(i):
    import fsspec
    from zcollection import storage, sync
    base.client()
    fs = fsspec.filesystem('file')
    err = []
    for delayed in (False, True):
        p = base.scratch('g')
        try:
            ref, zds = make(i, delayed)
            if i['distributed']:
                import dask.distributed
                c = base.client()
                c.submit(_write, zds, p, pure=False).result()
            elif delayed and i.get('method'):
                zds.to_zarr(p, parallel=i['method'] == 'parallel')
            else:
                storage.write_zarr_group(zds, p, fs, sync.NoSync(),
                                         distributed=False)
            for lazy in (False, True):
                got = storage.open_zarr_group(p, fs, delayed=lazy)
                err += compare(got, ref, i, f'store {delayed} open {lazy}',
                               lazy)
                one = next(iter(ref))
                got = storage.open_zarr_group(
                    p, fs, delayed=lazy, selected_variables=[one, 'nope'])
                if list(got.variables) != [one]:
                    err.append(f'selected {list(got.variables)}')
                elif not base.same(numpy.ma.getdata(got.variables[one].values),
                                   ref[one]):
                    err.append(f'selected {one} changed')
            if not storage.check_zarr_group(p, fs):
                err.append('the written group is reported invalid')
            # write a second time over the first one: nothing remains of it
            j = dict(i, seed=i['seed'] + 1)
            ref, zds = make(j, delayed)
            storage.write_zarr_group(zds, p, fs, sync.NoSync(),
                                     distributed=False)
            err += compare(storage.open_zarr_group(p, fs, delayed=False), ref,
                           i, 'rewritten', False)
            if delayed and err:
                break
        finally:
            base.clean(p)
    return err[:4]


def _write(zds, p):
    import fsspec
    from zcollection import storage, sync
    storage.write_zarr_group(zds, p, fsspec.filesystem('file'), sync.NoSync())


def update(i):
    import dask.array
    import fsspec
    from zcollection import dataset as D
    from zcollection import meta, storage, sync
    fs = fsspec.filesystem('file')
    p = base.scratch('g')
    err = []
    try:
        ref, zds = make(i, False)
        storage.write_zarr_group(zds, p, fs, sync.NoSync(), distributed=False)
        names = list(ref)
        k = names[i['which'] % len(names)]
        v = i['vars'][k]
        f = fill(v)
        new = array(dict(v, nan=False), i['sizes'],
                    numpy.random.default_rng(i['seed'] + 5))
        given = new.copy()
        if f is not None and i['mode'] in ('masked', 'dask-masked'):
            m = new == f
            given = numpy.ma.masked_array(
                numpy.where(m, new.dtype.type(1), new).astype(new.dtype),
                mask=m)
        if i['mode'].startswith('dask'):
            given = dask.array.from_array(given, chunks=-1)
        storage.update_zarr_array(p + '/' + k, given, fs)
        for lazy in (False, True):
            err += compare(storage.open_zarr_group(p, fs, delayed=lazy),
                           dict(ref, **{k: new}), i, f'update {i["mode"]}',
                           lazy)
        # a new array, on the shape of the previous one
        mv = meta.Variable('new', numpy.dtype('float32'),
                           dimensions=tuple(v['dims']),
                           attrs=tuple(D.Attribute(*x)
                                       for x in given_attrs()),
                           fill_value=numpy.float32(-3))
        storage.add_zarr_array(p, mv, k, fs,
                               chunks=dict(i['chunks']) or None)
        j = dict(i, vars=dict(i['vars'], new=dict(
            dims=v['dims'], dtype='float32', fill=-3, zlib=False)))
        want = dict(ref, **{k: new}, new=numpy.full(
            new.shape, -3, 'float32'))
        err += compare(storage.open_zarr_group(p, fs), want, j, 'added', True)
        storage.del_zarr_array(p, 'new', fs)
        want.pop('new')
        err += compare(storage.open_zarr_group(p, fs), want, i, 'deleted',
                       True)
        return err[:4]
    finally:
        base.clean(p)


CASES = dict(store=store, update=update)
BUDGET = dict(quick=150)


def generate(seed, tier):
    r = base.rng(seed, 'c21')
    for j in range(60 if tier == 'quick' else 900):
        sizes = {d: int(r.choice([0, 1, 2, 3, 5, 7], p=[
            .06, .14, .2, .2, .2, .2])) for d in 'xyz'}
        vs = {}
        for n in range(int(r.integers(1, 4))):
            k = int(r.choice([0, 1, 2, 3], p=[.08, .5, .32, .1]))
            dt = str(r.choice(DT))
            can = dt[0] in 'iuf'
            fv = None
            if can and r.random() < .6:
                fv = int(r.integers(0, 6)) if r.random() < .8 or \
                    dt[0] != 'f' else float('nan')
            vs[f'v{9 - n}'] = dict(
                dims=['xyz'[t] for t in r.permutation(3)[:k]], dtype=dt,
                fill=fv, nan=bool(r.random() < .3), zlib=bool(
                    r.random() < .4), masked=bool(
                        r.random() < .4 and fv == fv))
        chunks = {d: int(r.integers(1, 5)) for d in 'xyz'
                  if r.random() < .5}
        if r.random() < .15 and all(sizes.values()):
            chunks['x'] = 'auto'
        yield 'store', dict(
            sizes=sizes, vars=vs, seed=int(r.integers(0, 10**6)),
            chunks=chunks, src_chunk=int(r.choice([0, 1, 2, 3])),
            limit=[None, 16, 64, 1 << 20][int(r.integers(0, 4))],
            distributed=bool(j % 3 == 0),
            method=[None, 'parallel', 'sequential'][j % 4 % 3])
        yield 'update', dict(
            sizes=sizes, vars=vs, seed=int(r.integers(0, 10**6)),
            chunks={d: c for d, c in chunks.items() if c != 'auto'},
            src_chunk=0, limit=None, which=int(r.integers(0, 3)),
            mode=str(r.choice(['plain', 'masked', 'dask', 'dask-masked'])))
