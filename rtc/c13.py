"""Random configurations (types, fill values, codecs, filters, attributes,
chunks, limits, partitionings with data types, views with filters) written,
reopened and compared field by field; also the dictionary and JSON round trips
of each description. Non-trivial: at least one variable."""
import json

import numpy

from rtc import base, zc

DT = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
      'uint64', 'float32', 'float64', 'datetime64[ns]', 'datetime64[s]',
      'bool', 'S4', '>i4', 'timedelta64[us]']
FILL = {'int': [0, -1, 100, None], 'uint': [0, 255, None],
        'float': [0.0, -1.5, 2.0**90, 'nan', 'inf', '-inf', None],
        'datetime': [None], 'bool': [None, True], 'S4': [None],
        '>i4': [7, None], 'timedelta': [None]}
ATTR = [1, 2.5, 'x', [1, 2], ['a', 'b'], True, None, {'a': 1}, '', -3]
COMP = [None, ('Zlib', dict(level=1)), ('Blosc', dict(cname='lz4', clevel=3)),
        ('BZ2', dict(level=2)), ('GZip', dict(level=1))]
FILT = [[], [('Delta', dict(dtype='i4'))],
        [('FixedScaleOffset', dict(offset=0, scale=10, dtype='f8',
                                   astype='i4'))],
        [('Shuffle', dict(elementsize=4)), ('Zlib', dict(level=1))]]


def codec(x):
    import numcodecs
    return None if x is None else getattr(numcodecs, x[0])(**x[1])


def fill(v):
    return float(v) if isinstance(v, str) else v


def mkvar(v):
    m = zc.z().meta
    return m.Variable(
        v['name'], numpy.dtype(v['dtype']), dimensions=tuple(v['dims']),
        attrs=tuple(m.Attribute(*a) for a in v['attrs']),
        compressor=codec(v['comp']),
        fill_value=fill(v['fill']),
        filters=tuple(codec(f) for f in v['filt']))


def mkds(i):
    m = zc.z().meta
    return m.Dataset(tuple(i['dims']), [mkvar(v) for v in i['vars']],
                     attrs=[m.Attribute(*a) for a in i['attrs']],
                     chunks=[m.Dimension(*c) for c in i['chunks']],
                     block_size_limit=i['limit'])


def eqv(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b if not isinstance(
        a, (int, float, numpy.generic)) else a == b


def cmp_var(a, b):
    """Field by field, without the equality of the package."""
    err = []
    for f in ('name', 'dtype', 'dimensions'):
        if getattr(a, f) != getattr(b, f):
            err.append(f'{a.name}.{f}: {getattr(b, f)!r} instead of '
                       f'{getattr(a, f)!r}')
    fa, fb = a.fill_value, b.fill_value
    if (fa is None) != (fb is None) or (fa is not None and not (
            fa == fb or (fa != fa and fb != fb))):
        err.append(f'{a.name}.fill_value: {fb!r} instead of {fa!r}')
    ca = a.compressor.get_config() if a.compressor is not None else None
    cb = b.compressor.get_config() if b.compressor is not None else None
    if ca != cb:
        err.append(f'{a.name}.compressor: {cb} instead of {ca}')
    ca = [x.get_config() for x in a.filters]
    cb = [x.get_config() for x in b.filters]
    if ca != cb:
        err.append(f'{a.name}.filters: {cb} instead of {ca}')
    if attrs(a) != attrs(b):
        err.append(f'{a.name}.attrs: {attrs(b)} instead of {attrs(a)}')
    return err


def attrs(x):
    return sorted(((a.name, json.loads(json.dumps(a.value)))
                   for a in x.attrs), key=lambda t: t[0])


def cmp_ds(a, b, dims_order=True):
    err = []
    if tuple(a.dimensions) != tuple(b.dimensions):
        err.append(f'dimensions {b.dimensions} instead of {a.dimensions}')
    if attrs(a) != attrs(b):
        err.append(f'attrs {attrs(b)} instead of {attrs(a)}')
    if [(c.name, c.value) for c in a.chunks] != [(c.name, c.value)
                                                for c in b.chunks]:
        err.append(f'chunks {b.chunks} instead of {a.chunks}')
    if a.block_size_limit != b.block_size_limit:
        err.append(f'block_size_limit {b.block_size_limit} instead of '
                   f'{a.block_size_limit}')
    if set(a.variables) != set(b.variables):
        err.append(f'variables {sorted(b.variables)} instead of '
                   f'{sorted(a.variables)}')
    for k in set(a.variables) & set(b.variables):
        err += cmp_var(a.variables[k], b.variables[k])
    return err


def roundtrip(i):
    m = zc.z().meta
    a = mkds(i)
    ref = mkds(i)
    b = m.Dataset.from_config(json.loads(json.dumps(a.get_config())))
    err = cmp_ds(ref, b)
    c = m.Dataset.from_config(a.get_config())
    err += cmp_ds(ref, c)
    if json.dumps(b.get_config()) != json.dumps(a.get_config()):
        err.append('second conversion differs')
    for v in a.variables.values():
        err += cmp_var(v, m.Variable.from_config(
            json.loads(json.dumps(v.get_config()))))
    return err[:5]


def same_part(a, b):
    err = []
    if type(a) is not type(b):
        err.append(f'partitioning {b!r} instead of {a!r}')
    for f in ('variables', ):
        if tuple(getattr(a, f)) != tuple(getattr(b, f)):
            err.append(f'partitioning {f} {getattr(b, f)}')
    if a.dtype() != b.dtype():
        err.append(f'partitioning types {b.dtype()} instead of {a.dtype()}')
    if getattr(a, 'resolution', None) != getattr(b, 'resolution', None):
        err.append(f'resolution {b.resolution} instead of {a.resolution}')
    return err


def handler(i):
    P = zc.z().partitioning
    if i['part'][0] == 'Date':
        return P.Date(('time', ), i['part'][1])
    return P.Sequence(tuple(i['part'][1]), i['part'][2])


def keep(k):
    return k.get('k0', k.get('year', 0)) > -5


def reopen(i):
    base.client()
    p = base.scratch()
    fs = None
    try:
        a = mkds(i)
        h = handler(i)
        C = zc.z().Collection
        c = C('time', a, h, p, mode='w')
        err = []
        for k in range(2):
            for mode in (None, 'r', 'w'):
                r = zc.z().open_collection(p, mode=mode)
                err += cmp_ds(mkds(i), r.metadata)
                err += same_part(handler(i), r.partitioning)
                if r.axis != 'time':
                    err.append(f'axis {r.axis}')
                if r.partition_properties != c.partition_properties:
                    err.append(f'{r.partition_properties}')
                if r.immutable != c.immutable:
                    err.append('non-partitioned variables forgotten')
            if err:
                return err[:5]
            # written again by a schema change
            nv = dict(i['vars'][0], name='added', filt=[], dims=[i['dims'][0]])
            i2 = dict(i, vars=i['vars'] + [nv])
            r.add_variable(mkvar(nv))
            i = i2
            break
        err += cmp_ds(mkds(i), zc.reopen(p).metadata)
        return err[:5]
    finally:
        base.clean(p)


FILTERS = dict(none=None, expr='k0 == 1', func=keep)


def view(i):
    s = zc.Schema('seq', ncol=2, delayed=False)
    rows = s.rows(i['times'], i['keys'], 2)
    p = base.scratch()
    err = []
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        Z = zc.z()
        v = Z.create_view(p + '-v', Z.view.ViewReference(p),
                          filters=FILTERS[i['filter']])
        for j, spec in enumerate(i['vars']):
            v.add_variable(mkvar(spec))
        o = Z.open_view(p + '-v')
        err += cmp_ds(v.metadata, o.metadata)
        if {x['name'] for x in i['vars']} != set(o.metadata.variables):
            err.append(f'view variables {sorted(o.metadata.variables)}')
        for x in i['vars']:
            if x['name'] in o.metadata.variables:
                err += cmp_var(mkvar(x), o.metadata.variables[x['name']])
        if o.filters != v.filters and not callable(v.filters):
            err.append(f'filters {o.filters!r} instead of {v.filters!r}')
        if callable(v.filters) and (not callable(o.filters) or
                                    o.filters({'k0': -9}) or
                                    not o.filters({'k0': 3})):
            err.append(f'filters {o.filters!r}')
        if o.base_dir != v.base_dir or o.view_ref.partition_properties != \
                v.view_ref.partition_properties:
            err.append('base directory or reference changed')
        if list(o.partitions()) != list(v.partitions()):
            err.append(f'partitions {list(o.partitions())}')
        return err[:5]
    finally:
        base.clean(p)


def nothing(i):
    import os
    base.client()
    p = base.scratch()
    Z = zc.z()
    try:
        err = []
        if i['what'] == 'dir':
            os.makedirs(p)
        for f in (Z.open_collection, Z.open_view):
            before = base.tree(os.path.dirname(p))
            try:
                f(p)
                err.append(f'{f.__name__} accepted {i["what"]}')
            except ValueError:
                pass
            if base.tree(os.path.dirname(p)) != before:
                err.append(f'{f.__name__} wrote something')
        s = zc.Schema('date', delayed=False)
        rows = s.rows(['2000-01-01'], None, 2)
        q = p + 'q'
        zc.create(s, rows, q)
        try:
            Z.open_view(q)
            err.append('collection opened as a view')
        except ValueError:
            pass
        Z.create_view(q + 'v', Z.view.ViewReference(q))
        try:
            Z.open_collection(q + 'v')
            err.append('view opened as a collection')
        except ValueError:
            pass
        for f, a in ((Z.create_collection, ('time', s.dataset(rows),
                                            s.handler(), q)),
                     (Z.create_view, (q + 'v', Z.view.ViewReference(q)))):
            before = base.tree(os.path.dirname(p))
            try:
                f(*a)
                err.append(f'{f.__name__} over an existing location')
            except ValueError:
                pass
            if base.tree(os.path.dirname(p)) != before:
                err.append(f'{f.__name__} wrote something')
        return err
    finally:
        base.clean(p)


CASES = dict(roundtrip=roundtrip, reopen=reopen, view=view, nothing=nothing)


def rvar(r, name, dims):
    dt = str(r.choice(DT))
    fl = FILL[next(k for k in FILL if dt.startswith(k))]
    na = int(r.integers(0, 4))
    return dict(name=name, dtype=dt, dims=dims,
                fill=fl[r.integers(len(fl))],
                comp=COMP[r.integers(len(COMP))],
                filt=FILT[r.integers(len(FILT))] if dt != 'bool' else [],
                attrs=[[f'a{k}', ATTR[r.integers(len(ATTR))]]
                       for k in r.permutation(4)[:na]])


def rds(r):
    nd = int(r.integers(1, 4))
    dims = ['num', 'nx', 'ny'][:nd]
    vs = [dict(name='time', dtype='datetime64[ns]', dims=['num'], fill=None,
               comp=None, filt=[], attrs=[])]
    part = ['Date', str(r.choice(['Y', 'M', 'D', 'h', 'm', 's']))]
    if r.random() < 0.5:
        nc = int(r.integers(1, 4))
        ks = [f'k{j}' for j in range(nc)]
        dt = [str(r.choice(DT[:8])) for _ in ks] if r.random() < 0.7 else None
        part = ['Sequence', ks, dt]
        vs += [dict(name=k, dtype='int64', dims=['num'], fill=None, comp=None,
                    filt=[], attrs=[]) for k in ks]
    for j in range(int(r.integers(0, 4))):
        d = [x for x in dims if r.random() < 0.6]
        vs.append(rvar(r, f'v{9 - j}', d))
    order = r.permutation(len(vs))
    return dict(dims=dims, vars=[vs[k] for k in order], part=part,
                attrs=[[f'g{k}', ATTR[r.integers(len(ATTR))]]
                       for k in r.permutation(4)[:r.integers(0, 4)]],
                chunks=[[d, int(r.integers(1, 9))] for d in dims
                        if r.random() < 0.4],
                limit=[None, 1024, 10**6][r.integers(3)])


def generate(seed, tier):
    r = base.rng(seed, 'c13')
    q = tier == 'quick'
    for w in ('absent', 'dir'):
        yield 'nothing', dict(what=w)
    for j in range(40 if q else 2000):
        yield 'roundtrip', rds(r)
    for j in range(30 if q else 600):
        yield 'reopen', rds(r)
    for j in range(8 if q else 60):
        n = int(r.integers(1, 6))
        yield 'view', dict(
            times=zc.rand_times(r, n, 90), keys=zc.rand_keys(r, n, 2),
            filter=['none', 'expr', 'func'][j % 3],
            vars=[dict(rvar(r, f'w{k}', ['num']), filt=[])
                  for k in range(int(r.integers(1, 3)))])
