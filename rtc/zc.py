"""Reference model of collections and helpers driving the real package."""
from __future__ import annotations

import numpy

from . import base

DAY = numpy.timedelta64(1, 'D')
RES = dict(Y='Y', M='M', D='D', h='h', m='m', s='s')
RESKEYS = ('year', 'month', 'day', 'hour', 'minute', 'second')
RESN = dict(Y=1, M=2, D=3, h=4, m=5, s=6)


def z():
    import zcollection
    return zcollection


class Schema:
    """kind: 'date' | 'seq'; dim: name of the partitioned dimension."""

    def __init__(self, kind='date', res='D', dim='num', imm=False, nx=2,
                 ncol=2, delayed=True, unit='ns', chunk=None, limit=None,
                 missing=False, swap=True):
        self.swap = swap  # one variable has the dimension in second position
        self.kind, self.res, self.dim = kind, res, dim
        self.imm, self.nx, self.ncol = imm, nx, ncol
        self.delayed, self.unit = delayed, unit
        self.chunk, self.limit = chunk, limit
        self.missing = missing  # some values of v1 and v2 are missing

    @property
    def partvars(self):
        return ('time', ) if self.kind == 'date' else tuple(
            f"{'kjih'[i]}{i}" for i in range(self.ncol))

    @property
    def names(self):
        out = ['time', 'v1', 'v2']
        if self.kind == 'seq':
            out += list(self.partvars)
        if self.swap:
            out.append('v3')
        if self.imm:
            out.append('imm')
        return out

    def handler(self):
        P = z().partitioning
        if self.kind == 'date':
            return P.Date(('time', ), self.res)
        return P.Sequence(self.partvars)

    def rows(self, times, keys=None, seed=0):
        """Model rows: dict name -> ndarray."""
        n = len(times)
        r = numpy.random.default_rng([seed, 77])
        d = dict(
            time=numpy.array(times, dtype=f'datetime64[{self.unit}]'),
            v1=r.integers(-50, 50, n).astype('float64') / 4,
            v2=r.integers(-1000, 1000, (n, self.nx)).astype('int32'))
        # undefined values are values
        d['v1'][r.random(n) < .08] = numpy.nan
        if self.swap:
            d['v3'] = r.integers(-100, 100, (n, self.nx)).astype('int16')
        if self.missing:
            d['v1'][r.random(n) < .12] = self.fill('v1')
            d['v2'][r.random((n, self.nx)) < .06] = self.fill('v2')
        if self.kind == 'seq':
            keys = numpy.array(keys, dtype='int64').reshape(n, self.ncol)
            for i, k in enumerate(self.partvars):
                d[k] = keys[:, i]
        return d

    def imm_values(self):
        return numpy.arange(self.nx, dtype='float64') * 1.5

    def dims(self, name):
        if name == 'v2':
            return (self.dim, 'nx')
        if name == 'v3':
            return ('nx', self.dim)
        if name == 'imm':
            return ('nx', )
        return (self.dim, )

    def fill(self, name):
        return {'v1': -99.5, 'v2': 2**31 - 1, 'v3': 0}.get(name)

    def dataset(self, rows, delayed=None, variables=None, with_imm=True):
        m = z()
        from zcollection import dataset as D
        delayed = self.delayed if delayed is None else delayed
        cls = D.DelayedArray if delayed else D.Array
        vs = []
        for k, v in rows.items():
            if variables is not None and k not in variables:
                continue
            v = v.T.copy() if self.dims(k)[0] == 'nx' else v.copy()
            vs.append(cls(k, v, self.dims(k),
                          attrs=(D.Attribute('unit', k + '_unit'), ),
                          fill_value=self.fill(k)))
        if self.imm and with_imm:
            vs.append(cls('imm', self.imm_values(), ('nx', )))
        kw = {}
        if self.chunk:
            kw['chunks'] = (m.meta.Dimension(self.dim, self.chunk), )
        if self.limit:
            kw['block_size_limit'] = self.limit
        return D.Dataset(vs, attrs=(D.Attribute('title', 'T'), ),
                         delayed=delayed, **kw)

    def key(self, rows, i):
        if self.kind == 'date':
            t = rows['time'][i].astype(f'datetime64[{RES[self.res]}]')
            return date_key(t, self.res)
        return tuple((k, int(rows[k][i])) for k in self.partvars)

    def split(self, rows):
        """{key: rows} of the model."""
        idx = {}
        for i in range(len(rows['time'])):
            idx.setdefault(self.key(rows, i), []).append(i)
        return {k: take(rows, v) for k, v in idx.items()}

    def relname(self, key):
        if self.kind == 'date':
            out = []
            for k, v in key:
                out.append(f'{k}={v:02d}')
            return '/'.join(out)
        return '/'.join(f'{k}={v}' for k, v in key)


def date_key(t, res):
    """Independent decoding of a date into the key of its partition."""
    import datetime
    s = str(t.astype('datetime64[s]'))
    y, mo, d = s[:10].split('-')
    h, mi, se = s[11:19].split(':')
    vals = [int(y), int(mo), int(d), int(h), int(mi), int(se)]
    return tuple(zip(RESKEYS[:RESN[res]], vals))


def take(rows, idx):
    return {k: v[idx] for k, v in rows.items()}


def cat(parts, names=None):
    parts = list(parts)
    return {k: numpy.concatenate([p[k] for p in parts]) for k in parts[0]}


def sort_time(rows):
    return take(rows, numpy.argsort(rows['time'], kind='stable'))


def values(var):
    v = var.values
    if hasattr(v, 'compute'):
        v = v.compute()
    return v


def ds_rows(zds, names=None):
    out = {}
    for k, v in zds.variables.items():
        if names is None or k in names:
            a = values(v)
            a = numpy.ma.asarray(a) if numpy.ma.isMaskedArray(
                a) else numpy.asarray(a)
            # the rows of the model come first
            out[k] = a.T if a.ndim == 2 and v.dimensions[0] == 'nx' else a
    return out


def expect(rows, schema):
    """Model rows as they are read: fill values are masked."""
    out = {}
    for k, v in rows.items():
        f = schema.fill(k) if schema else None
        out[k] = numpy.ma.masked_equal(v, f) if f is not None else v
    return out


def diff_rows(got, want, label=''):
    err = []
    if set(got) != set(want):
        err.append(f'{label}: variables {sorted(got)} instead of '
                   f'{sorted(want)}')
    for k in sorted(set(got) & set(want)):
        g, w = got[k], want[k]
        if not eq_masked(g, w):
            err.append(f'{label}: {k} is {show(g)} instead of {show(w)}')
    return err


def eq_masked(g, w):
    """A masked array without any masked entry equals a plain array."""
    gm, wm = numpy.ma.getmaskarray(numpy.ma.asarray(g)), \
        numpy.ma.getmaskarray(numpy.ma.asarray(w))
    if gm.shape != wm.shape or not numpy.array_equal(gm, wm):
        return False
    return base.same(numpy.asarray(numpy.ma.getdata(g))[~gm],
                     numpy.asarray(numpy.ma.getdata(w))[~wm])


def show(a):
    s = f'{numpy.shape(a)} {getattr(a, "dtype", "")} ' + \
        str(numpy.ma.asarray(a).tolist())
    return s.replace('\n', ' ')[:160]


def create(schema, rows, path, **kw):
    base.client()
    return z().create_collection('time', schema.dataset(rows),
                                 schema.handler(), path, **kw)


def reopen(path, mode='w', **kw):
    return z().open_collection(path, mode=mode, **kw)


def read_store(path, fs=None):
    """Independent reader: {relative partition: {variable: ndarray}} read
    with zarr only (no code of the package)."""
    import fsspec
    import zarr
    fs = fs or fsspec.filesystem('file')
    out = {}
    for f in fs.find(path):
        if f.endswith('/.zmetadata'):
            d = f[:-len('/.zmetadata')]
            rel = d[d.index(path.rstrip('/')) + len(path.rstrip('/')):].strip(
                '/') if path.rstrip('/') in d else d
            g = zarr.open_consolidated(fs.get_mapper(d), mode='r')
            o = {}
            for k in g:
                a = g[k]
                v = a[...]
                if a.fill_value is not None and v.dtype.kind not in 'M':
                    v = numpy.ma.masked_equal(v, a.fill_value)
                o[k] = v.T if v.ndim == 2 and a.attrs[
                    '_ARRAY_DIMENSIONS'][0] == 'nx' else v
            out[rel] = o
    return out


def check_store(path, schema, state, fs=None, label='store', imm=None):
    """Compare the stored partitions with the model state {key: rows}."""
    got = read_store(path, fs)
    err = []
    g_imm = got.pop('.immutable', None)
    want = {schema.relname(k): v for k, v in state.items()}
    if set(got) != set(want):
        err.append(f'{label}: partitions {sorted(got)} instead of '
                   f'{sorted(want)}')
    for k in sorted(set(got) & set(want)):
        err += diff_rows(got[k], expect(want[k], schema), f'{label} {k}')
    if imm is None:
        imm = schema.imm and bool(state)
    if imm:
        if g_imm is None:
            err.append(f'{label}: no non-partitioned variables')
        else:
            err += diff_rows(g_imm, {'imm': schema.imm_values()},
                             f'{label} .immutable')
    return err


def check_load(col, schema, state, label='load', names=None, **kw):
    """Collection.load() against the model."""
    zds = col.load(**kw)
    keys = sorted(state)
    if not keys:
        return [] if zds is None else [f'{label}: something loaded']
    if zds is None:
        return [f'{label}: nothing loaded']
    rows = expect(cat(state[k] for k in keys), schema)
    if schema.imm:
        rows['imm'] = schema.imm_values()
    if names is not None:
        rows = {k: v for k, v in rows.items() if k in names}
    err = diff_rows(ds_rows(zds), rows, label)
    n = sum(len(v['time']) for v in state.values())
    if zds.dimensions.get(schema.dim, n) != n:
        err.append(f'{label}: dimension {zds.dimensions}')
    return err


# ------------------------------------------------------ generators ----
def rand_times(r, n, span, start='2000-01-01', unit='h', sort=True):
    t0 = numpy.datetime64(start, 'ns')
    off = r.integers(0, span, n)
    if sort:
        off = numpy.sort(off)
    return [str(t0 + numpy.timedelta64(int(o), unit)) for o in off]


def rand_keys(r, n, ncol, hi=3):
    k = r.integers(0, hi, (n, ncol))
    k = k[numpy.lexsort(k.T[::-1])]
    return k.tolist()
