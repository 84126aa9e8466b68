"""Arrays of any contents with symbolic shapes, and the assumed contracts of
the numpy and dask functions that select, delete and concatenate their rows.

``ND.at(i, j, ...)`` is the element at an index, so that an operation is
specified by what it does to every element; the number of axes is concrete.
"""
from __future__ import annotations

import dask
import dask.array
import dask.array.core
import dask.array.creation
import dask.array.ma
import dask.array.routines
import dask.array.wrap
import dask.base
import numpy

from . import theory, world
from .core import SymInt, Unsupported, cur, mkint, z3, zint
from .theory import Facade, I, norm_slice

Elem = z3.IntSort()


class ND:
    """kind: 'numpy' or 'dask'."""

    def __init__(self, shape, at, kind='numpy', dtype='int64', tag=None):
        self.dims = tuple(I(zint(s)) if zint(s) is not None else I(s)
                          for s in shape)
        self.at = at
        self.kind = kind
        self.dtype = numpy.dtype(dtype)
        self.tag = tag

    @property
    def shape(self):
        return tuple(mkint(s) for s in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = mkint(z3.IntVal(1))
        for s in self.shape:
            r = r * s
        return r

    @property
    def _meta(self):
        return numpy.empty((0, ) * self.ndim, self.dtype)

    def __len__(self):
        raise Unsupported('len of an array')

    def like(self, shape, at):
        return ND(shape, at, self.kind, self.dtype)

    def copy(self, *a, **k):
        return self.like(self.dims, self.at)

    def rechunk(self, *a, **k):
        if self.kind != 'dask':
            raise AttributeError('rechunk')
        return self.like(self.dims, self.at)

    def persist(self, *a, **k):
        return self.rechunk()

    def compute(self, *a, **k):
        if self.kind != 'dask':
            raise AttributeError('compute')
        return ND(self.dims, self.at, 'numpy', self.dtype)

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key, )
        if sum(k is Ellipsis for k in key) > 1:
            raise IndexError('ellipsis')
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + (slice(None), ) * (self.ndim - len(key) +
                                               1) + key[p + 1:]
        if len(key) > self.ndim:
            raise IndexError('too many indices')
        key = key + (slice(None), ) * (self.ndim - len(key))
        if sum(isinstance(k, Rows) for k in key) > 1:
            raise Unsupported('several index arrays')
        shape, maps = [], []
        for s, k in zip(self.dims, key):
            if isinstance(k, slice):
                a, b = norm_slice(k, s)
                shape.append(b - a)
                maps.append(lambda i, a=a: a + i)
            elif isinstance(k, Rows):
                shape.append(k.n)
                maps.append(lambda i, k=k: k.row(i))
                cur().prove(k.inside(s), 'indices inside the array')
            elif isinstance(k, (int, SymInt)):
                raise Unsupported('axis removed by an integer')
            else:
                raise Unsupported(f'index {k!r}')
        at = self.at
        return self.like(shape, lambda *ix: at(*(m(i) for m, i in
                                                 zip(maps, ix))))


class Rows:
    """Index array: rows selected along one axis."""

    def __init__(self, ctx, name, bound):
        self.n = ctx.int(name + '_n')
        ctx.assume(self.n >= 0)
        self.f = ctx.func(name)
        self.bound = bound

    def row(self, i):
        return self.f(i)

    def inside(self, s):
        # the index array was drawn below ``bound``
        return s == self.bound if self.bound is not None else z3.BoolVal(
            False)


class Deleted:
    """Index list given to delete: kept(n, i) is the i-th kept row out of n,
    count(n) their number (functions of the list and of n only)."""

    def __init__(self, ctx, name):
        self.kept = z3.Function(name + '_kept', Elem, Elem, Elem)
        self.count = z3.Function(name + '_count', Elem, Elem)


def delete(arr, obj, axis=None, kind='numpy'):
    if not isinstance(arr, ND) or axis is None:
        raise Unsupported('delete')
    if arr.kind != kind:
        raise TypeError(f'delete of a {arr.kind} array')
    axis = int(axis)
    if not -arr.ndim <= axis < arr.ndim:
        raise ValueError('axis')
    axis %= arr.ndim
    n = arr.dims[axis]
    if isinstance(obj, slice):
        a, b = norm_slice(obj, n)
        m = n - (b - a)

        def move(i):
            return z3.If(i < a, i, i + (b - a))
    elif isinstance(obj, Deleted):
        m = obj.count(n)
        cur().assume(m >= 0)

        def move(i):
            return obj.kept(n, i)
    else:
        raise Unsupported(f'delete {obj!r}')
    at = arr.at
    return arr.like(arr.dims[:axis] + (m, ) + arr.dims[axis + 1:],
                    lambda *ix: at(*ix[:axis], move(ix[axis]),
                                   *ix[axis + 1:]))


def concatenate(seq, axis=0, kind='numpy', **k):
    seq = tuple(seq)
    if not any(isinstance(x, ND) for x in seq):
        raise Unsupported('concatenate')
    if any(x.kind != kind for x in seq):
        raise TypeError('concatenate of another kind of array')
    if k:
        raise Unsupported(f'concatenate {k}')
    r = seq[0]
    axis = int(axis)
    if not -r.ndim <= axis < r.ndim:
        raise ValueError('axis')
    axis %= r.ndim
    for x in seq[1:]:
        if x.ndim != r.ndim:
            raise ValueError('the arrays have different numbers of axes')
        for d in range(r.ndim):
            if d != axis and not (x.shape[d] == r.shape[d]):
                if kind == 'dask':
                    # dask ignores the arrays without elements
                    raise Unsupported('dask arrays of different shapes')
                raise ValueError('the arrays have different shapes')
    for x in seq[1:]:
        a, b, n = r.at, x.at, r.dims[axis]
        r = r.like(r.dims[:axis] + (n + x.dims[axis], ) + r.dims[axis + 1:],
                   lambda *ix, a=a, b=b, n=n: z3.If(
                       ix[axis] < n, a(*ix),
                       b(*ix[:axis], ix[axis] - n, *ix[axis + 1:])))
    return r


def full(shape, fill_value, dtype=None, kind='numpy', **k):
    v = fill_value
    return ND(shape, lambda *ix: v.term if hasattr(v, 'term') else I(v),
              kind, dtype or 'int64', tag=('full', fill_value))


def asarray(x, *a, **k):
    if isinstance(x, ND):
        if x.kind != 'numpy':
            return ND(x.dims, x.at, 'numpy', x.dtype, x.tag)
        return x
    return numpy.asanyarray(x, *a, **k)


def dask_asarray(x, *a, **k):
    if isinstance(x, ND):
        return x if x.kind == 'dask' else ND(x.dims, x.at, 'dask', x.dtype,
                                             x.tag)
    return dask.array.core.asarray(x, *a, **k)


def bind(f, kind):
    return lambda *a, **k: f(*a, **dict(k, kind=kind))


def nd_world():
    np = Facade(numpy, dict(
        concatenate=bind(concatenate, 'numpy'), delete=bind(delete, 'numpy'),
        full=bind(full, 'numpy'), asanyarray=asarray, asarray=asarray,
        array=asarray))
    core = Facade(dask.array.core, dict(
        concatenate=bind(concatenate, 'dask'), asarray=dask_asarray,
        from_array=dask_asarray))
    routines = Facade(dask.array.routines, dict(
        delete=bind(delete, 'dask'),
        concatenate=bind(concatenate, 'dask')))
    wrap = Facade(dask.array.wrap, dict(full=bind(full, 'dask')))
    creation = Facade(dask.array.creation, dict(full=bind(full, 'dask')))
    arr = Facade(dask.array, dict(
        core=core, routines=routines, wrap=wrap, creation=creation,
        concatenate=bind(concatenate, 'dask'), delete=bind(delete, 'dask'),
        full=bind(full, 'dask'), asarray=dask_asarray))
    base = Facade(dask.base, dict(
        compute=lambda *a, **k: tuple(x.compute() for x in a),
        persist=lambda *a, **k: tuple(x.persist() for x in a)))
    return world.World(facades={
        'numpy': np,
        'dask': Facade(dask, dict(array=arr, base=base)),
    })
