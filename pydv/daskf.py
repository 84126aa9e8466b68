"""Assumed contracts of the dask.array functions used on symbolic arrays.

A delayed array has the values of the numpy array it computes to; chunking is
not represented (the run-time contract checks vary it)."""
from __future__ import annotations

import dask
import dask.array
import dask.array.core
import dask.array.creation
import dask.array.reductions
import dask.array.routines
import dask.array.wrap

from . import theory
from .core import Unsupported, mkbool, z3
from .theory import Facade, SymArr, has_sym, zb


def _delay(x):
    if isinstance(x, SymArr):
        x = x.copy()
        x.delayed = True
    return x


def empty(shape, dtype='float64', chunks=None, **k):
    if has_sym(tuple(shape) if isinstance(shape, tuple) else (shape, )):
        return _delay(theory.np_empty(shape, dtype))
    return dask.array.wrap.empty(shape, dtype=dtype, chunks=chunks, **k)


def arange(*a, dtype=None, chunks=None, **k):
    if has_sym(a):
        return _delay(theory.np_arange(*a, dtype=dtype))
    return dask.array.creation.arange(*a, dtype=dtype, chunks=chunks, **k)


def vstack(seq, *a, **k):
    seq = tuple(seq)
    if has_sym(seq):
        return theory.np_vstack(seq)
    return dask.array.routines.vstack(seq, *a, **k)


def reduction(x, chunk, aggregate, axis=None, keepdims=None, dtype=None,
              **k):
    """Single-chunk instance: aggregate(chunk(x))."""
    if not isinstance(x, SymArr):
        return dask.array.reductions.reduction(x, chunk, aggregate, axis=axis,
                                               keepdims=keepdims, dtype=dtype,
                                               **k)
    y = chunk(x, axis=axis, keepdims=True)
    r = aggregate(y, axis=axis, keepdims=keepdims)
    return _delay(r) if isinstance(r, SymArr) else r


def logical_or_reduce(a, axis=0, **k):
    if isinstance(a, SymArr) and a.ncol is not None and axis in (1, (1, )):
        return a.new(a.n, lambda q: mkbool(z3.Or([zb(v) for v in a.at(q)])),
                     a.maxn, dtype='bool', ncol=None)
    if isinstance(a, SymArr):
        raise Unsupported('logical_or.reduce axis')
    import numpy
    return numpy.logical_or.reduce(a, axis=axis, **k)


def sub(real, **over):
    return Facade(real, over)


def dask_facade():
    wrap = sub(dask.array.wrap, empty=empty)
    creation = sub(dask.array.creation, arange=arange)
    red = sub(dask.array.reductions, reduction=reduction)
    routines = sub(dask.array.routines, vstack=vstack)
    arr = sub(dask.array, wrap=wrap, creation=creation, reductions=red,
              routines=routines, core=dask.array.core, vstack=vstack,
              arange=arange, empty=empty, reduction=reduction)
    return Facade(dask, dict(array=arr))
