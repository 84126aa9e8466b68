"""Symbolic sequences and arrays; assumed contracts of builtins, numpy, dask."""
from __future__ import annotations

import builtins as _b
import contextlib
import itertools as _it
import types

import numpy as _np

from . import core
from .core import (Sym, SymBool, SymInt, SymTime, Unsupported, PathEnd, cur,
                   is_sym, ite, mkbool, mkint, z3, zbool, zint, time_parts)


@contextlib.contextmanager
def nofork():
    ctx = cur()
    ctx.nofork += 1
    try:
        yield
    finally:
        ctx.nofork -= 1


def I(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def forall(n, maxn, body, lo=0, patterns=None, spawn=None, dom=None):
    """For all lo <= k < n: body(k) (expanded when maxn bounds n)."""
    n = I(n)
    if z3.is_int_value(z3.simplify(n)):
        v = z3.simplify(n).as_long()
        maxn = v if maxn is None or v < maxn else maxn
        if v <= 12:
            maxn = min(maxn, v)
        elif maxn > 64:
            maxn = None
    with nofork():
        if maxn is not None:
            return z3.And([
                z3.Implies(i < n, zb(body(z3.IntVal(i))))
                for i in range(lo if isinstance(lo, int) else 0, maxn)
                if isinstance(lo, int)
            ] + ([] if isinstance(lo, int) else [
                z3.Implies(z3.And(lo <= i, i < n), zb(body(z3.IntVal(i))))
                for i in range(0, maxn)
            ]))
        k = z3.Int(cur().name('k'))
        t = zb(body(k))
        t = z3.Implies(z3.And(I(lo) <= k, k < n), t)
        q = z3.ForAll([k], t) if patterns is None else z3.ForAll(
            [k], t, patterns=[patterns(k)])
        cur().register(q, (1, lambda x: z3.Implies(
            z3.And(I(lo) <= x, x < n), zb(body(x))), spawn, dom), I(lo), n)
        return q


def exists(n, maxn, body):
    return z3.Not(forall(n, maxn, lambda k: z3.Not(zb(body(k)))))


def forall2(n, maxn, body, patterns=None, dom=None):
    """For all 0 <= i < j < n: body(i, j)."""
    n = I(n)
    with nofork():
        if maxn is not None:
            return z3.And([
                z3.Implies(j < n, zb(body(z3.IntVal(i), z3.IntVal(j))))
                for j in range(maxn) for i in range(j)
            ] + [z3.BoolVal(True)])
        i, j = z3.Int(cur().name('i')), z3.Int(cur().name('j'))
        t = z3.Implies(z3.And(0 <= i, i < j, j < n), zb(body(i, j)))
        if patterns is not None:
            q = z3.ForAll([i, j], t,
                          patterns=[z3.MultiPattern(*patterns(i, j))])
        else:
            q = z3.ForAll([i, j], t)
        cur().register(q, (2, lambda x, y: z3.Implies(
            z3.And(0 <= x, x < y, y < n), zb(body(x, y))), None, dom), I(0), n)
        return q


def zb(x):
    r = zbool(x)
    if r is None:
        raise Unsupported(f'not a condition: {x!r}')
    return r


def veq(a, b):
    """Equality of two element values as a z3 term."""
    if isinstance(a, tuple):
        if not isinstance(b, tuple) or len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([veq(x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return z3.BoolVal(False)
        return z3.And([veq(a[k], b[k]) for k in a] + [z3.BoolVal(True)])
    ta, tb = time_parts(a), time_parts(b)
    if ta and tb:
        u = core.finest(ta[1], tb[1])
        return core.rescale(ta[0], ta[1], u) == core.rescale(tb[0], tb[1], u)
    r = a == b
    return zb(r)


def vlt(a, b):
    """Strict (lexicographic) order of two element values."""
    if isinstance(a, tuple):
        r = z3.BoolVal(False)
        for x, y in reversed(list(zip(a, b))):
            r = z3.Or(vlt(x, y), z3.And(veq(x, y), r))
        return r
    return zb(a < b)


def vle(a, b):
    return z3.Or(vlt(a, b), veq(a, b))


def as_term(x):
    """z3 integer of an index-like value."""
    t = zint(x)
    if t is None:
        if hasattr(x, '__index__'):
            return z3.IntVal(x.__index__())
        raise Unsupported(f'not an integer: {x!r}')
    return t


def norm_slice(s, n):
    """(start, stop) terms of slice s on length n, clipped (step 1)."""
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        raise Unsupported('slice step')
    n = I(n)

    def clip(v, default):
        if v is None:
            return default
        v = as_term(v)
        if z3.is_int_value(v) and z3.is_int_value(n) is False and \
                v.as_long() == 1 and not cur()._feasible(n < 1):
            return v
        v = z3.If(v < 0, v + n, v)
        return z3.simplify(z3.If(v < 0, z3.IntVal(0), z3.If(v > n, n, v)))

    a = clip(s.start, z3.IntVal(0))
    b = clip(s.stop, n)
    b = z3.simplify(z3.If(b < a, a, b))
    return a, b


class SymSeq(Sym):
    """Sequence of symbolic length ``n``; ``f`` maps an index to a value."""

    def __init__(self, n, f, maxn=None, kind='list', **meta):
        n = I(n)
        self.n = z3.simplify(n)
        self.f = f
        if z3.is_int_value(self.n):
            v = max(0, self.n.as_long())
            maxn = v if maxn is None else min(v, maxn)
        self.maxn = maxn
        self.kind = kind
        self.meta = meta

    # total access, no bounds check
    def at(self, i):
        return self.f(I(i))

    def new(self, n, f, maxn=None, **meta):
        return type(self)(n, f, maxn=maxn, kind=self.kind, **meta)

    def __len__(self):
        if z3.is_int_value(self.n):
            return self.n.as_long()
        raise Unsupported('native len() of a symbolic sequence')

    def __bool__(self):
        return cur().branch(self.n != 0)

    def __iter__(self):
        if self.maxn is None:
            raise Unsupported('native iteration over an unbounded sequence')
        for k in range(self.maxn):
            if not cur().branch(self.n > k):
                return
            yield self.at(k)

    def check_index(self, i):
        i = as_term(i)
        if not cur().branch(z3.And(i >= -self.n, i < self.n)):
            cur().prune()
            raise IndexError('index out of range')
        return z3.simplify(z3.If(i < 0, i + self.n, i))

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b = norm_slice(i, self.n)
            return self.new(b - a, lambda k: self.at(a + k), self.maxn)
        return self.at(self.check_index(i))

    def __add__(self, o):
        if self.kind not in ('list', 'tuple'):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = lift(o, self.kind)
        if not isinstance(o, SymSeq):
            return NotImplemented
        return concat_seq([self, o], self.kind)

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return concat_seq([lift(o, self.kind), self], self.kind)
        return NotImplemented

    def __contains__(self, x):
        return cur().branch(
            exists(self.n, self.maxn, lambda k: veq(self.at(k), x)))

    def index(self, x):
        ctx = cur()
        if not ctx.branch(
                exists(self.n, self.maxn, lambda k: veq(self.at(k), x))):
            raise ValueError('not in sequence')
        w = ctx.int('index')
        ctx.assume(z3.And(0 <= w, w < self.n, veq(self.at(w), x)))
        ctx.assume(forall(self.n, self.maxn, lambda k: z3.Implies(
            k < w, z3.Not(veq(self.at(k), x)))))
        return mkint(w)

    def __eq__(self, o):
        if isinstance(o, (list, tuple)):
            o = lift(o)
        if not isinstance(o, SymSeq):
            return NotImplemented
        m = None if self.maxn is None or o.maxn is None else min(
            self.maxn, o.maxn)
        return mkbool(
            z3.And(self.n == o.n,
                   forall(self.n, m, lambda k: veq(self.at(k), o.at(k)))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(zb(r)))

    def __hash__(self):
        return id(self)

    def __conc__(self, model):
        n = core.conc(self.n, model)
        return [core.conc(self.at(k), model) for k in range(min(n, 64))]


class SymList(SymSeq):
    """Python list/tuple/iterator of symbolic length."""

    def __iter__(self):
        return super().__iter__()

    def append(self, x):
        n, f = self.n, self.f
        self.f = lambda k: ite(k == n, x, f(k)) if True else None
        self.n = z3.simplify(n + 1)
        if self.maxn is not None:
            self.maxn += 1

    def pop(self, i=-1):
        i = self.check_index(i)
        v = self.at(i)
        n, f = self.n, self.f
        if z3.is_int_value(i) and i.as_long() == 0:
            self.f = lambda k: f(k + 1)
        elif z3.is_true(z3.simplify(i == n - 1)):
            pass
        else:
            self.f = lambda k: ite(k < i, f(k), f(k + 1))
        self.n = z3.simplify(n - 1)
        return v


def lift(x, kind='list'):
    """Concrete sequence as a symbolic one."""
    if isinstance(x, SymSeq):
        return x
    x = list(x)

    def f(k):
        k = z3.simplify(k)
        if z3.is_int_value(k):
            v = k.as_long()
            return x[v] if 0 <= v < len(x) else (x[-1] if x else None)
        if not x:
            return None
        r = x[-1]
        for j in range(len(x) - 2, -1, -1):
            r = ite(k == j, x[j], r)
        return r

    segs = [(z3.IntVal(1), v) for v in x]
    return SymList(len(x), f, maxn=len(x), kind=kind, segs=segs)


def concat_seq(seqs, kind, cls=SymList, **meta):
    offs = [z3.IntVal(0)]
    for s in seqs:
        offs.append(z3.simplify(offs[-1] + s.n))

    def f(k):
        r = None
        for j in range(len(seqs) - 1, -1, -1):
            s = seqs[j]
            if s.maxn == 0:
                continue
            v = s.at(k - offs[j])
            r = v if r is None else ite(k < offs[j + 1], v, r)
        return r

    maxn = None if _b.any(s.maxn is None for s in seqs) else _b.sum(
        s.maxn for s in seqs)
    if _b.all('segs' in s.meta for s in seqs):
        meta['segs'] = [g for s in seqs for g in s.meta['segs']]
    return cls(offs[-1], f, maxn=maxn, kind=kind, **meta)


def repeat(seq, count):
    """seq * count for a concrete seq and symbolic count."""
    kind = 'tuple' if isinstance(seq, tuple) else 'list'
    c = as_term(count)
    c = z3.simplify(z3.If(c < 0, z3.IntVal(0), c))
    ln = len(seq)
    maxn = None
    ctx = cur()
    if ctx.size is not None:
        maxn = ctx.ghost.get('maxrep', 2 * ctx.size + 2) * ln
        ctx.assume(c * ln <= maxn)
    if ln == 1:
        v = seq[0]
        return SymList(c, lambda k: v, maxn=maxn, kind=kind, segs=[(c, v)])
    base = lift(seq)
    return SymList(c * ln, lambda k: base.at(k % ln), maxn=maxn, kind=kind)


# -------------------------------------------------------------------
# numpy / dask arrays
# -------------------------------------------------------------------
class SymArr(SymSeq):
    """One-dimensional array, or matrix whose rows are tuples of columns.

    ``delayed`` marks a dask array (same values; ``compute`` returns the numpy
    array)."""

    def __init__(self, n, f, maxn=None, kind='array', dtype=None, ncol=None,
                 delayed=False, **meta):
        super().__init__(n, f, maxn, 'array', **meta)
        self.dtype = _np.dtype(dtype) if dtype is not None else _np.dtype(
            'int64')
        self.ncol = ncol
        self.delayed = delayed

    def new(self, n, f, maxn=None, dtype=None, ncol=Ellipsis, **meta):
        return SymArr(n, f, maxn=maxn, dtype=dtype or self.dtype,
                      ncol=self.ncol if ncol is Ellipsis else ncol,
                      delayed=self.delayed, **meta)

    @property
    def size(self):
        return mkint(self.n if self.ncol is None else self.n * self.ncol)

    @property
    def shape(self):
        return (mkint(self.n), ) if self.ncol is None else (mkint(self.n),
                                                            self.ncol)

    @property
    def ndim(self):
        return 1 if self.ncol is None else 2

    @property
    def nbytes(self):
        return mkint(self.n * self.dtype.itemsize)

    @property
    def chunks(self):
        c = (mkint(self.n), )
        return (c, ) if self.ncol is None else (c, (self.ncol, ))

    @property
    def T(self):
        return self.transpose()

    def transpose(self):
        cols = self.meta.get('cols_major')
        if cols is not None:
            return make_matrix(cols, self.delayed)
        if self.ncol is None:
            return self
        raise Unsupported('transpose')

    def __len__(self):
        return super().__len__()

    def _getcol(self, j):
        if isinstance(j, SymInt):
            raise Unsupported('symbolic column')
        j = int(j)
        if not -self.ncol <= j < self.ncol:
            raise IndexError('column')
        return self.new(self.n, lambda k: self.at(k)[j], self.maxn, ncol=None)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            i = tuple(x for x in i if x is not Ellipsis)
            if len(i) == 0:
                return self
            if len(i) == 1:
                return self[i[0]]
            if len(i) == 2 and self.ncol is not None:
                rows = self if _full(i[0]) else self[i[0]]
                if _full(i[1]):
                    return rows
                if isinstance(rows, SymArr):
                    if isinstance(i[1], slice):
                        rg = range(self.ncol)[i[1]]
                        return rows.new(
                            rows.n, lambda k: tuple(
                                rows.at(k)[c] for c in rg), rows.maxn,
                            ncol=len(rg))
                    return rows._getcol(i[1])
                return rows[i[1]]
            raise Unsupported('index')
        if i is Ellipsis:
            return self
        if isinstance(i, slice):
            if i.step is not None and isinstance(i.step,
                                                 int) and i.step == -1 and (
                                                     i.start is None
                                                     and i.stop is None):
                return self.new(self.n, lambda k: self.at(self.n - 1 - k),
                                self.maxn)
            a, b = norm_slice(i, self.n)
            return self.new(b - a, lambda k: self.at(a + k), self.maxn)
        if isinstance(i, SymArr):
            if i.dtype.kind == 'b':
                return self[where_true(i)]
            cur().prove(forall(i.n, i.maxn, lambda k: z3.And(
                zint(i.at(k)) >= -self.n, zint(i.at(k)) < self.n)),
                        'array index in bounds')

            def g(k):
                v = zint(i.at(k))
                return self.at(z3.If(v < 0, v + self.n, v))
            if i.meta.get('nonneg'):
                g = lambda k: self.at(zint(i.at(k)))  # noqa: E731
            return self.new(i.n, g, i.maxn)
        if isinstance(i, (_np.ndarray, list)):
            return self[lift_arr(_np.asarray(i))]
        j = self.check_index(i)
        if self.maxn is None and cur().size is None:
            cur().instantiate(j)
        return self.at(j)

    def __setitem__(self, i, v):
        f = self.f
        if isinstance(i, slice):
            a, b = norm_slice(i, self.n)
            if isinstance(v, (SymArr, )):
                if not cur().branch(v.n == b - a):
                    if cur().branch(v.n == 1):
                        v0 = v.at(0)
                        self.f = lambda k: ite(z3.And(a <= k, k < b), v0, f(k))
                        return
                    raise ValueError('could not broadcast')
                self.f = lambda k: ite(z3.And(a <= k, k < b), v.at(k - a),
                                       f(k))
            else:
                self.f = lambda k: ite(z3.And(a <= k, k < b), v, f(k))
            return
        if isinstance(i, SymArr) and i.dtype.kind == 'b':
            self.f = lambda k: ite(zb(i.at(k)), v, f(k))
            return
        j = self.check_index(i)
        self.f = lambda k: ite(k == j, v, f(k))

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a symbolic array to numpy')

    # -- element-wise ------------------------------------------------
    def _ew(self, o, f, dtype):
        if isinstance(o, (_np.ndarray, list)) and _np.ndim(o) == 1:
            o = lift_arr(_np.asarray(o))
        if isinstance(o, SymArr):
            if not cur().branch(self.n == o.n):
                if cur().branch(o.n == 1):
                    v = o.at(0)
                    return self._ew(v, f, dtype)
                if cur().branch(self.n == 1):
                    v = self.at(0)
                    return o.new(o.n, lambda k: f(v, o.at(k)), o.maxn,
                                 dtype=dtype)
                raise ValueError('operands could not be broadcast together')
            m = None if self.maxn is None or o.maxn is None else min(
                self.maxn, o.maxn)
            r = self.new(self.n, lambda k: f(self.at(k), o.at(k)), m,
                         dtype=dtype)
            r.delayed = self.delayed or o.delayed
            return r
        meta = {'dom': self.meta['dom']} if 'dom' in self.meta else {}
        return self.new(self.n, lambda k: f(self.at(k), o), self.maxn,
                        dtype=dtype, **meta)

    def _lex(self, f):
        # comparison of matrices is element-wise
        if self.ncol is None:
            return f
        return lambda a, b: tuple(f(x, y) for x, y in zip(a, b))

    def __lt__(self, o):
        return self._ew(o, self._lex(lambda a, b: a < b), 'bool')

    def __le__(self, o):
        return self._ew(o, self._lex(lambda a, b: a <= b), 'bool')

    def __gt__(self, o):
        return self._ew(o, self._lex(lambda a, b: a > b), 'bool')

    def __ge__(self, o):
        return self._ew(o, self._lex(lambda a, b: a >= b), 'bool')

    def __eq__(self, o):
        return self._ew(o, self._lex(lambda a, b: a == b), 'bool')

    def __ne__(self, o):
        return self._ew(o, self._lex(lambda a, b: a != b), 'bool')

    def __hash__(self):
        return id(self)

    def _dt(self, o, op):
        k = self.dtype.kind
        ok = getattr(getattr(o, 'dtype', None), 'kind', 'i')
        if k in 'Mm' or ok in 'Mm':
            if op == '-' and k == ok:
                return self.dtype.str.replace('M8', 'm8')
            if k == 'M' or ok == 'M':
                return self.dtype if k == 'M' else o.dtype
            return self.dtype if k == 'm' else o.dtype
        return 'int64'

    def __add__(self, o):
        return self._ew(o, self._lex(lambda a, b: a + b), self._dt(o, '+'))

    def __radd__(self, o):
        return self._ew(o, self._lex(lambda a, b: b + a), self._dt(o, '+'))

    def __sub__(self, o):
        return self._ew(o, self._lex(lambda a, b: a - b), self._dt(o, '-'))

    def __mul__(self, o):
        return self._ew(o, self._lex(lambda a, b: a * b), self.dtype)

    def __and__(self, o):
        return self._ew(o, lambda a, b: mkbool(z3.And(zb(a), zb(b))), 'bool')

    __rand__ = __and__

    def __or__(self, o):
        return self._ew(o, lambda a, b: mkbool(z3.Or(zb(a), zb(b))), 'bool')

    __ror__ = __or__

    def __invert__(self):
        return self.new(self.n, lambda k: mkbool(z3.Not(zb(self.at(k)))),
                        self.maxn, dtype='bool')

    # -- methods --------------------------------------------------------
    def min(self, *a, **k):
        return self._extremum(lambda x, y: vle(x, y), 'min')

    def max(self, *a, **k):
        return self._extremum(lambda x, y: vle(y, x), 'max')

    def _extremum(self, le, name):
        ctx = cur()
        if not ctx.branch(self.n > 0):
            raise ValueError('zero-size array to reduction operation')
        w = ctx.int(name)
        ctx.assume(z3.And(0 <= w, w < self.n))
        v = self.at(w)
        ctx.assume(forall(self.n, self.maxn, lambda k: le(v, self.at(k))))
        if self.maxn is None:
            ctx.instantiate(w)
        return v

    def all(self, *a, **k):
        return np_all(self)

    def any(self, *a, **k):
        return np_any(self)

    def sum(self, *a, **k):
        return seq_sum(self)

    def nonzero(self):
        return (where_true(self), )

    def astype(self, dtype, *a, **k):
        dtype = _np.dtype(dtype)
        if dtype.kind in 'Mm' and self.dtype.kind == dtype.kind:
            return self.new(self.n,
                            lambda q: time_astype(self.at(q), dtype),
                            self.maxn, dtype=dtype)
        if dtype.kind in 'iu' and self.dtype.kind in 'iu':
            return self.new(self.n, self.f, self.maxn, dtype=dtype,
                            **self.meta)
        if dtype.kind in 'iu' and self.dtype.kind in 'Mm':
            return self.view(dtype)
        if dtype.kind in 'iu' and self.dtype.kind == 'b':
            return self.new(self.n, lambda q: mkint(zint(self.at(q))),
                            self.maxn, dtype=dtype)
        if dtype == self.dtype:
            return self
        raise Unsupported(f'astype {self.dtype} -> {dtype}')

    def view(self, dtype=None):
        if dtype is None:
            return self
        dtype = _np.dtype(dtype)
        if self.dtype.kind in 'Mm' and dtype.kind in 'iu':
            return self.new(self.n, lambda q: mkint(self.at(q).t), self.maxn,
                            dtype=dtype)
        return self

    def copy(self, *a, **k):
        return self.new(self.n, self.f, self.maxn, **self.meta)

    def rechunk(self, *a, **k):
        return self.copy()

    def persist(self, *a, **k):
        return self.copy()

    def compute(self, *a, **k):
        r = self.copy()
        r.delayed = False
        return r

    def ravel(self):
        return self

    flatten = ravel

    def reshape(self, *a, **k):
        raise Unsupported('reshape')

    def tolist(self):
        return SymList(self.n, self.f, self.maxn)

    def searchsorted(self, *a, **k):
        raise Unsupported('searchsorted')

    def argsort(self, *a, **k):
        return argsort(self)

    def __conc__(self, model):
        n = core.conc(self.n, model)
        vals = [core.conc(self.at(k), model) for k in range(min(n, 64))]
        if self.ncol is not None:
            return [list(v) for v in vals]
        return vals


def _full(s):
    return isinstance(s, slice) and s == slice(None)


def make_matrix(cols, delayed=False):
    m = None if _b.any(c.maxn is None for c in cols) else _b.min(
        c.maxn for c in cols)
    return SymArr(cols[0].n, lambda k: tuple(c.at(k) for c in cols), m,
                  dtype=_np.result_type(*[c.dtype for c in cols]),
                  ncol=len(cols), delayed=delayed)


def lift_arr(x):
    """numpy array (or list) as a symbolic array."""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, SymSeq):
        return SymArr(x.n, x.f, x.maxn)
    if isinstance(x, (list, tuple)) and has_sym(x, 1):
        s = lift(x)
        return SymArr(len(x), s.f, maxn=len(x), dtype='int64')
    x = _np.asarray(x)
    if x.ndim != 1:
        raise Unsupported('lift of a matrix')
    vals = [v if x.dtype.kind in 'Mm' else v.item() for v in x]
    s = lift(vals)
    return SymArr(len(vals), s.f, maxn=len(vals), dtype=x.dtype)


def input_array(name, n, maxn, dtype='int64', ncol=None, delayed=False):
    """Universally quantified array."""
    ctx = cur()
    dt = _np.dtype(dtype)
    if ncol is None:
        fn = ctx.func(name)
        if dt.kind in 'Mm':
            unit = _np.datetime_data(dt)[0]
            f = lambda k: SymTime(fn(k), unit, dt.kind)  # noqa: E731
        elif dt.kind == 'b':
            fb = z3.Function(ctx.name(name), z3.IntSort(), z3.BoolSort())
            f = lambda k: SymBool(fb(k))  # noqa: E731
        else:
            f = lambda k: SymInt(fn(k))  # noqa: E731
        a = SymArr(n, f, maxn, dtype=dt, delayed=delayed, fn=fn)
    else:
        fns = [ctx.func(f'{name}{c}') for c in range(ncol)]
        a = SymArr(n, lambda k: tuple(SymInt(g(k)) for g in fns), maxn,
                   dtype=dt, ncol=ncol, delayed=delayed)
    return a


def input_len(name, lo=0):
    ctx = cur()
    n = ctx.int(name)
    ctx.assume(n >= lo)
    if ctx.size is not None:
        ctx.assume(n <= ctx.size)
    return n, ctx.size


# -- where / filters ---------------------------------------------------
def where_true(mask):
    """Indices of the true elements: strictly increasing, sound, complete."""
    ctx = cur()
    key = ('where', id(mask))
    if key in ctx._memo and ctx._memo[key][0] is mask:
        return ctx._memo[key][1]
    m = ctx.int('m')
    f = ctx.func('w')
    g = ctx.func('winv')
    ctx.assume(z3.And(m >= 0, m <= mask.n))
    M = mask.maxn
    rows = mask.meta.get('dom', 'rows')
    sel = ctx.name('sel')
    ctx.assume(
        forall(
            m, M, lambda k: z3.And(f(k) >= 0, f(k) < mask.n,
                                   zb(mask.at(f(k))),
                                   g(f(k)) == k),
            spawn=lambda k: [(f(k), rows)], dom=sel))
    ctx.assume(forall2(m, M, lambda i, j: f(i) < f(j), dom=sel))
    ctx.assume(
        forall(
            mask.n, M, lambda i: z3.Implies(
                zb(mask.at(i)), z3.And(g(i) >= 0, g(i) < m,
                                       f(g(i)) == i)),
            spawn=lambda i: [(g(i), sel)], dom=rows))
    # monotonicity of the inverse on selected indices follows; counting
    # bounds: the k-th selected index is at least k.
    ctx.assume(forall(m, M, lambda k: f(k) >= k, dom=sel))
    r = SymArr(m, lambda k: SymInt(f(k)), M, dtype='int64', nonneg=True,
               where=(mask, f, g), dom=sel)
    ctx._memo[key] = (mask, r)
    return r


def np_all(a, *args, **kw):
    if isinstance(a, SymArr):
        if a.ncol is not None:
            return mkbool(
                forall(a.n, a.maxn,
                       lambda k: z3.And([zb(v) for v in a.at(k)])))
        return mkbool(forall(a.n, a.maxn, lambda k: zb(a.at(k))))
    if isinstance(a, SymBool):
        return a
    if isinstance(a, SymSeq):
        return mkbool(forall(a.n, a.maxn, lambda k: zb(a.at(k))))
    if isinstance(a, (list, tuple)) and has_sym(a):
        return mkbool(z3.And([zb(v) for v in a]))
    return _np.all(a, *args, **kw)


def np_any(a, *args, **kw):
    if isinstance(a, SymSeq):
        return mkbool(exists(a.n, a.maxn, lambda k: zb(a.at(k))))
    if isinstance(a, SymBool):
        return a
    if isinstance(a, (list, tuple)) and has_sym(a):
        return mkbool(z3.Or([zb(v) for v in a]))
    return _np.any(a, *args, **kw)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple)):
        return _b.any(has_sym(v, depth - 1) for v in x)
    return False


def monotone_lemma(a, name='adj'):
    """Instances of: adjacent order implies pairwise order (by induction).

    Asserted for a base array; the induction itself is discharged by the
    lemma obligations of contracts/lemmas.py on every run."""
    ctx = cur()
    if a.maxn is not None:
        return  # finite expansion proves it
    for lt in (vlt, vle):
        ctx.lemma(
            forall(a.n - 1, None, lambda k, lt=lt: lt(a.at(k), a.at(k + 1)),
                   dom=a.meta.get('dom')),
            forall2(a.n, None, lambda i, j, lt=lt: lt(a.at(i), a.at(j)),
                    dom=a.meta.get('dom')))


def np_unique(a, return_index=False, return_inverse=False,
              return_counts=False, axis=None, **kw):
    if not isinstance(a, SymArr):
        return _np.unique(a, return_index=return_index,
                          return_inverse=return_inverse,
                          return_counts=return_counts, axis=axis, **kw)
    if a.ncol is not None and axis != 0:
        raise Unsupported('unique of a flattened matrix')
    ctx = cur()
    m = ctx.int('nuniq')
    first = ctx.func('first')
    inv = ctx.func('inv')
    M = a.maxn
    ctx.assume(z3.And(m >= 0, m <= a.n, z3.Implies(a.n > 0, m > 0)))
    rows = a.meta.get('dom', 'rows')
    sel = ctx.name('uniq')
    u = a.new(m, lambda k: a.at(first(k)), M, dom=sel)
    ctx.last_unique = u
    u.meta['base'] = a
    ctx.assume(
        forall(
            m, M, lambda k: z3.And(first(k) >= 0, first(k) < a.n,
                                   inv(first(k)) == k),
            spawn=lambda k: [(first(k), rows)], dom=sel))
    ctx.assume(forall2(m, M, lambda i, j: vlt(u.at(i), u.at(j)), dom=sel))
    ctx.assume(
        forall(
            a.n, M, lambda i: z3.And(inv(i) >= 0, inv(i) < m,
                                     veq(a.at(first(inv(i))), a.at(i)),
                                     first(inv(i)) <= i),
            spawn=lambda i: [(inv(i), sel)], dom=rows))
    idx = SymArr(m, lambda k: SymInt(first(k)), M, dtype='int64', nonneg=True,
                 dom=sel)
    iv = SymArr(a.n, lambda k: SymInt(inv(k)), M, dtype='int64', nonneg=True,
                dom=rows)
    monotone_lemma(idx)
    monotone_lemma(iv)
    out = [u]
    if return_index:
        out.append(idx)
    if return_inverse:
        out.append(iv)
    if return_counts:
        raise Unsupported('unique counts')
    return tuple(out) if len(out) > 1 else u


def argsort(a, *_a, **_k):
    """Stable sort permutation."""
    ctx = cur()
    p, q = ctx.func('perm'), ctx.func('perminv')
    M = a.maxn
    ctx.assume(
        forall(
            a.n, M, lambda k: z3.And(p(k) >= 0, p(k) < a.n,
                                     q(p(k)) == k, q(k) >= 0,
                                     q(k) < a.n, p(q(k)) == k)))
    ctx.assume(
        forall2(
            a.n, M, lambda i, j: z3.Or(
                vlt(a.at(p(i)), a.at(p(j))),
                z3.And(veq(a.at(p(i)), a.at(p(j))),
                       p(i) < p(j)))))
    r = SymArr(a.n, lambda k: SymInt(p(k)), M, dtype='int64', nonneg=True)
    monotone_lemma(r)
    identity_lemma(r)
    return r


def identity_lemma(r):
    """A strictly increasing permutation of [0, n) is the identity."""
    if r.maxn is not None:
        return
    ctx = cur()
    ctx.lemma(forall2(r.n, None, lambda i, j: vlt(r.at(i), r.at(j))),
              forall(r.n, None, lambda k: zint(r.at(k)) == k))


def np_lexsort(keys, *a, **k):
    cols = keys.meta.get('rows') if isinstance(keys, SymArr) else keys
    if not has_sym(list(cols)):
        return _np.lexsort(keys, *a, **k)
    cols = list(cols)
    mat = make_matrix(list(reversed(cols)))
    return argsort(mat)


def np_array(x, dtype=None, *a, **k):
    if isinstance(x, SymSeq):
        return lift_arr(x) if dtype is None else lift_arr(x).astype(dtype)
    if isinstance(x, (list, tuple)) and has_sym(x):
        if _b.all(isinstance(v, SymArr) for v in x):
            # matrix given by rows of symbolic length
            return SymArr(len(x), lambda k: None, len(x), rows=list(x),
                          dtype=x[0].dtype)
        s = lift(x)
        if dtype is None:
            dtype = getattr(x[0], 'dtype', 'int64')
        return SymArr(len(x), s.f, len(x), dtype=dtype)
    if isinstance(x, Sym):
        return x
    return _np.array(x, dtype, *a, **k)


def np_split(a, indices_or_sections, axis=0):
    """Pieces between increasing positions, as an unbounded list."""
    idx = indices_or_sections
    if not isinstance(a, SymArr):
        return _np.split(a, idx, axis)
    if not isinstance(idx, SymArr):
        raise Unsupported('split into sections')
    if a.maxn is not None:
        cuts = [0] + [zint(v) for v in SymSeq.__iter__(idx)] + [a.n]
        return [a[mkint(I(x)):mkint(I(y))] for x, y in zip(cuts, cuts[1:])]
    ctx = cur()
    m = idx.n
    k, j = ctx.int('cut'), ctx.int('cut')
    ctx.instantiate(k, j, depth=2, dom=idx.meta.get('dom'))
    at = lambda q: zint(idx.at(q))  # noqa: E731
    if ctx._feasible(z3.Not(z3.Implies(
            z3.And(0 <= k, k < j, j < m), z3.And(
                at(k) <= at(j), 0 <= at(k), at(j) <= a.n)))) or ctx._feasible(
            z3.And(0 <= k, k < m, z3.Or(at(k) < 0, at(k) > a.n))):
        raise Unsupported('split at unordered positions')
    lo = lambda p: z3.If(p <= 0, 0, at(p - 1))  # noqa: E731
    hi = lambda p: z3.If(p >= m, a.n, at(p))  # noqa: E731
    piece = ctx.func('piece')
    dom, rows = ctx.name('pieces'), a.meta.get('dom', 'rows')
    # lemma 'tiling' of contracts/lemmas.py
    ctx.assume(forall(
        a.n, None, lambda i: z3.And(
            0 <= piece(i), piece(i) <= m, lo(piece(i)) <= i,
            i < hi(piece(i))),
        spawn=lambda i: [(piece(i), idx.meta.get('dom')),
                         (piece(i) - 1, idx.meta.get('dom'))], dom=rows))
    tiles = (a, piece, lo, hi, ctx._memo)

    def f(p):
        return a.new(hi(p) - lo(p), lambda q: a.at(lo(p) + q), None,
                     tile=(tiles, p))

    return SymList(m + 1, f, None)


def np_max_accumulate(x, *a, **k):
    """Running maximum of a piece of an array."""
    if not isinstance(x, SymArr):
        return _np.maximum.accumulate(x, *a, **k)
    ctx = cur()
    if x.maxn is not None:
        out = []
        for v in SymSeq.__iter__(x):
            out.append(v if not out else ite(vlt(out[-1], v), v, out[-1]))
        return lift_arr(out)
    if 'tile' not in x.meta:
        raise Unsupported('running maximum')
    tiles, p = x.meta['tile']
    src, piece, lo, hi, memo = tiles
    key = ('runmax', id(tiles))
    if key not in memo:
        rm = ctx.func('runmax', z3.IntSort(), z3.IntSort(), z3.IntSort())
        memo[key] = tiles, rm

        def body(i):
            b = lo(piece(i))
            v = zint(src.at(i))
            r = rm(b, i - 1)
            return rm(b, i) == z3.If(i == b, v, z3.If(r < v, v, r))

        ctx.assume(forall(src.n, None, body,
                          dom=src.meta.get('dom', 'rows')))
    rm = memo[key][1]
    b = lo(p)
    return x.new(x.n, lambda q: SymInt(rm(b, b + q)), None, tile=(tiles, p))


def _join_tiles(seq):
    """Concatenation of the pieces of a split, each of its own length."""
    ctx = cur()
    k = ctx.int('tile')
    with nofork():
        x = seq.at(k)
    if not isinstance(x, SymArr) or 'tile' not in x.meta:
        raise Unsupported('concatenate an unbounded list')
    tiles, p = x.meta['tile']
    src, piece, lo, hi, _ = tiles
    if not p.eq(k) or ctx._feasible(z3.Or(x.n != hi(k) - lo(k))):
        raise Unsupported('concatenate an unbounded list')

    def f(i):
        return seq.at(piece(i)).at(i - lo(piece(i)))

    ctx.last_joined = src.new(src.n, f, None, dtype=x.dtype)
    return ctx.last_joined


def np_concatenate(seq, axis=0, *a, **k):
    if isinstance(seq, SymSeq):
        if seq.maxn is None:
            return _join_tiles(seq)
        seq = list(SymSeq.__iter__(seq))
    seq = list(seq)
    if not has_sym(seq):
        return _np.concatenate(seq, axis, *a, **k)
    arrs = [lift_arr(s) for s in seq]
    dt = next((s.dtype for s in arrs if s.dtype.kind in 'Mm'), None)
    if dt is not None:
        # numpy promotes integers to timedelta
        arrs = [
            s if s.dtype.kind in 'Mm' else _int_to_time(s, dt) for s in arrs
        ]
    r = concat_seq(arrs, 'array', cls=SymArr, dtype=dt or arrs[0].dtype,
                   ncol=arrs[0].ncol,
                   delayed=_b.any(s.delayed for s in arrs))
    if _b.any(s.meta.get('dom', 'rows') != 'rows' for s in arrs):
        link(r, arrs)
    return r


def link(r, arrs):
    """Instances at an index of a part and of the concatenation."""
    ctx = cur()
    if r.maxn is not None:
        return
    dom = r.meta['dom'] = ctx.name('concat')
    offs = [z3.IntVal(0)]
    for s in arrs:
        offs.append(offs[-1] + s.n)
    parts = [(s.meta.get('dom'), o) for s, o in zip(arrs, offs)
             if s.maxn is None and s.meta.get('dom')]
    true = z3.BoolVal(True)
    for d, o in parts:
        ctx.assume(forall(r.n, None, lambda k: true,
                          spawn=lambda k, o=o: [(o + k, dom)], dom=d))
    ctx.assume(forall(r.n, None, lambda k: true,
                      spawn=lambda k: [(k - o, d) for d, o in parts],
                      dom=dom))
    for s, o in zip(arrs, offs):
        for j in range(s.maxn or 0):
            ctx.instantiate(o + j, dom=dom)


def _int_to_time(s, dt):
    if dt.kind == 'M':
        raise TypeError('cannot concatenate int and datetime')
    unit = _np.datetime_data(dt)[0]
    return s.new(s.n, lambda k: SymTime(zint(s.at(k)), unit, 'm'), s.maxn,
                 dtype=dt)


def np_diff(a, n=1, axis=-1, **k):
    if not isinstance(a, SymArr):
        return _np.diff(a, n, axis, **k)
    return a[1:] - a[:-1]


def np_roll(a, shift, axis=None):
    if not isinstance(a, SymArr):
        return _np.roll(a, shift, axis)
    s = as_term(shift)
    if not cur().branch(a.n > 0):
        return a
    one = z3.simplify(s)
    if z3.is_int_value(one) and abs(one.as_long()) == 1:
        r = z3.If(a.n == 1, 0, 1) if one.as_long() == 1 else a.n - 1
        return a.new(
            a.n, lambda k: a.at(z3.If(k - r >= 0, k - r, k - r + a.n)),
            a.maxn)
    _, r = core.sym_divmod(s, a.n) if not z3.is_int_value(
        z3.simplify(s)) or z3.simplify(s).as_long() != 0 else (0, 0)
    r = as_term(r)
    return a.new(
        a.n, lambda k: a.at(z3.If(k - r >= 0, k - r, k - r + a.n)), a.maxn)


def np_vstack(seq, *a, **k):
    seq = list(seq)
    if not has_sym(seq):
        return _np.vstack(seq, *a, **k)
    for x in seq[1:]:
        if not cur().branch(x.n == seq[0].n):
            raise ValueError('all the input array dimensions must match')
    r = make_matrix(seq, _b.any(s.delayed for s in seq))
    return SymArr(len(seq), lambda k: None, len(seq), dtype=r.dtype,
                  cols_major=seq, delayed=r.delayed)


def np_column_stack(seq, *a, **k):
    seq = list(seq)
    if not has_sym(seq):
        return _np.column_stack(seq)
    return make_matrix(seq, _b.any(s.delayed for s in seq))


def np_where(c, *a):
    if isinstance(c, SymArr) and not a:
        return (where_true(c), )
    if isinstance(c, SymArr):
        x, y = a
        gx = (lambda k: x.at(k)) if isinstance(x, SymArr) else (lambda k: x)
        gy = (lambda k: y.at(k)) if isinstance(y, SymArr) else (lambda k: y)
        return c.new(c.n, lambda k: ite(zb(c.at(k)), gx(k), gy(k)), c.maxn,
                     dtype=getattr(x, 'dtype', None))
    return _np.where(c, *a)


def np_flatnonzero(a):
    if isinstance(a, SymArr):
        return where_true(a)
    return _np.flatnonzero(a)


def np_issubdtype(a, b):
    return _np.issubdtype(a, b)


def np_arange(*a, dtype=None, **k):
    if has_sym(a):
        r = sym_range(*a)
        return SymArr(r.n, r.f, r.maxn, dtype=dtype or 'int64', nonneg=True,
                      delayed=k.get('_delayed', False))
    return _np.arange(*a, dtype=dtype, **{
        x: y for x, y in k.items() if x in ('like', )})


def np_empty(shape, dtype='float64', **k):
    if has_sym((shape, )) or has_sym(shape if isinstance(shape, tuple) else
                                     ()):
        n = shape[0] if isinstance(shape, tuple) else shape
        ctx = cur()
        a = input_array('empty', as_term(n), ctx.size, dtype)
        return a
    return _np.empty(shape, dtype)


def np_full_like_const(value):

    def fn(shape, dtype='float64', **k):
        n = shape[0] if isinstance(shape, tuple) else shape
        if is_sym(n):
            return SymArr(as_term(n), lambda q: value, cur().size,
                          dtype=dtype)
        return _np.full(shape, value, dtype)

    return fn


def np_min(a, *x, **k):
    return a.min() if isinstance(a, SymArr) else _np.min(a, *x, **k)


def np_max(a, *x, **k):
    return a.max() if isinstance(a, SymArr) else _np.max(a, *x, **k)


def np_array_equal(a, b, **k):
    if has_sym([a, b]):
        a, b = lift_arr(a), lift_arr(b)
        return SymSeq.__eq__(a, b)
    return _np.array_equal(a, b, **k)


def np_logical(op):

    def fn(a, b, **k):
        if has_sym([a, b]):
            return a & b if op == 'and' else a | b
        return getattr(_np, f'logical_{op}')(a, b, **k)

    return fn


def np_logical_not(a, **k):
    return ~a if is_sym(a) else _np.logical_not(a, **k)


# -- time conversion -----------------------------------------------------
def trunc_fn(src, dst):
    """Truncation of dates to a coarser unit."""
    if src in core.LINEAR and dst in core.LINEAR:
        r = core.LINEAR[dst] // core.LINEAR[src]
        return lambda t: t / r  # z3 division floors for a positive divisor
    fn = z3.Function(f'trunc_{src}_{dst}', z3.IntSort(), z3.IntSort())
    ctx = cur()
    key = ('trunc', src, dst)
    if key not in ctx._memo:
        ctx._memo[key] = True
        if ctx.size is None:
            a, b = z3.Ints('ta tb')
            ctx.assume(
                z3.ForAll([a, b], z3.Implies(a <= b,
                                             fn(a) <= fn(b)),
                          patterns=[z3.MultiPattern(fn(a), fn(b))]))
    return fn


def time_astype(x, dtype):
    dtype = _np.dtype(dtype)
    if dtype.kind in 'iu':
        return mkint(x.t)
    if dtype.kind != x.kind:
        raise Unsupported('astype')
    unit = _np.datetime_data(dtype)[0]
    if unit == x.unit:
        return x
    if unit in core.LINEAR and x.unit in core.LINEAR and core.LINEAR[
            unit] < core.LINEAR[x.unit]:
        return SymTime(core.rescale(x.t, x.unit, unit), unit, x.kind)
    if x.unit in ('Y', 'M'):
        # calendar unit to a finer one: start of the period
        fn = z3.Function(f'start_{x.unit}_{unit}', z3.IntSort(), z3.IntSort())
        return SymTime(fn(x.t), unit, x.kind)
    return SymTime(trunc_fn(x.unit, unit)(x.t), unit, x.kind)


def time_item(x):
    raise Unsupported('item() of a symbolic date')


# -------------------------------------------------------------------
# builtins
# -------------------------------------------------------------------
def sym_range(*a):
    if len(a) == 1:
        lo, hi = z3.IntVal(0), as_term(a[0])
    else:
        lo, hi = as_term(a[0]), as_term(a[1])
        if len(a) == 3 and not (isinstance(a[2], int) and a[2] == 1):
            raise Unsupported('range step')
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    maxn = None
    ctx = cur()
    if ctx.size is not None and not z3.is_int_value(n):
        maxn = ctx.ghost.get('maxrange', 2 * ctx.size + 2)
        ctx.run.bounds.add(f'range <= {maxn}') if hasattr(
            ctx.run, 'bounds') else None
        ctx.assume(n <= maxn)
    return SymList(n, lambda k: mkint(lo + k), maxn, kind='range')


def seq_sum(x, start=0):
    """Sum through the prefix-sum function."""
    s = prefix_sum(x)
    return mkint(s(x.n) + as_term(start))


def prefix_sum(x):
    ctx = cur()
    key = ('psum', id(x))
    if key in ctx._memo:
        return ctx._memo[key][1]
    s = ctx.func('psum')
    ctx.assume(s(0) == 0)
    ctx.assume(
        forall(x.n, x.maxn, lambda k: s(k + 1) == s(k) + zint(x.at(k))))
    ctx._memo[key] = (x, s)
    return s


def accumulate(x, func=None, *, initial=None):
    if not isinstance(x, SymSeq):
        x = list(x)
        if not has_sym(x):
            return _it.accumulate(x, func, initial=initial)
        x = lift(x)
    if func is not None:
        raise Unsupported('accumulate with a function')
    if initial is not None:
        x = concat_seq([lift([initial]), x], 'list')
    segs = x.meta.get('segs')
    if segs:

        def f(k):
            r = None
            start = z3.IntVal(0)
            off = z3.IntVal(0)
            parts = []
            for ln, c in segs:
                parts.append((start, ln, off, zint(c)))
                start = z3.simplify(start + ln)
                off = z3.simplify(off + ln * zint(c))
            for start, ln, off, c in reversed(parts):
                v = off + (k - start + 1) * c
                r = v if r is None else z3.If(k < start + ln, v, r)
            return mkint(r)

        return SymList(x.n, f, x.maxn, kind='gen')
    s = prefix_sum(x)
    return SymList(x.n, lambda k: mkint(s(k + 1)), x.maxn, kind='gen')


class TypeShim:
    """Callable replacement of a builtin type."""

    def __init__(self, real, call):
        self.real = real
        self.call = call
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __getitem__(self, i):
        return self.real[i]

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __or__(self, o):
        return self.real | unshim(o)

    def __ror__(self, o):
        return unshim(o) | self.real

    def __eq__(self, o):
        return unshim(o) is self.real

    def __hash__(self):
        return hash(self.real)

    def __mro_entries__(self, bases):
        return (self.real, )

    def __instancecheck__(self, x):
        return sh_isinstance(x, self.real)


def unshim(x):
    return x.real if isinstance(x, TypeShim) else x


def sh_len(x):
    if isinstance(x, SymSeq):
        return mkint(x.n)
    if isinstance(x, SymSet):
        return x.__len__()
    tp = type(x)
    if hasattr(tp, '__len__') and isinstance(
            getattr(tp, '__len__'), types.FunctionType):
        return tp.__len__(x)
    return len(x)


def concretize_if_bounded(x):
    """In bounded mode, turn a symbolic sequence into a real list (forking)."""
    if isinstance(x, SymSeq) and x.maxn is not None:
        return list(SymSeq.__iter__(x))
    return x


def sh_range(*a):
    return sym_range(*a) if has_sym(a) else range(*a)


def sh_zip(*seqs, **k):
    if _b.any(isinstance(s, SymSeq) for s in seqs):
        if _b.all(
                not isinstance(s, SymSeq) or s.maxn is not None
                for s in seqs):
            return zip(*[concretize_if_bounded(s) for s in seqs])
        ss = [lift(s) for s in seqs]
        n = ss[0].n
        for s in ss[1:]:
            n = z3.If(s.n < n, s.n, n)
        return SymList(n, lambda k: tuple(s.at(k) for s in ss), None,
                       kind='gen')
    return zip(*seqs, **k)


def sh_enumerate(x, start=0):
    if isinstance(x, SymSeq):
        if x.maxn is not None:
            return enumerate(concretize_if_bounded(x), start)
        return SymList(x.n, lambda k: (mkint(k + start), x.at(k)), x.maxn,
                       kind='gen')
    return enumerate(x, start)


def freeze(f):
    """The function with the current values of the variables it captures: a
    symbolic sequence is evaluated later than CPython would."""
    cells = getattr(f, '__closure__', None)
    if not cells or f.__name__ != '<lambda>':
        return f

    def copy(c):
        try:
            return types.CellType(c.cell_contents)
        except ValueError:
            return c

    g = types.FunctionType(f.__code__, f.__globals__, f.__name__,
                           f.__defaults__, tuple(copy(c) for c in cells))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def comp(kind, it, fe, fc):
    """Comprehension / generator expression."""
    if isinstance(it, SymSeq) and it.maxn is not None:
        it = concretize_if_bounded(it)
    if isinstance(it, SymSeq):
        if isinstance(it, SymList):  # it may be modified later
            it = SymList(it.n, it.f, it.maxn, it.kind, **it.meta)
        fe = freeze(fe)
        fc = freeze(fc) if fc is not None else None
        seq = it
        if fc is not None:
            src = it
            mask = SymArr(src.n, lambda k: mkbool(zb(fc(src.at(k)))),
                          src.maxn, dtype='bool')
            idx = where_true(mask)

            def chosen(k):
                if not cur().nofork:
                    cur().instantiate(k, dom=idx.meta.get('dom'))
                return src.at(zint(idx.at(k)))

            seq = SymList(idx.n, chosen, idx.maxn,
                          filtered=idx, origin=(
                              src, lambda k: zb(mask.at(k)), lambda x: x))
        if kind == 'dict':
            raise Unsupported(f'{kind} comprehension over unbounded sequence')
        base = seq
        meta = {}
        if 'filtered' in base.meta:
            meta['filtered'] = base.meta['filtered']
        if 'origin' in base.meta:
            src0, sel, g = base.meta['origin']
            meta['origin'] = (src0, sel, lambda x: fe(g(x)))
        out = SymList(base.n, lambda k: fe(base.at(k)), base.maxn,
                      kind='gen' if kind == 'gen' else 'list', **meta)
        if kind != 'gen':
            eager(out)
        return SymSet(out) if kind == 'set' else out
    gen = (fe(x) for x in it if fc is None or fc(x))
    if kind == 'list':
        return list(gen)
    if kind == 'set':
        return set(gen)
    if kind == 'dict':
        return dict(gen)
    return gen


def member(x, seq):
    """Formula: x is an element of the sequence."""
    if 'origin' in seq.meta:
        src, sel, g = seq.meta['origin']
        return exists(src.n, src.maxn, lambda k: z3.And(
            sel(k), veq(g(src.at(k)), x)))
    return exists(seq.n, seq.maxn, lambda k: veq(seq.at(k), x))


class SymSet(Sym):
    """Set of the elements of a sequence of unknown length."""

    def __init__(self, seq):
        self.seq = seq
        self._n = None

    def _no(self, *a, **k):
        raise Unsupported('operation on an unbounded set')

    add = remove = discard = pop = update = clear = _no
    __iter__ = __and__ = __or__ = __sub__ = __xor__ = _no
    __eq__ = __ne__ = __le__ = __lt__ = __ge__ = __gt__ = _no
    __hash__ = None

    def __getattr__(self, name):
        raise Unsupported(f'set.{name}')

    def __len__(self):
        if self._n is None:
            ctx = cur()
            self._n = ctx.int('card')
            ctx.assume(z3.And(0 <= self._n, self._n <= self.seq.n,
                              (self._n == 0) == (self.seq.n == 0)))
        return mkint(self._n)

    def __bool__(self):
        return cur().branch(self.seq.n > 0)

    def __contains__(self, x):
        return cur().branch(member(x, self.seq))


class Maybe(Sym):
    """A value, or None when the condition is false."""

    def __init__(self, cond, value):
        self.cond, self.value = cond, value

    def get(self):
        if cur().nofork:
            # inside a quantified body: the use of an arbitrary element was
            # checked when the sequence was evaluated
            return self.value
        if not cur().branch(self.cond):
            raise TypeError('None used as a value')
        return self.value

    def __getitem__(self, i):
        return self.get()[i]

    def __iter__(self):
        return iter(self.get())

    def __bool__(self):
        return cur().branch(self.cond) and bool(self.value)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.get(), name)

    def __eq__(self, o):
        raise Unsupported('comparison of an optional value')

    __ne__ = __eq__
    __hash__ = None


def compare(op, a, b):
    """``in`` and ``is None``, as formulas over symbolic values."""
    if op in ('is', 'is not'):
        if isinstance(a, Maybe) and b is None:
            return mkbool(z3.Not(a.cond) if op == 'is' else a.cond)
        return (a is b) if op == 'is' else (a is not b)
    if isinstance(b, SymSet):
        b = b.seq
    if isinstance(b, SymSeq) and b.maxn is None and not isinstance(
            b, SymArr):
        r = member(a, b)
        return mkbool(r if op == 'in' else z3.Not(r))
    return (a in b) if op == 'in' else (a not in b)


def junction(op, *thunks):
    """and / or / not of a condition; a formula when it cannot fork."""
    strict = core.CUR is not None and cur().nofork
    acc = []
    v = None
    for t in thunks:
        v = t()
        if strict and isinstance(v, (SymBool, bool, _np.bool_)):
            acc.append(zb(v))
            if op != 'or' and z3.is_false(z3.simplify(acc[-1])) or \
                    op == 'or' and z3.is_true(z3.simplify(acc[-1])):
                break
            continue
        if op == 'not':
            return not v
        if bool(v) != (op == 'and'):
            return v
    if not strict or not acc:
        return (not v) if op == 'not' else v
    if op == 'not':
        return mkbool(z3.Not(acc[0]))
    return mkbool(z3.And(acc) if op == 'and' else z3.Or(acc))


def eager(seq):
    """Evaluate a generic element for the exceptions (and effects) it has."""
    ctx = cur()
    if ctx.effects is not None:
        ctx.effects.each(seq)
        return
    if ctx.choose(2, 'element'):
        k = ctx.int('elt')
        ctx.assume(z3.And(0 <= k, k < seq.n))
        if not ctx._feasible(z3.BoolVal(True)):
            raise PathEnd()
        seq.at(k)
        raise PathEnd()  # did not raise: covered by the other path


class Delegated:
    """``yield from`` of an unbounded sequence: all its items at once."""

    def __init__(self, seq):
        self.seq = seq


def yield_from(x):
    if isinstance(x, SymSeq) and x.maxn is None:
        return iter([Delegated(x)])
    return x


def drain(x):
    """Items of a generator of the code, symbolic parts included."""
    if isinstance(x, SymSeq):
        return x if x.maxn is None else concretize_if_bounded(x)
    items = list(x)
    if not _b.any(isinstance(v, Delegated) for v in items):
        return items
    parts = [lift([v]) if not isinstance(v, Delegated) else v.seq
             for v in items]
    return parts[0] if len(parts) == 1 else concat_seq(parts, 'list')


def sh_map(f, *seqs):
    if _b.any(isinstance(s, SymSeq) for s in seqs):
        if _b.all(not isinstance(s, SymSeq) or s.maxn is not None
                  for s in seqs):
            return map(f, *[concretize_if_bounded(s) for s in seqs])
        if len(seqs) == 1:
            return comp('gen', seqs[0], f, None)
        z = sh_zip(*seqs)
        return comp('gen', z, lambda t: f(*t), None)
    return map(f, *seqs)


def sh_filter(f, seq):
    if isinstance(seq, SymSeq):
        return comp('gen', seq, lambda x: x, f or (lambda x: x))
    return filter(f, seq)


def sh_list(x=()):
    if isinstance(x, SymSeq):
        if x.maxn is not None:
            return concretize_if_bounded(x)
        r = SymList(x.n, x.f, x.maxn, 'list', **x.meta)
        if x.kind == 'gen':
            eager(r)
        return r
    if isinstance(x, types.GeneratorType):
        return drain(x)
    return list(x)


def sh_tuple(x=()):
    if isinstance(x, SymSeq):
        if x.maxn is not None:
            return tuple(concretize_if_bounded(x))
        r = SymList(x.n, x.f, x.maxn, 'tuple', **x.meta)
        if x.kind == 'gen':
            eager(r)
        return r
    if isinstance(x, types.GeneratorType):
        x = drain(x)
        if isinstance(x, SymSeq):
            return sh_tuple(x)
    return tuple(x)


def sh_set(x=()):
    if isinstance(x, SymSeq) and x.maxn is None:
        x = sh_list(x)
        return SymSet(x)
    return set(concretize_if_bounded(x))


def sh_reversed(x):
    if isinstance(x, SymSeq):
        if x.maxn is not None:
            return reversed(concretize_if_bounded(x))
        return SymList(x.n, lambda k: x.at(x.n - 1 - k), x.maxn, kind='gen')
    return reversed(x)


def sh_sum(x, start=0):
    if isinstance(x, SymSeq):
        if x.maxn is not None:
            return sum(concretize_if_bounded(x), start)
        return seq_sum(x, start)
    return sum(x, start)


def sh_any(x):
    if isinstance(x, SymSeq) and x.maxn is None:
        return np_any(x)
    return any(x)


def sh_all(x):
    if isinstance(x, SymSeq) and x.maxn is None:
        return np_all(x)
    return all(x)


def _minmax(name):
    real = getattr(_b, name)

    def fn(*a, **k):
        if len(a) == 1:
            a0 = concretize_if_bounded(a[0])
            if isinstance(a0, SymSeq):
                if k:
                    raise Unsupported(name)
                return lift_arr(a0).min() if name == 'min' else lift_arr(
                    a0).max()
            vals = list(a0)
        else:
            vals = list(a)
        if not k and vals and _b.any(is_sym(v) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                c = v < r if name == 'min' else v > r
                r = ite(c, v, r)
            return r
        if len(a) == 1:
            return real(vals, **k)
        return real(*vals, **k)

    return fn


def sh_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mkint(zint(x))
    if isinstance(x, str) and _b.any(ord(c) >= core.TOKEN0 and ord(c) < 0xF8FF
                                     for c in x):
        v = cur().tokens.get(x)
        if cur().text:
            body = x.strip()
            sign = body[:1] if body[:1] in ('-', '+') else ''
            body = body[len(sign):]
            v = cur().tokens.get(body.lstrip('0'))
            if v is None:
                if _b.all(core.is_token(c) or c.isdigit() for c in body):
                    raise Unsupported('part of the digits of a number')
            elif sign == '-':
                return mkint(-zint(v))
        if v is None:
            raise ValueError(f'invalid literal for int(): {x!r}')
        return v
    return int(x, *a)


def sh_bool(x=False):
    return x if isinstance(x, SymBool) else bool(x)


def sh_abs(x):
    return abs(x)


def sh_sorted(x, *, key=None, reverse=False):
    if isinstance(x, SymSeq) and x.maxn is None:
        raise Unsupported('sorted() of an unbounded sequence')
    return sorted(x, key=key, reverse=reverse)


def sh_next(it, *default):
    if isinstance(it, SymSeq):
        if it.maxn is not None and it.kind == 'gen':
            raise Unsupported('next on a bounded generator')
        if cur().branch(it.n > 0):
            v = it.at(0)
            f, n = it.f, it.n
            it.f = lambda k: f(k + 1)
            it.n = z3.simplify(n - 1)
            return v
        if default:
            return default[0]
        raise StopIteration
    return next(it, *default)


_REAL_ISINSTANCE = isinstance


def sh_isinstance(x, cls):
    if _REAL_ISINSTANCE(cls, tuple):
        return _b.any(sh_isinstance(x, c) for c in cls)
    cls = unshim(cls)
    if _REAL_ISINSTANCE(x, Sym):
        if hasattr(x, '__isinstance__'):
            return x.__isinstance__(cls)
        if _REAL_ISINSTANCE(x, SymInt):
            return cls in (int, object) or (_REAL_ISINSTANCE(cls, type) and
                                            issubclass(int, cls))
        if _REAL_ISINSTANCE(x, SymBool):
            return cls in (bool, int, object)
        if _REAL_ISINSTANCE(x, SymTime):
            return cls is (_np.datetime64 if x.kind == 'M' else
                           _np.timedelta64) or cls in (_np.generic, object)
        if _REAL_ISINSTANCE(x, SymArr):
            name = getattr(cls, '__name__', '')
            mod = getattr(cls, '__module__', '')
            if x.delayed:
                return mod.startswith('dask.array') and name == 'Array'
            return cls is _np.ndarray
        if _REAL_ISINSTANCE(x, SymSeq):
            if x.kind in ('list', 'tuple'):
                return cls in (list, tuple) and cls.__name__ == x.kind or (
                    _REAL_ISINSTANCE(cls, type)
                    and cls not in (list, tuple)
                    and issubclass({'list': list, 'tuple': tuple}[x.kind],
                                   cls))
            return False
    if hasattr(type(x), '__dv_isinstance__'):
        return x.__dv_isinstance__(cls)
    return _REAL_ISINSTANCE(x, cls)


def sh_divmod(a, b):
    return divmod(a, b)


def sh_iter(x, *a):
    if isinstance(x, SymSeq) and x.maxn is None:
        return SymList(x.n, x.f, x.maxn, kind='gen')
    return iter(x, *a)


def sh_str(*a, **k):
    if a and isinstance(a[0], SymInt):
        return core.token(a[0], '')
    return str(*a, **k)


def shimmed_builtins():
    d = dict(vars(_b))
    d.update(len=sh_len, range=TypeShim(range, sh_range),
             zip=TypeShim(zip, sh_zip),
             enumerate=TypeShim(enumerate, sh_enumerate),
             map=TypeShim(map, sh_map), filter=TypeShim(filter, sh_filter),
             list=TypeShim(list, sh_list), tuple=TypeShim(tuple, sh_tuple),
             set=TypeShim(set, sh_set),
             reversed=TypeShim(reversed, sh_reversed), sum=sh_sum,
             any=sh_any, all=sh_all, min=_minmax('min'), max=_minmax('max'),
             int=TypeShim(int, sh_int), bool=TypeShim(bool, sh_bool),
             str=TypeShim(str, sh_str), sorted=sh_sorted, next=sh_next,
             isinstance=sh_isinstance, iter=sh_iter)
    return d


class Facade(types.ModuleType):
    """Module delegating to a real one, with assumed contracts on top."""

    def __init__(self, real, over=None):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over or {})

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


def np_datetime64(*a, **k):
    if a and isinstance(a[0], SymTime):
        return a[0] if len(a) == 1 else a[0].astype(f'M8[{a[1]}]')
    return _np.datetime64(*a, **k)


def np_timedelta64(*a, **k):
    if a and isinstance(a[0], SymInt):
        return SymTime(a[0].t, a[1], 'm')
    if a and isinstance(a[0], SymTime):
        return a[0]
    return _np.timedelta64(*a, **k)


def np_count_nonzero(a, **k):
    if isinstance(a, SymArr):
        return mkint(where_true(a).n)
    return _np.count_nonzero(a, **k)


class UFunc:
    """A numpy ufunc, some methods of which are replaced."""

    def __init__(self, real, **over):
        self.__dict__.update(over)
        self._real = real

    def __call__(self, *a, **k):
        if has_sym(a):
            raise Unsupported(str(self._real))
        return self._real(*a, **k)

    def __getattr__(self, name):
        return getattr(self._real, name)


def numpy_facade():
    from . import daskf
    lor = np_logical('or')
    lor.reduce = daskf.logical_or_reduce
    return Facade(
        _np, dict(where=np_where, concatenate=np_concatenate, diff=np_diff,
                  roll=np_roll, array=np_array, asarray=np_array,
                  unique=np_unique, all=np_all, any=np_any, vstack=np_vstack,
                  stack=np_vstack, column_stack=np_column_stack,
                  lexsort=np_lexsort, argsort=lambda a, *x, **k: argsort(a)
                  if isinstance(a, SymArr) else _np.argsort(a, *x, **k),
                  arange=np_arange, empty=np_empty, min=np_min, max=np_max,
                  amin=np_min, amax=np_max, array_equal=np_array_equal,
                  flatnonzero=np_flatnonzero, nonzero=lambda a:
                  (where_true(a), ) if isinstance(a, SymArr) else _np.nonzero(
                      a), logical_and=np_logical('and'),
                  logical_or=lor, logical_not=np_logical_not,
                  count_nonzero=np_count_nonzero,
                  split=np_split, array_split=np_split,
                  maximum=UFunc(_np.maximum, accumulate=np_max_accumulate),
                  zeros=np_full_like_const(0), ones=np_full_like_const(1),
                  datetime64=TypeShim(_np.datetime64, np_datetime64),
                  timedelta64=TypeShim(_np.timedelta64, np_timedelta64)))


# -- proof rules -------------------------------------------------------------
def induct(n, maxn, body, name, at=None):
    """For all 0 <= j < n: body(j), by induction on j (base, step)."""
    ctx = cur()
    n = I(n)
    if maxn is not None:
        ctx.prove(forall(n, maxn, body), name)
        return
    ctx.prove(z3.Implies(n > 0, zb(body(z3.IntVal(0)))), name + ' (base)')
    j = ctx.int('j')
    for t in at(j) + at(j + 1) if at else []:
        ctx.instantiate(t)
    ctx.prove(
        z3.Implies(z3.And(0 <= j, j + 1 < n, zb(body(j))),
                   zb(body(j + 1))), name + ' (step)')
    ctx.assume(forall(n, None, body))


def any_index(n, maxn, base='k'):
    """Universally quantified index of [0, n); concrete when n is bounded."""
    ctx = cur()
    k = ctx.int(base)
    ctx.assume(z3.And(0 <= k, k < n))
    if maxn is not None:
        for v in range(maxn):
            if ctx.branch(k == v):
                return z3.IntVal(v)
        raise PathEnd()
    ctx.instantiate(k)
    if not ctx._feasible(z3.BoolVal(True)):
        raise PathEnd()
    return k


def located(n, m, start, stop, maxn=None):
    """Index of the tile that holds row i.

    Sound once start(0) = 0 < n, stop(k) = start(k + 1) > start(k) and
    stop(m - 1) = n have been proved (lemma 'tiling' of
    contracts/lemmas.py)."""
    ctx = cur()
    loc = ctx.func('loc')
    ctx.assume(forall(n, maxn, lambda i: z3.And(
        0 <= loc(i), loc(i) < m, start(loc(i)) <= i, i < stop(loc(i)))))
    return loc
