"""Abstract datasets: sequences of rows.

A row is ``(source, index)``; its time is a function of both.  ``isel`` and
``concat`` along the partitioning dimension have the contract proved for
``Dataset.isel`` / ``Dataset.concat`` under C20: the selected rows in order,
and the rows of the parts one after the other, whatever the variables."""
from __future__ import annotations

from . import core
from .core import SymTime, Unsupported, cur, ite, z3, zint
from .theory import (I, SymArr, SymSeq, concat_seq, forall, forall2,
                     norm_slice, zb)


class Rows:
    """Dataset known by its rows along the partitioning dimension."""

    def __init__(self, n, row, time, unit, maxn, find, dim='num',
                 axis='time'):
        self.seq = SymSeq(n, row, maxn)
        self.time = time
        self.unit = unit
        self.find = find
        self.dim = dim
        self.axis = axis

    @property
    def n(self):
        return self.seq.n

    @property
    def maxn(self):
        return self.seq.maxn

    def row(self, k):
        return self.seq.at(k)

    def t(self, k):
        s, i = self.row(k)
        return self.time(zint(s), zint(i))

    # -- interface used by the code -------------------------------------
    @property
    def variables(self):
        arr = SymArr(self.n, lambda k: SymTime(self.t(k), self.unit, 'M'),
                     self.maxn, dtype=f'M8[{self.unit}]')
        outer = self

        class Var:
            values = arr
            array = arr
            shape = arr.shape
            size = arr.size
            dtype = arr.dtype

            def compute(self, *a, **k):
                return arr

        class Vars(dict):

            def __missing__(self, name):
                if name == outer.axis:
                    return Var()
                raise Unsupported(f'variable {name} of an abstract dataset')

        return Vars()

    def __getitem__(self, name):
        return self.variables[name]

    def _new(self, n, row, maxn, find):
        return Rows(n, row, self.time, self.unit, maxn, find, self.dim,
                    self.axis)

    def isel(self, slices):
        if list(slices) != [self.dim]:
            raise Unsupported('isel on another dimension')
        s = slices[self.dim]
        if isinstance(s, slice):
            a, b = norm_slice(s, self.n)

            def find(r):
                ok, p = self.find(r)
                return z3.And(ok, a <= p, p < b), p - a

            return self._new(b - a, lambda k: self.row(a + k), self.maxn,
                             find)
        if isinstance(s, SymArr) and s.dtype.kind == 'b':
            from .theory import where_true
            s = where_true(s)
        if isinstance(s, SymArr):
            cur().prove(forall(s.n, s.maxn, lambda k: z3.And(
                zint(s.at(k)) >= 0, zint(s.at(k)) < self.n)),
                        'selected rows exist')
            w = s.meta.get('where')

            def find(r):
                if w is None:
                    raise Unsupported('selection of unknown origin')
                mask, f, g = w
                ok, p = self.find(r)
                return z3.And(ok, zb(mask.at(p))), g(p)

            return self._new(s.n, lambda k: self.row(zint(s.at(k))), s.maxn,
                             find)
        raise Unsupported(f'isel with {type(s).__name__}')

    def concat(self, other, dim):
        if dim != self.dim:
            raise Unsupported('concat on another dimension')
        parts = [self] + (list(other) if isinstance(other, (list, tuple))
                          else [other])
        seq = concat_seq([p.seq for p in parts], 'list', cls=SymSeq)

        def find(r):
            ok, pos = z3.BoolVal(False), z3.IntVal(0)
            offs = z3.IntVal(0)
            out = []
            for p in parts:
                o, q = p.find(r)
                out.append((o, offs + q))
                offs = offs + p.n
            for o, q in reversed(out):
                pos = z3.If(o, q, pos)
                ok = z3.Or(o, ok)
            return ok, pos

        return self._new(seq.n, seq.f, seq.maxn, find)


def source(tag, n, maxn, time, unit, dim='num', axis='time', lo=0):
    """Input dataset: rows (tag, lo), (tag, lo + 1), ..."""
    from .core import SymInt, mkint

    def find(r):
        s, i = r
        return z3.And(s == tag, lo <= i, i < lo + n), i - lo

    return Rows(n, lambda k: (tag, mkint(lo + k)), time, unit, maxn, find,
                dim, axis)


def abstract(name, member, time, unit, dim='num', axis='time'):
    """Arbitrary ordered dataset made of exactly the rows of ``member``."""
    ctx = cur()
    n = ctx.int(name + '_n')
    s, i = ctx.func(name + '_src'), ctx.func(name + '_idx')
    pos = ctx.func(name + '_pos', z3.IntSort(), z3.IntSort(), z3.IntSort())
    ctx.assume(n >= 0)
    ctx.assume(forall(n, None, lambda k: z3.And(
        member(s(k), i(k)), pos(s(k), i(k)) == k), dom=name))
    ctx.assume(forall2(n, None, lambda a, b: z3.And(
        time(s(a), i(a)) <= time(s(b), i(b))), dom=name))
    # completeness, by instances: the caller names the rows it needs
    from .core import SymInt
    r = Rows(n, lambda k: (SymInt(s(k)), SymInt(i(k))), time, unit, None,
             lambda r: (member(r[0], r[1]), pos(r[0], r[1])), dim, axis)
    r.complete = lambda a, b: ctx.assume(z3.Implies(
        member(a, b), z3.And(pos(a, b) >= 0, pos(a, b) < n,
                             s(pos(a, b)) == a, i(pos(a, b)) == b)))
    return r
