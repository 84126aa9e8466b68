"""Effects of unbounded iterations, cluster and lock.

``Effects``: a comprehension, a ``for`` statement or a group of tasks over a
sequence of unknown length is executed for one arbitrary element, which stands
for all of them: the log then holds the effects of the element ``k`` for an
arbitrary ``k`` (or none when the sequence is empty).  A contract proves that
these are the effects required for the element k; since k is arbitrary this
holds for every element, each being processed once."""
from __future__ import annotations

import re

from . import theory
from .core import Sym, Unsupported, cur, mkbool, mkint, z3, zint
from .theory import SymList, SymSeq

PathEnd = theory.PathEnd


class Effects:

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.effects = self
        self.log = []
        self.muted = 0
        self.taint = None
        self.reps = []
        self.seqs = []

    def record(self, *what):
        if not self.muted:
            self.log.append(what)

    def pick(self, n):
        """An arbitrary index below n, None on the path where n is 0."""
        ctx = self.ctx
        if self.muted:
            raise Unsupported('iteration inside a value')
        if not ctx.branch(n > 0):
            ctx.assume(n == 0)
            return None
        k = ctx.int('elt')
        ctx.assume(z3.And(0 <= k, k < n))
        ctx.instantiate(k)
        self.reps.append((k, n))
        return k

    def each(self, seq):
        f = seq.f
        k = self.pick(seq.n)
        if k is None:
            return None
        self.seqs.append(seq)
        if 'filtered' in seq.meta:
            self.ctx.instantiate(k, depth=2,
                                 dom=seq.meta['filtered'].meta['dom'])
        v = seq.at(k)

        def again(j):
            self.muted += 1
            try:
                return f(j)
            finally:
                self.muted -= 1

        seq.f = again
        return k, v

    def check(self):
        """The log is complete (no iteration was left early)."""
        if self.taint:
            raise Unsupported(self.taint)


class Task:
    """A lazy task of the cluster."""

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs

    def run(self):

        def value(x):
            if isinstance(x, Scattered):
                return x.value
            if isinstance(x, Task):
                return x.run()
            return x

        return self.func(*[value(a) for a in self.args],
                         **{k: value(v) for k, v in self.kwargs.items()})

    result = run


class Scattered:

    def __init__(self, value):
        self.value = value


class Lock:
    """A synchronizer."""

    def __init__(self):
        self.depth = 0
        self.entered = 0

    def __enter__(self):
        self.depth += 1
        self.entered += 1
        return True

    def __exit__(self, *a):
        self.depth -= 1

    def is_locked(self):
        return self.depth > 0


class TaskError(Exception):
    """Error of a task."""


class Client:
    """Cluster: tasks given to ``map`` start at once, outside any lock."""

    def __init__(self, cluster):
        self.cluster = cluster

    def scatter(self, x, **kw):
        return Scattered(x)

    def map(self, func, *its, pure=None, key=None, workers=None, **kw):
        if len(its) != 1:
            raise Unsupported('map of several iterables')
        it = its[0]
        if not isinstance(it, SymSeq):
            it = theory.drain(it)
        if not isinstance(it, SymSeq):
            it = theory.lift(it)
        return SymList(it.n, lambda k: Task(func, (it.at(k), ), kw), it.maxn)

    def gather(self, tasks, **kw):
        return self.cluster.run(tasks, 'gather')

    def compute(self, tasks, **kw):
        return tasks


class Cluster:
    """dask_utils and execute_transaction under their contracts.

    execute_transaction(client, lock, tasks): every task is executed once
    while the lock is held, the results are returned in order; the error of a
    task is raised after the end of all the tasks and the release."""

    def __init__(self, ctx, W, lock, module, fails=True, delayed=True):
        self.ctx = ctx
        self.lock = lock
        self.client = Client(self)
        self.workers = ctx.int('workers')
        ctx.assume(self.workers >= 1)
        self.transactions = 0
        self.failing = fails
        self.failed = False
        self.once = False
        W.patch('dask_utils:get_client', lambda: self.client)
        W.patch('dask_utils:dask_workers',
                lambda client, cores_only=False: mkint(self.workers))
        W.patch('dask_utils:simple_delayed',
                lambda name, func: (lambda *a, **k: Task(func, a, k)))
        W.patch('storage:execute_transaction', self.transaction)
        self.split(W)

    def split(self, W):
        """Contract of split_sequence (C18)."""

        def split_sequence(sequence, sections=None):
            ctx = self.ctx
            n = theory.lift(sequence).n
            if sections is not None and ctx.branch(zint(sections) <= 0):
                raise ValueError('sections')
            if not isinstance(sequence, SymSeq) or sequence.maxn is not None:
                raise Unsupported('split of a bounded sequence')
            m = ctx.int('batches')
            name = f'start!{next(ctx.counter)}'
            start = z3.Function(name, z3.IntSort(), z3.IntSort())
            ctx.assume(z3.And(0 <= m, m <= n, (m == 0) == (n == 0),
                              start(0) == 0, start(m) == n))
            ctx.assume(theory.forall(m, None, lambda k: z3.And(
                start(k) < start(k + 1), 0 <= start(k), start(k + 1) <= n)))
            self.batches = (m, start, sequence)
            return SymList(
                m, lambda k: SymList(start(k + 1) - start(k),
                                     lambda j: sequence.at(start(k) + j)),
                kind='gen')

        W.patch('dask_utils:split_sequence', split_sequence)

    def transaction(self, client, synchronizer, futures, **kw):
        ctx = self.ctx
        self.transactions += 1
        if not isinstance(futures, SymSeq):
            futures = theory.drain(futures)
        if not isinstance(futures, SymSeq):
            futures = theory.lift(futures)
        ctx.prove(z3.BoolVal(synchronizer is self.lock),
                  'the synchronizer of the collection is used')
        if not ctx.branch(futures.n > 0):
            return None
        with synchronizer:
            return self.run(futures, 'transaction')

    def run(self, futures, where):
        ctx = self.ctx
        if not isinstance(futures, SymSeq):
            if not isinstance(futures, (list, tuple)):
                return futures.run()
            futures = theory.lift(futures)
        res = SymList(futures.n, lambda k: futures.at(k).run(), futures.maxn)
        if futures.maxn is not None:
            return [t for t in res]
        if ctx.effects is None:
            raise Unsupported('tasks')
        ctx.effects.each(res)
        if self.failing and not (self.once and self.failed) and ctx.choose(2, f'a task of {where} fails'):
            self.failed = True
            raise TaskError()
        return res


# -- paths of an arbitrary partition -------------------------------------
_PATTERN = re.compile(r'p<(\d+)>')


class SymPath(str, Sym):
    """Path of the partition k of the collection: opaque text."""

    @classmethod
    def make(cls, base, k, tail=''):
        ctx = cur()
        k = z3.simplify(k if z3.is_expr(k) else z3.IntVal(k))
        table = ctx.ghost.setdefault('paths', {})
        i = next((i for i, t in table.items() if t.eq(k)), None)
        if i is None:
            i = len(table)
            table[i] = k
        s = str.__new__(cls, f'{base}{"/" if base else ""}p<{i}>{tail}')
        return s

    def _key(self, o):
        a, b = split_path(self), split_path(o)
        if a[1] is None or b[1] is None or a[0] != b[0] or a[2] != b[2]:
            return None
        return a[1] == b[1]

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        c = self._key(o)
        return False if c is None else mkbool(z3.simplify(c))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def __ite__(self, c, o):
        a, b = split_path(self), split_path(o)
        if b[1] is None or a[0] != b[0] or a[2] != b[2]:
            return self if cur().branch(c) else o
        return SymPath.make(a[0].rstrip('/'), z3.If(c, a[1], b[1]), a[2])

    def __hash__(self):
        raise Unsupported('set or dictionary of symbolic paths')

    def __lt__(self, o):
        raise Unsupported('comparison of symbolic paths')

    __le__ = __gt__ = __ge__ = __lt__


def split_path(s):
    """(text before, index of the partition or None, text after)"""
    s = str.__str__(s)
    m = _PATTERN.search(s)
    if not m:
        return s, None, ''
    return (s[:m.start()], cur().ghost['paths'][int(m.group(1))],
            s[m.end():])


def path_is(s, base, k, tail=''):
    """Formula: s is the path of the partition k."""
    if not isinstance(s, str):
        return z3.BoolVal(False)
    a, i, b = split_path(s)
    if i is None or a != (f'{base}/' if base else '') or b != tail:
        return z3.BoolVal(False)
    return i == k
