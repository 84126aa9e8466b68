"""C16: the ranges made from a selected, sorted table of any number of rows."""
import numpy

from pydv import world as w
from pydv.core import SymInt, Unsupported, cur, mkbool, mkint, z3, zint
from pydv.harness import contract
from pydv.theory import (Facade, SymArr, SymSeq, drain, forall, input_array,
                         input_len, lift, numpy_facade, where_true, zb)

X = 'zcollection/indexing/abc.py:'


def T(x):
    return z3.BoolVal(bool(x))


class Col:

    def __init__(self, a):
        self.a = a

    def to_numpy(self, **k):
        return self.a

    __array__ = None


class Table:
    """A table of n rows, sorted by the keys, the start and the stop."""

    def __init__(self, n, cols):
        self.n, self.cols = n, cols
        self.column_names = list(cols)

    num_rows = property(lambda self: mkint(self.n))

    def __len__(self):
        return mkint(self.n)

    def __getitem__(self, name):
        return Col(self.cols[name])

    column = __getitem__


class Cell(SymInt):
    """A value that remembers its row."""
    row = None


def traced(a):
    fn = a.meta['fn']

    def f(k):
        v = Cell(fn(k))
        v.row = k
        return v

    return a.new(a.n, f, a.maxn, fn=fn)


def world():
    return w.World(facades={'numpy': numpy_facade()})


def make_indexer(W, keys, table):
    m = W['indexing.abc']

    class Idx(m.Indexer):
        table = None

        @classmethod
        def create(cls, *a, **k):
            raise NotImplementedError

        def update(self, *a, **k):
            raise NotImplementedError

    ix = Idx('/index', filesystem=object())
    Idx.table = table
    ix._partition_keys = keys
    return ix


def replay(i):
    import pyarrow as pa
    from zcollection.indexing import Indexer
    names = i['names']
    keys = tuple(i['keys'])

    class Idx(Indexer):

        @classmethod
        def create(cls, *a, **k):
            raise NotImplementedError

        def update(self, *a, **k):
            raise NotImplementedError

    cols = {k: [int(v) for v in i[k]] for k in names}
    n = len(cols['start'])
    ix = Idx('/nowhere')
    ix._partition_keys = keys
    t = pa.Table.from_pydict({k: pa.array(v, type=pa.int64())
                              for k, v in cols.items()})
    Idx.table = t
    out = ix._table_2_indexer(t, i['only'])
    got = [(tuple((k, int(v)) for k, v in key), int(s.start), int(s.stop))
           for key, s in out]
    columns = keys if i['only'] else [c for c in names
                                      if c not in ('start', 'stop')]
    want = []
    for r in range(n):
        key = tuple((k, cols[k][r]) for k in columns)
        if want and want[-1][0] == key and cols['start'][r] <= want[-1][2]:
            want[-1][2] = max(want[-1][2], cols['stop'][r])
        else:
            want.append([key, cols['start'][r], cols['stop'][r]])
    want = [tuple(x) for x in want]
    return [] if got == want else [f'{got} instead of {want}']


def ranges(ctx, W, nkeys, only):
    keys = ('k0', 'k1')[:nkeys]
    names = ['start', 'stop', 'c'] + list(keys)
    n, M = input_len('n')
    cols = {k: traced(input_array(k, n, M)) for k in names}
    for k in names:
        ctx.input(k, cols[k])
    ctx.input('names', names)
    ctx.input('keys', list(keys))
    ctx.input('only', only)
    at = {k: (lambda i, a=cols[k]: zint(a.at(i))) for k in names}
    start, stop = at['start'], at['stop']

    def ordered(i):
        # lexicographic order of the keys, start (the stop is irrelevant)
        r = start(i) <= start(i + 1)
        for k in reversed(keys):
            r = z3.Or(at[k](i) < at[k](i + 1),
                      z3.And(at[k](i) == at[k](i + 1), r))
        return r

    ctx.assume(forall(n, M, lambda i: z3.And(0 <= start(i),
                                             start(i) < stop(i))))
    ctx.assume(forall(n - 1, M, ordered))
    ix = make_indexer(W, keys, Table(n, cols))
    ctx.cover('reachable')
    out = drain(ix._table_2_indexer(ix.table, only))
    out = out if isinstance(out, SymSeq) else lift(out)
    columns = keys if only else tuple(c for c in names
                                      if c not in ('start', 'stop'))
    if ctx.branch(n == 0):
        ctx.prove(out.n == 0, 'no range without rows')
        return
    if out.maxn is not None:
        concrete(ctx, out, n, M, at, columns)
        return
    unbounded(ctx, out, n, at, columns, keys)


def unbounded(ctx, out, n, at, columns, keys):
    """An arbitrary range g, made of the rows a..b-1; the ranges are proved to
    tile the rows, hence every row belongs to exactly one of them."""
    start, stop = at['start'], at['stop']
    near = bounds(ctx, out, n)
    near(z3.IntVal(0))
    ctx.prove(out.n > 0, 'at least one range')
    ctx.prove(row(out.at(0)[1].start) == 0,
              'the first range starts at the first row')
    g = ctx.int('g')
    ctx.assume(z3.And(0 <= g, g < out.n))
    near(g)
    near(g + 1)
    key, sl = out.at(g)
    a = row(sl.start)
    last = ctx.branch(g + 1 == out.n)
    b = n if last else row(out.at(g + 1)[1].start)
    ctx.prove(z3.And(0 <= a, a < b, b <= n), 'ranges tile the rows')
    ctx.prove(T(tuple(k for k, _ in key) == tuple(columns)),
              'columns of the result')
    for k, v in key:
        ctx.prove(zint(v) == at[k](a), 'partition of the range')
    ctx.prove(zint(sl.start) == start(a), 'start of the range')
    # running end of the rows, inside a partition
    far = getattr(ctx, 'last_joined', None)
    if far is None:
        raise Unsupported('running end of the rows')
    R = lambda i: zint(far.at(i))  # noqa: E731
    u = getattr(ctx, 'last_unique', None)
    dom = u.meta.get('dom') if u is not None else None
    if u is not None:
        base = u.meta['base']
        ctx.prove(zint(u.at(g + 1)) == b, 'next bound', focus=[
            (g, 0, dom), (g + 1, 0, dom),
            (base.n - 1, 1, base.meta.get('dom'))])
    ctx.prove(zint(sl.stop) == R(b - 1), 'stop of the range (running end)',
              focus=[])

    def alike(i, j):
        return z3.And([at[k](i) == at[k](j) for k in columns])

    # inside a range, a row continues the previous ones
    j = ctx.int('j')

    def prove(t, name, *rows, deep=(0, 0)):
        ctx.prove(t, name, focus=[(g, deep[0], dom), (g + 1, deep[1], dom)] +
                  [(r, d, 'rows') for r, d in rows])

    inside = z3.And(a <= j, j + 1 < b)
    prove(z3.Implies(inside, alike(j, j + 1)),
          'the rows of a range are of one partition', (j + 1, 3))
    prove(z3.Implies(inside, start(j + 1) <= R(j)), 'a range has no gap',
          (j, 3))
    prove(z3.Implies(inside, start(j) <= start(j + 1)),
          'the first row of a range starts first', (j, 0))
    prove(z3.Implies(inside, R(j + 1) == z3.If(
        R(j) < stop(j + 1), stop(j + 1), R(j))),
          'the end of a range is the furthest one', (j, 1), (j + 1, 3))
    # its first row starts anew
    r = ctx.int('first')
    ctx.assume(r == a)
    prove(R(r) == stop(r), 'end of the first row of a range', (r, 3),
          (r - 1, 1), deep=(2, 0))
    if not last:
        r = ctx.int('next')
        ctx.assume(r == b)
        prove(z3.Implies(alike(r - 1, r), start(r) > R(r - 1)),
              'ranges of one partition do not touch', (r, 1), (r - 1, 1),
              deep=(0, 2))


def bounds(ctx, out, n):
    """Positions of the bounds of the ranges, if they come from numpy.unique
    (a help to the proof: they are rows)."""
    u = getattr(ctx, 'last_unique', None)

    def near(g):
        if u is None:
            return
        ctx.instantiate(g, g + 1, depth=3, dom=u.meta.get('dom'))
        c = lambda q: zint(u.at(q))  # noqa: E731
        ctx.prove(z3.Implies(g < out.n, z3.And(
            0 <= c(g), c(g) < c(g + 1), c(g + 1) <= n)), 'bounds are rows')

    return near


def row(x):
    """Row of the table a value was read from."""
    return x.row


def concrete(ctx, out, n, M, at, columns):
    """Bounded sizes: comparison with the merge of the rows."""
    size = next(v for v in range(1, M + 1) if ctx.branch(n == v))
    want = []
    for r in range(size):
        same = want and all(ctx.branch(at[k](want[-1][0]) == at[k](r))
                            for k in columns)
        if same and ctx.branch(at['start'](r) <= want[-1][2]):
            s = at['stop'](r)
            want[-1][2] = z3.If(s > want[-1][2], s, want[-1][2])
        else:
            want.append([r, at['start'](r), at['stop'](r)])
    got = list(SymSeq.__iter__(out))
    ctx.prove(T(len(got) == len(want)), 'number of ranges')
    for (key, sl), (r, a, b) in zip(got, want):
        ctx.prove(T(tuple(k for k, _ in key) == tuple(columns)),
                  'columns of the result')
        for k, v in key:
            ctx.prove(zint(v) == at[k](r), 'partition of the range')
        ctx.prove(zint(sl.start) == a, 'start of the range')
        ctx.prove(zint(sl.stop) == b, 'stop of the range')


for _nkeys in (1, 2):
    for _only in (True, False):
        contract('C16', '_table_2_indexer: the rows of a selection of any '
                 'size, merged into the longest touching ranges of one '
                 f'partition ({_nkeys} key(s), ' + (
                     'the keys only)' if _only else 'every column)'),
                 [X + 'Indexer._table_2_indexer'], world=world, bounded=(),
                 replay=replay,
                 assumes=('numpy functions as pydv/theory.py states '
                          '(differentially tested)', ))(
                              lambda ctx, W, a=_nkeys, b=_only: ranges(
                                  ctx, W, a, b))


# -- selection of the rows -----------------------------------------------------
class Values:
    """Any set of values, of any size."""

    def __init__(self, ctx, name):
        self.has = z3.Function(ctx.name(name), z3.IntSort(), z3.BoolSort())

    def __iter__(self):
        raise Unsupported('values of the query one by one')


class Array:

    def __init__(self, values):
        self.values = values

    def member(self, x):
        if isinstance(self.values, Values):
            return self.values.has(zint(x))
        return z3.Or([zint(x) == zint(v) for v in self.values] or [T(False)])


class Rows:
    """A table of n rows; ``src``: row of the index each comes from, ``pos``:
    its position here (when present)."""

    def __init__(self, n, cols, src, pos, doms=()):
        self.n, self.cols, self.src, self.pos = n, cols, src, pos
        self.doms = doms
        self.column_names = list(cols)

    num_rows = property(lambda self: mkint(self.n))

    def __len__(self):
        return mkint(self.n)

    def __getitem__(self, name):
        if not isinstance(name, str):
            raise Unsupported('column by position')
        return self.cols[name]

    column = __getitem__

    def pick(self, idx, pos):
        at = lambda k: zint(idx.at(k))  # noqa: E731
        return Rows(idx.n, {c: a.new(idx.n, lambda k, a=a: a.at(at(k)), None,
                                     dom=idx.meta['dom'])
                            for c, a in self.cols.items()},
                    lambda k: self.src(at(k)),
                    lambda i: pos(self.pos(i)),
                    self.doms + (idx.meta.get('dom'), ))

    def filter(self, mask, **k):
        if k or not isinstance(mask, SymArr):
            raise Unsupported('filter')
        if not cur().branch(mask.n == self.n):
            raise ValueError('filter')
        idx = where_true(mask)
        return self.pick(idx, idx.meta['where'][2])

    def take(self, idx, **k):
        if not isinstance(idx, SymArr) or 'perm' not in idx.meta:
            raise Unsupported('take')
        return self.pick(idx, idx.meta['perm'])

    def sort_by(self, keys, **k):
        return self.take(sorted_indices(self, keys))


def below(cols, keys, i, j):
    """Row i is before row j, or equal to it, for the keys."""
    r = T(True)
    for name, order in reversed(list(keys)):
        x, y = zint(cols[name].at(i)), zint(cols[name].at(j))
        r = z3.Or(x < y if order == 'ascending' else x > y,
                  z3.And(x == y, r))
    return r


def sorted_indices(table, sort_keys=(), **k):
    """A permutation that puts the rows in order (pyarrow contract)."""
    if k:
        raise Unsupported('sort options')
    keys = list(sort_keys)
    ctx = cur()
    p, q = ctx.func('perm'), ctx.func('permi')
    n, dom = table.n, ctx.name('sorted')
    inner = table.doms[-1] if table.doms else 'rows'
    ctx.assume(forall(n, None, lambda k: z3.And(
        0 <= p(k), p(k) < n, q(p(k)) == k),
        spawn=lambda k: [(p(k), inner)], dom=dom))
    ctx.assume(forall(n, None, lambda i: z3.And(
        0 <= q(i), q(i) < n, p(q(i)) == i),
        spawn=lambda i: [(q(i), dom)], dom=inner))
    ctx.assume(forall(n - 1, None, lambda k: below(
        table.cols, keys, p(k), p(k + 1)), dom=dom))
    return SymArr(n, lambda k: SymInt(p(k)), None, dtype='int64',
                  nonneg=True, perm=q, dom=dom)


def combine(f):

    def fn(a, b, **k):
        if k or not cur().branch(a.n == b.n):
            raise Unsupported('masks')
        return a.new(a.n, lambda i: mkbool(f(zb(a.at(i)), zb(b.at(i)))),
                     None, dtype='bool', dom=a.meta.get('dom', 'rows'))

    return fn


def query_world():
    import pyarrow
    import pyarrow.compute

    def is_in(col, value_set=None, **k):
        if k or not isinstance(value_set, Array):
            raise Unsupported('is_in')
        return col.new(col.n, lambda i: mkbool(value_set.member(col.at(i))),
                       None, dtype='bool', dom=col.meta.get('dom', 'rows'))

    pc = Facade(pyarrow.compute, dict(
        is_in=is_in, and_=combine(lambda a, b: z3.And(a, b)),
        or_=combine(lambda a, b: z3.Or(a, b)),
        xor=combine(lambda a, b: z3.Xor(a, b)),
        and_not=combine(lambda a, b: z3.And(a, z3.Not(b))),
        invert=lambda a: a.new(a.n, lambda i: mkbool(z3.Not(zb(a.at(i)))),
                               None, dtype='bool',
                               dom=a.meta.get('dom', 'rows')),
        sort_indices=sorted_indices, filter=lambda t, m: t.filter(m),
        take=lambda t, i: t.take(i)))
    return w.World(facades={
        'numpy': numpy_facade(), 'pyarrow': Facade(pyarrow, dict(
            compute=pc, array=lambda v, type=None: Array(v)))})


def replay_select(i):
    import pyarrow as pa
    from zcollection.indexing import Indexer
    names, keys = i['names'], tuple(i['keys'])

    class Idx(Indexer):

        @classmethod
        def create(cls, *a, **k):
            raise NotImplementedError

        def update(self, *a, **k):
            raise NotImplementedError

        def _table_2_indexer(self, table, only):
            return table.to_pylist()

    cols = {k: [int(v) for v in i[k]] for k in names}
    rows = [dict(zip(cols, r)) for r in zip(*cols.values())]
    ix = Idx('/nowhere')
    ix._partition_keys = keys
    ix._type = {k: pa.int64() for k in names}
    ix._table = pa.Table.from_pydict({k: pa.array(v, type=pa.int64())
                                      for k, v in cols.items()})
    err = []
    import itertools
    # the sets of values of the counterexample are not kept: any subset of
    # the values present
    def subsets(c):
        vs = sorted(set(cols[c]))
        return [list(x) for m in range(len(vs) + 1)
                for x in itertools.combinations(vs, m)]

    for given in itertools.product(*[subsets(c) for c in i['columns']]):
        q = dict(zip(i['columns'], given))
        for m in (itertools.product((True, False), repeat=len(rows))
                  if i['masked'] else [None]):
            got = ix.query(dict(q), logical_op=i['op'], mask=None
                           if m is None else pa.chunked_array([list(m)]))

            def hit(r):
                h = None
                for c, vs in q.items():
                    x = r[c] in vs
                    h = x if h is None else {
                        'or': h or x, 'xor': h != x,
                        'and_not': h and not x}.get(i['op'], h and x)
                if h is None:
                    return True
                return not h if i['op'] == 'invert' else h

            want = sorted([r for k, r in enumerate(rows) if hit(r) and (
                m is None or m[k])], key=lambda r: [r[c] for c in keys + (
                    'start', 'stop')])
            order = lambda x: [[r[c] for c in keys + ('start', 'stop')]
                               for r in x]
            if order(got) != order(want):
                err.append(f'{q} {m}: {got} instead of {want}')
    return err[:3]


@contract('C16', 'query: exactly the rows selected by values of any number, '
          'in order, from an index of any size',
          [X + 'Indexer.query', X + 'Indexer._sort_keys'],
          world=query_world, bounded=(), replay=replay_select,
          assumes=('pyarrow is_in, boolean kernels, filter, sort and take as '
                   'contracts/c16_table.py states', ))
def select(ctx, W):
    nkeys = 1 + ctx.choose(2, 'keys')
    keys = ('k0', 'k1')[:nkeys]
    names = ['start', 'stop', 'c'] + list(keys)
    n, M = input_len('n')
    cols = {k: input_array(k, n, M) for k in names}
    which = [(), ('c', ), ('c', 'k0'), ('k0', 'start', 'c')][
        ctx.choose(4, 'columns')]
    op = [None, 'and', 'or', 'xor', 'and_not', 'invert'][
        ctx.choose(6, 'operator') if which else 0]
    masked = op != 'xor' and bool(ctx.choose(2, 'mask'))
    for k in names:
        ctx.input(k, cols[k])
    for k, v in dict(names=names, keys=list(keys), columns=list(which),
                     op=op, masked=masked).items():
        ctx.input(k, v)
    table = Rows(n, cols, lambda k: k, lambda i: i)
    ix = make_indexer(W, keys, table)
    ix._table = table
    ix._type = {k: 'i8' for k in names}
    seen = []
    ix._table_2_indexer = lambda t, only_partition_keys: seen.append(
        (t, only_partition_keys)) or iter(())
    sets = {c: Values(ctx, f'in_{c}') for c in which}
    if len(which) == 1 and ctx.choose(2, 'scalar'):
        v = ctx.int('scalar')
        sets[which[0]] = mkint(v)
    mask = input_array('mask', n, M, 'bool') if masked else None
    only = op != 'or'
    if op is None and not masked:
        ctx.cover('reachable')
    try:
        ix.query(dict(sets), logical_op=op, mask=mask,
                 only_partition_keys=only)
    except (ValueError, KeyError) as exc:
        ctx.fail(f'refused: {exc!r}')
        return
    ctx.prove(T(len(seen) == 1 and bool(seen[0][1]) == only), 'one result')
    out = seen[0][0]

    def hit(i):
        h = None
        for c in which:
            s = sets[c]
            x = cols[c].at(i)
            x = s.has(zint(x)) if isinstance(s, Values) else \
                zint(x) == zint(s)
            h = x if h is None else {
                'or': lambda: z3.Or(h, x), 'xor': lambda: z3.Xor(h, x),
                'and_not': lambda: z3.And(h, z3.Not(x))}.get(
                    op, lambda: z3.And(h, x))()
        h = T(True) if h is None else z3.Not(h) if op == 'invert' else h
        return h if mask is None else z3.And(zb(mask.at(i)), h)

    # every selected row of the index, once
    i = ctx.int('i')
    ctx.assume(z3.And(0 <= i, i < n, hit(i)))
    ctx.instantiate(i, depth=4, dom='rows')
    k = out.pos(i)
    ctx.prove(z3.And(0 <= k, k < out.n, out.src(k) == i),
              'every selected row is kept')
    k = ctx.int('k')
    ctx.assume(z3.And(0 <= k, k < out.n))
    ctx.instantiate(k, k + 1, depth=4, dom=out.doms[-1] if out.doms
                    else None)
    r = out.src(k)
    ctx.prove(z3.And(0 <= r, r < n, hit(r)), 'only the selected rows')
    ctx.prove(out.pos(r) == k, 'each row once')
    ctx.prove(T(set(out.cols) == set(names)), 'columns')
    for c in names:
        ctx.prove(zint(out.cols[c].at(k)) == zint(cols[c].at(r)),
                  'columns of one row stay together')
    order = [(c, 'ascending') for c in keys + ('start', 'stop')]
    ctx.prove(z3.Implies(k + 1 < out.n, below(out.cols, order, k, k + 1)),
              'rows sorted by keys, start and stop')
