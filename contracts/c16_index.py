"""Contracts of the index (C16): tables of a bounded number of rows holding
any values, under the assumed contracts of the pyarrow functions below."""
import itertools
import types

import numpy
import pyarrow
import pyarrow.compute
import pyarrow.parquet

from pydv import world as w
from pydv.core import Unsupported, cur, mkbool, mkint, z3, zint
from pydv.harness import contract
from pydv.theory import Facade

X = 'zcollection/indexing/abc.py:'
ASSUMES = ('pyarrow filters, sorts, concatenates and stores tables as '
           'contracts/c16_index.py states', )


def T(x):
    return z3.BoolVal(bool(x))


def objects(values):
    out = numpy.empty(len(values), dtype=object)
    for k, v in enumerate(values):
        out[k] = v
    return out


class Col:

    def __init__(self, values, type=None):
        self.values = list(values)
        self.type = type

    def to_numpy(self, **k):
        return objects(self.values)

    def to_pylist(self):
        return list(self.values)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def fill_null(self, v):
        return Col([v if x is None else x for x in self.values], self.type)


class Schema:

    def __init__(self, names, types_, metadata):
        self.names = list(names)
        self.types_ = types_
        self.metadata = metadata

    def field(self, name):
        return types.SimpleNamespace(name=name, type=self.types_[name])


class Table:

    def __init__(self, columns, metadata=None):
        self.columns_ = dict(columns)
        self.metadata = metadata
        sizes = {len(c) for c in self.columns_.values()}
        if len(sizes) > 1:
            raise pyarrow.ArrowInvalid('columns of different lengths')
        self.num_rows = sizes.pop() if sizes else 0

    column_names = property(lambda self: list(self.columns_))
    schema = property(lambda self: Schema(
        self.columns_, {k: c.type for k, c in self.columns_.items()},
        self.metadata))

    def __len__(self):
        return self.num_rows

    def __getitem__(self, name):
        if not isinstance(name, str):
            raise Unsupported('column by position')
        return self.columns_[name]

    column = __getitem__

    def rows(self, names):
        return [tuple(self.columns_[n].values[k] for n in names)
                for k in range(self.num_rows)]

    def take(self, idx, **k):
        idx = list(getattr(idx, 'values', idx))
        return Table({n: Col([c.values[i] for i in idx], c.type)
                      for n, c in self.columns_.items()}, self.metadata)

    def filter(self, mask, **k):
        if not isinstance(mask, Mask) or len(mask.bits) != self.num_rows:
            raise pyarrow.ArrowInvalid('filter')
        return self.take([k for k, b in enumerate(mask.bits)
                          if cur().branch(b)])

    def replace_schema_metadata(self, metadata=None):
        return Table(self.columns_, {
            k.encode() if isinstance(k, str) else k: v
            for k, v in metadata.items()} if metadata else None)

    def sort_by(self, keys, **k):
        return self.take(sort_indices(self, sort_keys=keys))

    @staticmethod
    def from_pydict(data, schema=None, metadata=None):
        return Table({k: c if isinstance(c, Col) else Col(c)
                      for k, c in data.items()})


class Mask:

    def __init__(self, bits):
        self.bits = list(bits)


def is_in(col, value_set=None, **k):
    vs = list(getattr(value_set, 'values', value_set))
    return Mask([z3.Or([zint(x) == zint(v) for v in vs] or [T(False)])
                 for x in col.values])


def binary(f):
    return lambda a, b, **k: Mask([f(x, y) for x, y in zip(a.bits, b.bits)])


def sort_indices(table, sort_keys=(), **k):
    import functools

    def cmp(a, b):
        for name, order in sort_keys:
            c = table.columns_[name].values
            if bool(c[a] == c[b]):
                continue
            less = bool(c[a] < c[b])
            return -1 if less == (order == 'ascending') else 1
        return 0

    return Col(sorted(range(table.num_rows), key=functools.cmp_to_key(cmp)))


def concat_tables(tables, **k):
    tables = list(tables)
    names = tables[0].column_names
    for t in tables[1:]:
        # the order of the columns is part of the schema
        if t.column_names != names or any(
                t[n].type != tables[0][n].type for n in names):
            raise pyarrow.ArrowInvalid('Schema at index 1 was different')
    return Table({n: Col(sum((t[n].values for t in tables), []),
                         tables[0][n].type) for n in names},
                 tables[0].metadata)


class Disk:
    """Ghost file system holding tables."""

    def __init__(self):
        self.files = {}

    def exists(self, path):
        return path in self.files

    def open(self, path, mode='r'):
        disk = self

        class F:
            name = path

            def __enter__(self):
                if path not in disk.files:
                    raise FileNotFoundError(path)
                return self

            def __exit__(self, *a):
                return False

        return F()


DISK = Disk()


def facade():
    def read_table(path, filesystem=None, **k):
        if k:
            raise Unsupported(f'read_table {k}')
        t = filesystem.files[path]
        return Table(t.columns_, t.metadata)

    def write_table(table, path, filesystem=None, **k):
        filesystem.files[path] = Table(table.columns_, table.metadata)

    def read_schema(stream, **k):
        return DISK.files[stream.name].schema

    pc = Facade(pyarrow.compute, dict(
        is_in=is_in, and_=binary(lambda a, b: z3.And(a, b)),
        or_=binary(lambda a, b: z3.Or(a, b)),
        xor=binary(lambda a, b: z3.Xor(a, b)),
        and_not=binary(lambda a, b: z3.And(a, z3.Not(b))),
        invert=lambda a, **k: Mask([z3.Not(x) for x in a.bits]),
        sort_indices=sort_indices, filter=lambda t, m, **k: t.filter(m),
        take=lambda t, i, **k: t.take(i)))
    pq = Facade(pyarrow.parquet, dict(
        read_table=read_table, write_table=write_table,
        read_schema=read_schema))
    return Facade(pyarrow, dict(
        compute=pc, parquet=pq, Table=Table, concat_tables=concat_tables,
        array=lambda v, type=None, **k: Col(v, type),
        nulls=lambda n, type=None, **k: Col([None] * n, type)))


def world():
    return w.World(facades={'pyarrow': facade()})


KEYS = ('k0', 'k1')
COLS = ('start', 'stop', 'c')
TYPES = dict(start='i8', stop='i8', c='i2', k0='i8', k1='u2')


def indexer(W, nkeys, table=None):
    DISK.files.clear()
    m = W['indexing.abc']

    class Idx(m.Indexer):

        def dtype(self, **_):
            return super().dtype() + [('c', 'int16')]

        @classmethod
        def create(cls, *a, **k):
            raise NotImplementedError

        def update(self, *a, **k):
            raise NotImplementedError

    ix = Idx('/index', filesystem=DISK)
    ix._partition_keys = KEYS[:nkeys]
    ix._type = {k: v for k, v in TYPES.items()
                if k in COLS or k in KEYS[:nkeys]}
    if table is not None:
        DISK.files['/index'] = table
    return Idx, ix


def any_rows(ctx, n, nkeys, tag='r'):
    """n rows of any values, 0 <= start <= stop."""
    rows = []
    for j in range(n):
        v = {}
        for name in COLS + KEYS[:nkeys]:
            t = ctx.int(f'{tag}{j}_{name}')
            ctx.input(f'{tag}{j}_{name}', t)
            v[name] = mkint(t)
        ctx.assume(z3.And(0 <= v['start'].t, v['start'].t < v['stop'].t,
                          v['stop'].t < 2**40))
        for k in KEYS[:nkeys] + ('c', ):
            ctx.assume(z3.And(0 <= v[k].t, v[k].t < 2**15))
        rows.append(v)
    return rows


def table(rows, names, metadata=None):
    return Table({k: Col([r[k] for r in rows], TYPES[k]) for k in names},
                 metadata)


def expected(ctx, rows, keys, columns):
    """Merge of the rows sorted by key, start and stop."""
    import functools

    def cmp(a, b):
        for n in keys + ('start', 'stop'):
            if ctx.branch(a[n].t == b[n].t):
                continue
            return -1 if ctx.branch(a[n].t < b[n].t) else 1
        return 0

    out = []
    for r in sorted(rows, key=functools.cmp_to_key(cmp)):
        if out and all(ctx.branch(out[-1][0][n].t == r[n].t)
                       for n in columns) and ctx.branch(
                           r['start'].t <= out[-1][2]):
            out[-1][2] = z3.If(r['stop'].t > out[-1][2], r['stop'].t,
                               out[-1][2])
        else:
            out.append([r, r['start'].t, r['stop'].t])
    return out


def same(ctx, got, want, columns):
    got = list(got)
    ctx.prove(T(len(got) == len(want)), 'number of ranges')
    for (key, sl), (r, a, b) in zip(got, want):
        ctx.prove(T(tuple(k for k, _ in key) == tuple(columns)),
                  'columns of the result')
        for k, v in key:
            ctx.prove(zint(v) == r[k].t, 'partition of the range')
        ctx.prove(zint(sl.start) == a, 'start of the range')
        ctx.prove(zint(sl.stop) == b, 'stop of the range')


# -- replay --------------------------------------------------------------------
def model(rows, keys, columns):
    out = []
    for r in sorted(rows, key=lambda r: [r[n] for n in keys] + [
            r['start'], r['stop']]):
        tag = tuple((n, r[n]) for n in columns)
        if out and out[-1][0] == tag and r['start'] <= out[-1][2]:
            out[-1][2] = max(out[-1][2], r['stop'])
        else:
            out.append([tag, r['start'], r['stop']])
    return [tuple(o) for o in out]


def concrete(i, tag='r', n=None):
    n = i['n'] if n is None else n
    return [{k: int(i[f'{tag}{j}_{k}']) for k in COLS + KEYS[:i['nkeys']]}
            for j in range(n)]


def real_index(i, rows, path):
    import pyarrow as pa
    from zcollection.indexing import Indexer

    class Idx(Indexer):

        def dtype(self, **_):
            return super().dtype() + [('c', 'int16')]

        @classmethod
        def create(cls, *a, **k):
            raise NotImplementedError

        def update(self, *a, **k):
            raise NotImplementedError

    ix = Idx(path)
    kinds = dict(start=pa.int64(), stop=pa.int64(), c=pa.int16(),
                 k0=pa.int64(), k1=pa.uint16())
    ix._partition_keys = KEYS[:i['nkeys']]
    ix._type = {k: kinds[k] for k in COLS + ix._partition_keys}
    if rows is not None:
        t = pa.Table.from_pydict({
            k: pa.array([r[k] for r in rows], type=kinds[k])
            for k in ix._type})
        pa.parquet.write_table(t, path)
    return Idx, ix


def replay_query(i):
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='zcverif-')
    try:
        rows = concrete(i)
        _, ix = real_index(i, rows, os.path.join(d, 'i.parquet'))
        cols = {c: [i[f'q_{c}_{j}'] for j in range(i[f'q_{c}'])]
                for c in i['columns']}
        op = i['op']

        def hit(r):
            h = None
            for c, vs in cols.items():
                x = r[c] in vs
                h = x if h is None else {
                    'and': h and x, 'or': h or x, 'xor': h != x,
                    'and_not': h and not x, 'invert': h and x}[op or 'and']
            return True if h is None else (not h if op == 'invert' else h)

        got = [(tuple((k, int(v)) for k, v in key), int(s.start),
                int(s.stop)) for key, s in ix.query(
                    cols, logical_op=op, only_partition_keys=i['only'])]
        keys = KEYS[:i['nkeys']]
        columns = keys if i['only'] else [
            c for c in ix.table.column_names if c not in ('start', 'stop')]
        want = model([r for r in rows if hit(r)], keys, columns)
        return [] if got == want else [f'{got} instead of {want}']
    finally:
        shutil.rmtree(d, ignore_errors=True)


def query(ctx, W, cases, only=None):
    n, nkeys, mode = cases[ctx.choose(len(cases), 'case')]
    rows = any_rows(ctx, n, nkeys)
    if only is None:
        only = bool(ctx.choose(2, 'only the keys'))
    ctx.input('n', n)
    ctx.input('nkeys', nkeys)
    ctx.input('only', only)
    names = list(COLS + KEYS[:nkeys])
    Idx, ix = indexer(W, nkeys, table(rows, names))
    columns, op = {}, None
    if mode:
        which = [('c', ), ('c', 'k0'), ('k0', )] if mode == 1 else [
            ('c', 'k0', 'start')]
        which = which[ctx.choose(len(which), 'columns')]
        for c in which:
            m = [1, 2][ctx.choose(2, f'values of {c}')] if mode == 1 else 1
            vs = []
            for j in range(m):
                v = ctx.int(f'q_{c}_{j}')
                ctx.assume(z3.And(0 <= v, v < 2**15))
                ctx.input(f'q_{c}_{j}', v)
                vs.append(mkint(v))
            ctx.input(f'q_{c}', m)
            columns[c] = vs
        op = [None, 'and', 'or', 'xor', 'and_not', 'invert'][ctx.choose(
            6, 'operator')]
    ctx.input('columns', list(columns))
    ctx.input('op', op)
    given = {c: [v.t for v in vs] for c, vs in columns.items()}
    ctx.cover('reachable')
    try:
        got = list(ix.query(columns, logical_op=op, only_partition_keys=only))
    except (ValueError, KeyError, IndexError) as exc:
        ctx.fail(f'refused: {exc!r}')
        return

    def hit(r):
        h = None
        for c, vs in given.items():
            x = z3.Or([r[c].t == v for v in vs])
            h = x if h is None else {
                'or': lambda: z3.Or(h, x), 'xor': lambda: z3.Xor(h, x),
                'and_not': lambda: z3.And(h, z3.Not(x))}.get(
                    op, lambda: z3.And(h, x))()
        if h is None:
            return T(True)
        return z3.Not(h) if op == 'invert' else h

    sel = [r for r in rows if ctx.branch(hit(r))]
    keys = KEYS[:nkeys]
    cols = keys if only else [c for c in names if c not in ('start', 'stop')]
    same(ctx, got, expected(ctx, sel, keys, cols), cols)


def queries(name, cases, only=None):
    """Without values (mode 0), with values of several columns (1, 2)."""
    contract('C16', 'query: ' + name,
             [X + 'Indexer.query', X + 'Indexer._table_2_indexer',
              X + 'Indexer._read', X + 'Indexer._sort_keys'],
             world=world, unbounded=False, bounded=(3, ), max_paths=60000,
             assumes=ASSUMES + ('tables of at most three rows', ),
             replay=replay_query)(
                 lambda ctx, W: query(ctx, W, cases, only))


queries('the ranges of each partition, in order, merged only when they touch',
        [(3, 1, 0), (0, 1, 0)], True)
queries('the ranges of each partition and indexed value', [(3, 1, 0)], False)
queries('the ranges of partitions of two keys', [(2, 2, 0), (0, 2, 0)])
queries('exactly the rows selected by the values and the operator',
        [(1, 2, 1), (1, 1, 2)])
queries('the ranges of the rows selected by the values', [(2, 1, 1)])


@contract('C16', 'query: an unknown operator or no known column is refused',
          [X + 'Indexer.query'], world=world, bounded=(), assumes=ASSUMES)
def refused(ctx, W):
    rows = any_rows(ctx, 1, 1)
    Idx, ix = indexer(W, 1, table(rows, COLS + KEYS[:1]))
    ctx.cover('reachable')
    k = ctx.choose(2, 'what')
    try:
        if k:
            ix.query({'unknown': [1]})
        else:
            ix.query({'c': [1]}, logical_op='nand')
        ok = False
    except ValueError:
        ok = True
    ctx.prove(T(ok), 'refused')


def replay_update(i):
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='zcverif-')
    try:
        path = os.path.join(d, 'i.parquet')
        old = concrete(i, 'o', i['old']) if i['old'] is not None else None
        Idx, ix = real_index(i, old, path)
        keys = KEYS[:i['nkeys']]
        parts, new = [], []
        for p, n in enumerate(i['parts']):
            key = tuple((k, int(i[f'p{p}_{k}'])) for k in keys)
            data = numpy.array(
                [tuple(int(i[f'n{p}_{j}_{c}']) for c in COLS)
                 for j in range(n)],
                dtype=[('start', 'i8'), ('stop', 'i8'), ('c', 'i2')])
            parts.append((key, data))
            new += [dict(zip(COLS, (int(x) for x in r)), **dict(key))
                    for r in data]

        class Bag:

            def compute(self):
                return parts

        class Coll:

            def map(self, func, *a, **k):
                return Bag()

        ix._update(Coll(), None)
        gone = [k for k, _ in parts]
        want = [r for r in old or [] if tuple(
            (k, r[k]) for k in keys) not in gone] + new
        order = lambda rows: sorted(tuple(r[c] for c in COLS + keys)
                                    for r in rows)
        err = []
        for what, x in (('kept', ix), ('stored', None)):
            if x is None:
                if not os.path.exists(path):
                    if want:
                        err.append('not stored')
                    continue
                x = Idx.open(path)
            elif x._table is None and not want and not os.path.exists(path):
                continue
            got = order(x._read().to_pylist())
            if got != order(want):
                err.append(f'{what}: {got} instead of {order(want)}')
        return err
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contract('C16', 'update: the entries of every partition of the collection '
          'are replaced, the others kept, on disk and in memory',
          [X + 'Indexer._update'], world=world, unbounded=False,
          bounded=(3, ), max_paths=60000, replay=replay_update,
          assumes=ASSUMES + ('at most two previous entries, two partitions '
                             'of the collection and two entries each', ))
def update(ctx, W):
    nkeys = 1 + ctx.choose(2, 'keys')
    keys = KEYS[:nkeys]
    ctx.input('nkeys', nkeys)
    old = [None, 0, 1, 2][ctx.choose(4, 'old')]
    ctx.input('old', old)
    names = list(COLS + keys)
    prior = any_rows(ctx, old or 0, nkeys, 'o')
    Idx, ix = indexer(W, nkeys, None if old is None else table(
        prior, names, {b'm': b'x'}))
    ix._meta = {'m': b'x'}
    if old is not None and ctx.choose(2, 'read before'):
        ix._read()
    shape = [(), (0, ), (2, ), (1, 1), (0, 1)][ctx.choose(5, 'parts')]
    ctx.input('parts', list(shape))
    parts, new, specs = [], [], []
    for p, n in enumerate(shape):
        key = []
        for k in keys:
            v = ctx.int(f'p{p}_{k}')
            ctx.assume(z3.And(0 <= v, v < 2**15))
            ctx.input(f'p{p}_{k}', v)
            key.append((k, mkint(v)))
        specs.append(key)
        rows = []
        for j in range(n):
            r = {}
            for c in COLS:
                v = ctx.int(f'n{p}_{j}_{c}')
                ctx.assume(z3.And(0 <= v, v < 2**15))
                ctx.input(f'n{p}_{j}_{c}', v)
                r[c] = mkint(v)
            rows.append(r)
            new.append({**r, **dict(key)})
        data = numpy.empty(n, dtype=[(c, object) for c in COLS])
        for j, r in enumerate(rows):
            data[j] = tuple(r[c] for c in COLS)
        parts.append((tuple(key), data))
    if len(specs) == 2:
        ctx.assume(z3.Or([zint(a[1]) != zint(b[1])
                          for a, b in zip(*specs)]))
    func = object()
    calls = []

    class Coll:

        def map(self, f, *a, partition_size=None, npartitions=None, **k):
            calls.append((f, a, partition_size, npartitions, k))
            return self

        def compute(self, *a, **k):
            return list(parts)

    before = DISK.files.get('/index')
    ctx.cover('reachable')
    try:
        ix._update(Coll(), func, 5, 7, option='o')
    except (ValueError, KeyError, IndexError, pyarrow.ArrowInvalid) as exc:
        ctx.fail(f'failed: {exc!r}')
        return
    ctx.prove(T(len(calls) == 1 and calls[0][0] is func and not calls[0][1]
                and calls[0][2:] == (5, 7, {'option': 'o'})),
              'the function is applied to the whole collection')
    keep = [r for r in prior if not any(
        ctx.branch(z3.And([r[k].t == zint(v) for k, v in s]))
        for s in specs)]
    want = [tuple(r[c] for c in names) for r in keep + new]
    if not want and '/index' not in DISK.files:
        ctx.prove(T(before is None), 'nothing to store')
        return
    for t, what in ((DISK.files.get('/index'), 'stored'),
                    (ix._read(), 'answered')):
        ctx.prove(T(t is not None and set(t.column_names) == set(names)),
                  f'{what} columns')
        got = t.rows(names)
        ctx.prove(T(len(got) == len(want)), f'{what}: number of entries')
        left = list(want)
        for g in got:
            # entries are identified by their terms
            m = [x for x in left if all(
                z3.eq(z3.simplify(zint(a)), z3.simplify(zint(b)))
                for a, b in zip(g, x))]
            ctx.prove(T(m), f'{what}: only the expected entries')
            if m:
                left.remove(m[0])
        ctx.prove(T(not left), f'{what}: every expected entry')
    ctx.prove(T((DISK.files['/index'].metadata or {}).get(b'm') == b'x'),
              'metadata kept')


@contract('C16', 'open: the keys, types and metadata of the stored index',
          [X + 'Indexer.open'], world=world, bounded=(), assumes=ASSUMES)
def reopen(ctx, W):
    nkeys = 1 + ctx.choose(2, 'keys')
    meta = [None, {b'm': b'x', b'n': b'y'}][ctx.choose(2, 'metadata')]
    rows = any_rows(ctx, 1, nkeys)
    Idx, ix = indexer(W, nkeys, table(rows, list(COLS + KEYS[:nkeys]), meta))
    ctx.cover('reachable')
    r = Idx.open('/index', filesystem=DISK)
    ctx.prove(T(r._partition_keys == KEYS[:nkeys]), 'partition keys')
    ctx.prove(T(r._type == ix._type), 'types')
    ctx.prove(T(r.meta == ({'m': b'x', 'n': b'y'} if meta else {})),
              'metadata')
    ctx.prove(T(r._read().rows(COLS + KEYS[:nkeys]) ==
                DISK.files['/index'].rows(COLS + KEYS[:nkeys])), 'entries')
