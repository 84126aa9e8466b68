"""Contracts of the operations of a collection that process partitions."""
import warnings

from pydv.core import SymInt, SymBool, Unsupported, cur, mkbool, mkint, z3, zint
from pydv.effects import (Client, Cluster, Effects, Lock, SymPath, Task,
                          TaskError, path_is, split_path)
from pydv.collect import Collect, Counted
from pydv.harness import contract
from pydv.theory import (SymList, SymSeq, any_index, exists, forall,
                         input_len, zb)

C = 'zcollection/collection/__init__.py:'
A = 'zcollection/collection/abc.py:'
D = 'zcollection/collection/detail.py:'
ROOT = 'root'
DIM = 'num'


def T(x):
    return z3.BoolVal(bool(x))


class Namespace:

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'use of {name}')


class FS:
    """File system: the effects are recorded."""
    sep = '/'
    protocol = 'ghost'

    def __init__(self, fx, lock, existing=(), listing=()):
        self.fx, self.lock = fx, lock
        self.existing = set(existing)
        self.listing = listing
        self.created_at = None

    def rm(self, path, recursive=False, **kw):
        self.fx.record('rm', path, recursive, self.lock.depth > 0)

    def exists(self, path, **kw):
        if split_path(path)[1] is not None:
            raise Unsupported('existence of a partition')
        return str(path) in self.existing

    def isdir(self, path):
        return self.exists(path)

    def invalidate_cache(self, path=None):
        pass

    def makedirs(self, path, exist_ok=False):
        self.fx.record('makedirs', path)

    def created(self, path):
        return self.created_at(split_path(path)[1])

    def listdir(self, path, detail=True, **kw):
        if path != ROOT:
            raise Unsupported('listdir')
        return [dict(name=n, type=t) for n, t in self.listing] if detail \
            else [n for n, _ in self.listing]

    ls = listdir


class Scheme:
    """Partitioning strategy."""

    def __init__(self, variables=('key', )):
        self.variables = variables
        self.dtype = ('int32', )


class Keys(dict):
    pass


class World:
    """A collection of n selected partitions P(0) < P(1) < ..."""

    def __init__(self, ctx, W, mode='w', immutable=None, metadata=None,
                 fails=True, existing=(), listing=()):
        self.ctx = ctx
        m = W['collection']
        a = W['collection.abc']
        d = W['collection.detail']
        self.fx = Effects(ctx) if ctx.size is None else Effects(ctx)
        if ctx.size is not None:
            ctx.effects = None
        self.lock = Lock()
        self.fs = FS(self.fx, self.lock, existing, listing)
        self.n, self.maxn = input_len('n')
        self.cluster = Cluster(ctx, W, self.lock, m, fails=fails)
        c = self.col = m.Collection.__new__(m.Collection)
        c._settings = a.CollectionSettings(mode, self.fs, self.lock)
        c._properties = a.CollectionProperties(
            'axis', metadata, Scheme(), d.PartitioningProperties(ROOT, DIM))
        c._immutable = immutable
        self.listed = []
        c.partitions = self.partitions
        c._write_config = self.write_config
        self.metadata = metadata

    def partitions(self, *, cache=None, lock=False, filters=None,
                   relative=False):
        """Contract of ReadOnlyCollection.partitions: P(k) is the k-th
        partition selected by FILTERS."""
        if cache is not None or relative:
            raise Unsupported('partitions')
        self.listed.append((filters, lock))
        return SymList(self.n, lambda k: SymPath.make(ROOT, k), self.maxn,
                       kind='gen')

    def write_config(self, skip_if_exists=False):
        self.fx.record('config', tuple(self.metadata.variables))

    def filtered_by(self, filters):
        """Every listing used the given filter."""
        return T(self.listed and all(f is filters for f, _ in self.listed))

    def index_of(self, path):
        return split_path(path)[1]


class Clock:
    """datetime: wall clock, offset to UTC (None: local time)."""

    def __init__(self, wall, offset, local):
        self.wall, self.offset, self.local = wall, offset, local

    def astimezone(self, tz=None):
        off = self.local if self.offset is None else self.offset
        if getattr(tz, 'utc', False):
            return Clock(self.wall - off, z3.IntVal(0), self.local)
        if tz is None:
            return Clock(self.wall - off + self.local, self.local,
                         self.local)
        raise Unsupported('time zone')

    def replace(self, **kw):
        if set(kw) - {'tzinfo'}:
            raise Unsupported('replace')
        tz = kw.get('tzinfo')
        if tz is not None and not getattr(tz, 'utc', False):
            raise Unsupported('time zone')
        return Clock(self.wall, None if tz is None else z3.IntVal(0),
                     self.local)

    def timestamp(self):
        off = self.local if self.offset is None else self.offset
        return mkint(self.wall - off)

    def _cmp(self, o):
        if (self.offset is None) != (o.offset is None):
            raise TypeError("can't subtract offset-naive and offset-aware")
        if self.offset is None:
            return self.wall - o.wall
        return (self.wall - self.offset) - (o.wall - o.offset)

    def __sub__(self, o):
        if isinstance(o, Clock):
            return mkint(self._cmp(o))
        return Clock(self.wall - zint(o), self.offset, self.local)

    def __lt__(self, o):
        return mkbool(self._cmp(o) < 0)

    def __gt__(self, o):
        return mkbool(self._cmp(o) > 0)

    def __le__(self, o):
        return mkbool(self._cmp(o) <= 0)

    def __ge__(self, o):
        return mkbool(self._cmp(o) >= 0)


def clock(ctx, W, world):
    """datetime module and creation dates."""
    utc = Namespace(utc=True)
    local = ctx.int('local')
    now = ctx.int('now')
    naive = ctx.choose(2, 'naive')
    born = z3.Function('born', z3.IntSort(), z3.IntSort())
    off = ctx.int('offset')
    world.fs.created_at = lambda k: Clock(
        born(k) + (local if naive else off), None if naive else off, local)
    W.patch('collection:datetime', Namespace(
        datetime=Namespace(
            now=lambda tz=None: Clock(now + local, None, local)
            if tz is None else Clock(now, z3.IntVal(0), local),
            utcnow=lambda: Clock(now, None, local)),
        timezone=Namespace(utc=utc)))
    return now, born


@contract(['C22', 'C17'], 'drop_partitions: the selected partitions older '
          'than the age are removed', [C + 'Collection.drop_partitions'],
          bounded=(), assumes=(
              'partitions() returns the selected partitions (its contract)',
              'execute_transaction runs every task once under the lock (its '
              'contract)'))
def drop_partitions(ctx, W):
    w = World(ctx, W)
    now, born = clock(ctx, W, w)
    f = object()
    aged = ctx.choose(2, 'timedelta')
    age = ctx.int('age')
    ctx.cover('reachable')
    kw = dict(timedelta=mkint(age)) if aged else {}
    try:
        out = w.col.drop_partitions(filters=f, **kw)
    except TaskError:
        ctx.prove(T(w.lock.depth == 0), 'the lock is released')
        return
    w.fx.check()
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    out = SymList(out.n, out.f, out.maxn) if isinstance(out, SymList) else out

    def old(k):
        return now - born(k) > age if aged else z3.BoolVal(True)

    rms = [e for e in w.fx.log if e[0] == 'rm']
    ctx.prove(T(len(rms) == len(w.fx.log)), 'nothing but removals')
    if isinstance(out, (list, tuple)):
        if out:
            raise Unsupported('result')
        q = ctx.int('q')
        ctx.instantiate(q)
        ctx.prove(z3.Not(z3.And(0 <= q, q < w.n, old(q))),
                  'nothing returned only when nothing is selected')
        ctx.prove(T(not rms), 'nothing removed')
        return
    # the names returned are exactly the selected partitions
    if ctx.choose(2, 'completeness'):
        q = ctx.int('q')
        ctx.assume(z3.And(0 <= q, q < w.n, old(q)))
        ctx.instantiate(q)
        ctx.prove(exists(out.n, None, lambda j: path_is(out.at(j), ROOT, q)),
                  'every selected partition is returned')
        return
    j = any_index(out.n, None, 'j')
    i = w.index_of(out.at(j))
    ctx.instantiate(i)
    ctx.prove(z3.And(0 <= i, i < w.n, old(i)),
              'only selected partitions are returned')
    # and they are removed
    if not rms:
        ctx.prove(out.n == 0, 'the returned partitions are removed')
        return
    _, path, recursive, locked = rms[0]
    ctx.prove(T(len(rms) == 1 and recursive and locked),
              'each is removed once, completely, under the lock')
    k, n = w.fx.reps[-1]
    reps = [(k, n) for k, n in w.fx.reps
            if z3.is_true(z3.simplify(path_is(path, ROOT, w.index_of(
                out.at(k)))))]
    ctx.prove(z3.Or([n == out.n for _, n in reps] or [z3.BoolVal(False)]),
              'the removed partitions are the returned ones')


@contract('C22', '_check_partition: a partition is valid iff its name belongs '
          'to the scheme and its group is readable', [C + '_check_partition'],
          bounded=())
def check_partition(ctx, W):
    m = W['collection']
    parses, valid = ctx.choose(2, 'parses'), ctx.choose(2, 'valid')
    fs = object()

    def check(path, given):
        ctx.prove(T(path == 'root/x' and given is fs), 'the partition')
        return bool(valid)

    def parse(path):
        if not parses:
            raise ValueError(path)
        return (('x', 1), )

    W.patch('storage:check_zarr_group', check)
    ctx.cover('reachable')
    r = m._check_partition('root/x', fs, Namespace(parse=parse))
    ctx.prove(T(r == ('root/x', bool(parses and valid))), 'verdict')


def validation(ctx, W, mode):
    w = World(ctx, W, mode=mode, fails=False)
    m = W['collection']
    valid = z3.Function('valid', z3.IntSort(), z3.BoolSort())

    def check(partition, fs, partitioning_strategy):
        return partition, mkbool(valid(w.index_of(partition)))

    W.patch('collection:_check_partition', check)
    order = ctx.choose(3, 'completion order')

    def as_completed(futures, **kw):
        items = [x for x in futures]
        return (items, items[::-1], items[1:] + items[:1])[order]

    dd = Namespace(as_completed=as_completed)
    W.patch('collection:dask', Namespace(distributed=dd, utils=None))
    return w, valid


@contract('C22', 'validate_partitions: exactly the invalid partitions are '
          'reported, and removed on demand', [
              C + 'Collection.validate_partitions'], unbounded=False,
          bounded=(1, 2, 3))
def validate(ctx, W):
    mode = 'wr'[ctx.choose(2, 'mode')]
    w, valid = validation(ctx, W, mode)
    fix = bool(ctx.choose(2, 'fix'))
    f = object()
    ctx.cover('reachable')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            out = w.col.validate_partitions(filters=f, fix=fix)
        except OSError:
            ctx.prove(T(fix and mode == 'r' and not w.fx.log),
                      'refused only to repair a read-only collection')
            return
    ctx.prove(T(not (fix and mode == 'r')),
              'repairing a read-only collection is refused')
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    ctx.prove(T(all(g is f for g, _ in w.listed)), 'the filter is applied')
    got = [w.index_of(p) for p in out]
    removed = [w.index_of(e[1]) for e in w.fx.log if e[0] == 'rm']
    ctx.prove(T(len(removed) == len(w.fx.log)), 'nothing but removals')
    ctx.prove(T(all(e[2] and e[3] for e in w.fx.log)),
              'removed completely, under the lock')
    for k in range(w.maxn):
        bad = z3.And(k < w.n, z3.Not(valid(k)))
        ctx.prove(z3.Sum([z3.If(g == k, 1, 0) for g in got] +
                         [z3.IntVal(0)]) == z3.If(bad, 1, 0),
                  'reported once iff invalid')
        ctx.prove(z3.Sum([z3.If(g == k, 1, 0) for g in removed] +
                         [z3.IntVal(0)]) ==
                  (z3.If(bad, 1, 0) if fix else 0),
                  'removed iff invalid and a repair is requested')


@contract('C22', 'validate_partitions: any number of partitions, completed in '
          'any order', [C + 'Collection.validate_partitions'], bounded=(),
          replay=lambda i: replay_validate(i))
def validate_any(ctx, W):
    mode = 'wr'[ctx.choose(2, 'mode')]
    w = World(ctx, W, mode=mode, fails=False)
    two = (z3.IntSort(), z3.BoolSort())
    valid = ctx.func('valid', *two)
    # completion order: a permutation of the partitions
    p, q = ctx.func('done'), ctx.func('rank')
    n = w.n
    ctx.assume(forall(n, None, lambda k: z3.And(
        0 <= p(k), p(k) < n, q(p(k)) == k, 0 <= q(k), q(k) < n,
        p(q(k)) == k)))

    def check(partition, fs, partitioning_strategy):
        return partition, mkbool(valid(w.index_of(partition)))

    def as_completed(futures, **kw):
        if not isinstance(futures, SymSeq):
            raise Unsupported('as_completed')
        ctx.prove(futures.n == n, 'every partition is checked')
        return SymList(n, lambda k: futures.at(p(k)), kind='gen')

    W.patch('collection:_check_partition', check)
    W.patch('collection:dask', Namespace(distributed=Namespace(
        as_completed=as_completed), utils=None))
    sel = Counted(n, lambda k: z3.Not(valid(p(k))))
    W.loops['Collection.validate_partitions#1'] = Collect(
        {None: (sel, lambda k: SymPath.make(ROOT, p(k)),
                lambda x, k: path_is(x, ROOT, p(k)))},
        temps=('partition', 'valid'))
    fix = bool(ctx.choose(2, 'fix'))
    f = object()
    ctx.cover('reachable')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            out = w.col.validate_partitions(filters=f, fix=fix)
        except OSError:
            ctx.prove(T(fix and mode == 'r' and not w.fx.log),
                      'refused only to repair a read-only collection')
            return
    w.fx.check()
    ctx.prove(T(not (fix and mode == 'r')),
              'repairing a read-only collection is refused')
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    c = ctx.int('c')
    ctx.assume(z3.And(0 <= c, c < n))
    ctx.instantiate(c)
    ctx.instantiate(q(c))
    if not isinstance(out, SymSeq):
        ctx.prove(T(not out and not w.fx.log), 'nothing else is reported')
        ctx.prove(valid(c), 'every invalid partition is reported')
        return
    a, b = ctx.int('a'), ctx.int('b')
    where = ctx.choose(2, 'obligation')
    if where:
        # complete
        ctx.assume(z3.Not(valid(c)))
        r = sel.cnt(q(c)) if out.meta.get('filtered') is None else \
            out.meta['filtered'].meta['where'][2](q(c))
        ctx.instantiate(r)
        ctx.instantiate(q(c), dom='rows')
        ctx.prove(z3.And(0 <= r, r < out.n),
                  'every invalid partition is reported')
        ctx.prove(path_is(out.at(r), ROOT, c),
                  'every invalid partition is reported')
    else:
        ctx.assume(z3.And(0 <= a, a < b, b < out.n))
        ctx.instantiate(a)
        ctx.instantiate(b)
        ia, ib = (w.index_of(out.at(x)) for x in (a, b))
        for i in (ia, ib):
            ctx.prove(z3.And(0 <= i, i < n, z3.Not(valid(i))),
                      'only invalid partitions are reported')
        ctx.prove(ia != ib, 'each one once')
    if not fix:
        ctx.prove(T(not w.fx.log), 'nothing is removed')
        return
    if not w.fx.reps:
        ctx.prove(out.n == 0, 'every reported partition is removed')
        ctx.prove(T(not w.fx.log), 'nothing else is removed')
        return
    k, m = w.fx.reps[-1]
    ctx.prove(m == out.n, 'every reported partition is removed')
    ctx.prove(T(len(w.fx.log) == 1), 'each one once')
    for e in w.fx.log:
        ctx.prove(T(e[0] == 'rm' and e[2] and e[3]),
                  'removed completely, under the lock')
        ctx.prove(z3.And(w.index_of(e[1]) == w.index_of(out.at(k)),
                         path_is(e[1], ROOT, w.index_of(e[1]))),
                  'the reported partition is removed')
        ctx.prove(z3.Not(valid(w.index_of(e[1]))), 'a valid partition is kept')


def replay_validate(i):
    from rtc import c22
    err = []
    for j, (case, x) in enumerate(c22.generate(3, 'quick')):
        if 'valid' in case and j < 60:
            err += c22.CASES[case](x) or []
    return err[:3]


@contract(['C10', 'C09', 'C17', 'C18'], 'update: the function is applied once '
          'to every selected partition, under the lock', [
              C + 'Collection.update'], bounded=(), assumes=(
                  'split_sequence cuts the list into consecutive batches '
                  '(C18)', '_wrap_update_func and its overlap variant apply '
                  'the function to each partition of a batch (C10)'))
def update(ctx, W):
    w = World(ctx, W, immutable='root/.immutable')
    depth = ctx.int('depth')
    ctx.assume(depth >= 0)
    given = ctx.choose(2, 'variables')
    select = ctx.choose(2, 'selected variables')
    np_ = ctx.choose(2, 'npartitions')
    npartitions = ctx.int('npartitions')
    ctx.assume(npartitions >= 1)
    outcome = ctx.choose(3, 'inferred') if not given else 0
    f = object()
    seen = []

    def func(zds):
        raise Unsupported('the function is not called by update itself')

    def infer(col, fn, filters, delayed, selected, *args, **kw):
        ctx.prove(T(col is w.col and fn is func and filters is f and
                    delayed is False and args == (1, ) and kw == dict(y=2)),
                  'the variables are inferred for the given call')
        if outcome == 2:
            raise ValueError('Unknown variables')
        return () if outcome else ('a', 'b')

    def apply(batch):
        r = SymList(batch.n, lambda j: w.fx.record(
            'apply', batch.at(j), w.lock.depth > 0))
        w.fx.each(r)

    def common(args, kw):
        ctx.prove(T(args == (1, ) and kw['delayed'] is False and
                    kw['func'] is func and kw['fs'] is w.fs and
                    kw['immutable'] == 'root/.immutable' and
                    kw['y'] == 2), 'arguments of the update')
        seen.append(kw)

    def plain(*args, **kw):
        common(args, kw)
        ctx.prove(T(kw['selected_variables'] == (['x'] if select else None)),
                  'the requested variables are loaded')
        ctx.prove(depth == 0, 'without overlap')
        return apply

    def overlap(*args, **kw):
        common(args, kw)
        ctx.prove(z3.And(depth != 0, zint(kw['depth']) == depth),
                  'with the given overlap')
        sel = kw['selected_variables']
        ctx.prove(T(kw['dim'] == DIM and kw['trim'] is trim and (
            sel is None if not select else 'x' in sel and
            {'a', 'b'} <= set(sel))), 'arguments of the overlap')
        p = kw['selected_partitions']
        k = any_index(w.n, None, 'p')
        ctx.prove(z3.And(p.n == w.n, path_is(p.at(k), ROOT, k)),
                  'the windows are taken among the selected partitions')
        return apply

    W.patch('collection:_infer_callable', infer)
    W.patch('collection:_wrap_update_func', plain)
    W.patch('collection:_wrap_update_func_with_overlap', overlap)
    trim = bool(ctx.choose(2, 'trim'))
    ctx.cover('reachable')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            w.col.update(func, 1, delayed=False, depth=mkint(depth),
                         filters=f,
                         npartitions=mkint(npartitions) if np_ else None,
                         selected_variables=['x'] if select else None,
                         trim=trim, variables=('a', 'b') if given else None,
                         y=2)
    except TaskError:
        ctx.prove(T(w.lock.depth == 0), 'the lock is released')
        return
    except ValueError:
        ctx.prove(T(outcome == 2 and not w.fx.log),
                  'refused before anything is done')
        return
    w.fx.check()
    ctx.prove(T(outcome != 2), 'unknown variables are refused')
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    if outcome:
        ctx.prove(T(not w.fx.log), 'nothing done for an empty collection')
        return
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    ctx.prove(T(len(seen) == 1), 'one function')
    if not w.fx.log:
        ctx.prove(w.n == 0, 'every partition is updated')
        return
    ctx.prove(T(len(w.fx.log) == 1 and w.fx.log[0][0] == 'apply' and
                w.fx.log[0][2]), 'each partition once, under the lock')
    m, start, seq = w.cluster.batches
    ctx.prove(seq.n == w.n, 'all the partitions are split in batches')
    hits = [z3.And(nb == m, nj == start(b + 1) - start(b),
                   path_is(w.fx.log[0][1], ROOT, start(b) + j))
            for (b, nb) in w.fx.reps for (j, nj) in w.fx.reps]
    ctx.prove(z3.Or(hits), 'every element of every batch')
    k = any_index(w.n, None, 'k')
    ctx.prove(path_is(seq.at(k), ROOT, k), 'the batches hold the partitions')


@contract('C10', 'update refuses what is not callable', [
    C + 'Collection.update'], bounded=())
def update_callable(ctx, W):
    w = World(ctx, W)
    ctx.cover('reachable')
    try:
        w.col.update('not callable')
    except TypeError:
        ctx.prove(T(not w.fx.log and not w.listed), 'nothing is done')
        return
    ctx.fail('refused')


@contract('C10', '_infer_callable: the variables returned by the function, '
          'unknown ones refused', [C + '_infer_callable'], bounded=(),
          assumes=('at most 3 variables returned (enumerated)', ))
def infer(ctx, W):
    meta = Namespace(variables=dict.fromkeys(('a', 'b', 'axis')))
    w = World(ctx, W, metadata=meta)
    names = [n for n in ('a', 'b', 'z') if ctx.choose(2, n)]
    f = object()
    log = []

    def open_(path, fs, *, delayed, selected_variables):
        ctx.prove(z3.And(path_is(path, ROOT, 0), T(
            fs is w.fs and delayed is False and selected_variables == ['s'])),
            'the first selected partition is opened')
        log.append('open')
        return 'ZDS'

    def call(func, zds, dim, *args, **kw):
        ctx.prove(T(func == 'FUNC' and zds == 'ZDS' and dim == DIM and
                    args == (1, ) and kw == dict(y=2)), 'the given call')
        return {n: 0 for n in names}

    W.patch('storage:open_zarr_group', open_)
    W.patch('collection:_try_infer_callable', call)
    ctx.cover('reachable')
    try:
        r = W['collection']._infer_callable(w.col, 'FUNC', f, False, ['s'], 1,
                                            y=2)
    except ValueError:
        ctx.prove(T('z' in names), 'refused only for unknown variables')
        return
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    if not log:
        ctx.prove(z3.And(w.n == 0, T(r == ())), 'nothing to update')
        return
    ctx.prove(T('z' not in names), 'unknown variables are refused')
    ctx.prove(T(tuple(r) == tuple(names)), 'the variables returned')


def schema(ctx, W):
    """Real metadata: axis and key (num), img (num, x), table (x)."""
    meta = W['meta']
    import numpy

    def var(name, dims):
        return meta.Variable(name, numpy.dtype('int64'), dimensions=dims)

    return meta.Dataset(
        (DIM, 'x'),
        [var('axis', (DIM, )), var('key', (DIM, )), var('img', (DIM, 'x')),
         var('other', (DIM, )), var('table', ('x', ))],
        chunks=[W['meta'].Dimension('x', 3)]), var


def lists_all(w):
    return T(w.listed and all(f is None for f, _ in w.listed))


@contract(['C12', 'C17'], 'drop_variable: removed from every partition and '
          'from the configuration, or refused', [
              C + 'Collection.drop_variable'], bounded=())
def drop_variable(ctx, W):
    md, _ = schema(ctx, W)
    w = World(ctx, W, metadata=md, immutable='root/.immutable')
    W.patch('storage:del_zarr_array', lambda dirname, name, fs: w.fx.record(
        'del', dirname, name, fs is w.fs, w.lock.depth > 0))
    name = ('axis', 'key', 'img', 'other', 'table', 'unknown')[
        ctx.choose(6, 'name')]
    before = tuple(md.variables)
    ctx.cover('reachable')
    try:
        w.col.drop_variable(name)
    except ValueError:
        ctx.prove(T(name not in ('img', 'other') and not w.fx.log and
                    tuple(md.variables) == before),
                  'refused without any change')
        return
    except TaskError:
        ctx.prove(T(w.lock.depth == 0), 'the lock is released')
        return
    w.fx.check()
    ctx.prove(T(name in ('img', 'other')), 'the others are refused')
    ctx.prove(lists_all(w), 'all the partitions')
    after = tuple(v for v in before if v != name)
    ctx.prove(T(tuple(md.variables) == after and w.fx.log[-1:] == [
        ('config', after)]), 'the configuration is written without it')
    log = w.fx.log[:-1]
    if not log:
        ctx.prove(w.n == 0, 'removed from every partition')
        return
    ctx.prove(T(len(log) == 1 and log[0][0] == 'del' and log[0][2:] == (
        name, True, True)), 'removed once, under the lock, and nothing else')
    ctx.prove(z3.Or([z3.And(n == w.n, path_is(log[0][1], ROOT, k))
                     for k, n in w.fx.reps]), 'in every partition')


@contract(['C12', 'C17'], 'add_variable: in every partition and in the '
          'configuration, or in none', [C + 'Collection.add_variable',
                                        'zcollection/meta.py:'
                                        'Dataset.add_variable',
                                        'zcollection/meta.py:Dataset.'
                                        'search_same_dimensions_as'],
          bounded=())
def add_variable(ctx, W):
    md, var = schema(ctx, W)
    w = World(ctx, W, metadata=md, immutable='root/.immutable')
    cases = (('new', (DIM, )), ('new', (DIM, 'x')), ('img', (DIM, 'x')),
             ('table', (DIM, )), ('new', ('x', )), ('new', (DIM, 'z')),
             ('new', ('x', DIM)))
    name, dims = cases[ctx.choose(len(cases), 'variable')]
    before = tuple(md.variables)
    v = var(name, dims)

    def add(dirname, variable, template, fs, *, chunks=None):
        w.fx.record('add', dirname, variable, template, fs is w.fs, chunks,
                    w.lock.depth > 0)

    W.patch('storage:add_zarr_array', add)
    W.patch('storage:del_zarr_array', lambda dirname, name, fs: w.fx.record(
        'del', dirname, name, fs is w.fs, w.lock.depth > 0))
    ctx.cover('reachable')
    exc = None
    try:
        w.col.add_variable(v)
    except ValueError as e:
        exc = e
    except TaskError as e:
        exc = e
    w.fx.check()
    log = w.fx.log
    ok = (name, dims) in cases[:2]
    if not ok:
        if (name, dims) == ('new', ('x', DIM)):
            return  # no variable of same dimensions: not specified
        ctx.prove(T(isinstance(exc, ValueError) and not log and
                    tuple(md.variables) == before),
                  'refused without any change')
        return
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    ctx.prove(T(not isinstance(exc, ValueError)), 'accepted')
    ctx.prove(lists_all(w), 'all the partitions')
    adds = [e for e in log if e[0] == 'add']
    if exc is None:
        ctx.prove(T(tuple(md.variables) == before + (name, ) and
                    ('config', before + (name, )) in log and
                    not [e for e in log if e[0] == 'del']),
                  'the configuration holds the variable')
        if not adds:
            ctx.prove(w.n == 0, 'added to every partition')
            return
        _, path, x, template, onfs, chunks, locked = adds[0]
        tdims = {'axis': (DIM, ), 'key': (DIM, ), 'other': (DIM, ),
                 'img': (DIM, 'x')}.get(template)
        ctx.prove(T(len(adds) == 1 and onfs and locked and x.name == name and
                    tuple(x.dimensions) == dims and tdims == dims and
                    chunks == dict(x=3)),
                  'created once, under the lock, shaped like a variable of '
                  'same dimensions')
        ctx.prove(z3.Or([z3.And(n == w.n, path_is(path, ROOT, k))
                         for k, n in w.fx.reps]), 'in every partition')
        return
    # the creation failed in some partition
    dels = [e for e in log if e[0] == 'del']
    configs = [e for e in log if e[0] == 'config']
    if w.cluster.transactions > 1 and not dels:
        return  # the removal failed too
    ctx.prove(T(len(dels) == 1 and dels[0][2:] == (name, True, True)),
              'the variable is removed, under the lock')
    ctx.prove(z3.Or([z3.And(n == w.n, path_is(dels[0][1], ROOT, k))
                     for k, n in w.fx.reps]), 'from every partition')
    if configs[-1:] != [('config', before)]:
        # the second transaction may have failed as well
        ctx.prove(T(w.cluster.failed and w.cluster.transactions > 1),
                  'the configuration is written without it')
        return
    ctx.prove(T(tuple(md.variables) == before),
              'the variable is in no configuration')
