"""Contracts of the operations of a view."""
import warnings

from pydv.core import Unsupported, cur, mkbool, mkint, z3, zint
from pydv.effects import (Cluster, Effects, Lock, SymPath, TaskError,
                          path_is, split_path)
from pydv.harness import contract
from pydv.theory import Maybe, SymList, any_index, exists, input_len, lift

from .cx_collection import Namespace
from .cx_collection2 import Zds, bags
from .cx_view import DIM, D, Frozen, T, V, meta_variables

BASE = 'view'


class RefFS(Frozen):
    """File system of the reference."""
    protocol = 'ghost'

    def to_json(self):
        return '{"fs": "reference"}'


class ViewFS:
    """File system of the view: the effects are recorded; a partition of the
    reference is present in the view or not."""
    sep = '/'
    protocol = 'ghost'

    def __init__(self, w):
        self.w = w

    def exists(self, path, **kw):
        base, k, tail = split_path(path)
        if k is None or base != BASE + '/' or tail:
            raise Unsupported(f'existence of {path}')
        return mkbool(self.w.present(k))

    isdir = exists

    def invalidate_cache(self, path=None):
        pass

    def rm(self, path, recursive=False, **kw):
        self.w.fx.record('rm', path, recursive, self.w.lock.depth > 0)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'fs.{name}')


class GPath:
    """pathlib.Path of the path of a partition."""

    def __init__(self, text):
        self.text = text

    def relative_to(self, base):
        base = str(base)
        head, k, tail = split_path(self.text)
        if k is None or tail:
            raise Unsupported('relative path')
        if head != base + '/':
            raise ValueError('not in the subpath')
        return GPath(SymPath.make('', k))

    def as_posix(self):
        return self.text

    def __getattr__(self, name):
        raise Unsupported(f'Path.{name}')


class World:
    """A view of a reference whose selected partitions are R(0) < R(1) ..."""

    def __init__(self, ctx, W, fails=True, own=('v1', )):
        self.ctx = ctx
        self.fx = Effects(ctx)
        self.lock = Lock()
        self.n, self.maxn = input_len('n')
        self.present = z3.Function('present', z3.IntSort(), z3.BoolSort())
        self.fs = ViewFS(self)
        self.cluster = Cluster(ctx, W, self.lock, W['view'], fails=fails)
        W.patch('view:pathlib', Namespace(Path=GPath))
        mref, mown = meta_variables(W)
        self.mref, self.mown = mref, mown
        meta = W['meta']
        self.filters = []
        self.ref = Namespace(
            partitions=self.partitions, fs=RefFS(), axis='time',
            metadata=meta.Dataset((DIM, 'x'), mref),
            partition_properties=W[
                'collection.detail'].PartitioningProperties('ref', DIM),
            iterate_on_records=self.records,
            partitioning=Namespace(parse=self.parse))
        v = self.view = W['view'].View.__new__(W['view'].View)
        v.fs, v.base_dir, v.view_ref = self.fs, BASE, self.ref
        v.metadata = meta.Dataset(
            (DIM, 'x'), [x for x in mown if x.name in own])
        v.synchronizer, v.filters = self.lock, None
        v._write_config = self.write_config
        self.configs = []

    def partitions(self, *, cache=None, lock=False, filters=None,
                   relative=False):
        if cache is not None:
            raise Unsupported('cache')
        self.filters.append(filters)
        return SymList(self.n, lambda k: SymPath.make(
            '' if relative else 'ref', k), self.maxn, kind='gen')

    def records(self, *, relative=False):
        self.filters.append(None)
        return SymList(self.n, lambda k: (SymPath.make(
            '' if relative else 'ref', k), ('group', mkint(k))), self.maxn,
            kind='gen')

    def parse(self, path):
        if isinstance(path, Maybe):
            path = path.get()
        base, k, tail = split_path(path)
        if k is None or tail:
            raise ValueError(path)
        return (('key', mkint(k)), )

    def write_config(self):
        self.fx.record('config')
        self.configs.append((tuple(self.view.metadata.variables),
                             self.view.filters))

    def used(self, f):
        return T(self.filters and all(x is f for x in self.filters))


LISTS = ('partitions() of the reference (its contract)',
         'execute_transaction runs every task once under the lock (its '
         'contract)')


@contract('C14', 'partitions: the selected partitions present in the view, '
          'in order', [V + 'View.partitions'], bounded=(2, 3))
def partitions(ctx, W):
    w = World(ctx, W)
    ctx.effects = None
    f = object()
    ctx.cover('reachable')
    r = lift(list(w.view.partitions(f)) if ctx.size is not None
             else w.view.partitions(f))
    ctx.prove(w.used(f), 'the filter is applied')
    if ctx.choose(2, 'complete'):
        q = any_index(w.n, w.maxn, 'q')
        ctx.assume(w.present(q))
        ctx.instantiate(q)
        ctx.prove(exists(r.n, r.maxn, lambda j: path_is(r.at(j), BASE, q)),
                  'every selected partition present is listed')
        return
    j = any_index(r.n, r.maxn, 'j')
    i = split_path(r.at(j))[1]
    ctx.instantiate(i)
    ctx.prove(z3.And(path_is(r.at(j), BASE, i), 0 <= i, i < w.n,
                     w.present(i)), 'only those, in the view')
    k = any_index(r.n, r.maxn, 'k')
    ctx.assume(k > j)
    ctx.prove(split_path(r.at(k))[1] > i, 'in order')


def tasks_of(ctx, w, log, index, what, pred=None):
    """log holds the effects of one arbitrary partition selected by PRED
    (present in the view): every one of them has such a task."""
    pred = pred or w.present

    def some():
        q = ctx.int('q')
        ctx.assume(z3.And(0 <= q, q < w.n, pred(q)))
        ctx.instantiate(q)
        return q

    if not log:
        some()
        ctx.prove(T(False), f'{what} every partition of the view')
        return None
    ctx.prove(T(len(log) == 1), f'{what} once')
    i = index(log[0])
    ctx.instantiate(i)
    ctx.prove(z3.And(0 <= i, i < w.n, pred(i)),
              f'{what} a partition of the view only')
    # the index k of the representative is arbitrary below the number of
    # tasks: every selected partition is one of them
    if ctx.choose(2, 'every partition'):
        q = some()
        ok = [exists(n, None, lambda t: z3.substitute(i, (k, t)) == q)
              for k, n in w.fx.reps if uses(i, k)]
        ctx.prove(z3.Or(ok) if ok else i == q,
                  f'{what} every partition of the view')
    return i


def uses(term, k):
    seen = [term]
    while seen:
        t = seen.pop()
        if t.eq(k):
            return True
        seen.extend(t.children())
    return False


@contract(['C14', 'C17'], 'add_variable: created in the partitions of the '
          'view, under the lock, then recorded; undone if it fails', [
              V + 'View.add_variable'], bounded=(), assumes=LISTS)
def add_variable(ctx, W):
    own = (('v1', ), ())[ctx.choose(2, 'variables of the view')]
    w = World(ctx, W, own=own)
    w.cluster.once = True  # the removal ignores the errors
    name = ('v1', 'v2', 'a2', 'fix')[ctx.choose(4, 'name')]
    m = W['meta']
    import numpy
    var = m.Variable(name, numpy.dtype('int16'), dimensions=('x', DIM),
                     attrs=(m.Attribute('units', 'K'), ), fill_value=-3)

    def create(args, *, base_dir, fs, template, variable,
               invalidate_cache=True):
        part, group = args
        ctx.prove(T(base_dir == BASE and fs is w.fs and template == 'a3' and
                    variable.name == name and variable.dtype == var.dtype and
                    variable.fill_value == -3 and
                    tuple(variable.dimensions) == ('x', DIM)),
                  'as described, in the view, with the shape of a variable '
                  'having these dimensions')
        ctx.prove(z3.And(T(group[0] == 'group'), path_is(part, '', zint(
            group[1]))), 'shaped by the partition of the same name')
        w.fx.record('create', zint(group[1]), w.lock.depth > 0)

    def drop(partition, fs, variable, ignore_errors=False):
        ctx.prove(T(fs is w.fs and variable == name and ignore_errors and
                    split_path(partition)[0] == BASE + '/' and
                    not split_path(partition)[2]),
                  'removed from the view whatever was created')
        w.fx.record('drop', split_path(partition)[1], w.lock.depth > 0)

    W.patch('view:_create_zarr_array', create)
    W.patch('view:_drop_zarr_zarr', drop)
    ctx.cover('reachable')
    before = tuple(w.view.metadata.variables)
    known = name in own or name in ('a2', 'fix')
    try:
        w.view.add_variable(var)
    except ValueError:
        ctx.prove(T(known and not w.fx.log and tuple(
            w.view.metadata.variables) == before),
            'refused only if it exists, and then nothing is done')
        return
    except TaskError:
        ctx.prove(T(not known and w.lock.depth == 0), 'the lock is released')
        ctx.prove(T(tuple(w.view.metadata.variables) == before and all(
            c[0] == before for c in w.configs)),
            'the view is described as before')
        if w.cluster.transactions == 2:
            log = [e for e in w.fx.log if e[0] == 'drop']
            ctx.prove(T(all(e[2] for e in log)), 'under the lock')
            tasks_of(ctx, w, log, lambda e: e[1], 'dropped from')
        return
    w.fx.check()
    ctx.prove(T(not known), 'an existing variable is refused')
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    ctx.prove(T(set(w.view.metadata.variables) == {*before, name} and
                w.configs and set(w.configs[-1][0]) == {*before, name}),
              'the description of the view is completed and recorded')
    kept = w.view.metadata.variables[name]
    ctx.prove(T(kept.attrs == var.attrs), 'with its attributes')
    log = [e for e in w.fx.log if e[0] == 'create']
    ctx.prove(T(all(e[2] for e in log)), 'under the lock')
    ctx.prove(T(not [e for e in w.fx.log if e[0] in ('drop', 'rm')]),
              'nothing is removed')
    tasks_of(ctx, w, log, lambda e: e[1], 'created in')


@contract(['C14', 'C17'], 'drop_variable: removed from the description and '
          'from the partitions of the view, or refused', [
              V + 'View.drop_variable', D + '_assert_variable_handled'],
          bounded=(), assumes=LISTS)
def drop_variable(ctx, W):
    w = World(ctx, W, own=('v1', 'v2'))
    name = ('v1', 'v2', 'time', 'a2', 'none')[ctx.choose(5, 'name')]

    def drop(partition, fs, variable, ignore_errors=False):
        ctx.prove(T(fs is w.fs and variable == name and not ignore_errors and
                    split_path(partition)[0] == BASE + '/' and
                    not split_path(partition)[2]), 'of the view')
        w.fx.record('drop', split_path(partition)[1], w.lock.depth > 0)

    W.patch('view:_drop_zarr_zarr', drop)
    ctx.cover('reachable')
    known = name in ('v1', 'v2')
    try:
        w.view.drop_variable(name)
    except ValueError:
        ctx.prove(T(not known and not w.fx.log and set(
            w.view.metadata.variables) == {'v1', 'v2'}),
            'refused only if the view does not own it, and nothing is done')
        return
    except TaskError:
        ctx.prove(T(known and w.lock.depth == 0), 'the lock is released')
        return
    w.fx.check()
    left = {'v1', 'v2'} - {name}
    ctx.prove(T(known), 'a variable of the reference or unknown is refused')
    ctx.prove(T(set(w.view.metadata.variables) == left and w.configs and
                set(w.configs[-1][0]) == left),
              'no longer described by the view')
    log = [e for e in w.fx.log if e[0] == 'drop']
    ctx.prove(T(all(e[2] for e in log) and w.lock.depth == 0),
              'under the lock')
    tasks_of(ctx, w, log, lambda e: e[1], 'dropped from')


def synchronizing(ctx, W, check):
    w = World(ctx, W, own=('v1', ))
    changed = z3.Function('changed', z3.IntSort(), z3.BoolSort())

    def sync(partition, *, base_dir, fs, view_ref, metadata, dry_run=False):
        base, k, tail = split_path(partition)
        if w.fx.muted:
            return Maybe(changed(k), partition)
        ctx.prove(T(base_dir == BASE and fs is w.fs and view_ref is w.ref and
                    metadata is w.view.metadata and bool(dry_run) == check),
                  'a partition of the reference, in the view')
        ctx.prove(z3.And(path_is(partition, '', k), 0 <= k, k < w.n),
                  'a partition of the reference')
        w.fx.record('sync', k, w.lock.depth > 0)
        return Maybe(changed(k), partition)

    W.patch('view:_sync', sync)
    return w, changed


def one_sync(ctx, w):
    log = [e for e in w.fx.log if e[0] == 'sync']
    ctx.prove(T(all(e[2] for e in log) and w.lock.depth == 0),
              'under the lock')
    ctx.prove(T(all(f is None for f in w.filters)),
              'all the partitions of the reference')
    if not log:
        ctx.prove(w.n == 0, 'every partition is considered')
        return
    ctx.prove(T(len(log) == 1), 'each partition once')
    i = log[0][1]
    ctx.prove(z3.Or([z3.And(i == k, n == w.n) for k, n in w.fx.reps]),
              'every partition is considered')


@contract(['C15', 'C14', 'C17'], 'is_synced: true iff no partition would '
          'change, without any change', [V + 'View.is_synced'], bounded=(),
          assumes=LISTS)
def is_synced(ctx, W):
    w, changed = synchronizing(ctx, W, True)
    ctx.cover('reachable')
    try:
        r = w.view.is_synced()
    except TaskError:
        ctx.prove(T(w.lock.depth == 0), 'the lock is released')
        return
    w.fx.check()
    one_sync(ctx, w)
    ctx.prove(T(all(e[0] == 'sync' for e in w.fx.log)), 'nothing else')
    if r:
        q = any_index(w.n, None, 'q')
        ctx.prove(z3.Not(changed(q)), 'synchronized: nothing would change')
    else:
        ctx.prove(exists(w.n, None, changed),
                  'not synchronized: something would change')


@contract(['C15', 'C14', 'C17'], 'sync: every partition of the reference is '
          'synchronized; the answer selects those changed', [
              V + 'View.sync'], bounded=(), assumes=LISTS)
def sync(ctx, W):
    w, changed = synchronizing(ctx, W, False)
    f = object() if ctx.choose(2, 'filters') else None
    ctx.cover('reachable')
    try:
        r = w.view.sync(f)
    except TaskError:
        ctx.prove(T(w.lock.depth == 0), 'the lock is released')
        return
    w.fx.check()
    one_sync(ctx, w)
    ctx.prove(T(f is None or w.configs and w.configs[-1][1] is f),
              'new filters are recorded')
    q = any_index(w.n, None, 'q')
    sel = r(dict(key=mkint(q)))
    ctx.prove(sel.t == changed(q) if not isinstance(sel, bool) else
              changed(q) == T(sel),
              'the changed partitions are selected, and no other')


@contract(['C15', 'C14', 'C17'], 'a new view records the axis of every '
          'selected partition', [V + 'View._init_partitions'], bounded=(),
          assumes=LISTS)
def init_partitions(ctx, W):
    w = World(ctx, W)

    def write(partition, base_dir, view_ref, fs, group=None):
        base, k, tail = split_path(partition)
        ctx.prove(T(base == BASE + '/' and not tail and base_dir == BASE and
                    fs is w.fs and view_ref is w.ref and group is None),
                  'in the view')
        w.fx.record('write', k, w.lock.depth > 0)

    W.patch('view:_write_checksum', write)
    f = object()
    ctx.cover('reachable')
    try:
        w.view._init_partitions(f)
    except TaskError:
        return
    w.fx.check()
    ctx.prove(w.used(f), 'the filter is applied')
    log = [e for e in w.fx.log if e[0] == 'write']
    ctx.prove(T(all(e[2] for e in log)), 'under the lock')
    tasks_of(ctx, w, log, lambda e: e[1], 'recorded for',
             lambda k: z3.Not(w.present(k)))


# -- reading ---------------------------------------------------------------
class One(Zds):
    """Dataset of the partition k."""

    def __init__(self, tag, k=None, log=None):
        super().__init__(tag, log)
        self.k = k


def loader(ctx, w, selected, delayed, own):
    """Contract of _load_one_dataset."""
    full = z3.Function('readable', z3.IntSort(), z3.BoolSort())

    def load(args, *, base_dir, delayed, fs, selected_variables, view_ref,
             variables):
        scheme, slices = args
        k = zint(dict(scheme)['key'])
        if not w.fx.muted and not ctx.nofork:
            ctx.prove(T(base_dir == BASE and delayed is delayed0 and
                        fs is w.fs and view_ref is w.ref),
                      'the view and its reference are read')
            ctx.prove(T(set(selected_variables) == (
                {'time', 'a2', 'a3', 'fix'} & (set(selected) if selected
                                               is not None else
                                               {'time', 'a2', 'a3', 'fix'}))
                        and set(variables) == (
                            set(own) & set(selected) if selected is not None
                            else set(own))),
                      'the requested variables of both')
        return Maybe(full(k), (One(('data', tuple(slices)), k),
                               SymPath.make('', k)))

    delayed0 = delayed
    return load, full


def selections(ctx):
    return (None, ['v1', 'a2'], ['time'])[ctx.choose(3, 'selection')]


def in_order(ctx, w, r, keep, index, what):
    """r holds one item per partition of KEEP, by increasing index."""
    if ctx.choose(2, 'complete'):
        q = any_index(w.n, w.maxn, 'q')
        ctx.assume(keep(q))
        ctx.instantiate(q)
        ctx.prove(exists(r.n, r.maxn, lambda j: index(r.at(j)) == q),
                  f'{what}: every partition')
        raise PathEnd()
    j = any_index(r.n, r.maxn, 'j')
    i = index(r.at(j))
    ctx.instantiate(i)
    ctx.prove(z3.And(0 <= i, i < w.n, keep(i)),
              f'{what}: only partitions of the view')
    k = any_index(r.n, r.maxn, 'k')
    ctx.assume(k > j)
    ctx.prove(index(r.at(k)) > i, f'{what}: in order, once')


from pydv.core import PathEnd  # noqa: E402


@contract('C14', 'view load: the partitions of the view in order, with its '
          'variables and those of the reference', [V + 'View.load'],
          bounded=(2, ), assumes=LISTS + (
              'gather returns the results in order',
              '_load_one_dataset (its contract)'))
def load(ctx, W):
    w = World(ctx, W, fails=False, own=('v1', 'v2'))
    ctx.effects = None
    w.cluster.run = lambda tasks, where: SymList(
        tasks.n, lambda k: tasks.at(k).run(), tasks.maxn)
    sel = selections(ctx)
    fn, full = loader(ctx, w, sel, False, ('v1', 'v2'))
    W.patch('view:_load_one_dataset', fn)
    f = object()
    before = dict(w.ref.metadata.variables)
    ctx.cover('reachable')
    r = w.view.load(delayed=False, filters=f, selected_variables=sel)
    ctx.prove(w.used(f), 'the filter is applied')

    def keep(k):
        return z3.And(w.present(k), full(k))

    if r is None:
        q = any_index(w.n, w.maxn, 'q')
        ctx.instantiate(q)
        ctx.prove(z3.Not(keep(q)), 'nothing only if nothing is selected')
        return
    ctx.prove(T(w.ref.metadata.variables == before),
              'the description of the reference is unchanged')
    ctx.prove(T(len(r.log) == 1 and r.log[0][0] == 'attrs' and set(
        r.log[0][1].variables) == {*before, 'v1', 'v2'}),
        'the attributes of both are attached')
    if r.tag[0] == 'concat':
        _, first, others, dim = r.tag
        others = lift(others)
        ctx.prove(T(dim == DIM), 'along the partitioning dimension')
        parts = SymList(others.n + 1, lambda p: z3.If(
            p == 0, first.k, others.at(p - 1).k),
            None if others.maxn is None else others.maxn + 1)
        if others.maxn is not None:
            ks = [first.k] + [others.at(p).k for p in range(others.maxn)]
            parts = SymList(z3.IntVal(len(ks)), lambda p: pick(ks, p),
                            len(ks))
    else:
        parts = SymList(z3.IntVal(1), lambda p: r.k, 1)
    in_order(ctx, w, parts, keep, lambda k: k, 'loaded')


def pick(ks, p):
    p = z3.simplify(p) if z3.is_expr(p) else z3.IntVal(p)
    r = ks[-1]
    for i, k in reversed(list(enumerate(ks[:-1]))):
        r = z3.If(p == i, k, r)
    return r


@contract(['C14', 'C10'], '_load_datasets_list: the readable partitions of '
          'the view in order', [D + '_load_datasets_list'], bounded=(2, ),
          assumes=('gather returns the results in order', ))
def load_list(ctx, W):
    w = World(ctx, W, fails=False, own=('v1', 'v2'))
    ctx.effects = None
    w.cluster.run = lambda tasks, where: SymList(
        tasks.n, lambda k: tasks.at(k).run(), tasks.maxn)
    sel = selections(ctx)
    fn, full = loader(ctx, w, sel, False, ('v1', 'v2'))
    W.patch('view.detail:_load_one_dataset', fn)
    parts = SymList(w.n, lambda k: SymPath.make(BASE, k), w.maxn, kind='gen')
    ctx.cover('reachable')
    r = W['view.detail']._load_datasets_list(
        client=w.cluster.client, base_dir=BASE, delayed=False, fs=w.fs,
        view_ref=w.ref, metadata=w.view.metadata, partitions=parts,
        selected_variables=sel)
    r = lift(list(r) if ctx.size is not None else r)

    def index(item):
        zds, name = item
        ctx.prove(path_is(name, '', zds.k), 'each with its name') \
            if not ctx.nofork else None
        return zds.k

    in_order(ctx, w, r, full, index, 'loaded')


class Group1(Zds):

    def __init__(self, tag, variables, attrs=(), log=None):
        super().__init__(tag, log)
        self.variables = variables
        self.attrs = attrs


@contract('C14', '_load_one_dataset: the reference and the view row for row, '
          'restricted to the indexed ranges in order', [
              D + '_load_one_dataset'], bounded=(2, ))
def load_one(ctx, W):
    n, maxn = input_len('n')
    empty = ctx.choose(2, 'empty partition')
    names = [v for v in ('v1', 'v2') if ctx.choose(2, v)]
    key = (('year', 2000), ('month', 1))
    ref_fs, fs = Namespace(sep='/'), ViewFS(None)
    built = []
    d = W['collection.detail']
    ref = Namespace(
        fs=ref_fs, partition_properties=d.PartitioningProperties('ref', DIM),
        partitioning=Namespace(join=lambda k, sep: 'NAME' if (k, sep) == (
            key, '/') else 'WRONG'))
    fs.__dict__['get_mapper'] = lambda path: ('map', path)

    def group(path, given, *, delayed=True, selected_variables=None):
        ctx.prove(T(path == 'ref/NAME' and given is ref_fs and
                    delayed is False and selected_variables == ['a2']),
                  'the partition of the reference')
        return None if empty else Group1(
            'GROUP', dict(a2=('ref', 'a2')), attrs=('ATTRS', ))

    def array(z, name, delayed=True):
        ctx.prove(T(delayed is False), 'as requested')
        return ('own', name, z)

    class Ds(Zds):

        def __init__(self, variables, attrs=None, delayed=True, tag=None):
            super().__init__(tag or 'ALL')
            self.variables = {v[1]: v for v in variables}
            built.append((tuple(variables), attrs, delayed))

        def isel(self, key):
            return Zds(('rows', key))

        def concat(self, others, dim):
            return Zds(('concat', self, others, dim))

    def open_(mapper, mode=None, **kw):
        ctx.prove(T(mode == 'r'), 'opened for reading')
        return mapper

    W.patch('view.detail:open_zarr_group', group)
    W.patch('view.detail:open_zarr_array', array)
    W.patch('view.detail:zarr', Namespace(open=open_, open_array=open_))
    W.patch('dataset:Dataset', Ds)
    slices = SymList(n, lambda k: ('slice', mkint(k)), maxn)
    ctx.cover('reachable')
    r = W['view.detail']._load_one_dataset(
        (key, slices), base_dir=BASE, delayed=False, fs=fs,
        selected_variables=['a2'], view_ref=ref, variables=names)
    if empty:
        ctx.prove(T(r is None), 'nothing')
        return
    zds, name = r
    ctx.prove(T(name == 'NAME'), 'with its name')
    ctx.prove(T(len(built) == 1 and sorted(built[0][0]) == sorted(
        [('ref', 'a2')] + [('own', v, ('map', f'{BASE}/NAME/{v}'))
                           for v in names]) and
        built[0][1:] == (('ATTRS', ), False)),
        'the variables of the reference and those of the view')

    def is_range(z, k):
        if z.tag[0] != 'rows' or list(z.tag[1]) != [DIM]:
            return z3.BoolVal(False)
        return zint(z.tag[1][DIM][1]) == k

    if zds.tag == 'ALL':
        ctx.prove(n == 0, 'every row')
    elif zds.tag[0] == 'rows':
        ctx.prove(z3.And(n == 1, is_range(zds, 0)), 'the indexed rows')
    else:
        _, first, others, dim = zds.tag
        others = lift(others)
        k = any_index(others.n, others.maxn, 'k')
        ctx.prove(z3.And(T(dim == DIM), others.n == n - 1,
                         is_range(first, 0), is_range(others.at(k), k + 1)),
                  'the indexed rows, in order')


@contract('C14', 'view load with an indexer: the indexed ranges of the '
          'partitions of the view', [V + 'View.load'], bounded=(), assumes=(
              'build_indexer_args (C08)', '_load_one_dataset (its contract)'))
def load_indexer(ctx, W):
    w = World(ctx, W, fails=False, own=('v1', ))
    ctx.effects = None
    w.cluster.run = lambda tasks, where: SymList(
        tasks.n, lambda k: tasks.at(k).run(), tasks.maxn)
    fn, full = loader(ctx, w, None, True, ('v1', ))
    W.patch('view:_load_one_dataset', fn)
    f, indexer = object(), object()

    def args(ref, filters, idx, partitions=None):
        ctx.prove(T(ref is w.ref and filters is f and idx is indexer),
                  'the given indexer')
        p = lift(partitions)
        q = any_index(w.n, None, 'p')
        ctx.instantiate(q)
        ctx.prove(w.present(q) == exists(p.n, None, lambda j: path_is(
            p.at(j), BASE, q)), 'restricted to the partitions of the view')
        return SymList(m, lambda k: ((('key', mkint(at(k))), ),
                                     [('ranges', mkint(k))]), kind='gen')

    m, _ = input_len('m')
    at = ctx.func('at')
    W.patch('collection.abc:build_indexer_args', args)
    ctx.cover('reachable')
    r = w.view.load(filters=f, indexer=indexer)
    ctx.prove(w.used(f), 'the filter is applied')
    if r is None:
        q = any_index(m, None, 'q')
        ctx.instantiate(q)
        ctx.prove(z3.Not(full(at(q))), 'nothing only if nothing is selected')
        return
    if r.tag[0] == 'concat':
        first, others = r.tag[1], lift(r.tag[2])
        k = any_index(others.n, None, 'k')
        z = others.at(k)
        ctx.prove(z3.And(z.k == at(zint(z.tag[1][0][1])),
                         full(z.k)), 'the ranges of each partition')
        ctx.prove(zint(first.tag[1][0][1]) < zint(z.tag[1][0][1]),
                  'in order')
        r = first
    ctx.prove(z3.And(r.k == at(zint(r.tag[1][0][1])), full(r.k)),
              'the ranges of each partition')


# -- update and maps -------------------------------------------------------
def datasets(ctx, w, W, f, delayed, sel):
    """Contract of _load_datasets_list: m datasets of the view, in order."""
    m, maxm = input_len('m')
    at = ctx.func('at')
    ctx.assume(forall(m, maxm, lambda k: z3.And(
        0 <= at(k), at(k) < w.n, w.present(at(k)))))

    def load(*, client, base_dir, delayed, fs, view_ref, metadata,
             partitions, selected_variables=None):
        ctx.prove(T(base_dir == BASE and delayed is delayed0 and fs is w.fs
                    and view_ref is w.ref and metadata is w.view.metadata and
                    selected_variables is sel), 'loaded as requested')
        p = lift(partitions)
        q = any_index(w.n, None, 'p')
        ctx.instantiate(q)
        ctx.prove(w.present(q) == exists(p.n, None, lambda j: path_is(
            p.at(j), BASE, q)), 'the partitions of the view')
        return SymList(m, lambda k: (One('data', at(k)), SymPath.make(
            '', at(k))), maxm, kind='gen')

    delayed0 = delayed
    W.patch('view:_load_datasets_list', load)
    return m, at


from pydv.theory import forall  # noqa: E402


@contract(['C10', 'C14', 'C17', 'C18'], 'view update: the function is applied '
          'to every partition of the selection under the lock; variables the '
          'view does not own are refused', [
              V + 'View.update', D + '_assert_variable_handled',
              D + '_assert_have_variables'], bounded=(), assumes=LISTS + (
                  '_load_datasets_list (its contract)',
                  '_wrap_update_func and its overlap variant (C10)',
                  'split_sequence (C18)'))
def update(ctx, W):
    own = (('v1', 'v2'), ())[ctx.choose(2, 'variables')]
    w = World(ctx, W, own=own)
    f = object()
    sel = (None, ['v1'], ['time'])[ctx.choose(3, 'selection')]
    m, at = datasets(ctx, w, W, f, False, sel)
    names = (('v1', ), ('v1', 'v2'), ('a2', ), ('none', ),
             ('v1', 'time'))[ctx.choose(5, 'updated')]
    depth = ctx.int('depth')
    np_ = ctx.choose(2, 'npartitions')
    trim = bool(ctx.choose(2, 'trim'))
    npartitions = ctx.int('npartitions')
    ctx.assume(z3.And(npartitions >= 1, depth >= 0))

    def func(zds, *a, **k):
        raise Unsupported('the function is not called by update itself')

    def infer(fn, zds, dim, *args, **kw):
        ctx.prove(z3.And(T(fn is func and dim == DIM and args == (1, ) and
                           kw == dict(y=2)), zds.k == at(0)),
                  'the variables are inferred from the first partition')
        return {n: 0 for n in names}

    def apply(batch, base_dir):
        ctx.prove(T(base_dir == BASE), 'stored in the view')
        r = SymList(batch.n, lambda j: w.fx.record(
            'apply', batch.at(j), w.lock.depth > 0))
        w.fx.each(r)

    def plain(fn, fs, *args, **kw):
        ctx.prove(z3.And(depth == 0, T(fn is func and fs is w.fs and
                                       args == (1, ) and kw == dict(y=2))),
                  'arguments of the update')
        return apply

    def overlap(data, d, fn, fs, ref, t, *args, **kw):
        k = any_index(m, None, 'd')
        ctx.prove(z3.And(depth > 0, zint(d) == depth, T(
            fn is func and fs is w.fs and ref is w.ref and t is trim and
            args == (1, ) and kw == dict(y=2)), data.n == m,
            data.at(k)[0].k == at(k)), 'arguments of the overlap')
        return apply

    W.patch('view:_try_infer_callable', infer)
    W.patch('view:_wrap_update_func', plain)
    W.patch('view:_wrap_update_func_overlap', overlap)
    ctx.cover('reachable')
    bad = not set(names) <= {'v1', 'v2'}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = w.view.update(func, 1, depth=mkint(depth), delayed=False,
                              filters=f, selected_variables=sel, trim=trim,
                              npartitions=mkint(npartitions) if np_ else None,
                              y=2)
        except ValueError:
            ctx.prove(z3.Or(T(bad or not own), z3.And(
                depth > 0, T(sel is not None and not set(sel) & set(names)))),
                'refused only for a reason')
            ctx.prove(T(not w.fx.log), 'and nothing is done')
            return
        except TaskError:
            ctx.prove(T(w.lock.depth == 0), 'the lock is released')
            return
    w.fx.check()
    ctx.prove(T(own), 'a view without variables is refused')
    ctx.prove(w.used(f), 'the filter is applied')
    log = [e for e in w.fx.log if e[0] == 'apply']
    ctx.prove(T(len(log) == len(w.fx.log)), 'nothing else')
    if not log:
        ctx.prove(m == 0, 'every partition is updated')
        return
    ctx.prove(T(not bad), 'a variable the view does not own is refused')
    _, item, locked = log[0]
    ctx.prove(T(len(log) == 1 and locked and w.lock.depth == 0),
              'each once, under the lock')
    nb, start, seq = w.cluster.batches
    hits = [z3.And(n1 == nb, n2 == start(b + 1) - start(b),
                   item[0].k == at(start(b) + j),
                   path_is(item[1], '', at(start(b) + j)))
            for (b, n1) in w.fx.reps for (j, n2) in w.fx.reps]
    ctx.prove(z3.Or(hits), 'every partition of every batch')
    k = any_index(m, None, 'k')
    ctx.prove(z3.And(seq.n == m, seq.at(k)[0].k == at(k)),
              'the batches hold the selected partitions')


def mapping(ctx, W, overlap):
    w = World(ctx, W, fails=False, own=('v1', ))
    bags(W, 'view')
    ctx.effects = None
    f = object()
    sel = (None, ['v1'])[ctx.choose(2, 'selection')]
    m, at = datasets(ctx, w, W, f, False, sel)
    depth = ctx.int('depth')
    info = overlap and bool(ctx.choose(2, 'partition_info'))

    def window(arguments, data, d, ref):
        k = any_index(m, None, 'd')
        ctx.prove(z3.And(zint(d) == depth, T(ref is w.ref), data.n == m,
                         data.at(k)[0].k == at(k)),
                  'the window is taken among the selected partitions')
        zds, name = arguments
        return One('window', zds.k), ('position', zds.k)

    W.patch('view:_select_overlap', window)
    if info:
        def func(zds, x, y, partition_info=None):
            return ('result', zds, x, y, partition_info)
    else:
        def func(zds, x, y):
            return ('result', zds, x, y, None)
    ctx.cover('reachable')
    kw = dict(depth=mkint(depth)) if overlap else {}
    try:
        r = (w.view.map_overlap if overlap else w.view.map)(
            func, 1, delayed=False, filters=f, selected_variables=sel, y=2,
            **kw).compute()
    except ValueError:
        ctx.prove(z3.And(T(overlap), depth < 0), 'a negative depth only')
        return
    ctx.prove(w.used(f), 'the filter is applied')
    ctx.prove(r.n == m, 'one result per selected partition')
    k = any_index(m, None, 'k')
    key, (_, zds, x, y, i) = r.at(k)
    ctx.prove(z3.And(T((x, y) == (1, 2) and zds.tag == (
        'window' if overlap else 'data')), zds.k == at(k),
        zint(dict(key)['key']) == at(k)),
        'the function applied to the partition, with its key')
    if overlap:
        ctx.prove(depth >= 0, 'a negative depth is refused')
    if info:
        ctx.prove(z3.And(T(i[0] == DIM and i[1][0] == 'position'),
                         i[1][1] == at(k)),
                  'with the position of the partition in the window')


@contract('C09', 'view map: applied to every selected partition, in order', [
    V + 'View.map'], bounded=())
def map_(ctx, W):
    mapping(ctx, W, False)


@contract('C09', 'view map_overlap: applied to the window of every selected '
          'partition, in order', [V + 'View.map_overlap'], bounded=())
def map_overlap(ctx, W):
    mapping(ctx, W, True)
