"""Contracts of copy, insert, loading, mapping and listing of a collection."""
import os
import warnings

from pydv.core import Unsupported, cur, mkbool, mkint, z3, zint
from pydv.effects import SymPath, TaskError, path_is, split_path
from pydv.harness import contract
from pydv.theory import SymList, any_index, exists, input_len, zb

from .cx_collection import (A, C, D, DIM, FS, ROOT, Namespace, T, World,
                            lists_all, schema)

IMM = 'root/.immutable'
LISTING = (('root/.zcollection', 'file'), ('root/p<0>', 'directory'),
           ('root/.immutable', 'directory'), ('root/notes.txt', 'file'))


class Elsewhere(FS):
    """Another file system."""

    def rm(self, *a, **k):
        self.fx.record('rm elsewhere')


@contract(['C19', 'C18'], 'copy: every selected partition, the non '
          'partitioned variables and the configuration are copied once', [
              C + 'Collection.copy'], bounded=(), assumes=(
                  'copy_tree copies a tree to a new place (its contract)',
                  'split_sequence (C18)'))
def copy(ctx, W):
    imm = ctx.choose(3, 'immutable')
    w = World(ctx, W, immutable=IMM if imm else None,
              existing=(IMM, ) if imm == 2 else (), listing=LISTING)
    other = ctx.choose(2, 'file system')
    np_ = ctx.choose(2, 'npartitions')
    npartitions = ctx.int('npartitions')
    ctx.assume(npartitions >= 1)
    target_fs = Elsewhere(w.fx, w.lock) if other else w.fs
    f = object()
    opened = []

    def tree(source, target, fs_source, fs_target):
        w.fx.record('tree', source, target, fs_source is w.fs and
                    fs_target is target_fs)

    def files(source, target, fs_source, fs_target):
        w.fx.record('files', tuple(sorted(source)), target,
                    fs_source is w.fs and fs_target is target_fs)

    def config(path, *, mode=None, filesystem=None, synchronizer=None):
        opened.append((path, mode, filesystem is target_fs, synchronizer,
                       len(w.fx.log)))
        return 'COPY'

    W.patch('fs_utils:copy_tree', tree)
    W.patch('fs_utils:copy_files', files)
    W.patch('collection:Collection.from_config', config)
    mode = 'rw'[ctx.choose(2, 'mode')]
    ctx.cover('reachable')
    try:
        r = w.col.copy('target', filters=f, filesystem=target_fs if other
                       else None, mode=mode,
                       npartitions=mkint(npartitions) if np_ else None,
                       synchronizer='SYNC')
    except TaskError:
        ctx.prove(T(not opened), 'the error of a task reaches the caller')
        return
    w.fx.check()
    log = w.fx.log
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    ctx.prove(T(r == 'COPY' and opened == [
        ('target', mode, True, 'SYNC', len(log))]),
        'the copy is opened at the end as requested')
    ctx.prove(T(all(e[0] in ('tree', 'files', 'makedirs') for e in log)),
              'nothing else is done')
    ctx.prove(T(all(e[-1] for e in log)), 'from the source to the target')
    ctx.prove(T([e[1:3] for e in log if e[0] == 'files'] == [
        (('root/.zcollection', 'root/notes.txt'), 'target')]),
        'the files of the base directory are copied')
    trees = [e for e in log if e[0] == 'tree']
    fixed = [e for e in trees if split_path(e[1])[1] is None]
    ctx.prove(T([e[1:3] for e in fixed] == (
        [(IMM, 'target/.immutable')] if imm == 2 else [])),
        'the non partitioned variables are copied once')
    parts = [e for e in trees if split_path(e[1])[1] is not None]
    if not parts:
        ctx.prove(w.n == 0, 'every partition is copied')
        return
    _, src, dst, _ = parts[0]
    ctx.prove(T(len(parts) == 1), 'each partition once')
    m, start, seq = w.cluster.batches
    hits = [z3.And(nb == m, nj == start(b + 1) - start(b),
                   path_is(src, ROOT, start(b) + j),
                   path_is(dst, 'target', start(b) + j))
            for (b, nb) in w.fx.reps for (j, nj) in w.fx.reps]
    ctx.prove(z3.Or(hits), 'under the same name, for all the batches')
    k = any_index(w.n, None, 'k')
    ctx.prove(z3.And(seq.n == w.n, path_is(seq.at(k)[0], ROOT, k)),
              'the batches hold the selected partitions')


class Given:
    """Dataset to insert."""
    nbytes = 10

    def __init__(self, tag, w, meta, log):
        self.tag, self.w, self.meta, self.log = tag, w, meta, log
        self.added = []

    def metadata(self):
        return ('metadata', tuple(sorted(self.meta + self.added)))

    def add_variable(self, var, *a, **k):
        if a or k:
            raise Unsupported('add_variable with values')
        self.added.append(var)

    def set_for_insertion(self, md):
        self.log.append(('for insertion', md))
        return Given('ready', self.w, self.meta + self.added, self.log)

    def select_variables_by_dims(self, dims, predicate=True):
        if tuple(dims) != (DIM, ):
            raise Unsupported('dims')
        return Given(self.tag + (' partitioned' if predicate else
                                 ' constant'), self.w, self.meta, self.log)


class Metadata:
    variables = dict(a='va', b='vb', c='vc')

    def missing_variables(self, other):
        have = other[1]
        return tuple(n for n, v in self.variables.items() if v not in have)

    def __eq__(self, o):
        return o == ('metadata', ('va', 'vb', 'vc'))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


@contract(['C06', 'C17', 'C18'], 'insert: every partition of the split '
          'is inserted once under the lock', [C + 'Collection.insert'],
          bounded=(), assumes=(
              'split_dataset returns the partitions of the rows (C01)',
              'split_sequence (C18)', '_insert stores one partition (C05)'))
def insert(ctx, W):
    imm = ctx.choose(3, 'immutable')
    w = World(ctx, W, immutable=IMM if imm else None, metadata=Metadata(),
              existing=(IMM + '/.zmetadata', IMM) if imm == 2 else ())
    have = [v for v in ('va', 'vb', 'vc') if ctx.choose(2, v)]
    extra = ctx.choose(2, 'other variable')
    validate = bool(ctx.choose(2, 'validate'))
    np_ = ctx.choose(2, 'npartitions')
    npartitions = ctx.int('npartitions')
    calls = []
    ds = Given('given', w, have + (['vz'] if extra else []), calls)
    splits = []
    merge = object() if ctx.choose(2, 'merge') else None

    def split(zds, dim):
        splits.append((zds, dim))
        return SymList(w.n, lambda k: (
            (SymPath.make('', k), ), ('slice', k)), kind='gen')

    def put(args, axis, zds, fs, merge_callable, partitioning_properties,
            **kw):
        p = partitioning_properties
        w.fx.record('insert', '/'.join((p.dir, ) + tuple(args[0])), args[1],
                    zds.tag, w.lock.depth > 0, axis == 'axis' and
                    fs is w.fs and merge_callable is merge and
                    p.dim == DIM and kw == dict(tolerance=3))

    def constant(zds, dim, path, fs, synchronizer):
        w.fx.record('constant', zds.tag, dim == DIM and path == IMM and
                    fs is w.fs and synchronizer is w.lock)

    w.col._properties.partition_strategy.split_dataset = split
    W.patch('collection:_insert', put)
    W.patch('collection:_write_immutable_dataset', constant)
    ctx.cover('reachable')
    log = w.fx.log
    try:
        out = w.col.insert(ds, merge_callable=merge, validate=validate,
                           npartitions=mkint(npartitions) if np_ else None,
                           tolerance=3)
    except TaskError:
        ctx.prove(T(w.lock.depth == 0), 'the lock is released')
        return
    except ValueError:
        if validate and extra:
            ctx.prove(T(not log), 'refused before anything is written')
        else:
            ctx.prove(z3.And(T(np_), npartitions < 1,
                               T(all(e[0] != 'insert' for e in log))),
                        'only an invalid number is refused')
        return
    w.fx.check()
    ctx.prove(T(not (validate and extra)), 'another structure is refused')
    ctx.prove(T(w.lock.depth == 0), 'the lock is released')
    ctx.prove(T(sorted(ds.added) == sorted(
        v for v in ('va', 'vb', 'vc') if v not in have)),
        'the missing variables are added')
    ctx.prove(T(calls == [('for insertion', w.metadata)]),
              'prepared with the metadata of the collection')
    const = [e for e in log if e[0] == 'constant']
    ctx.prove(T(const == ([('constant', 'ready', True)] if imm == 1
                          else [])),
              'the non partitioned variables are stored by the first '
              'insertion only')
    tag = 'ready partitioned' if imm else 'ready'
    ctx.prove(T(len(splits) == 1 and splits[0][0].tag == tag and
                splits[0][1] == DIM), 'the partitioned variables are split')
    k = any_index(w.n, None, 'k')
    ctx.prove(z3.And(out.n == w.n, path_is(out.at(k), ROOT, k)),
              'the names of the partitions are returned')
    puts = [e for e in log if e[0] == 'insert']
    ctx.prove(T(len(puts) + len(const) == len(log)), 'nothing else is done')
    if not puts:
        ctx.prove(w.n == 0, 'every partition is inserted')
        return
    _, path, sl, ztag, locked, same = puts[0]
    ctx.prove(T(len(puts) == 1 and ztag == tag and locked and same and
                sl[0] == 'slice'),
              'each partition once, under the lock, with the given arguments')
    m, start, seq = w.cluster.batches
    ctx.prove(seq.n == w.n, 'all the partitions are split in batches')
    hits = [z3.And(nb == m, nj == start(b + 1) - start(b),
                   sl[1] == start(b) + j,
                   path_is(path, ROOT, start(b) + j))
            for (b, nb) in w.fx.reps for (j, nj) in w.fx.reps]
    ctx.prove(z3.Or(hits), 'the rows of the partition are stored in it')


@contract(['C06', 'C05'], '_write_immutable_dataset: complete or absent', [
    C + '_write_immutable_dataset'], bounded=())
def write_immutable(ctx, W):
    w = World(ctx, W)
    fails = ctx.choose(3, 'fails')

    class Ds:
        def select_variables_by_dims(self, dims, predicate=True):
            ctx.prove(T(tuple(dims) == (DIM, ) and not predicate),
                      'the variables without the partitioning dimension')
            return Namespace(variables=dict(t=1), me='CONST')

    def write(zds, dirname, fs, synchronizer, *, distributed=True):
        ctx.prove(T(zds.me == 'CONST' and dirname == IMM and fs is w.fs and
                    (synchronizer is w.lock or w.lock.depth > 0)),
                  'written under the lock')
        w.fx.record('write')
        if fails:
            if fails == 2:
                w.fs.existing.add(IMM)
            raise OSError(5)
        w.fs.existing.add(IMM)

    W.patch('storage:write_zarr_group', write)
    ctx.cover('reachable')
    try:
        W['collection']._write_immutable_dataset(Ds(), DIM, IMM, w.fs, w.lock)
    except OSError:
        ctx.prove(T(fails and w.lock.depth == 0 and w.fx.log == [
            ('write', )] + ([('rm', IMM, True, True)] if fails == 2
                            else [])),
            'a failure removes what was written and reaches the caller')
        return
    ctx.prove(T(not fails and w.fx.log == [('write', )] and
                w.lock.depth == 0), 'written once')


class Zds:
    """Stored dataset."""

    def __init__(self, tag, log=None):
        self.tag = tag
        self.log = [] if log is None else log

    def merge(self, other):
        self.log.append(('merge', other.tag))

    def fill_attrs(self, md):
        self.log.append(('attrs', md))

    def concat(self, others, dim):
        return Zds(('concat', self, others, dim))

    def isel(self, key):
        return Zds(('rows', self.tag, key))


@contract(['C08', 'C09', 'C10'], '_load_dataset: the partition and the non '
          'partitioned variables', [D + '_load_dataset'], bounded=())
def load_dataset(ctx, W):
    imm = IMM if ctx.choose(2, 'immutable') else None
    opened = []

    def open_(dirname, fs, *, delayed=True, selected_variables=None):
        opened.append((dirname, fs, delayed, selected_variables))
        return Zds(dirname)

    W.patch('collection.detail:open_zarr_group', open_)
    ctx.cover('reachable')
    r = W['collection.detail']._load_dataset(False, 'FS', imm, 'PART', ['a'])
    ctx.prove(T(r.tag == 'PART' and r.log == ([('merge', IMM)] if imm
                                              else [])),
              'the partition completed by the constant variables')
    ctx.prove(T(all(o[1:] == ('FS', False, ['a']) for o in opened)),
              'restricted to the requested variables')


@contract('C08', '_load_and_apply_indexer: the indexed rows of the partition',
          [D + '_load_and_apply_indexer'], bounded=(2, ))
def load_indexer(ctx, W):
    opened = []

    def open_(dirname, fs, *, delayed=True, selected_variables=None):
        opened.append((dirname, fs is fs_, delayed, selected_variables))
        return Zds('PART')

    class Fs:
        sep = '/'

    fs_ = Fs()
    W.patch('collection.detail:open_zarr_group', open_)
    n, maxn = input_len('n')
    items = SymList(n, lambda k: ('slice', mkint(k)), maxn)
    P = W['collection.detail'].PartitioningProperties(ROOT, DIM)
    key = (('year', 2000), ('month', 1))
    ctx.cover('reachable')
    r = W['collection.detail']._load_and_apply_indexer(
        (key, items), delayed=True, fs=fs_,
        partition_handler=Namespace(join=lambda k, sep: 'NAME' if (
            k, sep) == (key, '/') else 'WRONG'),
        partition_properties=P, selected_variables=['a'])
    ctx.prove(T(opened == [('root/NAME', True, True, ['a'])]),
              'the partition of the key is opened once')
    if isinstance(r, list):
        ctx.prove(n == len(r), 'one dataset per range')
        for k, z in enumerate(r):
            ctx.prove(z3.And(T(z.tag[:2] == ('rows', 'PART') and
                               list(z.tag[2]) == [DIM]),
                             zint(z.tag[2][DIM][1]) == k), 'in order')
        return
    k = any_index(n, None, 'k')
    z = r.at(k)
    ctx.prove(z3.And(r.n == n, T(z.tag[:2] == ('rows', 'PART') and
                                 list(z.tag[2]) == [DIM]),
                     zint(z.tag[2][DIM][1]) == k),
              'one dataset per range, in order')


class Bag:
    """dask bag: the items in order; map applies a function to each."""

    def __init__(self, seq):
        self.seq = seq

    def map(self, func, *args, **kw):
        s = self.seq
        return Bag(SymList(s.n, lambda k: func(s.at(k), *args, **kw), s.maxn))

    def compute(self, **kw):
        return SymList(self.seq.n, self.seq.f, self.seq.maxn, 'list')


def bags(W, module):
    from pydv.theory import drain, lift

    def from_sequence(seq, partition_size=None, npartitions=None):
        s = drain(seq)
        return Bag(lift(s))

    W.patch(f'{module}:dask', Namespace(
        bag=Namespace(core=Namespace(from_sequence=from_sequence, Bag=Bag)),
        utils=Namespace(has_keyword=has_keyword)))


def has_keyword(func, name):
    import inspect
    return name in inspect.signature(func).parameters


@contract('C08', 'load: the selected partitions in order, then the constant '
          'variables and the attributes', [A + 'ReadOnlyCollection.load'],
          bounded=(2, ), assumes=(
              'a bag applies its function to the items in order',
              'partitions() (its contract)'))
def load(ctx, W):
    imm = IMM if ctx.choose(2, 'immutable') else None
    w = World(ctx, W, immutable=imm, metadata='MD', fails=False)
    ctx.effects = None
    bags(W, 'collection.abc')
    f = object()
    opened = []

    def open_(dirname, fs, *, delayed=True, selected_variables=None):
        ctx.prove(T(fs is w.fs and delayed is False and
                    selected_variables == ['a']),
                  'restricted to the requested variables')
        return Zds(('stored', dirname))

    W.patch('storage:open_zarr_group', open_)
    ctx.cover('reachable')
    r = w.col.load(delayed=False, filters=f, selected_variables=['a'])
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    if r is None:
        ctx.prove(w.n == 0, 'nothing for an empty selection')
        return
    ctx.prove(w.n > 0, 'an empty selection gives nothing')
    ctx.prove(T(r.log == ([('merge', ('stored', IMM))] if imm else []) +
                [('attrs', 'MD')]),
              'constant variables and attributes attached')
    if r.tag[0] == 'stored':
        ctx.prove(z3.And(w.n == 1, path_is(r.tag[1], ROOT, 0)),
                  'one partition')
        return
    _, first, others, dim = r.tag
    ctx.prove(z3.And(T(dim == DIM), path_is(first.tag[1], ROOT, 0)),
              'the first partition')
    if isinstance(others, (list, tuple)):
        ctx.prove(w.n == len(others) + 1, 'all the partitions')
        for k, z in enumerate(others):
            ctx.prove(path_is(z.tag[1], ROOT, k + 1), 'in order')
        return
    k = any_index(others.n, None, 'k')
    ctx.prove(z3.And(others.n == w.n - 1,
                     path_is(others.at(k).tag[1], ROOT, k + 1)),
              'then the others, in order')


def mapping(ctx, W, overlap):
    w = World(ctx, W, immutable=IMM, metadata='MD', fails=False)
    ctx.effects = None
    bags(W, 'collection.abc')
    f = object()
    depth = ctx.int('depth')
    info = overlap and bool(ctx.choose(2, 'partition_info'))
    w.col._properties.partition_strategy.parse = lambda p: ('key', p)

    def load(delayed, fs, immutable, partition, selected_variables):
        ctx.prove(T(delayed is False and fs is w.fs and immutable == IMM and
                    selected_variables == ['a']), 'loaded as requested')
        return Zds(partition)

    def window(*, delayed, depth, dim, fs, immutable, partition, partitions,
               selected_variables):
        ctx.prove(T(delayed is False and fs is w.fs and immutable == IMM and
                    selected_variables == ['a'] and dim == DIM),
                  'loaded as requested')
        j = any_index(w.n, w.maxn, 'j')
        from pydv.theory import lift
        p = lift(partitions)
        ctx.prove(z3.And(zint(depth) == D0, p.n == w.n,
                         path_is(p.at(j), ROOT, j)),
                  'the window is taken among the selected partitions')
        return Zds(partition), ('position', partition)

    D0 = depth
    W.patch('collection.abc:_load_dataset', load)
    W.patch('collection.abc:_load_dataset_with_overlap', window)

    if info:
        def func(zds, x, y, partition_info=None):
            return ('result', zds.tag, x, y, partition_info)
    else:
        def func(zds, x, y):
            return ('result', zds.tag, x, y, None)
    ctx.cover('reachable')
    kw = dict(depth=mkint(depth)) if overlap else {}
    r = (w.col.map_overlap if overlap else w.col.map)(
        func, 1, delayed=False, filters=f, selected_variables=['a'], y=2,
        **kw).compute()
    ctx.prove(w.filtered_by(f), 'the filter is applied')
    ctx.prove(r.n == w.n, 'one result per selected partition')
    k = any_index(w.n, w.maxn, 'k')
    key, (_, tag, x, y, i) = r.at(k)
    ctx.prove(z3.And(T(key[0] == 'key' and (x, y) == (1, 2)),
                     path_is(key[1], ROOT, k), path_is(tag, ROOT, k)),
              'the function applied to the partition, with its key')
    if info:
        ctx.prove(z3.And(T(i[0] == DIM and i[1][0] == 'position'),
                         path_is(i[1][1], ROOT, k)),
                  'with the position of the partition in the window')


@contract(['C08', 'C09'], 'map: applied to every selected partition, in '
          'order', [A + 'ReadOnlyCollection.map'], bounded=(2, ))
def map_(ctx, W):
    mapping(ctx, W, False)


@contract('C09', 'map_overlap: applied to the window of every selected '
          'partition, in order', [A + 'ReadOnlyCollection.map_overlap'],
          bounded=(2, ))
def map_overlap(ctx, W):
    mapping(ctx, W, True)
