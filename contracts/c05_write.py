"""Contracts of the writing of a partition: _insert, perform, _update_fs,
_rename, _rm (C05, C06)."""
import shutil

import fsspec.implementations.local
import zarr.storage

from pydv.core import Crash, SimulatedFault, Unsupported, z3
from pydv.ghost import (ABSENT, COMPLETE, DAMAGED, PARTIAL, GhostFS,
                        GhostLocalFS, Group, Mapper, Store)
from pydv.harness import contract

D = 'zcollection/collection/detail.py:'
M = 'zcollection/merging/__init__.py:'
DIRS = ('root/x=1', 'root/a=1/b=2', 'root/year=2000/month=01/day=02')
ROOT = 'root'


class Given:
    """Dataset to insert: isel returns the rows of the partition."""
    delayed = True

    def __init__(self):
        self.sel = {}

    def isel(self, indexer):
        if indexer != {'num': slice(2, 5)}:
            raise Unsupported('another selection')
        return 'NEW'


class Stored:

    def __init__(self, content, delayed):
        self.content, self.delayed = content, delayed
        self.properties = None

    def copy_properties(self, ds):
        self.properties = ds


def T(x):
    return z3.BoolVal(bool(x))


def prepare(ctx, W, faults=1, name=None, local=None):
    """World, ghost storage and the effects of the callees."""
    st = Store(faults=faults)
    local = ctx.choose(2, 'local') if local is None else local
    fs = (GhostLocalFS if local else GhostFS)(st)
    fs.local = local
    d = name or DIRS[ctx.choose(len(DIRS), 'name')]
    st.groups['root/x=7'] = Group(COMPLETE, 'OTHER')
    st.groups['root/.immutable'] = Group(COMPLETE, 'IMM')
    ctx.input('local', local)
    ctx.input('dirname', d)

    def write(zds, dirname, fs, synchronizer, *, distributed=True):
        ctx.prove(T(fs is st_fs), 'written on the given file system')
        st.write(dirname, zds)

    st_fs = fs

    def init_group(store, overwrite=False, path=None, **kw):
        if not isinstance(store, Mapper) or path:
            raise Unsupported('init_group')
        st.init(store.root, overwrite)

    def rmtree(path, ignore_errors=False, **kw):
        if not local:
            ctx.fail('shutil is used on local file systems only')
        try:
            st.rm(path, missing_ok=ignore_errors)
        except OSError:
            if not ignore_errors:
                raise

    def move(src, dst, *a, **kw):
        if not local:
            ctx.fail('shutil is used on local file systems only')
        # os.rename onto an existing directory nests the source into it
        st.move(src, dst)

    m = W['merging']
    W['collection.detail']
    W.patch('storage:write_zarr_group', write)
    W.patch('collection.detail:write_zarr_group', write)
    W.patch('merging:zarr', Namespace(storage=Namespace(
        init_group=init_group)))
    W.patch('collection.detail:zarr', Namespace(storage=Namespace(
        init_group=init_group)))
    W.patch('merging:shutil', Namespace(rmtree=rmtree, move=move))
    W.patch('collection.detail:time', Namespace(sleep=lambda *_: None))
    return st, fs, d


class Namespace:

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'call of {name}')


def protect(ctx, st, d, old, new, expect_temp=True):
    """Watch every effect: other groups never change, and the stored content
    is only replaced once the new one is completely written."""

    def watch(path, before, after, why):
        if path in ('root/x=7', 'root/.immutable'):
            ctx.fail(f'no other partition is changed ({why})')
        if path == d:
            if before.state == COMPLETE and before.content == old:
                safe = [p for p, g in st.groups.items()
                        if g.state == COMPLETE and g.content == new]
                ctx.prove(T(safe), 'the stored content is untouched until '
                          'its replacement is completely written')
            return
        # any other path is a temporary one: hidden, next to the partitions
        rel = path[len(ROOT) + 1:]
        ctx.prove(T(path.startswith(ROOT + '/') and rel.startswith('.')
                    and '/' not in rel),
                  'temporary groups are hidden at the root of the collection')

    st.watch.append(watch)


def others(st):
    return (st.get('root/x=7').content == 'OTHER' and
            st.get('root/x=7').state == COMPLETE and
            st.get('root/.immutable').state == COMPLETE)


def outcome(ctx, st, d, old, new, exc):
    """Final state after success, error or death."""
    g = st.get(d)
    ctx.prove(T(others(st)), 'no other partition is changed')
    if exc is None:
        ctx.prove(T(g.state == COMPLETE and g.content == new),
                  'on success the partition holds the new rows')
        left = [p for p in st.groups
                if p not in (d, 'root/x=7', 'root/.immutable')]
        ctx.prove(T(not left), 'no temporary group remains')
        return
    if not isinstance(exc, (SimulatedFault, Crash, UserError)):
        ctx.fail(f'the error that occurred is the one raised ({exc!r})')
    if old is not None:
        written = [p for p, x in st.groups.items()
                   if x.state == COMPLETE and x.content == new]
        ctx.prove(T(g.state == COMPLETE and g.content in (old, new)
                    or written),
                  'after a failure the previous content is stored, unless '
                  'the replacement was complete')


class UserError(Exception):
    pass


@contract(['C05', 'C06'], '_insert: a new partition is complete, absent or '
          'recognisably incomplete', [D + '_insert', D + '_rm'], bounded=(),
          assumes=('write_zarr_group writes the metadata last (proved under '
                   'C05)', 'one fault or crash per write, at any operation'))
def insert_new(ctx, W):
    st, fs, d = prepare(ctx, W)
    m = W['collection.detail']
    start = [ABSENT, PARTIAL][ctx.choose(2, 'start')]
    if start == PARTIAL:
        st.groups[d] = Group(PARTIAL)
    ctx.input('start', start)
    protect(ctx, st, d, None, 'NEW')
    exc = None
    ctx.cover('reachable')

    def perform(*a, **k):
        ctx.fail('a partition without metadata is created, not merged')

    W.patch('merging:perform', perform)
    try:
        m._insert(args=(tuple(d.split('/')[1:]), {'num': slice(2, 5)}),
                  axis='time', zds=Given(), fs=fs, merge_callable=None,
                  partitioning_properties=m.PartitioningProperties(
                      ROOT, 'num'))
    except (Exception, Crash) as e:
        exc = e
    outcome(ctx, st, d, None, 'NEW', exc)
    g = st.get(d)
    if exc is not None and not isinstance(exc, Crash):
        ctx.prove(T(g.state == ABSENT or g.state == PARTIAL and
                    start == PARTIAL and st.log[0] == st.fault),
                  'after an error the partition is absent')
    if isinstance(exc, Crash):
        ctx.prove(T(g.state in (ABSENT, PARTIAL) or g.state == COMPLETE and
                    g.content == 'NEW' or g.state == DAMAGED),
                  'after a crash the partition is absent, incomplete or '
                  'complete')


@contract(['C05', 'C06'], '_insert: an existing partition is merged', [
    D + '_insert'], bounded=())
def insert_existing(ctx, W):
    st, fs, d = prepare(ctx, W)
    m = W['collection.detail']
    st.groups[d] = Group(COMPLETE, 'OLD')
    protect(ctx, st, d, 'OLD', 'NEW')
    calls = []
    fail = ctx.choose(2, 'merge fails')

    def perform(ds_inserted, dirname, axis, fs_, partitioning_dim, *,
                delayed=True, merge_callable, synchronizer=None, **kwargs):
        calls.append((ds_inserted, dirname, axis, fs_, partitioning_dim,
                      delayed, merge_callable, kwargs))
        if fail:
            raise UserError()

    W.patch('merging:perform', perform)
    cb = [None, 'MERGE'][ctx.choose(2, 'callable')]
    ctx.cover('reachable')
    exc = None
    z = Given()
    z.delayed = bool(ctx.choose(2, 'delayed'))
    try:
        m._insert(args=(tuple(d.split('/')[1:]), {'num': slice(2, 5)}),
                  axis='time', zds=z, fs=fs, merge_callable=cb,
                  partitioning_properties=m.PartitioningProperties(
                      ROOT, 'num'), tolerance=3)
    except (Exception, Crash) as e:
        exc = e
    ctx.prove(T(isinstance(exc, UserError) if fail else exc is None),
              'the error of the merge reaches the caller')
    ctx.prove(T(len(calls) == 1 and calls[0][:5] == (
        'NEW', d, 'time', fs, 'num') and calls[0][5] == z.delayed and
        calls[0][6] == cb and calls[0][7] == {'tolerance': 3}),
        'the rows of the partition are merged once with the given function')
    ctx.prove(T(st.get(d).state == COMPLETE and st.get(d).content == 'OLD'
                and others(st)), 'nothing else is written')


@contract(['C05', 'C06'], 'perform: merge, then replace the partition '
          'atomically', [M + 'perform', M + '_update_fs', M + '_rename',
                         M + '_extract_root_dirname'], bounded=(),
          assumes=('os.rename is atomic on a local file system; elsewhere mv '
                   'fails before or succeeds', ))
def perform(ctx, W):
    # where a replacement is prepared: a first replacement, without fault
    st, fs, d = prepare(ctx, W, faults=0)
    used = set()
    st.groups[d] = Group(COMPLETE, 'OLD')
    st.watch.append(lambda path, before, after, why: used.add(path))
    W['merging'].perform('NEW', d, 'time', fs, 'num', delayed=False,
                                merge_callable=None)
    used.discard(d)
    st, fs, d = prepare(ctx, W, name=d, local=fs.local)
    m = W['merging']
    st.groups[d] = Group(COMPLETE, 'OLD')
    # leftover of a previous interrupted replacement
    leftover = ctx.choose(3, 'leftover') if len(used) == 1 else 0
    if leftover:
        t, = used
        st.groups[t] = Group([PARTIAL, COMPLETE][leftover - 1], 'STALE')
    ctx.input('leftover', leftover)
    how = ctx.choose(3, 'callable')
    opened, merged = [], []
    delayed = bool(ctx.choose(2, 'delayed'))

    def open_group(dirname, fs_, *, delayed=True, selected_variables=None):
        ctx.prove(T(selected_variables is None),
                  'all stored variables are merged')
        opened.append(Stored(st.get(dirname).content, delayed))
        return opened[-1]

    def callback(existing, inserted, axis, dim, **kw):
        merged.append((existing, inserted, axis, dim, kw))
        if how == 2:
            raise UserError()
        return 'MERGED'

    W.patch('storage:open_zarr_group', open_group)
    new = 'NEW' if how == 0 else 'MERGED'
    protect(ctx, st, d, 'OLD', new)
    exc = None
    ctx.cover('reachable')
    try:
        m.perform('NEW', d, 'time', fs, 'num', delayed=delayed,
                  merge_callable=None if how == 0 else callback,
                  tolerance=3)
    except (Exception, Crash) as e:
        exc = e
    outcome(ctx, st, d, 'OLD', new, exc)
    if how:
        ctx.prove(T(len(merged) == 1 and merged[0][0] is opened[0] and
                    opened[0].content == 'OLD' and
                    opened[0].delayed == delayed and
                    opened[0].properties == 'NEW' and
                    merged[0][1:] == ('NEW', 'time', 'num',
                                      {'tolerance': 3})),
                  'the merge function receives the stored and the inserted '
                  'rows')
    if how == 2:
        ctx.prove(T(isinstance(exc, UserError) and not st.log),
                  'an error of the merge function reaches the caller before '
                  'anything is written')
    if exc is not None and not isinstance(exc, Crash) and st.fault and \
            st.fault.startswith('write'):
        left = [p for p in st.groups
                if p not in (d, 'root/x=7', 'root/.immutable')]
        ctx.prove(T(not left), 'a failed write leaves no temporary group')


@contract(['C05', 'C06'], 'perform: the replacements of two partitions are '
          'prepared apart', [M + 'perform', M + '_update_fs', M + '_rename',
                             M + '_extract_root_dirname'], bounded=(),
          assumes=('sha256 is injective on the names of the partitions', ))
def apart(ctx, W):
    """Several partitions are written at the same time: no replacement touches
    what another one is preparing."""
    names = DIRS + ('root/a=2/b=2', 'root/a=1/b=3', 'root/x=2',
                    'root/year=2000/month=02/day=02',
                    'root/year=2001/month=01/day=02')
    d = names[ctx.choose(len(names), 'first')]
    e = names[ctx.choose(len(names), 'second')]
    local = ctx.choose(2, 'local')
    if d == e:
        return
    ctx.cover('reachable')
    touched = []
    for name in (d, e):
        st, fs, _ = prepare(ctx, W, faults=0, name=name, local=local)
        st.groups[name] = Group(COMPLETE, 'OLD')
        paths = set()
        st.watch.append(lambda path, before, after, why: paths.add(path))
        W['merging'].perform('NEW', name, 'time', fs, 'num', delayed=False,
                                merge_callable=None)
        touched.append(paths)
    a, b = touched
    ctx.prove(T(a and b and not any(
        x == y or x.startswith(y + '/') or y.startswith(x + '/')
        for x in a for y in b)),
              'two partitions have nothing in common while they are replaced')
