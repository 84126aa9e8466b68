"""Contracts of the storage functions."""
import gzip
import json
import lzma
import zlib

import zarr.errors

from pydv.core import (Crash, SimulatedFault, Unsupported, cur, mkbool, mkint,
                       z3, zint)
from pydv.effects import Client, Cluster, Effects, Lock, Scattered, Task
from pydv.ghostzarr import GhostZarr, Map, Namespace, ZFS, store
from pydv.harness import contract
from pydv.theory import SymList, any_index, drain, input_len, lift

S = 'zcollection/storage.py:'
DIMS = '_ARRAY_DIMENSIONS'


def T(x):
    return z3.BoolVal(bool(x))


# -- execute_transaction ---------------------------------------------------
class Boom(Exception):
    pass


@contract('C17', 'execute_transaction: under the lock, results in order, '
          'errors after the end of every task', [S + 'execute_transaction'],
          bounded=())
def transaction(ctx, W):
    n, maxn = input_len('n')
    tasks = SymList(n, lambda k: ('task', mkint(k)), maxn)
    lock = Lock()
    events = []
    compute = ctx.choose(2, 'compute fails')
    gather = 0 if compute else ctx.choose(3, 'gather')
    error = Boom() if gather != 2 else KeyboardInterrupt()

    def same(x):
        """x is the given list of tasks."""
        if not isinstance(x, SymList):
            return T(x is tasks)
        k = any_index(n, None, 'k')
        v = x.at(k)
        return z3.And(x.n == n, T(v[0] == 'task'), zint(v[1]) == k)

    class Cl:

        def compute(self, futures, **kw):
            events.append(('compute', lock.depth))
            ctx.prove(same(futures), 'the given tasks are computed, in order')
            ctx.prove(T(kw == dict(workers='here')), 'options are passed')
            if compute:
                raise error
            return 'AWAIT'

        def gather(self, awaitables, **kw):
            events.append(('gather', lock.depth))
            ctx.prove(T(awaitables == 'AWAIT'), 'the results are gathered')
            if gather:
                raise error
            return 'RESULTS'

    def wait(x, *a, **k):
        events.append(('wait', lock.depth, x))

    W.patch('storage:dask', Namespace(distributed=Namespace(wait=wait)))
    ctx.cover('reachable')
    exc = r = None
    try:
        r = W['storage'].execute_transaction(Cl(), lock, tasks,
                                             workers='here')
    except (Boom, KeyboardInterrupt) as e:
        exc = e
    ctx.prove(T(lock.depth == 0), 'the lock is released')
    names = [e[0] for e in events]
    if not events:
        ctx.prove(z3.And(n == 0, T(r is None and exc is None)),
                  'nothing to do')
        return
    ctx.prove(T(all(e[1] == 1 for e in events)),
              'everything happens while the lock is held')
    ctx.prove(T(names.count('compute') == 1), 'computed once')
    if compute or gather:
        ctx.prove(T(exc is error), 'the error reaches the caller')
        if not compute:
            ctx.prove(T(any(e[0] == 'wait' and e[2] == 'AWAIT'
                            for e in events[names.index('gather'):])),
                      'every scheduled task has finished before')
        return
    ctx.prove(T(exc is None and r == 'RESULTS'),
              'the results are returned in the order of the tasks')


@contract('C17', 'a process lock is acquired, released, and recreated on the '
          'same path', ['zcollection/sync.py:ProcessSync.__enter__',
                        'zcollection/sync.py:ProcessSync.__exit__',
                        'zcollection/sync.py:ProcessSync.is_locked',
                        'zcollection/sync.py:ProcessSync.__reduce__'],
          bounded=(), assumes=('fasteners.InterProcessLock excludes the '
                               'other processes', ))
def process_sync(ctx, W):
    import threading
    m = W['sync']
    other = ctx.choose(2, 'held by another')
    exists = ctx.choose(2, 'file exists') or other
    made = []

    class IPL:

        def __init__(self, path):
            self.path = path.encode() if isinstance(path, str) else path
            self.acquired = False
            made.append(self)

        def acquire(self, blocking=True, **kw):
            if other and len(made) == 1:
                if blocking:
                    raise Boom()  # would wait for the other process
                return False
            self.acquired = True
            return True

        def release(self):
            if not self.acquired:
                raise threading.ThreadError('Unable to release')
            self.acquired = False

        def exists(self):
            return bool(exists) or self.acquired

    W.patch('sync:fasteners', Namespace(InterProcessLock=IPL))
    s = m.ProcessSync('/path')
    ctx.cover('reachable')
    before = made[0].acquired
    r = s.is_locked()
    ctx.prove(T(r is bool(other) and made[0].acquired == before),
              'reports whether another holds it, and does not keep it')
    f, args = s.__reduce__()[:2]
    made[:] = made[:1] if made[0].acquired else made[:1]
    t = f(*args)
    ctx.prove(T(type(t) is type(s) and made[-1].path == made[0].path),
              'sent elsewhere, it locks the same file')
    made.clear()
    s = m.ProcessSync('/path')
    if other:
        try:
            s.__enter__()
        except Boom:
            pass
        else:
            ctx.fail('waits for the other process')
        return
    fails = ctx.choose(2, 'error')
    try:
        with s:
            ctx.prove(T(made[0].acquired), 'held inside')
            ctx.prove(T(s.is_locked() and made[0].acquired),
                      'reported as held')
            if fails:
                raise Boom()
    except Boom:
        ctx.prove(T(fails), 'errors are not hidden')
    else:
        ctx.prove(T(not fails), 'errors are not hidden')
    ctx.prove(T(not made[0].acquired), 'released')
    ctx.prove(T(not s.is_locked() and not made[0].acquired), 'reported free')


# -- writing ---------------------------------------------------------------
class DArr:
    """Dask array of opaque content."""

    def __init__(self, ctx, tag, shape, chunks=None):
        self.ctx, self.tag, self.shape = ctx, tag, shape
        self.ndim = len(shape)
        self.dtype = 'DTYPE'
        self.asked = chunks
        self._chunks = None

    def rechunk(self, chunks=None, block_size_limit=None, **kw):
        if kw:
            raise Unsupported('rechunk')
        if isinstance(chunks, dict) and not set(chunks) <= set(
                range(self.ndim)):
            raise ValueError('chunks')
        return DArr(self.ctx, self.tag, self.shape, (chunks,
                                                     block_size_limit))

    @property
    def chunks(self):
        """Any regular chunking of the shape."""
        if self._chunks is None:
            out = []
            for i, s in enumerate(self.shape):
                c = self.ctx.int(f'chunk{i}')
                s = zint(s)
                self.ctx.assume(z3.If(s == 0, c == 0,
                                      z3.And(1 <= c, c <= s)))
                out.append((mkint(c), ))
            self._chunks = tuple(out)
        return self._chunks


def sizes(ctx, rank, name='s'):
    out = []
    for i in range(rank):
        s = ctx.int(f'{name}{i}')
        ctx.assume(s >= 0)
        out.append(mkint(s))
    return tuple(out)


NAMES = ('num', 'x', 'y', 'z')


class Attr:

    def __init__(self, name, value):
        self.name, self.value = name, value

    def get_config(self):
        return self.name, self.value


def world(ctx, W, faults=0, crashes=True):
    fs = ZFS(faults, crashes)
    core = Namespace(store=store, from_array=lambda a, *x, **k: a,
                     Array=DaskArray)
    W.patch('storage:zarr', GhostZarr())
    W.patch('storage:dask', Namespace(
        array=Namespace(core=core), local=Namespace(get_sync=None),
        distributed=Namespace()))
    return fs


class DaskArray:
    pass


def variable(ctx, W, name='v', shape=None, delayed=None, attrs=None):
    ds = W['dataset']
    cls = ds.DelayedArray if (ctx.choose(2, 'delayed') if delayed is None
                              else delayed) else ds.Array
    v = cls.__new__(cls)
    if shape is None:
        shape = sizes(ctx, ctx.choose(4, 'rank'))
    v.name, v.array = name, DArr(ctx, ('values', name), shape)
    v.dimensions = NAMES[:len(shape)]
    v.attrs = tuple(Attr(k, x) for k, x in (attrs or {}).items())
    v.compressor, v.fill_value, v.filters = 'ZIP', 7, ('F1', 'F2')
    return v


@contract(['C21', 'C06', 'C05'], 'write_zarr_variable: the values, the '
          'description and the attributes are stored, or nothing', [
              S + 'write_zarr_variable', S + '_to_zarr', S + 'write_zattrs',
              S + 'del_zarr_array'], bounded=(),
          assumes=('rank at most 3 (enumerated)', ))
def write_variable(ctx, W):
    fs = world(ctx, W, faults=1)
    fs.files['P/w/.zarray'] = 'OTHER'
    case = ctx.choose(4, 'case')
    attrs = ({}, dict(units='m'), dict(units='m', n=[1, 2]), dict(a=''))[case]
    v = variable(ctx, W, attrs=attrs)
    old = case % 2
    if old:
        fs.files['P/v/.zarray'] = dict(shape=(1, ), fill_value=0, dtype='OLD')
        fs.files['P/v/data'] = 'OLD'
    chunks = (None, {}, dict(num=5), dict(x=2, other='auto'))[case]
    limit = (None, 100)[case % 2]
    before = {p: x for p, x in fs.files.items() if not p.startswith('P/v')}
    ctx.cover('reachable')
    exc = None
    try:
        W['storage'].write_zarr_variable(('v', v), 'P', fs,
                                         block_size_limit=limit,
                                         chunks=chunks)
    except SimulatedFault as e:
        exc = e
    except Crash:
        after = {p: x for p, x in fs.files.items()
                 if not p.startswith('P/v') and p != 'P/.zgroup'}
        ctx.prove(T(after == before), 'nothing else was changed')
        return
    ours = {p: x for p, x in fs.files.items() if p.startswith('P/v/')}
    others = {p: x for p, x in fs.files.items() if not p.startswith('P/v/')
              and p not in ('P/.zgroup', 'P/.zmetadata')}
    ctx.prove(T(others == before), 'nothing else is changed')
    if fs.fault:
        ctx.prove(T(exc is not None), 'the error reaches the caller')
        ctx.prove(T(not ours), 'nothing is left of the variable')
        return
    ctx.prove(T(exc is None and 'P/.zmetadata' not in fs.files),
              'written, the group is not completed yet')
    z = ours.get('P/v/.zarray', {})
    ctx.prove(T(ours.get('P/v/data') == ('values', 'v') and
                z.get('dtype') == 'DTYPE' and z.get('compressor') == 'ZIP' and
                z.get('fill_value') == 7 and tuple(z.get('filters')) == (
                    'F1', 'F2')), 'values and description')
    shape = v.array.shape
    ctx.prove(T(len(z['shape']) == len(shape) == len(z['chunks'])), 'rank')
    for a, b, c in zip(z['shape'], shape, z['chunks']):
        ctx.prove(z3.And(zint(a) == zint(b), zint(c) >= 1,
                         z3.Implies(zint(b) > 0, zint(c) <= zint(b))),
                  'shape, and chunks of positive size')
    ctx.prove(T(fs.attrs('P/v') == dict(attrs, **{DIMS: list(
        v.dimensions)})), 'attributes and dimensions')


@contract(['C05', 'C21', 'C06'], '_write_meta: the consolidated metadata is '
          'written last and describes every array', [S + '_write_meta'],
          bounded=())
def write_meta(ctx, W):
    fs = world(ctx, W, faults=1)
    for v in 'ab'[:ctx.choose(3, 'arrays')]:
        fs.files[f'P/{v}/.zarray'] = dict(name=v)
        fs.files[f'P/{v}/.zattrs'] = '{}'
        fs.files[f'P/{v}/data'] = v
    before = dict(fs.files)
    attrs = ({}, dict(title='t', n=3))[ctx.choose(2, 'attributes')]
    zds = Namespace(attrs=[Attr(k, x) for k, x in attrs.items()])
    ctx.cover('reachable')
    failed = False
    try:
        W['storage']._write_meta(zds, 'P', fs)
    except (SimulatedFault, Crash):
        failed = True
    ctx.prove(T(all(fs.files.get(p) == x for p, x in before.items())),
              'the arrays are not changed')
    ctx.prove(T(failed == bool(fs.fault)), 'errors reach the caller')
    if 'P/.zmetadata' in fs.files:
        snap = fs.files['P/.zmetadata']
        ctx.prove(T(snap == fs.snapshot('P') and
                    json.loads(snap.get('.zattrs', '{"missing": 1}')) == attrs
                    and json.loads(snap['.zgroup']) == dict(zarr_format=2)),
                  'complete as soon as it exists')
    else:
        ctx.prove(T(failed), 'the metadata is consolidated')


@contract(['C05', 'C06', 'C17', 'C21'], 'write_zarr_group: every variable, '
          'then the metadata, under the lock', [S + 'write_zarr_group'],
          bounded=(), assumes=('write_zarr_variable, _write_meta and '
                               'execute_transaction (their contracts)', ))
def write_group(ctx, W):
    fx = Effects(ctx)
    lock = Lock()
    n, _ = input_len('n')
    distributed = bool(ctx.choose(2, 'distributed'))
    fault = ctx.choose(2, 'a variable fails')
    zds = Namespace(
        block_size_limit=9, chunks=dict(x=1),
        variables=Namespace(
            items=lambda: SymList(n, lambda k: (('name', mkint(k)), (
                'variable', mkint(k))), kind='gen'),
            __len__=None))
    fs = Namespace(get_mapper=lambda p: Map(None, p))

    given = fs

    def write(args, dirname, fs, *, block_size_limit=None, chunks=None):
        name, v = args
        if isinstance(v, Scattered):
            v = v.value
        fx.record('variable', zint(name[1]), zint(v[1]), lock.depth,
                  dirname == 'P' and fs is given and block_size_limit == 9 and
                  chunks == dict(x=1))
        if fault:
            raise OSError(28)

    class Cl:
        def scatter(self, x, **k):
            return Scattered(x)

        def map(self, func, it, *a, pure=None, **kw):
            if a:
                raise Unsupported('map')
            it = lift(drain(it))
            return SymList(it.n, lambda k: Task(func, (it.at(k), ), kw),
                           it.maxn)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    cl = Cl()

    def transaction(client, synchronizer, futures, **kw):
        ctx.prove(T(client is cl and (synchronizer is not lock)),
                  'the tasks are executed')
        r = SymList(futures.n, lambda k: futures.at(k).run())
        with synchronizer:
            fx.each(r)

    W.patch('storage:write_zarr_variable', write)
    W.patch('storage:_write_meta', lambda z, d, f: fx.record(
        'meta', lock.depth, z is zds and d == 'P' and f is fs))
    W.patch('storage:execute_transaction', transaction)
    W.patch('storage:zarr', Namespace(open_group=lambda *a, **k: None))
    W.patch('storage:dask', Namespace(distributed=Namespace(
        worker_client=lambda *a, **k: cl,
        get_worker=lambda: Namespace(address='here'))))
    ctx.cover('reachable')
    exc = None
    try:
        W['storage'].write_zarr_group(zds, 'P', fs, lock,
                                      distributed=distributed)
    except OSError as e:
        exc = e
    fx.check()
    log = fx.log
    ctx.prove(T(lock.depth == 0), 'the lock is released')
    vs = [e for e in log if e[0] == 'variable']
    if exc is not None:
        ctx.prove(T(fault and len(vs) == len(log)),
                  'an incomplete group gets no metadata')
        return
    ctx.prove(z3.Or(T(not fault), n == 0), 'errors reach the caller')
    ctx.prove(T(log[-1:] == [('meta', 1, True)] and len(vs) == len(log) - 1),
              'the metadata is written once, at the end, under the lock')
    if not vs:
        ctx.prove(n == 0, 'every variable is written')
        return
    _, i, j, depth, same = vs[0]
    ctx.prove(T(len(vs) == 1 and depth == 1 and same),
              'each variable once, under the lock')
    ctx.prove(z3.And(i == j, z3.Or([z3.And(k == i, m == n)
                                    for k, m in fx.reps])),
              'under its name, for every variable')


# -- updating ------------------------------------------------------------
class Masked:

    def __init__(self, tag):
        self.tag = tag

    def filled(self, value=None):
        return ('filled', self.tag, value)


@contract(['C21', 'C10'], 'update_zarr_array: all the values are replaced, '
          'missing ones by the fill value', [S + 'update_zarr_array'],
          bounded=())
def update_array(ctx, W):
    fs = world(ctx, W)
    fill = (None, 0, 7)[ctx.choose(3, 'fill value')]
    fs.files.update({'P/v/.zarray': dict(shape=(3, ), fill_value=fill,
                                         dtype='D'),
                     'P/v/.zattrs': 'A', 'P/v/data': 'OLD',
                     'P/w/data': 'W', 'P/.zmetadata': 'M'})
    kind = ctx.choose(2, 'masked')
    inner = Masked('new') if kind else 'NEW'

    class Lazy(DaskArray):
        def compute(self, **kw):
            return inner

    W.patch('storage:numpy', Namespace(ma=Namespace(MaskedArray=Masked)))
    array = Lazy() if ctx.choose(2, 'lazy') else inner
    before = dict(fs.files)
    ctx.cover('reachable')
    W['storage'].update_zarr_array('P/v', array, fs)
    got = fs.files.pop('P/v/data')
    before.pop('P/v/data')
    ctx.prove(T(fs.files == before), 'nothing else is changed')
    if not kind:
        ctx.prove(T(got == 'NEW'), 'the given values')
    elif fill is None:
        ctx.prove(T(got is inner or got == ('filled', 'new', None)),
                  'the given values')
    else:
        ctx.prove(T(got == ('filled', 'new', fill)),
                  'missing values are stored as the fill value')


@contract(['C12', 'C05'], 'del_zarr_array: the variable disappears, the rest '
          'stays', [S + 'del_zarr_array'], bounded=())
def del_array(ctx, W):
    fs = world(ctx, W)
    for v in ('v', 'vv', 'w'):
        fs.files[f'P/{v}/.zarray'] = dict(name=v)
        fs.files[f'P/{v}/data'] = v
    fs.files['P/.zgroup'] = 'G'
    fs.files['P/.zmetadata'] = fs.snapshot('P')
    fs.files['Q/v/.zarray'] = 'OTHER'
    name = ('v', 'unknown')[ctx.choose(2, 'name')]
    before = dict(fs.files)
    ctx.cover('reachable')
    W['storage'].del_zarr_array('P', name, fs)
    if name == 'unknown':
        ctx.prove(T(fs.files == before), 'nothing to do')
        return
    want = {p: x for p, x in before.items()
            if not p.startswith('P/v/') and p != 'P/.zmetadata'}
    got = dict(fs.files)
    snap = got.pop('P/.zmetadata', None)
    ctx.prove(T(got == want), 'removed, and nothing else')
    ctx.prove(T(snap == fs.snapshot('P')), 'the metadata follows')


@contract('C12', 'add_zarr_array: shaped like the template, empty, visible',
          [S + 'add_zarr_array'], bounded=(),
          assumes=('rank at most 3 (enumerated)', ))
def add_array(ctx, W):
    fs = world(ctx, W)
    shape = sizes(ctx, ctx.choose(4, 'rank'))
    fs.files.update({
        'P/t/.zarray': dict(shape=shape, fill_value=0, dtype='D'),
        'P/t/data': 'T', 'P/.zgroup': 'G', 'Q/t/.zarray': 'OTHER'})
    fs.files['P/.zmetadata'] = fs.snapshot('P')
    dims = NAMES[:len(shape)]
    chunks = (None, {}, dict(num=5), dict(x=2))[ctx.choose(4, 'chunks')]
    v = Namespace(name='v', dimensions=dims, dtype='DT', compressor='ZIP',
                  fill_value=7, filters=('F', ), attrs=(Attr('u', 1), ))
    before = dict(fs.files)
    ctx.cover('reachable')
    W['storage'].add_zarr_array('P', v, 't', fs, chunks=chunks)
    got = dict(fs.files)
    snap = got.pop('P/.zmetadata')
    before.pop('P/.zmetadata')
    new = {p: got.pop(p) for p in list(got) if p.startswith('P/v/')}
    ctx.prove(T(got == before), 'nothing else is changed')
    ctx.prove(T(set(new) == {'P/v/.zarray', 'P/v/.zattrs'}),
              'created without values (the fill value)')
    z = new['P/v/.zarray']
    ctx.prove(T(z['dtype'] == 'DT' and z['fill_value'] == 7 and
                z['compressor'] == 'ZIP' and tuple(z['filters']) == ('F', )),
              'description')
    ctx.prove(T(fs.attrs('P/v') == {'u': 1, DIMS: list(dims)}), 'attributes')
    ctx.prove(T(len(z['shape']) == len(shape) == len(z['chunks'])), 'rank')
    for d, a, b, c in zip(dims, z['shape'], shape, z['chunks']):
        ctx.prove(z3.And(zint(a) == zint(b), zint(c) >= 1),
                  'shape of the template, chunks of positive size')
        if chunks and d in chunks:
            ctx.prove(zint(c) == chunks[d], 'chunks of the collection')
    ctx.prove(T(snap == fs.snapshot('P')), 'visible in the metadata')


# -- reading ---------------------------------------------------------------
ERRORS = (KeyError, ValueError, TypeError, RuntimeError, EOFError,
          gzip.BadGzipFile, lzma.LZMAError, zlib.error,
          zarr.errors.MetadataError)


@contract('C22', 'check_zarr_group: valid iff the group opens and every array '
          'can be read', [S + 'check_zarr_group'], bounded=())
def check_group(ctx, W):
    fx = Effects(ctx)
    n, _ = input_len('n')
    err = ERRORS[ctx.choose(len(ERRORS), 'error')]('broken')
    where = ctx.choose(3, 'where')
    bad = z3.Function('unreadable', z3.IntSort(), z3.BoolSort())
    fs = Namespace(get_mapper=lambda p: Map(None, p))

    class Arr:
        def __init__(self, k):
            self.k = k

        def __getitem__(self, key):
            if not (key is Ellipsis or key == slice(None)):
                raise Unsupported('partial read')
            fx.record('read', self.k)
            if where == 2 and ctx.branch(bad(self.k)):
                raise err
            return 'data'

    class Group:
        def arrays(self, **k):
            return SymList(n, lambda k: (('name', mkint(k)), Arr(k)),
                           kind='gen')

    def open_(store, mode=None, **kw):
        ctx.prove(T(store.root == 'P' and mode == 'r'), 'opened to be read')
        if where == 1:
            raise err
        return Group()

    W.patch('storage:zarr', Namespace(open_consolidated=open_,
                                      errors=zarr.errors))
    ctx.cover('reachable')
    r = W['storage'].check_zarr_group('P', fs)
    if fx.taint and r is not False:
        fx.check()
    if where == 1:
        ctx.prove(T(r is False), 'a group that cannot be opened is invalid')
        return
    if not fx.log:
        ctx.prove(z3.And(n == 0, T(r is True)), 'every array is read')
        return
    ctx.prove(T(len(fx.log) == 1), 'read once')
    k = fx.log[0][1]
    ctx.prove(z3.Or([z3.And(i == k, m == n) for i, m in fx.reps]),
              'every array is read')
    if where == 0:
        ctx.prove(T(r is True), 'a readable group is valid')
    else:
        ctx.prove(T(r is True) == z3.Not(bad(k)),
                  'invalid iff an array cannot be decoded')


@contract(['C08', 'C21'], 'open_zarr_group: the requested stored variables '
          'and the attributes', [S + 'open_zarr_group',
                                 S + 'open_zarr_array'], bounded=(),
          assumes=('at most 3 stored variables (enumerated)', ))
def open_group(ctx, W):
    stored = [v for v in 'abc' if ctx.choose(2, v)]
    sel = (None, [], ['a'], ['a', 'b', 'zz'], ('c', 'a', 'a'))[
        ctx.choose(5, 'selected')]
    as_iter = ctx.choose(2, 'iterator') if sel is not None else 0
    delayed = bool(ctx.choose(2, 'delayed'))
    fs = Namespace(get_mapper=lambda p: Map(None, p))
    attrs = dict(title='t')

    class Group(dict):
        pass

    g = Group((v, ('array', v)) for v in stored)
    g.attrs = attrs

    def open_(store, mode=None, **kw):
        ctx.prove(T(store.root == 'P' and mode == 'r'), 'opened to be read')
        return g

    W.patch('storage:zarr', Namespace(open_consolidated=open_, Group=Group))
    built = []

    def dataset(variables, attrs=None, delayed=True, **kw):
        if kw:
            raise Unsupported('Dataset')
        built.append((list(variables), list(attrs), delayed))
        return 'DS'

    W.patch('dataset:Dataset', dataset)
    W.patch('dataset:Attribute', lambda k, v: (k, v))
    W.patch('dataset:DelayedArray.from_zarr',
            lambda a, n, d: ('lazy', a, n, d))
    W.patch('dataset:Array.from_zarr', lambda a, n, d: ('eager', a, n, d))
    ctx.cover('reachable')
    r = W['storage'].open_zarr_group(
        'P', fs, delayed=delayed,
        selected_variables=iter(sel) if as_iter else sel)
    want = [v for v in stored if sel is None or v in sel]
    kind = 'lazy' if delayed else 'eager'
    ctx.prove(T(r == 'DS' and len(built) == 1), 'one dataset')
    vs, at, dl = built[0]
    ctx.prove(T(sorted(vs) == [(kind, ('array', v), v, DIMS) for v in want]
                and dl is delayed), 'exactly the requested variables')
    ctx.prove(T(at == [('title', 't')]), 'the attributes of the group')
