"""Contracts of the listing, the access mode and the configuration."""
import io

from pydv.core import Unsupported, cur, mkbool, mkint, z3, zint
from pydv.effects import Effects, Lock, SymPath, path_is, split_path
from pydv.harness import contract
from pydv.theory import SymList, any_index, drain, exists, input_len, lift

from .cx_collection import (A, C, D, DIM, ROOT, Namespace, Scheme, T, schema)

IMM = 'root/.immutable'


class GhostFS:
    """File system with text files; every effect is recorded."""
    sep = '/'
    protocol = 'ghost'

    def __init__(self, files=()):
        self.files = dict(files)
        self.log = []

    def _strip_protocol(self, path):
        return path

    def exists(self, path, **kw):
        return path in self.files

    def makedirs(self, path, exist_ok=False):
        self.log.append(('makedirs', path))

    def mkdir(self, path, *a, **k):
        self.log.append(('mkdir', path))

    def rm(self, path, recursive=False):
        self.log.append(('rm', path))

    def invalidate_cache(self, path=None):
        pass

    def open(self, path, mode='r', **kw):
        fs = self

        class Stream(io.StringIO):

            def close(self):
                if 'w' in mode and not self.closed:
                    fs.files[path] = self.getvalue()
                    fs.log.append(('write', path))
                super().close()

        if 'w' in mode:
            return Stream()
        if path not in self.files:
            raise FileNotFoundError(path)
        return Stream(self.files[path])


def readonly(ctx, W, metadata=None, immutable=None):
    """A ReadOnlyCollection without its constructor."""
    a, d = W['collection.abc'], W['collection.detail']
    c = a.ReadOnlyCollection.__new__(a.ReadOnlyCollection)
    lock = Lock()
    fs = GhostFS()
    c._settings = a.CollectionSettings('r', fs, lock)
    c._properties = a.CollectionProperties(
        'axis', metadata, Scheme(), d.PartitioningProperties(ROOT, DIM))
    c._immutable = immutable
    return c, fs, lock


@contract('C07', 'partitions: exactly the stored partitions satisfying the '
          'predicate, in order', [A + 'ReadOnlyCollection.partitions',
                                  A + 'ReadOnlyCollection._is_selected',
                                  A + 'ReadOnlyCollection._relative_path'],
          bounded=(2, ), assumes=(
              'list_partitions lists the stored partitions in increasing '
              'order of their keys (C02)',
              'parse gives the keys of a name (C02)'))
def partitions(ctx, W):
    c, fs, lock = readonly(ctx, W, immutable=IMM if ctx.choose(
        2, 'immutable') else None)
    n, maxn = input_len('n')
    locked = bool(ctx.choose(2, 'lock'))
    relative = bool(ctx.choose(2, 'relative'))
    cached = bool(ctx.choose(2, 'cache'))
    kind = ctx.choose(3, 'filter')
    sat = z3.Function('satisfies', z3.IntSort(), z3.BoolSort())
    held = []

    def stored(*a):
        held.append(lock.depth > 0)
        return SymList(n, lambda k: SymPath.make(ROOT, k), maxn, kind='gen')

    def listing(given, path, *a, **k):
        ctx.prove(T(given is fs and path == ROOT and not cached),
                  'the base directory is listed')
        return stored()

    def parse(text):
        k = split_path(text)[1]
        if k is None:
            raise ValueError(text)
        return (('key', mkint(k)), )

    def predicate(keys):
        ctx.prove(T(isinstance(keys, dict) and list(keys) == ['key']),
                  'the predicate receives the keys')
        return mkbool(sat(zint(keys['key'])))

    c._properties.partition_strategy.list_partitions = listing
    c._properties.partition_strategy.parse = parse
    texts = []

    def expression(text):
        texts.append(text)
        return predicate

    W.patch('expression:Expression', expression)
    W.patch('collection.abc:pathlib', Namespace(Path=lambda p: Namespace(
        relative_to=lambda base: Namespace(as_posix=lambda: p[len(
            str(base)) + 1:] if p.startswith(str(base) + '/') else None))))
    f = (None, predicate, 'TEXT')[kind]
    ctx.cover('reachable')
    r = lift(drain(c.partitions(cache=stored() if cached else None,
                                lock=locked, filters=f, relative=relative)))
    ctx.prove(T(lock.depth == 0 and fs.log == []),
              'nothing changes and the lock is released')
    ctx.prove(T(kind != 2 or texts == ['TEXT']), 'the expression is used')
    if locked and not cached:
        ctx.prove(T(all(held)), 'listed under the lock')

    def sel(k):
        return sat(k) if kind else z3.BoolVal(True)

    def index(p):
        base, k, tail = split_path(p)
        ctx.prove(T(k is not None and tail == '' and base == (
            '' if relative else 'root/')), 'relative or full names')
        return k

    what = ctx.choose(3, 'goal')
    if what == 0:
        q = ctx.int('q')
        ctx.assume(z3.And(0 <= q, q < n, sel(q)))
        ctx.instantiate(q)
        ctx.prove(exists(r.n, r.maxn, lambda j: split_path(r.at(j))[1] == q),
                  'every partition satisfying the predicate is listed')
        return
    if what == 1:
        i = any_index(r.n, r.maxn, 'i')
        a = index(r.at(i))
        ctx.instantiate(a)
        ctx.prove(z3.And(0 <= a, a < n, sel(a)),
                  'only partitions satisfying the predicate')
        return
    i, j = ctx.int('i'), ctx.int('j')
    ctx.assume(z3.And(0 <= i, i < j, j < r.n))
    a, b = index(r.at(i)), index(r.at(j))
    ctx.instantiate(i, j, a, b)
    ctx.prove(a < b, 'in increasing order, without duplicates')


class Md:
    """Metadata: axis and key have the partitioning dimension."""

    def __init__(self, names=('axis', 'key')):
        self.variables = {n: Namespace(dimensions=(DIM, )) for n in names}

    def select_variables_by_dims(self, dims, predicate=True):
        return {}

    def get_config(self):
        return dict(md=1)


MODIFIERS = ('insert', 'update', 'add_variable', 'drop_variable',
             'drop_partitions')


@contract('C11', 'a collection opened read-only refuses every modification', [
    C + 'Collection.__init__', C + 'Collection._read_only_mode',
    C + 'Collection._unsupported_operation',
    A + 'ReadOnlyCollection.__init__'], bounded=())
def read_only(ctx, W):
    fs = GhostFS(files=(('root/.zcollection', 'OLD'), ) if ctx.choose(
        2, 'exists') else ())
    before = dict(fs.files)
    lock = Lock()
    ctx.cover('reachable')
    c = W['collection'].Collection('axis', Md(), Scheme(), 'root', mode='r',
                                   filesystem=fs, synchronizer=lock)
    name = MODIFIERS[ctx.choose(len(MODIFIERS), 'method')]
    args = ((), (1, ), (1, 2))[ctx.choose(3, 'arguments')]
    kw = ({}, dict(filters='a == 1'))[ctx.choose(2, 'keywords')]
    ctx.prove(T(c.is_readonly() and c.mode == 'r'), 'reported as read-only')
    try:
        getattr(c, name)(*args, **kw)
    except Exception as e:
        ctx.prove(T(isinstance(e, io.UnsupportedOperation)), 'not writable')
    else:
        ctx.fail('the modification is refused')
    try:
        c.validate_partitions(fix=True)
    except Exception as e:
        ctx.prove(T(isinstance(e, io.UnsupportedOperation)), 'not writable')
    else:
        ctx.fail('the repair is refused')
    ctx.prove(T(fs.log == [] and fs.files == before and lock.entered == 0),
              'nothing is written')


@contract('C11', 'only the write mode creates the configuration; another mode '
          'is refused', [C + 'Collection.__init__',
                         C + 'Collection._write_config',
                         A + 'CollectionSettings.__post_init__'], bounded=())
def modes(ctx, W):
    import json
    exists_ = bool(ctx.choose(2, 'exists'))
    fs = GhostFS(files=(('root/.zcollection', 'OLD'), ) if exists_ else ())
    mode = (None, 'w', 'r', 'a', 'rw', '')[ctx.choose(6, 'mode')]
    s = Scheme()
    s.get_config = lambda: dict(id='S')
    ctx.cover('reachable')
    try:
        c = W['collection'].Collection('axis', Md(), s, 'root', mode=mode,
                                       filesystem=fs)
    except ValueError:
        ctx.prove(T(mode in ('a', 'rw') and fs.log == []),
                  'only an unknown mode is refused')
        return
    ctx.prove(T(mode not in ('a', 'rw')), 'an unknown mode is refused')
    if mode == 'r' or exists_:
        ctx.prove(T(fs.log == [] and len(fs.files) == exists_),
                  'nothing is written')
        return
    if c.mode == 'w':
        ctx.prove(T(list(fs.files) == ['root/.zcollection'] and json.loads(
            fs.files['root/.zcollection']) == dict(
                axis='axis', dataset=dict(md=1), partitioning=dict(id='S'))),
            'the configuration is created')
        ctx.prove(T(sorted(fs.log) == [('makedirs', 'root'),
                                       ('write', 'root/.zcollection')]),
                  'and nothing else')


@contract('C11', 'the constructor refuses unknown variables', [
    A + 'ReadOnlyCollection.__init__'], bounded=())
def unknown_variables(ctx, W):
    fs = GhostFS()
    axis = ('axis', 'zz')[ctx.choose(2, 'axis')]
    key = ('key', 'yy')[ctx.choose(2, 'key')]
    s = Scheme((key, ))
    s.get_config = lambda: dict()
    ctx.cover('reachable')
    try:
        W['collection'].Collection(axis, Md(), s, 'root', mode='w',
                                   filesystem=fs)
    except ValueError:
        ctx.prove(T((axis, key) != ('axis', 'key') and not fs.log),
                  'refused only if unknown, nothing written')
        return
    ctx.prove(T((axis, key) == ('axis', 'key')), 'unknown names are refused')


@contract(['C11', 'C13'], 'from_config: opens what was written, read-only by '
          'default', [C + 'Collection.from_config'], bounded=())
def from_config(ctx, W):
    import json
    present = bool(ctx.choose(2, 'exists'))
    cfg = dict(axis='axis', dataset=dict(d=1), partitioning=dict(p=1))
    fs = GhostFS(files=(('root/.zcollection', json.dumps(cfg)), ) if present
                 else ())
    mode = (None, 'r', 'w')[ctx.choose(3, 'mode')]
    sync = Lock()
    m = W['collection']
    W.patch('meta:Dataset.from_config', lambda d: Md() if d == dict(d=1)
            else None)
    s = Scheme()
    s.get_config = lambda: dict(p=1)
    W.patch('partitioning:get_codecs', lambda d: s if d == dict(p=1)
            else None)
    ctx.cover('reachable')
    try:
        c = m.Collection.from_config('root', mode=mode, filesystem=fs,
                                     synchronizer=sync)
    except ValueError:
        ctx.prove(T(not present), 'refused only if not a collection')
        return
    ctx.prove(T(present), 'what is not a collection is refused')
    ctx.prove(T(c.mode == (mode or 'r')), 'read-only by default')
    ctx.prove(T(c.axis == 'axis' and c.partitioning is s and
                c.synchronizer is sync and c.fs is fs and
                isinstance(c.metadata, Md) and
                c.partition_properties.dir == ROOT and
                c.partition_properties.dim == DIM), 'as written')
    ctx.prove(T(fs.log == []), 'opening writes nothing')
    ctx.prove(T(c.is_readonly() == (c.mode == 'r')), 'mode')


@contract('C12', '_write_config: the configuration is replaced by the current '
          'one', [C + 'Collection._write_config'], bounded=())
def write_config(ctx, W):
    import json
    md, _ = schema(ctx, W)
    fs = GhostFS(files=(('root/.zcollection', 'OLD'), ) if ctx.choose(
        2, 'exists') else ())
    m, a, d = W['collection'], W['collection.abc'], W['collection.detail']
    c = m.Collection.__new__(m.Collection)
    c._settings = a.CollectionSettings('w', fs, Lock())
    s = Scheme()
    s.get_config = lambda: dict(p=1)
    c._properties = a.CollectionProperties(
        'axis', md, s, d.PartitioningProperties(ROOT, DIM))
    ctx.cover('reachable')
    c._write_config()
    got = fs.files['root/.zcollection']
    if got == 'OLD':
        ctx.fail('written')
    got = json.loads(got)
    want = json.loads(json.dumps(md.get_config()))
    ctx.prove(T(got == dict(axis='axis', dataset=want,
                            partitioning=dict(p=1)) and list(
                                fs.files) == ['root/.zcollection']),
              'written')


@contract('C08', 'build_indexer_args: the ranges of the selected indexed '
          'partitions, by increasing key', [
              A + 'build_indexer_args', A + 'list_partitions_from_indexer'],
          unbounded=False, bounded=(3, ))
def indexer_args(ctx, W):
    m = W['collection.abc']
    ctx.size = None
    keys = [(('y', 2000 + i), ) for i in range(3)]
    nseq = ctx.choose(4, 'entries')
    entries = [(keys[ctx.choose(3, f'key{i}')], slice(i, i + 1))
               for i in range(nseq)]
    selected = [k for i, k in enumerate(keys) if ctx.choose(2, f'sel{i}')]
    given = ctx.choose(2, 'given')
    f = object()
    paths = [f'root/{k[0][1]}' for k in selected]
    col = Namespace(
        partitioning=Namespace(parse=lambda p: (('y', int(p[5:])), )),
        partitions=lambda filters=None: iter(paths) if filters is f else
        iter(()))
    ctx.cover('reachable')
    r = list(m.build_indexer_args(col, f, entries, partitions=iter(paths)
                                  if given else None))
    want = [(k, [s for q, s in entries if q == k]) for k in keys
            if k in selected and any(q == k for q, _ in entries)]
    ctx.prove(T(r == want), 'exactly the ranges of each selected partition')
    names = list(m.list_partitions_from_indexer(
        entries, Namespace(join=lambda k, sep: str(k[0][1])), 'root', '/'))
    ctx.prove(T(names == [f'root/{k[0][1]}' for k in keys
                          if any(q == k for q, _ in entries)]),
              'the indexed partitions, by increasing key')
