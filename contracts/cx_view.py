"""Contracts of the views on a collection: storage of one partition."""
import json

from pydv.core import Crash, SimulatedFault, Unsupported, cur, mkbool, mkint, \
    z3, zint
from pydv.ghostzarr import GhostZarr, Map, Namespace, ZArray, ZFS
from pydv.harness import contract
from pydv.theory import SymArr, any_index, exists, forall, input_array, \
    input_len, veq

V = 'zcollection/view/__init__.py:'
D = 'zcollection/view/detail.py:'
REF, VIEW, PART = 'ref', 'view', 'year=2000/month=01'
AXIS, DIM = 'time', 'num'
DIMS = '_ARRAY_DIMENSIONS'


def T(x):
    return z3.BoolVal(bool(x))


# -- checksums -------------------------------------------------------------
class Sum:
    """Checksum of the values of an array: equal when the values are.

    Assumed: SHA-256 has no collision."""

    def __init__(self, arr):
        self.arr = arr

    def same(self, o):
        a, b = self.arr, o.arr
        if a is b:
            return z3.BoolVal(True)
        return z3.And(a.n == b.n, forall(
            a.n, a.maxn, lambda k: veq(a.at(k), b.at(k))))

    def __eq__(self, o):
        if not isinstance(o, Sum):
            return False
        ctx = cur()
        if self.arr is o.arr:
            return True
        key = (id(self.arr), id(o.arr))
        table = ctx.ghost.setdefault('sums', {})
        if key not in table:
            a, b = self.arr, o.arr
            if ctx.choose(2, 'checksums differ'):
                table[key] = False
                if ctx.branch(a.n == b.n):
                    k = ctx.int('diff')
                    ctx.assume(z3.And(0 <= k, k < a.n, z3.Not(
                        veq(a.at(k), b.at(k)))))
                    ctx.instantiate(k)
            else:
                table[key] = True
                ctx.assume(self.same(o))
        return table[key]

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Bytes:

    def __init__(self, arr):
        self.arr = arr


class Axis(SymArr):
    """Values of the axis of a partition."""

    def new(self, *a, **k):
        r = super().new(*a, **k)
        return Axis(r.n, r.f, r.maxn, dtype=r.dtype) if r.ncol is None else r

    def tobytes(self, *a, **k):
        return Bytes(self)


def axis(name, n, maxn):
    a = input_array(name, n, maxn)
    return Axis(a.n, a.f, a.maxn, dtype=a.dtype)


def sha256(data=None):
    if not isinstance(data, Bytes):
        raise Unsupported('sha256')
    return Namespace(hexdigest=lambda: Sum(data.arr))


# -- stores ----------------------------------------------------------------
class Frozen(ZFS):
    """File system of the reference: nothing may be changed."""

    def event(self, what):
        cur().fail(f'the reference collection is not modified ({what})')

    def makedirs(self, path, **kw):
        self.event(f'makedirs {path}')

    makedir = mkdir = mv = move = touch = makedirs


class Attrs:

    def __init__(self, fs, path):
        self.fs, self.path = fs, path

    def _get(self):
        t = self.fs.files.get(self.path + '/.zattrs', {})
        return json.loads(t) if isinstance(t, str) else t

    def __getitem__(self, k):
        return self._get()[k]

    def __contains__(self, k):
        return k in self._get()

    def get(self, k, default=None):
        return self._get().get(k, default)

    def asdict(self):
        return dict(self._get())

    def __setitem__(self, k, v):
        self.fs.put(self.path + '/.zattrs', {**self._get(), k: v})

    def update(self, *a, **kw):
        self.fs.put(self.path + '/.zattrs', {**self._get(),
                                             **dict(*a, **kw)})

    put = update


class VArray(ZArray):
    """Array of the view or of the reference."""

    def __init__(self, fs, path):
        super().__init__(fs, path)
        d = fs.files[path + '/.zarray']
        self.chunks = d['chunks']

    @property
    def attrs(self):
        return Attrs(self.fs, self.path)

    @property
    def ndim(self):
        return len(self.shape)

    def resize(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (list, tuple)):
            shape = shape[0]
        shape = tuple(shape)
        if len(shape) != len(self.shape):
            raise ValueError('rank')
        d = dict(self.fs.files[self.path + '/.zarray'])
        ctx = cur()
        for a, b in zip(self.shape, shape):
            if ctx.branch(zint(b) < zint(a)):
                self.fs.files.pop(self.path + '/data', None)
        d['shape'] = self.shape = shape
        self.fs.put(self.path + '/.zarray', d)

    def append(self, *a, **k):
        raise Unsupported('append')

    def __setitem__(self, key, value):
        if not isinstance(value, SymArr):
            raise Unsupported('value')
        if len(self.shape) != 1 or cur().branch(
                zint(self.shape[0]) != value.n):
            raise ValueError('could not broadcast')
        super().__setitem__(key, value)

    def __getitem__(self, key):
        if not (key is Ellipsis or key == slice(None)):
            raise Unsupported('partial reading')
        v = self.fs.files.get(self.path + '/data')
        if v is None:
            raise Unsupported('values of an array never written')
        return v


class Group:
    """Consolidated group of the reference."""

    def __init__(self, fs, root):
        self.fs, self.root = fs, root

    def __getitem__(self, name):
        if f'{self.root}/{name}/.zarray' not in self.fs.files:
            raise KeyError(name)
        return VArray(self.fs, f'{self.root}/{name}')

    def __contains__(self, name):
        return f'{self.root}/{name}/.zarray' in self.fs.files


class VZarr(GhostZarr):
    Array = VArray
    Group = Group

    @staticmethod
    def create(shape, **kw):
        if not isinstance(shape, (tuple, list)):
            shape = (shape, )
        GhostZarr.create(tuple(shape), **kw)
        store = kw['store']
        path = kw.get('path')
        return VArray(store.fs, store.root if path is None else
                      f'{store.root}/{path}')

    @staticmethod
    def full(shape, fill_value=0, **kw):
        return VZarr.create(shape, fill_value=fill_value, **kw)

    @staticmethod
    def open_array(store, mode='a', **kw):
        GhostZarr.open_array(store, mode=mode, **kw)
        return VArray(store.fs, store.root)

    open = open_array

    @staticmethod
    def open_consolidated(store, metadata_key='.zmetadata', mode='r+', **kw):
        if store.root + '/.zgroup' not in store.fs.files:
            raise KeyError('.zmetadata')
        return Group(store.fs, store.root)


class VFS(ZFS):

    def listdir(self, path, detail=True, **kw):
        names = sorted({p[len(path) + 1:].split('/')[0]
                        for p in self.files if p.startswith(path + '/')})
        if not names:
            raise FileNotFoundError(path)
        if not detail:
            return [f'{path}/{n}' for n in names]
        return [dict(name=f'{path}/{n}', type='file' if f'{path}/{n}' in
                     self.files else 'directory') for n in names]

    ls = listdir

    def makedirs(self, path, exist_ok=False):
        pass


class Chunked:

    def __init__(self, a):
        self.shape, self.chunksize, self.ndim = a.shape, a.chunks, a.ndim
        self.dtype = a.dtype


def meta_variables(W):
    """Variables of the reference and of the view."""
    m = W['meta']
    import numpy
    f8 = numpy.dtype('float64')
    att = (m.Attribute('units', 'K'), )
    var = lambda name, dtype, dims, **kw: m.Variable(
        name, dtype, dimensions=dims, **kw)
    ref = [var(AXIS, numpy.dtype('int64'), (DIM, )),
           var('a2', f8, (DIM, 'x'), fill_value=0.5),
           var('a3', f8, ('x', DIM)),
           var('fix', f8, ('x', ))]
    own = [var('v1', numpy.dtype('int16'), (DIM, ), attrs=att,
               compressor='COMPRESSOR', fill_value=-3, filters=('FILTER', )),
           var('v2', f8, ('x', DIM), fill_value=7.5)]
    return ref, own


def stores(ctx, W, n, rows, faults=0):
    """Reference partition with n rows and file system of the view."""
    W.patch('view.detail:zarr', VZarr())
    W.patch('view.detail:hashlib', Namespace(sha256=sha256))
    W.patch('view.detail:dask', Namespace(array=Namespace(core=Namespace(
        from_zarr=Chunked))))
    ref = Frozen()
    x = ctx.int('x')
    ctx.assume(x >= 1)
    sizes = {DIM: mkint(n), 'x': mkint(x)}
    mref, mown = meta_variables(W)
    root = f'{REF}/{PART}'
    ref.files[root + '/.zgroup'] = '{}'
    for v in mref:
        ref.files[f'{root}/{v.name}/.zarray'] = dict(
            shape=tuple(sizes[d] for d in v.dimensions),
            chunks=tuple(f'chunk of {v.name} {d}' for d in v.dimensions),
            dtype=v.dtype, compressor=None, fill_value=None, filters=())
        ref.files[f'{root}/{v.name}/.zattrs'] = {
            DIMS: list(v.dimensions)}
    ref.files[f'{root}/{AXIS}/data'] = rows
    fs = VFS(faults=faults)
    m = W['meta']
    d = W['collection.detail']
    view_ref = Namespace(
        fs=ref, axis=AXIS, partition_properties=d.PartitioningProperties(
            REF, DIM), metadata=m.Dataset((DIM, 'x'), mref))
    nown = ctx.choose(3, 'variables of the view')
    metadata = m.Dataset((DIM, 'x'), mown[:nown])
    return fs, view_ref, metadata, sizes


def old_state(fs, metadata, sizes, m, rows):
    """A partition of the view built from a previous axis of m values."""
    root = f'{VIEW}/{PART}'
    sizes = {**sizes, DIM: mkint(m)}
    for v in metadata.variables.values():
        fs.files[f'{root}/{v.name}/.zarray'] = dict(
            shape=tuple(sizes[d] for d in v.dimensions), chunks='OLD',
            dtype=v.dtype, compressor=None, fill_value=v.fill_value,
            filters=())
        fs.files[f'{root}/{v.name}/.zattrs'] = json.dumps(
            {DIMS: list(v.dimensions)})
        fs.files[f'{root}/{v.name}/data'] = ('values', v.name)
    fs.files[f'{root}/.checksum/.zarray'] = dict(
        shape=(mkint(m), ), chunks=True, dtype=rows.dtype,
        compressor='default', fill_value=0, filters=None)
    fs.files[f'{root}/.checksum/.zattrs'] = {DIMS: DIM,
                                             'checksum': Sum(rows)}
    fs.files[f'{root}/.checksum/data'] = rows


def same_shape(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    return z3.And([zint(p) == zint(q) for p, q in zip(a, b)] +
                  [z3.BoolVal(True)])


def shapes(fs, metadata, sizes):
    """Every variable of the view has the shape of the reference data."""
    root = f'{VIEW}/{PART}'
    out = [z3.BoolVal(True)]
    for v in metadata.variables.values():
        z = fs.files.get(f'{root}/{v.name}/.zarray')
        out.append(z3.BoolVal(False) if z is None else same_shape(
            z['shape'], tuple(sizes[d] for d in v.dimensions)))
    return z3.And(out)


def recorded(fs):
    a = fs.files.get(f'{VIEW}/{PART}/.checksum/.zattrs')
    return None if a is None else Attrs(
        fs, f'{VIEW}/{PART}/.checksum').get('checksum')


def is_fresh(ctx, fs, metadata, sizes, rows):
    """The partition was just created."""
    root = f'{VIEW}/{PART}'
    names = {p.split('/')[0] for p in fs.tree(root)}
    ctx.prove(T(names <= {*metadata.variables, '.checksum'}),
              'nothing else is stored in the partition')
    ctx.prove(shapes(fs, metadata, sizes),
              'every variable has the shape of the reference data')
    for v in metadata.variables.values():
        z = fs.files[f'{root}/{v.name}/.zarray']
        ctx.prove(T(f'{root}/{v.name}/data' not in fs.files and
                    z['fill_value'] == v.fill_value),
                  'its values are the fill value')
        ctx.prove(T(z['dtype'] == v.dtype and z['compressor'] ==
                    v.compressor and tuple(z['filters'] or ()) ==
                    tuple(v.filters)),
                  'it is stored as described by the view')
        ctx.prove(T(list(Attrs(fs, f'{root}/{v.name}').get(DIMS, ())) ==
                    list(v.dimensions)), 'with its dimensions')


def equals(a, b):
    """a and b hold the same values (to be proved)."""
    if a is b:
        return z3.BoolVal(True)
    ctx = cur()
    k = ctx.int('at')
    ctx.instantiate(k)
    return z3.And(a.n == b.n, z3.Implies(z3.And(0 <= k, k < a.n),
                                         veq(a.at(k), b.at(k))))


def is_recorded(ctx, fs, n, rows):
    root = f'{VIEW}/{PART}/.checksum'
    s = recorded(fs)
    data = fs.files.get(root + '/data')
    z = fs.files.get(root + '/.zarray')
    ctx.prove(z3.And(T(isinstance(s, Sum) and isinstance(data, SymArr)),
                     equals(s.arr, rows), equals(data, rows)),
              'the axis of the reference and its checksum are recorded')
    ctx.prove(same_shape(z['shape'], (mkint(n), )),
              'the recorded axis has its size')


ASSUMES = ('SHA-256 has no collision',
           'zarr keeps the values of an array enlarged by resize and gives '
           'the fill value elsewhere',
           'at most two variables in the view, over one and two dimensions, '
           'any sizes')
FUNCS = [D + f for f in (
    '_sync', '_sync_partition', '_extend_partition', '_create_zarr_array',
    '_calculate_axis_reference', '_write_checksum', '_write_checksum_array',
    '_load_checksum_array')] + ['zcollection/storage.py:write_zattrs',
                                'zcollection/meta.py:'
                                'Dataset.search_same_dimensions_as']


@contract(['C15', 'C14'], '_sync: an absent partition is created, an '
          'unchanged one is kept, an extended one is enlarged, another one is '
          'created again; a dry run only tells', FUNCS, bounded=(),
          assumes=ASSUMES)
def sync(ctx, W):
    n, maxn = input_len('n')
    m, _ = input_len('m')
    rows = axis('reference', n, maxn)
    old = axis('recorded', m, maxn)
    fs, view_ref, metadata, sizes = stores(ctx, W, n, rows)
    present = ctx.choose(2, 'the partition exists')
    dry = bool(ctx.choose(2, 'dry run'))
    if present:
        old_state(fs, metadata, sizes, m, old)
    before = dict(fs.files)
    f = W['view.detail']._sync
    args = dict(base_dir=VIEW, fs=fs, view_ref=view_ref, metadata=metadata,
                dry_run=dry)
    ctx.cover('reachable')
    try:
        r = f(PART, **args)
    except Exception as e:
        ctx.fail(f'no error ({type(e).__name__})')
        return
    ctx.prove(T(r is None or r == PART), 'the name of the partition or None')
    ctx.prove(T(all(p.startswith(f'{VIEW}/{PART}/') for p in
                    set(before) ^ set(fs.files))),
              'what is stored is in the partition of the view')
    if not present:
        ctx.prove(T(r == PART), 'an absent partition is reported')
    else:
        same = Sum(rows).same(Sum(old))
        k = ctx.int('q')
        ctx.instantiate(k)
        if r is None:
            ctx.prove(z3.And(n == m, z3.Implies(z3.And(0 <= k, k < n), veq(
                rows.at(k), old.at(k)))),
                'an unchanged axis is not reported')
        else:
            ctx.prove(T(Sum(rows) != Sum(old)),
                      'only a changed axis is reported')
    if dry or r is None:
        ctx.prove(T(fs.files == before and not fs.log),
                  'nothing is changed')
        return
    is_recorded(ctx, fs, n, rows)
    kept = present and bool(metadata.variables) and all(
        f'{VIEW}/{PART}/{v}/data' in fs.files for v in metadata.variables)
    if present and metadata.variables:
        j = ctx.int('j')
        ctx.instantiate(j)
        prefix = z3.Implies(z3.And(0 <= j, j < m), veq(rows.at(j), old.at(j)))
        if kept:
            ctx.prove(z3.And(m < n, prefix),
                      'values are kept only if the axis is extended')
        else:
            ctx.assume(forall(m, maxn, lambda q: veq(rows.at(q), old.at(q))))
            ctx.prove(z3.Not(m < n), 'values are kept if it is')
    if kept:
        ctx.prove(shapes(fs, metadata, sizes),
                  'every variable has the shape of the reference data')
        ctx.prove(T(all(fs.files[f'{VIEW}/{PART}/{v}/data'] == ('values', v)
                        for v in metadata.variables)), 'its values are kept')
        return
    if present and not metadata.variables:
        return
    is_fresh(ctx, fs, metadata, sizes, rows)


@contract(['C15', 'C14'], '_sync: an interrupted synchronization is never '
          'taken for a complete one', FUNCS, bounded=(), assumes=ASSUMES + (
              'one failing or last operation', ))
def sync_faults(ctx, W):
    n, maxn = input_len('n')
    m, _ = input_len('m')
    rows = axis('reference', n, maxn)
    old = axis('recorded', m, maxn)
    fs, view_ref, metadata, sizes = stores(ctx, W, n, rows, faults=1)
    if ctx.choose(2, 'the partition exists'):
        old_state(fs, metadata, sizes, m, old)
    f = W['view.detail']._sync
    ctx.cover('reachable')
    error = None
    try:
        f(PART, base_dir=VIEW, fs=fs, view_ref=view_ref, metadata=metadata)
    except Exception as e:
        error = e
    except Crash:
        error = 'crash'
    if fs.fault is None:
        return
    s = recorded(fs)
    if s is not None and s == Sum(rows):
        ctx.prove(shapes(fs, metadata, sizes),
                  'a recorded checksum implies complete variables')
    ctx.prove(T(error is not None), 'the error reaches the caller')
