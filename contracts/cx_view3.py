"""Contracts of the creation, description and reopening of a view."""
import operator
import warnings

from pydv import world as worldmod
from pydv.core import SimulatedFault
from pydv.effects import Lock
from pydv.harness import contract

from .cx_collection import Namespace
from .cx_listing import GhostFS
from .cx_view import D, T, V

FILTERS = (None, 'a == 1', operator.itemgetter('a'), lambda keys: True)


class RefFS(GhostFS):
    """File system of the reference, found again from its description."""

    def __init__(self, text):
        super().__init__()
        self.text = text

    def to_json(self, **kw):
        return self.text


def setup(ctx, W, fs, ref_fs):
    """The reference opens if asked at its path on its file system."""
    opened = []
    meta = W['meta']
    ref_meta = meta.Dataset(('num', 'x'), [meta.Variable('a', 'i4', dimensions=('num', ))])

    def from_config(path, *, mode=None, filesystem=None, synchronizer=None):
        opened.append((path, mode or 'r', filesystem))
        return Namespace(
            fs=filesystem, axis='time', metadata=ref_meta,
            partition_properties=W['collection.detail'].PartitioningProperties(
                path, 'num'))

    W.patch('collection:Collection.from_config', staticmethod(from_config))
    import fsspec
    W.patch('view:fsspec', Namespace(
        filesystem=fsspec.filesystem, AbstractFileSystem=Namespace(
            from_json=lambda text, **kw: {
                f.text: f for f in ref_fs}[canonical(text)])))
    started = []
    W.patch('view:View._init_partitions',
            lambda self, filters: started.append((self, filters)))
    return opened, started, ref_meta


def canonical(text):
    import json
    return json.dumps(json.loads(text))


def plain(**kw):
    return worldmod.World(facades={})


@contract(['C13', 'C14'], 'View: created once, with the description from which '
          'it reopens the same; opening writes nothing',
          [V + 'View.__init__', V + 'View._write_config', V + 'View._config',
           V + 'View.from_config', D + '_serialize_filters',
           D + '_deserialize_filters'], world=plain, bounded=(), assumes=(
               'pickle, base64 and json decode what they encode',
               'meta.Dataset round trip (its contract)',
               'Collection.from_config opens the collection at a path (its '
               'contract)'))
def view_config(ctx, W):
    fs = GhostFS()
    refs = [RefFS(f'{{"fs": {k}}}') for k in range(2)]
    ref_fs = refs[ctx.choose(2, 'reference file system')]
    path = ('ref', 'other/ref')[ctx.choose(2, 'reference path')]
    opened, started, ref_meta = setup(ctx, W, fs, refs)
    view, meta = W['view'], W['meta']
    filters = FILTERS[ctx.choose(len(FILTERS), 'filters')]
    own = ctx.choose(3, 'variables')
    ds = (None, meta.Dataset(('num', 'x'), []))[ctx.choose(2, 'ds')]
    if own and ds is None:
        ds = meta.Dataset(('num', 'x'), [], attrs=[meta.Attribute('z', 1)])
    for k in range(own):
        ds.variables[f'v{k}'] = meta.Variable(
            f'v{k}', 'f8', dimensions=(('num', ), ('num', 'x'))[k], fill_value=-1.5,
            attrs=(meta.Attribute('u', 'm'), ))
    lock = Lock() if ctx.choose(2, 'lock') else None
    ctx.cover('reachable')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = view.View('base', view.ViewReference(path, ref_fs), ds=ds,
                      filesystem=fs, filters=filters, synchronizer=lock)
    ctx.prove(T(opened == [(path, 'r', ref_fs)]),
              'the reference is opened read-only')
    ctx.prove(T(ref_fs.log == []), 'nothing is written to the reference')
    ctx.prove(T(v.fs is fs and v.base_dir == 'base' and v.filters is filters
                and (lock is None or v.synchronizer is lock)), 'as asked')
    ctx.prove(T(list(fs.files) == ['base/.view'] and all(
        x in (('makedirs', 'base'), ('write', 'base/.view'))
        for x in fs.log) and ('makedirs', 'base') in fs.log),
        'only the description of the view is written')
    ctx.prove(T(started == [(v, filters)]),
              'the selected partitions are recorded')
    if ds is None:
        ctx.prove(T(not v.metadata.variables and tuple(
            v.metadata.dimensions) == ('num', 'x')), 'no variable yet')
    else:
        ctx.prove(T(v.metadata is ds or v.metadata == ds), 'the given variables')
    kept = filters if filters is not FILTERS[3] else None

    del opened[:], started[:], fs.log[:]
    fs.files['base'] = ''
    lock2 = Lock() if ctx.choose(2, 'second lock') else None
    o = view.View.from_config('base', filesystem=fs, synchronizer=lock2)
    ctx.prove(T(opened == [(path, 'r', ref_fs)]),
              'the same reference, read-only')
    ctx.prove(T(fs.log == [] and ref_fs.log == [] and started == []),
              'opening writes nothing')
    ctx.prove(T(o.fs is fs and o.base_dir == 'base' and (
        lock2 is None or o.synchronizer is lock2)), 'as asked')
    ctx.prove(T(o.filters == kept or repr(o.filters) == repr(kept)),
              'the same filters')
    ctx.prove(T(o.metadata.get_config() == v.metadata.get_config()),
              'the same variables and attributes')


@contract('C13', 'View.from_config: what is not a view is refused',
          [V + 'View.from_config'], world=plain, bounded=())
def not_a_view(ctx, W):
    fs = GhostFS(files=((('base', ''), ), (('base/.zcollection', '{}'), ),
                        ())[ctx.choose(3, 'files')])
    opened, started, _ = setup(ctx, W, fs, [])
    ctx.cover('reachable')
    try:
        W['view'].View.from_config('base', filesystem=fs)
    except ValueError:
        ctx.prove(T(fs.log == [] and not opened and not started),
                  'nothing is done')
    else:
        ctx.fail('refused')


@contract('C14', 'convenience: a view is created only where nothing is',
          ['zcollection/convenience/view.py:create_view',
           'zcollection/convenience/view.py:open_view'], world=plain,
          bounded=())
def create(ctx, W):
    there = bool(ctx.choose(2, 'exists'))
    fs = GhostFS(files=(('base', ''), ) if there else ())
    calls = []
    m = W['convenience.view']

    def init(self, *a, **k):
        calls.append((a, k))

    W.patch('view:View.__init__', init)
    ref, lock, flt = object(), Lock(), 'a == 1'
    ctx.cover('reachable')
    try:
        m.create_view('base', ref, filesystem=fs, filters=flt,
                      synchronizer=lock)
    except ValueError:
        ctx.prove(T(there and not calls and fs.log == []),
                  'refused only if it exists')
        return
    ctx.prove(T(not there), 'an existing path is refused')
    ctx.prove(T(len(calls) == 1 and calls[0][0][:2] == ('base', ref) and
                calls[0][1].get('ds') is None and
                calls[0][1]['filesystem'] is fs and
                calls[0][1]['filters'] is flt and
                calls[0][1]['synchronizer'] is lock), 'created as asked')


@contract(['C14', 'C12'], '_drop_zarr_zarr: exactly the array of this '
          'partition is removed', [D + '_drop_zarr_zarr'], world=plain,
          bounded=())
def drop_array(ctx, W):
    fails = bool(ctx.choose(2, 'fails'))
    ignore = bool(ctx.choose(2, 'ignore'))
    log = []

    class FS:
        sep = '/'

        def rm(self, path, recursive=False, **kw):
            log.append((path, recursive))
            if fails:
                raise SimulatedFault('rm')

        def invalidate_cache(self, path=None):
            pass

    ctx.cover('reachable')
    try:
        W['view.detail']._drop_zarr_zarr('view/a=1', FS(), 'v',
                                         ignore_errors=ignore)
    except SimulatedFault:
        ctx.prove(T(fails and not ignore), 'the error reaches the caller')
    else:
        ctx.prove(T(not fails or ignore), 'an error is not hidden')
    ctx.prove(T(log == [('view/a=1/v', True)]), 'only this array is removed')
