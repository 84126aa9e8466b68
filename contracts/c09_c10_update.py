"""Contracts of the functions that apply an update and store its result."""
from pydv.core import SymInt, Unsupported, cur, mkint, z3, zint
from pydv.harness import contract
from pydv.theory import SymList, input_len
from pydv.world import LoopSpec

CD = 'zcollection/collection/detail.py:'
VD = 'zcollection/view/detail.py:'
DIM = 'num'
P = ['C09', 'C10']


def T(x):
    return z3.BoolVal(bool(x))


class UserError(Exception):
    pass


class Result:
    """Array returned by the user's function."""

    def __init__(self, name):
        self.name = name

    def __getitem__(self, i):
        return ('part', self.name, i)


class Var:

    def __init__(self, dims):
        self.dimensions = dims


class Zds:
    """Dataset given to the function; v<k> has the k-th dimensions."""

    def __init__(self, tag, shapes=None):
        self.tag = tag
        self.shapes = shapes or {}

    def __getitem__(self, name):
        return Var(self.shapes[name])

    variables = property(lambda self: self)

    def __eq__(self, o):
        return isinstance(o, Zds) and T2(self.tag, o.tag)

    __hash__ = None


def T2(a, b):
    ia, ib = zint(a), zint(b)
    if ia is not None and ib is not None:
        return z3.is_true(z3.simplify(ia == ib))
    return a == b


def same(a, b):
    """Equality of recorded values."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, slice) and isinstance(b, slice):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return T2(a, b) is True or a is b


def join(*args):
    return ('path', ) + args


def recorder(log):

    def update(dirname, array, fs):
        log.append((dirname, array, fs))

    return update


def nresults(ctx):
    return ctx.choose(4, 'variables returned')


SHAPES = ((DIM, ), (DIM, 'x'), ('x', DIM), ('x', 'y', DIM), ('x', DIM, 'y'),
          (DIM, 'x', 'y', 'z'))


@contract(P, '_update_with_overlap: the trimmed result is stored', [
    CD + '_update_with_overlap', CD + '_get_slices'], bounded=(),
    assumes=('at most 3 variables of rank at most 4 per call '
             '(enumerated)', ))
def update_overlap(ctx, W):
    m = W['collection.detail']
    log, calls = [], []
    W.patch('collection.detail:update_zarr_array', recorder(log))
    W.patch('collection.detail:join_path', join)
    a, b = SymInt(ctx.int('a')), SymInt(ctx.int('b'))
    indices = slice(a, b, None)
    n = nresults(ctx)
    rot = ctx.choose(len(SHAPES), 'shape') if n else 0
    shapes = {f'v{k}': SHAPES[(rot + k) % len(SHAPES)] for k in range(n)}
    trim = bool(ctx.choose(2, 'trim'))
    info = bool(ctx.choose(2, 'partition_info'))
    fails = bool(ctx.choose(2, 'fails'))
    z = Zds('window', shapes)

    def body(zds, args, kw):
        calls.append((zds, args, kw))
        if fails:
            raise UserError()
        return {v: Result(v) for v in shapes}

    if info:
        def func(zds, *args, partition_info=None, **kw):
            return body(zds, args, dict(kw, partition_info=partition_info))
    else:
        def func(zds, *args, **kw):
            return body(zds, args, kw)
        func = lambda zds, x, y=0: body(zds, (x, ), dict(y=y))  # noqa: E731
    ctx.cover('reachable')
    exc = None
    try:
        m._update_with_overlap(1, func=func, zds=z, indices=indices, dim=DIM,
                               fs='FS', path='PART', trim=trim, y=2)
    except UserError as e:
        exc = e
    kw = dict(y=2)
    if info:
        kw['partition_info'] = (DIM, indices)
    ctx.prove(T(len(calls) == 1 and calls[0][0] is z and same(
        calls[0][1:], ((1, ), kw))), 'the function is called once with the '
        'window, its arguments and the position')
    if fails:
        ctx.prove(T(exc is not None and not log),
                  'an error of the function reaches the caller, nothing is '
                  'stored')
        return
    ctx.prove(T(exc is None and len(log) == n),
              'every returned variable is stored once')
    for k, (path, array, fs) in enumerate(log):
        v = f'v{k}'
        ctx.prove(T(path == ('path', 'PART', v) and fs == 'FS'),
                  'stored in the variable of the partition')
        if not trim:
            ctx.prove(T(isinstance(array, Result) and array.name == v),
                      'stored as returned without trimming')
            continue
        want = tuple(indices if d == DIM else slice(None)
                     for d in shapes[v])
        ctx.prove(T(isinstance(array, tuple) and array[:2] == ('part', v)
                    and same(array[2], want)),
                  'the part of the result at the position of the partition '
                  'is stored')


class Each(LoopSpec):
    """The body handles the element k exactly as stated by ``after``."""

    def __init__(self, log, after, temps):
        self.uses, self.temps = (), temps
        self.log, self.after = log, after

    def havoc(self, ctx, env, k, it):
        self.log.clear()
        return {}

    def inv(self, ctx, env, k, it, mode, name):
        if mode == 'prove' and not z3.is_int_value(z3.simplify(k)):
            self.after(ctx, z3.simplify(k - 1), name)


def partitions(ctx):
    n, maxn = input_len('n')
    return SymList(n, lambda k: mkint(k), maxn)


def wrapped(ctx, W, where, factory, item, expect_path, loader, temps, qual,
            call=()):
    """wrap_function applies the function to every partition of the batch
    once and stores what it returned in that partition."""
    log, calls = [], []
    W.patch(f'{where}:update_zarr_array', recorder(log))
    W.patch(f'{where}:join_path', join)
    nres = nresults(ctx)
    fails = bool(ctx.choose(2, 'fails'))
    n, maxn = input_len('n')
    batch = SymList(n, lambda k: item(mkint(k)), maxn)

    def func(zds, *args, **kw):
        calls.append((zds, args, kw))
        if fails:
            raise UserError()
        return {f'v{j}': ('result', j, zds.tag) for j in range(nres)}

    def after(ctx, k, name):
        ctx.prove(T(len(calls) == 1 and T2(calls[0][0].tag, mkint(k)) and
                    calls[0][1:] == ((1, ), dict(y=2))),
                  f'{name}: the function is applied once to the partition')
        ctx.prove(T(len(log) == nres and all(
            same(p, expect_path(mkint(k), f'v{j}')) and
            same(a, ('result', j, mkint(k))) and f == 'FS'
            for j, (p, a, f) in enumerate(log))),
            f'{name}: what it returned is stored in the partition')

    spec = Each(log, after, temps)
    inner = spec.havoc

    def havoc(ctx, env, k, it):
        calls.clear()
        return inner(ctx, env, k, it)

    spec.havoc = havoc
    if ctx.size is None:
        W.loops[qual] = spec
    f = factory(func)
    ctx.cover('reachable')
    try:
        f(batch, *call)
    except UserError:
        ctx.prove(T(fails), 'only the error of the function is raised')
        ctx.prove(T(len(calls) > 0 and (ctx.size is not None or not log)),
                  'nothing is stored for the partition that failed')
        return
    if ctx.size is None:
        return  # after the loop: the iterations were proved one by one
    if fails:
        ctx.prove(batch.n == 0, 'an error of the function reaches the caller')
        return
    ctx.prove(T(len(calls) * nres == len(log)), 'results stored')
    ctx.prove(batch.n == len(calls), 'applied to every partition once')
    for k, (z, args, kw) in enumerate(calls):
        ctx.prove(T(T2(z.tag, k)), 'in order')
        for j in range(nres):
            p, a, fs = log[k * nres + j]
            ctx.prove(T(same(p, expect_path(k, f'v{j}')) and
                        same(a, ('result', j, k)) and fs == 'FS'),
                      'what it returned is stored in the partition')


@contract('C10', 'collection: update of a batch of partitions', [
    CD + '_wrap_update_func'], bounded=(2, ))
def collection_update(ctx, W):
    m = W['collection.detail']

    def load(delayed, fs, immutable, partition, selected_variables):
        ctx.prove(T((delayed, fs, immutable, selected_variables) == (
            False, 'FS', 'IMM', 'VARS')), 'loaded with the given arguments')
        return Zds(partition)

    W.patch('collection.detail:_load_dataset', load)
    wrapped(ctx, W, 'collection.detail',
            lambda f: m._wrap_update_func(
                1, delayed=False, func=f, fs='FS', immutable='IMM',
                selected_variables='VARS', y=2), lambda k: k,
            lambda k, v: ('path', k, v), load,
            ('zds', 'dictionary'), '_wrap_update_func.wrap_function#1')


@contract('C10', 'view: update of a batch of partitions', [
    VD + '_wrap_update_func'], bounded=(2, ))
def view_update(ctx, W):
    m = W['view.detail']
    wrapped(ctx, W, 'view.detail',
            lambda f: m._wrap_update_func(f, 'FS', 1, y=2),
            lambda k: (Zds(k), k), lambda k, v: ('path', 'BASE', k, v), None,
            ('dictionary', ), '_wrap_update_func.wrap_function#1',
            ('BASE', ))


def overlap_batch(ctx, W, where, callee, factory, item, path, qual, temps,
                  extra=()):
    """Every partition of the batch is loaded with its window and updated
    through _update_with_overlap."""
    log = []
    n, maxn = input_len('n')
    batch = SymList(n, lambda k: item(mkint(k)), maxn)
    trim = bool(ctx.choose(2, 'trim'))
    fails = bool(ctx.choose(2, 'fails'))

    def update(*args, func, zds, indices, dim, fs, path, trim, **kw):
        log.append((args, func, zds.tag, indices, dim, fs, path, trim, kw))
        if fails:
            raise UserError()

    W.patch(f'{where}:_update_with_overlap', update)
    W.patch(f'{where}:join_path', join)
    callee(log)

    def want(k):
        return ((1, ), 'FUNC', ('window', k), ('position', k), DIM, 'FS',
                path(k), trim, dict(y=2))

    def after(ctx, k, name):
        ctx.prove(T(len(log) == 1 and same(log[0], want(mkint(k)))),
                  f'{name}: the partition is updated once from its window')

    if ctx.size is None:
        W.loops[qual] = Each(log, after, temps)
    ctx.cover('reachable')
    try:
        factory(trim)(batch, *extra)
    except UserError:
        ctx.prove(T(fails), 'only the error of the update is raised')
        return
    if ctx.size is None:
        return
    if fails:
        ctx.prove(batch.n == 0, 'an error reaches the caller')
        return
    ctx.prove(batch.n == len(log), 'every partition is updated once')
    for k, x in enumerate(log):
        ctx.prove(T(same(x, want(k))), 'updated from its window, in order')


@contract(P, 'collection: update with overlap of a batch', [
    CD + '_wrap_update_func_with_overlap'], bounded=(2, ))
def collection_overlap(ctx, W):
    m = W['collection.detail']
    depth = ctx.int('depth')
    ctx.assume(depth >= 0)

    def callee(log):

        def load(*, delayed, depth, dim, fs, immutable, partition,
                 partitions, selected_variables):
            ctx.prove(z3.And(T((delayed, dim, fs, immutable, partitions,
                                selected_variables) == (
                True, DIM, 'FS', 'IMM', 'ALL', 'VARS')), zint(depth) == D),
                'the window is taken among all the selected partitions')
            return Zds(('window', partition)), ('position', partition)

        W.patch('collection.detail:_load_dataset_with_overlap', load)

    D = depth
    overlap_batch(
        ctx, W, 'collection.detail', callee,
        lambda trim: m._wrap_update_func_with_overlap(
            1, delayed=True, depth=mkint(depth), dim=DIM, func='FUNC',
            fs='FS', immutable='IMM', selected_partitions='ALL',
            selected_variables='VARS', trim=trim, y=2), lambda k: k,
        lambda k: k, '_wrap_update_func_with_overlap.wrap_function#1',
        ('zds', 'indices'))


class Ref:

    class partition_properties:
        dim = DIM


@contract(P, 'view: update with overlap of a batch', [
    VD + '_wrap_update_func_overlap'], bounded=(2, ))
def view_overlap(ctx, W):
    m = W['view.detail']
    depth = ctx.int('depth')
    ctx.assume(depth >= 0)
    ref = Ref()

    def callee(log):

        def select(arguments, datasets_list, depth_, view_ref):
            ctx.prove(z3.And(T(datasets_list == 'ALL' and view_ref is ref
                               and same(arguments[0].tag, arguments[1])),
                             zint(depth_) == depth),
                      'the window is taken among all the selected partitions')
            return Zds(('window', arguments[1])), ('position', arguments[1])

        W.patch('view.detail:_select_overlap', select)

    overlap_batch(
        ctx, W, 'view.detail', callee,
        lambda trim: m._wrap_update_func_overlap(
            'ALL', mkint(depth), 'FUNC', 'FS', ref, trim, 1, y=2),
        lambda k: (Zds(k), k), lambda k: ('path', 'BASE', k),
        '_wrap_update_func_overlap.wrap_function#1', ('zds', 'indices'),
        ('BASE', ))


@contract(P, 'a negative depth is refused', [
    CD + '_wrap_update_func_with_overlap', VD + '_wrap_update_func_overlap'],
    bounded=())
def negative_depth(ctx, W):
    d = ctx.int('depth')
    ctx.assume(d < 0)
    ctx.cover('reachable')
    ok = []
    for f in (lambda: W['collection.detail']._wrap_update_func_with_overlap(
            delayed=True, depth=mkint(d), dim=DIM, func='F', fs='FS',
            immutable=None, selected_partitions=(), selected_variables=None,
            trim=True),
            lambda: W['view.detail']._wrap_update_func_overlap(
                (), mkint(d), 'F', 'FS', Ref(), True)):
        try:
            f()
        except ValueError:
            ok.append(1)
    ctx.prove(T(len(ok) == 2), 'refused')
