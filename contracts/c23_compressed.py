"""Contracts of the compressed in-memory arrays.

Arrays are opaque terms: what the code does with them is a composition of the
library operations (reading a zarr array, masking the values equal to a fill
value, filling, converting, ...), assumed to be those of numpy and zarr. The
contracts say which composition each method computes, for any array, region,
type and fill value (also false ones, e.g. zero).
"""
from pydv import world as worldmod
from pydv.core import Unsupported, z3
from pydv.ghostzarr import Namespace
from pydv.harness import contract

M = 'zcollection/compressed_array.py:'
K = M + 'CompressedArray.'


def T(x):
    return z3.BoolVal(bool(x))


def plain_world():
    return worldmod.World(facades={})


class Fill:
    """Any fill value; whether it is true is not known."""

    def __init__(self, ctx, name):
        self.ctx, self.name, self.truth = ctx, name, None

    def __bool__(self):
        if self.truth is None:
            self.truth = bool(self.ctx.choose(2, f'{self.name} is true'))
        return self.truth

    def __repr__(self):
        return self.name


class ND:
    """Ghost numpy.ndarray."""

    def __init__(self, term):
        self.term = term

    def astype(self, dtype, **kw):
        return type(self)(('astype', self.term, dtype))

    def reshape(self, *shape):
        return type(self)(('reshape', self.term, shape))

    def __array__(self, *args, **kw):
        raise Unsupported('conversion of an array')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'array.{name}')

    def __bool__(self):
        raise Unsupported('truth of an array')


class Masked(ND):
    """Ghost numpy.ma.MaskedArray."""

    def filled(self, value=None):
        return ND(('filled', self.term, value))


class Zarr:
    """Ghost zarr.Array: the values are a term."""

    def __init__(self, term, **kw):
        self.term = term
        self.kw = kw

    def __getitem__(self, key):
        return ND(self.term if key is Ellipsis or key == slice(None)
                  or key == () else ('get', self.term, key))

    def __setitem__(self, key, value):
        self.term = ('set', self.term, key, term(value))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in PROPS:
            return self.kw.get(name, (name, self.term))
        raise Unsupported(f'zarr.Array.{name}')


PROPS = ('ndim', 'nchunks', 'shape', 'size', 'dtype', 'nbytes', 'compressor',
         'filters', 'chunks', 'fill_value')


class Dask:
    """Ghost dask array."""

    def __init__(self, inner):
        self.inner = inner

    def compute(self, **kw):
        return self.inner


def term(x):
    return x.term if isinstance(x, (ND, Zarr)) else x


def value(term, fill):
    """The array of the values of the term, those equal to fill missing."""
    return ND(term) if fill is None else Masked(('masked', term, fill))


def same(x, y):
    if isinstance(y, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and \
            all(map(same, x, y))
    if isinstance(y, ND):
        return type(x) is type(y) and x.term == y.term
    return x is y or type(x) is type(y) and x == y


def ghosts(ctx, W):
    """Replace numpy, zarr and dask in the module; returns the calls made."""
    calls = []

    def array(data, *args, **kw):
        calls.append((data, args, kw))
        if not isinstance(data, (ND, Zarr)):
            raise Unsupported('zarr.array')
        names = dict(zip(('chunks', 'dtype', 'compressor'), args), **kw)
        t = term(data)
        if names.get('dtype') is not None:
            t = ('astype', t, names['dtype'])
        return Zarr(t, **{k: v for k, v in names.items() if k in PROPS
                          and k not in ('dtype', 'fill_value')})

    def masked_equal(x, v, copy=True):
        return Masked(('masked', x.term, v))

    def join(name):
        def f(arrays, **kw):
            calls.append((name, arrays, kw))
            return ('JOINED', name)
        return f

    def numel(name):
        def f(array, **kw):
            calls.append((name, array, kw))
            return ('NUMEL', name)
        return f

    def from_array(array, *args, **kw):
        names = ('chunks', 'name', 'lock', 'asarray', 'fancy', 'getitem',
                 'meta', 'inline_array')
        calls.append((array, dict(zip(names, args), **kw)))
        return 'DASK'

    def tokenize(*args, **kw):
        return 'token'

    W.patch('compressed_array:numpy', Namespace(
        ndarray=ND, ma=Namespace(MaskedArray=Masked, isMaskedArray=lambda x:
                                 isinstance(x, Masked),
                                 masked_equal=masked_equal,
                                 concatenate=join('masked')),
        generic=type('generic', (), {}), number=type('number', (), {}),
        concatenate=join('plain'), isscalar=lambda x: isinstance(
            x, (int, float))))
    W.patch('compressed_array:zarr', Namespace(Array=Zarr, array=array))
    W.patch('compressed_array:dask', Namespace(
        array=Namespace(core=Namespace(Array=Dask, from_array=from_array),
                        backends=Namespace(_numel_masked=numel('masked'),
                                           _numel_ndarray=numel('plain'))),
        base=Namespace(tokenize=tokenize)))
    return calls


def compressed(ctx, W, name='A'):
    """A compressed array of any values; the values and fill value."""
    fill = Fill(ctx, 'fill ' + name) if ctx.choose(2, f'{name} filled') \
        else None
    kw = {} if fill is None else dict(fill_value=fill)
    return W['compressed_array'].CompressedArray(ND(name), **kw), fill


def replay(_):
    """The contract on real arrays."""
    from rtc import c23
    err = []
    for n, (case, inputs) in enumerate(c23.generate(20, 'quick')):
        if n < 120 and not err:
            err += c23.CASES[case](inputs)
    return err[:3]


def rule(name, targets, **kw):
    def deco(f):
        def body(ctx, W):
            ctx.input('case', 1)
            return f(ctx, W)
        return contract('C23', name, targets, bounded=kw.pop('bounded', ()),
                        world=plain_world, replay=replay, **kw)(body)
    return deco


@rule('CompressedArray: the given values are held, missing ones as the fill '
      'value', [K + '__init__', K + '__getitem__', K + 'fill_value'])
def init(ctx, W):
    calls = ghosts(ctx, W)
    C = W['compressed_array'].CompressedArray
    kind = ctx.choose(5, 'kind')
    kw = {}
    fill = None
    if ctx.choose(2, 'filled'):
        fill = kw['fill_value'] = Fill(ctx, 'fill')
    if ctx.choose(2, 'options'):
        kw.update(compressor='ZIP', filters='FILTERS')
    args = ((3, ), ) if ctx.choose(2, 'positional') else ()
    ctx.cover('reachable')
    given = (ND('V'), Masked('V'), Zarr('V'), None, 'V')[kind]
    if kind == 3:
        of = Fill(ctx, 'other fill') if ctx.choose(2, 'other') else None
        given = C(ND('V'), **({} if of is None else dict(fill_value=of)))
        calls.clear()
        c = C(given)
        ctx.prove(T(same(c[...], value('V', of)) and c.fill_value is of),
                  'a copy holds the same values, with the same missing ones')
        return
    try:
        c = C(given, *args, **kw)
    except (TypeError, ValueError):
        ctx.prove(T(kind == 4 or kind == 2 and (args or kw)),
                  'the array is accepted')
        return
    ctx.prove(T(kind != 4), 'other objects are refused')
    if kind == 2:
        ctx.prove(T(not args and not kw), 'options of a zarr array are '
                  'refused')
        ctx.prove(T(same(c[...], ND('V'))), 'the values of the zarr array')
        return
    t = 'V'
    if kind == 1 and fill is not None:
        t = ('filled', 'V', fill)
    ctx.prove(T(c.fill_value is fill), 'the fill value is the given one')
    ctx.prove(T(same(c[...], value(t, fill)) or kind == 1 and fill is None),
              'the given values are held')
    want = dict(zip(('chunks', ), args), **kw)
    n = len(calls)
    got = dict(zip(('chunks', ), calls[0][1]), **calls[0][2]) if n else {}
    ctx.prove(T(n == 1 and got == want), 'the storage options are used')


@rule('CompressedArray: regions, types and shapes are those of the values, '
      'those equal to the fill value missing',
      [K + '__getitem__', K + '__array__', K + 'astype', K + 'reshape'])
def read(ctx, W):
    ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    op = ctx.choose(5, 'operation')
    ctx.cover('reachable')
    v = value('A', fill)
    key = ('KEY', slice(1, 2))
    if op == 0:
        ctx.prove(T(same(c[key], value(('get', 'A', key), fill))),
                  'a region')
        ctx.prove(T(same(c[0], value(('get', 'A', 0), fill))), 'a row')
    elif op == 1:
        ctx.prove(T(same(c.__array__(), v)), 'the array')
        ctx.prove(T(same(c.__array__('DT'), v.astype('DT'))),
                  'the converted array')
        ctx.prove(T(same(c.__array__(dtype='DT'), v.astype('DT'))),
                  'the converted array')
    elif op == 2:
        ctx.prove(T(same(c.astype('DT'), v.astype('DT'))), 'another type')
    elif op == 3:
        ctx.prove(T(same(c.astype(), v)), 'the same type')
    else:
        ctx.prove(T(same(c.reshape(2, 3), v.reshape(2, 3))), 'other shape')
    ctx.prove(T(same(c[...], v)), 'the array is not modified')


@rule('CompressedArray: the properties are those of the values held',
      [K + p for p in ('ndim', 'nchunks', 'shape', 'size', 'dtype', 'nbytes',
                       'compressor', 'filters', 'chunks')])
def properties(ctx, W):
    ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    ctx.cover('reachable')
    for p in PROPS[:-1]:
        ctx.prove(T(getattr(c, p) == (p, 'A')), p)


@rule('CompressedArray: writing a region changes it only, missing values are '
      'stored as the fill value', [K + '__setitem__'])
def write(ctx, W):
    ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    kind = ctx.choose(3, 'kind')
    given = (ND('V'), Masked('V'), 7)[kind]
    ctx.cover('reachable')
    c['KEY'] = given
    t = ('filled', 'V', fill) if kind == 1 else term(given)
    if kind == 1 and fill is None:
        return
    ctx.prove(T(same(c[...], value(('set', 'A', 'KEY', t), fill))),
              'the region holds the values')


@rule('CompressedArray.rechunk: same values, missing ones and codecs',
      [K + 'rechunk'])
def rechunk(ctx, W):
    ghosts(ctx, W)
    fill = Fill(ctx, 'fill') if ctx.choose(2, 'filled') else None
    kw = {} if fill is None else dict(fill_value=fill)
    c = W['compressed_array'].CompressedArray(
        ND('A'), compressor='ZIP', filters='FILTERS', **kw)
    ctx.cover('reachable')
    r = c.rechunk('CHUNKS')
    ctx.prove(T(isinstance(r, W['compressed_array'].CompressedArray)),
              'a compressed array')
    ctx.prove(T(same(r[...], value('A', fill))), 'the same values, with the '
              'same missing ones')
    ctx.prove(T(r.fill_value is fill), 'the fill value')
    ctx.prove(T(r.chunks == 'CHUNKS'), 'the chunks asked for')
    ctx.prove(T((r.compressor, r.filters) == ('ZIP', 'FILTERS')),
              'the codecs')
    ctx.prove(T(same(c[...], value('A', fill))), 'the original is unchanged')


def operand(ctx, W, name):
    """Any operand and what it stands for."""
    kind = ctx.choose(5, f'kind of {name}')
    if kind == 0:
        c, fill = compressed(ctx, W, name)
        return c, value(name, fill)
    x = (None, ND(name), Masked(name), Dask(ND(name)), 2.5)[kind]
    return x, x.inner if kind == 3 else x


@rule('operators: applied to the operands, each with its own missing values',
      [K + '__array_ufunc__', K + '_cast'], assumes=(
          'at most 2 operands (enumerated; no numpy operator has more)', ))
def ufunc(ctx, W):
    ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    n = ctx.choose(3, 'other operands')
    args, want = [c], [value('A', fill)]
    if n:
        x, v = operand(ctx, W, 'B')
        args.append(x)
        want.append(v)
    if n == 2:
        args.reverse()
        want.reverse()
    method = ('__call__', 'reduce', 'outer')[ctx.choose(3, 'method')]
    calls = []

    class Ufunc:

        def __call__(self, *a, **k):
            calls.append(('__call__', a, k))
            return RESULT

        def reduce(self, *a, **k):
            calls.append(('reduce', a, k))
            return RESULT

        def outer(self, *a, **k):
            calls.append(('outer', a, k))
            return RESULT

    ctx.cover('reachable')
    r = c.__array_ufunc__(Ufunc(), method, *args, axis='AXIS')
    if method == 'outer' and r is NotImplemented:
        return
    ctx.prove(T(r is RESULT), 'the result of the operator')
    ctx.prove(T(len(calls) == 1 and calls[0][0] == method
                and same(list(calls[0][1]), want)),
              'applied to the operands')
    ctx.prove(T(len(calls) == 1 and calls[0][2] == dict(axis='AXIS')),
              'with its options')
    ctx.prove(T(same(c[...], value('A', fill))), 'the array is not modified')


RESULT = ND('RESULT')


@rule('numpy functions: applied to the arrays held, also in sequences or by '
      'name', [K + '__array_function__'],
      unbounded=False, bounded=(3, ))
def function(ctx, W):
    ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    v = value('A', fill)
    x, w = operand(ctx, W, 'B')
    if isinstance(x, Dask):
        w = x
    shape = ctx.choose(4, 'arguments')
    args, want, kw, wkw = [
        ((c, x), (v, w), {}, {}),
        (([c, x], 3), ([v, w], 3), {}, {}),
        (((x, c), ), ((w, v), ), dict(axis=1), dict(axis=1)),
        ((x, ), (w, ), dict(a=c, key='k'), dict(a=v, key='k')),
    ][shape]
    calls = []

    def func(*a, **k):
        calls.append((a, k))
        return RESULT

    ctx.cover('reachable')
    r = c.__array_function__(func, (), args, kw)
    ctx.prove(T(r is RESULT), 'the result of the function')
    ctx.prove(T(len(calls) == 1 and same(calls[0][0], want)),
              'applied to the arrays')
    k = calls[0][1]
    ctx.prove(T(sorted(k) == sorted(wkw) and all(
        same(k[n], wkw[n]) for n in wkw)), 'with its options')


@rule('blocks joined by dask: missing values stay missing',
      [M + '_concatenate_compressed_array'], unbounded=False,
      bounded=(3, ))
def join(ctx, W):
    calls = ghosts(ctx, W)
    n = 1 + ctx.choose(3, 'blocks')
    arrays, want = [], []
    for k in range(n):
        kind = ctx.choose(3, f'kind of {k}') if k < 2 else 0
        if kind == 0:
            c, fill = compressed(ctx, W, f'B{k}')
            arrays.append(c)
            want.append(value(f'B{k}', fill))
        else:
            x = (ND if kind == 1 else Masked)(f'B{k}')
            arrays.append(x)
            want.append(x)
    calls.clear()
    ctx.cover('reachable')
    r = W['compressed_array']._concatenate_compressed_array(
        arrays, axis='AXIS')
    masked = any(isinstance(x, Masked) for x in want)
    ctx.prove(T(len(calls) == 1 and same(list(calls[0][1]), want)),
              'the blocks, in order')
    ctx.prove(T(calls[0][2] == dict(axis='AXIS')), 'along the axis')
    ctx.prove(T(calls[0][0] == 'masked' or not masked),
              'missing values are kept')
    ctx.prove(T(r == ('JOINED', calls[0][0])), 'the joined array')


@rule('number of elements: missing ones are not counted',
      [M + '_numel_compressed_array'])
def numel(ctx, W):
    calls = ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    calls.clear()
    v = value('A', fill)
    kw = [dict(axis=0), dict(axis=0, dtype='DT'), {}][
        ctx.choose(3, 'options')]
    if 'dtype' in kw:
        v = v.astype('DT')
    ctx.cover('reachable')
    r = W['compressed_array']._numel_compressed_array(c, **kw)
    ctx.prove(T(len(calls) == 1 and same(calls[0][1], v)), 'of the array')
    ctx.prove(T(calls[0][2] == kw), 'with the options')
    ctx.prove(T(calls[0][0] == ('plain' if fill is None else 'masked')
                and r == ('NUMEL', calls[0][0])), 'missing ones not counted')


@rule('dask_array_from_compressed_array: the array, by its chunks',
      [M + 'dask_array_from_compressed_array'])
def to_dask(ctx, W):
    calls = ghosts(ctx, W)
    c, fill = compressed(ctx, W)
    calls.clear()
    name = (None, 'given')[ctx.choose(2, 'name')]
    ctx.cover('reachable')
    r = W['compressed_array'].dask_array_from_compressed_array(
        c, name=name, inline_array=True)
    ctx.prove(T(r == 'DASK' and len(calls) == 1 and calls[0][0] is c),
              'made of the array')
    kw = calls[0][1]
    ctx.prove(T(kw['chunks'] == ('chunks', 'A')), 'by its chunks')
    ctx.prove(T(kw.get('name') == name if name else
                isinstance(kw.get('name'), str) and kw['name']), 'named')


def replay_persist(_):
    from rtc import c20
    err = []
    left = 25
    for case, inputs in c20.generate(20, 'quick'):
        if case == 'memory' and left and not err:
            left -= 1
            err += c20.CASES[case](inputs)
    return err[:3]


@contract(['C23', 'C20'], 'persist: each variable holds its own values in '
          'memory, compressed with its own fill value',
          ['zcollection/dataset.py:Dataset.persist'], bounded=(),
          world=plain_world, assumes=('at most 3 variables (enumerated)', ),
          replay=replay_persist)
def persist(ctx, W):
    m = W['dataset']
    ctx.input('case', 1)
    n = ctx.choose(4, 'variables')
    compress = bool(ctx.choose(2, 'compress'))
    lazy = bool(ctx.choose(2, 'lazy'))
    marker = object()
    W.patch('dataset:CompressedArray', marker)

    class Lazy:

        def __init__(self, *term):
            self.t = term

        def map_blocks(self, f, *args, **kw):
            if f is not marker or args or set(kw) - {'fill_value'}:
                raise Unsupported('map_blocks')
            return Lazy('compressed', self.t, kw.get('fill_value'))

        def persist(self, **kw):
            return Lazy('memory', self.t)

    class Var:

        def __init__(self, name, fill):
            self.name, self.fill_value = name, fill
            self.array = Lazy(name)

        @property
        def data(self):
            # Values equal to the fill value are missing, once.
            t = self.array.t
            return Lazy('masked', t, self.fill_value) \
                if self.fill_value is not None else self.array

    options = []

    def save(*arrays, **kw):
        options.append(kw)
        return tuple(Lazy('memory', a.t) for a in arrays)

    W.patch('dataset:dask', Namespace(base=Namespace(persist=save)))
    fills = [None, Fill(ctx, 'fill 1'), Fill(ctx, 'fill 2')]
    first = ctx.choose(3, 'first')
    vs = [Var('cab'[k], fills[(first + k) % 3]) for k in range(n)]
    ds = m.Dataset.__new__(m.Dataset)
    ds.variables = {v.name: v for v in vs}
    ds.delayed = lazy
    ctx.cover('reachable')
    r = ds.persist(compress=compress, workers='here')
    ctx.prove(T(list(r.variables) == [v.name for v in vs] and all(
        r.variables[v.name].name == v.name and
        r.variables[v.name].fill_value is v.fill_value for v in vs)),
        'the same variables')
    for v in vs:
        t = (v.name, )
        if lazy:
            if compress:
                t = ('compressed', t, v.fill_value)
            got = strip(r.variables[v.name].array.t, v.fill_value)
            ctx.prove(T(got == strip(t, v.fill_value) and
                        holds(r.variables[v.name].array.t)),
                      'each variable holds its values, in memory')
        else:
            ctx.prove(T(r.variables[v.name].array.t == t), 'unchanged')
    if lazy and n:
        ctx.prove(T(all(k == dict(workers='here') for k in options)),
                  'the options are used')


def holds(t):
    return isinstance(t, tuple) and t[0] == 'memory'


def strip(t, fill):
    """The term without what does not change the values and missing ones of a
    variable having this fill value."""
    while isinstance(t, tuple) and (t[0] == 'memory' or t[0] == 'masked'
                                    and t[2] is fill):
        t = t[1]
    return t
