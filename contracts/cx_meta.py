"""C13 (and C06, C12): the stored form of the descriptions.

The codecs of zarr are abstract: decoding what was encoded gives it back
(assumed; exercised for real by the run-time check). The stored form goes
through JSON: sequences come back as lists. The values (fill values,
attributes, chunk sizes, block limits) are any integers, so that no special
case on a value can hide."""
from types import SimpleNamespace as Namespace

import numpy
import z3

from pydv import world as worldmod
from pydv.core import SymInt, Unsupported, zint
from pydv.harness import contract

P = 'zcollection.meta:'


def T(x):
    return z3.BoolVal(bool(x))


def plain():
    return worldmod.World(facades={})


class Enc:
    """The stored form of x, opaque."""

    def __init__(self, kind, x, extra=None):
        self.kind, self.x, self.extra = kind, x, extra

    def __eq__(self, o):
        return isinstance(o, Enc) and (self.kind, self.extra) == (
            o.kind, o.extra) and same(self.x, o.x) is True

    def __hash__(self):
        return 1


class Codec:

    def __init__(self, k):
        self.k = k

    def get_config(self):
        return Enc('codec', self.k)

    def __eq__(self, o):
        return isinstance(o, Codec) and o.k == self.k

    def __hash__(self):
        return 2


def wrong(kind):
    raise ValueError(f'not a stored {kind}')


def encode_fill(v, dt):
    if v is None:
        return None
    return Enc('fill', v, str(numpy.dtype(dt)))


def decode_fill(e, dt, *a):
    if e is None:
        return None
    if not isinstance(e, Enc) or e.kind != 'fill' or e.extra != str(
            numpy.dtype(dt)):
        wrong('fill value')
    return e.x


def zarr_ghost():
    return Namespace(
        meta=Namespace(
            encode_dtype=lambda d: Enc('dtype', str(numpy.dtype(d))),
            decode_dtype=lambda e: numpy.dtype(e.x) if isinstance(e, Enc) and
            e.kind == 'dtype' else wrong('dtype'),
            encode_fill_value=encode_fill, decode_fill_value=decode_fill),
        codecs=Namespace(get_codec=lambda e: Codec(e.x) if isinstance(
            e, Enc) and e.kind == 'codec' else wrong('codec')))


def stored(x):
    """json.loads(json.dumps(x)): sequences become lists."""
    if isinstance(x, dict):
        return {k: stored(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [stored(v) for v in x]
    if isinstance(x, (Enc, SymInt, str, int, float, type(None))):
        return x
    raise Unsupported(f'not JSON: {type(x)}')


def same(a, b):
    """True, False or a formula."""
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if not isinstance(a, (SymInt, int)) or not isinstance(
                b, (SymInt, int)):
            return False
        f = z3.simplify(zint(a) == zint(b))
        return True if z3.is_true(f) else False if z3.is_false(f) else f
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        fs = [same(x, y) for x, y in zip(a, b)]
        if any(f is False for f in fs):
            return False
        fs = [f for f in fs if f is not True]
        return z3.And(fs) if fs else True
    return bool(a == b)


def eq(ctx, a, b, what):
    f = same(a, b)
    ctx.prove(T(f) if isinstance(f, bool) else f, what)


def attribute_list(ctx, M, what):
    n = ctx.choose(3, what)
    return [M.Attribute('qp'[k], [SymInt(ctx.int(what)), 'text'][k])
            for k in range(n)]


def variable(ctx, M, name):
    fill = [None, SymInt(ctx.int('fill'))][ctx.choose(2, 'fill value')]
    nd = ctx.choose(3, 'rank')
    return M.Variable(
        name, ['int64', 'M8[us]'][ctx.choose(2, 'dtype')],
        dimensions=[None, ('y', ), ('y', 'x')][nd],
        attrs=attribute_list(ctx, M, 'attributes'),
        compressor=[None, Codec(1)][ctx.choose(2, 'compressor')],
        fill_value=fill,
        filters=[None, (Codec(2), ), (Codec(3), Codec(2))][
            ctx.choose(3, 'filters')])


def same_variable(ctx, a, b):
    eq(ctx, a.name, b.name, 'name')
    ctx.prove(T(a.dtype == b.dtype), 'data type')
    eq(ctx, tuple(a.dimensions), tuple(b.dimensions), 'dimensions')
    ctx.prove(T(a.compressor == b.compressor), 'compressor')
    ctx.prove(T(tuple(a.filters) == tuple(b.filters)), 'filters')
    eq(ctx, a.fill_value, b.fill_value, 'fill value')
    same_attrs(ctx, a.attrs, b.attrs)


def same_attrs(ctx, a, b):
    x = sorted(((p.name, p.value) for p in a), key=lambda p: p[0])
    y = sorted(((p.name, p.value) for p in b), key=lambda p: p[0])
    eq(ctx, x, y, 'attributes')


ASSUMES = ('zarr and numcodecs decode what they encode (data types, fill '
           'values, codecs)', 'JSON restores strings and numbers, and '
           'sequences as lists', 'up to 2 attributes, dimensions, filters '
           'and variables, with any values')


@contract('C13', 'Variable: the stored form describes the variable completely',
          [P + 'Variable.get_config', P + 'Variable.from_config',
           P + 'Attribute.from_config', P + 'Pair.get_config'], world=plain,
          assumes=ASSUMES, bounded=())
def variable_config(ctx, W):
    M = W['meta']
    W.patch('meta:zarr', zarr_ghost())
    v = variable(ctx, M, 'v')
    ctx.cover('reachable')
    cfg = v.get_config()
    r = M.Variable.from_config(stored(cfg))
    same_variable(ctx, v, r)


@contract('C13', 'Dataset: the stored form describes the dataset completely',
          [P + 'Dataset.get_config', P + 'Dataset.from_config',
           P + 'Dimension.from_config', P + 'Dataset.__init__'], world=plain,
          assumes=ASSUMES, bounded=())
def dataset_config(ctx, W):
    M = W['meta']
    W.patch('meta:zarr', zarr_ghost())
    nv = ctx.choose(3, 'variables')
    vs = [M.Variable('ba'[k], 'f4', dimensions=('y', 'x')[:k + 1],
                     fill_value=[None, SymInt(ctx.int('fill'))][k],
                     compressor=[Codec(1), None][k]) for k in range(nv)]
    nc = ctx.choose(3, 'chunks')
    chunks = []
    for k in range(nc):
        c = ctx.int('chunk')
        ctx.assume(c >= 1)
        chunks.append(M.Dimension('yx'[k], SymInt(c)))
    limit = None
    if ctx.choose(2, 'block size limit'):
        b = ctx.int('limit')
        ctx.assume(b >= 1)
        limit = SymInt(b)
    d = M.Dataset([(), ('y', ), ('y', 'x')][ctx.choose(3, 'dimensions')], vs,
                  attrs=attribute_list(ctx, M, 'attributes'), chunks=chunks,
                  block_size_limit=limit)
    ctx.cover('reachable')
    r = M.Dataset.from_config(stored(d.get_config()))
    eq(ctx, tuple(d.dimensions), tuple(r.dimensions), 'dimensions')
    ctx.prove(T(set(r.variables) == set(d.variables)), 'variables')
    for k in d.variables:
        same_variable(ctx, d.variables[k], r.variables[k])
    same_attrs(ctx, d.attrs, r.attrs)
    eq(ctx, [(c.name, c.value) for c in d.chunks],
       [(c.name, c.value) for c in r.chunks], 'chunks')
    eq(ctx, d.block_size_limit, r.block_size_limit, 'block size limit')
    if limit is not None:
        eq(ctx, limit, r.block_size_limit, 'given block size limit')


@contract(['C13', 'C12'], 'Variable.set_for_insertion: everything but the '
          'attributes', [P + 'Variable.set_for_insertion'], world=plain,
          assumes=ASSUMES[2:], bounded=())
def insertion(ctx, W):
    M = W['meta']
    v = variable(ctx, M, 'v')
    ctx.cover('reachable')
    r = v.set_for_insertion()
    ctx.prove(T(not r.attrs), 'no attribute')
    n = len(v.attrs)
    r.attrs = v.attrs
    same_variable(ctx, v, r)
    ctx.prove(T(len(v.attrs) == n), 'the variable is unchanged')


DIMS = [(), ('y', ), ('x', ), ('y', 'x'), ('x', 'y')]


def schema(ctx, M, n=2):
    k = ctx.choose(n + 1, 'variables')
    return M.Dataset(('y', 'x'), [
        M.Variable('ba'[j], 'i8', dimensions=DIMS[ctx.choose(
            len(DIMS), f'dimensions[{j}]')]) for j in range(k)])


@contract('C12', 'add_variable, search_same_dimensions_as: a new name over '
          'known dimensions, a template of the same shape',
          [P + 'Dataset.add_variable', P + 'Dataset.search_same_dimensions_as'],
          world=plain, bounded=(), assumes=('two variables of rank <= 2', ))
def add_search(ctx, W):
    M = W['meta']
    d = schema(ctx, M)
    before = dict(d.variables)
    v = M.Variable('bc'[ctx.choose(2, 'name')], 'i4', dimensions=(
        DIMS + [('z', ), ('y', 'z')])[ctx.choose(len(DIMS) + 2, 'new')])
    known = set(v.dimensions) <= {'y', 'x'}
    like = [k for k, w in before.items() if w.dimensions == v.dimensions]
    ctx.cover('reachable')
    try:
        t = d.search_same_dimensions_as(v)
        ctx.prove(T(t.name in like and t is before[t.name]), 'template')
    except ValueError:
        ctx.prove(T(not like), 'a template exists')
    try:
        d.add_variable(v)
    except ValueError:
        ctx.prove(T(v.name in before or not known), 'refused')
        ctx.prove(T(d.variables == before and all(
            d.variables[k] is before[k] for k in before)), 'no change')
        return
    ctx.prove(T(v.name not in before and known), 'accepted')
    ctx.prove(T(d.variables.pop(v.name) is v and all(
        d.variables[k] is before[k] for k in before) and
        set(d.variables) == set(before)), 'added')


@contract('C06', 'missing_variables: those of the collection absent from the '
          'dataset; unknown ones are refused',
          [P + 'Dataset.missing_variables'], world=plain, bounded=(),
          assumes=('up to three variables', ))
def missing(ctx, W):
    M = W['meta']
    names = 'abc'

    def some(what):
        return [k for k in names if ctx.choose(2, f'{what} {k}')]

    a, b = some('collection'), some('dataset')
    mk = lambda ks: M.Dataset(('y', ), [  # noqa: E731
        M.Variable(k, 'i8', dimensions=('y', )) for k in ks])
    ctx.cover('reachable')
    x, y = mk(a), mk(b)
    try:
        r = x.missing_variables(y)
    except ValueError:
        ctx.prove(T(set(b) - set(a)), 'refused')
        return
    ctx.prove(T(not set(b) - set(a)), 'unknown variables are refused')
    ctx.prove(T(sorted(r) == sorted(set(a) - set(b))), 'missing')
    ctx.prove(T(list(x.variables) == a and list(y.variables) == b),
              'unchanged')


@contract(['C06', 'C12', 'C14'], 'select_variables_by_dims, select_variables: '
          'exactly the requested ones',
          [P + 'Dataset.select_variables_by_dims',
           P + 'Dataset.select_variables'], world=plain, bounded=(),
          assumes=('two variables of rank <= 2', ))
def select(ctx, W):
    M = W['meta']
    d = schema(ctx, M)
    dims = [('y', ), ('x', ), ('y', 'x'), ()][ctx.choose(4, 'dims')]
    pred = bool(ctx.choose(2, 'predicate'))
    ctx.cover('reachable')
    r = d.select_variables_by_dims(dims, pred)
    has = {k for k, v in d.variables.items()
           if (set(v.dimensions) & set(dims) if dims else not v.dimensions)}
    ctx.prove(T(set(r) == (has if pred else set(d.variables) - has)),
              'by dimensions')
    keep = [None, [], ['a'], ['a', 'z']][ctx.choose(4, 'keep')]
    drop = [None, ['b'], ['b', 'z']][ctx.choose(3, 'drop')]
    r = d.select_variables(keep, drop)
    ctx.prove(T(set(r) == {k for k in d.variables if
                           (keep is None or k in keep) and
                           (drop is None or k not in drop)}), 'by name')


S = 'zcollection.partitioning.'


@contract('C13', 'get_codecs: the scheme described by its configuration, '
          'with all its parameters', [
              S + 'registry:get_codecs', S + 'abc:Partitioning.get_config',
              S + 'sequence:Sequence.get_config',
              S + 'abc:Partitioning.from_config'], world=plain, bounded=(),
          assumes=('one to three variables of any allowed type; every '
                   'resolution', ))
def codecs(ctx, W):
    m = W['partitioning']
    kind = ctx.choose(3, 'scheme')
    if kind == 0:
        from_res = W['partitioning.date'].RESOLUTION
        p = m.Date(('time', ), from_res[ctx.choose(len(from_res),
                                                   'resolution')])
    else:
        n = 1 + ctx.choose(3, 'variables')
        names = ['cycle', 'b', 'a'][:n]
        types = ['int8', 'uint16', 'int64']
        dt = None if ctx.choose(2, 'default type') else [
            types[ctx.choose(3, f'type[{k}]')] for k in range(n)]
        if kind == 1:
            p = m.Sequence(names, dtype=dt)
        else:
            g = getattr(m, 'GroupedSequence', None)
            if g is None:
                p = m.Sequence(names, dtype=dt)
            else:
                size = ctx.int('size')
                ctx.assume(size >= 2)
                start = ctx.int('start')
                p = g(names, dtype=dt, size=SymInt(size),
                      start=SymInt(start))
    ctx.cover('reachable')
    cfg = p.get_config()
    r = m.get_codecs(stored(cfg))
    ctx.prove(T(type(r) is type(p)), 'scheme')
    ctx.prove(T(tuple(r.variables) == tuple(p.variables)), 'variables')
    ctx.prove(T(tuple(r.dtype()) == tuple(p.dtype())), 'types and keys')
    for k in ('resolution', 'size', 'start'):
        if hasattr(p, k):
            eq(ctx, getattr(r, k), getattr(p, k), k)
    c2 = r.get_config()
    eq(ctx, sorted(c2), sorted(cfg), 'same configuration')
    for k in cfg:
        eq(ctx, c2[k], cfg[k], 'same configuration')


@contract('C13', 'get_codecs: an unknown scheme is refused',
          [S + 'registry:get_codecs'], world=plain, bounded=())
def codecs_unknown(ctx, W):
    cfg = [{}, {'id': None}, {'id': 'Unknown', 'variables': ['a']}][
        ctx.choose(3, 'configuration')]
    ctx.cover('reachable')
    try:
        W['partitioning'].get_codecs(cfg)
    except ValueError:
        ctx.prove(T(True), 'refused')
        return
    ctx.fail('accepted')
