"""Contracts of the dataset operations (C20).

Variables have arbitrary contents and symbolic sizes; their layout (at most
three variables, at most two dimensions each), eager or lazy, is enumerated.
Elements are compared at an arbitrary index.
"""
import itertools

import numpy

from pydv.core import Unsupported, cur, mkint, z3, zint
from pydv.harness import contract
from pydv.nd import ND, Deleted, Rows, nd_world
ZI = zint

D = 'zcollection/dataset.py:'
V = 'zcollection/variable/abc.py:'
SHAPES = [(), ('x', ), ('x', 'y'), ('y', 'x')]
LAYOUTS = [(a, ) for a in SHAPES] + list(itertools.product(SHAPES, SHAPES)) + [
    (('y', 'x'), (), ('x', )), (('x', ), ('y', ), ('x', 'y')),
    (('y', ), ('x', 'y'), ('y', 'x'))
]
ASSUMES = ('at most three variables of at most two dimensions; any sizes, '
           'any contents', 'numpy and dask indexing, delete, concatenate and '
           'full do what pydv/nd.py states')
PROPS = ('name', 'dimensions', 'attrs', 'compressor', 'fill_value', 'filters')


def T(x):
    return z3.BoolVal(bool(x))


class Codec:
    """Opaque compressor or filter."""


def props(W, k):
    A = W['meta'].Attribute
    return dict(attrs=(A('u', k), A('v', 'w')),
                compressor=Codec(), fill_value=-k - 1, filters=(Codec(), ))


class Build:
    """A dataset of any contents."""

    def __init__(self, ctx, W, layout, lazy, tag='', sizes=None, names='abc',
                 free=False, attrs=(('p', 1), ('q', 2))):
        self.ctx, self.W, self.lazy = ctx, W, lazy
        self.layout = layout
        cls = W['variable'].DelayedArray if lazy else W['variable'].Array
        self.sizes = sizes if sizes is not None else {}
        self.vars = []
        for k, dims in enumerate(layout):
            shape = []
            for d in dims:
                if free:
                    s = ctx.int(f'{tag}{names[k]}_{d}')
                    ctx.assume(s >= 0)
                    ctx.input(f'{tag}{names[k]}_{d}', s)
                    shape.append(s)
                    continue
                if d not in self.sizes:
                    s = ctx.int(f'{tag}n_{d}')
                    ctx.assume(s >= 0)
                    ctx.input(f'{tag}n_{d}', s)
                    self.sizes[d] = s
                shape.append(self.sizes[d])
            f = z3.Function(f'{tag}{names[k]}', *[z3.IntSort()] *
                            (len(dims) + 1)) if dims else None
            c = ctx.int(f'{tag}{names[k]}_0') if not dims else None
            at = (lambda *ix, f=f, c=c: f(*ix) if f is not None else c)
            self.vars.append(W['variable.abc'].new_variable(
                cls, name=names[k], dimensions=dims,
                array=ND(shape, at, 'dask' if lazy else 'numpy'),
                **props(W, k)))
        A = W['meta'].Attribute
        self.attrs = tuple(A(*i) for i in attrs)
        self.D = W['meta'].Dimension

    def dataset(self):
        return self.W['dataset'].Dataset(
            list(self.vars), attrs=self.attrs, block_size_limit=1234,
            chunks=[self.D('x', 7)])


def snapshot(ds):
    return (tuple((k, v) + state(v) for k, v in ds.variables.items()),
            tuple((k, str(z3.simplify(ZI(v)))) for k, v in
                  ds.dimensions.items()), ds.attrs,
            tuple(ds.chunks.items()), ds.block_size_limit, ds.delayed)


def state(v):
    return (v.array, ) + tuple(getattr(v, p) for p in PROPS)


def kept(ctx, v, o, what='', name=None):
    """v has the properties of o."""
    for p in PROPS:
        want = name if p == 'name' and name else getattr(o, p)
        got = getattr(v, p)
        if p in ('dimensions', 'attrs', 'filters'):
            want, got = tuple(want), tuple(got)
        ctx.prove(T(got == want), f'{p} of the variable kept{what}')
    ctx.prove(T(type(v) is type(o)), f'same kind of variable{what}')


def index(ctx, shape):
    ix = []
    for s in shape:
        i = ctx.int('i')
        ctx.assume(z3.And(0 <= i, i < s))
        ix.append(i)
    return ix


def elements(ctx, v, o, shape, where, what):
    """v has this shape and its element at ix is o's at where(ix)."""
    a = v.array
    if not isinstance(a, ND):
        raise Unsupported(f'array {type(a)}')
    ctx.prove(T(a.ndim == len(shape)), f'number of axes{what}')
    ctx.prove(T(a.kind == o.array.kind), f'eager stays eager, lazy lazy{what}')
    for d, (s, t) in enumerate(zip(a.dims, shape)):
        ctx.prove(s == t, f'size of axis {d}{what}')
    ix = index(ctx, shape)
    ctx.prove(a.at(*ix) == where(*ix), f'elements{what}')


def whole(ctx, ds, o, names=None):
    """The dataset has these variables in order, its properties, its sizes."""
    ctx.prove(T(list(ds.variables) == (names if names is not None else
                                       list(o.variables))), 'variables')
    ctx.prove(T(tuple(ds.attrs) == tuple(o.attrs)), 'attributes kept')
    ctx.prove(T(dict(ds.chunks) == dict(o.chunks)
                and ds.block_size_limit == o.block_size_limit),
              'chunks and block size kept')
    if ds.variables:
        ctx.prove(T(ds.delayed == o.delayed), 'eager stays eager')
    sizes(ctx, ds)


def sizes(ctx, ds):
    for v in ds.variables.values():
        for d, s in zip(v.dimensions, v.array.dims):
            if d not in ds.dimensions:
                ctx.prove(T(False), 'every dimension of a variable is known')
            else:
                ctx.prove(ZI(ds.dimensions[d]) == s,
                          'dimension sizes are the variable shapes')


def pick(ctx, layouts=LAYOUTS):
    k = ctx.choose(len(layouts), 'layout')
    lazy = bool(ctx.choose(2, 'lazy'))
    ctx.input('layout', [list(d) for d in layouts[k]])
    ctx.input('lazy', lazy)
    return layouts[k], lazy


def slicing(ctx, n, name):
    """Any slice; its rows [lo, hi) and itself."""

    def end(which):
        if ctx.choose(2, f'{name} {which}'):
            v = ctx.int(f'{name}_{which}')
            ctx.input(f'{name}_{which}', v)
            return v
        ctx.input(f'{name}_{which}', None)
        return None

    def clamp(v, default):
        if v is None:
            return default
        w = z3.If(v < 0, v + n, v)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > n, n, w))

    a, b = end('start'), end('stop')
    lo, hi = clamp(a, z3.IntVal(0)), clamp(b, n)
    hi = z3.If(hi < lo, lo, hi)
    return slice(None if a is None else mkint(a),
                 None if b is None else mkint(b)), lo, hi


# -- replay ------------------------------------------------------------------
def size_of(i, d, tag='', cap=6):
    v = i.get(f'{tag}n_{d}')
    return max(0, min(int(v if v is not None else 2), cap))


def concrete(i, tag='', names='abc', base=0, layout=None, free=False):
    from zcollection import Array, Dataset, DelayedArray, meta
    cls = DelayedArray if i['lazy'] else Array
    out = []
    for k, dims in enumerate(layout or i['layout']):
        shape = tuple(max(0, min(int(i.get(f'{tag}{names[k]}_{d}', 2)), 6))
                      if free else size_of(i, d, tag) for d in dims)
        n = int(numpy.prod(shape))
        data = numpy.arange(n).reshape(shape) + 1000 * k + base
        out.append(cls(names[k], data, tuple(dims),
                       attrs=(meta.Attribute('u', k), ), fill_value=-k - 1))
    return out, lambda: Dataset(out, attrs=(meta.Attribute('p', 1), ),
                                chunks=[meta.Dimension('x', 7)],
                                block_size_limit=1234)


def agree(ds, want, src, attrs=True):
    err = []
    if list(ds.variables) != list(want):
        return [f'variables {list(ds.variables)}']
    for k, w in want.items():
        v = ds.variables[k]
        got = numpy.asarray(v.array)
        if got.shape != w.shape or not (got == w).all():
            err.append(f'{k}: {got.tolist()} instead of {w.tolist()}')
        o = src[k]
        for p in ('name', 'dimensions', 'attrs', 'compressor', 'fill_value',
                  'filters'):
            if p != 'name' and getattr(v, p) != getattr(o, p):
                err.append(f'{k}: {p} changed')
        if type(v) is not type(o):
            err.append(f'{k} is now a {type(v)}')
        for d, s in zip(v.dimensions, got.shape):
            if ds.dimensions.get(d) != s:
                err.append(f'size of {d}: {ds.dimensions.get(d)} != {s}')
    if attrs and [(a.name, a.value) for a in ds.attrs] != [('p', 1)]:
        err.append('attributes changed')
    if ds.chunks != {'x': 7} or ds.block_size_limit != 1234:
        err.append('chunks changed')
    return err


def key_of(i, d):
    if i.get(f'{d}_key') == 'slice':
        return slice(i.get(f's{d}_start'), i.get(f's{d}_stop'))
    if i.get(f'{d}_key') == 'rows':
        n = size_of(i, d)
        return numpy.array([n - 1, 0, 0][:n], dtype=int)
    return None


def replay_isel(i):
    vs, make = concrete(i)
    src = {v.name: v for v in vs}
    before = {k: numpy.array(v.array) for k, v in src.items()}
    keys = {d: key_of(i, d) for d in 'xy' if key_of(i, d) is not None}
    want = {k: before[k][tuple()] if not v.dimensions else before[k]
            for k, v in src.items()}
    for k, v in src.items():
        w = before[k]
        for a, d in enumerate(v.dimensions):
            if d in keys:
                w = w[(slice(None), ) * a + (keys[d], )]
        want[k] = numpy.asarray(w)
    ds = make()
    keys = {d: k for d, k in keys.items() if d in ds.dimensions}
    err = agree(ds.isel(keys), want, src)
    if any(not numpy.array_equal(before[k], numpy.asarray(v.array))
           for k, v in ds.variables.items()):
        err.append('the original is modified')
    return err


def replay_delete(i):
    vs, make = concrete(i)
    src = {v.name: v for v in vs}
    key = key_of(i, 'x')
    want = {}
    for k, v in src.items():
        w = numpy.array(v.array)
        if 'x' in v.dimensions:
            w = numpy.delete(w, key, list(v.dimensions).index('x'))
        want[k] = w
    ds = make()
    err = agree(ds.delete(key, 'x'), want, src)
    return err


# -- contracts ---------------------------------------------------------------
@contract('C20', 'Dataset: dimension sizes are the variable shapes, '
          'conflicts and mixtures are refused',
          [D + 'Dataset.__init__', D + '_update_dimensions'],
          world=nd_world, bounded=(), assumes=ASSUMES,
          replay=lambda i: replay_init(i))
def init(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy, free=True)
    mixed = len(layout) > 1 and bool(ctx.choose(2, 'mixed'))
    ctx.input('mixed', mixed)
    if mixed:
        o = Build(ctx, W, layout[-1:], not lazy, tag='m', free=True)
        v = o.vars[0]
        v.name = 'abc'[len(layout) - 1]
        b.vars[-1] = v
    given = {}
    same = []
    for v in b.vars:
        for d, s in zip(v.dimensions, v.array.dims):
            if d in given:
                same.append(given[d] == s)
            given.setdefault(d, s)
    ctx.cover('reachable')
    keep = list(b.vars)
    try:
        ds = b.dataset()
    except ValueError:
        ctx.prove(z3.Or(T(mixed), z3.Not(z3.And(same)) if same else T(False)),
                  'refused only for a conflict')
        return
    ctx.prove(T(not mixed), 'eager and lazy variables are not mixed')
    ctx.prove(z3.And(same) if same else T(True),
              'conflicting sizes are refused')
    ctx.prove(T(list(ds.variables.values()) == keep and list(ds.variables) ==
                [v.name for v in keep]), 'the given variables')
    ctx.prove(T(set(ds.dimensions) == set(given)), 'the given dimensions')
    ctx.prove(T(ds.delayed == lazy and tuple(ds.attrs) == b.attrs
                and ds.chunks == {'x': 7} and ds.block_size_limit == 1234),
              'the given properties')
    sizes(ctx, ds)


def replay_init(i):
    from zcollection import Dataset
    vs, make = concrete(i, free=True)
    if i.get('mixed'):
        o, _ = concrete(dict(i, lazy=not i['lazy'],
                             layout=i['layout'][-1:]), free=True)
        o[0].name = vs[-1].name
        vs[-1] = o[0]
    given, ok = {}, not i.get('mixed')
    for v in vs:
        for d, s in zip(v.dimensions, v.array.shape):
            ok = ok and given.setdefault(d, s) == s
    try:
        ds = Dataset(vs)
    except ValueError:
        return ['refused without conflict'] if ok else []
    if not ok:
        return ['conflict accepted']
    return [f'sizes {ds.dimensions} instead of {given}'] if \
        ds.dimensions != given else []


@contract('C20', 'isel: the same rows of every variable having the '
          'dimension, the others unchanged',
          [D + 'Dataset.isel', V + 'Variable.isel', V + 'new_variable'],
          world=nd_world, bounded=(), assumes=ASSUMES, replay=replay_isel)
def isel(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    slices, spec = {}, {}
    rows = False
    for d in sorted(b.sizes):
        k = ctx.choose(2 if rows else 3, f'key {d}')
        n = b.sizes[d]
        if k == 1:
            s, lo, hi = slicing(ctx, n, 's' + d)
            slices[d] = s
            spec[d] = (hi - lo, lambda i, lo=lo: lo + i)
            ctx.input(f'{d}_key', 'slice')
        elif k == 2:
            rows = True
            r = Rows(ctx, 'r' + d, n)
            slices[d] = r
            spec[d] = (r.n, r.row)
            ctx.input(f'{d}_key', 'rows')
    given = dict(slices)
    before = snapshot(ds)
    ctx.cover('reachable')
    try:
        r = ds.isel(slices)
    except (ValueError, KeyError, IndexError) as exc:
        ctx.fail(f'refused: {exc!r}')
        return
    whole(ctx, r, ds)
    for o in ds.variables.values():
        v = r.variables[o.name]
        kept(ctx, v, o)
        shape = [spec[d][0] if d in spec else s
                 for d, s in zip(o.dimensions, o.array.dims)]
        elements(ctx, v, o, shape, lambda *ix, o=o: o.array.at(*(
            spec[d][1](i) if d in spec else i
            for d, i in zip(o.dimensions, ix))), ' (isel)')
    ctx.prove(T(snapshot(ds) == before and slices == given),
              'the original is unchanged')


@contract('C20', 'isel: an unknown dimension is refused',
          [D + 'Dataset.isel'], world=nd_world, bounded=(), assumes=ASSUMES)
def isel_unknown(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    ctx.cover('reachable')
    before = snapshot(ds)
    try:
        ds.isel({'other': slice(None)})
        refused = False
    except ValueError:
        refused = True
    ctx.prove(T(refused), 'refused')
    ctx.prove(T(snapshot(ds) == before), 'the original is unchanged')


@contract('C20', 'delete: the same rows removed from every variable having '
          'the dimension', [D + 'Dataset.delete', D + '_delete_vars',
                            D + '_delete_delayed_vars',
                            D + '_duplicate_array',
                            D + '_duplicate_delayed_array'],
          world=nd_world, bounded=(), assumes=ASSUMES, replay=replay_delete)
def delete(ctx, W):
    layout, lazy = pick(ctx, [l for l in LAYOUTS if any('x' in d for d in l)])
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    n = b.sizes['x']
    if ctx.choose(2, 'indices'):
        obj = Deleted(ctx, 'gone')
        ctx.assume(obj.count(n) >= 0)
        m, move = obj.count(n), lambda i: obj.kept(n, i)
        ctx.input('x_key', 'rows')
    else:
        obj, lo, hi = slicing(ctx, n, 'sx')
        m, move = n - (hi - lo), lambda i: z3.If(i < lo, i, i + (hi - lo))
        ctx.input('x_key', 'slice')
    before = snapshot(ds)
    ctx.cover('reachable')
    try:
        r = ds.delete(obj, 'x')
    except (ValueError, KeyError, IndexError) as exc:
        ctx.fail(f'refused: {exc!r}')
        return
    whole(ctx, r, ds)
    for o in ds.variables.values():
        v = r.variables[o.name]
        kept(ctx, v, o)
        shape = [m if d == 'x' else s
                 for d, s in zip(o.dimensions, o.array.dims)]
        elements(ctx, v, o, shape, lambda *ix, o=o: o.array.at(*(
            move(i) if d == 'x' else i for d, i in zip(o.dimensions, ix))),
            ' (delete)')
    ctx.prove(T(snapshot(ds) == before), 'the original is unchanged')


def replay_concat(i):
    n = i['pieces']
    from zcollection import Dataset
    pieces = []
    for k in range(n + 1):
        vs, make = concrete(i, tag=f'p{k}', base=100 * k)
        pieces.append((vs, make))
    src = {v.name: v for v in pieces[0][0]}
    want, ok = {}, True
    for j, v in enumerate(pieces[0][0]):
        arrs = [numpy.array(p[0][j].array) for p in pieces]
        if 'x' in v.dimensions:
            a = list(v.dimensions).index('x')
            ok = ok and len({s.shape[:a] + s.shape[a + 1:]
                             for s in arrs}) == 1
            want[v.name] = numpy.concatenate(arrs, a) if ok else None
        else:
            want[v.name] = arrs[0]
    datasets = [p[1]() for p in pieces]
    try:
        others = datasets[1:]
        r = datasets[0].concat(others[0] if i.get('single') else others, 'x')
    except ValueError as exc:
        return [f'refused: {exc}'] if ok else []
    if not ok:
        return ['conflicting sizes accepted']
    return agree(r, want, src)


@contract('C20', 'concat: rows of every variable having the dimension, in '
          'order, the others unchanged; conflicting sizes refused',
          [D + 'Dataset.concat', V + 'concat',
           'zcollection/variable/array.py:Array.concat',
           'zcollection/variable/delayed_array.py:DelayedArray.concat'],
          world=nd_world, bounded=(), max_paths=20000,
          assumes=ASSUMES + ('at most three datasets are concatenated', ),
          replay=replay_concat)
def concat(ctx, W):
    layout, lazy = pick(ctx, [l for l in LAYOUTS if any('x' in d for d in l)
                              and len(l) < 3])
    n = 1 + ctx.choose(2, 'pieces')
    ctx.input('pieces', n)
    single = n == 1 and bool(ctx.choose(2, 'not in a list'))
    ctx.input('single', single)
    parts = [Build(ctx, W, layout, lazy, tag=f'p{k}')
             for k in range(n + 1)]
    ds = [p.dataset() for p in parts]
    before = [snapshot(d) for d in ds]
    ok = []
    for k, dims in enumerate(layout):
        if 'x' in dims:
            ok += [parts[0].sizes[d] == p.sizes[d] for p in parts[1:]
                   for d in dims if d != 'x']
    ok = z3.And(ok) if ok else T(True)
    # conflicts between the variables of the result
    out = {}
    clash = []
    for dims in layout:
        for d in dims:
            s = sum((p.sizes['x'] for p in parts[1:]), parts[0].sizes['x']) \
                if d == 'x' else parts[0].sizes[d]
            clash.append(out.setdefault(d, s) != s)
    ctx.cover('reachable')
    try:
        r = ds[0].concat(ds[1] if single else ds[1:], 'x')
    except ValueError:
        ctx.prove(z3.Or(z3.Not(ok), *clash), 'refused only for a conflict')
        ctx.prove(T([snapshot(d) for d in ds] == before),
                  'the originals are unchanged')
        return
    ctx.prove(ok, 'conflicting sizes are refused')
    whole(ctx, r, ds[0])
    for o in ds[0].variables.values():
        v = r.variables[o.name]
        kept(ctx, v, o)
        if 'x' not in o.dimensions:
            elements(ctx, v, o, o.array.dims, o.array.at, ' (concat, other)')
            continue
        a = o.dimensions.index('x')
        arrs = [d.variables[o.name].array for d in ds]
        total = arrs[0].dims[a]
        for x in arrs[1:]:
            total = total + x.dims[a]

        def where(*ix, arrs=arrs, a=a):
            i, e = ix[a], None
            off = [z3.IntVal(0)]
            for x in arrs:
                off.append(off[-1] + x.dims[a])
            for k in reversed(range(len(arrs))):
                t = arrs[k].at(*ix[:a], i - off[k], *ix[a + 1:])
                e = t if e is None else z3.If(i < off[k + 1], t, e)
            return e

        elements(ctx, v, o, [total if d == 'x' else s for d, s in zip(
            o.dimensions, o.array.dims)], where, ' (concat)')
    ctx.prove(T([snapshot(d) for d in ds] == before),
              'the originals are unchanged')


@contract('C20', 'concat: nothing, or eager with lazy, is refused',
          [D + 'Dataset.concat'], world=nd_world, bounded=(),
          assumes=ASSUMES)
def concat_refused(ctx, W):
    layout, lazy = pick(ctx, [l for l in LAYOUTS if any('x' in d for d in l)
                              and len(l) < 3])
    p = Build(ctx, W, layout, lazy, tag='p0')
    q = Build(ctx, W, layout, not lazy, tag='p1', sizes=p.sizes)
    same = Build(ctx, W, layout, lazy, tag='p2', sizes=p.sizes)
    a, b, c = p.dataset(), q.dataset(), same.dataset()
    ctx.cover('reachable')
    k = ctx.choose(4, 'what')
    try:
        a.concat([[], [b], [c, b], [b, c]][k], 'x')
        refused = False
    except ValueError:
        refused = True
    ctx.prove(T(refused), 'refused')


def replay_merge(i):
    a, make_a = concrete(i, tag='a')
    b, make_b = concrete(i, tag='b', names=i['names'], base=5000,
                         layout=i['layout2'])
    if i.get('mixed'):
        b, make_b = concrete(dict(i, lazy=not i['lazy']), tag='b',
                             names=i['names'], base=5000,
                             layout=i['layout2'])
    from zcollection import meta
    x, y = make_a(), make_b()
    y.attrs = (meta.Attribute('p', 3), meta.Attribute('r', 4))
    ok = not i.get('mixed') and not set(x.variables) & set(y.variables) and \
        all(x.dimensions[d] == y.dimensions[d]
            for d in set(x.dimensions) & set(y.dimensions))
    want = {v.name: numpy.array(v.array) for v in a}
    src = {v.name: v for v in a}
    try:
        x.merge(y)
    except ValueError as exc:
        if ok:
            return [f'refused: {exc}']
        return agree(x, want, src)
    if not ok:
        return ['conflict accepted']
    for v in b:
        want[v.name] = numpy.array(v.array)
        src[v.name] = v
    err = agree(x, want, src, attrs=False)
    if {a.name: a.value for a in x.attrs} != dict(p=3, r=4):
        err.append(f'attributes {x.attrs}')
    return err


@contract('C20', 'merge: union of the variables and attributes; conflicts '
          'are refused and change nothing', [D + 'Dataset.merge'],
          world=nd_world, bounded=(), assumes=ASSUMES, replay=replay_merge)
def merge(ctx, W):
    two = [l for l in LAYOUTS if len(l) < 3]
    layout, lazy = pick(ctx, two)
    second = [(('x', ), ), (('y', 'x'), ), ((), ), (('z', ), ('x', ))]
    layout2 = second[ctx.choose(len(second), 'second')]
    names = ['de', 'ad', 'db'][ctx.choose(3, 'names')]
    mixed = bool(ctx.choose(2, 'mixed'))
    ctx.input('layout2', [list(d) for d in layout2])
    ctx.input('names', names)
    ctx.input('mixed', mixed)
    A = W['meta'].Attribute
    pa = Build(ctx, W, layout, lazy, tag='a')
    pb = Build(ctx, W, layout2, lazy != mixed, tag='b', names=names,
               attrs=(('p', 3), ('r', 4)))
    a, b = pa.dataset(), pb.dataset()
    va, vb = dict(a.variables), dict(b.variables)
    sa, sb = snapshot(a), snapshot(b)
    conflict = z3.Or(T(mixed or set(va) & set(vb)), *[
        pa.sizes[d] != pb.sizes[d] for d in set(pa.sizes) & set(pb.sizes)])
    ctx.cover('reachable')
    try:
        r = a.merge(b)
    except ValueError:
        ctx.prove(conflict, 'refused only for a conflict')
        ctx.prove(T(snapshot(a) == sa and snapshot(b) == sb),
                  'a refused merge changes nothing')
        return
    ctx.prove(z3.Not(conflict), 'conflicts are refused')
    ctx.prove(T(snapshot(b) == sb), 'the merged dataset is unchanged')
    ctx.prove(T(r is None and dict(a.variables) == {**va, **vb}),
              'union of the variables')
    ctx.prove(T([state(v) for v in va.values()] == [i[2:] for i in sa[0]]
                and [state(v) for v in vb.values()] == [
                    i[2:] for i in sb[0]]), 'variables unchanged')
    ctx.prove(T({i.name: i.value for i in a.attrs} == dict(p=3, q=2, r=4)
                and len(a.attrs) == 3), 'union of the attributes')
    ctx.prove(T(a.delayed == lazy and tuple(a.chunks.items()) == sa[3]
                and a.block_size_limit == sa[4]), 'properties kept')
    ctx.prove(T(set(a.dimensions) == set(pa.sizes) | set(pb.sizes)),
              'union of the dimensions')
    sizes(ctx, a)


def replay_vars(i):
    vs, make = concrete(i)
    src = {v.name: v for v in vs}
    data = {v.name: numpy.array(v.array) for v in vs}
    ds = make()
    first = vs[0].name
    err = agree(ds.select_vars([first]), {first: data[first]}, src)
    err += agree(ds.select_vars(first), {first: data[first]}, src)
    for dims in ((), ('x', ), ('y', ), ('x', 'y')):
        for pred in (True, False):
            want = {v.name: data[v.name] for v in vs if pred == (
                bool(set(v.dimensions) & set(dims)) if dims else
                not v.dimensions)}
            err += agree(ds.select_variables_by_dims(dims, pred), want, src)
    err += agree(ds, data, src)
    ds.rename({first: 'zz'})
    want = {('zz' if k == first else k): v for k, v in data.items()}
    got = {k: numpy.array(v.array) for k, v in ds.variables.items()}
    if set(got) != set(want) or any(
            not numpy.array_equal(got[k], want[k]) for k in want) or any(
                k != v.name for k, v in ds.variables.items()):
        err.append(f'rename gives {list(ds.variables)}')
    ds = make()
    ds.drops_vars(first)
    err += agree(ds, {k: v for k, v in data.items() if k != first}, src)
    return err


@contract('C20', 'selecting variables, by name or by dimensions, changes '
          'nothing else', [D + 'Dataset.select_vars',
                           D + 'Dataset.select_variables_by_dims'],
          world=nd_world, bounded=(), assumes=ASSUMES, replay=replay_vars)
def select(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    before = snapshot(ds)
    names = list(ds.variables)
    how = ctx.choose(3, 'how')
    ctx.cover('reachable')
    if how == 0:
        want = [x for x in names if ctx.choose(2, x)]
        if want and ctx.choose(2, 'reversed'):
            want.reverse()
        r = ds.select_vars(want)
    elif how == 1:
        want = [names[ctx.choose(len(names), 'name')]]
        r = ds.select_vars(want[0])
    else:
        dims = [(), ('x', ), ('y', ), ('x', 'y'), ('t', )][
            ctx.choose(5, 'dims')]
        pred = bool(ctx.choose(2, 'predicate'))
        r = ds.select_variables_by_dims(dims, pred)
        want = [k for k, v in ds.variables.items() if pred == (
            bool(set(v.dimensions) & set(dims)) if dims else
            len(v.dimensions) == 0)]
    whole(ctx, r, ds, want)
    for k in want:
        kept(ctx, r.variables[k], ds.variables[k])
        o = ds.variables[k]
        elements(ctx, r.variables[k], o, o.array.dims, o.array.at,
                 ' (select)')
    ctx.prove(T(snapshot(ds) == before), 'the original is unchanged')


@contract('C20', 'renaming or dropping variables changes nothing else',
          [D + 'Dataset.rename', D + 'Dataset.drops_vars',
           V + 'Variable.rename'],
          world=nd_world, bounded=(), assumes=ASSUMES, replay=replay_vars)
def rename(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    old = dict(ds.variables)
    olds = {k: state(v) for k, v in old.items()}
    before = snapshot(ds)
    names = list(old)
    ctx.cover('reachable')
    if ctx.choose(2, 'drop'):
        gone = [x for x in names if ctx.choose(2, x)]
        if len(gone) == 1 and ctx.choose(2, 'alone'):
            ds.drops_vars(gone[0])
        else:
            ds.drops_vars(gone)
        ctx.prove(T(list(ds.variables.items()) == [
            (k, v) for k, v in old.items() if k not in gone]),
            'only the given variables are dropped')
        ctx.prove(T({k: state(v) for k, v in old.items()} == olds),
                  'variables unchanged')
    else:
        new = {}
        for x in names:
            k = ctx.choose(3, x)
            if k:
                # a new name, or the name of a variable of the dataset
                new[x] = f'n{x}' if k == 1 else names[-1]
        try:
            ds.rename(new)
        except ValueError:
            ctx.prove(T(any(n in names for n in new.values())),
                      'refused only for an existing name')
            return
        ctx.prove(T(set(ds.variables) == {new.get(x, x) for x in names}
                    and len(ds.variables) == len(names)),
                  'no variable is lost')
        for x in names:
            v = ds.variables[new.get(x, x)]
            kept(ctx, v, old[x], name=new.get(x, x))
            elements(ctx, v, old[x], old[x].array.dims, old[x].array.at,
                     ' (rename)')
        ctx.prove(T({k: state(v) for k, v in old.items()} == olds),
                  'the variables given are not modified')
    after = snapshot(ds)
    ctx.prove(T(after[1:] == before[1:]), 'nothing else changes')


def replay_add(i):
    from zcollection import meta
    vs, make = concrete(i)
    src = {v.name: v for v in vs}
    data = {v.name: numpy.array(v.array) for v in vs}
    ds = make()
    dims = tuple(i['dims'])
    md = meta.Variable('new', numpy.dtype('int64'), dimensions=dims,
                       fill_value=5)
    sizes_ = {d: ds.dimensions.get(d) for d in dims}
    ok = None not in sizes_.values()
    shape = tuple(size_of(i, f'd{k}', '', 6) if i['data'] else sizes_[d]
                  for k, d in enumerate(dims)) if ok else ()
    if i['data'] and ok:
        ok = shape == tuple(sizes_[d] for d in dims)
    value = numpy.arange(int(numpy.prod(shape))).reshape(shape) \
        if i['data'] else None
    try:
        ds.add_variable(md, value)
    except ValueError as exc:
        return [f'refused: {exc}'] if ok else agree(ds, data, src)
    if not ok:
        return ['conflicting variable accepted']
    data['new'] = value if i['data'] else numpy.full(shape, 5)
    src['new'] = ds.variables['new']
    err = agree(ds, data, src)
    if ds.variables['new'].metadata() != md:
        err.append('properties of the added variable')
    return err


@contract('C20', 'add_variable: the given or the default values under the '
          'known dimensions; conflicts refused', [D + 'Dataset.add_variable'],
          world=nd_world, bounded=(), assumes=ASSUMES, replay=replay_add)
def add(ctx, W):
    layout, lazy = pick(ctx, [l for l in LAYOUTS if len(l) < 3])
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    dims = [(), ('x', ), ('x', 'y'), ('y', 'x'), ('t', )][ctx.choose(
        5, 'dims')]
    ctx.input('dims', list(dims))
    p = props(W, 9)
    md = W['meta'].Variable('new', numpy.dtype('int64'), dimensions=dims, **p)
    given = bool(ctx.choose(2, 'data'))
    ctx.input('data', given)
    data, ok, at = None, [T(set(dims) <= set(b.sizes))], None
    if given:
        shape = []
        for k, d in enumerate(dims):
            s = ctx.int(f'd{k}')
            ctx.assume(s >= 0)
            ctx.input(f'n_d{k}', s)
            shape.append(s)
            if d in b.sizes:
                ok.append(s == b.sizes[d])
        f = z3.Function('new', *[z3.IntSort()] * (len(dims) + 1)) \
            if dims else None
        c = ctx.int('new_0')
        at = (lambda *ix: f(*ix)) if dims else (lambda: c)
        # any kind of array may be given
        kind = 'dask' if ctx.choose(2, 'lazy data') else 'numpy'
        data = ND(shape, at, kind)
        if len(dims) and ctx.choose(2, 'missing axis'):
            data = ND(shape[1:], lambda *ix: f(z3.IntVal(0), *ix), kind)
            ok.append(T(False))
    before = snapshot(ds)
    ctx.cover('reachable')
    try:
        ds.add_variable(md, data)
    except ValueError:
        ctx.prove(z3.Not(z3.And(ok)), 'refused only for a conflict')
        ctx.prove(T(snapshot(ds) == before), 'a refusal changes nothing')
        return
    ctx.prove(z3.And(ok), 'conflicts are refused')
    v = ds.variables['new']
    ctx.prove(T(snapshot(ds)[0][:-1] == before[0] and list(ds.variables)[-1]
                == 'new' and snapshot(ds)[1:] == before[1:]),
              'nothing else changes')
    ctx.prove(T(v.array.kind == ('dask' if lazy else 'numpy') and type(v) is (
        W['variable'].DelayedArray if lazy else W['variable'].Array)),
        'a variable of the kind of the dataset')
    for k, x in dict(p, name='new', dimensions=dims).items():
        ctx.prove(T(getattr(v, k) == x), f'{k} given')
    a = v.array
    ctx.prove(T(a.ndim == len(dims)), 'number of axes')
    for d, s in zip(dims, a.dims):
        ctx.prove(s == b.sizes[d], 'sizes of the dataset')
    ix = index(ctx, a.dims)
    ctx.prove(a.at(*ix) == (at(*ix) if given else z3.IntVal(
        p['fill_value'])), 'the given or the default values')


@contract(['C20', 'C05'], 'set_for_insertion: the same arrays and storage '
          'properties, the chunks of the collection',
          [D + 'Dataset.set_for_insertion', V + 'Variable.set_for_insertion'],
          world=nd_world, bounded=(), assumes=ASSUMES)
def insertion(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    before = snapshot(ds)

    class M:
        chunks = (W['meta'].Dimension('y', 3), )
        block_size_limit = 99

    ctx.cover('reachable')
    r = ds.set_for_insertion(M())
    ctx.prove(T(list(r.variables) == list(ds.variables)), 'variables')
    for o in ds.variables.values():
        v = r.variables[o.name]
        for p in ('name', 'dimensions', 'compressor', 'fill_value',
                  'filters'):
            ctx.prove(T(getattr(v, p) == getattr(o, p)), f'{p} kept')
        elements(ctx, v, o, o.array.dims, o.array.at, ' (insertion)')
    ctx.prove(T(r.chunks == {'y': 3} and r.block_size_limit == 99),
              'chunks of the collection')
    sizes(ctx, r)
    ctx.prove(T(snapshot(ds) == before), 'the original is unchanged')


@contract('C20', 'compute: the eager dataset of the same elements',
          [D + 'Dataset.compute'], world=nd_world, bounded=(),
          assumes=ASSUMES)
def compute(ctx, W):
    layout, lazy = pick(ctx)
    b = Build(ctx, W, layout, lazy)
    ds = b.dataset()
    before = snapshot(ds)
    ctx.cover('reachable')
    r = ds.compute()
    ctx.prove(T(list(r.variables) == list(ds.variables)), 'variables')
    ctx.prove(T(tuple(r.attrs) == tuple(ds.attrs) and r.chunks == ds.chunks
                and r.block_size_limit == ds.block_size_limit
                and not r.delayed), 'properties kept')
    for o in ds.variables.values():
        v = r.variables[o.name]
        ctx.prove(T(type(v) is W['variable'].Array and v.array.kind ==
                    'numpy'), 'eager')
        for p in PROPS:
            ctx.prove(T(getattr(v, p) == getattr(o, p)), f'{p} kept')
        ix = index(ctx, o.array.dims)
        ctx.prove(T(v.array.ndim == o.array.ndim), 'number of axes')
        for s, t in zip(v.array.dims, o.array.dims):
            ctx.prove(s == t, 'sizes')
        ctx.prove(v.array.at(*ix) == o.array.at(*ix), 'elements')
    sizes(ctx, r)
    ctx.prove(T(snapshot(ds) == before), 'the original is unchanged')
