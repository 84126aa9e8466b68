"""Random sets of variables over up to three dimensions (zero sizes, scalars
and masked entries included), eager and lazy: every row operation compared
with the same numpy operation applied to each variable having the dimension;
operands and refused operations leave their operands unchanged; non-trivial: at
least two variables."""
import numpy

from rtc import base, zc

DIMS = ('x', 'y', 'z')


def make(i, delayed, tag=0, sizes=None, only=None):
    from zcollection import dataset as D
    sizes = sizes or i['sizes']
    r = numpy.random.default_rng([i['seed'], tag])
    out, vs = {}, []
    for k, v in i['vars'].items():
        if only is not None and k not in only:
            continue
        shape = tuple(sizes[d] for d in v['dims'])
        a = r.integers(-4, 5, shape)
        a = a.astype('datetime64[D]') if v['dtype'] == 'M' else a.astype(
            v['dtype'])
        out[k] = a
        cls = D.DelayedArray if delayed else D.Array
        arr = a.copy()
        if delayed and i.get('chunk') and a.ndim and a.size:
            import dask.array
            arr = dask.array.from_array(arr, chunks=i['chunk'])
        vs.append(cls(k, arr, v['dims'], attrs=(D.Attribute('n', k), ),
                      fill_value=None if v['fill'] is None else a.dtype.type(
                          v['fill'])))
    return out, D.Dataset(
        vs, attrs=(D.Attribute('t', tag), D.Attribute(f'a{tag}', 1)),
        delayed=delayed, block_size_limit=1 << 20,
        chunks=[D.Dimension('x', 3)])


def check(zds, want, i, label, order=False, attrs=True):
    err = []
    got = {}
    for k, v in zds.variables.items():
        if v.name != k:
            err.append(f'{label}: variable {k} named {v.name}')
        a = numpy.asarray(v.array.compute() if hasattr(
            v.array, 'compute') else v.array)
        got[k] = a
        if attrs and k in i['vars']:
            d = i['vars'][k]
            if v.dimensions != tuple(d['dims']):
                err.append(f'{label}: {k} dimensions {v.dimensions}')
            if [(x.name, x.value) for x in v.attrs] != [('n', k)]:
                err.append(f'{label}: {k} attributes {v.attrs}')
            if (v.fill_value is None) != (d['fill'] is None):
                err.append(f'{label}: {k} fill value {v.fill_value}')
            elif d['fill'] is not None and k in want:
                m = numpy.ma.getmaskarray(numpy.ma.asarray(v.values))
                w = want[k] == want[k].dtype.type(d['fill'])
                if not base.same(m, w):
                    err.append(f'{label}: {k} mask {m} instead of {w}')
        for d, n in zip(v.dimensions, a.shape):
            if zds.dimensions.get(d) != n:
                err.append(f'{label}: dimensions {zds.dimensions} but {k} '
                           f'has shape {a.shape}')
    err += zc.diff_rows(got, want, label)
    if order and list(got) != list(want):
        err.append(f'{label}: order {list(got)}')
    return err


def index(spec, n):
    if spec[0] == 'slice':
        return slice(*spec[1])
    if spec[0] == 'mask':
        return numpy.resize(numpy.array(spec[1], dtype=bool), n) \
            if n else numpy.zeros(0, bool)
    return numpy.array([j % n for j in spec[1]] if n else [], dtype='int64')


def props(zds, i, label, tag=0, attrs=True):
    err = []
    if zds.block_size_limit != 1 << 20 or zds.chunks != {'x': 3}:
        err.append(f'{label}: storage properties lost')
    if attrs and [(a.name, a.value) for a in zds.attrs] != [
            ('t', tag), (f'a{tag}', 1)]:
        err.append(f'{label}: attributes {zds.attrs}')
    return err


def isel(i):
    err = []
    for delayed in (False, True):
        ref, zds = make(i, delayed)
        sl = {d: index(s, i['sizes'][d]) for d, s in i['index'].items()
              if d in zds.dimensions}
        want = {}
        for k, a in ref.items():
            for ax, d in enumerate(i['vars'][k]['dims']):
                if d in sl:
                    s = sl[d]
                    a = a[(slice(None), ) * ax + (s, )]
            want[k] = a
        got = zds.isel(sl)
        lb = f'isel delayed={delayed}'
        err += check(got, want, i, lb) + props(got, i, lb)
        err += check(zds, ref, i, lb + ' operand')
        if got.delayed != delayed:
            err.append(f'{lb}: delayed flag')
        try:
            zds.isel({'nope': slice(0, 1)})
            err.append(f'{lb}: unknown dimension accepted')
        except ValueError:
            pass
    return err[:4]


def delete(i):
    err = []
    ax = i['axis']
    for delayed in (False, True):
        ref, zds = make(i, delayed)
        if ax not in zds.dimensions:
            return []
        n = i['sizes'][ax]
        s = index(i['spec'], n)
        want = {k: numpy.delete(a, s, i['vars'][k]['dims'].index(ax))
                if ax in i['vars'][k]['dims'] else a for k, a in ref.items()}
        lb = f'delete delayed={delayed}'
        got = zds.delete(s, ax)
        err += check(got, want, i, lb) + props(got, i, lb)
        err += check(zds, ref, i, lb + ' operand')
    return err[:4]


def concat(i):
    err = []
    d = i['dim']
    for delayed in (False, True):
        parts = []
        for t, n in enumerate(i['pieces']):
            parts.append(make(i, delayed, t, dict(i['sizes'], **{d: n})))
        refs = [p[0] for p in parts]
        want = {k: numpy.concatenate([r[k] for r in refs],
                                     i['vars'][k]['dims'].index(d))
                if d in i['vars'][k]['dims'] else refs[0][k]
                for k in refs[0]}
        lb = f'concat delayed={delayed}'
        got = parts[0][1].concat([p[1] for p in parts[1:]], d)
        err += check(got, want, i, lb) + props(got, i, lb)
        if len(parts) == 2:
            err += check(parts[0][1].concat(parts[1][1], d), want, i, lb)
        for t, p in enumerate(parts):
            err += check(p[1], p[0], i, f'{lb} operand {t}')
        try:
            parts[0][1].concat([], d)
            err.append(f'{lb}: empty sequence accepted')
        except ValueError:
            pass
    # pieces that disagree on another dimension, or mix eager and lazy
    o = i['other']
    both = [k for k, v in i['vars'].items()
            if d in v['dims'] and o in v['dims'] and o != d]
    for delayed in (False, True):
        a = make(i, delayed, 0)[1]
        if both:
            b = make(i, delayed, 1, dict(i['sizes'], **{
                o: i['sizes'][o] + 1}))[1]
            try:
                got = a.concat(b, d)
                err.append(f'concat of conflicting sizes along {o} gave '
                           f'{got.dimensions}')
            except ValueError:
                pass
        if len(a.variables):
            try:
                a.concat(make(i, not delayed, 1)[1], d)
                err.append('concat of eager and lazy pieces accepted')
            except ValueError:
                pass
    return err[:4]


def merge(i):
    err = []
    names = list(i['vars'])
    left, right = names[:i['cut']], names[i['cut']:]
    if not left or not right:
        return []
    for delayed in (False, True):
        lb = f'merge delayed={delayed}'
        ra, a = make(i, delayed, 0, only=left)
        rb, b = make(i, delayed, 1, only=right)
        a.merge(b)
        err += check(a, dict(ra, **rb), i, lb)
        if {x.name: x.value for x in a.attrs} != dict(t=1, a0=1, a1=1):
            err.append(f'{lb}: attributes {a.attrs}')
        err += check(b, rb, i, lb + ' operand')
        # conflicts: a variable of the same name, another size
        ra, a = make(i, delayed, 0, only=left)
        dims = dict(a.dimensions)
        rb, b = make(i, delayed, 1, only=right + left[-1:])
        bad = [b]
        common = {d for k in left for d in i['vars'][k]['dims']} & {
            d for k in right for d in i['vars'][k]['dims']}
        for d in sorted(common):
            bad.append(make(i, delayed, 1, dict(i['sizes'], **{
                d: i['sizes'][d] + 1}), only=right)[1])
        bad.append(make(i, not delayed, 1, only=right)[1])
        for b in bad:
            try:
                a.merge(b)
                err.append(f'{lb}: conflict accepted')
            except ValueError:
                pass
            err += check(a, ra, i, lb + ' after a refusal')
            if a.dimensions != dims:
                err.append(f'{lb}: dimensions {a.dimensions} after a refusal')
        err += check(a, ra, i, lb + ' after refusals') + props(a, i, lb)
    return err[:4]


def select(i):
    err = []
    names = list(i['vars'])
    pick = [names[j % len(names)] for j in i['pick']]
    pick = list(dict.fromkeys(pick))
    for delayed in (False, True):
        ref, zds = make(i, delayed)
        got = zds.select_vars(pick)
        err += check(got, {k: ref[k] for k in pick}, i, 'select', True)
        err += props(got, i, 'select')
        err += check(zds.select_vars(pick[0]), {pick[0]: ref[pick[0]]}, i,
                     'select one')
        for dims in ([], [i['dim']], list(DIMS[:2])):
            for pred in (True, False):
                if dims:
                    w = [k for k in names
                         if bool(set(i['vars'][k]['dims']) & set(dims))
                         == pred]
                else:
                    w = [k for k in names
                         if (len(i['vars'][k]['dims']) == 0) == pred]
                got = zds.select_variables_by_dims(dims, pred)
                err += check(got, {k: ref[k] for k in w}, i,
                             f'by_dims {dims} {pred}')
        err += check(zds, ref, i, 'select operand', True)
        zds.rename({pick[0]: 'renamed'})
        w = dict(ref)
        w['renamed'] = w.pop(pick[0])
        err += check(zds, w, i, 'rename')
        other = [k for k in names if k != pick[0]]
        if other:
            try:
                zds.rename({'renamed': other[0]})
                err.append('rename to an existing name accepted')
            except ValueError:
                pass
            err += check(zds, w, i, 'refused rename')
        ref, zds = make(i, delayed)
        zds.drops_vars(pick)
        err += check(zds, {k: v for k, v in ref.items() if k not in pick}, i,
                     'drop')
    return err[:4]


def add(i):
    from zcollection import meta
    err = []
    for delayed in (False, True):
        ref, zds = make(i, delayed)
        dims = tuple(d for d in i['newdims'] if d in zds.dimensions)
        shape = tuple(zds.dimensions[d] for d in dims)
        data = numpy.arange(int(numpy.prod(shape)), dtype='int64').reshape(
            shape)
        mv = meta.Variable('new', numpy.dtype('int64'), dimensions=dims,
                           fill_value=-7)
        zds.add_variable(mv, data.copy())
        err += check(zds, dict(ref, new=data), i, 'add')
        mv = meta.Variable('new2', numpy.dtype('int64'), dimensions=dims,
                           fill_value=-7)
        zds.add_variable(mv)
        err += check(zds, dict(ref, new=data, new2=numpy.full(
            shape, -7, 'int64')), i, 'add without data')
        bads = []
        for ax in range(len(dims)):
            s = list(shape)
            s[ax] += 1
            bads.append(numpy.zeros(s, 'int64'))
        bads.append(numpy.zeros(shape + (2, ), 'int64'))
        if shape:
            bads.append(numpy.zeros(shape[:-1], 'int64'))
        for b in bads:
            try:
                zds.add_variable(meta.Variable(
                    'bad', numpy.dtype('int64'), dimensions=dims), b)
                err.append(f'array of shape {b.shape} accepted for the '
                           f'dimensions {dims} of sizes {shape}')
            except ValueError:
                pass
        try:
            zds.add_variable(meta.Variable(
                'bad', numpy.dtype('int64'), dimensions=('nope', )))
            err.append('unknown dimension accepted')
        except ValueError:
            pass
        if 'bad' in zds.variables and not err:
            err.append('a refused variable was added')
    return err[:4]


def lazy(i):
    err = []
    ref, zds = make(i, True)
    c = zds.compute()
    err += check(c, ref, i, 'compute', True) + props(c, i, 'compute')
    if c.delayed:
        err.append('compute: delayed flag')
    err += check(zds.rechunk(chunks=1), ref, i, 'rechunk', True)
    for k, v in zds.to_dict().items():
        if not base.same(numpy.ma.getdata(v), ref[k]):
            err.append(f'to_dict: {k}')
    err += check(zds.persist(), ref, i, 'persist', True)
    _, zds = make(i, True)
    for k in ref:
        v = zds.variables[k].persist()
        if not hasattr(v.array, 'dask'):
            err.append(f'persist of {k}: {type(v.array)}')
        elif not base.same(numpy.asarray(v.array.compute()), ref[k]):
            err.append(f'persist of {k}: values changed')
    import pickle
    for delayed in (False, True):
        ref, zds = make(i, delayed)
        err += check(pickle.loads(pickle.dumps(zds)), ref, i, 'pickle', True)
    from zcollection import dataset as D
    ref, zds = make(i, False)
    for k, a in ref.items():
        for ax in range(a.ndim):
            d = i['vars'][k]['dims'][ax]
            s = list(a.shape)
            s[ax] += 1
            for cls, o in ((D.Array, zds), (D.DelayedArray, make(i, True)[1])):
                try:
                    D.Dataset([*o.variables.values(), cls(
                        'c', numpy.zeros(s), i['vars'][k]['dims'])])
                    err.append(f'conflicting sizes of {d} accepted')
                except ValueError:
                    pass
    return err[:4]


def memory(i):
    """Data persisted in memory, compressed or not, have the same rows."""
    err = []
    for compress in (False, True):
        ref, zds = make(i, True)
        if compress and any(not a.size or not a.ndim for a in ref.values()):
            continue  # zarr cannot chunk them
        zds = zds.persist(compress=compress)
        lb = f'persist compress={compress}'
        err += check(zds, ref, i, lb, True) + props(zds, i, lb)
        if err:
            return err[:4]
        err += check(zds.compute(), ref, i, lb + ' compute', True)
        for k, v in zds.to_dict().items():
            if not base.same(numpy.ma.getdata(numpy.ma.asarray(
                    v.__array__())), ref[k]):
                err.append(f'{lb} to_dict: {k}')
        d = i['dim']
        n = zds.dimensions[d]
        s = index(i['spec'], n)
        axes = {k: list(i['vars'][k]['dims']).index(d) for k in ref
                if d in i['vars'][k]['dims']}
        err += check(zds.isel({d: s}), {
            k: a[(slice(None), ) * axes[k] + (s, )] if k in axes else a
            for k, a in ref.items()}, i, lb + ' isel')
        _, other = make(i, True)
        cat = {k: numpy.concatenate((a, a), axis=axes[k])
               if k in axes else a for k, a in ref.items()}
        err += check(zds.concat(other, d), cat, i, lb + ' concat')
        err += check(other.concat(zds, d), cat, i, lb + ' concat to')
    return err[:4]


def pieces(i):
    """Cutting a dataset in row ranges and concatenating them is identity."""
    err = []
    d = i['dim']
    n = i['sizes'][d]
    cuts = sorted({0, n, *(c % (n + 1) for c in i['cuts'])})
    if len(cuts) < 3:
        return []
    for delayed in (False, True):
        ref, zds = make(i, delayed)
        if d not in zds.dimensions:
            return []
        ps = [zds.isel({d: slice(a, b)}) for a, b in zip(cuts, cuts[1:])]
        err += check(ps[0].concat(ps[1:], d), ref, i, 'cut and concat', True)
    return err[:4]


CASES = dict(isel=isel, delete=delete, concat=concat, merge=merge,
             select=select, add=add, lazy=lazy, pieces=pieces,
             memory=memory)
BUDGET = dict(quick=120)


def generate(seed, tier):
    r = base.rng(seed, 'c20')
    q = tier == 'quick'

    def ints(n, lo=0, hi=12):
        return [int(v) for v in r.integers(lo, hi, n)]

    def spec(mask=True):
        c = int(r.integers(0, 3))
        if c == 1 and not mask:  # deletion takes indices only
            c = 2
        if c == 0:
            a = [None if r.random() < .3 else int(v)
                 for v in r.integers(-7, 8, 2)]
            return ['slice', a + [int(r.choice([1, 2, 3]))]]
        if c == 1:
            return ['mask', [bool(v) for v in r.integers(0, 2, 7)]]
        return ['ints', ints(int(r.integers(0, 5)))]

    for j in range(30 if q else 400):
        sizes = {d: int(r.choice([0, 1, 2, 3, 4, 6], p=[
            .08, .12, .2, .2, .2, .2])) for d in DIMS}
        vs = {}
        for n in range(int(r.integers(2, 5))):
            k = int(r.choice([0, 1, 2, 3], p=[.1, .5, .3, .1]))
            dims = [DIMS[t] for t in r.permutation(3)[:k]]
            if n == 0 and not dims:
                dims = ['x']
            dt = str(r.choice(['int16', 'float32', 'float64', 'M', 'bool']))
            vs[f'v{(2, 0, 3, 1)[n]}'] = dict(dims=dims, dtype=dt, fill=None if dt in (
                'M', 'bool') or r.random() < .5 else int(r.integers(-2, 3)))
        b = dict(sizes=sizes, vars=vs, seed=int(r.integers(0, 10**6)),
                 chunk=int(r.choice([0, 1, 2])))
        used = sorted({d for v in vs.values() for d in v['dims']})
        fancy = str(r.choice(used))
        idx = {fancy: spec()}
        for d in used:
            if d != fancy and r.random() < .5:
                idx[d] = ['slice', [int(r.integers(0, 3)), None, 1]]
        yield 'isel', dict(b, index=idx)
        yield 'delete', dict(b, axis=str(r.choice(used)), spec=spec(False))
        d = str(r.choice(used))
        yield 'concat', dict(b, dim=d, pieces=[
            int(v) for v in r.integers(0, 4, int(r.integers(2, 5)))],
            other=str(r.choice(DIMS)))
        yield 'merge', dict(b, cut=int(r.integers(1, len(vs))))
        yield 'select', dict(b, pick=ints(2), dim=d)
        yield 'add', dict(b, newdims=[str(v) for v in r.permutation(DIMS)[
            :int(r.integers(0, 3))]])
        yield 'lazy', dict(b)
        yield 'pieces', dict(b, dim=d, cuts=ints(3))
        yield 'memory', dict(b, dim=d, spec=spec())
