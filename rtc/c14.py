"""Histories of view operations (creation with filters, additions, updates with
and without overlap, removals, loads with filters, selections and indexers,
maps, synchronizations, refused operations), comparing the bytes of the
reference before and after each operation and the loaded rows with the model.
Non-trivial: the reference holds at least one row."""
import warnings

import numpy

from rtc import base, zc


def vdef(s, name, nd, fill):
    m = zc.z().meta
    return m.Variable(name, numpy.dtype('float64'),
                      dimensions=('nx', s.dim) if nd == 3 else (
                          s.dim, 'nx')[:nd],
                      attrs=(m.Attribute('long_name', name + '!'), ),
                      fill_value=fill)


def history(i):
    s = zc.Schema(i['kind'], res='D', ncol=2, delayed=False, dim=i['dim'])
    rows = s.rows(i['times'], i['keys'], 4)
    p = base.scratch()
    err = []
    try:
        c = zc.create(s, rows, p)
        if rows['time'].size:
            list(c.insert(s.dataset(rows)))
        state = s.split(rows)
        ref = base.tree(p)
        Z = zc.z()
        vp = p + '-view'
        f = i['filter']
        v = Z.create_view(vp, Z.view.ViewReference(p), filters=f)
        inview = {k for k in state if f is None or eval(f, {}, dict(k))}
        own = {}

        def guard(label):
            d = base.tree_diff(ref, base.tree(p))
            import os
            side = [x for x in os.listdir(os.path.dirname(p))
                    if x not in ('c', 'c-view')]
            out = [f'{label}: reference changed {d[:3]}'] if d else []
            return out + ([f'{label}: wrote {side}'] if side else [])

        err += guard('create')
        for n, op in enumerate(i['ops']):
            o = op['op']
            label = f'op {n} {o} {op.get("name", "")}'
            if o == 'add':
                nm = op['name']
                if nm in own or nm in s.names:
                    err += refused(vp, lambda: v.add_variable(
                        vdef(s, nm, 1, 0.5)), label)
                else:
                    v.add_variable(vdef(s, nm, op['nd'], op['fill']))
                    own[nm] = dict(nd=op['nd'], fill=op['fill'], val={})
                    for k in inview:
                        own[nm]['val'][k] = full(state[k], op['nd'],
                                                 op['fill'])
            elif o == 'drop':
                nm = op['name']
                if nm in own:
                    v.drop_variable(nm)
                    del own[nm]
                else:
                    err += refused(vp, lambda: v.drop_variable(nm), label)
            elif o == 'update':
                nm = op['name']
                if nm in own:
                    nd = own[nm]['nd']
                    a = float(n + 2)

                    def up(zds, scale, shift=0):
                        x = numpy.ma.filled(zc.values(zds['v1']), 0.)
                        y = x * scale + shift
                        return {nm: y if nd == 1 else numpy.stack(
                            [y] * zds.dimensions['nx'], int(nd == 2))}

                    sel = {k for k in inview if op['filter'] is None or
                           eval(op['filter'], {}, dict(k))}
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        v.update(up, a, shift=1, filters=op['filter'],
                                 delayed=op['delayed'],
                                 npartitions=op['npart'],
                                 depth=op['depth'])
                    for k in sel:
                        y = state[k]['v1'] * a + 1
                        own[nm]['val'][k] = y if nd == 1 else numpy.stack(
                            [y] * s.nx, 1)
                elif own and inview:
                    err += refused(vp, lambda: v.update(
                        lambda z: {nm: zc.values(z['v1'])}), label)
            elif o == 'reopen':
                v = Z.open_view(vp)
            elif o == 'sync':
                v.sync(op['filter'])
                for k in state:
                    if k not in inview:
                        for w in own.values():
                            w['val'][k] = full(state[k], w['nd'], w['fill'])
                inview = set(state)
            elif o == 'check':
                if v.is_synced() != (inview == set(state)):
                    err.append(f'{label}: is_synced {v.is_synced()}')
            elif o == 'load' and own:
                err += load(v, s, state, inview, own, op, label)
            elif o == 'map' and own:
                got = dict(v.map(lambda z: zc.ds_rows(z),
                                 delayed=op['delayed']).compute())
                if set(got) != inview:
                    err.append(f'{label}: partitions {sorted(got)}')
                for k in set(got) & inview:
                    err += zc.diff_rows(got[k], part(s, state, own, k),
                                        f'{label} {k}')
            err += guard(label)
            if set(v.metadata.variables) != set(own):
                err.append(f'{label}: view owns {set(v.metadata.variables)}')
            got = [x[len(vp) + 1:] for x in v.partitions()]
            if got != [s.relname(k) for k in sorted(inview)]:
                err.append(f'{label}: partitions {got}')
            if err:
                return err[:4]
        return err
    finally:
        base.clean(p)


def full(rows, nd, fill):
    return numpy.full(rows['v2'].shape if nd > 1 else rows['time'].shape,
                      fill)


def part(s, state, own, k):
    w = zc.expect(state[k], s)
    for nm, o in own.items():
        w[nm] = numpy.ma.masked_equal(o['val'][k], o['fill'])
    return w


def load(v, s, state, inview, own, op, label):
    keys = sorted(k for k in inview if op['filter'] is None or
                  eval(op['filter'], {}, dict(k)))
    sel = op['select']
    names = list(s.names) + list(own)
    if sel is not None:
        names = [x for x in names if x in sel]
    kw = {}
    pieces = {k: [slice(None)] for k in keys}
    if op['indexer']:
        idx = []
        pieces = {}
        r = base.rng(op['indexer'], 'idx')
        for k in sorted(state):
            n = len(state[k]['time'])
            for _ in range(int(r.integers(0, 3))):
                a, b = sorted(int(x) for x in r.integers(0, n + 1, 2))
                if a < b:
                    idx.append((k, slice(a, b)))
                    if k in keys:
                        pieces.setdefault(k, []).append(slice(a, b))
        if not idx:
            return []
        kw['indexer'] = idx
    zds = v.load(delayed=op['delayed'], filters=op['filter'],
                 selected_variables=sel, **kw)
    keys = [k for k in keys if k in pieces]
    if not keys:
        return [] if zds is None else [f'{label}: something loaded '
                                       f'{zc.ds_rows(zds)}']
    if zds is None:
        return [f'{label}: nothing loaded']
    if not names:
        return [] if not zds.variables else [f'{label}: extra variables']
    parts = []
    for k in keys:
        w = part(s, state, own, k)
        for sl in pieces[k]:
            parts.append({x: w[x][sl] for x in names})
    want = {x: numpy.ma.concatenate([q[x] for q in parts]) if
            numpy.ma.isMaskedArray(parts[0][x]) else
            numpy.concatenate([q[x] for q in parts]) for x in names}
    err = zc.diff_rows(zc.ds_rows(zds), want, label)
    for nm in own:
        if nm in zds.variables:
            a = [(x.name, x.value) for x in zds[nm].attrs]
            if a != [('long_name', nm + '!')]:
                err.append(f'{label}: attributes of {nm}: {a}')
    return err


def refused(vp, f, label):
    before = base.tree(vp)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            f()
        return [f'{label}: accepted']
    except ValueError:
        pass
    d = base.tree_diff(before, base.tree(vp))
    return [f'{label}: refused but {d[:4]}'] if d else []


def template(i):
    """No reference variable with such dimensions: refused, no trace."""
    s = zc.Schema('seq', ncol=1, delayed=False, swap=False)
    rows = s.rows(['2000-01-01'] * 2, [[1], [2]], 4)
    p = base.scratch()
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        Z = zc.z()
        v = Z.create_view(p + '-view', Z.view.ViewReference(p))
        m = Z.meta
        bad = m.Variable('b', numpy.dtype('f8'), dimensions=tuple(i['dims']))
        err = refused(p + '-view', lambda: v.add_variable(bad), f'{i["dims"]}')
        if 'b' in v.metadata.variables:
            err.append('refused variable kept in the metadata')
        v.add_variable(vdef(s, 'b', 1, 2.5))
        zds = v.load(delayed=False)
        if not zc.eq_masked(zds['b'].values, numpy.ma.masked_equal(
                numpy.full(2, 2.5), 2.5)):
            err.append('addition after a refusal')
        return err
    finally:
        base.clean(p)


CASES = dict(history=history, template=template)


def generate(seed, tier):
    r = base.rng(seed, 'c14')
    q = tier == 'quick'
    for d in (['nx', 'num'], ['nx'], ['other'], ['num', 'other']):
        yield 'template', dict(dims=d)
    for j in range(28 if q else 400):
        kind = ['date', 'seq'][j % 2]
        fs = ['day < 3', 'day % 2 == 0', 'day > 90'] if kind == 'date' else [
            'k0 == 1', 'j1 != 0', 'k0 > 9']
        flt = lambda: None if r.random() < 0.6 else fs[r.integers(3)]
        n = int(r.integers(1, 9))
        ops = [dict(op='add', name='w1', nd=int(r.integers(1, 4)),
                    fill=-9.5)]
        for _ in range(int(r.integers(3, 9))):
            k = r.integers(12)
            nm = str(r.choice(['w1', 'w2', 'w3', 'v1']))
            if k < 2:
                ops.append(dict(op='add', name=nm, nd=int(r.integers(1, 4)),
                                fill=float(r.integers(-3, 3)) + 0.25))
            elif k < 5:
                ops.append(dict(op='update', name=nm, filter=flt(),
                                delayed=bool(r.integers(2)),
                                npart=[None, 1, 3][r.integers(3)],
                                depth=0))
            elif k < 6:
                ops.append(dict(op='drop', name=nm))
            elif k < 9:
                sel = [None, None, ['v1', 'w1'], ['w1'], ['time', 'w2'],
                       ['v2'], ['zz'], ['w1', 'w2']][r.integers(8)]
                ops.append(dict(op='load', filter=flt(), select=sel,
                                delayed=bool(r.integers(2)),
                                indexer=int(r.integers(0, 40)) if
                                r.integers(2) else 0))
            else:
                ops.append([dict(op='map', delayed=bool(r.integers(2))),
                            dict(op='reopen'), dict(op='check'),
                            dict(op='sync', filter=flt())][r.integers(4)])
        yield 'history', dict(
            kind=kind, dim=str(r.choice(['num', 'time'])), filter=flt(),
            times=zc.rand_times(r, n, 120), keys=zc.rand_keys(r, n, 2),
            ops=ops)
