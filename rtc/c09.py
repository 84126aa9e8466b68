"""Partitions of unequal sizes; map_overlap and update with every depth,
trimmed or not, collections and views; the function records its window.
Non-trivial: at least one partition."""
import numpy

from rtc import base, zc


def setup(i):
    ncol = i['ncol']
    s = zc.Schema('seq', ncol=ncol, dim=i['dim'], imm=i['imm'], delayed=False)
    keys = []
    for k, n in enumerate(i['sizes']):
        # with two keys, the last directory has the same name in several
        # partitions
        keys += [[k * 2] if ncol == 1 else [k // 2 * 2, k % 2 * 2]] * n
    n = len(keys)
    rows = s.rows(zc.rand_times(base.rng(i['seed'], 't'), n, 900), keys,
                  i['seed'])
    p = base.scratch()
    c = zc.create(s, rows, p)
    list(c.insert(s.dataset(rows)))
    return s, rows, p, c


def windows(state, keys, d):
    out = {}
    for j, k in enumerate(keys):
        ws = keys[max(0, j - d):j + d + 1]
        before = sum(len(state[x]['time']) for x in ws if x < k)
        out[k] = (zc.cat(state[x] for x in ws), before,
                  before + len(state[k]['time']))
    return out


def turned(y, s):
    """A variable with the partitioned dimension in second position."""
    return (y[None, :] % 91 + numpy.arange(s.nx)[:, None]).astype('int16')


def overlap(i):
    s, rows, p, c = setup(i)
    err = []
    try:
        state = s.split(rows)
        keys = sorted(k for k in state
                      if i['filter'] is None or eval(i['filter'], {}, dict(k)))
        d = i['depth']
        win = windows(state, keys, d)
        sel = i['variables']
        target = c
        if i['view']:
            vs = list(s.names)
            m = zc.z().meta
            target = zc.z().create_view(p + '-view',
                                        zc.z().view.ViewReference(p))
            target.add_variable(m.Variable('w', numpy.dtype('float64'),
                                           dimensions=(s.dim, ),
                                           fill_value=-5.5))
            target.update(lambda z: {'w': z['v1'].values * 10},
                          **({} if not i['imm'] else {}))
            for k in state:
                state[k] = dict(state[k], w=state[k]['v1'] * 10)
            win = windows(state, keys, d)

        def rec(zds, partition_info=None):
            return zc.ds_rows(zds), dict(zds.dimensions), partition_info

        def rec2(zds):
            return zc.ds_rows(zds), dict(zds.dimensions), None

        for fn, info in ((rec, True), (rec2, False)):
            got = list(target.map_overlap(
                fn, depth=d, filters=i['filter'], delayed=i['delayed'],
                selected_variables=sel).compute())
            if sorted(k for k, _ in got) != keys:
                err.append(f'map_overlap over {[k for k, _ in got]}')
            for k, (rws, dims, inf) in got:
                w, a, b = win.get(k, (None, 0, 0))
                if w is None:
                    continue
                w = zc.expect(w, s)
                if s.imm:
                    w['imm'] = s.imm_values()
                if sel is not None:
                    w = {x: y for x, y in w.items() if x in sel}
                err += zc.diff_rows(rws, w, f'window of {k} depth={d}')
                if info and (inf is None or inf[0] != s.dim or
                             (inf[1].start, inf[1].stop) != (a, b)):
                    err.append(f'position of {k}: {inf} instead of '
                               f'{(a, b)}')
            if err:
                return err[:4]
        # update
        name = 'w' if i['view'] else 'v1'
        kw = {}
        if not i['view'] and sel is not None:
            kw['selected_variables'] = list(set(sel) | {'v1', 'v2', 'v3'})
        if i['trim']:
            # depends on the whole window and on the position in it
            def up(zds):
                v = numpy.ma.filled(numpy.asarray(zc.values(zds['v2'])), 0)
                x = v.astype('float64').sum(axis=1)
                y = numpy.cumsum(x) + x.size * 1000
                return {name: y} if i['view'] else {
                    name: y, 'v3': turned(y, s)}

            target.update(up, depth=d, filters=i['filter'],
                          delayed=i['delayed'], trim=True, **kw)
        else:
            def up(zds, partition_info=None):
                dim, sl = partition_info
                v = numpy.ma.filled(numpy.asarray(zc.values(zds['v2'])), 0)
                x = v.astype('float64').sum(axis=1)
                y = (numpy.cumsum(x) + x.size * 1000)[sl]
                return {name: y} if i['view'] else {
                    name: y, 'v3': turned(y, s)}

            target.update(up, depth=d, filters=i['filter'],
                          delayed=i['delayed'], trim=False, **kw)
        for k in keys:
            w, a, b = win[k]
            x = w['v2'].astype('float64').sum(axis=1)
            y = (numpy.cumsum(x) + x.size * 1000)[a:b]
            state[k][name] = y
            if not i['view']:
                state[k]['v3'] = turned(y, s).T
        if i['view']:
            zds = target.load(delayed=False)
            rows = zc.cat(state[k] for k in sorted(state))
            if not zc.eq_masked(zds['w'].values, rows['w']):
                err.append(f'view after update depth={d} '
                           f'{zc.show(zds["w"].values)} instead of '
                           f'{zc.show(rows["w"])}')
        else:
            err += zc.check_store(p, s, state, label=f'update depth={d} '
                                  f'trim={i["trim"]}')
        return err[:4]
    finally:
        base.clean(p)


CASES = dict(overlap=overlap)
BUDGET = dict(quick=60)


def generate(seed, tier):
    r = base.rng(seed, 'c09')
    q = tier == 'quick'
    for j in range(28 if q else 400):
        n = int(r.integers(1, 8))
        view = j % 3 == 2
        ncol = 1 + j % 2
        f = None if r.random() < 0.6 else str(r.choice(
            ['k0 != 2', 'k0 > 1', 'k0 % 4 == 0'] if ncol == 1 else
            ['j1 == 0', 'k0 > 1', 'k0 + j1 != 2']))
        sizes = [int(x) for x in r.integers(1, 5, n)]
        depth = int(r.integers(1, n + 2))
        imm = bool(r.integers(2)) and not view
        yield 'overlap', dict(
            ncol=ncol, sizes=sizes, depth=depth, filter=None if view else f, imm=imm,
            dim=str(r.choice(['num', 'time'])), delayed=bool(r.integers(2)),
            trim=bool(r.integers(2)), view=view, seed=j,
            variables=None if view or r.random() < 0.6 else ['v1', 'v2'])
