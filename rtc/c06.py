"""Histories of insertions (new, repeated, overlapping and out of order
partitions; missing variables; merge functions; validation; eager or lazy;
local or memory file system) compared with a reference model read back with
zarr alone; non-trivial: at least one row inserted."""
import numpy

from rtc import base, zc


def keep_both(existing, inserted, axis, dim, **kw):
    return existing.concat(inserted, dim)


def as_xarray(s, rows):
    """The same rows as a xarray dataset."""
    import xarray
    if s.imm:
        rows = dict(rows, imm=s.imm_values())
    out = {}
    for k, v in rows.items():
        f = s.fill(k)
        out[k] = xarray.Variable(
            s.dims(k), v.T if k == 'v3' else v, {} if k == 'imm' else dict(unit=k + '_unit'),
            {} if f is None else {'_FillValue': f})
    return xarray.Dataset(out, attrs=dict(title='T'))


def fs_of(i, p):
    import fsspec
    if i.get('fs') == 'memory':
        return fsspec.filesystem('memory')
    return fsspec.filesystem('file')


def history(i):
    s = zc.Schema(i['kind'], res=i['res'], dim=i['dim'], imm=i['imm'],
                  ncol=2, delayed=i['delayed'], missing=True)
    p = base.scratch()
    fs = fs_of(i, p)
    err = []
    state = {}
    try:
        first = s.rows(i['ops'][0]['times'], i['ops'][0]['keys'], 0)
        c = zc.create(s, first, p, filesystem=fs)
        conf = base_config(fs, p)
        for n, op in enumerate(i['ops']):
            rows = s.rows(op['times'], op['keys'], n + 1)
            given = {k: v for k, v in rows.items() if k not in op['missing']}
            zds = as_xarray(s, given) if op.get('xarray') else s.dataset(given)
            merge = None
            if op['merge'] == 'ts':
                merge = zc.z().merging.merge_time_series
            elif op['merge'] == 'both':
                merge = keep_both
            kw = {}
            if op['npart']:
                kw['npartitions'] = op['npart']
            before = {k: v for k, v in state.items()}
            names = list(c.insert(zds, merge_callable=merge,
                                  validate=op['validate'], **kw))
            for k in op['missing']:
                rows[k] = numpy.full(rows[k].shape, s.fill(k),
                                     dtype=rows[k].dtype)
            part = s.split(rows)
            for k, v in part.items():
                if merge is None or k not in state:
                    state[k] = v
                elif op['merge'] == 'both':
                    state[k] = zc.cat([state[k], v])
                else:
                    old = state[k]
                    lo, hi = v['time'].min(), v['time'].max()
                    out = (old['time'] < lo) | (old['time'] > hi)
                    a = zc.take(old, old['time'] < lo)
                    b = zc.take(old, old['time'] > hi)
                    state[k] = zc.cat([a, v, b])
            want = [p + '/' + s.relname(k) for k in sorted(part)]
            if sorted(names) != sorted(want):
                err.append(f'insert {n} returned {names} instead of {want}')
            err += zc.check_store(p, s, state, fs, label=f'after insert {n}')
            if base_config(fs, p) != conf:
                err.append(f'insert {n} changed the configuration')
            if err:
                return err
        err += zc.check_load(c, s, state, delayed=False)
        # only the expected entries at the root
        names = sorted(x.rstrip('/').split('/')[-1] for x in fs.ls(
            p, detail=False))
        roots = {s.relname(k).split('/')[0] for k in state}
        extra = set(names) - roots - {'.zcollection', '.immutable'}
        if extra:
            err.append(f'leftovers {extra}')
        return err
    finally:
        if i.get('fs') == 'memory' and fs.exists(p):
            fs.rm(p, recursive=True)
        base.clean(p)


def base_config(fs, p):
    return fs.cat(p + '/.zcollection')


def refused(i):
    """validate=True refuses another structure before writing anything."""
    s = zc.Schema('date', res='D', delayed=False, missing=True)
    rows = s.rows(i['times'], None, 1)
    p = base.scratch()
    try:
        c = zc.create(s, rows, p)
        list(c.insert(s.dataset(rows)))
        before = base.tree(p)
        D = zc.z().dataset
        r2 = s.rows(i['times'], None, 2)
        r2['time'] = r2['time'] + numpy.timedelta64(i['shift'], 'D')
        zds = s.dataset(r2)
        w = i['what']
        if w == 'extra':
            zds.add_variable(zc.z().meta.Variable('other', numpy.dtype('f8'),
                                                  dimensions=(s.dim, )))
        elif w == 'dtype':
            vs = [v for k, v in zds.variables.items() if k != 'v1']
            vs.append(D.Array('v1', r2['v1'].astype('float32'), (s.dim, ),
                              attrs=zds['v1'].attrs, fill_value=s.fill('v1')))
            zds = D.Dataset(vs, attrs=zds.attrs, delayed=False)
        elif w == 'attrs':
            zds.variables['v1'].attrs = (D.Attribute('unit', 'other'), )
        elif w == 'fill':
            vs = [v for k, v in zds.variables.items() if k != 'v1']
            vs.append(D.Array('v1', r2['v1'], (s.dim, ),
                              attrs=zds['v1'].attrs, fill_value=1.0))
            zds = D.Dataset(vs, attrs=zds.attrs, delayed=False)
        elif w == 'dsattrs':
            zds.attrs = (D.Attribute('title', 'U'), )
        try:
            list(c.insert(zds, validate=True))
            return [f'dataset with different {w} accepted']
        except ValueError:
            pass
        d = base.tree_diff(before, base.tree(p))
        return [f'refused dataset ({w}) changed {d[:5]}'] if d else []
    finally:
        base.clean(p)


CASES = dict(history=history, refused=refused)


def gen_ops(r, n, kind):
    ops = []
    # merge_time_series requires ordered stored rows
    style = str(r.choice(['ts', 'both']))
    for _ in range(n):
        m = int(r.integers(1, 9))
        span = int(r.choice([60, 150]))
        merge = str(r.choice(['none', style]))
        ops.append(dict(
            times=zc.rand_times(r, m, span),
            keys=zc.rand_keys(r, m, 2) if kind == 'seq' else None,
            merge=merge if kind == 'date' else merge.replace('ts', 'none'),
            missing=[[], [], ['v1'], ['v2'], ['v1', 'v2']][r.integers(5)],
            validate=bool(r.integers(2)),
            npart=int(r.integers(0, 4)), xarray=bool(r.random() < .3)))
    return ops


def generate(seed, tier):
    r = base.rng(seed, 'c06')
    q = tier == 'quick'
    for w in ('extra', 'dtype', 'attrs', 'fill', 'dsattrs'):
        for sh in (0, 5):
            yield 'refused', dict(what=w, shift=sh,
                                  times=zc.rand_times(r, 4, 50))
    for j in range(28 if q else 400):
        kind = ['date', 'seq'][j % 2]
        imm = bool(r.integers(2))
        ops = gen_ops(r, int(r.integers(1, 5)), kind)
        if not imm:  # the size of the other dimension must be known
            for op in ops:
                op['missing'] = [m for m in op['missing'] if m != 'v2']
        yield 'history', dict(
            kind=kind, res=str(r.choice(['M', 'D', 'h'])),
            dim=str(r.choice(['num', 'time'])), imm=imm,
            delayed=bool(r.integers(2)), fs=['file', 'memory'][j // 2 % 2],
            ops=ops)
