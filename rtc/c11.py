"""Every public operation on a collection opened read-only (explicitly or by
default), on damaged and sound collections, with and without arguments;
the bytes of the tree before and after. Non-trivial: the collection holds at
least one row."""
import datetime
import io
import warnings

import numpy

from rtc import base, zc


def make(i):
    s = zc.Schema(i['kind'], res='D', ncol=2, imm=i['imm'], delayed=False)
    rows = s.rows(i['times'], i['keys'], 3)
    p = base.scratch()
    c = zc.create(s, rows, p)
    list(c.insert(s.dataset(rows)))
    return s, rows, p, c


def damage(p, s, rows):
    """Truncate a chunk of one partition."""
    import os
    k = sorted(s.split(rows))[0]
    d = os.path.join(p, s.relname(k), 'v2')
    for f in os.listdir(d):
        if not f.startswith('.'):
            with open(os.path.join(d, f), 'wb') as h:
                h.write(b'xx')


def ops(c, s, rows, p):
    m = zc.z().meta

    def upd(zds):
        return {'v1': zc.values(zds['v1']) + 1}

    var = m.Variable('nw', numpy.dtype('float64'), dimensions=(s.dim, ),
                     fill_value=0.5)
    day = datetime.timedelta(0)
    return dict(
        insert=lambda: list(c.insert(s.dataset(rows))),
        insert_merge=lambda: list(c.insert(
            s.dataset(rows), merge_callable=zc.z().merging.merge_time_series)),
        insert_kw=lambda: list(c.insert(s.dataset(rows), validate=True,
                                        npartitions=2)),
        update=lambda: c.update(upd),
        update_named=lambda: c.update(upd, variables=['v1'], depth=1,
                                      delayed=False),
        update_none=lambda: c.update(upd, filters=lambda k: False),
        add=lambda: c.add_variable(var),
        drop=lambda: c.drop_variable('v1'),
        drop_partitions=lambda: list(c.drop_partitions()),
        drop_partitions_old=lambda: list(c.drop_partitions(timedelta=day)),
        drop_partitions_none=lambda: list(c.drop_partitions(
            filters=lambda k: False)),
        repair=lambda: c.validate_partitions(fix=True),
        repair_filter=lambda: c.validate_partitions(
            filters=lambda k: True, fix=True),
    )


OPS = ('insert', 'insert_merge', 'insert_kw', 'update', 'update_named',
       'update_none', 'add', 'drop', 'drop_partitions', 'drop_partitions_old',
       'drop_partitions_none', 'repair', 'repair_filter')


def refuse(i):
    s, rows, p, c = make(i)
    try:
        if i['damaged']:
            damage(p, s, rows)
        before = base.tree(p)
        if i['how'] == 'default':
            r = zc.z().open_collection(p)
        elif i['how'] == 'r':
            r = zc.z().open_collection(p, mode='r')
        elif i['how'] == 'ctor':
            r = zc.z().Collection('time', c.metadata, s.handler(), p, mode='r')
        else:
            r = c.copy(p + '-copy', mode='r')
            p2 = p + '-copy'
            before2 = base.tree(p2)
        err = []
        if not r.is_readonly() or r.mode != 'r':
            err.append(f'{i["how"]}: not read-only')
        meta = r.metadata.get_config()
        for name in i['ops']:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    ops(r, s, rows, p)[name]()
                err.append(f'{name} accepted in read-only mode ({i["how"]})')
            except io.UnsupportedOperation:
                pass
            d = base.tree_diff(before, base.tree(p))
            if i['how'] == 'copy':
                d += base.tree_diff(before2, base.tree(p2))
            if d:
                err.append(f'{name} changed {d[:4]} in read-only mode')
                break
            if r.metadata.get_config() != meta:
                err.append(f'{name} changed the metadata')
        return err[:5]
    finally:
        base.clean(p)


def reading(i):
    """Reading never writes."""
    s, rows, p, c = make(i)
    try:
        if i['damaged']:
            damage(p, s, rows)
        before = base.tree(p)
        err = []
        for mode in ('r', 'w'):
            r = zc.reopen(p, mode=mode)
            acts = dict(
                partitions=lambda: list(r.partitions()),
                locked=lambda: list(r.partitions(lock=True, relative=True)),
                is_locked=lambda: r.is_locked(),
                records=lambda: list(r.iterate_on_records()),
                variables=lambda: r.variables(),
                str=lambda: str(r) + repr(r))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if not i['damaged']:
                    acts.update(
                        load=lambda: r.load(delayed=False),
                        lazy=lambda: [zc.values(v) for v in
                                      r.load().variables.values()],
                        map=lambda: r.map(lambda z: 1).compute(),
                        mapo=lambda: r.map_overlap(lambda z: 1,
                                                   depth=1).compute())
                acts['validate'] = lambda: r.validate_partitions()
                for n, f in acts.items():
                    f()
                    d = base.tree_diff(before, base.tree(p))
                    if d:
                        return [f'{n} in mode {mode} changed {d[:4]}']
        return err
    finally:
        base.clean(p)


def modes(i):
    s = zc.Schema('date', res='D', delayed=False)
    rows = s.rows(i['times'], None, 3)
    base.client()
    p = base.scratch()
    import os
    err = []
    try:
        C = zc.z().Collection
        meta = s.dataset(rows).metadata()
        for mode in ('x', 'a', 'rw', ''):
            try:
                C('time', meta, s.handler(), p, mode=mode)
                if mode:
                    err.append(f'mode {mode!r} accepted')
            except ValueError:
                pass
            if mode and os.path.exists(p):
                err.append(f'mode {mode!r} wrote something')
        import shutil
        shutil.rmtree(p, ignore_errors=True)
        C('time', meta, s.handler(), p, mode='r')
        if os.path.exists(p + '/.zcollection'):
            err.append('read-only mode wrote the configuration')
        c = C('time', meta, s.handler(), p, mode='w')
        if not os.path.exists(p + '/.zcollection'):
            err.append('write mode did not write the configuration')
        one = open(p + '/.zcollection', 'rb').read()
        list(c.insert(s.dataset(rows)))
        zc.reopen(p, mode='w')
        if open(p + '/.zcollection', 'rb').read() != one:
            err.append('opening changed the configuration')
        for mode in ('x', 'a'):
            try:
                zc.reopen(p, mode=mode)
                err.append(f'opened with mode {mode!r}')
            except ValueError:
                pass
        return err
    finally:
        base.clean(p)


CASES = dict(refuse=refuse, reading=reading, modes=modes)


def generate(seed, tier):
    r = base.rng(seed, 'c11')
    yield 'modes', dict(times=zc.rand_times(r, 4, 60))
    for j in range(8 if tier == 'quick' else 60):
        n = int(r.integers(1, 8))
        kw = dict(kind=['date', 'seq'][j % 2], imm=bool(r.integers(2)),
                  times=zc.rand_times(r, n, 90), keys=zc.rand_keys(r, n, 2),
                  damaged=bool(j // 2 % 2))
        yield 'refuse', dict(kw, how=['default', 'r', 'ctor',
                                      'copy'][(j + j // 4) % 4],
                             ops=list(r.permutation(OPS)))
        yield 'reading', dict(kw)
