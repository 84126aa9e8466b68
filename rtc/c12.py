"""Histories of additions, removals, insertions and refused operations on
collections with and without partitions, plus a failure injected at each
file-system call of an addition; configuration, reopened metadata and stored
arrays compared with the model. Non-trivial: at least one schema change."""
import os
import warnings

import numpy

from rtc import base, zc
from rtc.c05 import FaultFS, arm, disarm, S as FS


def conf(p):
    import json
    with open(p + '/.zcollection', encoding='utf-8') as h:
        d = json.load(h)
    return {v['name']: v for v in d['dataset']['variables']}


def check(p, s, c, state, extra, dropped, label):
    err = []
    want = (set(s.names) - set(dropped)) | set(extra)
    for what, got in (('configuration', set(conf(p))),
                      ('metadata', set(c.metadata.variables)),
                      ('reopened', set(zc.reopen(p).metadata.variables))):
        if got != want:
            err.append(f'{label}: {what} has {sorted(got)} instead of '
                       f'{sorted(want)}')
    got = zc.read_store(p)
    got.pop('.immutable', None)
    for k, rows in state.items():
        rel = s.relname(k)
        g = got.get(rel)
        if g is None:
            err.append(f'{label}: {rel} missing')
            continue
        w = {n: v for n, v in zc.expect(rows, s).items() if n not in dropped}
        for n, spec in extra.items():
            base_shape = rows['v2' if spec['ndim'] == 2 else 'time'].shape
            w[n] = numpy.ma.masked_equal(
                numpy.full(base_shape, spec['fill'], dtype=spec['dtype']),
                spec['fill'])
            if n in rows:
                w[n] = rows[n]
        for n in list(g):
            if n in extra and n in w:
                if g[n].dtype != w[n].dtype:
                    err.append(f'{label}: {n} stored as {g[n].dtype}')
        err += zc.diff_rows(g, w, f'{label} {rel}')
        # nothing left on disk of dropped variables
        for n in dropped:
            if os.path.exists(os.path.join(p, rel, n)):
                err.append(f'{label}: files of {n} left in {rel}')
    return err


def var(s, name, spec):
    m = zc.z().meta
    return m.Variable(name, numpy.dtype(spec['dtype']),
                      dimensions=(s.dim, 'nx')[:spec['ndim']],
                      attrs=(m.Attribute('long_name', name), ),
                      fill_value=spec['fill'])


def history(i):
    s = zc.Schema(i['kind'], res='D', ncol=2, imm=i['imm'], delayed=False,
                  dim=i['dim'], missing=True)
    if i['chunk']:
        s.chunk = i['chunk']
    rows = s.rows(i['times'], i['keys'], 3)
    p = base.scratch()
    err = []
    try:
        c = zc.create(s, rows, p)
        state, extra, dropped = {}, {}, []
        for n, op in enumerate(i['ops']):
            label = f'op {n} {op["op"]} {op.get("name", "")}'
            if op['op'] == 'insert':
                if dropped or extra:
                    continue
                list(c.insert(s.dataset(rows)))
                state = s.split(rows)
            elif op['op'] == 'add':
                if op['name'] in extra or (
                        op['name'] in s.names and op['name'] not in dropped):
                    err += refused(p, lambda: c.add_variable(
                        var(s, op['name'], op)), label)
                elif op['name'] in s.names:
                    continue
                elif op['ndim'] == 2 and 'v2' in dropped:
                    continue
                else:
                    c.add_variable(var(s, op['name'], op))
                    extra[op['name']] = op
            elif op['op'] == 'drop':
                nm = op['name']
                if nm in extra:
                    c.drop_variable(nm)
                    del extra[nm]
                elif nm in ('v1', 'v2') and nm not in dropped:
                    if nm == 'v2' and any(e['ndim'] == 2
                                          for e in extra.values()):
                        continue
                    c.drop_variable(nm)
                    dropped.append(nm)
                else:
                    err += refused(p, lambda: c.drop_variable(nm), label)
            elif op['op'] == 'reopen':
                c = zc.reopen(p)
            elif op['op'] == 'bad':
                m = zc.z().meta
                v = m.Variable('bad', numpy.dtype('f8'),
                               dimensions=tuple(op['dims'](s) if callable(
                                   op['dims']) else [s.dim if d == '@' else d
                                                     for d in op['dims']]))
                err += refused(p, lambda: c.add_variable(v), label)
            err += check(p, s, c, state, extra, dropped, label)
            if err:
                return err[:5]
        if state:
            zds = c.load(delayed=False)
            want = (set(s.names) - set(dropped)) | set(extra)
            if set(zds.variables) != want:
                err.append(f'loaded {sorted(zds.variables)}')
            for nm, spec in extra.items():
                a = [(x.name, x.value) for x in zds[nm].attrs]
                if a != [('long_name', nm)]:
                    err.append(f'attributes of {nm}: {a}')
        return err
    finally:
        base.clean(p)


def refused(p, f, label):
    before = base.tree(p)
    try:
        f()
        return [f'{label}: accepted']
    except ValueError:
        pass
    d = base.tree_diff(before, base.tree(p))
    return [f'{label}: refused but {d[:4]}'] if d else []


def failing(i):
    """One file-system call fails while a variable is added."""
    s = zc.Schema('seq', ncol=1, imm=i['imm'], delayed=False, nx=1, missing=True)
    base.client(1)
    rows = s.rows(['2000-01-01'] * 4, [[0], [1], [1], [2]], 1)
    p = base.scratch()
    try:
        c = zc.create(s, rows, p, filesystem=FaultFS())
        list(c.insert(s.dataset(rows)))
        before = base.tree(p)
        arm(p, i['at'], 'once')
        raised = None
        spec = dict(ndim=1, dtype='int32', fill=7)
        try:
            c.add_variable(var(s, 'nw', spec))
        except Exception as e:
            raised = e
        finally:
            fired = FS['fired']
            disarm()
        if raised is None:
            d = check(p, s, c, s.split(rows), {'nw': spec}, [], 'added')
            return d[:4]
        if not fired:
            raise raised
        d = base.tree_diff(before, base.tree(p), skip=())
        # consolidated metadata may be rewritten, with the same content
        d = [x for x in d if not x.endswith(('.zmetadata', '.zcollection'))]
        err = [f'failed addition left {d[:4]}'] if d else []
        err += check(p, s, c, s.split(rows), {}, ['nw'],
                     f'after failure {i["at"]}')
        return err[:5]
    finally:
        disarm()
        base.clean(p)


CASES = dict(history=history, failing=failing)


def generate(seed, tier):
    r = base.rng(seed, 'c12')
    q = tier == 'quick'
    for j in range(2, 14 if q else 22):
        yield 'failing', dict(at=j, imm=bool(j % 2))
    for j in range(20 if q else 250):
        n = int(r.integers(1, 8))
        ops = [dict(op='insert')] if r.random() < 0.8 else []
        for _ in range(int(r.integers(2, 7))):
            k = r.integers(8)
            if k < 3:
                dt, fl = [('int16', 5), ('float32', -1.5), ('float64', 9.0),
                          ('uint8', 255), ('int64', 0)][r.integers(5)]
                ops.append(dict(op='add', name=str(r.choice(
                    ['n1', 'n2', 'n3', 'v1', 'time'])), dtype=dt, fill=fl,
                                ndim=int(r.integers(1, 3))))
            elif k < 6:
                ops.append(dict(op='drop', name=str(r.choice(
                    ['n1', 'n2', 'v1', 'v2', 'time', 'k0', 'imm', 'zz']))))
            elif k == 6:
                ops.append(dict(op='bad', dims=[[], ['nx'], ['@', 'other'],
                                                ['other']][r.integers(4)]))
            else:
                ops.append(dict(op='reopen'))
        yield 'history', dict(
            kind=['date', 'seq'][j % 2], imm=bool(r.integers(2)),
            dim=str(r.choice(['num', 'time'])), chunk=int(r.integers(0, 3)),
            times=zc.rand_times(r, n, 90), keys=zc.rand_keys(r, n, 2),
            ops=ops)
