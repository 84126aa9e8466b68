"""Histories of growth, rewriting and addition of partitions of the reference
interleaved with synchronizations, checks, additions and updates of the view
variables, compared with a model keeping or discarding the values from the
axis of each partition; non-trivial: at least one change of the reference."""
import numpy

from rtc import base, zc
from rtc.c14 import vdef


def full(rows, nd, fill, nx):
    n = len(rows['time'])
    return numpy.full((n, ) if nd == 1 else (n, nx), fill, 'float64')


def history(i):
    s = zc.Schema(i['kind'], res='D', ncol=1, delayed=False, chunk=i['chunk'])
    p = base.scratch()
    vp = p + '-view'
    err = []
    Z = zc.z()
    state, inview, own = {}, {}, {}
    t0 = numpy.datetime64('2000-01-01', 'ns')

    def rows_of(part, offs, seed):
        times = [str(t0 + numpy.timedelta64(24 * part, 'h') +
                     numpy.timedelta64(o, 'm')) for o in sorted(offs)]
        return s.rows(times, [[part]] * len(times), seed)

    def put(part, offs, seed):
        rows = rows_of(part, offs, seed)
        list(c.insert(s.dataset(rows)))
        state.update(s.split(rows))

    def pending(k):
        """What a synchronization has to do with a partition."""
        if k not in inview:
            return 'new'
        a, b = inview[k], state[k]['time']
        if a.tobytes() == b.tobytes():
            return None
        if b.size > a.size and (a == b[:a.size]).all():
            return 'extend'
        return 'discard'

    try:
        c = zc.create(s, rows_of(0, [0], 0), p)
        for part, offs in i['start']:
            put(part, offs, 1)
        v = Z.create_view(vp, Z.view.ViewReference(p), filters=i['filter'])
        for k in state:
            if i['filter'] is None or eval(i['filter'], {}, dict(k)):
                inview[k] = state[k]['time'].copy()
        for n, op in enumerate(i['ops']):
            o = op['op']
            label = f'op {n} {o}'
            todo = {k: pending(k) for k in state if pending(k)}
            if o == 'put':
                put(op['part'], op['offs'], n + 10)
            elif o == 'append':
                if not state:
                    continue
                k = sorted(state)[op['part'] % len(state)]
                old = state[k]
                last = old['time'][-1]
                extra = s.rows([str(last + numpy.timedelta64(60 * (e + 1),
                                                             's'))
                                for e in range(op['n'])],
                               [[old['k0'][0]]] * op['n']
                               if i['kind'] == 'seq' else None, n + 10)
                rows = zc.cat([old, extra])
                list(c.insert(s.dataset(rows)))
                new = s.split(rows)
                if len(new) == 1:
                    state.update(new)
                else:
                    state.update(new)
            elif o == 'add':
                nm = f'w{len(own)}'
                if todo:
                    continue
                v.add_variable(vdef(s, nm, op['nd'], op['fill']))
                own[nm] = dict(nd=op['nd'], fill=op['fill'], val={
                    k: full(state[k], op['nd'], op['fill'], s.nx)
                    for k in inview})
            elif o == 'update':
                if todo or not own or set(inview) != set(state):
                    continue
                nm = sorted(own)[op['part'] % len(own)]
                nd, a = own[nm]['nd'], float(n + 2)

                def up(zds):
                    x = numpy.ma.filled(zc.values(zds['v1']), 0.)
                    return {nm: x * a if nd == 1 else numpy.stack(
                        [x * a] * zds.dimensions['nx'], int(nd == 2))}

                v.update(up, delayed=op['delayed'])
                for k in inview:
                    y = state[k]['v1'] * a
                    own[nm]['val'][k] = y if nd == 1 else numpy.stack(
                        [y] * s.nx, 1)
            elif o == 'reopen':
                v = Z.open_view(vp)
            elif o == 'check':
                a, b = base.tree(p), base.tree(vp)
                got = v.is_synced()
                if got != (not todo):
                    err.append(f'{label}: is_synced is {got} but '
                               f'{list(todo.items())[:3]}')
                if base.tree_diff(a, base.tree(p)) or base.tree_diff(
                        b, base.tree(vp)):
                    err.append(f'{label}: is_synced changed the files')
            elif o == 'sync':
                a = base.tree(p)
                pred = v.sync() if op['filter'] is None else v.sync(
                    op['filter'])
                for k, what in todo.items():
                    for w in own.values():
                        f = full(state[k], w['nd'], w['fill'], s.nx)
                        if what == 'extend':
                            f[:len(w['val'][k])] = w['val'][k]
                        w['val'][k] = f
                    inview[k] = state[k]['time'].copy()
                if base.tree_diff(a, base.tree(p)):
                    err.append(f'{label}: reference changed')
                if not v.is_synced():
                    err.append(f'{label}: not synchronized afterwards')
                for k in state:
                    if bool(pred(dict(k))) != (k in todo):
                        err.append(f'{label}: predicate {pred(dict(k))} for '
                                   f'{k}: {todo.get(k)}')
                err += compare(v, s, state, own, label, op['delayed'])
            if err:
                break
        return err[:4]
    finally:
        base.clean(p)


def compare(v, s, state, own, label, delayed):
    if not own or not state:
        return []
    err = []
    v.filters = None
    zds = v.load(delayed=delayed)
    if zds is None:
        return [f'{label}: nothing loaded']
    keys = sorted(state)
    want = zc.expect(zc.cat(state[k] for k in keys), s)
    for nm, w in own.items():
        want[nm] = numpy.ma.masked_equal(numpy.concatenate(
            [w['val'][k] for k in keys]), w['fill'])
    err += zc.diff_rows(zc.ds_rows(zds), want, label)
    return err


CASES = dict(history=history)
BUDGET = dict(quick=150)


def generate(seed, tier):
    r = base.rng(seed, 'c15')
    for j in range(40 if tier == 'quick' else 500):
        kind = ['date', 'seq'][j % 2]
        key = ['day', 'k0'][j % 2]

        def offs():
            return sorted({int(x) for x in r.integers(0, 600, int(
                r.integers(1, 6)))})

        def filt():
            return None if r.random() < .6 else f'{key} <= 3'

        ops = [dict(op='add', nd=int(r.integers(1, 4)), fill=-7.5)]
        for _ in range(int(r.integers(5, 14))):
            o = str(r.choice(['put', 'append', 'add', 'update', 'reopen',
                              'check', 'sync'],
                             p=[.16, .16, .06, .2, .06, .12, .24]))
            ops.append(dict(op=o, part=int(r.integers(0, 5)), offs=offs(),
                            n=int(r.integers(1, 4)), nd=int(
                                r.integers(1, 4)), fill=float(
                                    r.choice([-7.5, 0., 1e3])),
                            delayed=bool(r.random() < .5), filter=filt()))
        ops += [dict(op='check'), dict(op='sync', filter=None, delayed=False)]
        yield 'history', dict(
            kind=kind, chunk=[None, 1, 2, 3][int(r.integers(0, 4))],
            start=[[int(q), offs()] for q in r.permutation(5)[:int(
                r.integers(0, 4))]], filter=filt(), ops=ops)
