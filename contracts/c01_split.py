"""Contracts of the partition splitting (partitioning/abc, date, sequence)."""
import numpy

from pydv.core import SymTime, mkint, z3, zint
from pydv.harness import contract
from pydv.theory import (SymArr, SymSeq, any_index, drain, exists, forall,
                         induct, input_array, input_len, lift,
                         monotone_lemma, veq, vle, vlt)

A = 'zcollection/partitioning/abc.py:'
D = 'zcollection/partitioning/date.py:'
S = 'zcollection/partitioning/sequence.py:'
RES = ('Y', 'M', 'D', 'h', 'm', 's')


def check_parts(out, ctx, n, maxn, key, keyname):
    """out: sequence of (key, slice); key(i): key of row i."""
    out = lift(out) if not isinstance(out, SymSeq) else out
    m = out.n
    if out.maxn is None:
        ctx.instantiate(z3.IntVal(0))
    ctx.prove(m > 0, 'at least one partition')
    if out.maxn == 0:
        return

    def part(k):
        return out.at(k)

    def start(k):
        return zint(part(k)[1].start)

    def stop(k):
        return zint(part(k)[1].stop)

    try:
        k = any_index(m, out.maxn)
        sl = part(k)[1]
    except IndexError as exc:
        ctx.fail(f'partitions can be produced ({exc})')
        return
    nxt = k + 1
    if out.maxn is None:
        ctx.instantiate(nxt)
    ctx.prove(z3.BoolVal(sl.step is None or sl.step == 1), 'no stride')
    ctx.prove(start(z3.IntVal(0)) == 0, 'the first partition starts at row 0')
    ctx.prove(start(k) < stop(k), 'partitions are not empty')
    ctx.prove(stop(k) <= n, 'partitions are within the dataset')
    last = ctx.branch(nxt == m)
    if last:
        ctx.prove(stop(k) == n, 'the last partition ends with the last row')
    else:
        ctx.prove(stop(k) == start(nxt),
                  'a partition starts where the previous one ends')
    kk = keyname(part(k)[0])
    induct(stop(k) - start(k), out.maxn if out.maxn is None else maxn,
           lambda j: veq(key(start(k) + j), kk),
           'each row of a partition has its key',
           at=lambda j: [start(k) + j])
    if not last:
        if out.maxn is None:
            # the last row of the partition and the one that follows
            ctx.instantiate(stop(k) - start(k) - 1, stop(k) - 1, stop(k),
                            depth=0)
            ctx.prove(veq(key(stop(k) - 1), kk), 'key of the last row')
        ctx.prove(vlt(kk, keyname(part(nxt)[0])), 'partition keys increase')


def refused(ctx, n, maxn, key):
    """The keys are not in order."""
    if maxn is None:
        monotone_lemma(SymArr(n, key))
    ctx.prove(exists(n - 1, maxn, lambda i: vlt(key(i + 1), key(i))),
              'refused only when the keys are not in order')


def replay_date(i):
    from zcollection import partitioning as P
    u = i['unit']
    v = numpy.array([numpy.datetime64(int(x), u) for x in i['values']],
                    dtype=f'M8[{u}]')
    keys = v.astype(f'M8[{i["resolution"]}]')
    h = P.Date(('time', ), i['resolution'])
    return _replay(h, {'time': v}, [(k, ) for k in keys], i['delayed'],
                   lambda sel: (sel[0][1], ))


def replay_seq(i):
    from zcollection import partitioning as P
    cols = {f'k{j}': numpy.array(c, dtype='int64')
            for j, c in enumerate(i['columns'])}
    keys = list(zip(*[c.tolist() for c in cols.values()]))
    h = P.Sequence(tuple(cols))
    return _replay(h, cols, keys, i['delayed'],
                   lambda sel: tuple(int(v) for _, v in sel))


def _replay(h, cols, keys, delayed, keyname):
    import dask.array
    if delayed:
        cols = {k: dask.array.from_array(v) for k, v in cols.items()}
    ordered = all(not b < a for a, b in zip(keys, keys[1:]))
    try:
        parts = list(h._split(cols))
    except ValueError as exc:
        return [f'{keys} refused: {exc}'] if ordered else []
    if not ordered:
        return [f'{keys} accepted']
    err = []
    row = 0
    prev = None
    for sel, sl in parts:
        k = keyname(sel)
        if int(sl.start) != row or not int(sl.stop) > row:
            err.append(f'{parts}: range {sl} after row {row}')
        row = int(sl.stop)
        if any(x != k for x in keys[int(sl.start):row]):
            err.append(f'rows {keys[int(sl.start):row]} in partition {k}')
        if prev is not None and not prev < k:
            err.append(f'keys {prev} then {k}')
        prev = k
    if row != len(keys):
        err.append(f'{row} rows of {len(keys)}')
    return err


def order_from_parts(ctx, out, n, maxn, key, keyname):
    """The partitions being contiguous tiles of equal, increasing keys (proved
    for an arbitrary partition), adjacent rows are in order."""
    out = lift(out) if not isinstance(out, SymSeq) else out
    if ctx.size is not None:
        ctx.prove(forall(n - 1, maxn, lambda i: vle(key(i), key(i + 1))),
                  'keys that are not in order are refused')
        return
    m = out.n

    def start(k):
        return zint(out.at(k)[1].start)

    def stop(k):
        return zint(out.at(k)[1].stop)

    i = ctx.int('row')
    ctx.assume(z3.And(0 <= i, i + 1 < n, m > 0))
    ctx.instantiate(i, i + 1)
    # instances of what check_parts proves for an arbitrary partition
    k = ctx.int('tile')
    ctx.assume(z3.And(0 <= k, k < m))
    ctx.assume(z3.And(start(k) <= i, i < stop(k)))
    kk = keyname(out.at(k)[0])
    ctx.assume(veq(key(i), kk))
    ctx.assume(z3.Implies(i + 1 < stop(k), veq(key(i + 1), kk)))
    if ctx.branch(k + 1 == m):
        ctx.assume(stop(k) == n)
    else:
        ctx.assume(z3.And(
            stop(k) == start(k + 1), start(k + 1) < stop(k + 1),
            vlt(kk, keyname(out.at(k + 1)[0])),
            veq(key(start(k + 1)), keyname(out.at(k + 1)[0]))))
    ctx.prove(vle(key(i), key(i + 1)),
              'keys that are not in order are refused')


def date_split(delayed):

    def fn(ctx, W):
        date = W['partitioning.date']
        res = RES[ctx.choose(len(RES), 'resolution') if ctx.size is None else
                  2 + 3 * ctx.choose(2, 'resolution')]
        n, maxn = input_len('n', 1)
        ctx.assume(n < 2**62)
        unit = 'ns'
        v = input_array('time', n, maxn, f'M8[{unit}]', delayed=delayed)
        ctx.input('values', SymArr(n, lambda k: mkint(v.at(k).t), maxn))
        ctx.input('unit', unit)
        ctx.input('resolution', res)
        ctx.input('delayed', delayed)
        ctx.cover('reachable')
        h = date.Date(('time', ), res)
        trunc = v.astype(f'M8[{res}]')
        try:
            out = drain(h._split({'time': v}))
        except ValueError:
            refused(ctx, n, maxn, trunc.at)
            return
        if ctx.choose(2, 'goal'):
            order_from_parts(ctx, out, n, maxn, trunc.at, lambda s: s[0][1])
        else:
            check_parts(out, ctx, n, maxn, trunc.at, lambda s: s[0][1])

    return fn


def sequence_split(ncol, delayed):

    def fn(ctx, W):
        seq = W['partitioning.sequence']
        n, maxn = input_len('n', 1)
        ctx.assume(n < 2**62)
        cols = [input_array(f'k{c}', n, maxn, 'int64', delayed=delayed)
                for c in range(ncol)]
        ctx.input('columns', cols)
        ctx.input('delayed', delayed)
        ctx.cover('reachable')
        h = seq.Sequence(tuple(f'k{c}' for c in range(ncol)))

        def key(i):
            return tuple(c.at(i) for c in cols)

        def keyname(s):
            ctx.prove(z3.BoolVal([x[0] for x in s] == [
                f'k{c}' for c in range(ncol)]),
                      'a partition names its variables')
            return tuple(x[1] for x in s)

        try:
            out = drain(h._split({f'k{c}': x for c, x in enumerate(cols)}))
        except ValueError:
            refused(ctx, n, maxn, key)
            return
        if ctx.choose(2, 'goal'):
            order_from_parts(ctx, out, n, maxn, key, keyname)
        else:
            check_parts(out, ctx, n, maxn, key, keyname)

    return fn


for _lazy in (False, True):
    _t = 'lazy' if _lazy else 'in memory'
    contract('C01', f'Date._split, {_t}: contiguous, complete, ordered '
             'partitions for every resolution', [
                 D + 'Date._split', D + '_unique',
                 A + ('unique' if _lazy else 'unique_and_check_monotony'),
                 A + 'difference', A + 'concatenate_item'],
             replay=replay_date, bounded=(2, 3),
             assumes=('numpy.unique, boolean selection, numpy.diff, '
                      'numpy.concatenate; datetime64 truncation is a '
                      'function',
                      'the chunking of dask arrays does not change their '
                      'values'))(date_split(_lazy))
    for _k in (1, 2, 3):
        contract('C01', f'Sequence._split, {_t}, {_k} variable(s): '
                 'contiguous, complete, ordered partitions', [
                     S + 'Sequence._split', S + '_unique'] + (
                         [S + '_is_monotonic', A + 'unique',
                          A + '_logical_or_reduce'] if _lazy else
                         [A + 'unique_and_check_monotony']) + [
                             A + 'difference', A + 'concatenate_item'],
                 replay=replay_seq, bounded=(2, 3),
                 assumes=('numpy.unique(axis=0), numpy.lexsort, dask '
                          'reduction over a single chunk',
                          'the chunking of dask arrays does not change '
                          'their values'))(sequence_split(_k, _lazy))
