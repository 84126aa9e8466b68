"""Contracts of the merging of time series."""
import numpy

from pydv.core import SymInt, SymTime, mkint, z3, zint
from pydv.harness import contract
from pydv.rows import abstract, source
from pydv.theory import (SymArr, any_index, exists, forall, forall2,
                         input_len)
from pydv.world import LoopSpec

M = 'zcollection/merging/time_series.py:'
P = 'zcollection/merging/period.py:'
UNIT = 'ns'


def axes(ctx):
    """Two non-empty ordered time axes."""
    nE, maxE = input_len('nE', 1)
    nI, maxI = input_len('nI', 1)
    tE, tI = ctx.func('tE'), ctx.func('tI')
    ctx.assume(forall2(nE, maxE, lambda a, b: tE(a) <= tE(b),
                       dom='rows'))
    ctx.assume(forall2(nI, maxI, lambda a, b: tI(a) <= tI(b),
                       dom='rows'))

    def time(s, i):
        return z3.If(s == 0, tE(i), tI(i))

    E = source(0, nE, maxE, time, UNIT)
    Ins = source(1, nI, maxI, time, UNIT)
    ctx.input('existing', SymArr(nE, lambda k: SymInt(tE(k)), maxE))
    ctx.input('inserted', SymArr(nI, lambda k: SymInt(tI(k)), maxI))
    return E, Ins, tE, tI, time


def replay(i):
    from zcollection import merging
    from rtc import c03
    tol = i.get('tolerance')
    E, Ins = list(i['existing']), list(i['inserted'])
    if any(abs(v) > 2**60 for v in E + Ins):
        raise OverflowError('outside of datetime64')
    err = []
    for delayed in (False, True):
        kw = {} if tol is None else dict(
            tolerance=numpy.timedelta64(tol, UNIT))
        out = merging.merge_time_series(c03.build(E, 0, delayed, UNIT),
                                        c03.build(Ins, 1, delayed, UNIT),
                                        'time', 'num', **kw)
        err += c03.judge(out, E, Ins, tol, UNIT, f'delayed={delayed}')
    return err


GOALS = ('ordered by time', 'no row duplicated', 'only inserted rows and '
         'rows not replaced', 'every inserted row', 'every row not replaced')


def check_result(ctx, R, kept, nE, nI, time, tE, tI, goal=None):
    """R holds every inserted row and the kept stored rows once, ordered."""
    if ctx.size is None:
        ctx.instantiate(0, nE - 1, nI - 1, dom='rows')
    if goal is None:
        goal = ctx.choose(5, 'goal')
    if goal == 0:
        a = any_index(R.n, R.maxn, 'a')
        b = any_index(R.n, R.maxn, 'b')
        ctx.assume(a < b)
        if ctx.size is None:
            ctx.instantiate(zint(R.row(a)[1]), zint(R.row(b)[1]), depth=0)
        ctx.prove(R.t(a) <= R.t(b), 'the result is ordered by time')
    elif goal == 1:
        a = any_index(R.n, R.maxn, 'a')
        b = any_index(R.n, R.maxn, 'b')
        ctx.assume(a < b)
        if ctx.size is None:
            ctx.instantiate(zint(R.row(a)[1]), zint(R.row(b)[1]), depth=0)
        ra, rb = R.row(a), R.row(b)
        ctx.prove(z3.Not(z3.And(zint(ra[0]) == zint(rb[0]),
                                zint(ra[1]) == zint(rb[1]))),
                  'no row is duplicated')
    elif goal == 2:
        k = any_index(R.n, R.maxn, 'k')
        s, i = map(zint, R.row(k))
        if ctx.size is None:
            ctx.instantiate(i)
        ctx.prove(z3.Or(z3.And(s == 1, 0 <= i, i < nI),
                        z3.And(s == 0, 0 <= i, i < nE, kept(i))),
                  'nothing but inserted rows and rows not replaced')
    elif goal == 3:
        j = ctx.int('j')
        ctx.assume(z3.And(0 <= j, j < nI))
        witness(ctx, R, 1, j, nI, 'every inserted row is present')
    else:
        i = ctx.int('i')
        ctx.assume(z3.And(0 <= i, i < nE))
        ctx.assume(kept(i))
        witness(ctx, R, 0, i, nE, 'every row not replaced is present')


def witness(ctx, R, s, i, n, name):
    if ctx.size is not None:
        for v in range(ctx.size):
            if ctx.branch(i == v):
                i = z3.IntVal(v)
                break
        ctx.prove(exists(R.n, R.maxn, lambda k: z3.And(
            zint(R.row(k)[0]) == s, zint(R.row(k)[1]) == i)), name)
        return
    ctx.instantiate(i)
    ok, p = R.find((z3.IntVal(s), i))
    ctx.instantiate(z3.simplify(p))
    ctx.prove(ok, name + ' (selected)')
    r = R.row(p)
    ctx.prove(z3.And(0 <= p, p < R.n, zint(r[0]) == s, zint(r[1]) == i), name)


def outside(tI, nI):
    return lambda t: z3.Or(t < tI(0), t > tI(nI - 1))


def merge(goal):

    def fn(ctx, W):
        m = W['merging.time_series']
        E, Ins, tE, tI, time = axes(ctx)
        ctx.cover('reachable')
        try:
            R = m._merge_time_series(E, Ins, 'time', 'num')
        except (IndexError, AssertionError, ValueError) as exc:
            ctx.prune()
            ctx.fail(f'merging succeeds ({exc!r})')
            return
        out = outside(tI, Ins.n)
        check_result(ctx, R, lambda i: out(tE(i)), E.n, Ins.n, time, tE, tI,
                     goal)

    return fn


for _g, _n in enumerate(GOALS):
    contract('C03', f'_merge_time_series: {_n}', [
        M + '_merge_time_series', P + 'Period.__init__',
        P + 'Period.get_relation', P + 'Period.intersection'],
        replay=replay, bounded=(2, 3),
        assumes=('Dataset.isel and Dataset.concat select and join rows '
                 '(C20)', 'numpy.where, min, max'))(merge(_g))


@contract('C03', 'merge_time_series without tolerance: as _merge_time_series',
          [M + 'merge_time_series'], replay=replay, bounded=(2, 3))
def merge_plain(ctx, W):
    m = W['merging.time_series']
    E, Ins, tE, tI, time = axes(ctx)
    if ctx.size is None:
        calls = []

        def callee(e, i, axis, dim):
            calls.append((e, i, axis, dim))
            return 'merged'

        W.patch('merging.time_series:_merge_time_series', callee)
        ctx.cover('reachable')
        R = m.merge_time_series(E, Ins, 'time', 'num')
        ctx.prove(z3.BoolVal(R == 'merged' and calls == [
            (E, Ins, 'time', 'num')]), 'a single merge of the whole series')
        return
    ctx.cover('reachable')
    R = m.merge_time_series(E, Ins, 'time', 'num')
    out = outside(tI, Ins.n)
    check_result(ctx, R, lambda i: out(tE(i)), E.n, Ins.n, time, tE, tI)


@contract('C03', 'merge_time_series given a tolerance: pieces between gaps '
          'are merged separately', [M + 'merge_time_series'], replay=replay,
          bounded=(2, 3), max_paths=20000,
          assumes=('numpy.diff, roll, concatenate, where',
                   'the tolerance is not negative'))
def merge_tolerance(ctx, W):
    m = W['merging.time_series']
    E, Ins, tE, tI, time = axes(ctx)
    tol = ctx.int('tol')
    ctx.assume(tol >= 0)
    ctx.input('tolerance', tol)
    nE, nI = E.n, Ins.n

    def gap(j):
        """A piece starts at row j > 0."""
        return tI(j) - tI(j - 1) > tol

    if ctx.size is not None:
        ctx.cover('reachable')
        R = m.merge_time_series(E, Ins, 'time', 'num',
                                tolerance=SymTime(tol, UNIT, 'm'))
        N = ctx.size

        def replaced(t):
            return z3.Or([
                z3.And(b < nI, tI(a) <= t, t <= tI(b),
                       *[z3.Not(gap(z3.IntVal(q)))
                         for q in range(a + 1, b + 1)])
                for a in range(N) for b in range(a, N)
            ])

        check_result(ctx, R, lambda i: z3.Not(replaced(tE(i))), nE, nI, time,
                     tE, tI)
        return
    # unbounded: loop invariant over the pieces, callee by its contract
    st = {}

    def bounds(index, p):
        return zint(index.at(p)), zint(index.at(p + 1))

    def member(index, ix, ghost):
        """Rows present after the pieces 0 .. ix - 1."""
        hit = ghost

        def f(s, i):
            return z3.Or(
                z3.And(s == 1, 0 <= i, i < zint(index.at(ix))),
                z3.And(s == 0, 0 <= i, i < nE, z3.Not(hit(i, ix))))
        return f

    def callee(e, i, axis, dim):
        """Contract of _merge_time_series (proved above)."""
        ctx.prove(z3.BoolVal((axis, dim) == ('time', 'num')),
                  'callee: arguments')
        ctx.prove(e.n > 0, 'callee: stored series not empty')
        ctx.prove(i.n > 0, 'callee: inserted piece not empty')
        x, y = ctx.int('x'), ctx.int('y')
        ctx.assume(z3.And(0 <= x, x < y))
        rx, ry = zint(i.row(x)[1]), zint(i.row(y)[1])
        ctx.instantiate(rx, ry, dom='rows')
        ctx.prove(z3.Implies(y < i.n, i.t(x) <= i.t(y)),
                  'callee: inserted piece ordered')
        first, last = i.t(0), i.t(i.n - 1)
        st['piece'] = (zint(i.row(0)[1]), zint(i.row(i.n - 1)[1]), i.n)

        def mem(s, j):
            ok_i = i.find((s, j))[0]
            ok_e = e.find((s, j))[0]
            t = time(s, j)
            return z3.Or(ok_i, z3.And(ok_e, z3.Or(t < first, t > last)))

        return abstract('merged', mem, time, UNIT)

    W.patch('merging.time_series:_merge_time_series', callee)
    # hit(i, ix): the stored row i is replaced by one of the pieces < ix
    hit = z3.Function('hit', z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def defs(index, i, ix):
        """Definition of hit at (i, ix) and (i, ix + 1)."""
        a, b = bounds(index, ix)
        ctx.assume(z3.Not(hit(i, z3.IntVal(0))))
        ctx.assume(hit(i, ix + 1) == z3.Or(
            hit(i, ix), z3.And(tI(a) <= tE(i), tE(i) <= tI(b - 1))))

    def arr(env):
        v = env['index']
        return v

    def inv(ctx, env, k, it):
        index = arr(env)
        ds = env['existing_ds']
        mem = member(index, k, hit)
        i = ctx.int('row')
        j = ctx.int('irow')
        ctx.instantiate(k, k - 1, k - 2)
        ctx.instantiate(0, i, j, nI - 1, dom='rows')
        if hasattr(ds, 'complete'):
            ds.complete(z3.IntVal(1), zint(index.at(k - 1)))
        prev = z3.simplify(k - 1)
        if not z3.is_int_value(prev) or prev.as_long() >= 0:
            defs(index, i, prev)
        else:
            ctx.assume(z3.Not(hit(i, z3.IntVal(0))))
        ctx.instantiate(zint(index.at(k)), zint(index.at(prev)), zint(index.at(prev)) - 1,
                        zint(index.at(k)) - 1, dom='rows')
        yield 'stored rows', z3.Implies(
            z3.And(0 <= i, i < nE),
            ds.find((z3.IntVal(0), i))[0] == mem(z3.IntVal(0), i))
        yield 'inserted rows', (
            ds.find((z3.IntVal(1), j))[0] == mem(z3.IntVal(1), j))
        yield 'not empty', ds.n > 0

    def havoc(ctx, env, k, it):
        index = arr(env)
        mem = member(index, k, hit)
        st['k'] = k
        st['index'] = index
        return dict(existing_ds=abstract('acc', mem, time, UNIT))

    class Spec(LoopSpec):

        def inv(self, ctx, env, k, it, mode, name):
            if mode == 'assume':
                # installed by havoc: the dataset is defined by its members
                ctx.assume(env['existing_ds'].n > 0)
                return
            for label, t in inv(ctx, env, k, it):
                ctx.prove(t, f'{name}: {label}')

    W.loops['merge_time_series#1'] = Spec(None, havoc,
                                          uses=('index', 'existing_ds'),
                                          temps=())
    ctx.cover('reachable')
    R = m.merge_time_series(E, Ins, 'time', 'num',
                            tolerance=SymTime(tol, UNIT, 'm'))
    index = st['index']
    np_ = index.n - 1  # number of pieces
    # after the loop: R is the havocked dataset at k = number of pieces
    goal = ctx.choose(2, 'goal')
    if goal == 0:
        j = ctx.int('j')
        ctx.assume(z3.And(0 <= j, j < nI))
        ctx.instantiate(np_, j)
        ctx.prove(R.find((z3.IntVal(1), j))[0],
                  'every inserted row is present')
        return
    # stored row i is replaced iff two inserted rows a <= b of one piece
    # surround it
    i = ctx.int('i')
    ctx.assume(z3.And(0 <= i, i < nE))
    a, b = ctx.int('a'), ctx.int('b')
    if ctx.choose(2, 'direction'):
        ctx.assume(z3.And(0 <= a, a <= b, b < nI))
        ctx.assume(z3.And(tI(a) <= tE(i), tE(i) <= tI(b)))
        ctx.assume(forall(b + 1, None, lambda q: z3.Not(gap(q)), lo=a + 1))
        # piece of row a (contiguous tiles of [0, nI))
        p = ctx.int('p')
        ctx.instantiate(p, p + 1, p - 1, np_)
        ctx.instantiate(a, b, dom='rows')
        ctx.assume(z3.And(0 <= p, p < np_))
        lo, hi = bounds(index, p)
        ctx.assume(z3.And(lo <= a, a < hi))
        ctx.instantiate(lo, hi, hi - 1, dom='rows')
        defs(index, i, p)
        # hit is monotone in the number of pieces (by induction)
        ctx.assume(z3.Implies(hit(i, p + 1), hit(i, np_)))
        ctx.prove(z3.Not(R.find((z3.IntVal(0), i))[0]),
                  'a stored row inside a piece is replaced')
        return
    ctx.assume(hit(i, np_))
    # the first piece that hits (by induction on the pieces)
    p = ctx.int('p')
    ctx.assume(z3.And(0 <= p, p < np_, z3.Not(hit(i, p)), hit(i, p + 1)))
    ctx.instantiate(p, p + 1, p - 1, np_)
    defs(index, i, p)
    lo, hi = bounds(index, p)
    q = ctx.int('q')
    ctx.assume(z3.And(lo < q, q < hi))
    ctx.instantiate(lo, hi, q, dom='rows')
    ctx.prove(z3.And(tI(lo) <= tE(i), tE(i) <= tI(hi - 1)),
              'a replaced stored row is inside a piece')
    ctx.prove(z3.Not(gap(q)), 'a piece has no gap')
