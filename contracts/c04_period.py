"""Contracts of merging/period.py."""
import numpy as np

from pydv.core import SymTime, z3, zint, mkbool
from pydv.harness import contract
from pydv.theory import zb

M = 'zcollection/merging/period.py:'
UNITS = ('as', 'fs', 'ps', 'ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y')


def unit(ctx):
    return UNITS[ctx.choose(len(UNITS), 'unit')]


def zmin(a, b):
    return z3.If(a < b, a, b)


def zmax(a, b):
    return z3.If(a < b, b, a)


def period(ctx, P, name, u, nonnull=True):
    """Arbitrary period built by the real constructor."""
    b, e = ctx.int(name + '_begin'), ctx.int(name + '_end')
    within = bool(ctx.choose(2, name + '_within'))
    last = e if within else e - 1
    if nonnull:
        ctx.assume(b <= last)
    ctx.input(name, dict(begin=b, end=e, within=within, unit=u))
    p = P(SymTime(b, u), SymTime(e, u), within=within)
    return p, b, last


def t_of(x):
    return x.t


def rel_pred(P, r, a, b, c, d):
    """Defining predicate of each relation of p1=[a,b] to p2=[c,d]."""
    return {
        'AFTER': d < a,
        'START_TOUCHING': d == a,
        'START_INSIDE': z3.And(c < a, a < d, d < b),
        'INSIDE_START_TOUCHING': z3.And(a == c, b < d),
        'ENCLOSING_START_TOUCHING': z3.And(a == c, d < b),
        'ENCLOSING': z3.And(a < c, d < b),
        'ENCLOSING_END_TOUCHING': z3.And(a < c, d == b),
        'EXACT_MATCH': z3.And(a == c, b == d),
        'INSIDE': z3.And(c < a, b < d),
        'INSIDE_END_TOUCHING': z3.And(c < a, b == d),
        'END_INSIDE': z3.And(a < c, c < b, b < d),
        'END_TOUCHING': b == c,
        'BEFORE': b < c,
    }[r]


MIRROR = dict(AFTER='BEFORE', START_TOUCHING='END_TOUCHING',
              START_INSIDE='END_INSIDE',
              INSIDE_START_TOUCHING='ENCLOSING_START_TOUCHING',
              ENCLOSING='INSIDE', EXACT_MATCH='EXACT_MATCH',
              INSIDE_END_TOUCHING='ENCLOSING_END_TOUCHING')
MIRROR.update({v: k for k, v in list(MIRROR.items())})


# ------------------------------------------------------------ replay ----
def _mk(Period, d):
    u = d['unit']
    return Period(np.datetime64(d['begin'], u), np.datetime64(d['end'], u),
                  within=bool(d['within']))


def _iv(d):
    return d['begin'], d['end'] if d['within'] else d['end'] - 1


def check_pair(d1, d2):
    """Native check of the whole pairwise contract; returns a list of errors."""
    from zcollection.merging.period import Period, PeriodRelation
    p, q = _mk(Period, d1), _mk(Period, d2)
    a, b = _iv(d1)
    c, d = _iv(d2)
    u = d1['unit']
    err = []

    def dt(x):
        return np.datetime64(x, u)

    def eq(name, got, want):
        if not (got == want):
            err.append(f'{name}: got {got!r}, expected {want!r} for '
                       f'p1=[{a},{b}] p2=[{c},{d}] ({u})')

    for x, lo, hi in ((p, a, b), (q, c, d)):
        eq('begin', x.begin, dt(lo))
        eq('last', x.last, dt(hi))
        eq('end', x.end(), dt(hi + 1))
        eq('is_null', x.is_null(), hi < lo)
        eq('length', x.length(), np.timedelta64(hi + 1 - lo, u))
    for pt in sorted({a - 1, a, a + 1, b - 1, b, b + 1, c, d}):
        eq(f'contains({pt})', p.contains(dt(pt)), a <= pt <= b)
        eq(f'is_after({pt})', p.is_after(dt(pt)), a <= b and pt < a)
        eq(f'is_before({pt})', p.is_before(dt(pt)), a <= b and b < pt)
    eq('eq', p == q, (a, b) == (c, d))
    eq('ne', p != q, (a, b) != (c, d))
    eq('lt', p < q, b < c)
    if a <= b and c <= d:
        r = p.get_relation(q)
        want = conc_rel(a, b, c, d)
        if r.name not in want:
            err.append(f'get_relation: got {r.name}, expected {want} for '
                       f'p1=[{a},{b}] p2=[{c},{d}]')
        pr = dict(before=r.is_before(), after=r.is_after(),
                  contains=r.contains(), inside=r.is_inside(),
                  bo=r.is_before_overlapping(), ao=r.is_after_overlapping())
        if sum(pr.values()) != 1:
            err.append(f'coarse predicates {pr} for {r.name}')
        eq('is_before', pr['before'], b < c)
        eq('is_after', pr['after'], d < a)
        if a < b and c < d:
            eq('contains', pr['contains'], a <= c and d <= b)
            eq('is_inside', pr['inside'], c < a and b < d)
            eq('mirror', q.get_relation(p).name, MIRROR[r.name])
        eq('contains(period)', p.contains(q), a <= c and d <= b)
        eq('is_adjacent', p.is_adjacent(q), c == b + 1 or a == d + 1)
        inter = max(a, c) <= min(b, d)
        eq('intersects', p.intersects(q), inter)
        i = p.intersection(q)
        m = p.merge(q)
        if inter:
            eq('intersection', (i.begin, i.last),
               (dt(max(a, c)), dt(min(b, d))))
            eq('merge', (m.begin, m.last), (dt(min(a, c)), dt(max(b, d))))
        else:
            eq('intersection null', i.is_null(), True)
            eq('merge null', m.is_null(), True)
        s = p.span(q)
        eq('span', (s.begin, s.last), (dt(min(a, c)), dt(max(b, d))))
    p.shift(np.timedelta64(c, u))
    eq('shift', (p.begin, p.last), (dt(a + c), dt(b + c)))
    q.expand(np.timedelta64(a, u))
    eq('expand', (q.begin, q.last), (dt(c - a), dt(d + a)))
    f = Period.from_duration(dt(a), np.timedelta64(b - a, u))
    eq('from_duration', (f.begin, f.last), (dt(a), dt(b - 1)))
    return err


def conc_rel(a, b, c, d):
    ok = []
    for r, v in {
            'AFTER': d < a, 'START_TOUCHING': d == a,
            'START_INSIDE': c < a < d < b,
            'INSIDE_START_TOUCHING': a == c and b < d,
            'ENCLOSING_START_TOUCHING': a == c and d < b,
            'ENCLOSING': a < c and d < b,
            'ENCLOSING_END_TOUCHING': a < c and d == b,
            'EXACT_MATCH': a == c and b == d, 'INSIDE': c < a and b < d,
            'INSIDE_END_TOUCHING': c < a and b == d,
            'END_INSIDE': a < c < b < d, 'END_TOUCHING': b == c,
            'BEFORE': b < c}.items():
        if v:
            ok.append(r)
    return ok


def replay(inputs):
    d1 = inputs['p1']
    d2 = inputs.get('p2') or dict(d1)
    return check_pair(d1, d2)


# --------------------------------------------------------- contracts ----
@contract('C04', 'Period: construction, bounds, length, nullness', [
    M + 'Period.__init__', M + '_time64_unit', M + '_min_time64_unit',
    M + 'Period.begin', M + 'Period.last', M + 'Period.end',
    M + 'Period.is_null', M + 'Period.length', M + 'Period.from_duration',
    M + 'Period.shift', M + 'Period.expand'
], replay=replay)
def construction(ctx, W):
    m = W['merging.period']
    u = unit(ctx)
    p, b, last = period(ctx, m.Period, 'p1', u, nonnull=False)
    ctx.cover('reachable')
    ctx.prove(p.begin == SymTime(b, u), 'begin is the first instant')
    ctx.prove(p.last == SymTime(last, u), 'last is the last instant')
    ctx.prove(p.end() == SymTime(last + 1, u), 'end is one past last')
    ctx.prove(zb(mkbool(z3.BoolVal(bool(p.is_null()))) == mkbool(last < b)),
              'is_null iff no instant')
    ln = p.length()
    ctx.prove(ln == SymTime(last + 1 - b, u, 'm'), 'length')
    d = ctx.int('d')
    p.shift(SymTime(d, u, 'm'))
    ctx.prove((p.begin == SymTime(b + d, u)), 'shift begin')
    ctx.prove((p.last == SymTime(last + d, u)), 'shift last')
    p.expand(SymTime(d, u, 'm'))
    ctx.prove((p.begin == SymTime(b, u)), 'expand begin')
    ctx.prove((p.last == SymTime(last + d + d, u)), 'expand last')
    q = m.Period.from_duration(SymTime(b, u), SymTime(d, u, 'm'))
    ctx.prove(q.begin == SymTime(b, u), 'from_duration begin')
    ctx.prove(q.last == SymTime(b + d - 1, u), 'from_duration last')


@contract('C04', 'Period: relation to an instant', [
    M + 'Period.contains', M + 'Period.is_after', M + 'Period.is_before',
    M + 'Period.is_null'
], replay=lambda i: check_pair(i['p1'], dict(i['p1'], begin=i['x'],
                                             end=i['x'], within=True)))
def instant(ctx, W):
    m = W['merging.period']
    u = unit(ctx)
    p, b, last = period(ctx, m.Period, 'p1', u, nonnull=False)
    x = ctx.int('x')
    ctx.input('x', x)
    ctx.cover('reachable')
    X = SymTime(x, u)
    k = ctx.choose(3, 'query')
    if k == 0:
        r = p.contains(X)
        ctx.prove(z3.BoolVal(bool(r)) == z3.And(b <= x, x <= last),
                  'contains(instant) iff begin <= x <= last')
    elif k == 1:
        r = p.is_after(X)
        ctx.prove(z3.BoolVal(bool(r)) == z3.And(b <= last, x < b),
                  'is_after(instant) iff not null and x < begin')
    else:
        r = p.is_before(X)
        ctx.prove(z3.BoolVal(bool(r)) == z3.And(b <= last, last < x),
                  'is_before(instant) iff not null and last < x')


@contract(['C04', 'C03'], 'Period.get_relation and its coarse predicates', [
    M + 'Period.get_relation', M + 'Period._get_direct_relation',
    M + 'Period.contains', M + 'PeriodRelation.is_after',
    M + 'PeriodRelation.is_before', M + 'PeriodRelation.contains',
    M + 'PeriodRelation.is_before_overlapping',
    M + 'PeriodRelation.is_after_overlapping', M + 'PeriodRelation.is_inside'
], replay=replay)
def relation(ctx, W):
    m = W['merging.period']
    u = 's'
    p, a, b = period(ctx, m.Period, 'p1', u)
    q, c, d = period(ctx, m.Period, 'p2', u)
    ctx.cover('reachable')
    r = p.get_relation(q)
    ctx.prove(rel_pred(m, r.name, a, b, c, d),
              'the reported relation describes the positions')
    pr = [
        bool(x)
        for x in (r.is_before(), r.is_after(), r.contains(), r.is_inside(),
                  r.is_before_overlapping(), r.is_after_overlapping())
    ]
    ctx.prove(sum(pr) == 1, 'exactly one coarse predicate holds')
    proper = z3.And(a < b, c < d)
    ctx.prove(z3.BoolVal(pr[0]) == (b < c), 'is_before iff before')
    ctx.prove(z3.BoolVal(pr[1]) == (d < a), 'is_after iff after')
    ctx.prove(z3.Implies(proper, z3.BoolVal(pr[2]) == z3.And(a <= c, d <= b)),
              'contains iff it encloses')
    ctx.prove(z3.Implies(z3.BoolVal(pr[2]), z3.And(a <= c, d <= b)),
              'contains only if it encloses')
    ctx.prove(z3.BoolVal(pr[3]) == z3.And(c < a, b < d, z3.BoolVal(pr[3])),
              'is_inside only if strictly inside')
    ctx.prove(z3.Implies(proper, z3.BoolVal(pr[3]) == z3.And(c < a, b < d)),
              'is_inside iff strictly inside')
    ctx.prove(z3.Implies(z3.BoolVal(pr[4]), z3.And(a <= c, c <= b, b <= d)),
              'before-overlapping only if it covers the start')
    ctx.prove(z3.Implies(z3.BoolVal(pr[5]), z3.And(c <= a, a <= d, d <= b)),
              'after-overlapping only if it covers the end')
    if bool(mkbool(proper)):
        s = q.get_relation(p)
        ctx.prove(s.name == MIRROR[r.name], 'swapping mirrors the relation')


@contract(['C04', 'C03'], 'Period: intersection', [
    M + 'Period.intersection', M + 'Period.intersects', M + 'Period.contains'
], replay=replay)
def intersection(ctx, W):
    m = W['merging.period']
    u = unit(ctx)
    p, a, b = period(ctx, m.Period, 'p1', u)
    q, c, d = period(ctx, m.Period, 'p2', u)
    ctx.cover('reachable')
    lo, hi = zmax(a, c), zmin(b, d)
    i = p.intersection(q)
    ctx.prove(z3.Implies(lo <= hi, z3.And(t_of(i.begin) == lo,
                                          t_of(i.last) == hi)),
              'intersection is exactly the common instants')
    ctx.prove(z3.Implies(lo > hi, t_of(i.last) < t_of(i.begin)),
              'disjoint periods intersect in a null period')
    ctx.prove(z3.BoolVal(i.begin.unit == u and i.last.unit == u),
              'unit kept')


@contract('C04', 'Period: intersects, merge, span, containment, adjacency', [
    M + 'Period.intersects', M + 'Period.merge', M + 'Period.span',
    M + 'Period.contains', M + 'Period.is_adjacent', M + 'Period.__eq__',
    M + 'Period.__ne__', M + 'Period.__lt__'
], replay=replay)
def setops(ctx, W):
    m = W['merging.period']
    u = ('s', 'ns', 'M')[ctx.choose(3, 'unit')]
    p, a, b = period(ctx, m.Period, 'p1', u)
    q, c, d = period(ctx, m.Period, 'p2', u)
    ctx.cover('reachable')
    lo, hi = zmax(a, c), zmin(b, d)
    k = ctx.choose(5, 'op')
    if k == 0:
        ctx.prove(z3.BoolVal(bool(p.intersects(q))) == (lo <= hi),
                  'intersects iff a common instant exists')
    elif k == 1:
        s = p.merge(q)
        ctx.prove(z3.Implies(lo <= hi, z3.And(t_of(s.begin) == zmin(a, c),
                                              t_of(s.last) == zmax(b, d))),
                  'merge of intersecting periods is their union')
        ctx.prove(z3.Implies(lo > hi, t_of(s.last) < t_of(s.begin)),
                  'merge of disjoint periods is null')
    elif k == 2:
        s = p.span(q)
        ctx.prove(z3.And(t_of(s.begin) == zmin(a, c),
                         t_of(s.last) == zmax(b, d)),
                  'span is the smallest period covering both')
    elif k == 3:
        ctx.prove(z3.BoolVal(bool(p.contains(q))) == z3.And(a <= c, d <= b),
                  'contains(period) iff subset')
        ctx.prove(z3.BoolVal(bool(p.is_adjacent(q))) == z3.Or(
            c == b + 1, a == d + 1), 'is_adjacent iff no gap and no overlap')
    else:
        ctx.prove(z3.BoolVal(bool(p == q)) == z3.And(a == c, b == d), 'eq')
        ctx.prove(z3.BoolVal(bool(p != q)) == z3.Or(a != c, b != d), 'ne')
        ctx.prove(z3.BoolVal(bool(p < q)) == (b < c), 'lt')
