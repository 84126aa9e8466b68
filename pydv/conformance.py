"""The assumed contracts of numpy against the real numpy.

Each operation is applied to random concrete values twice: by numpy, and by
the verifier's theory on symbolic arrays constrained to those values. Checked:
the assumed contract is consistent with the real result (it does not exclude
it: an assumed contract that is false of numpy would make proofs unsound), and
it entails the real result (it is complete enough to refute wrong code), with
bounded arrays and, for the consistency of the entailed values, with the
quantified form used by the unbounded proofs.

    python -m pydv.conformance [number of rounds]
"""
from __future__ import annotations

import datetime
import sys

import numpy as np
from .core import z3

from . import core, theory
from .core import PathEnd, cur


def t_where(n, a, b, m, **_):
    return n.where(a < b)[0]


OPS = {
    'where <': t_where,
    'where mask': lambda n, m, **_: n.where(m)[0],
    'where ternary': lambda n, a, b, m, **_: n.where(m, a, b),
    'flatnonzero': lambda n, m, **_: n.flatnonzero(m),
    'count_nonzero': lambda n, m, **_: n.count_nonzero(m),
    'a[mask]': lambda n, a, m, **_: a[m],
    'a[where]': lambda n, a, m, **_: a[n.where(m)[0]],
    'diff': lambda n, a, **_: n.diff(a),
    'roll': lambda n, a, **_: n.roll(a, 0),
    'concatenate': lambda n, a, b, **_: n.concatenate((a, b)),
    'concatenate constant': lambda n, a, **_: n.concatenate(
        (n.array([0], dtype=np.int64), a, n.array([7], dtype=np.int64))),
    'all': lambda n, a, b, **_: n.all(a <= b),
    'any': lambda n, a, b, **_: n.any(a == b),
    'logical': lambda n, a, b, m, **_: n.where(n.logical_and(
        m, n.logical_or(a < b, n.logical_not(a == b))))[0],
    'and or not': lambda n, a, b, m, **_: n.where((m & (a < b)) | ~m)[0],
    'slice': lambda n, a, s, t, **_: a[s:t],
    'slice negative': lambda n, a, s, **_: a[-s:],
    'a[1:]-a[:-1]': lambda n, a, **_: a[1:] - a[:-1],
    'a[1:]!=a[:-1]': lambda n, a, **_: n.where(a[1:] != a[:-1])[0],
    'arithmetic': lambda n, a, b, **_: (a + b) * 2 - 1,
    'array_equal': lambda n, a, b, **_: n.array_equal(a, b),
    'array_equal self': lambda n, a, **_: n.array_equal(a, a + 0),
    'unique': lambda n, a, **_: n.unique(a, axis=0, return_index=True,
                                         return_inverse=True)[1],
    'unique values': lambda n, a, **_: n.unique(
        a, axis=0, return_index=True, return_inverse=True)[0],
    'unique inverse': lambda n, a, **_: n.unique(
        a, axis=0, return_index=True, return_inverse=True)[2].ravel(),
    'argsort values': lambda n, a, **_: a[n.argsort(a)],
    'min': lambda n, a, **_: a.min(),
    'max': lambda n, a, **_: n.max(a),
    'arange': lambda n, a, **_: n.arange(a.size),
    'times': lambda n, d, **_: n.diff(d).astype('int64'),
    'times where': lambda n, d, **_: n.where(d > d.min())[0],
    'truncation': lambda n, d, **_: d.astype('M8[D]').astype('int64'),
    'truncation hour': lambda n, d, **_: d.astype('M8[h]').astype('int64'),
    'item': lambda n, a, s, **_: a[s],
    'setitem': lambda n, a, m, **_: _set(a, m),
    'vstack': lambda n, a, b, **_: n.vstack((a, b[:a.size])).transpose(
    )[:, 0],
}
NEEDS_ROWS = {'min', 'max', 'times where', 'item'}
SAME = {'where <', 'where ternary', 'all', 'any', 'logical', 'and or not',
        'arithmetic', 'vstack'}


def _set(a, m):
    a = a.copy()
    a[0:1] = 9
    return a


def scalar(x):
    """Python value of a numpy result."""
    x = np.asarray(x)
    if x.dtype.kind in 'Mm':
        x = x.astype('int64')
    return x.tolist()


def term(x):
    v = theory.as_term(x)
    return v


def arr(ctx, name, values, dtype='int64', maxn=None):
    n = ctx.int('n_' + name)
    ctx.assume(n == len(values))
    a = theory.input_array(name, n, maxn, dtype)
    for k, v in enumerate(values):
        ctx.assume(theory.zb(theory.veq(a.at(z3.IntVal(k)), v)))
    return a


def check(op, fn, vals, bounded):
    """Messages of the differences of one operation on one input."""
    real = scalar(fn(np, **vals))
    maxn = 6 if bounded else None
    run = core.Run('conformance', size=maxn, max_paths=500)
    out = []
    facade = theory.numpy_facade()
    feasible = []

    def body(ctx):
        sym = dict(vals)
        for k in ('a', 'b'):
            sym[k] = arr(ctx, k, vals[k].tolist(), maxn=maxn)
        sym['m'] = arr(ctx, 'm', vals['m'].tolist(), 'bool', maxn)
        d = arr(ctx, 'd', [core.SymTime(z3.IntVal(int(x)), 's', 'M')
                           for x in vals['d'].astype('int64')], 'M8[s]', maxn)
        sym['d'] = d
        r = fn(facade, **sym)
        if isinstance(real, list):
            r = theory.lift_arr(r)
            eq = [theory.I(r.n) == len(real)]
            for k, v in enumerate(real):
                x = r.at(z3.IntVal(k))
                if isinstance(x, core.SymTime):
                    x = core.mkint(x.t)
                eq.append(theory.zb(theory.veq(x, v)))
            eq = z3.And(eq)
        else:
            if isinstance(r, core.SymTime):
                r = core.mkint(r.t)
            eq = theory.zb(theory.veq(r, real))
        ctx.prove(eq, 'entailed')
        ctx.assume(eq)
        f = ctx._full_feasible()
        feasible.append(f)

    run.execute(body)
    if run.unsupported:
        return ['unsupported ' + run.unsupported[0]]
    if run.refuted and bounded:
        out.append(f'{op}: the contract does not entail the result')
    if 'sat' not in feasible and (bounded or 'unknown' not in feasible):
        out.append(f'{op}: the contract excludes the result {real}')
    return out


def main(rounds=12, seed=0):
    r = np.random.default_rng(seed)
    bad, count, skipped = [], 0, {}
    for k in range(rounds):
        n = int(r.integers(0, 5)) if k else 3
        a = r.integers(-2, 3, n)
        if r.integers(2):
            a = np.sort(a)
        base = int(datetime.datetime(1999, 12, 31, 22).timestamp())
        d = (base + np.sort(r.integers(-99999, 99999, n))).astype('M8[s]')
        for op, fn in OPS.items():
            if n == 0 and (op in NEEDS_ROWS or op.startswith('unique')):
                continue
            vals = dict(a=a, b=r.integers(-2, 3, n if op in SAME else
                                          int(r.integers(0, 5))),
                        m=r.integers(0, 2, n).astype(bool), d=d,
                        s=int(r.integers(0, max(n, 1))), t=int(
                            r.integers(0, n + 2)))
            if op == 'slice negative' and vals['s'] == 0:
                vals['s'] = 1
            for bounded in (True, False):
                if not bounded and k >= 3:
                    continue
                try:
                    e = check(op, fn, vals, bounded)
                except Exception as exc:  # a gap of this self-test
                    e = [f'unsupported {exc!r}']
                count += 1
                for x in e:
                    if x.startswith('unsupported'):
                        skipped[op] = x
                    else:
                        bad.append((x, {q: np.asarray(w).tolist()
                                        for q, w in vals.items()}, bounded))
    return count, skipped, bad


if __name__ == '__main__':
    c, s, b = main(int(sys.argv[1]) if len(sys.argv) > 1 else 12)
    for x in b[:20]:
        print('DIFFERENCE', x)
    for x, y in s.items():
        print('not exercised:', x, y)
    print(f'{c} comparisons, {len(s)} operations not exercised, '
          f'{len(b)} differences')
    sys.exit(bool(b))
