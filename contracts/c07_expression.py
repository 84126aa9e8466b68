"""C07: the value of a filter expression, for any integer keys.

The expression is parsed, compiled and evaluated by the real code and CPython;
the keys are any integers. The oracle is the same predicate written over z3
terms."""
import z3

from pydv import world as worldmod
from pydv.core import Crash, SymInt, cur
from pydv.harness import contract

A, O, N = z3.And, z3.Or, z3.Not

#: expression -> the formula it denotes over the keys
TEXT = {
    'year == 2000': lambda y, m, d: y == 2000,
    'year != month': lambda y, m, d: y != m,
    'year >= 2000 and month < 6': lambda y, m, d: A(y >= 2000, m < 6),
    'year < 2000 or (month == 1 and day > 3)':
    lambda y, m, d: O(y < 2000, A(m == 1, d > 3)),
    'not (year == 2000 and month == 2)':
    lambda y, m, d: N(A(y == 2000, m == 2)),
    'month in range(3, 6)': lambda y, m, d: A(m >= 3, m < 6),
    'month not in range(3, 6)': lambda y, m, d: N(A(m >= 3, m < 6)),
    'day in (1, 15) and month in [2, 4]':
    lambda y, m, d: A(O(d == 1, d == 15), O(m == 2, m == 4)),
    '1999 < year <= 2001': lambda y, m, d: A(1999 < y, y <= 2001),
    'year == -1 or month == 0': lambda y, m, d: O(y == -1, m == 0),
    '2 * year + day > month - 1': lambda y, m, d: 2 * y + d > m - 1,
    'day == (1 if month == 2 else 31)':
    lambda y, m, d: d == z3.If(m == 2, z3.IntVal(1), z3.IntVal(31)),
    'True': lambda y, m, d: z3.BoolVal(True),
    'year and not month': lambda y, m, d: A(y != 0, m == 0),
}


def plain():
    return worldmod.World(facades={})


def truth(x):
    """The Python truth value of the result, as the caller takes it."""
    return bool(x)


@contract('C07', 'Expression: the truth value of the predicate for any '
          'integer keys', ['zcollection.expression:Expression.__init__',
                           'zcollection.expression:Expression.__call__'],
          world=plain, assumes=(
              'compile and eval of CPython; the predicates are the 14 shapes '
              'listed in contracts/c07_expression.py', ))
def value(ctx, W):
    text = list(TEXT)[ctx.choose(len(TEXT), 'expression')]
    y, m, d = (ctx.int(k) for k in ('year', 'month', 'day'))
    ctx.input('expression', text)
    extra = ctx.choose(2, 'other keys')
    keys = dict(year=SymInt(y), month=SymInt(m), day=SymInt(d))
    if extra:
        keys['hour'] = SymInt(ctx.int('hour'))
    e = W['expression'].Expression(text)
    ctx.cover('reachable')
    got = truth(e(keys))
    ctx.prove(z3.BoolVal(got) == TEXT[text](y, m, d), 'value')
    again = truth(e(keys))
    ctx.prove(z3.BoolVal(again == got), 'evaluated twice')
    ctx.prove(z3.BoolVal(set(keys) == {'year', 'month', 'day'}
                         | ({'hour'} if extra else set())), 'keys unchanged')


@contract('C07', 'Expression: an unknown name is an error',
          ['zcollection.expression:Expression.__call__'], world=plain)
def unknown(ctx, W):
    text = ['hour == 1', 'year == 2000 and yaer == 2', 'year in range(hour)',
            'year == 1 or zz'][ctx.choose(4, 'expression')]
    y = ctx.int('year')
    ctx.cover('reachable')
    e = W['expression'].Expression(text)
    try:
        e(dict(year=SymInt(y)))
    except NameError:
        ctx.prove(z3.BoolVal(True), 'refused')
        return
    except Crash:
        raise
    cur().fail('accepted')
