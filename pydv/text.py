"""Names holding symbolic integers: real strings in which the digits of a
symbolic integer are private characters (core._digits), and regular
expressions that know those characters are digits."""
from __future__ import annotations

import re

import numpy

from . import core, theory
from .core import Sym, SymInt, Unsupported, cur, mkbool, mkint, z3, zint
from .theory import Facade

TOK = '\uE000-\uF8FE'
UNITS = ('year', 'month', 'day', 'hour', 'minute', 'second')
FIRST = (1, 1, 1, 0, 0, 0)
LAST = (9999, 12, 31, 23, 59, 59)
CODES = 'YMDhms'


def _counted(tree):
    for op, arg in tree:
        name = str(op)
        if name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = arg
            if lo > 1 or (1 < hi < re._constants.MAXREPEAT):
                raise Unsupported('counted repetition in a pattern')
            _counted(sub)
        elif name == 'SUBPATTERN':
            _counted(arg[-1])
        elif name == 'BRANCH':
            for x in arg[1]:
                _counted(x)
        elif name in ('ASSERT', 'ASSERT_NOT'):
            _counted(arg[1])


def translate(p):
    """The same pattern, where the private characters are digits."""
    if not isinstance(p, str):
        return p
    _counted(re._parser.parse(p))
    out, i, inside = [], 0, False
    while i < len(p):
        c = p[i]
        if c == '\\':
            d = p[i + 1]
            i += 2
            if d == 'd':
                out.append(r'\d' + TOK if inside else rf'[\d{TOK}]')
            elif d == 'w':
                out.append(r'\w' + TOK if inside else rf'[\w{TOK}]')
            elif d in 'DW' and not inside:
                out.append(rf'[^\{d.lower()}{TOK}]')
            elif d in 'DW':
                raise Unsupported(f'pattern {p!r}')
            elif d == 'b' and not inside:
                w = rf'[\w{TOK}]'
                out.append(f'(?:(?<!{w})(?={w})|(?<={w})(?!{w}))')
            elif d == 'B' and not inside:
                w = rf'[\w{TOK}]'
                out.append(f'(?:(?<!{w})(?!{w})|(?<={w})(?={w}))')
            else:
                out.append(c + d)
            continue
        if inside:
            if c == ']':
                inside = False
            elif p[i:i + 3] == '0-9':
                out.append('0-9' + TOK)
                i += 3
                continue
        elif c == '[':
            inside = True
            out.append(c)
            i += 1
            if p[i:i + 1] == '^':
                out.append('^')
                i += 1
            if p[i:i + 1] == ']':
                out.append(']')
                i += 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def _wrap(f):
    return lambda p, *a, **k: f(translate(p), *a, **k)


def regex():
    return Facade(re, {n: _wrap(getattr(re, n)) for n in (
        'compile', 'search', 'match', 'fullmatch', 'split', 'findall',
        'finditer', 'sub')})


class Date(Sym):
    """datetime64 of any date: its fields, down to its resolution."""

    def __init__(self, fields):
        self.fields = tuple(fields)

    @property
    def dtype(self):
        return numpy.dtype(f'M8[{CODES[len(self.fields) - 1]}]')

    def __isinstance__(self, cls):
        return cls in (numpy.datetime64, numpy.generic, object)

    def astype(self, dtype, *a, **k):
        unit = numpy.datetime_data(numpy.dtype(dtype))
        if numpy.dtype(dtype).kind != 'M' or unit[0] not in CODES:
            raise Unsupported(f'astype({dtype})')
        n = CODES.index(unit[0]) + 1
        return Date(self.fields[:n] + tuple(
            mkint(z3.IntVal(v)) for v in FIRST[len(self.fields):n]))

    def item(self):
        f = self.astype('M8[s]').fields if len(self.fields) < 6 else \
            self.fields
        n = len(self.fields)
        if n <= 3:
            # a date, not a datetime
            return PyDate(f[:3], ())
        return PyDate(f[:3], f[3:])

    tolist = item

    def __eq__(self, o):
        if not isinstance(o, Date):
            return False
        a = self.astype('M8[s]').fields
        b = o.astype('M8[s]').fields
        return mkbool(z3.And([zint(x) == zint(y) for x, y in zip(a, b)]))

    __hash__ = None


class PyDate(Sym):

    def __init__(self, day, time):
        for k, v in zip(UNITS, tuple(day) + tuple(time)):
            setattr(self, k, v)


def any_date(ctx, n=6):
    """Any date of the calendar (the days of a month are not counted: a
    superset), at the resolution of n fields."""
    out = []
    for k, lo, hi in zip(UNITS[:n], FIRST, LAST):
        v = ctx.int(k)
        ctx.assume(z3.And(lo <= v, v <= hi))
        ctx.input(k, v)
        out.append(mkint(v))
    return Date(out)


ISO = re.compile(translate(r'(-?\d+)(?:-(\d+)(?:-(\d+)(?:[T ](\d+)(?::(\d+)'
                           r'(?::(\d+))?)?)?)?)?'))


def datetime64(*a, **k):
    """numpy.datetime64 of an ISO 8601 date."""
    if a and isinstance(a[0], Date):
        return a[0] if len(a) == 1 else a[0].astype(f'M8[{a[1]}]')
    if not a or not isinstance(a[0], str) or not any(
            core.is_token(c) for c in a[0]):
        return theory.np_datetime64(*a, **k)
    m = ISO.fullmatch(a[0])
    if m is None:
        raise ValueError(f'Error parsing datetime string {a[0]!r}')
    fields = []
    for n, g in enumerate(m.groups()):
        if g is None:
            break
        if n and len(g) != 2:
            raise ValueError(f'Error parsing datetime string {a[0]!r}')
        v = theory.sh_int(g)
        if n and not cur().branch(z3.And(FIRST[n] <= zint(v),
                                         zint(v) <= LAST[n])):
            raise ValueError('out of range')
        fields.append(v)
    r = Date(fields)
    return r if len(a) == 1 else r.astype(f'M8[{a[1]}]')


def world():
    from . import daskf, world as w
    np = theory.numpy_facade()
    np.__dict__['datetime64'] = datetime64
    return w.World(facades={'numpy': np, 'dask': daskf.dask_facade(),
                            're': regex()})
