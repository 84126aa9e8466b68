"""Pairs of periods over small and random bounds in several time units, open
or closed, null ones included; a case is non-trivial when a bound is not 0."""
import itertools

from contracts.c04_period import UNITS, check_pair
from rtc import base


def pair(i):
    return check_pair(i['p1'], i['p2'])


CASES = dict(pair=pair)


def generate(seed, tier):
    def d(b, e, w, u):
        return dict(begin=int(b), end=int(e), within=bool(w), unit=u)
    n = 5 if tier == 'quick' else 8
    u = 's'
    for a, b, c, e in itertools.product(range(n), repeat=4):
        yield 'pair', dict(p1=d(a, b, 1, u), p2=d(c, e, 1, u))
    r = base.rng(seed, 'c04')
    for _ in range(1500 if tier == 'quick' else 20000):
        u = UNITS[r.integers(len(UNITS))]
        m = int(r.choice([3, 10, 1000, 10**9 if u not in 'MYW' else 1000]))
        v = r.integers(-m, m + 1, 4)
        if r.random() < 0.3:
            v[2] = v[0] + r.integers(-1, 2)
        if r.random() < 0.3:
            v[3] = v[1] + r.integers(-1, 2)
        w = r.integers(2, size=2)
        yield 'pair', dict(p1=d(v[0], v[1], w[0], u), p2=d(v[2], v[3], w[1], u))
