"""Every list length and batch count up to a limit, several sequence types,
plus insert/update/copy of the same data with different batch counts;
non-trivial: a non-empty list."""
import itertools

import numpy

from rtc import base, zc


def split(i):
    from zcollection.dask_utils import split_sequence
    n, k = i['n'], i['k']
    seq = {'list': list, 'tuple': tuple}[i['type']](range(n))
    try:
        got = list(split_sequence(seq, k))
    except ValueError:
        return [] if k is not None and k <= 0 else \
            [f'split_sequence({n} elements, {k}) refused']
    if k is not None and k <= 0:
        return [f'{k} batches accepted']
    err = []
    if [x for b in got for x in b] != list(seq):
        err.append(f'concatenation of {got}')
    if any(len(b) == 0 for b in got):
        err.append(f'empty batch in {got}')
    if len(got) > (n if k is None else min(n, k)):
        err.append(f'{len(got)} batches of {n} elements for {k}')
    if n and k is not None and len(got) != min(n, k):
        err.append(f'{len(got)} batches of {n} elements for {k}')
    if got and max(map(len, got)) - min(map(len, got)) > 1:
        err.append(f'unbalanced {[len(b) for b in got]}')
    return err


def ops(i):
    """The result does not depend on the batch setting."""
    s = zc.Schema('seq', ncol=1, delayed=i['delayed'])
    keys = sorted(i['keys'])
    n = len(keys)
    rows = s.rows(zc.rand_times(base.rng(i['seed'], 'o'), n, 500),
                  [[k] for k in keys], i['seed'])
    state = s.split(rows)
    err = []
    p = base.scratch()
    try:
        c = zc.create(s, rows, p)
        got = sorted(c.insert(s.dataset(rows), npartitions=i['k']))
        want = sorted(p + '/' + s.relname(k) for k in state)
        if got != want:
            err.append(f'insert returned {got}')
        err += zc.check_store(p, s, state, label=f"insert({i['k']})")
        c.update(lambda zds: {'v1': zds['v1'].values * 2 + 1},
                 npartitions=i['k'], delayed=False)
        for v in state.values():
            v['v1'] = v['v1'] * 2 + 1
        err += zc.check_store(p, s, state, label=f"update({i['k']})")
        q = p + '-copy'
        c.copy(q, npartitions=i['k'])
        err += zc.check_store(q, s, state, label=f"copy({i['k']})")
        for bad in (0, -1):
            try:
                list(c.insert(s.dataset(rows), npartitions=bad))
                err.append(f'insert accepted npartitions={bad}')
            except ValueError:
                pass
        return err
    finally:
        base.clean(p)


CASES = dict(split=split, ops=ops)


def generate(seed, tier):
    q = tier == 'quick'
    m = 24 if q else 60
    for n, k in itertools.product(range(m), list(range(-2, m + 3)) + [None]):
        yield 'split', dict(n=n, k=k, type='list' if (n + (k or 0)) % 2
                            else 'tuple')
    r = base.rng(seed, 'c18')
    for j in range(14 if q else 80):
        nk = int(r.integers(1, 10))
        yield 'ops', dict(keys=[int(x) for x in r.integers(0, nk, nk * 2)],
                          k=int(r.integers(1, 12)), seed=j,
                          delayed=bool(j % 2))
