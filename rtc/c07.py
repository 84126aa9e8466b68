"""Random sets of partitions, base directory names and predicates (strings
and callables) compared with a direct evaluation on the keys; non-trivial: at
least one partition."""
import numpy

from rtc import base, zc


def select(i):
    import fsspec
    kind = i['kind']
    s = zc.Schema(kind, res=i['res'], ncol=2, delayed=False, missing=True)
    rows = s.rows(i['times'], i['keys'], 0)
    p = base.scratch(i['base'])
    fs = fsspec.filesystem(i['fs'])
    err = []
    try:
        c = zc.create(s, rows, p, filesystem=fs)
        list(c.insert(s.dataset(rows)))
        keys = sorted(s.split(rows))
        fs.makedirs(p + '/.hidden/x', exist_ok=True)
        for f in i['filters']:
            want = [k for k in keys
                    if f is None or bool(eval(f, {}, dict(k)))]
            names = [p + '/' + s.relname(k) for k in want]
            code = None if f is None else compile(f, 'f', 'eval')
            preds = [f]
            if f is not None:
                preds.append(lambda k: bool(eval(code, {}, dict(k))))
            for g in preds:
                for lock in (False, True):
                    got = list(c.partitions(filters=g, lock=lock))
                    if got != names:
                        err.append(f'{f!r} lock={lock} selected {got} '
                                   f'instead of {names}')
                got = list(c.partitions(filters=g, relative=True))
                if got != [s.relname(k) for k in want]:
                    err.append(f'{f!r} relative {got}')
                zds = c.load(filters=g, delayed=False,
                             selected_variables=['time'])
                n = 0 if zds is None else zds['time'].shape[0]
                m = sum(1 for j in range(len(rows['time']))
                        if s.key(rows, j) in want)
                if n != m:
                    err.append(f'{f!r} loaded {n} rows instead of {m}')
                types = []
                list(c.partitions(filters=lambda k: types.append(
                    [type(v) for v in k.values()]) or True))
                if any(t is not int for ts in types for t in ts):
                    err.append(f'keys given to the predicate {types[:2]}')
        for bad in ('unknown == 1', 'k9 > 0', 'yea == 3'):
            try:
                got = list(c.partitions(filters=bad))
                err.append(f'{bad!r} selected {got}')
            except (NameError, KeyError, ValueError, TypeError):
                pass
        return err[:5]
    finally:
        if i['fs'] == 'memory' and fs.exists(p):
            fs.rm(p, recursive=True)
        base.clean(p)


CASES = dict(select=select)


def generate(seed, tier):
    r = base.rng(seed, 'c07')
    q = tier == 'quick'
    for j in range(24 if q else 300):
        kind = ['date', 'seq'][j % 2]
        n = int(r.integers(1, 15))
        res = str(r.choice(['Y', 'M', 'D', 'h']))
        if kind == 'date':
            names = zc.RESKEYS[:zc.RESN[res]]
            lim = dict(year=(1998, 2005), month=(1, 13), day=(1, 32),
                       hour=(0, 24))
        else:
            names = ['k0', 'j1']
            lim = dict(k0=(-2, 3), j1=(-2, 3))
        fl = [None]
        for _ in range(4):
            k = str(r.choice(names))
            v = int(r.integers(*lim[k]))
            op = str(r.choice(['==', '!=', '<', '>=', '% 2 ==']))
            e = f'{k} {op} {v % 2 if "%" in op else v}'
            if r.random() < 0.5:
                k2 = str(r.choice(names))
                e += f' {r.choice(["and", "or"])} {k2} <= ' \
                     f'{int(r.integers(*lim[k2]))}'
            fl.append(e)
        k2 = names[-1]
        fl.append(f'{k2} in (1, 2, 5)')
        keys = r.integers(-2, 3, (n, 2))
        keys = keys[numpy.lexsort(keys.T[::-1])]
        span = dict(Y=60000, M=9000, D=900, h=90)[res]
        yield 'select', dict(
            kind=kind, res=res, keys=keys.tolist(), fs=['file', 'memory'][
                j // 2 % 2], filters=fl,
            base=str(r.choice(['c', 'k0=1', 'year=2020', 'a b', 'j1'])),
            times=zc.rand_times(r, n, span))
