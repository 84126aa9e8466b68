"""Collections whose partitions have arbitrary creation dates (any time zone of
the process) dropped with filters and ages, and collections with damaged
partitions (missing or corrupted metadata, undecodable chunks of every codec)
validated with and without repair. Non-trivial: at least one partition."""
import datetime
import os
import time
import warnings

import numpy

from rtc import base, zc

UTC = datetime.timezone.utc


def aged_fs():
    from fsspec.implementations.local import LocalFileSystem

    class AgedFS(LocalFileSystem):
        cachable = False
        ages = {}
        naive = False

        def created(self, path):
            k = '/'.join(path.rstrip('/').split('/')[-2:])
            d = datetime.datetime.now(tz=UTC) - datetime.timedelta(
                seconds=self.ages[k])
            return d.astimezone().replace(tzinfo=None) if self.naive else d

    return AgedFS


def build(i, fs=None, codec=None):
    s = zc.Schema('seq', ncol=2, delayed=False, imm=i.get('imm', False),
                  chunk=i.get('chunk'))
    keys = sorted({tuple(k) for k in i['keys']})
    n = i.get('nrows', 2)
    rows = s.rows(['2000-01-01'] * len(keys) * n,
                  [k for k in keys for _ in range(n)], 5)
    p = base.scratch()
    zds = s.dataset(rows)
    if codec:
        import numcodecs
        for v in zds.variables.values():
            v.compressor = getattr(numcodecs, codec)()
    base.client()
    c = zc.z().create_collection('time', zds, s.handler(), p, filesystem=fs)
    list(c.insert(zds))
    return s, rows, p, c


def drop(i):
    tz = os.environ.get('TZ')
    p = None
    try:
        os.environ['TZ'] = i['tz']
        time.tzset()
        FS = aged_fs()
        FS.naive = i['naive']
        fs = FS()
        s, rows, p, c = build(i, fs)
        state = s.split(rows)
        for n, k in enumerate(sorted(state)):
            FS.ages[s.relname(k)] = i['ages'][n]
        before = base.tree(p)
        gone = set(state)
        f = i['filter']
        if f:
            gone = {k for k in gone if eval(f, {}, dict(k))}
        td = None
        if i['age'] is not None:
            gone = {k for k in gone
                    if FS.ages[s.relname(k)] > i['age']}
            td = datetime.timedelta(seconds=i['age'])
        got = list(c.drop_partitions(filters=f, timedelta=td))
        err = []
        want = [p + '/' + s.relname(k) for k in sorted(gone)]
        if sorted(got) != want:
            err.append(f'reported {got} instead of {want}')
        names = {s.relname(k) for k in gone}
        after = base.tree(p)
        exp = {k: v for k, v in before.items()
               if not any(k == n + '/' or k.startswith(n + '/')
                          for n in names)}
        d = [x for x in base.tree_diff(exp, after)]
        if d:
            err.append(f'after dropping {sorted(names)}: {d[:4]}')
        left = {k: v for k, v in state.items() if k not in gone}
        err += zc.check_load(c, s, left)
        return err
    finally:
        if p:
            base.clean(p)
        if tz is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = tz
        time.tzset()


def damage(d, how, codec):
    """Returns whether the partition is still readable."""
    chunk = os.path.join(d, 'v1', '0')
    data = open(chunk, 'rb').read()
    if how == 'none':
        return True
    if how == 'nometa':
        os.remove(os.path.join(d, '.zmetadata'))
    elif how == 'badmeta':
        open(os.path.join(d, '.zmetadata'), 'w').write('{"a"')
    elif how == 'emptymeta':
        open(os.path.join(d, '.zmetadata'), 'w').write('')
    elif how == 'garbage':
        open(chunk, 'wb').write(b'\x7f' * 40)
    elif how == 'half':
        # Blosc doesn't check the length of what it is given
        open(chunk, 'wb').write(b'\x7f' * 9 if codec == 'Blosc' else
                                data[:len(data) // 2])
    elif how == 'lastchunk':
        f = max((x for x in os.listdir(os.path.join(d, 'v1'))
                 if x.isdigit()), key=int)
        open(os.path.join(d, 'v1', f), 'wb').write(b'\x7f' * 41)
    elif how == 'lastvar':
        f = os.path.join(d, 'v2', max(
            x for x in os.listdir(os.path.join(d, 'v2')) if x[0] != '.'))
        open(f, 'wb').write(b'\x7f' * 40)
    elif how == 'badtype':
        f = os.path.join(d, '.zmetadata')
        x = open(f).read()
        open(f, 'w').write(x.replace('<f8', '<q7').replace('<i4', '<i3'))
    elif how == 'badversion':
        f = os.path.join(d, '.zmetadata')
        x = open(f).read()
        open(f, 'w').write(x.replace('"zarr_consolidated_format": 1',
                                     '"zarr_consolidated_format": 9'))
    elif how == 'nochunk':  # absent chunks hold the fill value
        os.remove(chunk)
        return True
    return False


def validate(i):
    p = None
    try:
        s, rows, p, c = build(i, codec=i['codec'])
        state = s.split(rows)
        bad = []
        for n, k in enumerate(sorted(state)):
            d = p + '/' + s.relname(k)
            if not damage(d, i['damage'][n % len(i['damage'])], i['codec']):
                bad.append(k)
        before = base.tree(p)
        f = i['filter']
        sel = [k for k in bad if not f or eval(f, {}, dict(k))]
        want = [p + '/' + s.relname(k) for k in sel]
        c = zc.reopen(p, mode='w' if i['fix'] else 'r')
        err = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = c.validate_partitions(filters=f, fix=i['fix'])
        if sorted(got) != want:
            err.append(f'reported {got} instead of {want}')
        gone = [s.relname(k) for k in sel] if i['fix'] else []
        exp = {k: v for k, v in before.items()
               if not any(k == n + '/' or k.startswith(n + '/')
                          for n in gone)}
        d = base.tree_diff(exp, base.tree(p))
        if d:
            err.append(f'validation (fix={i["fix"]}) changed {d[:4]}')
        if i['fix'] and not err:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                again = c.validate_partitions(filters=f)
            if again:
                err.append(f'after repair {again} still invalid')
        return err
    finally:
        if p:
            base.clean(p)


CASES = dict(drop=drop, validate=validate)


def generate(seed, tier):
    r = base.rng(seed, 'c22')
    q = tier == 'quick'
    fs = [None, None, 'k0 == 1', 'j1 > 0', 'k0 != 0 or j1 == 2', 'k0 > 50']

    def keys():
        return r.integers(0, 3, (int(r.integers(1, 7)), 2)).tolist()

    for j in range(36 if q else 400):
        base_age = [None, 0, 100, 3000, 86400][r.integers(5)]
        b = base_age or 50
        yield 'drop', dict(
            keys=keys(), filter=fs[r.integers(len(fs))], age=base_age,
            ages=[int(b + r.choice([-40, -1000, 60, 5000, 8000, -3700]))
                  for _ in range(9)], naive=bool(r.integers(4) == 0),
            tz=['UTC', 'UTC', 'Asia/Tokyo', 'America/New_York', 'UTC-2',
                'UTC+5'][r.integers(6)], imm=bool(r.integers(3) == 0))
    hows = ['none', 'none', 'nometa', 'badmeta', 'emptymeta', 'garbage',
            'half', 'lastvar', 'lastchunk', 'badtype', 'badversion', 'nochunk']
    codecs = [None, 'Zlib', 'GZip', 'LZMA', 'Zstd', 'LZ4', 'Blosc']
    for j in range(36 if q else 400):
        codec = codecs[r.integers(7)]
        yield 'validate', dict(
            keys=keys(), codec=codec, chunk=[None, 1, 2][r.integers(3)],
            nrows=int(r.integers(1, 6)),
            damage=[hows[r.integers(len(hows))] for _ in range(6)],
            filter=fs[r.integers(len(fs))], fix=bool(r.integers(2)),
            imm=bool(r.integers(3) == 0))
