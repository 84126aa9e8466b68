"""Collections of any content (empty, non-partitioned variables, several chunk
files, nested names) copied between local and in-memory file systems with
filters and batch counts, then compared byte by byte and reopened; targets
holding one of the partitions. Non-trivial: at least one row."""
import os

import numpy

from rtc import base, zc


def memfs():
    import fsspec
    return fsspec.filesystem('memory')


def mtree(fs, path):
    if fs is None:
        return {k: v for k, v in base.tree(path).items() if v is not None}
    root = path.rstrip('/')
    return {f[len(root) + 1:] if f.startswith(root) else
            f[f.index(root) + len(root) + 1:]: fs.cat(f)
            for f in fs.find(path)}


def copy(i):
    s = zc.Schema(i['kind'], res=i['res'], ncol=2, delayed=False,
                  imm=i['imm'], chunk=i['chunk'], missing=True)
    rows = s.rows(i['times'], i['keys'], 8)
    p = base.scratch()
    src = tgt = None
    sp, tp = p, os.path.dirname(p) + i['target']
    try:
        if i['src'] == 'memory':
            src = memfs()
            sp = '/zcv' + p
        if i['dst'] == 'memory' or (i['dst'] is None and src is not None):
            tgt = memfs()
            tp = '/zcv' + tp
        base.client()
        c = zc.z().create_collection('time', s.dataset(rows), s.handler(), sp,
                                     filesystem=src)
        state = {}
        if i['insert']:
            list(c.insert(s.dataset(rows)))
            state = s.split(rows)
        if i['readonly']:
            c = zc.z().open_collection(sp, mode='r', filesystem=src)
        before = mtree(src, sp)
        f = i['filter']
        sel = {k: v for k, v in state.items()
               if not f or eval(f, {}, dict(k))}
        if i['exists'] and sel:
            k = sorted(sel)[i['exists'] % len(sel)]
            d = tp + '/' + s.relname(k)
            if tgt is None:
                os.makedirs(d)
                open(d + '/mine', 'w').write('x')
            else:
                tgt.makedirs(d, exist_ok=True)
                tgt.pipe(d + '/mine', b'x')
        kw = {}
        if i['dst'] is not None:
            import fsspec
            kw['filesystem'] = fsspec.filesystem(i['dst'])
        err = []
        try:
            n = c.copy(tp, filters=f, npartitions=i['npart'], mode=i['mode'],
                       **kw)
            if i['exists'] and sel:
                err.append('copied over an existing partition')
        except (ValueError, OSError):
            if not (i['exists'] and sel):
                raise
            d = tp + '/' + s.relname(k)
            t = mtree(tgt, d)
            if t != {'mine': b'x'}:
                err.append(f'existing partition altered: {sorted(t)}')
            n = None
        if mtree(src, sp) != before:
            err.append('source changed: ' + str(base.tree_diff(
                before, mtree(src, sp))[:4]))
        if n is None or err:
            return err
        want = {}
        parts = [s.relname(k) for k in state]
        keep = [s.relname(k) for k in sel]
        for k, v in before.items():
            q = [x for x in parts if k.startswith(x + '/')]
            if not q or q[0] in keep:
                want[k] = v
        d = base.tree_diff(want, mtree(tgt, tp))
        if d:
            err.append(f'copy differs: {d[:4]}')
        if (n.mode, n.axis, n.partitioning.get_config()) != (
                i['mode'], c.axis, c.partitioning.get_config()) or \
                n.metadata != c.metadata:
            err.append('configuration of the copy differs')
        if n.partition_properties.dir.strip('/') != tp.strip('/'):
            err.append(f'directory {n.partition_properties.dir}')
        if type(n.fs) is not type(tgt or c.fs if i['dst'] is None else
                                  kw['filesystem']):
            err.append(f'file system {n.fs}')
        if not err:
            if not sel and s.imm:
                pass
            else:
                err += zc.check_load(n, s, sel)
            got = [x[x.index(tp) + len(tp) + 1:] for x in n.partitions()]
            if got != [s.relname(k) for k in sorted(sel)]:
                err.append(f'partitions {got}')
        if i['mode'] == 'w' and not err and state:
            # the copy is independent of its source
            extra = zc.take(rows, [0])
            list(n.insert(s.dataset(extra)))
            if mtree(src, sp) != before:
                err.append('inserting in the copy changed the source')
        return err
    finally:
        base.clean(p)
        m = memfs()
        for x in ('/zcv', ):
            if m.exists(x):
                m.rm(x, recursive=True)


def tree(i):
    """copy_tree on any directory tree, between any pair of file systems."""
    from zcollection import fs_utils
    p = base.scratch()
    m = memfs()
    fss = {'file': fs_utils.get_fs('file'), 'memory': m}
    fa, fb = fss[i['src']], fss[i['dst']]
    a = ('/zcv' if i['src'] == 'memory' else '') + p + '/a'
    b = ('/zcv' if i['dst'] == 'memory' else '') + p + '/b'
    if i['nest']:
        b += '/' + i['nest']

    def put(fs, path, data):
        fs.makedirs(path.rsplit('/', 1)[0], exist_ok=True)
        fs.pipe(path, data)

    def listing(fs, path):
        """Every directory and file below path, with the contents."""
        out = {}
        for info in fs.ls(path, detail=True):
            k = info['name'].rstrip('/').rsplit('/', 1)[-1]
            if info['type'] == 'directory':
                out[k] = listing(fs, info['name'])
            else:
                out[k] = fs.cat(info['name'])
        return out

    try:
        os.makedirs(p, exist_ok=True)
        fa.makedirs(a, exist_ok=True)
        fb.makedirs(b.rsplit('/', 1)[0], exist_ok=True)
        for d in i['dirs']:
            fa.makedirs(a + '/' + d, exist_ok=True)
        for k, n in i['files']:
            put(fa, a + '/' + k, bytes(range(n % 256)) * (1 + n // 100))
        before = listing(fa, a)
        if i['exists']:
            if i['exists'] == 1:
                fb.makedirs(b, exist_ok=True)
            else:
                put(fb, b + '/mine', b'x')
            mine = listing(fb, b)
            try:
                fs_utils.copy_tree(a, b, fa, fb)
                return ['copied over an existing target']
            except (ValueError, OSError):
                pass
            return [] if listing(fb, b) == mine and \
                listing(fa, a) == before else \
                ['a refused copy changed something']
        fs_utils.copy_tree(a, b, fa, fb)
        if listing(fa, a) != before:
            return ['source changed']
        got = listing(fb, b)
        return [] if got == before else [f'copy differs: {got} != {before}']
    finally:
        base.clean(p)
        if m.exists('/zcv'):
            m.rm('/zcv', recursive=True)


CASES = dict(copy=copy, tree=tree)

NAMES = ['a', 'b', 'x', '.h', '.zarray', 'k=1', 'n-2', '..c', 'v v', 'e.f',
         'a.zarr', '_t']


def rand_tree(r):
    def path(depth):
        return '/'.join(str(r.choice(NAMES)) for _ in range(depth))
    dirs = {path(int(r.integers(1, 4))) for _ in range(r.integers(0, 5))}
    files = {}
    for _ in range(r.integers(0, 7)):
        d = str(r.choice(sorted(dirs))) + '/' if dirs and r.integers(3) \
            else ''
        files[d + path(int(r.integers(1, 3)))] = int(r.choice(
            [0, 1, 255, 300, 900]))
    alld = set()
    for x in list(dirs) + [f.rsplit('/', 1)[0] for f in files if '/' in f]:
        q = x.split('/')
        alld |= {'/'.join(q[:k]) for k in range(1, len(q) + 1)}
    files = {k: v for k, v in files.items() if k not in alld}
    # no directory below a file
    return dict(dirs=sorted(dirs), files=[
        [k, v] for k, v in sorted(files.items())
        if not any(d.startswith(k + '/') for d in alld)])



def generate(seed, tier):
    r = base.rng(seed, 'c19-tree')
    for j in range(150 if tier == 'quick' else 3000):
        t = rand_tree(r)
        yield 'tree', dict(t, src=['file', 'memory'][r.integers(2)],
                           dst=['file', 'memory'][r.integers(2)],
                           nest=['', '', 'x', 'x/.y'][r.integers(4)],
                           exists=int(r.integers(1, 3))
                           if r.integers(6) == 0 else 0)
    r = base.rng(seed, 'c19')
    for j in range(40 if tier == 'quick' else 500):
        kind = ['date', 'seq'][r.integers(2)]
        n = int(r.integers(1, 12))
        yield 'copy', dict(
            kind=kind, res=str(r.choice(['Y', 'M', 'D', 'h'])),
            times=zc.rand_times(r, n, 3000), keys=zc.rand_keys(r, n, 2),
            imm=bool(r.integers(2)), chunk=[None, 1, 2][r.integers(3)],
            insert=bool(r.integers(8)), readonly=bool(r.integers(2)),
            src=['file', 'memory'][r.integers(2)],
            dst=[None, 'file', 'memory'][r.integers(3)],
            target=['/d', '/x/y/d', '/x=1/d', '/c2', '/d.zarr'][r.integers(5)],
            filter=([None, None, 'year == 2000', 'year > 3000'] if
                    kind == 'date' else
                    [None, None, 'k0 == 1', 'j1 > 50'])[r.integers(4)],
            npart=[None, 1, 2, 3, 50][r.integers(5)],
            mode=['r', 'w'][r.integers(2)],
            exists=int(r.integers(1, 9)) if r.integers(5) == 0 else 0)
