"""C19: the recursive walk and the copy of one file, a list and a tree.

The file systems are ghost objects: a file has an opaque content, a directory
must be created before anything is put in it, and the name of an entry is one
of a set of shapes (plain, hidden, dotted, holding '=' or a blank, listed with
a trailing separator or not).  The walk is checked against its own contract at
the recursive call, the copy against the contract of the walk."""
import z3

from pydv import world as worldmod
from pydv.collect import Collect, Counted
from pydv.core import SimulatedFault, Unsupported, mkbool
from pydv.effects import Effects, SymPath, path_is, split_path
from pydv.harness import contract
from pydv.theory import SymList, SymSeq, forall

NAMES = ('v', '.h', '.zarray', 'a=1', 'b c', 'w.zarr', '0.0')


def T(x):
    return z3.BoolVal(bool(x))


def plain():
    return worldmod.World(facades={})


class Stream:

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.closed = False
        self.done = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def read(self, size=-1):
        if self.closed or 'r' not in self.mode or 'b' not in self.mode:
            raise ValueError('stream')
        if size is not None and size >= 0:
            raise Unsupported('partial read')
        self.fs.event('read')
        if self.done:
            return b''
        self.done = True
        return self.fs.files[self.path]

    def write(self, data):
        if self.closed or 'w' not in self.mode or 'b' not in self.mode:
            raise ValueError('stream')
        self.fs.event('write')
        if not self.done:
            self.fs.files[self.path] = data
        elif data != b'':
            self.fs.files[self.path] = (self.fs.files[self.path], data)
        self.done = True

    def readable(self):
        return 'r' in self.mode


class FS:
    """Files and directories; one operation may fail."""
    protocol = 'ghost'
    sep = '/'

    def __init__(self, ctx, dirs=(), files=None, fault=False):
        self.ctx = ctx
        self.dirs = set(dirs)
        self.files = dict(files or {})
        self.fault = fault
        self.failed = False
        self.streams = []
        self.slash = False

    def event(self, what):
        if self.fault and self.ctx.choose(2, f'fault at {what}'):
            self.fault = False
            self.failed = True
            raise SimulatedFault(5, what)

    def parent(self, path):
        return path.rstrip('/').rsplit('/', 1)[0]

    def open(self, path, mode='rb', **kw):
        self.event('open')
        if 'w' in mode:
            if self.parent(path) not in self.dirs:
                raise FileNotFoundError(path)
            if path in self.dirs:
                raise IsADirectoryError(path)
            self.files[path] = b''
        elif path not in self.files:
            raise FileNotFoundError(path)
        s = Stream(self, path, mode)
        self.streams.append(s)
        return s

    def exists(self, path, **kw):
        p = path.rstrip('/')
        return p in self.dirs or p in self.files

    def mkdir(self, path, create_parents=True, **kw):
        self.event('mkdir')
        p = path.rstrip('/')
        if self.exists(p):
            raise FileExistsError(path)
        if self.parent(p) not in self.dirs:
            if not create_parents:
                raise FileNotFoundError(path)
            raise Unsupported('creation of the parents')
        self.dirs.add(p)

    def makedirs(self, path, exist_ok=False):
        p = path.rstrip('/')
        if self.exists(p):
            if exist_ok and p in self.dirs:
                return
            raise FileExistsError(path)
        if self.parent(p) not in self.dirs:
            self.makedirs(self.parent(p), exist_ok=True)
        self.mkdir(p)

    def isdir(self, path):
        return path.rstrip('/') in self.dirs

    def isfile(self, path):
        return path in self.files

    def ls(self, path, detail=True, **kw):
        p = path.rstrip('/')
        if p not in self.dirs:
            raise FileNotFoundError(path)
        out = [dict(name=d + ('/' if self.slash else ''), type='directory',
                    size=0) for d in self.dirs if self.parent(d) == p
               and d != p]
        out += [dict(name=f, type='file', size=1) for f in self.files
                if self.parent(f) == p]
        out.sort(key=lambda i: i['name'])
        return out if detail else [i['name'] for i in out]

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'file system operation {name}')


def pick(ctx, n, what, names=NAMES):
    """n distinct names of any shape."""
    out = []
    for k in range(n):
        left = [x for x in names if x not in out]
        # the names are listed in any order: all of them are reachable
        out.append(left[ctx.choose(len(left), f'{what}[{k}]')])
    return out


class Opaque(bytes):
    """The content of a file."""


@contract('C19', 'copy_file: the target holds exactly the content of the '
          'source, an error is not hidden',
          ['zcollection.fs_utils:copy_file'], world=plain,
          assumes=('an fsspec stream returns the whole content on read() and '
                   'a file closed without an error holds what was written', ))
def copy_file(ctx, W):
    f = W['fs_utils'].copy_file
    data = Opaque(b'content')
    same = ctx.choose(2, 'same file system')
    empty = ctx.choose(2, 'target exists')
    src = FS(ctx, ['/s', '/t'], {'/s/x': data}, fault=True)
    dst = src if same else FS(ctx, ['/t'], {}, fault=True)
    if empty:
        dst.files['/t/y'] = Opaque(b'older and longer content')
    before = dict(src.files)
    ctx.cover('reachable')
    try:
        f('/s/x', '/t/y', src, dst)
    except SimulatedFault:
        ctx.prove(T(src.files['/s/x'] is data), 'source unchanged')
        return
    ctx.prove(T(not src.failed and not dst.failed), 'an error is raised')
    ctx.prove(T(dst.files.get('/t/y') == data), 'content')
    ctx.prove(T(all(s.closed for s in src.streams + dst.streams)),
              'the streams are closed')
    before['/t/y'] = dst.files['/t/y']
    ctx.prove(T(src.files == before if same else
                (src.files == {'/s/x': data}
                 and set(dst.files) == {'/t/y'})), 'nothing else changes')


@contract('C19', 'copy_files: every file of the list is copied under its '
          'name', ['zcollection.fs_utils:copy_files'], world=plain,
          unbounded=False, bounded=(3, ))
def copy_files(ctx, W):
    f = W['fs_utils'].copy_files
    n = ctx.choose(4, 'files')
    names = pick(ctx, n, 'name')
    done = []

    def one(a, b, fs1, fs2):
        if fs1 != 'A' or fs2 != 'B':
            ctx.fail('file systems exchanged')
        done.append((a, b))

    W.patch('fs_utils:copy_file', one)
    ctx.cover('reachable')
    f([f'/s/{"d/" * (k % 2)}{x}' for k, x in enumerate(names)], '/t/u', 'A',
      'B')
    ctx.prove(T(sorted(done) == sorted(
        (f'/s/{"d/" * (k % 2)}{x}', f'/t/u/{x}')
        for k, x in enumerate(names))), 'every file copied once')


@contract('C19', 'fs_walk: the entries of the directory, then the walk of '
          'each sub-directory', ['zcollection.fs_utils:fs_walk'], world=plain,
          unbounded=False, bounded=(3, ))
def walk(ctx, W):
    f = W['fs_utils'].fs_walk
    n = ctx.choose(4, 'entries')
    names = pick(ctx, n, 'name', NAMES[:5])
    kinds = [ctx.choose(2, f'directory[{k}]') for k in range(n)]
    sort = bool(ctx.choose(2, 'sort'))
    end = ['', '/'][ctx.choose(2, 'trailing separator')]
    fs = FS(ctx, ['/s', '/s/p'] +
            [f'/s/p/{x}' for x, d in zip(names, kinds) if d],
            {f'/s/p/{x}' + '/mark' * d: Opaque(b'c')
             for x, d in zip(names, kinds)})
    if not sort:
        real = fs.ls
        fs.ls = lambda *a, **k: real(*a, **k)[::-1]

    def rec(fs2, path, sort=False):
        if fs2 is not fs or path.rstrip('/') not in fs.dirs:
            ctx.fail('another directory is walked')
        # the contract of the walk, for a directory holding one file
        yield path.rstrip('/'), [], ['mark']

    W.patch('fs_utils:fs_walk', rec)
    ctx.cover('reachable')
    got = list(f(fs, '/s/p' + end, sort=sort))
    root, dirs, files = got[0]
    wd = [x for x in ('/s/p/' + x for x, d in zip(names, kinds) if d)]
    wf = [x for x, d in zip(names, kinds) if not d]
    ctx.prove(T(root == '/s/p'), 'root')
    ctx.prove(T(sorted(dirs) == sorted(wd)), 'directories')
    ctx.prove(T(sorted(files) == sorted(wf)), 'files')
    if sort:
        ctx.prove(T(list(dirs) == sorted(wd) and list(files) == sorted(wf)),
                  'sorted')
    ctx.prove(T(got[1:] == [(d, [], ['mark']) for d in dirs]),
              'the walk of every sub-directory follows')


@contract('C19', 'fs_walk: an unreadable directory has no entry',
          ['zcollection.fs_utils:fs_walk'], world=plain)
def walk_missing(ctx, W):
    fs = FS(ctx, ['/s'])
    kind = ctx.choose(2, 'error')

    def ls(path, detail=True, **k):
        raise [FileNotFoundError, PermissionError][kind](path)

    fs.ls = ls
    ctx.cover('reachable')
    got = list(W['fs_utils'].fs_walk(fs, '/s/p'))
    ctx.prove(T(all(not d and not f for _, d, f in got)), 'no entry')


@contract('C19', 'copy_tree: every file and directory of the walk is copied '
          'at its place', ['zcollection.fs_utils:copy_tree'], world=plain,
          unbounded=False, bounded=(3, ), max_paths=20000)
def tree(ctx, W):
    f = W['fs_utils'].copy_tree
    n = ctx.choose(3, 'directories below the root')
    names = pick(ctx, n, 'directory')
    dirs = ['/s/p']
    for k, x in enumerate(names):
        dirs.append(dirs[ctx.choose(len(dirs), f'parent[{k}]')] + '/' + x)
    if len(set(dirs)) != len(dirs):
        return
    files = {}
    m = ctx.choose(3, 'files')
    for k in range(m):
        d = dirs[ctx.choose(len(dirs), f'directory of the file {k}')]
        files[f'{d}/{["f", ".zattrs"][k]}'] = Opaque(b'c%d' % k)
    same = ctx.choose(2, 'same file system')
    fault = not same and m < 2 and bool(ctx.choose(2, 'fault'))
    src = FS(ctx, ['/s'] + dirs, files)
    if same:
        dst = src
        dst.dirs.add('/t')
    else:
        dst = FS(ctx, ['/t'], {}, fault=fault)
    before = set(src.dirs), dict(src.files)

    def rec(fs, path, sort=False):
        if fs is not src:
            ctx.fail('walk of another file system')
        p = path.rstrip('/')
        yield (p, [d for d in dirs if fs.parent(d) == p and d != p],
               [x.rsplit('/', 1)[1] for x in files if fs.parent(x) == p])
        for d in dirs:
            if fs.parent(d) == p and d != p:
                yield from rec(fs, d)

    def one(a, b, fs1, fs2):
        if fs1 is not src or fs2 is not dst:
            ctx.fail('file systems exchanged')
        fs2.event('copy')
        if fs2.parent(b) not in fs2.dirs:
            raise FileNotFoundError(b)
        fs2.files[b] = fs1.files[a]

    W.patch('fs_utils:fs_walk', rec)
    W.patch('fs_utils:copy_file', one)
    ctx.cover('reachable')
    try:
        f('/s/p', '/t/q', src, dst)
    except SimulatedFault:
        ctx.prove(T((src.dirs, src.files) == before), 'source unchanged')
        return
    ctx.prove(T(not dst.failed), 'an error is raised')
    at = lambda x: '/t/q' + x[len('/s/p'):]  # noqa
    ctx.prove(T({d for d in dst.dirs if d.startswith('/t/')} ==
                {at(d) for d in dirs}), 'directories')
    ctx.prove(T({k: v for k, v in dst.files.items()
                 if not k.startswith('/s/')} ==
                {at(k): v for k, v in files.items()}), 'files')
    ctx.prove(T({d for d in src.dirs if d.startswith('/s')} ==
                {d for d in before[0] if d.startswith('/s')}
                and {k: v for k, v in src.files.items()
                     if k.startswith('/s/')} == before[1]),
              'source unchanged')


@contract('C19', 'copy_tree: an existing target is refused and left alone',
          ['zcollection.fs_utils:copy_tree'], world=plain)
def tree_refused(ctx, W):
    kind = ctx.choose(3, 'target')
    src = FS(ctx, ['/s', '/s/p'], {'/s/p/f': Opaque(b'c')})
    dst = FS(ctx, ['/t'] + ['/t/q'] * (kind != 2),
             [{}, {'/t/q/mine': Opaque(b'm')}, {'/t/q': Opaque(b'm')}][kind])
    before = set(dst.dirs), dict(dst.files)
    ctx.cover('reachable')
    try:
        W['fs_utils'].copy_tree('/s/p', '/t/q', src, dst)
        ctx.fail('copied over an existing target')
    except (ValueError, FileExistsError):
        pass
    ctx.prove(T((dst.dirs, dst.files) == before), 'target unchanged')


# -- lists and trees of any size -----------------------------------------------
def replay_files(i):
    """Copies of lists of several lengths."""
    import os
    import shutil
    import tempfile

    import fsspec
    from zcollection import fs_utils
    d = tempfile.mkdtemp(prefix='zcverif-')
    try:
        fs = fsspec.filesystem('file')
        err = []
        for n in (0, 1, 2, 5):
            s, t = f'{d}/s{n}', f'{d}/t{n}'
            os.makedirs(s), os.makedirs(t)
            for k in range(n):
                with open(f'{s}/f{k}', 'wb') as f:
                    f.write(b'%d' % k)
            fs_utils.copy_files([f'{s}/f{k}' for k in range(n)], t, fs, fs)
            got = {x: open(f'{t}/{x}', 'rb').read() for x in os.listdir(t)}
            want = {f'f{k}': b'%d' % k for k in range(n)}
            if got != want:
                err.append(f'{got} instead of {want}')
        return err
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contract('C19', 'copy_files: each file of a list of any length is copied '
          'under its name', ['zcollection.fs_utils:copy_files'], world=plain,
          bounded=(), replay=replay_files)
def any_files(ctx, W):
    fx = Effects(ctx)
    n = ctx.int('n')
    ctx.assume(n >= 0)
    src, dst = object(), object()
    files = SymList(n, lambda k: SymPath.make('/s/q', k))

    def one(source, target, fs_source, fs_target):
        fx.record('copy', source, target, fs_source, fs_target)

    W.patch('fs_utils:copy_file', one)
    ctx.cover('reachable')
    W['fs_utils'].copy_files(files, '/t/r', src, dst)
    fx.check()
    if not fx.reps:
        ctx.prove(n == 0, 'every file is copied')
        ctx.prove(T(not fx.log), 'nothing else')
        return
    k, m = fx.reps[0]
    ctx.prove(m == n, 'every file of the list')
    ctx.prove(T(len(fx.log) == 1), 'one copy of each file')
    for _, a, b, fa, fb in fx.log:
        ctx.prove(path_is(a, '/s/q', k), 'file of the list')
        ctx.prove(path_is(b, '/t/r', k), 'same name in the target')
        ctx.prove(T(fa is src and fb is dst), 'file systems')


def replay_tree(i):
    import os
    import shutil
    import tempfile

    import fsspec
    from zcollection import fs_utils
    d = tempfile.mkdtemp(prefix='zcverif-')
    try:
        fs = fsspec.filesystem('file')
        for x in ('', 'a', 'a/b', 'c', 'c/.d'):
            os.makedirs(f'{d}/s/{x}', exist_ok=True)
            for k in range(3):
                with open(f'{d}/s/{x}/f{k}', 'wb') as f:
                    f.write(f'{x}{k}'.encode())
        fs_utils.copy_tree(f'{d}/s', f'{d}/t', fs, fs)

        def tree(p):
            return sorted((os.path.relpath(r, p), sorted(ds), sorted(
                (x, open(f'{r}/{x}', 'rb').read()) for x in fl))
                          for r, ds, fl in os.walk(p))

        return [] if tree(f'{d}/s') == tree(f'{d}/t') else [
            f'{tree(f"{d}/t")} instead of {tree(f"{d}/s")}']
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contract('C19', 'copy_tree: each file and directory of a walk of any size '
          'is copied at its place', ['zcollection.fs_utils:copy_tree'],
          world=plain, bounded=(), replay=replay_tree,
          assumes=('the order of the operations (a directory is created '
                   'before its content) is decided on bounded trees', ))
def any_tree(ctx, W):
    fx = Effects(ctx)
    n, nd, nf = ctx.int('n'), ctx.func('dirs'), ctx.func('files')
    two = (z3.IntSort(), z3.IntSort(), z3.IntSort())
    fd, ff = ctx.func('dir', *two), ctx.func('file', *two)
    ctx.assume(n >= 1)
    ctx.assume(forall(n, None, lambda k: z3.And(nd(k) >= 0, nf(k) >= 0)))

    class Target:
        protocol = 'ghost'
        sep = '/'

        def exists(self, path, **k):
            return False

        def mkdir(self, path, create_parents=True, **k):
            fx.record('mkdir', path)

        def makedirs(self, path, exist_ok=False):
            fx.record('mkdir', path)

    src, dst = object(), Target()

    def entry(k):
        root = SymPath.make('/s/q', k)
        return (root,
                SymList(nd(k), lambda j: str(SymPath.make(root, fd(k, j)))),
                SymList(nf(k), lambda j: SymPath.make('', ff(k, j))))

    def walk(fs, path, sort=False):
        if fs is not src or path != '/s/q':
            ctx.fail('walk of another directory')
        return SymList(n, entry, kind='gen')

    def one(source, target, fs_source, fs_target):
        fx.record('copy', source, target, fs_source, fs_target)

    W.patch('fs_utils:fs_walk', walk)
    W.patch('fs_utils:copy_file', one)
    ctx.cover('reachable')
    W['fs_utils'].copy_tree('/s/q', '/t/r', src, dst)
    fx.check()
    ctx.prove(T(fx.log[:1] == [('mkdir', '/t/r')]), 'the target is created')
    if not any(m.eq(n) for _, m in fx.reps):
        ctx.fail('every entry of the walk is used')
    k = [r for r, m in fx.reps if m.eq(n)][-1]
    root = str(SymPath.make('/s/q', k))
    seen = {'copy': 0, 'mkdir': 0}
    for what, *x in fx.log[1:]:
        seen[what] += 1
        target = x[1] if what == 'copy' else x[0]
        if what == 'copy':
            ctx.prove(T(x[0].startswith(root + '/')), 'file of the entry')
            ctx.prove(T(x[2] is src and x[3] is dst), 'file systems')
            tail = x[0][len(root):]
            ctx.prove(T(target == '/t/r' + x[0][len('/s/q'):]),
                      'place of the file')
        else:
            ctx.prove(T(target.startswith('/t/r' + root[len('/s/q'):] +
                                          '/')), 'place of the directory')
            tail = target[len('/t/r' + root[len('/s/q'):]):]
        _, i, rest = split_path(tail)
        ctx.prove(T(i is not None and rest == ''), 'name')
        j = [r for r, size in fx.reps if size.eq(
            z3.simplify((nf if what == 'copy' else nd)(k)))]
        ctx.prove(T(len(j) == 1), 'element of the entry')
        if j:
            ctx.prove(i == (ff if what == 'copy' else fd)(k, j[0]),
                      'the file or directory of the entry')
    ctx.prove(z3.And(nf(k) == 0 if seen['copy'] == 0 else T(
        seen['copy'] == 1), nd(k) == 0 if seen['mkdir'] == 0 else T(
            seen['mkdir'] == 1)), 'every file and directory, once')


class Kind:
    """Type of an entry."""

    def __init__(self, isdir):
        self.isdir = isdir

    def __eq__(self, o):
        if o not in ('directory', 'file'):
            return False
        return mkbool(self.isdir if o == 'directory' else z3.Not(self.isdir))

    __hash__ = None


class Info:

    def __init__(self, path, isdir):
        self.path, self.isdir = path, isdir

    def __getitem__(self, key):
        if key == 'name':
            return self.path
        if key == 'type':
            return Kind(self.isdir)
        raise Unsupported(f'{key} of an entry')


def replay_walk(i):
    """The walk of a few trees against os.walk."""
    import os
    import shutil
    import tempfile

    import fsspec
    from zcollection import fs_utils
    err = []
    for names in ((), ('a', ), ('a', 'b/c', 'b/d'), ('x/y/z', 'x/y/w', 'v')):
        d = tempfile.mkdtemp(prefix='zcverif-')
        try:
            for x in ('', *names):
                os.makedirs(f'{d}/{x}', exist_ok=True)
                for f in ('f', '.g'):
                    with open(f'{d}/{x}/{f}', 'w') as stream:
                        stream.write('')
            for sort in (False, True):
                got = list(fs_utils.fs_walk(fsspec.filesystem('file'), d,
                                            sort=sort))
                got = sorted((a, sorted(b), sorted(c)) for a, b, c in got)
                want = sorted((a, sorted(f'{a}/{x}' for x in b), sorted(c))
                              for a, b, c in os.walk(d))
                if got != want:
                    err.append(f'{got} instead of {want}')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return err


@contract('C19', 'fs_walk: the files and directories of a listing of any '
          'size, each directory visited once',
          ['zcollection.fs_utils:fs_walk'], world=plain, bounded=(),
          replay=replay_walk,
          assumes=('the walk of a sub-directory is the one proved here '
                   '(induction on the height of the tree)',
                   'the sorted variant is decided on bounded directories'))
def any_walk(ctx, W):
    fx = Effects(ctx)
    n = ctx.int('n')
    ctx.assume(n >= 0)
    isdir = ctx.func('isdir', z3.IntSort(), z3.BoolSort())

    class Listed:
        sep = '/'

        def ls(self, p, detail=True, **k):
            ctx.prove(T(p.rstrip('/') == '/s/p' and detail),
                      'the directory is listed')
            return SymList(n, lambda j: Info(SymPath.make('/s/p', j),
                                             isdir(j)))

    fs = Listed()
    mark = object()

    def rec(fs_, path, sort=False):
        fx.record('visit', fs_, path, sort)
        yield mark

    f = W['fs_utils'].fs_walk
    W.patch('fs_utils:fs_walk', rec)
    dirs = Counted(n, isdir)
    files = Counted(n, lambda k: z3.Not(isdir(k)))

    def name(k):
        return SymPath.make('', k)

    W.loops['fs_walk#1'] = Collect({
        'dirs': (dirs, lambda k: SymPath.make('/s/p', k),
                 lambda x, k: path_is(x, '/s/p', k)),
        'files': (files, name, lambda x, k: path_is(x, '', k))})
    end = ['', '/'][ctx.choose(2, 'trailing separator')]
    ctx.cover('reachable')
    got = list(f(fs, '/s/p' + end))
    fx.check()
    ctx.prove(T(got and isinstance(got[0], tuple) and len(got[0]) == 3),
              'the directory comes first')
    root, d, fl = got[0]
    ctx.prove(T(root == '/s/p'), 'root')
    c = ctx.int('c')
    ctx.assume(z3.And(0 <= c, c < n))
    ctx.instantiate(c)
    for what, seq, sel, base in (('directories', d, dirs, '/s/p'),
                                 ('files', fl, files, '')):
        if not isinstance(seq, SymSeq):
            ctx.prove(T(not seq), f'{what}: nothing else')
            ctx.prove(z3.Not(sel.mask(c)), f'{what}: none is missing')
            continue
        r = sel.cnt(c) if seq.meta.get('filtered') is None else \
            seq.meta['filtered'].meta['where'][2](c)
        ctx.instantiate(r)
        ctx.prove(z3.Implies(sel.mask(c), z3.And(0 <= r, r < seq.n)),
                  f'{what}: none is missing')
        x = split_path(seq.at(r))[1]
        ctx.prove(z3.Implies(sel.mask(c), path_is(seq.at(r), base, c)),
                  f'{what}: none is missing')
        j = ctx.int('j')
        ctx.assume(z3.Implies(seq.n > 0, z3.And(0 <= j, j < seq.n)))
        ctx.instantiate(j)
        x = split_path(seq.at(j))[1]
        ctx.prove(z3.Implies(seq.n > 0, z3.And(
            0 <= x, x < n, sel.mask(x), path_is(seq.at(j), base, x))),
            f'{what}: nothing else')
    ctx.prove(T(all(x is mark for x in got[1:]) and
                len(got) - 1 == len(fx.log)),
              'the walk of the sub-directories follows')
    if not isinstance(d, SymSeq) or not fx.reps:
        ctx.prove(z3.Not(isdir(c)), 'every sub-directory is visited')
        ctx.prove(T(not fx.log), 'nothing else is visited')
        return
    k, m = fx.reps[-1]
    ctx.prove(z3.And(m == d.n, T(len(fx.log) == 1)),
              'every sub-directory is visited once')
    for _, fs_, p, sort in fx.log:
        ctx.prove(T(fs_ is fs and not sort), 'with the same arguments')
        ctx.prove(path_is(p, '/s/p', split_path(d.at(k))[1]),
                  'the sub-directory is visited')
