"""Contracts of the partition names and keys (C02)."""
from pydv import world as worldmod
from pydv.core import Unsupported, mkbool, mkint, z3, zint
from pydv.effects import Effects, SymPath, path_is, split_path
from pydv.harness import contract
from pydv.text import CODES, FIRST, LAST, UNITS, any_date, world
from pydv.theory import SymList, SymSeq, drain

A = 'zcollection/partitioning/abc.py:'
D = 'zcollection/partitioning/date.py:'
S = 'zcollection/partitioning/sequence.py:'
ASSUMES = ('a number of three digits or more is matched by the pattern as one '
           'of three digits', 'representative names of keys and parent '
           'directories; any values', 'numpy.datetime64 parses ISO 8601 '
           'dates')
KEYS = [('a', ), ('cycle', 'pass'), ('a', 'aa'), ('aa', 'a'), ('a.b', 'k'),
        ('k', '[x]'), ('-x', ), ('x_1', 'b', 'c')]
BEFORE = ['', '/data/', 'C:\\data\\', 'cycle=1/pass=2/', '/a.b/k=7/',
          'year=1999/month=12/']


def T(x):
    return z3.BoolVal(bool(x))


def pairs(ctx, got, want, what):
    """got is the key want."""
    try:
        got = tuple(got)
        shape = len(got) == len(want) and all(
            isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], str)
            and g[0] == w[0] for g, w in zip(got, want))
    except TypeError:
        shape = False
    if not shape:
        ctx.prove(T(False), f'{what}: names of the keys')
        return
    for g, w in zip(got, want):
        if zint(g[1]) is None:
            ctx.prove(T(False), f'{what}: integer values')
            return
        ctx.prove(zint(g[1]) == zint(w[1]), f'{what}: values')


def replay_seq(i):
    from rtc import c02
    return c02.seq(dict(names=i['names'], values=[
        i[f'v{k}'] for k in range(len(i['names']))])) + before(i)


def before(i):
    from zcollection import partitioning as P
    h = P.Sequence(i['names']) if i.get('names') else P.Date(
        ('t', ), CODES[i['n'] - 1])
    key = tuple((k, i[f'v{j}']) for j, k in enumerate(i['names'])) if i.get(
        'names') else tuple((k, i[k]) for k in UNITS[:i['n']])
    p = i.get('before', '') + h.join(key, i.get('sep', '/'))
    got = h.parse(p)
    return [] if got == key else [f'{p!r} parsed as {got}']


def replay_date(i):
    from rtc import c02
    import datetime
    f = [i.get(k) for k in UNITS]
    f = [lo if v is None else v for v, lo in zip(f, FIRST)]
    try:
        datetime.datetime(*f)
    except ValueError:
        f[2] = min(f[2], 28)
    return c02.date(dict(res=CODES[i['n'] - 1], dt=f)) + before(
        {**i, **dict(zip(UNITS, f))})


def sequence(ctx, W):
    k = ctx.choose(len(KEYS), 'keys')
    names = KEYS[k]
    ctx.input('names', list(names))
    values = []
    for j in range(len(names)):
        v = ctx.int(f'v{j}')
        if len(names) > 2:
            ctx.assume(z3.And(0 <= v, v < 10))
        ctx.assume(z3.And(-2**63 <= v, v < 2**63))
        ctx.input(f'v{j}', v)
        values.append(mkint(v))
    return W['partitioning.sequence'].Sequence(names), tuple(
        zip(names, values))


def surround(ctx):
    sep = '/\\'[ctx.choose(2, 'separator')]
    b = BEFORE[ctx.choose(len(BEFORE), 'before')]
    ctx.input('sep', sep)
    ctx.input('before', b)
    return sep, b


@contract('C02', 'Sequence: the name of a key parses back to this key',
          [A + 'Partitioning.join', A + 'Partitioning.parse',
           A + 'Partitioning._regex', A + 'Partitioning.__init__'],
          world=world, bounded=(), replay=replay_seq, assumes=ASSUMES,
          max_paths=20000)
def seq_join(ctx, W):
    ctx.text = True
    h, key = sequence(ctx, W)
    sep, b = surround(ctx)
    ctx.cover('reachable')
    try:
        got = h.parse(b + h.join(key, sep))
    except ValueError as exc:
        ctx.prove(T(False), 'the name is parsed')
        return
    pairs(ctx, got, key, 'parse(join(key))')


@contract('C02', 'Sequence: the name written at insertion parses to the key',
          [A + 'Partitioning._partition', A + 'Partitioning.parse'],
          world=world, bounded=(), replay=replay_seq, assumes=ASSUMES)
def seq_partition(ctx, W):
    ctx.text = True
    h, key = sequence(ctx, W)
    ctx.cover('reachable')
    parts = h._partition(key)
    ctx.prove(T(isinstance(parts, tuple) and len(parts) == len(key) and all(
        isinstance(x, str) for x in parts)), 'one directory per key')
    try:
        got = h.parse('/data/' + '/'.join(parts))
    except ValueError:
        ctx.prove(T(False), 'the name is parsed')
        return
    pairs(ctx, got, key, 'parse(inserted name)')


@contract('C02', 'Sequence: encode and decode are mutually inverse',
          [S + 'Sequence.encode', S + 'Sequence.decode'],
          world=world, bounded=(), replay=replay_seq, assumes=ASSUMES)
def seq_encode(ctx, W):
    ctx.text = True
    h, key = sequence(ctx, W)
    ctx.cover('reachable')
    try:
        v = h.encode(key)
    except ValueError:
        ctx.prove(T(False), 'the key is encoded')
        return
    ctx.prove(T(isinstance(v, tuple) and len(v) == len(key)), 'values')
    for x, (_, y) in zip(v, key):
        ctx.prove(zint(x) == zint(y) if zint(x) is not None else T(False),
                  'encode keeps the values')
    pairs(ctx, h.decode(v), key, 'decode(encode(key))')
    pairs(ctx, h.decode(tuple(y for _, y in key)), key, 'decode(values)')


def date(ctx, W):
    n = 1 + ctx.choose(6, 'resolution')
    ctx.input('n', n)
    return W['partitioning.date'].Date(('time', ), CODES[n - 1]), n


@contract('C02', 'Date: the name of a key parses back to this key',
          [D + 'Date.join', A + 'Partitioning.parse', D + 'Date._keys',
           D + 'Date.__init__', A + 'Partitioning._regex'],
          world=world, bounded=(), replay=replay_date, assumes=ASSUMES)
def date_join(ctx, W):
    ctx.text = True
    h, n = date(ctx, W)
    key = tuple(zip(UNITS, any_date(ctx, n).fields))
    sep, b = surround(ctx)
    ctx.cover('reachable')
    try:
        got = h.parse(b + h.join(key, sep))
    except ValueError:
        ctx.prove(T(False), 'the name is parsed')
        return
    pairs(ctx, got, key, 'parse(join(key))')


@contract('C02', 'Date: the name written at insertion parses to the date, '
          'and is the name of its key',
          [D + 'Date._partition', D + 'Date.join', D + 'Date.decode'],
          world=world, bounded=(), replay=replay_date, assumes=ASSUMES)
def date_partition(ctx, W):
    ctx.text = True
    h, n = date(ctx, W)
    d = any_date(ctx, n)
    ctx.cover('reachable')
    parts = h._partition((('time', d), ))
    ctx.prove(T(isinstance(parts, tuple) and len(parts) == n),
              'one directory per key')
    key = tuple(zip(UNITS, d.fields))
    try:
        got = h.parse('/data/' + '/'.join(parts))
    except ValueError:
        ctx.prove(T(False), 'the name is parsed')
        return
    pairs(ctx, got, key, 'parse(inserted name)')
    ctx.prove(T('/'.join(parts) == h.join(key, '/')), 'the name of its key')
    pairs(ctx, h.decode((d, )), key, 'decode(date)')


@contract('C02', 'Date: encode and decode are mutually inverse',
          [D + 'Date.encode', D + 'Date.decode', D + 'Date._stringify'],
          world=world, bounded=(), replay=replay_date, assumes=ASSUMES)
def date_encode(ctx, W):
    ctx.text = True
    h, n = date(ctx, W)
    d = any_date(ctx, n)
    key = tuple(zip(UNITS, d.fields))
    ctx.cover('reachable')
    try:
        v = h.encode(key)
    except ValueError:
        ctx.prove(T(False), 'the key is encoded')
        return
    ctx.prove(T(isinstance(v, tuple) and len(v) == 1), 'one value')
    if not hasattr(v[0], 'fields'):
        raise Unsupported('encoded value')
    ctx.prove(T(len(v[0].fields) == n), 'resolution of the encoded date')
    for a, b in zip(v[0].fields, d.fields):
        ctx.prove(zint(a) == zint(b), 'encode keeps the fields')
    pairs(ctx, h.decode(v), key, 'decode(encode(key))')


# -- names of another scheme ---------------------------------------------------
OTHER = [
    (('a', 'b'), ['a={0}', 'b={0}', 'a={0}/b=', 'a=/b={0}', 'a={0}/c={1}',
                  'b={0}/a={1}', 'a={0}/b=z', 'ba={0}/b={1}', 'a={0}/xb={1}',
                  'a={0}//b={1}', 'a={0}/b={1}/c={2}', 'a={0}/b={1}.{2}',
                  'a={0}/b={1}/', 'a={0}/b={1}x', 'a{0}/b{1}', '']),
    (('a.b', ), ['axb={0}', 'b={0}', 'a.b={0}/x', 'a.b ={0}', 'xa.b={0}']),
    (None, ['month={0}', 'yea={0}', 'year=', 'year=x', 'xyear={0}',
            'year={0}x', 'year={0}/month={1}', 'year={0}-{1}', '{0}']),
]


@contract('C02', 'parse: a name of another scheme is refused',
          [A + 'Partitioning.parse', A + 'Partitioning._regex'],
          world=world, bounded=(), assumes=ASSUMES,
          replay=lambda i: replay_other(i))
def other(ctx, W):
    ctx.text = True
    names, texts = OTHER[ctx.choose(len(OTHER), 'scheme')]
    t = texts[ctx.choose(len(texts), 'name')]
    ctx.input('names', list(names) if names else None)
    ctx.input('text', t)
    h = W['partitioning.sequence'].Sequence(names) if names else W[
        'partitioning.date'].Date(('time', ), 'Y')
    values = []
    for j in range(3):
        v = ctx.int(f'v{j}')
        # a number before a dot or another key may be split by the pattern
        ctx.assume(z3.And(0 <= v, v < 10**6))
        ctx.input(f'v{j}', v)
        values.append(mkint(v))
    parts = t
    for j in range(3):
        if f'{{{j}}}' in parts:
            parts = parts.replace(f'{{{j}}}', f'{values[j]}')
    ctx.cover('reachable')
    try:
        h.parse('/data/' + parts)
        refused = False
    except ValueError:
        refused = True
    ctx.prove(T(refused), 'refused')


def replay_other(i):
    from rtc import c02
    name = '/data/' + i['text'].format(i['v0'], i['v1'], i['v2'])
    return c02.foreign(dict(res=None if i['names'] else 'Y',
                            names=i['names'], name=name))


# -- listing -------------------------------------------------------------------
class FS:
    """Tree of named directories, listed in any order."""
    sep = '/'

    def __init__(self, tree, slash):
        self.tree = tree
        self.slash = slash

    def ls(self, path, detail=True, **k):
        path = path.rstrip('/')
        node = self.tree
        for p in [x for x in path[len('/data'):].split('/') if x]:
            node = node[p]
        out = []
        for name, sub in node.items():
            d = isinstance(sub, dict)
            full = path + '/' + name + ('/' if d and self.slash else '')
            out.append(dict(name=full, size=0,
                            type='directory' if d else 'file')
                       if detail else path + '/' + name)
        return out


@contract('C02', 'list_partitions: every stored partition once, by '
          'increasing key, without the hidden entries',
          [A + 'Partitioning.list_partitions', A + 'list_partitions'],
          world=world, unbounded=False, bounded=(3, ), max_paths=20000,
          assumes=ASSUMES, replay=lambda i: replay_listing(i))
def listing(ctx, W):
    ctx.text = True
    depth = 1 + ctx.choose(2, 'depth')
    names = ('k0', 'k1')[:depth]
    h = W['partitioning.sequence'].Sequence(names)
    values = {}

    def val(x):
        v = ctx.int(x)
        ctx.assume(z3.And(0 <= v, v < 100))
        ctx.input(x, v)
        values[x] = v
        return mkint(v)

    tree, keys = {}, []
    shape = [(1, ), (2, ), (3, )] if depth == 1 else [
        (1, 1), (2, 1), (1, 2)]
    shape = shape[ctx.choose(len(shape), 'tree')]
    ctx.input('shape', [depth] + list(shape))
    if depth == 1:
        vs = [val(f'v{j}') for j in range(shape[0])]
        ctx.assume(z3.Distinct([v.t for v in vs]) if len(vs) > 1 else T(True))
        for v in vs:
            tree[f'k0={v}'] = {'.zmetadata': None, 'var': {}}
            keys.append((('k0', v), ))
    else:
        vs = [val(f'v{j}') for j in range(len(shape))]
        ctx.assume(z3.Distinct([v.t for v in vs]) if len(vs) > 1 else T(True))
        for j, (v, m) in enumerate(zip(vs, shape)):
            ws = [val(f'w{j}{q}') for q in range(m)]
            ctx.assume(z3.Distinct([w.t for w in ws]) if m > 1 else T(True))
            tree[f'k0={v}'] = {f'k1={w}': {'.zmetadata': None} for w in ws}
            keys += [(('k0', v), ('k1', w)) for w in ws]
    hidden = ctx.choose(2, 'hidden')
    if hidden:
        tree = {'.zcollection': None, '.immutable': {'var': {}},
                '.k0=1': {'k1=1': {}}, **tree, 'README': None}
    slash = not hidden and bool(ctx.choose(2, 'slash'))
    ctx.input('slash', slash)
    ctx.cover('reachable')
    try:
        got = list(h.list_partitions(FS(tree, slash), '/data'))
    except ValueError:
        ctx.prove(T(False), 'only partitions are listed')
        return
    want = ['/data/' + h.join(k, '/') for k in keys]
    ctx.prove(T(len(got) == len(want) and {str(g) for g in got} == set(want)),
              'every partition once, nothing else')
    order = [keys[want.index(g)] for g in got]
    for a, b in zip(order, order[1:]):
        less, same = T(False), T(True)
        for (_, x), (_, y) in zip(a, b):
            less = z3.Or(less, z3.And(same, zint(x) < zint(y)))
            same = z3.And(same, zint(x) == zint(y))
        ctx.prove(less, 'by increasing key')


def replay_listing(i):
    from rtc import c02
    depth, *shape = i['shape']
    if depth == 1:
        keys = [[i[f'v{j}']] for j in range(shape[0])]
    else:
        keys = [[i[f'v{j}'], i[f'w{j}{q}']] for j, m in enumerate(shape)
                for q in range(m)]
    err = []
    for fs in ('file', 'memory'):
        err += c02.listing(dict(res=None, base='c', fs=fs, keys=keys))
    return err


# -- listing of directories of any size ----------------------------------------
class Last(str):
    """Name of the entry k: hidden or not."""

    def startswith(self, what, *a):
        if what != '.' or a:
            raise Unsupported('name of an entry')
        return mkbool(self.hidden)


class Entry(SymPath):
    """Path of the entry k of a directory."""

    def rstrip(self, what=None):
        return self

    def split(self, sep=None, maxsplit=-1):
        if sep != '/':
            raise Unsupported('name of an entry')
        last = Last('p')
        last.hidden = self.hidden
        return ['', 'data', last]

    rsplit = split


class Info:
    """Details of the entry k."""

    def __init__(self, path, isdir):
        self.path, self.isdir = path, isdir

    def __getitem__(self, key):
        if key == 'name':
            return self.path
        if key == 'type':
            return Kind(self.isdir)
        raise Unsupported(f'{key} of an entry')


class Kind:

    def __init__(self, isdir):
        self.isdir = isdir

    def __eq__(self, o):
        if o not in ('directory', 'file'):
            return False
        return mkbool(self.isdir if o == 'directory' else z3.Not(self.isdir))

    def __ne__(self, o):
        return mkbool(z3.Not((self == o).t)) if o in (
            'directory', 'file') else True

    __hash__ = None


def replay_any(i):
    from rtc import c02
    err = []
    for fs in ('file', 'memory'):
        for keys in ([[1]], [[3], [1], [22]], [[1, 2], [1, 1], [30, 4]],
                     [[1, 2, 3], [1, 2, 1], [2, 1, 1]]):
            err += c02.listing(dict(res=None, base='c', fs=fs, keys=keys))
    return err


@contract('C02', 'list_partitions: each directory of a listing of any size '
          'is listed or visited once, the hidden ones never',
          [A + 'list_partitions'],
          world=lambda: worldmod.World(facades={}), bounded=(),
          replay=replay_any,
          assumes=('the listing of a sub-directory is the one proved here '
                   '(induction on the depth)',
                   'the order of the result is decided on bounded trees'))
def any_listing(ctx, W):
    fx = Effects(ctx)
    m = W['partitioning.abc']
    f = m.list_partitions
    n = ctx.int('n')
    ctx.assume(n >= 0)
    two = (z3.IntSort(), z3.BoolSort())
    isdir, hidden = ctx.func('isdir', *two), ctx.func('hidden', *two)
    root = bool(ctx.choose(2, 'root'))
    depth = ctx.choose(4, 'depth')
    where = '/data' if root else '/data/k=1'

    def path(k):
        p = Entry.make(where, k)
        p.hidden = hidden(k)
        return p

    class Listed:
        sep = '/'

        def ls(self, p, detail=True, **kw):
            ctx.prove(T(p == where), 'the directory is listed')
            if detail:
                return SymList(n, lambda k: Info(path(k), isdir(k)))
            return SymList(n, path)

    fs = Listed()
    mark = object()

    def rec(fs_, p, depth, *, root=True):
        fx.record('visit', fs_, p, depth, root)
        yield mark

    W.patch('partitioning.abc:list_partitions', rec)

    def wanted(k):
        # below the root, everything is a partition
        return z3.And(isdir(k), z3.Not(hidden(k))) if root else T(True)

    def complete(seq):
        c = ctx.int('c')
        sel = seq.meta.get('filtered')
        ctx.assume(z3.And(0 <= c, c < n, wanted(c)))
        ctx.instantiate(c)
        if sel is None:
            rank = c
        else:
            rank = sel.meta['where'][2](c)
            ctx.instantiate(c, dom='rows')
            ctx.instantiate(rank, dom=sel.meta['dom'])
        ctx.prove(z3.And(0 <= rank, rank < seq.n), 'no directory is missing')
        ctx.prove(path_is(seq.at(rank), where, c), 'no directory is missing')

    ctx.cover('reachable')
    got = drain(f(fs, where, depth, root=root))
    fx.check()
    if isinstance(got, SymSeq):
        ctx.prove(T(depth == 0 and not fx.log), 'the directories themselves')
        # sound, without repetition
        a, b = ctx.int('a'), ctx.int('b')
        ctx.assume(z3.And(0 <= a, a < b, b < got.n))
        ia, ib = (split_path(got.at(x))[1] for x in (a, b))
        ctx.prove(path_is(got.at(b), where, ib), 'a path of the listing')
        ctx.prove(z3.And(wanted(ib), 0 <= ib, ib < n), 'a visible directory')
        ctx.prove(ia != ib, 'each directory once')
        if ctx.choose(2, 'one'):
            complete(got)
        return
    ctx.prove(T(len(fx.log) == len(got) and all(x is mark for x in got)),
              'the partitions of the sub-directories')
    if not fx.reps:
        k = ctx.int('k')
        ctx.assume(z3.And(0 <= k, k < n))
        ctx.instantiate(k)
        ctx.instantiate(k, dom='rows')
        ctx.prove(z3.Not(wanted(k)), 'no sub-directory is missing')
        ctx.prove(T(not got), 'nothing else')
        return
    ctx.prove(T(depth > 0 and len(fx.log) <= 1), 'each sub-directory once')
    for _, fs_, p, d, r in fx.log:
        i = split_path(p)[1]
        if i is None:
            ctx.prove(T(False), 'a sub-directory is visited')
            return
        ctx.prove(path_is(p, where, i), 'a sub-directory is visited')
        ctx.prove(z3.And(wanted(i), 0 <= i, i < n), 'a visible directory')
        ctx.prove(T(fs_ is fs and d == depth - 1 and not r), 'one level down')
    complete(fx.seqs[0])
