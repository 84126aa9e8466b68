"""Contracts of the overlap windows."""
from pydv.core import PathEnd, SymInt, Unsupported, cur, ite, mkint, z3, zint
from pydv.harness import contract
from pydv.theory import (SymList, SymSeq, any_index, forall, induct,
                         input_len, lift, where_true)
from pydv.world import LoopSpec

CD = 'zcollection/collection/detail.py:'
VD = 'zcollection/view/detail.py:'
DIM = 'num'


class Part:
    """Dataset of the i-th partition (rows: the whole partition, in order)."""

    def __init__(self, st, i):
        self.st = st
        self.i = I(i)
        self.merged = []

    @property
    def dimensions(self):
        return {DIM: mkint(self.st['size'](self.i))}

    def concat(self, others, dim):
        if dim != DIM:
            cur().fail('windows are joined along the partitioning dimension')
        if not isinstance(others, (SymSeq, list, tuple)):
            others = [others]
        seq = lift(others) if not isinstance(others, SymSeq) else others
        first = self
        return Window(self.st, 1 + seq.n, lambda k: ite_part(
            k == 0, first, lambda: seq.at(k - 1)), None
            if seq.maxn is None else seq.maxn + 1)

    def merge(self, other):
        self.merged.append(other)

    def __ite__(self, c, other):
        return Part(self.st, z3.If(c, self.i, other.i))

    def at(self, k):
        return self

    n = z3.IntVal(1)
    maxn = 1


def I(i):
    return z3.simplify(zint(i))


def ite_part(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b()
    return a.__ite__(c, b())


class Window:

    def __init__(self, st, n, at, maxn):
        self.st, self.n, self.at, self.maxn = st, z3.simplify(n), at, maxn
        self.merged = []

    def merge(self, other):
        self.merged.append(other)


def setting(ctx):
    n, maxn = input_len('n', 1)
    size = ctx.func('size')
    ctx.assume(forall(n, maxn, lambda k: size(k) >= 0, dom='parts'))
    w, d = ctx.int('where'), ctx.int('depth')
    ctx.assume(z3.And(0 <= w, w < n, d >= 0))
    if ctx.size is not None:
        ctx.assume(d <= ctx.size)
        for v in range(ctx.size):
            if ctx.branch(w == v):
                w = z3.IntVal(v)
                break
        for v in range(ctx.size + 1):
            if ctx.branch(d == v):
                d = z3.IntVal(v)
                break
        for v in range(1, ctx.size + 1):
            if ctx.branch(n == v):
                n = z3.IntVal(v)
                break
    ctx.input('sizes', SymList(n, lambda k: mkint(size(k)), maxn))
    ctx.input('where', w)
    ctx.input('depth', d)
    # P(k): rows of the partitions before k
    P = ctx.func('rows_before')
    ctx.assume(P(0) == 0)
    ctx.assume(forall(n, maxn, lambda k: P(k + 1) == P(k) + size(k),
                      dom='parts'))
    lo = z3.simplify(z3.If(w - d < 0, z3.IntVal(0), w - d))
    hi = z3.simplify(z3.If(w + d + 1 > n, n, w + d + 1))
    return dict(n=n, maxn=maxn, size=size, w=w, d=d, P=P, lo=lo, hi=hi)


def selection(ctx, seq, st):
    """seq[k] is the partition lo + k and seq has hi - lo elements."""
    lo, hi = st['lo'], st['hi']
    idx = seq.meta.get('filtered')
    if idx is not None and idx.maxn is None:
        mask, f, g = idx.meta['where']
        dom = mask.meta.get('dom', 'rows')
        sel = idx.meta['dom']
        # position of the first selected partition in the filtered range
        c = ctx.int('c')
        first = zint(seq.at(0).i if hasattr(seq.at(0), 'i') else 0)
        ctx.assume(c == lo - (st['w'] - st['d']))
        ctx.instantiate(c, c + hi - lo - 1, dom=dom)
        ctx.instantiate(z3.IntVal(0), idx.n - 1, g(c), g(c + hi - lo - 1),
                        dom=sel)
        ctx.prove(idx.n >= 1, 'window not empty')
        ctx.prove(f(0) == c, 'the window starts at distance depth or at the '
                  'first partition')
        j = ctx.int('j')
        ctx.instantiate(f(j) + 1, dom=dom)
        ctx.instantiate(j, j + 1, g(f(j) + 1), dom=sel)
        ctx.prove(z3.Implies(
            z3.And(0 <= j, j + 1 < idx.n, f(j) == c + j),
            f(j + 1) == c + j + 1), 'the window is contiguous (step)')
        ctx.assume(forall(idx.n, None, lambda k: f(k) == c + k, dom=sel))
        ctx.instantiate(z3.IntVal(0), idx.n - 1, g(c + hi - lo - 1), dom=sel)
        ctx.prove(idx.n == hi - lo, 'the window ends at distance depth or at '
                  'the last partition')
    k = any_index(seq.n, seq.maxn, 'sel')
    if idx is not None and idx.maxn is None:
        ctx.instantiate(k, dom=idx.meta['dom'])


def window_ok(ctx, st, zds, indices):
    lo, hi, w, size, P = (st[x] for x in ('lo', 'hi', 'w', 'size', 'P'))
    if 'dom' in st:
        ctx.instantiate(z3.IntVal(0), zds.n - 1, dom=st['dom'])
    ctx.prove(zds.n == hi - lo, 'window: as many partitions as within the '
              'depth')
    k = any_index(zds.n, zds.maxn, 'k')
    if 'dom' in st:
        ctx.instantiate(k, dom=st['dom'])
    ctx.prove(zds.at(k).i == lo + k, 'window: the neighbouring partitions '
              'in order')
    if not isinstance(indices, slice) or indices.step not in (None, 1):
        ctx.fail('the position is a slice')
        return
    ctx.prove(zint(indices.start) == P(w) - P(lo),
              'position: starts after the previous partitions of the window')
    ctx.prove(zint(indices.stop) - zint(indices.start) == size(w),
              'position: has the size of the partition')


def slice_loop(st, item):
    """Invariant of calculate_slice: start is the number of rows of the
    partitions of the window before the current one."""

    def inv(ctx, env, k, it):
        lo, P = st['lo'], st['P']
        ctx.instantiate(lo + k, lo + k - 1, st['w'], dom='parts')
        yield 'rows before', zint(env['start']) == P(lo + k) - P(lo)
        yield 'not found yet', k <= st['w'] - lo

    def havoc(ctx, env, k, it):
        a, b = ctx.int('a'), ctx.int('b')
        # the k-th dataset of the window is the partition lo + k
        seq = SymList(it.n, lambda q: item(it.at(q)), it.maxn,
                      filtered=st.get('idx'))
        selection(ctx, seq, st)
        if st.get('idx') is not None:
            ctx.instantiate(k, dom=st['idx'].meta['dom'])
        return dict(start=SymInt(ctx.int('start')),
                    indices=slice(SymInt(a), SymInt(b), None))

    return LoopSpec(inv, havoc, uses=('start', 'indices'), temps=('size', ))


def remember(W, st):
    """The selection of the window: the only filtered comprehension."""
    real = W.builtins['__dv_comp__']

    def comp(kind, it, fe, fc):
        out = real(kind, it, fe, fc)
        if fc is not None and isinstance(out, SymSeq) and kind == 'list':
            st['idx'] = out.meta.get('filtered')
            if st['idx'] is not None:
                st['dom'] = st['idx'].meta['dom']
        return out

    W.builtins['__dv_comp__'] = comp

    def undo():
        W.builtins['__dv_comp__'] = real

    return undo


def replay(i):
    """Windows of the real functions on stored partitions."""
    import rtc.c09 as c
    sizes = [min(max(s, 1), 30) for s in i['sizes']]
    err = []
    for view in (False, True):
        err += c.CASES['overlap'](dict(
            sizes=sizes, depth=min(i['depth'], len(sizes) + 1), filter=None,
            view=view, variables=None, delayed=False, trim=True, dim=DIM,
            imm=False, seed=1))
    return err


@contract('C09', 'collection: window and position of a partition', [
    CD + '_load_dataset_with_overlap'], replay=replay, bounded=(2, 3),
    assumes=('Dataset.concat joins the rows in order (C20)',
             'open_zarr_group returns the rows of the partition (C21)'))
def collection_window(ctx, W):
    m = W['collection.detail']
    st = setting(ctx)
    opened = []

    def open_group(name, fs, *, delayed=None, selected_variables=None,
                   **kw):
        opened.append(name)
        if name == 'IMMUTABLE':
            return 'immutable dataset'
        if fs != 'FS' or delayed is not True or selected_variables != 'VARS':
            ctx.fail('partitions are opened with the given arguments')
        return Part(st, zint(name))

    W.patch('collection.detail:open_zarr_group', open_group)
    W.loops['_load_dataset_with_overlap.calculate_slice#1'] = slice_loop(
        st, lambda x: x[1])
    names = SymList(st['n'], lambda k: mkint(k), st['maxn'])
    imm = [None, 'IMMUTABLE'][ctx.choose(2, 'immutable')]
    ctx.cover('reachable')
    undo = remember(W, st)
    try:
        zds, indices = m._load_dataset_with_overlap(
            delayed=True, depth=mkint(st['d']), dim=DIM, fs='FS',
            immutable=imm, partition=mkint(st['w']), partitions=names,
            selected_variables='VARS')
    except (IndexError, ValueError) as exc:
        ctx.prune()
        ctx.fail(f'the window can be computed ({exc!r})')
        return
    finally:
        undo()
    ctx.prove(z3.BoolVal(zds.merged == (
        ['immutable dataset'] if imm else [])),
        'the non-partitioned variables are attached')
    window_ok(ctx, st, zds, indices)


class Ref:
    """Reference collection of a view."""

    class partition_properties:
        dim = DIM
        dir = 'REF'


@contract('C09', 'view: window and position of a partition', [
    VD + '_select_overlap'], replay=replay, bounded=(2, 3),
    assumes=('Dataset.concat joins the rows in order (C20)', ))
def view_window(ctx, W):
    m = W['view.detail']
    st = setting(ctx)
    W.loops['_select_overlap.calculate_slice#1'] = slice_loop(
        st, lambda x: x[0])
    lst = SymList(st['n'], lambda k: (Part(st, k), mkint(k)), st['maxn'],
                  kind='tuple')
    ctx.cover('reachable')
    undo = remember(W, st)
    try:
        zds, indices = m._select_overlap((Part(st, st['w']), mkint(st['w'])),
                                         lst, mkint(st['d']), Ref())
    except (IndexError, ValueError, StopIteration) as exc:
        ctx.prune()
        ctx.fail(f'the window can be computed ({exc!r})')
        return
    finally:
        undo()
    window_ok(ctx, st, zds, indices)
