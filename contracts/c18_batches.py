"""Contract of dask_utils.split_sequence."""
from pydv.core import mkint, z3
from pydv.harness import contract
from pydv.theory import SymList, SymSeq, drain, input_len, lift, veq

M = 'zcollection/dask_utils.py:'


def replay(i):
    from zcollection import dask_utils
    seq = list(range(i['n']))
    s = i['sections']
    if s is not None and s <= 0:
        try:
            list(dask_utils.split_sequence(seq, s))
            return [f'{s} sections accepted']
        except ValueError:
            return []
    got = [list(x) for x in dask_utils.split_sequence(seq, s)]
    want = min(len(seq), len(seq) if s is None else s)
    err = []
    if sum(got, []) != seq:
        err.append(f'sections of {seq} by {s}: {got}')
    if any(not g for g in got) or len(got) != want:
        err.append(f'{len(got)} sections {got} instead of {want}')
    if got and max(map(len, got)) - min(map(len, got)) > 1:
        err.append(f'unbalanced sections {got}')
    return err


def sections(ctx):
    if ctx.choose(2, 'sections given'):
        s = ctx.int('sections')
        if ctx.size is not None:
            ctx.assume(z3.And(s <= ctx.size + 2, s >= -1))
        ctx.input('sections', s)
        return mkint(s), s
    ctx.input('sections', None)
    return None, None


@contract('C18', 'split_sequence: consecutive, balanced, complete batches', [
    M + 'split_sequence'], replay=replay, bounded=(3, 4))
def split(ctx, W):
    m = W['dask_utils']
    n, maxn = input_len('n')
    f = ctx.func('item')
    seq = SymList(n, lambda k: mkint(f(k)), maxn, kind='list')
    arg, s = sections(ctx)
    ctx.cover('reachable')
    try:
        out = drain(m.split_sequence(seq, arg))
    except ValueError:
        ctx.prove(s <= 0 if s is not None else z3.BoolVal(False),
                  'refused only for a non-positive count')
        return
    if s is not None:
        ctx.prove(s > 0, 'a non-positive count is refused')
    out = lift(out) if not isinstance(out, SymSeq) else out
    m_ = out.n
    want = n if s is None else z3.If(s < n, s, n)
    ctx.prove(m_ == want, 'number of batches is min(sections, elements)')
    if out.maxn == 0:
        ctx.prove(n == 0, 'nothing yields nothing')
        return

    # an arbitrary batch k
    k = ctx.int('k')
    ctx.assume(z3.And(0 <= k, k < m_))
    if out.maxn is not None:
        for v in range(out.maxn):
            if ctx.branch(k == v):
                k = z3.IntVal(v)
                break
    try:
        x = out.at(k)
    except IndexError as exc:
        ctx.fail(f'batches can be produced ({exc})')
        return
    x = lift(x) if not isinstance(x, SymSeq) else x
    size = ctx.int('size')
    ctx.assume(z3.And(size * m_ <= n, n < (size + 1) * m_, size >= 1))
    # batch k starts where batch k-1 ended: closed form of the starts
    ex = n - size * m_

    def start(k):
        return k * size + z3.If(k < ex, k, ex)

    ctx.prove(z3.Or(x.n == size, x.n == size + 1),
              'batches are non-empty and balanced')
    ctx.prove(x.n == start(k + 1) - start(k),
              'batch k ends where batch k+1 starts')
    ctx.prove(start(m_) == n, 'the last batch ends with the last element')
    j = ctx.int('j')
    ctx.assume(z3.And(0 <= j, j < x.n))
    if x.maxn == 0:
        return
    ctx.prove(veq(x.at(j), mkint(f(start(k) + j))),
              'batch k holds the elements following batch k-1')
