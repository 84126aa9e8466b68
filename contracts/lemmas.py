"""Induction lemmas used by the assumed contracts of pydv/theory.py.

They quantify over every integer function; each is proved by base and step
obligations."""
from pydv.core import SymInt, z3
from pydv.harness import contract
from pydv.theory import forall, forall2

USERS = ['C01', 'C03', 'C04', 'C09', 'C16']


@contract(USERS, 'lemma: adjacent order implies pairwise order', [],
          bounded=())
def adjacent(ctx, W):
    # for a transitive relation R on the values of a sequence
    n = ctx.int('n')
    s = z3.DeclareSort('V')
    f = z3.Function('f', z3.IntSort(), s)
    R = z3.Function('R', s, s, z3.BoolSort())
    a, b, c = z3.Consts('a b c', s)
    ctx.assume(z3.ForAll([a, b, c], z3.Implies(z3.And(R(a, b), R(b, c)),
                                               R(a, c))))
    ctx.assume(forall(n - 1, None, lambda k: R(f(k), f(k + 1))))
    ctx.cover('lemma hypotheses')
    i = ctx.int('i')
    d = ctx.int('d')
    ctx.assume(0 <= i)
    # induction on the distance d >= 1
    ctx.prove(z3.Implies(i + 1 < n, R(f(i), f(i + 1))), 'base')
    ctx.prove(z3.Implies(z3.And(d >= 1, i + d + 1 < n, R(f(i), f(i + d))),
                         R(f(i), f(i + d + 1))), 'step')


@contract(USERS, 'lemma: an increasing permutation is the identity', [],
          bounded=())
def identity(ctx, W):
    n = ctx.int('n')
    p, q = ctx.func('p'), ctx.func('q')
    ctx.assume(forall(n, None, lambda k: z3.And(
        p(k) >= 0, p(k) < n, q(p(k)) == k, q(k) >= 0, q(k) < n,
        p(q(k)) == k)))
    ctx.assume(forall2(n, None, lambda i, j: p(i) < p(j)))
    ctx.cover('lemma hypotheses')
    # p(k) = k by strong induction on k
    k = ctx.int('k')
    ctx.assume(z3.And(0 <= k, k < n))
    ctx.assume(forall(k, None, lambda j: p(j) == j))
    # k = p(q(k)); q(k) < k would give p(q(k)) = q(k) < k
    ctx.prove(q(k) >= k, 'preimage is not smaller')
    ctx.prove(z3.Implies(q(k) > k, p(k) < p(q(k))), 'order')
    ctx.prove(z3.Implies(p(k) < k, p(p(k)) == p(k)), 'induction hypothesis')
    ctx.prove(z3.Implies(p(k) < k, q(p(p(k))) == p(k)), 'inverse')
    ctx.prove(p(k) == k, 'step')


@contract(USERS, 'lemma: contiguous tiles cover every row', [], bounded=())
def tiling(ctx, W):
    n, m = ctx.int('n'), ctx.int('m')
    s, e = ctx.func('start'), ctx.func('stop')
    ctx.assume(z3.And(n > 0, m > 0, s(0) == 0, e(m - 1) == n))
    ctx.assume(forall(m, None, lambda k: s(k) < e(k)))
    ctx.assume(forall(m - 1, None, lambda k: e(k) == s(k + 1)))
    ctx.cover('lemma hypotheses')

    def at(i, k):
        return z3.And(0 <= k, k < m, s(k) <= i, i < e(k))

    ctx.prove(at(z3.IntVal(0), z3.IntVal(0)), 'base')
    i, k = ctx.int('i'), ctx.int('k')
    ctx.assume(z3.And(0 <= i, i + 1 < n, at(i, k)))
    ctx.prove(z3.Or(at(i + 1, k), at(i + 1, k + 1)), 'step')


@contract(USERS,
          'lemma: the pieces of a split, some of them empty, cover every row',
          [], bounded=())
def pieces(ctx, W):
    n, m = ctx.int('n'), ctx.int('m')
    s = ctx.func('cut')
    ctx.assume(z3.And(n > 0, m > 0, s(0) == 0, s(m) == n))
    ctx.assume(forall(m, None, lambda k: s(k) <= s(k + 1)))
    ctx.cover('lemma hypotheses')
    # i: any row; every cut up to the k-th is at most i as long as no piece
    # before the k-th holds i
    i, k = ctx.int('i'), ctx.int('k')
    ctx.assume(z3.And(0 <= i, i < n))
    ctx.assume(forall(m, None, lambda k: z3.Not(z3.And(s(k) <= i,
                                                      i < s(k + 1)))))
    ctx.prove(s(0) <= i, 'base')
    ctx.prove(z3.Implies(z3.And(0 <= k, k < m, s(k) <= i), s(k + 1) <= i),
              'step')
    # hence s(m) = n <= i, a contradiction
    ctx.prove(z3.Implies(s(m) <= i, z3.BoolVal(False)), 'contradiction')


@contract(USERS, 'lemma: the k-th selected index is at least k', [],
          bounded=())
def counting(ctx, W):
    m = ctx.int('m')
    f = ctx.func('f')
    ctx.assume(forall(m, None, lambda k: f(k) >= 0))
    ctx.assume(forall2(m, None, lambda i, j: f(i) < f(j)))
    ctx.cover('lemma hypotheses')
    k = ctx.int('k')
    ctx.prove(z3.Implies(m > 0, f(0) >= 0), 'base')
    ctx.prove(z3.Implies(z3.And(0 <= k, k + 1 < m, f(k) >= k),
                         f(k + 1) >= k + 1), 'step')


@contract(['C03'], 'lemma: a cumulative predicate is monotone and has a first '
          'step', [], bounded=())
def cumulative(ctx, W):
    # hit(0) is false and hit(p + 1) = hit(p) or q(p)
    n = ctx.int('n')
    hit, q = (z3.Function(x, z3.IntSort(), z3.BoolSort()) for x in 'hq')
    ctx.assume(z3.Not(hit(0)))
    ctx.assume(forall(n, None, lambda p: hit(p + 1) == z3.Or(hit(p), q(p))))
    ctx.cover('lemma hypotheses')
    p, r = ctx.int('p'), ctx.int('r')
    ctx.assume(z3.And(0 <= p, p <= r, r < n))
    ctx.instantiate(p, r)
    ctx.prove(z3.Implies(z3.And(hit(p), hit(r)), hit(r + 1)),
              'monotone (step)')
    # a first step: hit(r) -> exists p < r: not hit(p) and hit(p + 1)
    ctx.prove(z3.Not(hit(0)), 'first step (base)')
    ctx.prove(z3.Implies(hit(r + 1), z3.Or(hit(r), z3.And(
        z3.Not(hit(r)), hit(r + 1)))), 'first step (step)')


@contract(['C19', 'C22'], 'lemma: the selected elements are enumerated by '
          'their rank', [], bounded=())
def ranks(ctx, W):
    """Counted of pydv/collect.py: cnt(k) elements are selected below k."""
    n = ctx.int('n')
    cnt = ctx.func('cnt')
    mask = ctx.func('mask', z3.IntSort(), z3.BoolSort())
    i, j, k, d = (ctx.int(x) for x in 'ijkd')

    def step(x):
        return cnt(x + 1) == cnt(x) + z3.If(mask(x), 1, 0)

    ctx.assume(z3.And(n >= 0, cnt(0) == 0))
    ctx.assume(forall(n, None, step))
    ctx.cover('lemma hypotheses')
    ctx.prove(z3.And(cnt(0) >= 0, cnt(0) <= 0), 'bounds: base')
    ctx.prove(z3.Implies(z3.And(0 <= k, k < n, cnt(k) >= 0, cnt(k) <= k),
                         z3.And(cnt(k + 1) >= 0, cnt(k + 1) <= k + 1)),
              'bounds: step')
    ctx.prove(z3.Implies(z3.And(0 <= k, d >= 0, k + d < n,
                                cnt(k) <= cnt(k + d)),
                         cnt(k) <= cnt(k + d + 1)), 'monotonic: step')
    # every rank below cnt(k) is the rank of a selected element below k
    ctx.prove(z3.Not(z3.And(0 <= j, j < cnt(0))), 'ranks: base')
    ctx.prove(z3.Implies(
        z3.And(0 <= k, k < n, 0 <= j, j < cnt(k + 1),
               z3.Implies(j < cnt(k), z3.And(0 <= i, i < k, mask(i),
                                             cnt(i) == j))),
        z3.Or(z3.And(0 <= i, i < k + 1, mask(i), cnt(i) == j),
              z3.And(mask(k), cnt(k) == j))), 'ranks: step')
    # two selected elements have different ranks, in their order
    ctx.prove(z3.Implies(
        z3.And(0 <= i, i < k, k < n, mask(i), mask(k),
               cnt(i + 1) <= cnt(k)), cnt(i) < cnt(k)), 'order')
