"""Loops filling a list with the selected elements of a sequence.

``Counted`` describes the selection: ``cnt(k)`` selected elements come before
k, ``w(j)`` is the j-th selected one (definition by recursion; its properties
are the lemma "the selected elements are enumerated by their rank" of
contracts/lemmas.py).  ``Collect`` is the invariant: after k iterations the
list holds the values of the selected elements below k, in order."""
from __future__ import annotations

from .core import Unsupported, cur, z3
from .theory import SymList, SymSeq, forall, forall2


class Counted:

    def __init__(self, n, mask):
        ctx = cur()
        self.n, self.mask = n, mask
        cnt, w = ctx.func('cnt'), ctx.func('nth')
        self.cnt, self.w = cnt, w
        ctx.assume(z3.And(cnt(0) == 0, cnt(n) >= 0, cnt(n) <= n))
        ctx.assume(forall(n, None, lambda k: z3.And(
            cnt(k) >= 0, cnt(k) <= k, cnt(k + 1) <= cnt(n),
            cnt(k + 1) == cnt(k) + z3.If(mask(k), 1, 0),
            z3.Implies(mask(k), w(cnt(k)) == k))))
        ctx.assume(forall(cnt(n), None, lambda j: z3.And(
            0 <= w(j), w(j) < n, mask(w(j)), cnt(w(j)) == j)))
        ctx.assume(forall2(cnt(n), None, lambda i, j: w(i) < w(j)))


class Collect:
    """Loop contract: ``lists`` maps the name of a list (None: the only one)
    to (selection, value of the element k, equality)."""
    uses = temps = ()

    def __init__(self, lists, temps=()):
        self.lists = lists
        self.temps = temps

    def named(self, env=None):
        if set(self.lists) == {None}:
            if len(self.loop.mutated) != 1:
                raise Unsupported(f'loop {self.loop.name}: several lists')
            return {self.loop.mutated[0]: self.lists[None]}
        if set(self.lists) != set(self.loop.mutated):
            raise Unsupported(f'loop {self.loop.name}: other lists')
        return self.lists

    def havoc(self, ctx, env, k, it):
        ctx.instantiate(k)
        out = {}
        for name, (sel, value, _) in self.named().items():
            out[name] = SymList(sel.cnt(k), lambda j, s=sel, v=value:
                                v(s.w(j)))
        return out

    def inv(self, ctx, env, k, it, mode, name):
        if mode != 'prove':
            for n, (sel, _, _) in self.named().items():
                ctx.assume(z3.And(sel.cnt(k) >= 0, sel.cnt(k) <=
                                  sel.cnt(sel.n)))
            return
        for n, (sel, value, same) in self.named().items():
            x = env.get(n)
            if isinstance(x, list) and not x:
                ctx.prove(sel.cnt(k) == 0, f'{name}: {n} is empty')
                continue
            if not isinstance(x, SymSeq):
                raise Unsupported(f'loop {self.loop.name}: {n} is {type(x)}')
            ctx.prove(x.n == sel.cnt(k), f'{name}: length of {n}')
            j = ctx.int('j')
            ctx.assume(z3.And(0 <= j, j < x.n))
            ctx.instantiate(j)
            ctx.prove(same(x.at(j), sel.w(j)), f'{name}: elements of {n}')
