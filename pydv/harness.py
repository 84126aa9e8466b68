"""Registry of contracts and their discharge."""
from __future__ import annotations

import time

from . import core, daskf, theory, world

REGISTRY = []


class Contract:
    """A contract of one or several functions of /repo.

    ``fn(ctx, W)`` states it: it builds universally quantified arguments that
    satisfy the precondition, calls the real function, and proves the
    postconditions.  ``replay(inputs)`` checks the same contract natively on
    the real package for a concrete counterexample (None: not replayable).
    """

    def __init__(self, prop, name, fn, targets, *, bounded=(2, 3),
                 replay=None, unbounded=True, max_paths=4000, world=None,
                 note='', thorough_bounded=(), timeout=None, assumes=()):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.targets = targets
        self.bounded = bounded
        self.thorough_bounded = thorough_bounded
        self.replay = replay
        self.unbounded = unbounded
        self.max_paths = max_paths
        self.world = world
        self.note = note
        self.timeout = timeout
        self.assumes = tuple(assumes)


def contract(prop, name, targets, **kw):

    def deco(fn):
        props = [prop] if isinstance(prop, str) else prop
        for p in props:
            REGISTRY.append(Contract(p, name, fn, targets, **kw))
        return fn

    return deco


def default_world():
    return world.World(facades={
        'numpy': theory.numpy_facade(),
        'dask': daskf.dask_facade(),
        'itertools': theory.Facade(__import__('itertools'), {
            'accumulate': theory.accumulate
        }),
    })


_WORLDS = {}


def get_world(factory):
    f = factory or default_world
    if f not in _WORLDS:
        _WORLDS[f] = f()
    return _WORLDS[f]


class Result:

    def __init__(self, c):
        self.contract = c
        self.status = None  # proved | bounded | refuted | undecided
        self.runs = []
        self.counterexamples = []
        self.detail = []
        self.bound = None
        self.wall = 0.0


def one_run(c, W, size, z3_timeout=None, deadline=None):
    r = core.Run(c.name, size=size, max_paths=c.max_paths,
                 z3_timeout=z3_timeout or c.timeout, deadline=deadline)

    def body(ctx):
        W.unpatch()
        W.loops.clear()
        try:
            c.fn(ctx, W)
        finally:
            W.unpatch()

    return r.execute(body)


def discharge(c, tier='quick'):
    res = Result(c)
    t0 = time.time()
    try:
        W = get_world(c.world)
    except Exception as exc:
        res.status = 'undecided'
        res.detail.append(f'source not loadable: {exc!r}')
        return res
    W.unpatch()
    verdict = None
    if c.unbounded:
        r = one_run(c, W, None, deadline=t0 + (90 if tier == 'quick' else 600))
        res.runs.append(('unbounded', r))
        verdict = r.verdict()
        if verdict == 'proved':
            res.status = 'proved'
    if verdict != 'proved':
        if verdict:
            res.detail.append(
                f'unbounded: {verdict} ' +
                '; '.join(r.unsupported[:3]) + ' '.join(
                    sorted({o.name for o in r.unknown + r.refuted})[:5]))
        sizes = c.bounded + (c.thorough_bounded if tier != 'quick' else ())
        ok = bool(sizes)
        refuted = [o for o in (r.refuted if c.unbounded else [])]
        for size in sizes:
            rb = one_run(c, W, size,
                         deadline=time.time() + (90 if tier == 'quick' else 900))
            res.runs.append((f'bounded({size})', rb))
            v = rb.verdict()
            if v == 'refuted':
                refuted = rb.refuted + refuted
                ok = False
                break
            if v != 'proved':
                ok = False
                res.detail.append(f'bounded({size}): {v} ' +
                                  '; '.join(rb.unsupported[:3]))
                break
            res.bound = size
        if refuted:
            res.status = 'refuted'
            res.counterexamples = refuted
        else:
            res.status = 'bounded' if (ok or res.bound) else 'undecided'
    res.wall = time.time() - t0
    return res
