"""Mechanical loading of /repo's current source into the verifier.

Every module of the package is read from /repo, parsed, and rewritten as
follows (nothing else is changed or dropped):

* a comprehension or generator expression with a single ``for`` clause becomes
  a call of ``__dv_comp__(kind, iterable, element, condition)``;
* in the condition of such a comprehension and in the body of a ``lambda``, ``and``, ``or``, ``not`` and
  chained comparisons become calls of ``__dv_bool__``;
* ``in``, ``not in``, ``is None`` and ``is not None`` become calls of
  ``__dv_cmp__`` (same result, or a formula over symbolic values);
* a ``for`` statement iterates over ``__dv_loop__(name, iterable)``, followed
  by assignments which only take effect when the loop is cut by an invariant.

The result is compiled by CPython under the original file name and line
numbers and executed with shimmed builtins and facades of the external
modules.
"""
from __future__ import annotations

import ast
import builtins as _b
import importlib
import os
import sys
import types

from . import core, theory
from .core import PathEnd, Unsupported, cur, z3

REPO = os.environ.get('VERIF_REPO', '/repo')


class _Assigned(ast.NodeVisitor):

    def __init__(self):
        self.names = set()

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Store):
            self.names.add(node.id)

    def visit_FunctionDef(self, node):
        self.names.add(node.name)

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = \
        _comp


class _Has(ast.NodeVisitor):

    def __init__(self):
        self.bad = False

    def _bad(self, node):
        self.bad = True

    visit_NamedExpr = visit_Yield = visit_YieldFrom = visit_Await = _bad


def _has_bad(node):
    v = _Has()
    v.visit(node)
    return v.bad


def _thunk(body, arg=None):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[],
                           args=[ast.arg(arg=arg)] if arg else [],
                           kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body)


def _junction(op, values):
    return ast.Call(ast.Name('__dv_bool__', ast.Load()),
                    [ast.Constant(op)] + [_thunk(v) for v in values], [])


def _strict(node):
    """Condition of a comprehension: and, or, not and chained comparisons
    become calls of __dv_bool__ (same result, operands in thunks)."""
    if isinstance(node, ast.BoolOp):
        return ast.copy_location(
            _junction('and' if isinstance(node.op, ast.And) else 'or',
                      [_strict(v) for v in node.values]), node)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        return ast.copy_location(
            _junction('not', [_strict(node.operand)]), node)
    if isinstance(node, ast.Compare) and len(node.ops) == 2:
        mid = ast.Name('__dv_m', ast.Load())
        body = _junction('and', [
            ast.Compare(node.left, [node.ops[0]], [mid]),
            ast.Compare(mid, [node.ops[1]], [node.comparators[1]])
        ])
        return ast.copy_location(
            ast.Call(_thunk(body, '__dv_m'), [node.comparators[0]], []),
            node)
    return node


_MUTATORS = ('append', 'extend', 'insert', 'add', 'update', 'pop', 'remove',
             'discard', 'clear', 'setdefault', 'popitem', 'sort', 'reverse')


class _Mutated(ast.NodeVisitor):
    """Objects a loop body may change other than by assigning a name."""

    def __init__(self):
        self.names = set()

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _MUTATORS and \
                isinstance(f.value, ast.Name):
            self.names.add(f.value.id)
        self.generic_visit(node)

    def _store(self, node):
        if not isinstance(node.ctx, ast.Load):
            self.names.add(ast.unparse(node))
        self.generic_visit(node)

    visit_Subscript = visit_Attribute = _store


class Rewriter(ast.NodeTransformer):

    def __init__(self):
        self.stack = []
        self.locals = []
        self.loops = {}
        self.n = 0

    # -- scopes --------------------------------------------------------
    def _scope(self, node, kind):
        self.stack.append((kind, node.name))
        v = _Assigned()
        for s in node.body:
            v.visit(s)
        self.locals.append(v.names if kind == 'f' else set())
        node = self.generic_visit(node)
        self.stack.pop()
        self.locals.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._scope(node, 'f')

    def visit_AsyncFunctionDef(self, node):
        return self._scope(node, 'f')

    def visit_ClassDef(self, node):
        return self._scope(node, 'c')

    def qual(self):
        return '.'.join(n for _, n in self.stack)

    # -- comprehensions -------------------------------------------------
    def _comp(self, node, kind, elt):
        if self.stack and self.stack[-1][0] == 'c' or not self.stack:
            return self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[
                0].is_async or _has_bad(node):
            return self.generic_visit(node)
        gen = node.generators[0]
        it = self.visit(gen.iter)
        elt = self.visit(elt)
        ifs = [_strict(self.visit(c)) for c in gen.ifs]
        target = gen.target

        def lam(body):
            if isinstance(target, ast.Name):
                args = ast.arguments(posonlyargs=[],
                                     args=[ast.arg(arg=target.id)],
                                     kwonlyargs=[], kw_defaults=[],
                                     defaults=[])
                return ast.Lambda(args=args, body=body)
            args = ast.arguments(posonlyargs=[],
                                 args=[ast.arg(arg='__dv_x')], kwonlyargs=[],
                                 kw_defaults=[], defaults=[])
            inner = ast.ListComp(
                elt=body, generators=[
                    ast.comprehension(
                        target=target, iter=ast.Tuple(
                            elts=[ast.Name('__dv_x', ast.Load())],
                            ctx=ast.Load()), ifs=[], is_async=0)
                ])
            return ast.Lambda(
                args=args, body=ast.Subscript(inner, ast.Constant(0),
                                              ast.Load()))

        cond = ast.Constant(None)
        if ifs:
            cond = lam(ifs[0] if len(ifs) == 1 else _junction('and', ifs))
        call = ast.Call(
            ast.Name('__dv_comp__', ast.Load()),
            [ast.Constant(kind), it,
             lam(elt), cond], [])
        return ast.copy_location(call, node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list', node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, 'set', node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', node.elt)

    def visit_DictComp(self, node):
        return self._comp(
            node, 'dict',
            ast.copy_location(
                ast.Tuple([node.key, node.value], ast.Load()), node))

    def visit_Lambda(self, node):
        node = self.generic_visit(node)
        if self.stack and not _has_bad(node.body):
            node.body = _strict(node.body)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1 or not self.stack:
            return node
        op = node.ops[0]
        right = node.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if not (isinstance(right, ast.Constant) and right.value is None):
                return node
            name = 'is' if isinstance(op, ast.Is) else 'is not'
        elif isinstance(op, (ast.In, ast.NotIn)):
            name = 'in' if isinstance(op, ast.In) else 'not in'
        else:
            return node
        return ast.copy_location(
            ast.Call(ast.Name('__dv_cmp__', ast.Load()),
                     [ast.Constant(name), node.left, right], []), node)

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        node.value = ast.copy_location(
            ast.Call(ast.Name('__dv_yield_from__', ast.Load()), [node.value],
                     []), node)
        return node

    # -- loops -------------------------------------------------------
    def visit_For(self, node):
        if not self.stack or self.stack[-1][0] != 'f':
            return self.generic_visit(node)
        q = self.qual()
        k = self.loops[q] = self.loops.get(q, 0) + 1
        self.n += 1
        var = f'__dv_L{self.n}'
        v = _Assigned()
        for s in node.body:
            v.visit(s)
        t = _Assigned()
        t.visit(node.target)
        names = sorted(v.names - t.names)
        u = _Mutated()
        for s in node.body:
            u.visit(s)
        mutated = sorted(u.names)
        # lists of the function, filled by the loop
        filled = [x for x in mutated if x in self.locals[-1]
                  and x not in names and x not in t.names]
        node = self.generic_visit(node)

        def havoc():
            if not names and not filled:
                return []
            return [
                ast.If(
                    test=ast.Attribute(ast.Name(var, ast.Load()), 'cut',
                                       ast.Load()), body=[
                                           ast.Assign(
                                               [ast.Name(n, ast.Store())],
                                               ast.Call(
                                                   ast.Attribute(
                                                       ast.Name(
                                                           var, ast.Load()),
                                                       'keep', ast.Load()),
                                                   [ast.Constant(n),
                                                    ast.Name(n, ast.Load())],
                                                   []))
                                           for n in filled
                                       ] + [
                                           ast.Assign(
                                               [ast.Name(n, ast.Store())],
                                               ast.Call(
                                                   ast.Attribute(
                                                       ast.Name(
                                                           var, ast.Load()),
                                                       'val', ast.Load()),
                                                   [ast.Constant(n)], []))
                                           for n in names
                                       ], orelse=[])
            ]

        mk = ast.Assign([ast.Name(var, ast.Store())],
                        ast.Call(
                            ast.Name('__dv_loop__', ast.Load()), [
                                ast.Constant(f'{q}#{k}'), node.iter,
                                ast.Constant(tuple(names)),
                                ast.Constant(tuple(mutated))
                            ], []))
        node.iter = ast.Name(var, ast.Load())
        node.body = havoc() + node.body
        end = ast.Expr(
            ast.Call(
                ast.Attribute(ast.Name(var, ast.Load()), 'done', ast.Load()),
                [], []))
        out = [mk, node] + havoc() + [end]
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out


class Loop:
    """Iteration driver: native, bounded or cut by an invariant."""

    def __init__(self, world, name, it, names, mutated=()):
        self.mutated = mutated
        self.world = world
        self.name = name
        self.it = it
        self.names = names
        self.cut = False
        self.values = {}
        self.frame = sys._getframe(2)

    def val(self, n):
        return self.values.get(n, theory.Undefined) if hasattr(
            theory, 'Undefined') else self.values[n]

    def keep(self, n, value):
        return self.values.get(n, value)

    def env(self):
        return dict(self.frame.f_locals)

    def done(self):
        self.cut = False

    def __iter__(self):
        it = self.it
        if not isinstance(it, theory.SymSeq):
            yield from it
            return
        if it.maxn is not None:
            for k in range(it.maxn):
                if not cur().branch(it.n > k):
                    return
                yield it.at(k)
            return
        spec = self.world.loops.get(self.name)
        ctx = cur()
        if spec is None and ctx.effects is not None:
            yield from self.each(ctx, it)
            return
        if spec is None:
            raise Unsupported(f'loop {self.name} has no invariant')
        spec.loop = self
        env0 = self.env()
        missing = set(spec.uses) - set(env0)
        if missing:
            raise Unsupported(
                f'loop {self.name}: invariant names unknown: {missing}')
        spec.inv(ctx, env0, z3.IntVal(0), it, 'prove',
                 f'{self.name}: invariant on entry')
        k = ctx.int('iter')
        new = spec.havoc(ctx, env0, k, it)
        extra = set(self.names) - set(new) - set(spec.temps)
        if extra:
            raise Unsupported(
                f'loop {self.name}: unexpected assigned names {extra}')
        env1 = dict(env0)
        env1.update(new)
        lost = set(self.mutated) - set(new)
        if lost:
            raise Unsupported(f'loop {self.name} changes {sorted(lost)}')
        self.values = {n: new.get(n) for n in self.names}
        self.values.update((n, new[n]) for n in self.mutated)
        self.cut = True
        if ctx.choose(2, self.name):
            # arbitrary iteration
            ctx.assume(z3.And(0 <= k, k < it.n))
            spec.inv(ctx, env1, k, it, 'assume', '')
            self.world.current_iter[self.name] = k
            try:
                yield it.at(k)
            except GeneratorExit:
                # break or return: the values of this iteration stay
                self.cut = False
                raise
            env2 = self.env()
            spec.inv(ctx, env2, k + 1, it, 'prove',
                     f'{self.name}: invariant preserved')
            raise PathEnd()
        ctx.assume(k == it.n)
        spec.inv(ctx, env1, k, it, 'assume', '')
        # exit: the assignments after the loop install the havocked values


    def each(self, ctx, it):
        """Loop whose iterations only have effects: the iteration of an
        arbitrary element stands for all of them."""
        if self.mutated:
            raise Unsupported(
                f'loop {self.name} changes {self.mutated}: no invariant')
        k = ctx.effects.pick(it.n)
        if k is None:
            return
        ctx.effects.seqs.append(it)
        self.cut = True
        self.values = {n: Poison(n) for n in self.names}
        self.world.current_iter[self.name] = k
        try:
            yield it.at(k)
        except GeneratorExit:
            ctx.effects.taint = f'loop {self.name} left early'
            raise
        self.values = {n: Poison(n) for n in self.names}
        self.cut = True


class Poison(core.Sym):
    """Value assigned in a loop verified for an arbitrary iteration."""

    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        raise Unsupported(f'{self.name} is used after the loop assigning it')

    __bool__ = __iter__ = __len__ = __call__ = __getitem__ = __eq__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __lt__ = __le__ = _no
    __hash__ = None

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported(f'{self.name} is used after the loop assigning it')


class LoopSpec:
    """Sidecar loop contract."""

    def __init__(self, inv, havoc, uses=(), temps=()):
        self._inv = inv
        self.havoc = havoc
        self.uses = uses
        self.temps = temps

    def inv(self, ctx, env, k, it, mode, name):
        for label, t in self._inv(ctx, env, k, it):
            if mode == 'prove':
                ctx.prove(t, f'{name}: {label}')
            else:
                ctx.assume(t)


class World:
    """A private copy of the package, executing under the verifier."""

    def __init__(self, facades=None, repo=None, shims=True):
        self.repo = repo or REPO
        self.modules = {}
        self.facades = dict(facades or {})
        self.loops = {}
        self.current_iter = {}
        self.loaded = []
        self.executed = set()
        b = theory.shimmed_builtins() if shims else dict(vars(_b))
        b['__import__'] = self._import
        b['__dv_comp__'] = theory.comp
        b['__dv_bool__'] = theory.junction
        b['__dv_cmp__'] = theory.compare
        b['__dv_loop__'] = self._loop
        b['__dv_yield_from__'] = theory.yield_from
        self.builtins = b
        self.restore = []

    def _loop(self, name, it, names, mutated=()):
        return Loop(self, name, it, names, mutated)

    # -- import system -----------------------------------------------------
    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return (f, True) if os.path.exists(f) else (None, False)
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        path, pkg = self._path(name)
        if name == 'zcollection.version' and path is None:
            m = types.ModuleType(name)
            m.release = lambda *a, **k: '0'
            m.version = m.__version__ = '0'
            m.__getattr__ = lambda n: '0'
            self.modules[name] = m
            return m
        if path is None:
            raise ModuleNotFoundError(name)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        if name == 'zcollection':
            # the top-level package only re-exports names; submodules are
            # loaded on demand
            tree = ast.parse('', path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec', dont_inherit=True)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[name] = m
        self.loaded.append(name)
        old = sys.modules.get(name)
        sys.modules[name] = m  # dataclasses/enum look modules up by name
        try:
            exec(code, m.__dict__)
        finally:
            if old is not None:
                sys.modules[name] = old
            else:
                sys.modules.pop(name, None)
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            setattr(self.modules[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = f'{base}.{name}' if name else base
        else:
            full = name
        if full.split('.')[0] == 'zcollection':
            m = self.load(full)
            if fromlist:
                for n in fromlist:
                    if n != '*' and not hasattr(m, n):
                        try:
                            self.load(f'{full}.{n}')
                        except ModuleNotFoundError:
                            pass
                return m
            return self.modules['zcollection']
        if full in self.facades and (fromlist or '.' not in full):
            return self.facades[full]
        real = importlib.__import__(name, globals, locals, fromlist, level)
        top = full.split('.')[0]
        if not fromlist and top in self.facades:
            return self.facades[top]
        return real

    # -- convenience ---------------------------------------------------
    def __getitem__(self, name):
        return self.load('zcollection.' + name if name else 'zcollection')

    def patch(self, target, value):
        """Replace 'module:attr' (callee under contract) until unpatch()."""
        mod, _, attr = target.partition(':')
        obj = self[mod]
        parts = attr.split('.')
        for p in parts[:-1]:
            obj = getattr(obj, p)
        if not hasattr(obj, parts[-1]):
            raise Unsupported(f'{target} does not exist any more')
        self.restore.append((obj, parts[-1], obj.__dict__[parts[-1]] if
                             parts[-1] in getattr(obj, '__dict__', {}) else
                             None))
        setattr(obj, parts[-1], value)

    def unpatch(self):
        while self.restore:
            obj, attr, old = self.restore.pop()
            if old is None:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)


# -- coverage: functions of /repo executed under the verifier ---------------
_TOOL = 4
_SEEN = set()


def start_coverage(repo=REPO):
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'pydv')
    except ValueError:
        return

    def started(code, off):
        if code.co_filename.startswith(repo):
            _SEEN.add((code.co_filename[len(repo) + 1:], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.PY_START, started)
    mon.set_events(_TOOL, mon.events.PY_START)


def functions_seen():
    return sorted(f'{f}:{q}' for f, q in _SEEN
                  if '<lambda>' not in q and not q.startswith('<module>'))
