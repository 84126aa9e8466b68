"""Path exploration, symbolic scalars and proof obligations."""
from __future__ import annotations

import itertools
import os
import subprocess
import sys
import tempfile
import re as _re
import time
import traceback

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if 'z3' not in sys.modules:
    sys.path.append(_VT)
    try:
        import z3
    finally:
        sys.path.remove(_VT)
else:
    import z3

import numpy as _np


class Unsupported(BaseException):
    """The code left the subset handled by the engine (never an alarm)."""


class PathEnd(BaseException):
    """The current path ends here (pruned, or cut at a loop)."""


class SimulatedFault(OSError):
    """Exception raised by a faulty dependency operation."""


class Crash(BaseException):
    """The process dies here."""


Z3_TIMEOUT = int(os.environ.get('PYDV_Z3_TIMEOUT_MS', '10000'))
FEAS_TIMEOUT = 400
CVC5_TIMEOUT = int(os.environ.get('PYDV_CVC5_TIMEOUT_MS', '8000'))

CUR: 'Ctx | None' = None


def cur() -> 'Ctx':
    if CUR is None:
        raise Unsupported('symbolic value used outside of a run')
    return CUR


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'detail',
                 'path', 'inputs')

    def __init__(self, name, status, backend, t, model=None, detail='',
                 path=(), inputs=None):
        self.name = name
        self.status = status  # discharged | refuted | unknown
        self.backend = backend
        self.time = t
        self.model = model
        self.detail = detail
        self.path = tuple(path)
        self.inputs = inputs


z3.z3.Z3_DEBUG = False
_PROBE = z3.Probe('has-quantifiers')


def _consts(t):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield u
        todo.extend(u.children())


def _has_quant(t) -> bool:
    g = z3.Goal()
    g.add(t)
    return _PROBE(g) != 0.0


class Ctx:
    """One execution path."""

    def __init__(self, run: 'Run', prefix):
        self.run = run
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.ground = z3.Solver()
        self.ground.set('timeout', FEAS_TIMEOUT)
        self.counter = itertools.count()
        self.inputs = {}
        self.labels = []
        self.tokens = {}
        self.text = False
        self.ghost = {}
        self.size = run.size
        self._memo = {}
        self.nofork = 0
        self.facts = []
        self.collect = None
        self.base = []
        self.terms = []
        self.pending = {}
        self.bounds = {}
        self.lemmas = []
        self.effects = None

    # -- ground instances of quantified assumptions ---------------------
    def register(self, quant, fact, lo, n):
        """Remember how a quantifier built by theory.forall expands."""
        self.pending[quant.get_id()] = (quant, fact)
        for i in range(quant.num_vars()):
            self.bounds[quant.var_name(i)] = (lo, n)

    def finite_model(self, *extra):
        """A model of the path condition where every quantified index is
        below a small bound (the quantifiers are expanded), or None."""
        s = None
        for size in (2, 3):
            extras = []

            def expand(t):
                if not _has_quant(t):
                    return t
                if z3.is_quantifier(t):
                    if not t.is_forall():
                        raise LookupError
                    names = [t.var_name(i) for i in range(t.num_vars())]
                    for v in names:
                        lo, n = self.bounds[v]
                        extras.append(z3.And(lo >= 0, n <= size))
                    return z3.And([
                        expand(z3.substitute_vars(
                            t.body(), *[z3.IntVal(i) for i in reversed(c)]))
                        for c in itertools.product(range(size),
                                                   repeat=len(names))])
                return t.decl()(*[expand(c) for c in t.children()])

            try:
                todo = [expand(t) for t in (*self.pc, *extra)]
            except (LookupError, z3.Z3Exception):
                return None
            free = {str(d) for e in extras for d in _consts(e)}
            if free & set(self.bounds):
                return None  # a bound depends on another quantified index
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*todo, *extras)
            self.run.queries += 1
            if s.check() == z3.sat:
                return s.model()
        return None

    def _learn(self, fact):
        self.facts.append(fact)
        for item in list(self.terms):
            self._instance(fact, *item)

    def _instance(self, fact, t, depth, dom):
        arity, make, spawn, fdom = fact
        if dom is not None and fdom is not None and dom != fdom:
            return
        self.nofork += 1
        try:
            if arity == 1:
                insts = [make(t)]
            else:
                insts = [z for u, _, d in self.terms
                         if u is not t and (d is None or fdom is None or
                                            d == fdom)
                         for z in (make(t, u), make(u, t))]
        except Unsupported:
            return
        finally:
            self.nofork -= 1
        if self.collect is not None:
            self.collect.extend(z for z in insts if not _has_quant(z))
            insts = ()
        for z in insts:
            self.pc.append(z)
            self.solver.add(z)
            if not _has_quant(z):
                self.ground.add(z)
        if spawn is not None and depth > 0:
            for u, d in spawn(t):
                self.instantiate(u, depth=depth - 1, dom=d)

    def instantiate(self, *terms, depth=1, dom=None):
        """Add the instances of every known quantified fact at the terms.

        ``dom`` restricts the facts to those over the same kind of index."""
        for t in terms:
            t = z3.IntVal(t) if isinstance(t, int) else z3.simplify(t)
            if any(u.eq(t) and (d is None or d == dom)
                   for u, _, d in self.terms):
                continue
            self.terms.append((t, depth, dom))
            for fact in list(self.facts):
                self._instance(fact, t, depth, dom)

    # -- names -------------------------------------------------------
    def name(self, base='v'):
        return f'{base}!{next(self.counter)}'

    def int(self, base='i'):
        return z3.Int(self.name(base))

    def bool_(self, base='b'):
        return z3.Bool(self.name(base))

    def func(self, base='f', *sorts):
        sorts = sorts or (z3.IntSort(), z3.IntSort())
        return z3.Function(self.name(base), *sorts)

    # -- path condition ----------------------------------------------
    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathEnd()
        if isinstance(t, SymBool):
            t = t.t
        self.pc.append(t)
        self.solver.add(t)
        if not _has_quant(t):
            self.ground.add(t)
            self.base.append(t)
        elif t.get_id() in self.pending:
            self._learn(self.pending[t.get_id()][1])
        elif z3.is_and(t):
            for c in t.children():
                if c.get_id() in self.pending:
                    self._learn(self.pending[c.get_id()][1])

    def lemma(self, hyp, concl):
        """A proved implication between two theory.forall quantifiers."""
        self.lemmas.append((self.pending[hyp.get_id()], concl))
        t = z3.Implies(hyp, concl)
        self.pc.append(t)
        self.solver.add(t)

    def use_lemmas(self):
        """Discharge the hypotheses of the lemmas from ground instances."""
        used = False
        for item in list(self.lemmas):
            (q, (arity, make, _, dom)), concl = item
            ks = [self.int('l') for _ in range(arity)]
            self.ground.push()
            saved = (list(self.terms), len(self.pc))
            self.solver.push()
            try:
                for k in ks:
                    self.instantiate(k, k + 1, depth=0, dom=dom)
                self.ground.set('timeout', 2000)
                self.nofork += 1
                try:
                    self.ground.add(z3.Not(make(*ks)))
                finally:
                    self.nofork -= 1
                ok = self.ground.check() == z3.unsat
            except Unsupported:
                ok = False
            finally:
                self.ground.pop()
                self.solver.pop()
                self.ground.set('timeout', FEAS_TIMEOUT)
                self.terms = saved[0]
                del self.pc[saved[1]:]
            self.run.queries += 1
            if ok:
                self.lemmas.remove(item)
                self.assume(concl)
                used = True
        return used

    def _feasible(self, t):
        self.run.queries += 1
        t0 = time.perf_counter()
        self.ground.push()
        self.ground.add(t)
        r = self.ground.check()
        self.ground.pop()
        self.run.solver_time += time.perf_counter() - t0
        return r != z3.unsat

    def branch(self, t, label='') -> bool:
        raw = t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if raw.get_id() in self.pending:
            self.pending[t.get_id()] = (t, self.pending[raw.get_id()][1])
        known = self._memo.get(('branch', t.get_id()))
        if known is not None:
            return known[1]
        v = self._branch(t)
        self._memo[('branch', t.get_id())] = (t, v)
        return v

    def _branch(self, t):
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
            self.assume(t if v else z3.Not(t))
            return v
        a = self._feasible(t)
        b = self._feasible(z3.Not(t))
        if a and b and self.nofork:
            raise Unsupported('undetermined branch inside a quantified body')
        if not a and not b:
            raise PathEnd()
        if a and b:
            self.run.push(self.trace + [False])
        v = a
        self.trace.append(v)
        self.assume(t if v else z3.Not(t))
        return v

    def prune(self):
        """End a path whose condition is contradictory (quantifiers used)."""
        t0 = time.perf_counter()
        self.ground.set('timeout', 5000)
        r = self.ground.check()
        self.ground.set('timeout', FEAS_TIMEOUT)
        if r != z3.unsat:
            self.solver.set('timeout', min(3000, self.run.z3_timeout))
            r = self.solver.check()
        self.run.solver_time += time.perf_counter() - t0
        self.run.queries += 1
        if r == z3.unsat:
            raise PathEnd()

    def choose(self, n: int, label='') -> int:
        """Non-deterministic choice among n alternatives (demonic)."""
        pos = len(self.trace)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.trace.append(v)
        else:
            for k in range(1, n):
                self.run.push(self.trace + [k])
            v = 0
            self.trace.append(0)
        if label and v:
            self.labels.append(f'{label}={v}')
        return v

    # -- obligations --------------------------------------------------
    def _ground_unsat(self, t):
        g = self.ground
        g.push()
        g.set('timeout', self.run.z3_timeout)
        g.add(z3.Not(t))
        r = g.check()
        g.pop()
        g.set('timeout', FEAS_TIMEOUT)
        return r == z3.unsat

    def _focused(self, t, focus):
        """Proof from the ground facts and the instances at a few terms."""
        saved, self.terms = self.terms, []
        self.collect = []
        try:
            for term, depth, dom in focus:
                self.instantiate(term, depth=depth, dom=dom)
            insts = self.collect
        finally:
            self.terms, self.collect = saved, None
        s = z3.Solver()
        s.set('timeout', self.run.z3_timeout)
        s.add(*self.base, *insts, z3.Not(t))
        return s.check() == z3.unsat

    def prove(self, t, name, focus=None, **detail):
        """Discharge an obligation; the fact is assumed afterwards.

        ``focus``: (term, depth, kind of index) of the instances that should
        suffice, tried first."""
        if isinstance(t, SymBool):
            t = t.t
        run = self.run
        if focus is not None and z3.is_expr(t):
            t0 = time.perf_counter()
            if self._focused(t, focus):
                dt = time.perf_counter() - t0
                run.solver_time += dt
                run.queries += 1
                run.record(Obligation(name, 'discharged', 'z3', dt,
                                      path=self.trace))
                self.assume(t)
                return True
        if z3.is_true(t):
            t = True
        if isinstance(t, (bool, _np.bool_)):
            if not t:
                self.fail(name, **detail)
            run.record(Obligation(name, 'discharged', 'ground', 0.0,
                                  path=self.trace))
            return True
        t0 = time.perf_counter()
        if self.facts and not _has_quant(t):
            # the ground instances usually suffice
            rg = self._ground_unsat(t)
            while not rg and self.lemmas and self.use_lemmas():
                rg = self._ground_unsat(t)
            if rg:
                dt = time.perf_counter() - t0
                run.solver_time += dt
                run.queries += 1
                run.record(Obligation(name, 'discharged', 'z3', dt,
                                      path=self.trace))
                self.assume(t)
                return True
        s = self.solver
        s.push()
        s.set('timeout', run.z3_timeout)
        s.add(z3.Not(t))
        backend = 'z3'
        inputs = None
        model = self.finite_model(z3.Not(t)) if self.facts else None
        r = s.check() if model is None else z3.sat
        if model is not None:
            inputs = self.concretize(model)
        elif r == z3.sat:
            model = s.model()
            inputs = self.concretize(model)
        elif r == z3.unknown and run.use_cvc5:
            r2 = _cvc5(s)
            if r2 == 'unsat':
                r = z3.unsat
                backend = 'cvc5'
        s.pop()
        dt = time.perf_counter() - t0
        run.solver_time += dt
        run.queries += 1
        status = {
            'unsat': 'discharged',
            'sat': 'refuted',
            'unknown': 'unknown'
        }[str(r)]
        run.record(
            Obligation(name, status, backend, dt,
                       model=str(model)[:2000] if model is not None else None,
                       detail=str(detail) if detail else '', path=self.trace,
                       inputs=inputs))
        if status == 'discharged' or status == 'unknown':
            self.assume(t)
            return status == 'discharged'
        # refuted: continue on the part where it holds, if any
        self.assume(t)
        return False

    def fail(self, name, **detail):
        """An obligation that fails whenever this point is reachable."""
        e = sys.exc_info()[1]
        if isinstance(e, (AttributeError, NameError, ImportError,
                          TypeError)):
            # most likely something the ghost objects do not provide
            raise Unsupported(f'{type(e).__name__}: {e}') from e
        model = self.finite_model() if self.facts else None
        r = self._full_feasible() if model is None else 'sat'
        if r == 'unsat':
            raise PathEnd()
        self.run.record(
            Obligation(name, 'refuted' if r == 'sat' else 'unknown', 'z3',
                       0.0, detail=str(detail), path=self.trace,
                       inputs=self.concretize(model) if r == 'sat' else None))
        raise PathEnd()

    def cover(self, name):
        """Reachability (vacuity) check."""
        r = self._full_feasible()
        self.run.cover(name, r)

    def _full_feasible(self):
        self.solver.set('timeout', self.run.z3_timeout)
        t0 = time.perf_counter()
        r = self.solver.check()
        self.run.solver_time += time.perf_counter() - t0
        self.run.queries += 1
        return str(r)

    # -- counterexamples ------------------------------------------------
    def input(self, name, value):
        self.inputs[name] = value
        return value

    def concretize(self, model=None):
        if model is None:
            self.solver.set('timeout', self.run.z3_timeout)
            if self.solver.check() != z3.sat:
                return None
            model = self.solver.model()
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = conc(v, model)
            except Exception as exc:  # pragma: no cover
                out[k] = f'<{exc!r}>'
        return out


def conc(v, model):
    """Concrete Python value of a symbolic input in a model."""
    if hasattr(v, '__conc__'):
        return v.__conc__(model)
    if isinstance(v, z3.ExprRef):
        e = model.eval(v, model_completion=True)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return str(e)
    if isinstance(v, (list, tuple)):
        return [conc(x, model) for x in v]
    if isinstance(v, dict):
        return {k: conc(x, model) for k, x in v.items()}
    return v


def _cvc5(solver):
    try:
        txt = '(set-logic ALL)\n' + solver.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2',
                                         delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(
                ['cvc5', f'--tlimit={CVC5_TIMEOUT}', '--full-saturate-quant',
                 f.name], capture_output=True, text=True,
                timeout=CVC5_TIMEOUT / 1000 + 5, check=False)
            return p.stdout.split('\n')[0].strip()
        finally:
            os.unlink(f.name)
    except Exception:
        return 'error'


class Run:
    """Exploration of every path of one harness."""

    def __init__(self, name, size=None, max_paths=4000, z3_timeout=None,
                 deadline=None, use_cvc5=True):
        self.name = name
        self.size = size
        self.max_paths = max_paths
        self.z3_timeout = z3_timeout or Z3_TIMEOUT
        self.obligations = []
        self.covers = {}
        self.work = [[]]
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.unsupported = []
        self.deadline = deadline
        self.use_cvc5 = use_cvc5
        self.errors = []

    def push(self, prefix):
        self.work.append(list(prefix))

    def record(self, ob):
        self.obligations.append(ob)

    def cover(self, name, r):
        old = self.covers.get(name)
        if old != 'sat':
            self.covers[name] = r

    def execute(self, fn):
        global CUR
        while self.work:
            if self.paths >= self.max_paths:
                self.unsupported.append('path budget exhausted')
                break
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append('time budget exhausted')
                break
            if self.size is None and sum(
                    o.status != 'discharged' for o in self.obligations) > 2:
                break  # not provable as is: left to the bounded runs
            prefix = self.work.pop()
            ctx = Ctx(self, prefix)
            self.paths += 1
            CUR = ctx
            try:
                fn(ctx)
            except PathEnd:
                pass
            except Unsupported as exc:
                self.unsupported.append(
                    str(exc) + ' @ ' + _where(exc))
                if len(self.unsupported) > 5:
                    break
            except Exception as exc:  # engine/harness trouble: undecided
                self.unsupported.append(
                    f'{type(exc).__name__}: {exc} @ ' + _where(exc))
                self.errors.append(traceback.format_exc())
                if len(self.unsupported) > 5:
                    break
            finally:
                CUR = None
        return self

    # -- summary -----------------------------------------------------
    @property
    def refuted(self):
        return [o for o in self.obligations if o.status == 'refuted']

    @property
    def unknown(self):
        return [o for o in self.obligations if o.status == 'unknown']

    @property
    def discharged(self):
        return [o for o in self.obligations if o.status == 'discharged']

    def verdict(self):
        if self.refuted:
            return 'refuted'
        if self.unsupported:
            return 'unsupported'
        if self.unknown:
            return 'unknown'
        if not self.obligations:
            return 'vacuous'
        if any(r != 'sat' for r in self.covers.values()) or not self.covers:
            return 'vacuous'
        return 'proved'


def _where(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    for f in reversed(tb):
        if '/zcollection/' in f.filename:
            return f'{f.filename}:{f.lineno} {f.name}'
    return f'{tb[-1].filename}:{tb[-1].lineno}' if tb else '?'


# ---------------------------------------------------------------------
# Symbolic scalars
# ---------------------------------------------------------------------
class Sym:
    """Base class of symbolic values."""
    __array_ufunc__ = None
    __array_priority__ = 1e9
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


def zint(x):
    """z3 term of an integer-like value (None when not integer-like)."""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, _np.timedelta64):
        return None
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef):
        return x
    return None


def zbool(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    i = zint(x)
    if i is not None:
        return i != 0
    return None


def mkint(t):
    """int when the term is a literal, SymInt otherwise."""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkbool(t):
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(t)


class SymBool(Sym):
    __slots__ = ('t', )

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        o = zbool(o)
        return NotImplemented if o is None else mkbool(z3.And(self.t, o))

    __rand__ = __and__

    def __or__(self, o):
        o = zbool(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.t, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = zbool(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.t, o))

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        o = zbool(o)
        return NotImplemented if o is None else mkbool(self.t == o)

    def __ne__(self, o):
        o = zbool(o)
        return NotImplemented if o is None else mkbool(self.t != o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __conc__(self, model):
        return conc(self.t, model)

    def item(self):
        return self

    def __repr__(self):
        return f'SymBool({self.t})'


TOKEN0 = 0xE000


def _digits(ctx, t, spec):
    """Decimal text of a symbolic int, exact up to the number of digits: one,
    two, or three characters standing for three digits or more."""
    m = _re.fullmatch(r'(0?)(\d*)d?', spec)
    if not m or (m[2] and not m[1]):
        raise Unsupported(f'format {spec!r}')
    w = int(m[2] or 1)
    key = ('run', t.get_id(), w)
    if key not in ctx.tokens:
        sign, u, v = '', t, w
        if ctx.branch(t < 0):
            sign, u, v = '-', -t, max(w - 1, 1)
        n = max(1, min(v, 3))
        while n < 3 and not ctx.branch(u < 10**n):
            n += 1
        ctx.tokens['next'] = k = ctx.tokens.get('next', 0) + n
        run = ''.join(chr(TOKEN0 + k - n + i) for i in range(n))
        ctx.tokens[run] = mkint(u)
        ctx.tokens[key] = (sign + run, t)
    return ctx.tokens[key][0]


def is_token(c):
    return TOKEN0 <= ord(c) < 0xF8FF


def token(value, spec):
    """Opaque character standing for the decimal text of a symbolic int."""
    ctx = cur()
    if ctx.text:
        return _digits(ctx, value.t, spec)
    key = ('tok', value.t.get_id())
    if key not in ctx.tokens:
        ch = chr(TOKEN0 + len(ctx.tokens))
        ctx.tokens[key] = ch
        ctx.tokens[ch] = value
    return ctx.tokens[key]


class SymInt(Sym):
    __slots__ = ('t', )

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        o = zint(o)
        if o is None:
            return NotImplemented
        return mkint(f(self.t, o))

    def _cmp(self, o, f):
        o = zint(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.t, o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        from . import theory
        if isinstance(o, (list, tuple)):
            return theory.repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def _div(self, a, b):
        if branch_true(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        # Python floors; z3 rounds so that the remainder is non-negative.
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        o = zint(o)
        if o is None:
            return NotImplemented
        return mkint(self._div(self.t, o))

    def __rfloordiv__(self, o):
        o = zint(o)
        if o is None:
            return NotImplemented
        return mkint(self._div(o, self.t))

    def __mod__(self, o):
        o = zint(o)
        if o is None:
            return NotImplemented
        return mkint(self.t - o * self._div(self.t, o))

    def __rmod__(self, o):
        o = zint(o)
        if o is None:
            return NotImplemented
        return mkint(o - self.t * self._div(o, self.t))

    def __divmod__(self, o):
        o = zint(o)
        if o is None:
            return NotImplemented
        return sym_divmod(self.t, o)

    def __rdivmod__(self, o):
        o = zint(o)
        if o is None:
            return NotImplemented
        return sym_divmod(o, self.t)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = zint(o)
        if r is None:
            return NotImplemented
        return mkbool(self.t == r)

    def __ne__(self, o):
        r = zint(o)
        if r is None:
            return NotImplemented
        return mkbool(self.t != r)

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def __index__(self):
        v = cur()._memo.get(('fix', self.t.get_id()))
        if v is not None:
            return v
        raise Unsupported('concrete index of a symbolic integer')

    def __int__(self):
        raise Unsupported('concrete int() of a symbolic integer')

    def __format__(self, spec):
        return token(self, spec)

    def __str__(self):
        return token(self, '')

    def __repr__(self):
        return f'SymInt({self.t})'

    def __conc__(self, model):
        return conc(self.t, model)

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    @property
    def dtype(self):
        return _np.dtype('int64')


def branch_true(t):
    return cur().branch(t)


def sym_divmod(a, b):
    """divmod with quotient and remainder as fresh constants."""
    if branch_true(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    ctx = cur()
    q, r = ctx.int('q'), ctx.int('r')
    ctx.assume(a == q * b + r)
    ctx.assume(z3.Implies(b > 0, z3.And(0 <= r, r < b)))
    ctx.assume(z3.Implies(b < 0, z3.And(b < r, r <= 0)))
    ctx.assume(z3.Implies(z3.And(a >= 0, b > 0), q >= 0))
    return mkint(q), mkint(r)


# -- time ---------------------------------------------------------------
#: nanoseconds-free exact ratios between linear units, in the finest unit
LINEAR = {
    'as': 1,
    'fs': 10**3,
    'ps': 10**6,
    'ns': 10**9,
    'us': 10**12,
    'ms': 10**15,
    's': 10**18,
    'm': 60 * 10**18,
    'h': 3600 * 10**18,
    'D': 86400 * 10**18,
    'W': 7 * 86400 * 10**18,
}


def finest(u, v):
    if u == v:
        return u
    if u not in LINEAR or v not in LINEAR:
        raise Unsupported(f'mix of calendar units {u}, {v}')
    return u if LINEAR[u] < LINEAR[v] else v


def rescale(t, u, v):
    """Term in unit u expressed in the finer unit v."""
    if u == v:
        return t
    return t * (LINEAR[u] // LINEAR[v])


def time_parts(x):
    """(term, unit, kind) of a datetime/timedelta value or None."""
    if isinstance(x, SymTime):
        return x.t, x.unit, x.kind
    if isinstance(x, (_np.datetime64, _np.timedelta64)):
        u = _np.datetime_data(x.dtype)[0]
        n = _np.datetime_data(x.dtype)[1]
        if n != 1:
            raise Unsupported('multiple of a time unit')
        if _np.isnat(x):
            raise Unsupported('NaT')
        return z3.IntVal(int(x.astype('int64'))), u, x.dtype.kind
    return None


class SymTime(Sym):
    """numpy.datetime64 (kind 'M') or numpy.timedelta64 (kind 'm')."""
    __slots__ = ('t', 'unit', 'kind')

    def __init__(self, t, unit, kind='M'):
        self.t = t
        self.unit = unit
        self.kind = kind

    @property
    def dtype(self):
        return _np.dtype(f'{self.kind}8[{self.unit}]')

    def _pair(self, o):
        if isinstance(o, (int, _np.integer, SymInt)) and not isinstance(
                o, (bool, _np.timedelta64)):
            return self.t, zint(o), self.unit, 'i'
        p = time_parts(o)
        if p is None:
            return None
        u = finest(self.unit, p[1])
        return rescale(self.t, self.unit, u), rescale(p[0], p[1], u), u, p[2]

    def _cmp(self, o, f):
        p = self._pair(o)
        if p is None or p[3] != self.kind and not (p[3] == 'i'
                                                   and self.kind == 'm'):
            return NotImplemented
        return mkbool(f(p[0], p[1]))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported('hash of a symbolic date')

    def __add__(self, o):
        p = self._pair(o)
        if p is None or (self.kind == 'M' and p[3] == 'M'):
            return NotImplemented
        k = 'M' if 'M' in (self.kind, p[3]) else 'm'
        return SymTime(p[0] + p[1], p[2], k)

    __radd__ = __add__

    def __sub__(self, o):
        p = self._pair(o)
        if p is None or (self.kind == 'm' and p[3] == 'M'):
            return NotImplemented
        k = 'm' if self.kind == p[3] or self.kind == 'm' else 'M'
        return SymTime(p[0] - p[1], p[2], k)

    def __rsub__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        k = 'm' if self.kind == p[3] else 'M'
        return SymTime(p[1] - p[0], p[2], k)

    def __neg__(self):
        return SymTime(-self.t, self.unit, self.kind)

    def __abs__(self):
        return SymTime(z3.If(self.t >= 0, self.t, -self.t), self.unit,
                       self.kind)

    def __floordiv__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        q, _ = sym_divmod(p[0], p[1])
        return SymTime(zint(q), self.unit, 'm') if p[3] == 'i' else q

    def __mul__(self, o):
        i = zint(o)
        if i is None or self.kind != 'm':
            return NotImplemented
        return SymTime(self.t * i, self.unit, 'm')

    __rmul__ = __mul__

    def astype(self, dtype, *_a, **_k):
        from . import theory
        return theory.time_astype(self, dtype)

    def view(self, dtype):
        return mkint(self.t)

    def item(self):
        from . import theory
        return theory.time_item(self)

    def __conc__(self, model):
        return _np.dtype(f'{self.kind}8[{self.unit}]').type(
            conc(self.t, model), self.unit)

    def __repr__(self):
        return f'SymTime({self.t},{self.unit})'

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)


class SymEnumMixin:
    pass


def ite(c, a, b):
    """Merge of two scalars."""
    if isinstance(c, bool):
        return a if c else b
    c = zbool(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    ta, tb = time_parts(a), time_parts(b)
    if ta and tb:
        u = finest(ta[1], tb[1])
        return SymTime(
            z3.If(c, rescale(ta[0], ta[1], u), rescale(tb[0], tb[1], u)), u,
            ta[2])
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(
            b, (SymBool, bool, _np.bool_)):
        return mkbool(z3.If(c, zbool(a), zbool(b)))
    ia, ib = zint(a), zint(b)
    if ia is not None and ib is not None:
        return mkint(z3.If(c, ia, ib))
    if hasattr(a, '__ite__'):
        return a.__ite__(c, b)
    # fork
    return a if branch_true(c) else b
