"""Symbolic execution core: path exploration by re-execution, decided by z3.

Values
------
SymBool   a z3 Bool; asking for its truth value is a *decision* (a fork)
SymInt    a z3 Int (Python ints are unbounded, so mathematical integers)
SymStr    a sequence of characters of a known length (lengths are forked when
          an input is created); each character is a concrete 1-character
          string or a SymChar, that is a z3 bit-vector variable over a finite
          alphabet, possibly seen through a character mapping (e.g. lower()).

A run of a harness is repeated once per feasible path. Each decision asks the
solver whether the branch condition and its negation are satisfiable together
with the path condition; infeasible branches are never taken, and feasible
alternatives are explored later (depth first).
"""
import sys
import time

from . import z3load

z3 = None
_sat = _unsat = _raw = None


class _Raw:
    """The C functions, without the error check after each call"""

    def __init__(self, z3core):
        for n in ('push', 'pop', 'assert', 'check'):
            n = 'Z3_solver_' + n
            setattr(self, n, getattr(z3core, n).__defaults__[0].f)


def init_z3():
    global z3, _sat, _unsat, _raw
    if z3 is None:
        z3 = z3load.load()
        _raw = _Raw(z3.z3core)
        _sat, _unsat = z3.sat, z3.unsat
    return z3


WIDTH = 21      # a Unicode code point


class PathAbort(BaseException):
    """The current path is cut (assumption not satisfiable)."""


PATH_SECONDS = 45    # a path which takes longer is given up and replayed


class PathBudget(BaseException):
    """The current path exceeded its step budget."""


class EngineError(BaseException):
    """Something the engine cannot represent."""


class Violation(BaseException):
    """A property assertion that can fail on the current path."""

    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class Unknown(BaseException):
    """The solver answered unknown."""


class Decision:
    __slots__ = ('key', 'value', 'pending', 'pushed', 'cand', 'expr',
                 'build', 'taint')

    def __init__(self, key, value, pending, pushed, cand=None, expr=None,
                 build=None, taint=None):
        self.key = key
        self.value = value
        self.pending = pending      # the other side is to be explored
        self.pushed = pushed        # part of the path condition
        self.cand = cand            # the candidate value, in a concretisation
        self.expr = expr
        self.build = build          # gives expr, when it is needed
        self.taint = taint          # variables in a non-unary constraint

    def asserted(self):
        e = self.expr
        if e is None:
            e = self.expr = self.build()
        return e if self.value else z3.Not(e)


class Var:
    """A symbolic character variable"""
    __slots__ = ('name', 'idx', 'expr', 'alpha')

    def __init__(self, name, idx, expr, alpha):
        self.name = name
        self.idx = idx
        self.expr = expr
        self.alpha = alpha          # frozenset of 1-char strings


class Engine:
    """Explores all paths of one harness below a prefix of decisions."""

    def __init__(self, max_steps=400000):
        init_z3()
        self.solver = z3.SimpleSolver()
        self.solver.set('random_seed', 0)
        self.solver.set('timeout', 60000)
        self.cref = self.solver.ctx.ref()
        self.sref = self.solver.solver
        self.vars = []
        self.trace = []
        self.max_steps = max_steps
        # caches which live over paths
        self.vars_by_name = {}
        self.set_exprs = {}
        self.var_cache = {}
        self.by_expr = {}
        self.groups = []
        self.nsync = 0
        self.ints_by_name = {}
        # statistics
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.sat_paths = 0
        self.checks = 0
        self.concretised = {}
        self.reset_path()

    # ---- per path state
    def reset_path(self):
        self.pos = 0
        self.path_end = time.time() + PATH_SECONDS
        self.dom = {}
        self.taint = set()
        self.inputs = {}       # name -> ('str'|'int'|..., value)
        self.steps = 0
        self.symkeys = False
        self.kwsent = {}
        self.fresh = 0
        self.path_checks = 0
        self.ranks = []         # of digests
        self.files = {}         # files with symbolic contents

    # ---- solver
    def _sync(self):
        """Assert the part of the path condition which is not yet known to
        the solver. Decisions are asserted in groups, one push each."""
        pos = min(self.pos, len(self.trace))
        if self.nsync >= pos:
            return
        first = True
        for d in self.trace[self.nsync:pos]:
            # unary constraints of characters are in the domains
            if d.taint is not None:
                if first:
                    self._push()
                    self.groups.append(self.nsync)
                    first = False
                self._add(d.asserted())
        self.nsync = pos

    # the raw API: these calls are the most frequent ones
    def _push(self):
        _raw.Z3_solver_push(self.cref, self.sref)

    def _pop(self):
        _raw.Z3_solver_pop(self.cref, self.sref, 1)

    def _add(self, e):
        _raw.Z3_solver_assert(self.cref, self.sref, e.ast)

    def _add_domains(self):
        vs = self.vars
        for idx, dom in self.dom.items():
            self._add(self.set_expr(vs[idx], dom))

    def _unsync(self, i):
        """Retract the groups which contain decision i or a later one"""
        while self.nsync > i and self.groups:
            start = self.groups.pop()
            self._pop()
            self.nsync = min(start, self.nsync)
        if not self.groups:
            self.nsync = 0

    def _check(self):
        t = time.perf_counter()
        r = _raw.Z3_solver_check(self.cref, self.sref)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == 1:
            return True
        if r == -1:
            return False
        raise Unknown(self.solver.reason_unknown())

    def _feasible(self, expr):
        self._sync()
        self._push()
        self._add_domains()
        self._add(expr)
        try:
            return self._check()
        finally:
            self._pop()

    def step(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise PathBudget()
        if not self.steps & 127 and time.time() > self.path_end:
            raise PathBudget()

    def decide(self, key, build, prefer=True, cand=None, free=None):
        """Decide a condition. `build` gives its z3 expression. free: the
        variables, if the condition is a conjunction of unary constraints,
        each of them satisfiable and refutable."""
        self.step()
        pos = self.pos
        if pos < len(self.trace):
            d = self.trace[pos]
            if d.key is None:
                # a prefix handed over by another worker
                d.key = key
                d.build = build
                self._set_taint(d, free)
            elif d.key != key:
                raise EngineError('nondeterministic harness: %r vs %r at %d'
                                  % (d.key, key, pos))
            self.pos += 1
            if d.taint:
                self.taint |= d.taint
            return d.value
        if free is not None and not (self.taint and
                                     any(v in self.taint for v in free)):
            d = Decision(key, prefer, True, True, cand, None, build)
        else:
            e = build()
            if z3.is_true(e):
                can_t, can_f = True, False
            elif z3.is_false(e):
                can_t, can_f = False, True
            else:
                can_t = self._feasible(e)
                can_f = self._feasible(z3.Not(e)) if can_t else True
            if can_t and can_f:
                d = Decision(key, prefer, True, True, cand, e, build)
            else:
                d = Decision(key, can_t, False, False, cand)
        self._set_taint(d, free)
        if d.taint:
            self.taint |= d.taint
        self.trace.append(d)
        self.pos += 1
        return d.value

    def _set_taint(self, d, free):
        d.taint = None
        if not d.pushed:
            return
        if free is None:
            if d.expr is None:
                d.expr = d.build()
            d.taint = self.vars_of(d.expr)
        elif len(free) > 1 and not d.value:
            d.taint = frozenset(free)

    def vars_of(self, e):
        """indices of the character variables of an expression"""
        k = e.get_id()
        r = self.var_cache.get(k)
        if r is None:
            seen = set()
            out = set()
            todo = [e]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(x):
                    v = self.by_expr.get(i)
                    if v is not None:
                        out.add(v.idx)
                else:
                    todo.extend(x.children())
            r = (frozenset(out), e)
            self.var_cache[k] = r
        return r[0]

    def decide_expr(self, e, prefer=True):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.decide(('e', e.get_id(), _Keep(e)), lambda: e, prefer)

    def assume_expr(self, e, key=None):
        """Cut the path unless e; explores only the e side."""
        unary = key is not None
        if not unary:
            key = ('a', e.get_id(), _Keep(e))
        pos = self.pos
        if pos < len(self.trace):
            d = self.trace[pos]
            if d.key is None:
                d.key = key
                d.expr = e
                d.taint = None if unary else self.vars_of(e)
            elif d.key != key:
                raise EngineError('nondeterministic harness (assume)')
        else:
            if not unary and not self._feasible(e):
                raise PathAbort()
            d = Decision(key, True, False, True, None, e, None,
                         None if unary else self.vars_of(e))
            self.trace.append(d)
        if d.taint:
            self.taint |= d.taint
        self.pos += 1

    def backtrack(self):
        """Prepare the next path. False if there is none."""
        while self.trace:
            d = self.trace[-1]
            if d.key is None:
                # prefix entry which was never reached: drop
                self.trace.pop()
                continue
            if d.pending:
                self._unsync(len(self.trace) - 1)
                d.value = not d.value
                d.pending = False
                if d.taint is None and d.key[0] == 's' and not d.value:
                    d.taint = frozenset(i for i, _ in d.key[1:])
                elif d.key[0] == 's' and d.value:
                    d.taint = None
                return True
            self.trace.pop()
        self._unsync(0)
        return False

    def pending_prefixes(self):
        """The decision prefixes which remain to be explored; used to share
        work with other processes."""
        out = []
        for i, d in enumerate(self.trace):
            if d.pending:
                out.append([(x.value, x.pushed, x.cand)
                            for x in self.trace[:i]]
                           + [(not d.value, True, d.cand)])
        return out

    def load_prefix(self, prefix):
        self.trace = [Decision(None, v, False, p, c) for v, p, c in prefix]

    # ---- variables
    def char(self, name, alpha):
        """alpha: a frozenset"""
        k = (name, alpha)
        v = self.vars_by_name.get(k)
        if v is None:
            v = Var(name, len(self.vars_by_name),
                    z3.BitVec(name, WIDTH), alpha)
            self.vars_by_name[k] = v
            self.vars.append(v)
            self.by_expr[v.expr.get_id()] = v
        # the domain constraint
        self.dom[v.idx] = alpha
        self.assume_expr(self.set_expr(v, alpha), ('d', v.idx))
        return v

    def set_expr(self, v, chars):
        k = (v.idx, chars)
        e = self.set_exprs.get(k)
        if e is None:
            cps = sorted(map(ord, chars))
            rngs = []
            for c in cps:
                if rngs and rngs[-1][1] == c - 1:
                    rngs[-1][1] = c
                else:
                    rngs.append([c, c])
            x = v.expr
            parts = []
            for a, b in rngs:
                if a == b:
                    parts.append(x == a)
                else:
                    parts.append(z3.And(z3.UGE(x, a), z3.ULE(x, b)))
            e = (z3.BoolVal(False) if not parts else
                 parts[0] if len(parts) == 1 else z3.Or(*parts))
            self.set_exprs[k] = e
        return e

    def char_in(self, v, chars):
        """Decide whether the variable is one of chars (a frozenset of base
        characters)."""
        dom = self.dom[v.idx]
        t = dom & chars
        if not t:
            return False
        if len(t) == len(dom):
            return True
        r = self.decide(('c', v.idx, t), lambda: self.set_expr(v, t),
                        free=(v.idx,))
        self.dom[v.idx] = t if r else dom - t
        return r

    def conj(self, key):
        """Decide whether every variable is in its set; key is a list of
        (variable, set of base characters)"""
        k = ('s',) + tuple([(v.idx, t) for v, t in key])

        def build():
            e = self.set_exprs.get(k)
            if e is None:
                e = z3.And(*[self.set_expr(v, t) for v, t in key])
                self.set_exprs[k] = e
            return e
        r = self.decide(k, build, free=tuple([v.idx for v, t in key]))
        if r:
            for v, t in key:
                self.dom[v.idx] = self.dom[v.idx] & t
        return r

    # ---- models
    def model(self, extra=None):
        self._sync()
        self._push()
        self._add_domains()
        if extra is not None:
            self._add(extra)
        try:
            if not self._check():
                return None
            return self.solver.model()
        finally:
            self._pop()

    def entails(self, e):
        """(holds, model of a counterexample): is e implied by the path
        condition?"""
        self.checks += 1
        self.path_checks += 1
        if e is True or (not isinstance(e, bool) and z3.is_true(e)):
            return True, None
        neg = (z3.BoolVal(True) if e is False else z3.Not(e))
        m = self.model(neg)
        return (m is None), m

    def confirm(self):
        """The solver's verdict on the path condition itself"""
        self._sync()
        self._push()
        self._add_domains()
        try:
            ok = self._check()
        finally:
            self._pop()
        if not ok:
            raise EngineError('infeasible path explored')

    def note_concretise(self, what):
        self.concretised[what] = self.concretised.get(what, 0) + 1


class _Keep:
    """Keeps a z3 expression alive (AST ids may be reused otherwise); equal
    to any other one, as the id next to it is what is compared."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 0


ENG = None          # the engine of the run


def set_engine(e):
    global ENG
    ENG = e


# ------------------------------------------------------------------ values

class Sym:
    """Base class of symbolic values"""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('e',)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide_expr(self.e)

    def __and__(self, o):
        return mk_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return mk_or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return mk_not(self)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mk_not(self)
        return bool(self) == o

    def __ne__(self, o):
        return mk_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return '<SymBool>'

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    """z3 expression of a (possibly symbolic) truth value"""
    if type(b) is SymBool:
        return b.e
    return z3.BoolVal(bool(b))


def mk_and(*bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b.e)
        elif not b:
            return False
    if not out:
        return True
    return SymBool(out[0] if len(out) == 1 else z3.And(*out))


def mk_or(*bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b.e)
        elif b:
            return True
    if not out:
        return False
    return SymBool(out[0] if len(out) == 1 else z3.Or(*out))


def mk_not(b):
    if type(b) is SymBool:
        return SymBool(z3.Not(b.e))
    return not b


def mk_implies(a, b):
    return mk_or(mk_not(a), b)


class SymInt(Sym):
    __slots__ = ('e', '_idhash')
    __class__ = property(lambda self: int)

    def __init__(self, e):
        self.e = e
        self._idhash = False

    @staticmethod
    def lift(o):
        if type(o) is SymInt:
            return o.e
        if type(o) is SymBool:
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, int):
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f):
        x = SymInt.lift(o)
        if x is None:
            if isinstance(o, float):
                return f(SymReal(z3.ToReal(self.e)), o)
            return NotImplemented
        return mkint(f(self.e, x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: b * a)

    def __floordiv__(self, o):
        # z3's div rounds towards minus infinity for positive divisors
        if isinstance(o, int) and type(o) is not SymInt and o > 0:
            return self._bin(o, lambda a, b: a / b)
        return self.__index__() // o

    def __mod__(self, o):
        if isinstance(o, int) and type(o) is not SymInt and o > 0:
            return self._bin(o, lambda a, b: a % b)
        return self.__index__() % o

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.e))

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def _cmp(self, o, f, other):
        x = SymInt.lift(o)
        if x is None:
            if isinstance(o, float):
                return f(SymReal(z3.ToReal(self.e)), o)
            return other
        return mkbool(z3.simplify(f(self.e, x)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, NotImplemented)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, NotImplemented)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __bool__(self):
        return ENG.decide_expr(self.e != 0)

    def __index__(self):
        return concretise_int(self)
    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __ceil__(self):
        return self
    __floor__ = __ceil__

    def __round__(self, n=None):
        return self

    def __hash__(self):
        if self._idhash:
            # a key of a dict (see rt.d_find)
            return id(self)
        return hash(self.__index__())

    def __repr__(self):
        return '<SymInt>'

    def bit_length(self):
        return self.__index__().bit_length()

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def concretise_int(s, limit=4000):
    ENG.note_concretise('int')
    for _ in range(limit):
        # candidate from a model; deterministic on replay because the
        # solver stack is the same only for new decisions: so keep the
        # candidate in the decision key
        pos = ENG.pos
        if pos < len(ENG.trace):
            v = ENG.trace[pos].cand
        else:
            m = ENG.model()
            if m is None:
                raise PathAbort()
            v = m.eval(s.e, model_completion=True).as_long()
        if ENG.decide(('v', s.e.get_id(), _Keep(s.e), v),
                      lambda: s.e == v, cand=v):
            return v
    raise EngineError('too many values')


class SymReal(Sym):
    __slots__ = ('e',)
    __class__ = property(lambda self: float)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def lift(o):
        if type(o) is SymReal:
            return o.e
        if type(o) is SymInt:
            return z3.ToReal(o.e)
        if isinstance(o, (int, float)):
            from fractions import Fraction
            f = Fraction(o)
            return z3.RealVal(f.numerator) / z3.RealVal(f.denominator)
        return None

    def _bin(self, o, f):
        x = SymReal.lift(o)
        if x is None:
            return NotImplemented
        return SymReal(f(self.e, x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        return SymReal(z3.If(self.e < 0, -self.e, self.e))

    def _cmp(self, o, f, other):
        x = SymReal.lift(o)
        if x is None:
            return other
        return mkbool(z3.simplify(f(self.e, x)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, NotImplemented)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, NotImplemented)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, NotImplemented)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, NotImplemented)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __bool__(self):
        return ENG.decide_expr(self.e != 0)

    def __hash__(self):
        raise EngineError('hash of a symbolic real')

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __ceil__(self):
        f = z3.ToInt(self.e)
        return mkint(z3.simplify(z3.If(z3.ToReal(f) == self.e, f, f + 1)))

    def __trunc__(self):
        f = z3.ToInt(self.e)
        return mkint(z3.If(z3.And(self.e < 0, z3.ToReal(f) != self.e),
                           f + 1, f))
    __int__ = __trunc__

    def __float__(self):
        m = ENG.model()
        v = m.eval(self.e, model_completion=True)
        raise EngineError('concrete float needed of a symbolic real (%s)' % v)

    def __repr__(self):
        return '<SymReal>'
