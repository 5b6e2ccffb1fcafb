"""The interface harnesses use. The same harness runs symbolically (SymCtx) and
concretely, on the unmodified code (ConcCtx)."""
import importlib
import os
import pathlib
import shutil
import string
import sys
import tempfile

from . import core, symhash
from .core import (SymInt, SymBool, SymReal, Violation, PathAbort, mkbool,
                   mk_and, mk_or, mk_not, bexpr)
from .symstr import (SymStr, SymChar, mk, is_str, chars_of, seq_eq_expr,
                     class_set)

REGISTRY = {}       # name -> Harness

# ------------------------------------------------------------- alphabets
ASCII = frozenset(c for c in string.printable if c not in '\x0b\x0c\r')
PRINT = frozenset(c for c in string.printable
                  if c not in '\x0b\x0c\r\t\n')
LINE = PRINT | frozenset('\t')
WIDE = ASCII | frozenset('\u00e9\u00df\u00a0\u2013\u2014\u2019\u00a7\u4e2d')
LOWER = frozenset(string.ascii_lowercase)
WORD = frozenset(string.ascii_letters + string.digits + '_')


class Harness:
    def __init__(self, f, prop, name, quick, thorough, doc, seconds):
        self.f = f
        self.prop = prop
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.doc = doc
        self.seconds = seconds


def harness(prop, quick, thorough=None, name=None, max_steps=None):
    """Register a harness. quick and thorough are lists of parameter dicts;
    each is explored exhaustively."""
    def deco(f):
        n = name or f.__name__
        h = Harness(f, prop, prop + '.' + n, quick, thorough or quick,
                    (f.__doc__ or '').strip(), None)
        h.max_steps = max_steps or 400000
        assert h.name not in REGISTRY, h.name
        REGISTRY[h.name] = h
        return f
    return deco


def deep_eq(a, b):
    """bool or SymBool: structural equality without forking"""
    if a is b:
        return True
    if is_str(a) or is_str(b):
        if not (is_str(a) and is_str(b)):
            return False
        return seq_eq_expr(list(chars_of(a)), list(chars_of(b)))
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or isinstance(
                a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return mk_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        # same keys in the same order
        ka, kb = list(a.keys()), list(b.keys())
        if len(ka) != len(kb):
            return False
        return mk_and(*([deep_eq(x, y) for x, y in zip(ka, kb)] +
                        [deep_eq(x, y) for x, y in zip(
                            dict.values(a), dict.values(b))]))
    r = (a == b)
    return r


class Ctx:
    symbolic = False

    def eq(self, a, b):
        return deep_eq(a, b)

    def all(self, *bs):
        return mk_and(*bs)

    def any(self, *bs):
        return mk_or(*bs)

    def neg(self, b):
        return mk_not(b)

    def implies(self, a, b):
        return mk_or(mk_not(a), b)

    def check_eq(self, a, b, msg):
        return self.check(deep_eq(a, b), msg, got=a, expected=b)

    def fail(self, msg, **details):
        self.check(False, msg, **details)

    def file(self, path, content):
        """Create a file with the given (symbolic) contents"""
        p = pathlib.Path(path)
        if type(content) is SymStr:
            p.write_text('symbolic')
            symhash.register(p, content)
        else:
            p.write_bytes(content.encode('utf-8', 'surrogateescape'))
            if self.symbolic:
                core.ENG.files.pop(symhash.key(p), None)
        return p

    def scratch(self):
        """A scratch directory, removed at the end of the run"""
        d = tempfile.mkdtemp(prefix='sx-')
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []
        for undo in reversed(self._undo):
            undo()
        self._undo = []

    def patch(self, obj, name, value):
        """Replace an attribute for the duration of the run (stubs)"""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(
            obj, '__dict__') else getattr(obj, name)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._undo.append(undo)
        setattr(obj, name, value)


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.inputs = {}
        self.obs = []
        self._dirs = []
        self._undo = []

    # ---- inputs
    def str(self, name, n, alpha=ASCII, first=None, tail=None):
        """A string of length n, or of any length lo..hi if n is a pair.
        first/tail: other alphabets for the first/other characters."""
        assert name not in self.inputs
        if isinstance(n, tuple):
            n = self._length(name, *n)
        chars = []
        for i in range(n):
            a = first if (first is not None and i == 0) else alpha
            chars.append(SymChar(self.eng.char('%s[%d]' % (name, i),
                                               frozenset(a))))
        s = mk(chars)
        self.inputs[name] = s
        return s

    def _length(self, name, lo, hi):
        # a fresh variable: every value is feasible
        e = core.z3.Int(name + '.len')
        for v in range(lo, hi):
            if self.eng.decide(('len', name, v), lambda: e == v, free=()):
                return v
        return hi

    def int(self, name, lo=None, hi=None):
        assert name not in self.inputs
        if lo is not None and lo == hi:
            self.inputs[name] = lo
            return lo
        e = core.z3.Int(name)
        cs = []
        if lo is not None:
            cs.append(e >= lo)
        if hi is not None:
            cs.append(e <= hi)
        if cs:
            self.eng.assume_expr(core.z3.And(*cs))
        v = SymInt(e)
        self.inputs[name] = v
        return v

    def bool(self, name):
        assert name not in self.inputs
        v = SymBool(core.z3.Bool(name))
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        """One of the options (forks)"""
        options = list(options)
        e = core.z3.Int(name + '.choice')
        n = len(options)
        r = n - 1
        for i in range(n - 1):
            if self.eng.decide(('choice', name, i), lambda: e == i, free=()):
                r = i
                break
        self.inputs[name] = r
        return options[r]

    # ---- assumptions and assertions
    def assume(self, cond):
        if type(cond) is SymBool:
            self.eng.assume_expr(cond.e)
        elif not cond:
            raise PathAbort()

    def check(self, cond, msg, **details):
        if type(cond) is not SymBool:
            cond = bool(cond)
        ok, m = self.eng.entails(cond.e if type(cond) is SymBool else cond)
        if not ok:
            self.details = details
            raise Violation(msg, m)
        return True

    def observe(self, *vals):
        """Values compared with those of a concrete run of the same input"""
        self.obs.append(vals)


class AssumeFailed(BaseException):
    pass


class Beyond(BaseException):
    """The run needs an input which the path did not have"""


class Values(dict):
    def __missing__(self, name):
        raise Beyond(name)


class ConcCtx(Ctx):
    def __init__(self, inputs):
        self.values = Values(inputs)
        self.obs = []
        self._dirs = []
        self._undo = []
        self.nchecks = 0

    def str(self, name, n, alpha=ASCII, first=None, tail=None):
        return self.values[name]

    def int(self, name, lo=None, hi=None):
        return self.values[name]

    def bool(self, name):
        return self.values[name]

    def choice(self, name, options):
        return list(options)[self.values[name]]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg, **details):
        self.nchecks += 1
        if not cond:
            self.details = details
            raise Violation(msg)
        return True

    def observe(self, *vals):
        self.obs.append(vals)


def model_value(x, m, depth=16):
    """Concrete value of a symbolic one in a model"""
    z3 = core.z3
    t = type(x)
    if t is SymStr:
        out = []
        for c in x.chars:
            if type(c) is str:
                out.append(c)
            elif type(c) is symhash.DigestChar:
                out.append(c.value(m, model_value))
            else:
                v = chr(m.eval(c.var.expr, model_completion=True).as_long())
                out.append(v if c.map is None else c.map[v])
        return ''.join(out)
    if t is SymInt:
        return m.eval(x.e, model_completion=True).as_long()
    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is SymReal:
        v = m.eval(x.e, model_completion=True)
        return float(v.as_fraction())
    if t in (list, tuple) and depth:
        return [model_value(y, m, depth - 1) for y in x]
    if isinstance(x, dict) and depth:
        return {'dict': [[model_value(k, m, depth - 1),
                          model_value(v, m, depth - 1)]
                         for k, v in dict.items(x)]}
    return plain(x)


def plain(x, depth=16):
    """A JSON form of a concrete value"""
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (list, tuple)) and depth:
        return [plain(y, depth - 1) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, dict) and depth:
        return {'dict': [[plain(k, depth - 1), plain(v, depth - 1)]
                         for k, v in dict.items(x)]}
    if isinstance(x, type):
        return '<class %s>' % x.__name__
    return '<%s>' % type(x).__name__


def load_harnesses(prop):
    """Import the harness module of a property"""
    mod = 'harness.' + prop.lower()
    importlib.import_module(mod)
    return [h for h in REGISTRY.values() if h.prop == prop]
