"""Run-time of the transformed code: operations with possibly symbolic
operands."""
import builtins
import itertools
import operator
import os
import pathlib
import shutil
import string as _string
import sys
import types

from . import core, symstr, rx, symhash
from .core import (Sym, SymBool, SymInt, SymReal, EngineError, mkint)
from .symstr import SymStr, mk, chars_of, is_str, concretise, join, ch_is
from .symhash import SymBytes

TRANSFORMED = set()     # names of transformed modules
COV = []                # functions entered
COVNAMES = []
SYMT = (SymStr, SymInt, SymBool, SymReal, SymBytes)

MethodType = types.MethodType
FunctionType = types.FunctionType
_bcode = type(str.strip.__code__) if hasattr(str.strip, '__code__') else None


def new_cov(name):
    COV.append(0)
    COVNAMES.append(name)
    return len(COV) - 1


def enter(k):
    COV[k] = 1
    if core.ENG is not None:
        core.ENG.step()


def tick():
    if core.ENG is not None:
        core.ENG.step()


def is_sym(x):
    return type(x) in SYMT


def any_sym(a, kw):
    for x in a:
        if type(x) in SYMT:
            return True
    if kw:
        for x in kw.values():
            if type(x) in SYMT:
                return True
    return False


def has_sym(x, depth=4):
    t = type(x)
    if t in SYMT:
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1)
                   for k, v in dict.items(x))
    return False


def conc(x, what='opaque', depth=4):
    """Concretise (forking over the values) everything symbolic in x."""
    t = type(x)
    if t is SymStr:
        return concretise(x, what)
    if t is SymInt:
        return x.__index__()
    if t is SymBool:
        return bool(x)
    if t is SymReal:
        return float(x)
    if t is SymBytes:
        return symhash.concretise_bytes(x)
    if depth and t in (list, tuple, set, frozenset) and has_sym(x, depth):
        return t(conc(y, what, depth - 1) for y in x)
    if depth and t is dict and has_sym(x, depth):
        return {conc(k, what, depth - 1): conc(v, what, depth - 1)
                for k, v in x.items()}
    return x


# --------------------------------------------------------------- functions

def _is_builtin_func(f):
    return type(getattr(f, '__code__', None)) is _bcode


def _transformed(f):
    g = getattr(f, '__globals__', None)
    return g is not None and '_sx_rt' in g


PASS = {getattr(builtins, n) for n in (
    'len isinstance issubclass iter next enumerate zip reversed any all abs '
    'sum min max tuple list range callable divmod round id print '
    'property staticmethod classmethod object slice').split()}
PASS_MODULES = {'itertools', 'operator', 'functools', 'copy', 'weakref',
                'collections', 'abc', 'math', '_operator', '_functools',
                '_weakref', '_collections', 'types', 'contextlib', 'logging',
                'disseminate'}

SELF = set()


def call(f, /, *a, **kw):
    tf = type(f)
    if tf is MethodType:
        func = f.__func__
        if _is_builtin_func(func):
            return bound_builtin(f.__self__, func.__name__, func, f, a, kw)
        if _transformed(func):
            return f(*a, **kw)
        return opaque(f, a, kw)
    if tf is FunctionType:
        if _transformed(f):
            return f(*a, **kw)
        if _is_builtin_func(f):
            m = MODELS.get(f)
            if m is not None:
                return m(*a, **kw)
            # an unbound method of a builtin type: str.strip, dict.__init__
            if a:
                return bound_builtin(a[0], f.__name__, f, None, a[1:], kw)
            return f(*a, **kw)
        return opaque(f, a, kw)
    if isinstance(f, type):
        return call_class(f, a, kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **kw)
    try:
        if f in PASS:
            return f(*a, **kw)
    except TypeError:
        pass
    # callable objects with a python __call__
    c = getattr(tf, '__call__', None)
    if type(c) is FunctionType and _transformed(c):
        return f(*a, **kw)
    return opaque(f, a, kw)


def call_class(cls, a, kw):
    m = MODELS.get(cls)
    if m is not None:
        return m(*a, **kw)
    if cls in PASS:
        return cls(*a, **kw)
    mod = cls.__module__
    if mod in TRANSFORMED or issubclass(cls, BaseException):
        return cls(*a, **kw)
    return opaque(cls, a, kw)


def opaque(f, a, kw):
    """Code which is not transformed"""
    mod = getattr(f, '__module__', None) or ''
    top = mod.split('.')[0]
    if top in ('re', 'regex') and getattr(f, '__name__', '') in _re_funcs:
        return re_func(f, a, kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **kw)
    g = getattr(f, '__func__', None)
    if core.ENG is not None and core.ENG.files is not None and g in FILEM:
        return FILEM[g](f.__self__, *a, **kw)
    if top in PASS_MODULES:
        return f(*a, **kw)
    if top == 'symex' or top == 'harness':
        return f(*a, **kw)
    symbolic = False
    for x in a:
        if has_sym(x):
            symbolic = True
    for x in kw.values():
        if has_sym(x):
            symbolic = True
    if symbolic:
        what = '%s.%s' % (mod, getattr(f, '__qualname__',
                                       getattr(f, '__name__', f)))
        a = [conc(x, what) for x in a]
        kw = {k: conc(v, what) for k, v in kw.items()}
    return f(*a, **kw)


def mcall(o, name, /, *a, **kw):
    t = type(o)
    if t is SymStr:
        m = getattr(SymStr, name, None)
        if m is None or name not in _str_methods:
            if not hasattr(str, name):
                raise AttributeError(
                    "'str' object has no attribute '%s'" % name)
            core.ENG.note_concretise('str.' + name)
            return getattr(concretise(o), name)(*a, **kw)
        return m(o, *a, **kw)
    if t is str:
        return str_method(o, name, a, kw)
    if t.__name__ == 'Pattern' and rx.is_pattern(o):
        return pattern_method(o, name, a, kw)
    return call(getattr(o, name), *a, **kw)


def call_kw(f, a, kw):
    return call(f, *a, **hidekw(kw))


def mcall_kw(o, name, a, kw):
    return mcall(o, name, *a, **hidekw(kw))


def hidekw(kw):
    """Replace symbolic keyword names by placeholders"""
    if core.ENG is None or not core.ENG.symkeys:
        return kw
    if not any(type(k) is SymStr for k in kw):
        return kw
    out = {}
    for k, v in kw.items():
        if type(k) is SymStr:
            p = '\ue000kw%d' % len(core.ENG.kwsent)
            core.ENG.kwsent[p] = k
            k = p
        out[k] = v
    return out


def fixkw(kw):
    if core.ENG is None or not core.ENG.kwsent:
        return kw
    if not any(k[:1] == '\ue000' for k in kw if type(k) is str):
        return kw
    out = {}
    for k, v in kw.items():
        if type(k) is str and k in core.ENG.kwsent:
            k = core.ENG.kwsent[k]
        d_set(out, k, v)
    return out


_str_methods = {n for n in dir(SymStr)
                if not n.startswith('_') or n in
                ('__add__', '__eq__', '__contains__', '__getitem__',
                 '__len__', '__iter__', '__mul__', '__ne__', '__lt__')}
_str_methods -= {'chars'}


def str_method(o, name, a, kw):
    if name == 'join':
        it = list(a[0])
        for x in it:
            if type(x) is SymStr:
                return join(o, it)
        return o.join(it)
    if name == 'format':
        return str_format(o, a, kw)
    if name == 'format_map':
        return str_format(o, (), a[0])
    if any_sym(a, kw) or (a and type(a[0]) is tuple and has_sym(a[0])):
        if name in _str_methods:
            return getattr(SymStr(list(o)), name)(*a, **kw)
        a = [conc(x, 'str.' + name) for x in a]
    return getattr(o, name)(*a, **kw)


def bound_builtin(self, name, func, bound, a, kw):
    """A method of a builtin type, called on self"""
    if type(self) is SymStr or isinstance(self, str):
        if type(self) is SymStr:
            return mcall(self, name, *a, **kw)
        if bound is None and name not in ('__new__',):
            return str_method(self, name, a, kw)
        if type(self) is str:
            return str_method(self, name, a, kw)
    elif type(self) in SYMT:
        return getattr(self, name)(*a, **kw)
    elif isinstance(self, dict):
        if name in DICT:
            r = DICT[name](self, a, kw)
            return r
    elif isinstance(self, (set, frozenset)):
        if name in SETM and (core.ENG is not None):
            return SETM[name](self, a, kw)
    elif isinstance(self, list) and name == 'sort':
        key = kw.get('key')
        if key is not None:
            kw = dict(kw, key=lambda x: call(key, x))
    elif isinstance(self, (list, tuple)):
        pass
    elif isinstance(self, type):
        # class methods of builtin types, e.g. dict.fromkeys
        if name == 'fromkeys' and issubclass(self, dict):
            d = self()
            for k in a[0]:
                d_set(d, k, a[1] if len(a) > 1 else None)
            return d
        if name == '__new__' or name == 'mro':
            pass
        elif any_sym(a, kw):
            return opaque(bound if bound is not None else
                          (lambda *x, **y: func(self, *x, **y)), a, kw)
    elif isinstance(self, types.ModuleType):
        pass
    else:
        mod = type(self).__module__.split('.')[0]
        if mod not in PASS_MODULES and mod not in (
                'builtins', '__builtin__') and any_sym(a, kw):
            what = '%s.%s' % (type(self).__name__, name)
            a = [conc(x, what) for x in a]
            kw = {k: conc(v, what) for k, v in kw.items()}
    if bound is not None:
        return bound(*a, **kw)
    return func(self, *a, **kw)


# --------------------------------------------------------------------- dict

def d_find(d, k):
    """(found, key) of a possibly symbolic key"""
    if type(k) is SymStr:
        for key in list(dict.keys(d)):
            if key is k:
                return True, key
            if is_str(key) and len(key) == len(k) and k == key:
                return True, key
        return False, k
    if type(k) is SymInt:
        for key in list(dict.keys(d)):
            if key is k:
                return True, key
            if type(key) in (int, SymInt) and k == key:
                return True, key
        return False, k
    if dict.__contains__(d, k):
        return True, k
    if core.ENG is not None and core.ENG.symkeys and type(k) is int:
        for key in list(dict.keys(d)):
            if type(key) is SymInt and key == k:
                return True, key
    if core.ENG is not None and core.ENG.symkeys and isinstance(k, str):
        for key in list(dict.keys(d)):
            if type(key) is SymStr and len(key) == len(k) and key == k:
                return True, key
    return False, k


def _keyfor(k):
    if type(k) is SymStr:
        if not k._idhash:
            k = SymStr(k.chars)
            k._idhash = True
        core.ENG.symkeys = True
    elif type(k) is SymInt:
        if not k._idhash:
            k = SymInt(k.e)
            k._idhash = True
        core.ENG.symkeys = True
    return k


def d_set(d, k, v):
    found, key = d_find(d, k)
    dict.__setitem__(d, key if found else _keyfor(k), v)


def d_update(d, a, kw):
    if a:
        src = a[0]
        if isinstance(src, dict) or hasattr(src, 'keys'):
            for k in list(src.keys()):
                d_set(d, k, (dict.__getitem__(src, k)
                             if isinstance(src, dict) else src[k]))
        else:
            for k, v in src:
                d_set(d, k, v)
    for k, v in fixkw(kw).items():
        d_set(d, k, v)


def _d_get(d, a, kw):
    found, k = d_find(d, a[0])
    if found:
        return dict.__getitem__(d, k)
    return a[1] if len(a) > 1 else kw.get('default')


def _d_getitem(d, a, kw):
    found, k = d_find(d, a[0])
    if not found and type(k) in (SymStr, SymInt):
        miss = getattr(type(d), '__missing__', None)
        if miss is not None:
            return miss(d, k)
        raise KeyError(k)
    return dict.__getitem__(d, k)


def _d_setdefault(d, a, kw):
    found, k = d_find(d, a[0])
    if found:
        return dict.__getitem__(d, k)
    v = a[1] if len(a) > 1 else None
    dict.__setitem__(d, _keyfor(k), v)
    return v


def _d_pop(d, a, kw):
    found, k = d_find(d, a[0])
    if found:
        return dict.pop(d, k)
    if len(a) > 1:
        return a[1]
    raise KeyError(k)


def _d_delitem(d, a, kw):
    found, k = d_find(d, a[0])
    if not found and type(k) in (SymStr, SymInt):
        raise KeyError(k)
    dict.__delitem__(d, k)


def _d_init(d, a, kw):
    d_update(d, a, kw)


def _d_copy(d, a, kw):
    return dict.copy(d)


DICT = {'get': _d_get, '__getitem__': _d_getitem,
        '__setitem__': lambda d, a, kw: d_set(d, *a),
        'setdefault': _d_setdefault, 'pop': _d_pop,
        '__delitem__': _d_delitem,
        '__contains__': lambda d, a, kw: d_find(d, a[0])[0],
        'update': lambda d, a, kw: d_update(d, a, kw),
        '__init__': _d_init}


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            d_update(d, p, {})
        else:
            d_set(d, p[0], p[1])
    return d


def m_dict(*a, **kw):
    d = {}
    d_update(d, a, kw)
    return d


# --------------------------------------------------------------------- sets

def s_find(s, x):
    if type(x) is SymStr:
        for y in list(s):
            if y is x or (is_str(y) and len(y) == len(x) and x == y):
                return True, y
        return False, x
    if x in s:
        return True, x
    if core.ENG is not None and core.ENG.symkeys and isinstance(x, str):
        for y in list(s):
            if type(y) is SymStr and len(y) == len(x) and y == x:
                return True, y
    return False, x


def s_add(s, x):
    if not s_find(s, x)[0]:
        set.add(s, _keyfor(x))


def mkset(items):
    s = set()
    for x in items:
        s_add(s, x)
    return s


def m_set(*a):
    return mkset(a[0]) if a else set()


def m_frozenset(*a):
    return frozenset(mkset(a[0])) if a else frozenset()


def _s_discard(s, a, kw):
    found, x = s_find(s, a[0])
    if found:
        set.discard(s, x)


def _s_remove(s, a, kw):
    found, x = s_find(s, a[0])
    if not found:
        raise KeyError(x)
    set.discard(s, x)


def _s_update(s, a, kw):
    for it in a:
        for x in list(it):
            s_add(s, x)


def _s_union(s, a, kw):
    out = set(s)
    for it in a:
        for x in list(it):
            s_add(out, x)
    return out


def _s_inter(s, a, kw):
    out = list(s)
    for it in a:
        o = mkset(it)
        out = [x for x in out if s_find(o, x)[0]]
    return mkset(out)


def _s_diff(s, a, kw):
    out = list(s)
    for it in a:
        o = mkset(it)
        out = [x for x in out if not s_find(o, x)[0]]
    return mkset(out)


SETM = {'add': lambda s, a, kw: s_add(s, a[0]), 'discard': _s_discard,
        'remove': _s_remove, 'update': _s_update, 'union': _s_union,
        'intersection': _s_inter, 'difference': _s_diff,
        '__contains__': lambda s, a, kw: s_find(s, a[0])[0]}


# -------------------------------------------------------------- subscripts

def getitem(o, k):
    t = type(o)
    if t is list or t is tuple or t is str:
        if type(k) is SymInt:
            k = k.__index__()
        return o[k]
    if isinstance(o, dict):
        if t.__getitem__ is dict.__getitem__ or _is_builtin_func(
                t.__getitem__):
            if type(k) in (SymStr, SymInt) or (core.ENG is not None and
                                     core.ENG.symkeys):
                return _d_getitem(o, (k,), {})
        return o[k]
    return o[k]


def setitem_v(v, o, k):
    t = type(o)
    if isinstance(o, dict) and _is_builtin_func(t.__setitem__):
        if type(k) in (SymStr, SymInt) or (core.ENG is not None and core.ENG.symkeys):
            d_set(o, k, v)
            return
    if type(k) is SymInt and isinstance(o, list):
        k = k.__index__()
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and _is_builtin_func(type(o).__delitem__):
        if type(k) in (SymStr, SymInt) or (core.ENG is not None and core.ENG.symkeys):
            return _d_delitem(o, (k,), {})
    if type(k) is SymInt and isinstance(o, list):
        k = k.__index__()
    del o[k]


_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'Mod': operator.imod, 'BitOr': operator.ior, 'BitAnd': operator.iand,
        'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv,
        'BitXor': operator.ixor, 'Pow': operator.ipow,
        'LShift': operator.ilshift, 'RShift': operator.irshift}


def augset(o, k, op, v):
    cur = getitem(o, k)
    setitem_v(_AUG[op](cur, v), o, k)


_keys_t = type({}.keys())
_sets_t = (set, frozenset, _keys_t)
_BIN = {'BitOr': operator.or_, 'BitAnd': operator.and_, 'Sub': operator.sub}


def setop(op, a, b):
    if core.ENG is None or not core.ENG.symkeys or not (
            isinstance(a, _sets_t) and isinstance(b, _sets_t)):
        return _BIN[op](a, b)
    f = {'BitOr': _s_union, 'BitAnd': _s_inter, 'Sub': _s_diff}[op]
    r = f(mkset(a), (b,), {})
    return frozenset(r) if isinstance(a, frozenset) else r


def setiop(op, a, b):
    if core.ENG is None or not core.ENG.symkeys or not (
            isinstance(a, set) and isinstance(b, _sets_t)):
        return _AUG[op](a, b)
    r = list(setop(op, a, b))
    set.clear(a)
    set.update(a, r)
    return a


def contains(x, c):
    t = type(c)
    if t is SymStr:
        return c.__contains__(x)
    if t is str:
        if type(x) is SymStr:
            return SymStr(list(c)).__contains__(x)
        return x in c
    if isinstance(c, dict) and _is_builtin_func(t.__contains__):
        if type(x) in (SymStr, SymInt) or (core.ENG is not None and core.ENG.symkeys):
            return d_find(c, x)[0]
        return x in c
    if isinstance(c, (set, frozenset)):
        return s_find(c, x)[0]
    if t is _keys_t and (type(x) is SymStr or (
            core.ENG is not None and core.ENG.symkeys)):
        return any(y is x or x == y for y in c)
    return x in c


# --------------------------------------------------------------- formatting

def mod(a, b):
    if type(a) is str or type(a) is SymStr:
        if type(a) is SymStr or has_sym(b) or not _simple(b):
            return percent_format(a, b)
    return a % b


def _simple(b):
    if type(b) is tuple:
        return all(_simple(x) for x in b)
    return type(b) in (str, int, float, bool)


def percent_format(fmt, args):
    if type(fmt) is SymStr:
        fmt = concretise(fmt)
    import re
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    out = []
    pos = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)(.)', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        v = (args[0][m.group(1)] if m.group(1) else args.pop(0))
        if m.group(3) == 's' and not m.group(2):
            out.append(to_str(v))
        elif m.group(3) == 'r' and not m.group(2):
            out.append(to_repr(v))
        else:
            out.append(('%' + m.group(2) + m.group(3)) % conc(v, '%'))
    out.append(fmt[pos:])
    return join('', out)


def fval(v, conversion, spec):
    if conversion == ord('r'):
        v = to_repr(v)
    elif conversion == ord('a'):
        v = ascii(conc(v))
    elif conversion == ord('s'):
        v = to_str(v)
    if type(spec) is str and spec == '':
        if is_str(v):
            return v
        f = type(v).__format__
        if f is object.__format__ or _is_builtin_func(f):
            return to_str(v)
        return format(v, '')
    return format_spec(v, spec)


def format_spec(v, spec):
    if type(v) is SymStr and is_str(spec):
        import re
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?s?', conc(spec, 'spec'))
        if m and m.group(2) in (None, '<', '>'):
            n = int(m.group(3) or 0)
            fill = m.group(1) or ' '
            return v.rjust(n, fill) if m.group(2) == '>' else v.ljust(n, fill)
    return format(conc(v, 'format'), conc(spec, 'format'))


def fjoin(*parts):
    for p in parts:
        if type(p) is SymStr:
            return join('', parts)
    return ''.join(parts)


_formatter = _string.Formatter()


def str_format(fmt, a, kw):
    if type(fmt) is SymStr:
        fmt = concretise(fmt, 'format string')
    if not has_sym(a) and not has_sym(kw):
        if all(_simple(x) for x in a) and all(_simple(x)
                                              for x in kw.values()):
            return fmt.format(*a, **kw)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = _formatter_split(field)
        if isinstance(first, int):
            v = a[first]
        else:
            v = getitem(kw, first)
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else getitem(v, i)
        if spec and '{' in spec:
            spec = str_format(spec, a, kw)
        out.append(fval(v, ord(conv) if conv else -1, spec or ''))
    return join('', out)


def _formatter_split(field):
    import _string as s
    return s.formatter_field_name_split(field)


def to_str(o):
    t = type(o)
    if t is SymStr or t is str:
        return o
    if t is SymBytes:
        return repr(conc(o))
    if t in SYMT:
        return str(conc(o, 'str()'))
    if t in (list, tuple, dict, set, frozenset):
        return to_repr(o)
    if isinstance(o, BaseException) and _is_builtin_func(t.__str__):
        if len(o.args) == 1:
            return to_str(o.args[0])
        return to_repr(o.args) if o.args else ''
    f = t.__str__
    if type(f) is FunctionType and not _is_builtin_func(f) and _transformed(f):
        return f(o)
    if f is object.__str__ or _is_builtin_func(f):
        r = t.__repr__
        if isinstance(o, str):
            return str(o)
        if type(r) is FunctionType and not _is_builtin_func(r):
            return to_repr(o)
        if f is object.__str__ or isinstance(o, (dict, list, tuple)):
            return to_repr(o)
    return str(o)


def _unsafe_repr(c):
    return c in '\\\'"' or not c.isprintable()


def to_repr(o):
    t = type(o)
    if t is SymStr:
        if any(ch_is(c, 'unsafe_repr', _unsafe_repr) for c in o.chars):
            return repr(concretise(o, 'repr'))
        return "'" + o + "'"
    if t in SYMT:
        return repr(conc(o, 'repr'))
    if t is list:
        return '[' + join(', ', [to_repr(x) for x in o]) + ']'
    if t is tuple:
        return ('(' + join(', ', [to_repr(x) for x in o]) +
                (',)' if len(o) == 1 else ')'))
    r = t.__repr__
    if type(r) is FunctionType and not _is_builtin_func(r):
        if _transformed(r):
            return r(o)
        return repr(o)
    if isinstance(o, dict):
        return '{' + join(', ', [to_repr(k) + ': ' + to_repr(v)
                                 for k, v in dict.items(o)]) + '}'
    if t in (set, frozenset) and has_sym(o):
        return '{' + join(', ', [to_repr(k) for k in o]) + '}'
    return repr(o)


# ------------------------------------------------------------------ models

def m_str(*a, **kw):
    if not a:
        return ''
    if len(a) > 1 or kw:
        return str(*[conc(x) for x in a], **kw)
    return to_str(a[0])


_digitpred = str.isdecimal


def m_int(*a, **kw):
    if a and type(a[0]) is SymStr and (len(a) == 1 and not kw):
        return parse_int(a[0])
    if a and type(a[0]) in (SymInt, SymReal):
        return a[0].__int__() if type(a[0]) is SymReal else a[0]
    if a and type(a[0]) is SymBool:
        return int(bool(a[0]))
    return int(*[conc(x, 'int') for x in a], **kw)


def parse_int(s):
    t = s.strip()
    if type(t) is str:
        return int(t)
    orig = t
    sign = 1
    if t.startswith(('+', '-')):
        if t[:1] == '-':
            sign = -1
        t = t[1:]
        if type(t) is str:
            # the sign was the symbolic part
            return sign * int(t) if t[:1] not in ('+', '-', '_', ' ') and \
                t.strip() == t else int('x')
    chars = t.chars
    digits = []
    prev_us = True
    for c in chars:
        if ch_is(c, ('=', '_'), lambda x: x == '_'):
            if prev_us:
                raise ValueError('invalid literal for int()')
            prev_us = True
            continue
        if not ch_is(c, 'isdecimal', _digitpred):
            raise ValueError('invalid literal for int()')
        prev_us = False
        digits.append(c)
    if prev_us:
        raise ValueError('invalid literal for int()')
    z3 = core.z3
    e = z3.IntVal(0)
    for c in digits:
        e = e * 10 + _digit_expr(c)
    return mkint(z3.simplify(sign * e))


def _digit_expr(c):
    import unicodedata
    z3 = core.z3
    if type(c) is not str:
        c = c.norm()
    if type(c) is str:
        return z3.IntVal(unicodedata.decimal(c))
    e = z3.IntVal(0)
    for o in sorted(c.outs()):
        d = unicodedata.decimal(o)
        if d:
            cond = c.eq_expr(o)
            if cond is True:
                return z3.IntVal(d)
            if cond is not False:
                e = z3.If(cond.e, z3.IntVal(d), e)
    return e


_float_rx = None


def m_float(*a):
    if a and type(a[0]) is SymStr:
        return parse_float(a[0])
    if a and type(a[0]) is SymInt:
        return SymReal(core.z3.ToReal(a[0].e))
    if a and type(a[0]) is SymReal:
        return a[0]
    return float(*[conc(x, 'float') for x in a])


def parse_float(s):
    """float(): decides the validity; the value of a plain decimal numeral is
    a symbolic real, other valid spellings are concretised."""
    global _float_rx
    import re
    t = s.strip()
    if type(t) is str:
        return float(t)
    if _float_rx is None:
        _float_rx = (
            rx.SymPattern(re.compile(r'([+-]?)(\d*)\.?(\d*)')),
            rx.SymPattern(re.compile(
                r'[+-]?(?:(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|'
                r'\.\d+(?:_\d+)*)'
                r'(?:e[+-]?\d+(?:_\d+)*)?|inf(?:inity)?|nan)', re.I)))
    m = _float_rx[0].fullmatch(t)
    if m is not None:
        a, b = m.group(2), m.group(3)
        if not len(a) and not len(b):
            raise ValueError('could not convert string to float')
        z3 = core.z3
        e = z3.IntVal(0)
        for c in list(chars_of(a)) + list(chars_of(b)):
            e = e * 10 + _digit_expr(c)
        r = z3.ToReal(e) / z3.RealVal(10 ** len(b))
        if m.group(1) == '-':
            r = -r
        return SymReal(z3.simplify(r))
    if _float_rx[1].fullmatch(t) is None:
        raise ValueError('could not convert string to float')
    return float(concretise(t, 'float'))


def m_type(*a):
    if len(a) == 1 and type(a[0]) in SYMT:
        return a[0].__class__
    return type(*a)


def m_bool(*a):
    if a and type(a[0]) is SymBool:
        return a[0]
    if a and type(a[0]) is SymInt:
        return a[0] != 0
    return bool(*a)


def m_repr(o):
    return to_repr(o)


def m_getattr(o, name, *d):
    if type(name) is SymStr:
        n = _attr(o, name)
        if n is None:
            if d:
                return d[0]
            raise AttributeError('no attribute')
        return getattr(o, n, *d)
    return getattr(o, name, *d)


def _attr(o, name):
    for n in dir(o):
        if len(n) == len(name) and name == n:
            return n
    return None


def m_hasattr(o, name):
    if type(name) is SymStr:
        n = _attr(o, name)
        return n is not None and hasattr(o, n)
    return hasattr(o, name)


def m_setattr(o, name, v):
    setattr(o, conc(name, 'setattr'), v)


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None or f is bool:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def m_sorted(it, key=None, reverse=False):
    if key is None:
        return sorted(it, reverse=bool(reverse))
    return sorted(it, key=lambda x: call(key, x), reverse=bool(reverse))


def _minmax(f):
    def m(*a, **kw):
        if kw.get('key') is not None:
            key = kw['key']
            kw = dict(kw, key=lambda x: call(key, x))
        return f(*a, **kw)
    return m


def m_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        ch = c.chars[0]
        if type(ch) is not str:
            ch = ch.norm()
        if type(ch) is str:
            return ord(ch)
        z3 = core.z3
        if ch.map is None:
            return SymInt(z3.BV2Int(ch.var.expr))
        return ord(concretise(c, 'ord'))
    return ord(c)


def m_filterfalse(f, it):
    return (x for x in it if not (call(f, x) if f is not None else x))


def m_hash(o):
    return hash(o)


def m_iter(*a):
    return iter(*a)


MODELS = {str: m_str, int: m_int, float: m_float, type: m_type, bool: m_bool,
          repr: m_repr, getattr: m_getattr, hasattr: m_hasattr,
          setattr: m_setattr, map: m_map, filter: m_filter, sorted: m_sorted,
          min: _minmax(min), max: _minmax(max), ord: m_ord, set: m_set,
          frozenset: m_frozenset, dict: m_dict}

def _hash_model(f, alg):
    def m(data=b'', **kw):
        if core.ENG is None:
            return f(data, **kw)
        return symhash.SymHash(alg, data)
    return m


def m_open(path, mode='r', *a, **kw):
    p = symhash.lookup(path)
    if p is not None and ('r' in mode) and '+' not in mode:
        return symhash.SymFile(p, mode)
    return open(conc(path, 'open'), mode, *a, **kw)


def m_fspath(path):
    if type(path) is SymStr:
        return path
    f = getattr(type(path), '__fspath__', None)
    if f is not None and not isinstance(path, str) and _transformed(f):
        return f(path)
    return os.fspath(path)


def m_copyfile(src, dst, **kw):
    src, dst = conc(str(src)), conc(str(dst))
    r = shutil.copyfile(src, dst, **kw)
    if core.ENG is not None:
        c = symhash.lookup(src)
        core.ENG.files.pop(symhash.key(dst), None)
        if c is not None:
            core.ENG.files[symhash.key(dst)] = core.ENG.files[c]
    return r


def m_bytes(*a, **kw):
    if a and type(a[0]) is SymStr:
        return a[0].encode()
    if a and type(a[0]) is SymBytes:
        return a[0]
    return bytes(*a, **kw)


def _path_open(self, mode='r', *a, **kw):
    if symhash.lookup(self) is not None:
        return m_open(self, mode)
    return pathlib.Path.open(self, mode, *a, **kw)


def _path_read_text(self, *a, **kw):
    p = symhash.lookup(self)
    if p is not None:
        return symhash.SymFile(p, 'r').read()
    return _path_read_text.original(self, *a, **kw)


def _path_read_bytes(self, *a, **kw):
    p = symhash.lookup(self)
    if p is not None:
        return symhash.SymFile(p, 'rb').read()
    return _path_read_bytes.original(self, *a, **kw)


def _path_write_text(self, data, *a, **kw):
    if type(data) is SymStr:
        _path_write_text.original(self, 'symbolic', *a, **kw)
        symhash.register(self, data)
        return len(data)
    core.ENG.files.pop(symhash.key(self), None)
    return _path_write_text.original(self, data, *a, **kw)


def use_pathlib(module):
    """Use a (transformed) pathlib module"""
    global pathlib
    pathlib = module
    for name, f in (('read_text', _path_read_text),
                    ('read_bytes', _path_read_bytes),
                    ('write_text', _path_write_text)):
        f.original = getattr(module.Path, name)
        setattr(module.Path, name, f)
    from . import api
    api.pathlib = module


for _n, _f in (('read_text', _path_read_text), ('read_bytes', _path_read_bytes),
               ('write_text', _path_write_text)):
    _f.original = getattr(pathlib.Path, _n)
FILEM = {pathlib.Path.open: _path_open,
         pathlib.Path.read_text: _path_read_text,
         pathlib.Path.read_bytes: _path_read_bytes,
         pathlib.Path.write_text: _path_write_text}
MODELS[open] = m_open
MODELS[sys.intern] = lambda x: x if type(x) is SymStr else sys.intern(x)
MODELS[os.fspath] = m_fspath
MODELS[shutil.copyfile] = m_copyfile
try:
    from . import symlxml
    MODELS.update(symlxml.models())
except ImportError:
    pass
from . import symcsv   # noqa: E402
MODELS.update(symcsv.models())
MODELS[itertools.filterfalse] = m_filterfalse
MODELS[bytes] = m_bytes
for _f, _alg in symhash.ALGS.items():
    MODELS[_f] = _hash_model(_f, _alg)

_re_funcs = {'match', 'search', 'fullmatch', 'finditer', 'findall', 'sub',
             'subn', 'split', 'compile'}


def re_func(f, a, kw):
    name = f.__name__
    if not any(has_sym(x) for x in a) and not any(
            has_sym(x) for x in kw.values()):
        if name in ('sub', 'subn') and not isinstance(a[1], str):
            pass
        else:
            return f(*a, **kw)
    import re
    lib = re if f.__module__ == 're' else rx._regex
    flags = kw.pop('flags', 0)
    pat = a[0]
    if type(pat) is SymStr:
        pat = concretise(pat, 'pattern')
    if isinstance(pat, str):
        pat = lib.compile(pat, flags)
    if name == 'compile':
        return pat
    return pattern_method(pat, name, a[1:], kw)


def pattern_method(p, name, a, kw):
    if core.ENG is not None and name in _re_funcs:
        symbolic = any_sym(a, kw)
        if not symbolic and name in ('sub', 'subn') and not isinstance(
                a[0] if a else kw['repl'], str):
            symbolic = True
        if symbolic:
            try:
                sp = rx.compiled(p)
            except rx.Unsupported as e:
                core.ENG.note_concretise('regex: %s' % e)
                a = [conc(x, 'regex') for x in a]
                return getattr(p, name)(*a, **{k: conc(v) for k, v in
                                               kw.items()})
            if 'string' in kw:
                kw = dict(kw)
                s = kw.pop('string')
                if name in ('sub', 'subn') and 'repl' in kw:
                    a = (kw.pop('repl'), s)
                elif name in ('sub', 'subn'):
                    a = (a[0], s)
                else:
                    a = (s,) + tuple(a)
            return getattr(sp, name)(*a, **kw)
    return getattr(p, name)(*a, **kw)
