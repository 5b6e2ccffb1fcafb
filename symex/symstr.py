"""Symbolic strings: models of the methods of ``str``."""
import string as _string

from . import core
from .core import Sym, SymInt, SymBool, mkbool, mk_and, mk_or, mk_not

_class_sets = {}


def class_set(alpha, name, pred):
    """The characters of alpha which satisfy pred (cached by name)."""
    k = (alpha, name)
    s = _class_sets.get(k)
    if s is None:
        s = frozenset(c for c in alpha if pred(c))
        _class_sets[k] = s
    return s


class SymChar:
    """One symbolic character: a variable seen through a mapping."""
    __slots__ = ('var', 'map', 'mapname')

    def __init__(self, var, map=None, mapname=None):
        self.var = var
        self.map = map
        self.mapname = mapname

    def outs(self):
        """possible values under the current path (over-approximation)"""
        dom = core.ENG.dom[self.var.idx]
        if self.map is None:
            return dom
        return {self.map[c] for c in dom}

    def base_set(self, name, pred):
        """base characters whose value satisfies pred"""
        m = self.map
        if m is None:
            return class_set(self.var.alpha, name, pred)
        k = (self.var.alpha, self.mapname, name)
        s = _class_sets.get(k)
        if s is None:
            s = frozenset(c for c in self.var.alpha if pred(m[c]))
            _class_sets[k] = s
        return s

    def is_(self, name, pred):
        """decide a named predicate"""
        return core.ENG.char_in(self.var, self.base_set(name, pred))

    def eq_expr(self, c):
        """the condition that this character is c, as bool or SymBool"""
        dom = core.ENG.dom[self.var.idx]
        b = dom & self.base_set(('=', c), lambda x: x == c)
        if not b:
            return False
        if len(b) == len(dom):
            return True
        return SymBool(core.ENG.set_expr(self.var, b))

    def in_expr(self, name, pred):
        dom = core.ENG.dom[self.var.idx]
        b = dom & self.base_set(name, pred)
        if not b:
            return False
        if len(b) == len(dom):
            return True
        return SymBool(core.ENG.set_expr(self.var, b))

    def norm(self):
        """the concrete character, if there is only one possible"""
        dom = core.ENG.dom[self.var.idx]
        if len(dom) == 1:
            c, = dom
            return c if self.map is None else self.map[c]
        return self


def ch_is(c, name, pred):
    """decide a predicate of a character"""
    if type(c) is str:
        return pred(c)
    return c.is_(name, pred)


def ch_eq(a, b):
    """bool or SymBool: are two characters equal?"""
    ta, tb = type(a) is str, type(b) is str
    if ta and tb:
        return a == b
    if type(a) is _Digest or type(b) is _Digest:
        return symhash.digest_seq_eq([a], [b])
    if tb:
        return a.eq_expr(b)
    if ta:
        return b.eq_expr(a)
    if a.var is b.var:
        if a.mapname == b.mapname:
            return True
        dom = core.ENG.dom[a.var.idx]
        ma = a.map or {}
        mb = b.map or {}
        s = frozenset(c for c in dom if ma.get(c, c) == mb.get(c, c))
        if not s:
            return False
        if len(s) == len(dom):
            return True
        return SymBool(core.ENG.set_expr(a.var, s))
    if a.map is None and b.map is None:
        if not (core.ENG.dom[a.var.idx] & core.ENG.dom[b.var.idx]):
            return False
        return SymBool(a.var.expr == b.var.expr)
    outs = set(a.outs()) & set(b.outs())
    return mk_or(*[mk_and(a.eq_expr(o), b.eq_expr(o)) for o in sorted(outs)])


_singles = {}


def _single(c):
    s = _singles.get(c)
    if s is None:
        s = _singles[c] = frozenset((c,))
    return s


def _learn_eq(a, b):
    """update the domains after deciding that two characters are equal"""
    ENG = core.ENG
    for x, y in ((a, b), (b, a)):
        if type(x) is SymChar and type(y) is not _Digest:
            if type(y) is str:
                s = x.base_set(('=', y), lambda v: v == y)
            else:
                outs = y.outs()
                m = x.map
                s = frozenset(c for c in ENG.dom[x.var.idx]
                              if (c if m is None else m[c]) in outs)
            ENG.dom[x.var.idx] = ENG.dom[x.var.idx] & s


def seq_eq_expr(xs, ys):
    if len(xs) != len(ys):
        return False
    # quick refutation first
    out = []
    for a, b in zip(xs, ys):
        if type(a) is _Digest or type(b) is _Digest:
            return symhash.digest_seq_eq(xs, ys)
        r = ch_eq(a, b)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return mk_and(*out)


def decide_seq_eq(xs, ys):
    """decide whether two character sequences are equal"""
    n = len(xs)
    if n != len(ys):
        return False
    # fast path: every pair has at least one concrete character
    ENG = core.ENG
    key = []
    for a, b in zip(xs, ys):
        if type(a) is str:
            if type(b) is str:
                if a != b:
                    return False
                continue
            a, b = b, a
        if type(b) is not str or type(a) is not SymChar:
            key = None
            break
        dom = ENG.dom[a.var.idx]
        if a.map is None:
            if b not in dom:
                return False
            if len(dom) == 1:
                continue
            t = _single(b)
        else:
            t = dom & a.base_set(('=', b), lambda x: x == b)
            if not t:
                return False
            if len(t) == len(dom):
                continue
        key.append((a.var, t))
    if key is not None:
        if not key:
            return True
        if len(key) == 1:
            return ENG.char_in(*key[0])
        if len({v.idx for v, _ in key}) == len(key):
            return ENG.conj(key)
    e = seq_eq_expr(xs, ys)
    if e is True or e is False:
        return e
    if len(xs) == 1:
        a, b = xs[0], ys[0]
        if type(a) is str:
            a, b = b, a
        if type(b) is str:
            return a.is_(('=', b), lambda x: x == b)
    r = bool(e)
    if r:
        for a, b in zip(xs, ys):
            _learn_eq(a, b)
    return r


def mk(chars):
    """a str if all characters are concrete, a SymStr otherwise"""
    conc = True
    out = []
    for c in chars:
        if type(c) is not str:
            c = c.norm()
            if type(c) is not str:
                conc = False
        elif len(c) != 1:
            out.extend(c)
            continue
        out.append(c)
    if conc:
        return ''.join(out)
    return SymStr(out)


def chars_of(s):
    """the character list of a str or SymStr"""
    if type(s) is SymStr:
        return s.chars
    return s


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


class _WS:
    name = 'ws'

    @staticmethod
    def pred(c):
        return c.isspace()


def _isspace(c):
    return c.isspace()


_linebreaks = frozenset('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')


def _islinebreak(c):
    return c in _linebreaks


class SymStr(Sym):
    __slots__ = ('chars', '_idhash', '__weakref__')
    __class__ = property(lambda self: str)

    def __init__(self, chars):
        self.chars = list(chars)
        self._idhash = False

    # ---- basics
    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __iter__(self):
        for c in self.chars:
            yield mk([c])

    def __reversed__(self):
        for c in reversed(self.chars):
            yield mk([c])

    def __getitem__(self, k):
        if type(k) is slice:
            k = slice(*[v if v is None else v.__index__()
                        for v in (k.start, k.stop, k.step)])
            return mk(self.chars[k])
        return mk([self.chars[k.__index__()]])

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(list(self.chars) + list(chars_of(o)))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mk(list(chars_of(o)) + list(self.chars))

    def __mul__(self, n):
        return mk(self.chars * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import rt
        return rt.percent_format(self, args)

    def __hash__(self):
        if self._idhash:
            return id(self) >> 4
        core.ENG.note_concretise('hash')
        return hash(concretise(self))

    def __eq__(self, o):
        if self is o:
            return True
        if not is_str(o):
            return False
        return decide_seq_eq(self.chars, chars_of(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def _lt(self, o, strict=True):
        xs, ys = self.chars, list(chars_of(o))
        for a, b in zip(xs, ys):
            if type(a) is _Digest and type(b) is _Digest and a.i == b.i:
                if not bool(symhash.content_eq(a, b)):
                    return symhash.digest_lt(a, b)
                continue
            if decide_seq_eq([a], [b]):
                continue
            return bool(ch_lt(a, b))
        return len(xs) < len(ys) if strict else len(xs) <= len(ys)

    def __lt__(self, o):
        if not is_str(o):
            return NotImplemented
        return self._lt(o)

    def __le__(self, o):
        if not is_str(o):
            return NotImplemented
        return self._lt(o, False)

    def __gt__(self, o):
        if not is_str(o):
            return NotImplemented
        return not self._lt(o, False)

    def __ge__(self, o):
        if not is_str(o):
            return NotImplemented
        return not self._lt(o)

    def __contains__(self, o):
        return self.find(o) >= 0

    def __repr__(self):
        return '<SymStr %d>' % len(self.chars)

    def __str__(self):
        # C-level str(): needs a real string
        return concretise(self)

    def __format__(self, spec):
        return format(concretise(self), spec)

    def __fspath__(self):
        return concretise(self)

    # ---- searching
    def _range(self, start, end):
        return slice(start, end).indices(len(self.chars))[:2]

    def _match_at(self, i, sub):
        return decide_seq_eq(self.chars[i:i + len(sub)], sub)

    def find(self, sub, start=None, end=None):
        sub = list(_arg(sub))
        a, b = self._range(start, end)
        if (start or 0) > len(self.chars):
            return -1
        for i in range(a, b - len(sub) + 1):
            if self._match_at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = list(_arg(sub))
        a, b = self._range(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if self._match_at(i, sub):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = list(_arg(sub))
        a, b = self._range(start, end)
        if not sub:
            return max(b - a + 1, 0)
        n, i = 0, a
        while i <= b - len(sub):
            if self._match_at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return any(self.startswith(p, start, end) for p in pre)
        s = self.chars
        if start is not None or end is not None:
            a, b = self._range(start, end)
            s = s[a:b]
        pre = list(_arg(pre))
        return len(pre) <= len(s) and decide_seq_eq(s[:len(pre)], pre)

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return any(self.endswith(p, start, end) for p in suf)
        s = self.chars
        if start is not None or end is not None:
            a, b = self._range(start, end)
            s = s[a:b]
        suf = list(_arg(suf))
        return (len(suf) <= len(s) and
                decide_seq_eq(s[len(s) - len(suf):], suf))

    # ---- stripping and splitting
    @staticmethod
    def _strip_test(chars):
        if chars is None:
            return lambda c: ch_is(c, 'ws', _isspace)
        cs = list(_arg(chars))
        if all(type(c) is str for c in cs):
            st = frozenset(cs)
            return lambda c: ch_is(c, ('in', st), lambda x: x in st)
        return lambda c: any(decide_seq_eq([c], [d]) for d in cs)

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        i = 0
        while i < len(self.chars) and t(self.chars[i]):
            i += 1
        return mk(self.chars[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        i = len(self.chars)
        while i > 0 and t(self.chars[i - 1]):
            i -= 1
        return mk(self.chars[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return (s.rstrip(chars) if type(s) is SymStr else
                s.rstrip(chars) if type(chars) is not SymStr else
                SymStr(list(s)).rstrip(chars))

    def split(self, sep=None, maxsplit=-1):
        xs = self.chars
        out = []
        if sep is None:
            i, n = 0, len(xs)
            while i < n:
                while i < n and ch_is(xs[i], 'ws', _isspace):
                    i += 1
                if i >= n:
                    break
                if 0 <= maxsplit <= len(out):
                    rest = SymStr(xs[i:]).rstrip()
                    out.append(rest)
                    return out
                j = i
                while j < n and not ch_is(xs[j], 'ws', _isspace):
                    j += 1
                out.append(mk(xs[i:j]))
                i = j
            return out
        sub = list(_arg(sep))
        if not sub:
            raise ValueError('empty separator')
        i = j = 0
        while i <= len(xs) - len(sub):
            if 0 <= maxsplit <= len(out):
                break
            if self._match_at(i, sub):
                out.append(mk(xs[j:i]))
                i += len(sub)
                j = i
            else:
                i += 1
        out.append(mk(xs[j:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        xs = self.chars
        out = []
        if sep is None:
            r = mk(list(reversed(xs)))
            if type(r) is str:
                return ''.join(reversed(r)).rsplit(None, maxsplit)
            parts = r.split(None, maxsplit)
            return [mk(list(reversed(chars_of(p)))) for p in reversed(parts)]
        sub = list(_arg(sep))
        if not sub:
            raise ValueError('empty separator')
        end = len(xs)
        i = end - len(sub)
        while i >= 0:
            if len(out) >= maxsplit:
                break
            if self._match_at(i, sub):
                out.append(mk(xs[i + len(sub):end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(mk(xs[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        xs, out, i, j = self.chars, [], 0, 0
        n = len(xs)
        while i < n:
            if ch_is(xs[i], 'linebreak', _islinebreak):
                e = i + 1
                if (e < n and ch_is(xs[i], ('=', '\r'), lambda x: x == '\r')
                   and ch_is(xs[e], ('=', '\n'), lambda x: x == '\n')):
                    e += 1
                out.append(mk(xs[j:e if keepends else i]))
                i = j = e
            else:
                i += 1
        if j < n:
            out.append(mk(xs[j:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mk(self.chars), '', '')
        return (mk(self.chars[:i]), sep, mk(self.chars[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mk(self.chars))
        return (mk(self.chars[:i]), sep, mk(self.chars[i + len(sep):]))

    def replace(self, old, new, count=-1):
        xs, sub, rep = self.chars, list(_arg(old)), list(_arg(new))
        out, i, n = [], 0, 0
        if not sub:
            for i, c in enumerate(xs):
                if 0 <= count <= n:
                    out += xs[i:]
                    return mk(out)
                out += rep
                out.append(c)
                n += 1
            if not 0 <= count <= n:
                out += rep
            return mk(out)
        while i < len(xs):
            if (i <= len(xs) - len(sub) and not 0 <= count <= n and
               self._match_at(i, sub)):
                out += rep
                i += len(sub)
                n += 1
            else:
                out.append(xs[i])
                i += 1
        return mk(out)

    def join(self, it):
        return join(self, it)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return (self[:len(self) - len(p)] if len(p) and self.endswith(p)
                else self)

    # ---- case
    def _map(self, name, f):
        return mk([map_char(c, name, f) for c in self.chars])

    def lower(self):
        return self._map('lower', str.lower)

    def upper(self):
        return self._map('upper', str.upper)

    def casefold(self):
        return self._map('casefold', str.casefold)

    def swapcase(self):
        return self._map('swapcase', str.swapcase)

    def capitalize(self):
        return mk([map_char(c, 'title', str.title) if i == 0 else
                   map_char(c, 'lower', str.lower)
                   for i, c in enumerate(self.chars)])

    def title(self):
        out, prev = [], False
        for c in self.chars:
            out.append(map_char(c, 'lower', str.lower) if prev else
                       map_char(c, 'title', str.title))
            prev = ch_is(c, 'cased', _iscased)
        return mk(out)

    def translate(self, table):
        out = []
        for c in self.chars:
            if type(c) is not str:
                keys = frozenset(chr(k) for k in table) if isinstance(
                    table, dict) else None
                if keys is not None and not c.is_(('in', keys),
                                                  lambda x: x in keys):
                    out.append(c)
                    continue
                c = concretise(SymStr([c]))
            out += list(c.translate(table))
        return mk(out)

    # ---- predicates
    def _all(self, name, pred):
        return bool(self.chars) and all(ch_is(c, name, pred)
                                        for c in self.chars)

    def isspace(self):
        return self._all('ws', _isspace)

    def isdigit(self):
        return self._all('isdigit', str.isdigit)

    def isdecimal(self):
        return self._all('isdecimal', str.isdecimal)

    def isnumeric(self):
        return self._all('isnumeric', str.isnumeric)

    def isalpha(self):
        return self._all('isalpha', str.isalpha)

    def isalnum(self):
        return self._all('isalnum', str.isalnum)

    def isascii(self):
        return all(ch_is(c, 'isascii', str.isascii) for c in self.chars)

    def isprintable(self):
        return all(ch_is(c, 'isprintable', str.isprintable)
                   for c in self.chars)

    def isidentifier(self):
        return bool(self.chars) and all(
            ch_is(c, 'idstart' if i == 0 else 'idcont',
                  str.isidentifier if i == 0 else
                  (lambda x: ('a' + x).isidentifier()))
            for i, c in enumerate(self.chars))

    def _cased(self, want, other):
        seen = False
        for c in self.chars:
            if ch_is(c, other.__name__ + '!', other):
                return False
            if ch_is(c, want.__name__ + '!', want):
                seen = True
        return seen

    def islower(self):
        return self._cased(str.islower, str.isupper)

    def isupper(self):
        return self._cased(str.isupper, str.islower)

    # ---- padding
    def _pad(self, n):
        return max(n - len(self.chars), 0)

    def ljust(self, n, fill=' '):
        return self + fill * self._pad(n)

    def rjust(self, n, fill=' '):
        return fill * self._pad(n) + self

    def zfill(self, n):
        if self.startswith(('+', '-')):
            return self[0] + '0' * self._pad(n) + self[1:]
        return '0' * self._pad(n) + self

    def encode(self, encoding='utf-8', errors='strict'):
        return symhash.encode(self)

    def format(self, *args, **kwargs):
        from . import rt
        return rt.str_format(self, args, kwargs)


def _iscased(c):
    return c.isupper() or c.islower() or c.istitle()


def _arg(x):
    if type(x) is SymStr:
        return x.chars
    if isinstance(x, str):
        return x
    raise TypeError('must be str, not %s' % type(x).__name__)


_maps = {}


def map_char(c, name, f):
    if type(c) is str:
        return f(c)      # maybe several characters: mk() flattens
    if type(c) is _Digest:
        if all(f(o) == o for o in c.outs()):
            return c
        return f(c.conc())
    c = c.norm()
    if type(c) is str:
        return map_char(c, name, f)
    if c.map is not None:
        mname = (c.mapname, name)
    else:
        mname = name
    k = (c.var.alpha, mname)
    m = _maps.get(k)
    if m is None:
        base = c.map
        m = {}
        for a in c.var.alpha:
            r = f(a if base is None else base[a])
            if len(r) != 1:
                return map_char(concretise(SymStr([c])), name, f)
            m[a] = r
        _maps[k] = m
    return SymChar(c.var, m, mname)


def ch_lt(a, b):
    if type(a) is _Digest:
        a = a.conc()
    if type(b) is _Digest:
        b = b.conc()
    if type(a) is str and type(b) is str:
        return a < b
    if type(b) is str:
        return a.in_expr(('<', b), lambda x: x < b)
    if type(a) is str:
        return b.in_expr(('>', a), lambda x: x > a)
    if a.map is None and b.map is None:
        return SymBool(core.z3.ULT(a.var.expr, b.var.expr))
    outs = sorted(a.outs())
    return mk_or(*[mk_and(a.eq_expr(o),
                          b.in_expr(('>', o), lambda x, o=o: x > o))
                   for o in outs])


def join(sep, it):
    items = list(it)
    out = []
    s = list(chars_of(sep))
    for i, x in enumerate(items):
        if not is_str(x):
            raise TypeError('sequence item %d: expected str instance, %s '
                            'found' % (i, type(x).__name__))
        if i and s:
            out += s
        out += list(chars_of(x))
    return mk(out)


def concretise(s, what='str', limit=4000):
    """Fork over the values of a symbolic string; returns a str."""
    ENG = core.ENG
    out = []
    noted = False
    for c in s.chars:
        if type(c) is not str:
            c = c.norm()
        if type(c) is _Digest:
            c = c.conc()
        if type(c) is not str:
            if not noted:
                ENG.note_concretise(what)
                noted = True
            c = _concretise_char(c, limit)
        out.append(c)
    return ''.join(out)


def _concretise_char(c, limit):
    ENG = core.ENG
    v = c.var
    for _ in range(limit):
        dom = ENG.dom[v.idx]
        if len(dom) == 1:
            break
        pos = ENG.pos
        if pos < len(ENG.trace):
            cand = ENG.trace[pos].cand
        else:
            if v.idx not in ENG.taint:
                cand = min(dom)
            else:
                m = ENG.model()
                cand = chr(
                    m.eval(v.expr, model_completion=True).as_long())
        t = frozenset((cand,))
        r = ENG.decide(('v', v.idx, cand), lambda: ENG.set_expr(v, t),
                       cand=cand, free=(v.idx,))
        ENG.dom[v.idx] = t if r else dom - t
    d, = ENG.dom[v.idx]
    return d if c.map is None else c.map[d]


from . import symhash                   # noqa: E402
_Digest = getattr(symhash, 'DigestChar', None)  # set by symhash otherwise
