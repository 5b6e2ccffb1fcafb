"""Bytes, hashes and files with symbolic contents.

A digest of symbolic content is a run of DigestChars: the i-th character of
the digest of a content. Hash functions are modelled as injective: two digests
are equal if and only if the contents are (collision freeness, an assumption),
and the order of two digests is arbitrary (a fresh rank per digest).
"""
import hashlib
import os

from . import core, symstr
from .core import Sym, SymBool, mk_and, mk_or
from .symstr import (SymStr, SymChar, mk, chars_of, seq_eq_expr, concretise)

ALGS = {hashlib.md5: 'md5', hashlib.sha1: 'sha1', hashlib.sha256: 'sha256'}
REAL = {}           # (real digest as str or bytes) -> (alg, content chars)
HEXDIGITS = '0123456789abcdef'


class DigestChar:
    """Character i of the digest (hex or raw) of a content"""
    __slots__ = ('alg', 'hex', 'content', 'i')

    def __init__(self, alg, hex, content, i):
        self.alg = alg
        self.hex = hex
        self.content = content
        self.i = i

    def norm(self):
        s = mk(self.content)
        if type(s) is str:
            return real_digest(self.alg, s, self.hex)[self.i]
        return self

    def conc(self):
        concretise(SymStr(self.content), 'digest')
        return self.norm()

    def outs(self):
        return set(HEXDIGITS) if self.hex else set(map(chr, range(256)))

    def is_(self, name, pred):
        rs = {bool(pred(c)) for c in self.outs()}
        if len(rs) == 1:
            return rs.pop()
        return pred(self.conc())

    def in_expr(self, name, pred):
        return self.is_(name, pred)

    def eq_expr(self, c):
        return c in self.outs() and self.conc() == c

    def value(self, m, f):
        return real_digest(self.alg, f(SymStr(self.content), m),
                           self.hex)[self.i]


def to_bytes(s):
    return s.encode('utf-8', 'surrogateescape')


def real_digest(alg, text, hex):
    h = getattr(hashlib, alg)(to_bytes(text))
    REAL[h.hexdigest()] = (alg, list(text))
    REAL[h.digest().decode('latin-1')] = (alg, list(text))
    return h.hexdigest() if hex else h.digest().decode('latin-1')


def bytes_chars(b):
    """characters which stand for the concrete bytes b"""
    if len(b) in (16, 20, 32):
        k = b.decode('latin-1')
        if k in REAL:
            alg, content = REAL[k]
            return [DigestChar(alg, False, content, i)
                    for i in range(len(b))]
    return list(b.decode('utf-8', 'surrogateescape'))


def content_eq(a, b):
    if a.content is b.content:
        return True
    return seq_eq_expr(a.content, b.content)


def _run(xs, k):
    """end of the run of consecutive characters of one digest from k"""
    d = xs[k]
    e = k + 1
    while (e < len(xs) and type(xs[e]) is DigestChar and
           xs[e].content is d.content and xs[e].hex == d.hex and
           xs[e].i == d.i + e - k):
        e += 1
    return e


def digest_seq_eq(xs, ys):
    """equality of sequences with digests in them"""
    xs, ys = list(xs), list(ys)
    conds = []
    k = 0
    while k < len(xs):
        a, b = xs[k], ys[k]
        if type(a) is not DigestChar and type(b) is not DigestChar:
            r = symstr.ch_eq(a, b)
            k += 1
        else:
            if type(a) is not DigestChar:
                a, b, p, q = b, a, ys, xs
            else:
                p, q = xs, ys
            e = _run(p, k)
            if type(b) is DigestChar:
                e = min(e, _run(q, k))
                if (b.i, b.hex, b.alg) != (a.i, a.hex, a.alg):
                    r = False
                elif e - k >= 8:
                    r = content_eq(a, b)
                elif content_eq(a, b) is True:
                    r = True
                else:
                    r = a.conc() == b.conc()
                    e = k + 1
            elif all(type(c) is str for c in q[k:e]) and e - k >= 8:
                t = ''.join(q[k:e])
                r = False
                for real, (alg, content) in list(REAL.items()):
                    if alg == a.alg and real[a.i:a.i + e - k] == t:
                        r = seq_eq_expr(a.content, content)
                        break
            else:
                # a digest against other characters: accidental equality
                # is not considered
                r = b in a.outs() and e - k < 8 and a.conc() == b
                e = k + 1
            k = e
        if r is False:
            return False
        if r is not True:
            conds.append(r)
    return mk_and(*conds)


def rank(d):
    """position of a digest in the (arbitrary) order of digests"""
    ENG = core.ENG
    ranks = ENG.ranks
    for c, e in ranks:
        if c is d.content:
            return e
    z3 = core.z3
    e = z3.Int('digest%d' % len(ranks))
    for c, f in ranks:
        same = core.bexpr(seq_eq_expr(c, d.content))
        ENG.assume_expr(same == (e == f))
    ranks.append((d.content, e))
    return e


def digest_lt(a, b):
    z3 = core.z3
    if content_eq(a, b) is True:
        return False
    ra, rb = rank(a), rank(b)
    return core.ENG.decide_expr(ra < rb)


class SymBytes(Sym):
    __slots__ = ('chars', '__weakref__')
    __class__ = property(lambda self: bytes)

    def __init__(self, chars):
        self.chars = list(chars)

    def _seq(self, o):
        return o.chars if type(o) is SymBytes else bytes_chars(o)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not SymBytes and not isinstance(o, bytes):
            return False
        return symstr.decide_seq_eq(self.chars, self._seq(o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __lt__(self, o):
        return symstr.SymStr(self.chars)._lt(symstr.SymStr(self._seq(o)))

    def __gt__(self, o):
        return symstr.SymStr(self._seq(o))._lt(symstr.SymStr(self.chars))

    def __hash__(self):
        return hash(concretise_bytes(self))

    def __add__(self, o):
        return SymBytes(self.chars + list(self._seq(o)))

    def __radd__(self, o):
        return SymBytes(list(self._seq(o)) + self.chars)

    def __getitem__(self, k):
        if type(k) is slice:
            return SymBytes(self.chars[k])
        return symstr_ord(self.chars[k.__index__()])

    def decode(self, encoding='utf-8', errors='strict'):
        return mk(self.chars)

    def __repr__(self):
        return '<SymBytes %d>' % len(self.chars)


def _bytes_strmethod(name):
    """bytes methods which correspond to those of str"""
    def conv(x):
        if type(x) is SymBytes:
            return mk(x.chars)
        if isinstance(x, bytes):
            return mk(bytes_chars(x))
        return x

    def back(x):
        if symstr.is_str(x):
            return SymBytes(chars_of(x))
        if isinstance(x, (list, tuple)):
            return type(x)(back(y) for y in x)
        return x

    def m(self, *a, **kw):
        return back(getattr(SymStr(self.chars), name)(
            *[conv(x) for x in a], **kw))
    return m


for _n in ('strip lstrip rstrip split rsplit splitlines replace startswith '
           'endswith find rfind index count partition rpartition').split():
    setattr(SymBytes, _n, _bytes_strmethod(_n))


def concretise_bytes(b):
    out = []
    for c in b.chars:
        if type(c) is DigestChar:
            c = c.conc() if type(c.norm()) is DigestChar else c.norm()
            out.append(c.encode('latin-1'))
        elif type(c) is str:
            out.append(to_bytes(c))
        else:
            out.append(to_bytes(concretise(SymStr([c]), 'bytes')))
    return b''.join(out)


def symstr_ord(c):
    return ord(concretise(SymStr([c]), 'bytes'))


def encode(s):
    return SymBytes(s.chars)


class SymHash:
    """A hash object"""

    def __init__(self, alg, data=b''):
        self.alg = alg
        self.name = alg
        self.content = []
        self.update(data)

    def update(self, data):
        if type(data) is SymBytes:
            self.content += data.chars
        elif isinstance(data, (bytes, bytearray)):
            self.content += bytes_chars(bytes(data))
        else:
            raise TypeError('object supporting the buffer API required')

    def copy(self):
        h = SymHash(self.alg)
        h.content = list(self.content)
        return h

    def _digest(self, hex):
        n = getattr(hashlib, self.alg)().digest_size * (2 if hex else 1)
        content = list(self.content)
        s = mk(content)
        if type(s) is str and not any(type(c) is DigestChar
                                      for c in content):
            r = real_digest(self.alg, s, hex)
            return r
        return [DigestChar(self.alg, hex, content, i) for i in range(n)]

    def hexdigest(self):
        r = self._digest(True)
        return r if type(r) is str else SymStr(r)

    def digest(self):
        r = self._digest(False)
        return r.encode('latin-1') if type(r) is str else SymBytes(r)


# --------------------------------------------------------------------- files

class SymFile:
    """An open file with symbolic contents"""

    def __init__(self, path, mode):
        self.path = path
        self.binary = 'b' in mode
        self.pos = 0
        self.closed = False
        self.chars = list(core.ENG.files[key(path)])

    def _mk(self, chars):
        return SymBytes(chars) if self.binary and chars else (
            b'' if self.binary else mk(chars))

    def read(self, n=-1):
        e = len(self.chars) if n is None or n < 0 else self.pos + n
        r = self.chars[self.pos:e]
        self.pos = min(e, len(self.chars))
        return self._mk(r)

    def readline(self):
        k = self.pos
        while k < len(self.chars) and not symstr.ch_is(
                self.chars[k], ('=', '\n'), lambda x: x == '\n'):
            k += 1
        r = self.chars[self.pos:k + 1]
        self.pos = min(k + 1, len(self.chars))
        return self._mk(r)

    def __iter__(self):
        while self.pos < len(self.chars):
            yield self.readline()

    def readlines(self):
        return list(self)

    def seek(self, n, whence=0):
        self.pos = n
        return n

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def key(path):
    return os.path.normpath(str(path))


def register(path, content):
    core.ENG.files[key(path)] = list(chars_of(content))


def lookup(path):
    ENG = core.ENG
    if ENG is None or not ENG.files:
        return None
    if type(path) is SymStr:
        return None
    try:
        p = key(path)
    except Exception:
        return None
    return p if p in ENG.files else None


symstr._Digest = DigestChar
