"""A backtracking regular expression matcher over symbolic strings.

The pattern is the one of the code under test (a compiled ``re`` or ``regex``
pattern); it is parsed with the standard library's sre_parse, and matched with
the leftmost, first-alternative semantics both modules share. Character classes
are evaluated with the real module on each character of an alphabet.
"""
import re
import sre_constants as sc
import sre_parse

from . import core
from .symstr import (SymStr, mk, chars_of, ch_is, ch_eq, decide_seq_eq,
                     is_str, concretise)

try:
    import regex as _regex
except ImportError:     # pragma: no cover
    _regex = None


class Unsupported(Exception):
    pass


_compiled = {}


def is_pattern(o):
    t = type(o)
    return t.__name__ == 'Pattern' and t.__module__ in ('re', '_regex',
                                                        'regex', '_sre')


def compiled(p):
    """The symbolic matcher of a real compiled pattern"""
    k = id(p)
    r = _compiled.get(k)
    if r is None:
        r = _compiled[k] = SymPattern(p)
    return r


_re_g = re.compile(r'\\g<(\w+)>')


class SymPattern:
    def __init__(self, p):
        self.real = p
        self.lib = _regex if type(p).__module__ in ('_regex', 'regex') else re
        flags = 0
        for name in 'IMSX':
            if p.flags & getattr(self.lib, name):
                flags |= getattr(re, name)
        if p.flags & self.lib.A:
            flags |= re.A
        self.ascii = bool(flags & re.A)
        pattern = p.pattern
        if not isinstance(pattern, str):
            raise Unsupported('bytes pattern')
        if self.lib is not re:
            pattern = _re_g.sub(
                lambda m: ('\\' + m.group(1) if m.group(1).isdigit()
                           else '(?P=%s)' % m.group(1)), pattern)
        try:
            tree = sre_parse.parse(pattern, flags)
        except re.error as e:
            raise Unsupported('pattern %r: %s' % (pattern, e))
        self.groupindex = dict(p.groupindex)
        self.ngroups = p.groups
        self.flags = tree.state.flags if hasattr(tree, 'state') else flags
        self.pattern = p.pattern
        self.m = self._seq(list(tree), self.flags)
        self.names = {v: k for k, v in self.groupindex.items()}

    # ---- compilation into matchers f(st, i, k) -> bool
    def _seq(self, items, flags):
        ms = [self._node(op, av, flags) for op, av in items]
        if not ms:
            return lambda st, i, k: k(i)
        if len(ms) == 1:
            return ms[0]

        def seq(st, i, k, ms=ms, n=len(ms)):
            def go(j, i):
                if j == n:
                    return k(i)
                return ms[j](st, i, lambda e: go(j + 1, e))
            return go(0, i)
        return seq

    def _charclass(self, name, pred):
        key = (self.lib.__name__, name)

        def one(st, i, k):
            if i >= st.end:
                return False
            if ch_is(st.chars[i], key, pred):
                return k(i + 1)
            return False
        return one

    def _cat_pred(self, cat):
        t = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D',
             sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
             sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[cat]
        p = self.lib.compile(t, self.lib.A if self.ascii else 0)
        return lambda c: p.match(c) is not None

    def _in_pred(self, av, flags):
        items = list(av)
        neg = bool(items) and items[0][0] is sc.NEGATE
        if neg:
            items = items[1:]
        tests = []
        for op, v in items:
            if op is sc.LITERAL:
                tests.append(lambda c, v=v: ord(c) == v)
            elif op is sc.RANGE:
                tests.append(lambda c, v=v: v[0] <= ord(c) <= v[1])
            elif op is sc.CATEGORY:
                tests.append(self._cat_pred(v))
            elif op is sc.NOT_LITERAL:
                tests.append(lambda c, v=v: ord(c) != v)
            else:
                raise Unsupported('set item %s' % op)

        def pred(c):
            return any(t(c) for t in tests)
        if flags & re.I:
            inner = pred

            def pred(c):
                return any(inner(x) for x in {c, c.lower(), c.upper()}
                           if len(x) == 1)
        if neg:
            return lambda c: not pred(c)
        return pred

    def _node(self, op, av, flags):
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            pred = self._in_pred([(sc.LITERAL, av)], flags)
            if op is sc.NOT_LITERAL:
                return self._charclass(('nlit', av, flags & re.I),
                                       lambda c: not pred(c))
            return self._charclass(('lit', av, flags & re.I), pred)
        if op is sc.ANY:
            if flags & re.S:
                return self._charclass('any', lambda c: True)
            return self._charclass('anynl', lambda c: c != '\n')
        if op is sc.IN:
            return self._charclass(('in', repr(av), flags & (re.I | re.A)),
                                   self._in_pred(av, flags))
        if op is sc.BRANCH:
            alts = [self._seq(list(a), flags) for a in av[1]]

            def branch(st, i, k):
                for a in alts:
                    if a(st, i, k):
                        return True
                return False
            return branch
        if op is sc.SUBPATTERN:
            group, add, rem, p = av
            inner = self._seq(list(p), (flags | add) & ~rem)
            if group is None:
                return inner

            def sub(st, i, k):
                old = st.groups[group]

                def done(e):
                    prev = st.groups[group]
                    st.groups[group] = (i, e)
                    if k(e):
                        return True
                    st.groups[group] = prev
                    return False
                if inner(st, i, done):
                    return True
                st.groups[group] = old
                return False
            return sub
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            inner = self._seq(list(p), flags)
            greedy = op is sc.MAX_REPEAT

            def rep(st, i, k):
                def go(n, i, last):
                    if n < lo:
                        return inner(st, i, lambda e: go(n + 1, e, i))

                    def more():
                        if hi is not sc.MAXREPEAT and n >= hi:
                            return False
                        # an empty iteration does not repeat
                        return inner(st, i, lambda e: (
                            False if e == i else go(n + 1, e, i)))
                    if greedy:
                        return more() or k(i)
                    return k(i) or more()
                return go(0, i, -1)
            return rep
        if op is sc.AT:
            return self._at(av, flags)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            inner = self._seq(list(p), flags)
            want = op is sc.ASSERT
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported('variable lookbehind')

                def look(st, i, k):
                    j = i - lo
                    ok = j >= 0 and inner(st, j, lambda e: e == i)
                    return k(i) if bool(ok) == want else False
                return look

            def look(st, i, k):
                ok = inner(st, i, lambda e: True)
                return k(i) if bool(ok) == want else False
            return look
        if op is sc.GROUPREF:
            def ref(st, i, k):
                g = st.groups[av]
                if g is None:
                    return False
                t = st.chars[g[0]:g[1]]
                if i + len(t) > st.end:
                    return False
                if decide_seq_eq(st.chars[i:i + len(t)], t):
                    return k(i + len(t))
                return False
            return ref
        if op is sc.GROUPREF_EXISTS:
            g, yes, no = av
            y = self._seq(list(yes), flags)
            n = (self._seq(list(no), flags) if no else
                 (lambda st, i, k: k(i)))
            return lambda st, i, k: (y if st.groups[g] else n)(st, i, k)
        raise Unsupported('regex operation %s' % op)

    def _at(self, av, flags):
        def nl(st, i):
            return ch_is(st.chars[i], ('=', '\n'), lambda c: c == '\n')
        multi = flags & re.M
        if av is sc.AT_BEGINNING and multi:
            return lambda st, i, k: ((i == 0 or nl(st, i - 1)) and k(i))
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return lambda st, i, k: i == 0 and k(i)
        if av is sc.AT_END and multi:
            return lambda st, i, k: ((i == st.end or nl(st, i)) and k(i))
        if av is sc.AT_END:
            return lambda st, i, k: ((i == st.end or
                                      (i == st.end - 1 and nl(st, i))) and
                                     k(i))
        if av is sc.AT_END_STRING:
            return lambda st, i, k: i == st.end and k(i)
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            pw = self._cat_pred(sc.CATEGORY_WORD)
            key = (self.lib.__name__, r'\w', self.ascii)

            def w(st, i):
                return 0 <= i < st.end and ch_is(st.chars[i], key, pw)
            want = av is sc.AT_BOUNDARY
            return lambda st, i, k: ((w(st, i - 1) != w(st, i)) == want and
                                     k(i))
        raise Unsupported('anchor %s' % av)

    # ---- matching
    def _match(self, s, chars, i, end, full=False, nonempty=False):
        st = _State(chars, end, self.ngroups)
        res = []

        def final(e):
            if full and e != end:
                return False
            if nonempty and e == i:
                return False
            res.append(e)
            return True
        core.ENG.step()
        if self.m(st, i, final):
            st.groups[0] = (i, res[0])
            return SymMatch(self, s, st.groups)
        return None

    @staticmethod
    def _bounds(s, pos, endpos):
        n = len(s)
        pos = 0 if pos is None else min(max(pos.__index__(), 0), n)
        end = n if endpos is None else min(max(endpos.__index__(), 0), n)
        return list(chars_of(s)), pos, end

    def match(self, s, pos=None, endpos=None):
        chars, pos, end = self._bounds(s, pos, endpos)
        return self._match(s, chars, pos, end) if pos <= end else None

    def fullmatch(self, s, pos=None, endpos=None):
        chars, pos, end = self._bounds(s, pos, endpos)
        return self._match(s, chars, pos, end, True) if pos <= end else None

    def _search(self, s, chars, pos, end, nonempty=False):
        for i in range(pos, end + 1):
            m = self._match(s, chars, i, end,
                            nonempty=(nonempty and i == pos))
            if m is not None:
                return m
        return None

    def search(self, s, pos=None, endpos=None):
        chars, pos, end = self._bounds(s, pos, endpos)
        return self._search(s, chars, pos, end)

    def finditer(self, s, pos=None, endpos=None):
        chars, pos, end = self._bounds(s, pos, endpos)
        nonempty = False
        while pos <= end:
            m = self._search(s, chars, pos, end, nonempty)
            if m is None:
                return
            yield m
            nonempty = m.end() == m.start()
            pos = m.end()

    def findall(self, s, pos=None, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.ngroups == 0:
                out.append(m.group())
            elif self.ngroups == 1:
                out.append(m.group(1) if m.group(1) is not None else '')
            else:
                out.append(tuple('' if g is None else g for g in m.groups()))
        return out

    def subn(self, repl, s, count=0):
        out, last, n = [], 0, 0
        chars = list(chars_of(s))
        f = self._repl(repl)
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += chars[last:m.start()]
            r = f(m)
            if r is not None:
                out += list(chars_of(r))
            last = m.end()
            n += 1
        out += chars[last:]
        return mk(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def _repl(self, repl):
        if not is_str(repl):
            from . import rt
            return lambda m: rt.call(repl, m)
        if type(repl) is SymStr:
            if '\\' in repl:
                repl = concretise(repl)
            else:
                return lambda m: repl
        if '\\' not in repl:
            return lambda m: repl
        return lambda m: m.expand(repl)

    def split(self, s, maxsplit=0):
        out, last, n = [], 0, 0
        chars = list(chars_of(s))
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            if self.lib is not re and m.start() == m.end():
                # regex, version 0 behaviour: as re does
                pass
            out.append(mk(chars[last:m.start()]))
            out += list(m.groups())
            last = m.end()
            n += 1
        out.append(mk(chars[last:]))
        return out


class _State:
    __slots__ = ('chars', 'end', 'groups')

    def __init__(self, chars, end, ngroups):
        self.chars = chars
        self.end = end
        self.groups = [None] * (ngroups + 1)


class SymMatch:
    """A match object"""

    def __init__(self, pat, s, spans):
        self.sympat = pat
        self.re = pat.real
        self.string = s
        self.spans = list(spans)

    def _idx(self, g):
        if is_str(g):
            if type(g) is SymStr:
                g = concretise(g)
            if g not in self.sympat.groupindex:
                raise IndexError('no such group')
            return self.sympat.groupindex[g]
        if not 0 <= g < len(self.spans):
            raise IndexError('no such group')
        return g

    def _g(self, g, default=None):
        sp = self.spans[self._idx(g)]
        if sp is None:
            return default
        return mk(list(chars_of(self.string))[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    def __getitem__(self, g):
        return self._g(g)

    def groups(self, default=None):
        return tuple(self._g(i, default) for i in range(1, len(self.spans)))

    def groupdict(self, default=None):
        return {k: self._g(v, default)
                for k, v in self.sympat.groupindex.items()}

    def span(self, g=0):
        sp = self.spans[self._idx(g)]
        return (-1, -1) if sp is None else sp

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastgroup(self):
        return self.sympat.names.get(self.lastindex)

    @property
    def lastindex(self):
        best = None
        for i in range(1, len(self.spans)):
            if self.spans[i] is not None and (
                    best is None or self.spans[i][1] >= self.spans[best][1]):
                best = i
        return best

    def expand(self, template):
        groups, literals = sre_parse.parse_template(
            template, re.compile(''.join(
                '(?P<%s>)' % self.sympat.names[i] if i in self.sympat.names
                else '()' for i in range(1, len(self.spans)))))
        lits = list(literals)
        for i, g in groups:
            lits[i] = self._g(g, '')
        out = []
        for x in lits:
            out += list(chars_of(x))
        return mk(out)

    def __bool__(self):
        return True
