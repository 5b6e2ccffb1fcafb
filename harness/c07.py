"""C07: typography: dashes and quotes are replaced, and nothing else."""
from symex.api import harness, ASCII
from symex import util
from disseminate.tags.tag import Tag
from disseminate.tags.receivers.typography import process_tag_typography

NDASH, MDASH = '\u2013', '\u2014'
LS, RS, LD, RD = '\u2018', '\u2019', '\u201c', '\u201d'


def dashes(s, old, new):
    """Replace dashes and remove the blanks around them"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        k = 0
        if s[i] == new:
            k = 1
        elif s[i:i + len(old)] == old:
            k = len(old)
        if k:
            while out and out[-1].isspace():
                out.pop()
            out.append(new)
            i += k
            while i < n and s[i].isspace():
                i += 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def isword(c):
    return c.isalnum() or c == '_'


def reference(s):
    s = dashes(s, '---', MDASH)
    s = dashes(s, '--', NDASH)
    out = ''
    n = len(s)
    for i in range(n):
        c = s[i]
        if c == "'" or c == '"':
            wb = i > 0 and isword(s[i - 1])
            wa = i + 1 < n and isword(s[i + 1])
            nb = i > 0 and not s[i - 1].isspace()
            na = i + 1 < n and not s[i + 1].isspace()
            if c == "'":
                if wb and wa:
                    c = RS
                elif not wb and na:
                    c = LS
                elif nb and not wa:
                    c = RS
            else:
                if not wb and na:
                    c = LD
                elif nb and not wa:
                    c = RD
        out = out + c
    return out


ALPHA = 'a1_ \t\n-\'".,(\u2013\u2014\u00a0'


@harness('C07', [dict(n=i) for i in range(0, 5)],
         [dict(n=i) for i in range(0, 7)])
def text(sx, n):
    """The text of a tag: dashes and quotes"""
    s = sx.str('s', n, ALPHA)
    ctx = util.context(inactive=True)
    got = Tag(name='root', content=s, attributes='', context=ctx).content
    sx.check_eq(got, reference(s), 'typography of a text')
    sx.observe(got)


@harness('C07', [dict(n=5), dict(n=6)], [dict(n=7), dict(n=8)])
def runs(sx, n):
    """Runs of dashes and blanks"""
    s = sx.str('s', n, '- a\t')
    ctx = util.context(inactive=True)
    got = Tag(name='root', content='a' + s + 'b', attributes='',
              context=ctx).content
    sx.check_eq(got, reference('a' + s + 'b'), 'typography of dashes')
    sx.observe(got)


@harness('C07', [dict(n=5)], [dict(n=6), dict(n=7)])
def quotes(sx, n):
    """Quotes next to each other, to letters and to punctuation"""
    s = sx.str('s', n, '\'"a (')
    ctx = util.context(inactive=True)
    got = Tag(name='root', content=s, attributes='', context=ctx).content
    sx.check_eq(got, reference(s), 'typography of quotes')
    sx.observe(got)


@harness('C07', [dict(n=3)], [dict(n=4), dict(n=5)])
def plain(sx, n):
    """A text without dashes and quotes is kept (any ASCII character)"""
    s = sx.str('s', n, frozenset(ASCII) - frozenset('-\'"@'))
    ctx = util.context(inactive=True)
    got = Tag(name='root', content=s, attributes='', context=ctx).content
    sx.check_eq(got, s, 'text without dashes and quotes')
    sx.observe(got)


@harness('C07', [dict(n=1), dict(n=2)], [dict(n=3), dict(n=4)])
def tree(sx, n):
    """Each text of a tag tree, at any depth"""
    a = sx.str('a', n, 'x -\'"')
    b = sx.str('b', n, 'x -\'"')
    ctx = util.context(inactive=True)
    s = 'p' + a + '@b{q' + b + '@i{' + a + 'r}' + b + '}' + a + 's'
    got = Tag(name='root', content=s, attributes='', context=ctx).content

    def shape(c):
        if isinstance(c, str):
            return c
        if isinstance(c, list):
            return [shape(x) for x in c]
        return [shape(c.content)]
    want = [reference('p' + a),
            [[reference('q' + b), [reference(a + 'r')]] +
             ([reference(b)] if n else [])], reference(a + 's')]
    sx.check_eq(shape(got), want, 'typography in the tags')
    sx.observe(shape(got))
