"""C01: parsing of tags is faithful to the source text."""
from symex.api import harness, ASCII, WIDE
from symex import util
from disseminate.tags.tag import Tag
from disseminate.tags.exceptions import TagError
from disseminate.attributes import Attributes

# quotes and dashes are subject to the typography rules (see C09)
ALPHA = frozenset(ASCII) - frozenset('"\'-')
NAME0 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def isname0(c):
    return c in NAME0


def isname(c):
    return c.isalnum() or c == '_'


def reference(s):
    """(parsed, ok): an independent parser of the tag language. parsed is a
    list of strings and (name, attribute string or None, parsed or None)"""
    out = []
    text = ''
    i = 0
    n = len(s)
    while i < n:
        if s[i] == '@' and i + 1 < n and isname0(s[i + 1]):
            j = i + 2
            while j < n and isname(s[j]):
                j += 1
            name = s[i + 1:j]
            attrs = None
            if j < n and s[j] == '[':
                k = j + 1
                while k < n and s[k] != ']':
                    k += 1
                if k < n and k > j + 1:
                    attrs = s[j + 1:k]
                    j = k + 1
            content = None
            if j < n and s[j] == '{':
                depth = 1
                k = j + 1
                while k < n:
                    if s[k] == '{':
                        depth += 1
                    elif s[k] == '}':
                        depth -= 1
                        if depth == 0:
                            break
                    k += 1
                if depth:
                    return out, False
                content, ok = reference(s[j + 1:k])
                if not ok:
                    return out, False
                j = k + 1
            if text:
                out.append(text)
                text = ''
            out.append((name, attrs, content))
            i = j
        else:
            text = text + s[i]
            i += 1
    if text:
        out.append(text)
    return out, True


def tree(content):
    """The parsed contents of a tag, in the form of the reference"""
    if isinstance(content, str):
        return [content] if len(content) else []
    if isinstance(content, list):
        return [node(x) for x in content]
    return [node(content)]


def node(x):
    if isinstance(x, str):
        return x
    return (x.name, x.attributes, tree(x.content))


def same(sx, got, want):
    if len(got) != len(want):
        return False
    conds = []
    for g, w in zip(got, want):
        if isinstance(w, str):
            conds.append(sx.eq(g, w))
        elif isinstance(g, str):
            return False
        else:
            conds.append(sx.eq(g[0], w[0]))
            conds.append(sx.eq(list(g[1].items()),
                               list(Attributes(w[1] or '').items())))
            conds.append(same(sx, g[2], w[2] or []))
    return sx.all(*conds)


def run(sx, s):
    ctx = util.context(inactive=True)
    want, ok = reference(s)
    try:
        tag = Tag(name='root', content=s, attributes='', context=ctx)
    except TagError:
        sx.check(not ok, 'an error is raised only for an unclosed tag')
        sx.observe('error')
        return
    sx.check(ok, 'an unclosed tag is reported')
    got = tree(tag.content)
    sx.check(same(sx, got, want), 'the tag tree is the one of the source')
    sx.observe(got)


@harness('C01', [dict(n=i) for i in range(0, 5)],
         [dict(n=i) for i in range(0, 7)])
def any_text(sx, n):
    """Every text of n characters over printable ASCII (without quotes and
    dashes): tree of the parsed tag equals that of a reference parser."""
    run(sx, sx.str('s', n, ALPHA))


@harness('C01', [dict(a=1, b=1, c=1), dict(a=2, b=0, c=1), dict(a=0, b=2, c=1),
          dict(a=0, b=1, c=2)],
         [dict(a=2, b=2, c=2), dict(a=0, b=5, c=2), dict(a=1, b=3, c=1)])
def inside_tags(sx, a, b, c):
    """@x[A]{@y{B}C} with symbolic A, B, C: nesting with attributes"""
    A = sx.str('a', a, ALPHA)
    B = sx.str('b', b, ALPHA)
    C = sx.str('c', c, ALPHA)
    run(sx, 'p@x' + (('[' + A + ']') if a else '') + '{@y{' + B + '}' + C +
        '}q')


@harness('C01', [dict(n=6)], [dict(n=7), dict(n=8)])
def braces(sx, n):
    """Texts over @, a letter, braces and a bracket pair: deeper nesting"""
    run(sx, 'p@a' + sx.str('s', n, '@a{}'))


@harness('C01', [dict(n=4)], [dict(n=5), dict(n=6)])
def attrs(sx, n):
    """A tag followed by attribute brackets and contents"""
    run(sx, '@a' + sx.str('s', n, '[]{}=b @') + '}')
