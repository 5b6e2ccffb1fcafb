"""C09: literal contents (verbatim text and code) are kept as written."""
from symex.api import harness, ASCII
from symex import util
from disseminate.tags.text import Body
from harness.c10 import walk

ALPHA = frozenset(ASCII) - frozenset('{}')


def build(s):
    ctx = util.context()
    ctx['process_paragraphs'] = {'body'}
    ctx['paths'] = []
    return Body(name='body', content=s, attributes='', context=ctx)


def check(sx, s, names, contents):
    body = build(s)
    tags = [t for t in body.flatten() if t.name in names]
    sx.check(len(tags) == len(contents), 'the literal tags are there',
             got=[t.name for t in tags])
    for t, c in zip(tags, contents):
        sx.check_eq(t.content, c, 'literal contents')
        sx.check_eq(t.txt, c, 'text of a literal tag')
    sx.observe([t.content for t in tags])


NAMES = ['v', 'verb', 'verbatim', 'pre']


@harness('C09', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def verbatim(sx, n):
    """Any text without braces in a verbatim tag"""
    s = sx.str('s', n, ALPHA)
    name = sx.choice('name', NAMES)
    where = sx.choice('where', ['@%s{%s}', 'a @%s{%s} b',
                                'a\n\n@%s{%s}\n\nb', 'x @b{@%s{%s} c} d'])
    check(sx, where % (name, s), (name,), [s])


MARKUP = '@b[]-"\' \n'


@harness('C09', [dict(a=1, b=2), dict(a=2, b=1), dict(a=3, b=0)],
         [dict(a=2, b=2), dict(a=3, b=1), dict(a=1, b=3), dict(a=4, b=0)])
def markup(sx, a, b):
    """Markup, dashes, quotes and blank lines in a verbatim or code tag, in
    all positions within a body"""
    A = sx.str('a', a, MARKUP)
    B = sx.str('b', b, MARKUP)
    s = A + '@b{' + B + '}' + A
    name = sx.choice('name', ['v', 'verbatim', 'code'])
    if name == 'code':
        from disseminate.tags import code
        sx.patch(code, 'find_files', no_files)
    where = sx.choice('where', ['@%s{%s}', 'a @%s{%s} b',
                                'a\n\n@%s{%s}\n\nb', 'x @b{c @%s{%s}} d'])
    check(sx, where % (name, s), (name,), [s])


def no_files(*a, **kw):
    return []


def texts(e):
    """All text of an element"""
    return e if isinstance(e, str) else ''.join(texts(x) for x in e[2])


@harness('C09', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def rendered(sx, n):
    """The text of the rendered elements and commands of a literal tag"""
    s = sx.str('s', n, 'a@<&|! \n-"')
    name = sx.choice('name', ['v', 'verb', 'verbatim', 'pre', 'code'])
    if name == 'code':
        from disseminate.tags import code
        sx.patch(code, 'find_files', no_files)
    src = 'x @%s{%s} y' % (name, s)
    body = build(src)
    tag = [t for t in body.flatten() if t.name == name][0]
    tag.paragraph_role = 'inline'
    fmt = sx.choice('fmt', ['html_fmt', 'xhtml_fmt', 'tex_fmt'])
    if fmt == 'tex_fmt':
        got = tag.tex_fmt()
        if name == 'verbatim':
            start, end = '\n\\begin{verbatim}', '\\end{verbatim}\n'
            sx.check(got.startswith(start) and got.endswith(end),
                     'environment of a literal tag', got=got)
            got = got[len(start):-len(end)]
            # the environment starts and ends on lines of its own
            want = s if s.startswith('\n') else '\n' + s
            want = want if want.endswith('\n') else want + '\n'
            sx.check_eq(got, want, 'text of the environment')
        else:
            out = ''
            i = 0
            while i < len(got):
                sx.check(got[i:i + 5] == '\\verb', 'command of a literal tag',
                         got=got)
                d = got[i + 5]
                j = i + 6
                while got[j] != d:
                    j += 1
                out = out + got[i + 6:j]
                i = j + 1
            sx.check_eq(out, s, 'text of the commands')
    else:
        e = getattr(tag, fmt)(level=2)
        sx.check_eq(texts(walk(e)), s, 'text of the element')
