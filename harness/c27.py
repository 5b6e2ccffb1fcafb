"""C27: title pages, lists of authors, boxes and listings show what was given."""
from symex.api import harness
from symex import util
from disseminate.tags.tag import Tag
from disseminate.tags.code import Code
from disseminate.tags import TagFactory
from disseminate.tags.preamble import Authors, Titlepage
from disseminate.tags import code as code_module
from disseminate.paths import SourcePath
from harness.c10 import walk
from harness.c14 import project

NAMES = 'aB .&'
SEPS = {'semicolon': ';', 'newline': '\n', 'comma': ','}


def listed(names):
    """The text of a list of names"""
    if len(names) == 0:
        return ''
    text = names[0]
    for i, n in enumerate(names[1:], 2):
        text = text + (' and ' if i == len(names) else ', ') + n
    return text


def given(sx, key, n, m, alpha=NAMES):
    """Text with names and the names it has"""
    sep = SEPS[sx.choice('sep', sorted(SEPS))] if m > 1 else ''
    parts = [sx.str('%s%d' % (key, i), (0, n), alpha) for i in range(m)]
    names = [p.strip() for p in parts]
    return sep.join(parts), [x for x in names if x != ''], names


def texts(e):
    return e if isinstance(e, str) else ''.join(texts(x) for x in e[2])


def shown(tag, fmt, **kwargs):
    """The text of the tag in the format"""
    if fmt in ('html', 'xhtml'):
        return texts(walk(getattr(tag, fmt + '_fmt')(level=2, **kwargs)))
    return getattr(tag, fmt)


@harness('C27', [dict(n=2, m=1), dict(n=2, m=2), dict(n=1, m=3)],
         [dict(n=4, m=1), dict(n=3, m=2), dict(n=2, m=3)])
def authors(sx, n, m):
    """The names given in the contents of the tag, or else in the header, are
    listed in their order"""
    how = sx.choice('how', ['content', 'both', 'author', 'authors', 'list',
                            'two'])
    if how in ('list', 'two'):
        names = [sx.str('a%d' % i, (1, n), 'aB&') for i in range(m)]
        value = list(names)
    else:
        value, names, every = given(sx, 'a', n, m)
    entries = {}
    content = ''
    if how == 'content':
        sx.assume(value.strip() != '')
        content = value
    elif how == 'both':
        sx.assume(value.strip() != '')
        content = value
        entries['author'] = 'zz'
    elif how == 'author':
        entries['author'] = value
    elif how == 'two':
        entries['author'] = value
        entries['authors'] = 'zz'
    else:
        entries['authors'] = value
    ctx = util.context(**entries)
    within = sx.choice('within', [False, True])
    if within:
        # as a part of a text
        root = Tag(name='root', content='p@%s{%s}q' %
                   (sx.choice('name', ['author', 'authors']), content),
                   attributes='', context=ctx)
        sx.check_eq(root.txt, 'p' + listed(names) + 'q',
                    'names which are listed in a text')
        tag = [t for t in root.flatten() if isinstance(t, Authors)][0]
    else:
        tag = Authors(name='authors', content=content, attributes='',
                      context=ctx)
    fmt = sx.choice('fmt', ['default', 'txt', 'tex', 'html', 'xhtml'])
    got = shown(tag, fmt)
    sx.check_eq(got, listed(names), 'names which are listed')
    if fmt == 'html':
        e = walk(tag.html_fmt(level=2))
        sx.check(e[0] == 'span' and e[1].get('class') == 'authors',
                 'element of the authors', got=e)
    sx.observe(got)


@harness('C27', [dict(n=1), dict(n=2)], [dict(n=3), dict(n=4)])
def tagged(sx, n):
    """Tags in a list of authors are shown where they are"""
    a = sx.str('a', n, 'aB &,')
    b = sx.str('b', n, 'aB &;')
    src = '@author{' + a + '@b{k' + b + '}' + a + '}'
    root = Tag(name='root', content=src, attributes='', context=util.context())
    fmt = sx.choice('fmt', ['txt', 'tex', 'html', 'xhtml'])
    want = (a + '\\textbf{k' + b + '}' + a if fmt == 'tex' else
            a + 'k' + b + a)
    sx.check_eq(shown(root.content, fmt), want, 'text of the authors')


@harness('C27', [dict(n=2, m=1), dict(n=1, m=2)],
         [dict(n=4, m=2), dict(n=2, m=3)])
def titlepage(sx, n, m):
    """A title page has the title of the document as its heading, and its
    authors"""
    man, (ctx,) = project('a.dm')
    title = sx.str('t', (0, n), 'a <')
    value, names, every = given(sx, 'a', 1, m, 'a&')
    has = sx.choice('has', ['both', 'title', 'author', 'none'])
    if has in ('both', 'title'):
        ctx['title'] = title
    if has in ('both', 'author'):
        ctx[sx.choice('key', ['author', 'authors'])] = value
    tag = Titlepage(name='titlepage', content='', attributes='', context=ctx)
    fmt = sx.choice('fmt', ['html', 'xhtml', 'tex'])
    if fmt == 'tex':
        sx.check_eq(tag.tex, '\n\\maketitle\n\n', 'title page in tex')
        return
    e = walk(getattr(tag, fmt + '_fmt')(level=2))
    sx.check(e[0] == 'div' and e[1].get('class') == 'title-page',
             'element of the title page', got=e)
    inside = [x for x in e[2] if not isinstance(x, str)]
    sx.check_eq([x[0] for x in inside], ['h1', 'span'],
                'elements of the title page')
    sx.check_eq(texts(inside[0]).strip(),
                title.strip() if has in ('both', 'title') else '',
                'title of the title page')
    sx.check_eq(texts(inside[1]),
                listed(names) if has in ('both', 'author') else '',
                'authors of the title page')
    sx.check_eq(texts(e), texts(inside[0]) + texts(inside[1]),
                'text of the title page')


@harness('C27', [dict(n=1), dict(n=2)], [dict(n=3), dict(n=4)])
def boxes(sx, n):
    """A box has the kind it is given, the attributes and its contents"""
    s = sx.str('s', n, 'a <&')
    c = sx.str('c', (0, 2), 'ab')
    cls = sx.choice('class', [False, True])
    kind = sx.choice('kind', ['featurebox', 'examplebox', 'problembox'])
    other = sx.choice('other', ['', 'id=q '])
    twice = sx.choice('twice', [False, True])
    src = '@' + kind + ('[' + other + 'class="' + c + '"]' if cls else '') + \
        '{' + s + '@b{k}}'
    tag = Tag(name='root', content=src, attributes='', context=util.context())
    tag = tag.content
    fmt = sx.choice('fmt', ['html', 'xhtml', 'tex', 'txt'])
    if twice:
        # rendering it does not change it
        tag.html_fmt(level=2)
    if fmt == 'txt':
        sx.check_eq(tag.txt, s + 'k', 'text of the box')
    elif fmt == 'tex':
        sx.check_eq(tag.tex, '\n\\begin{' + kind + '}\n' + s +
                    '\\textbf{k}\n\\end{' + kind + '}\n', 'box in tex')
    else:
        e = walk(getattr(tag, fmt + '_fmt')(level=2))
        sx.check_eq(e[0], 'div', 'element of the box')
        got = e[1].get('class', '').split()
        want = ['featurebox'] if kind == 'featurebox' else ['featurebox', kind]
        for w in want:
            sx.check(w in got, 'class of the box', got=got)
        if cls:
            for w in c.split():
                sx.check(w in got, 'class which is given to the box', got=got)
        sx.check_eq(texts(e), s + 'k', 'text of the box')


class Formatter(object):
    def __init__(self, cssclass=None):
        self.cssclass = cssclass


@harness('C27', [dict(n=1), dict(n=2)], [dict(n=3), dict(n=4)])
def listings(sx, n):
    """A listing has the text of its files, or its own text, and is formatted
    as the language it is given"""
    calls = []

    def highlight(content, lexer, formatter):
        calls.append((content, lexer, formatter))
        return '<p>kk</p>'

    sx.patch(code_module, 'highlight', highlight)
    d = SourcePath(sx.scratch())
    s = sx.str('s', n, 'a <&@{\n')
    t = sx.str('t', (0, 1), 'b ')
    sx.file(str(d / 'x.py'), s)
    sx.file(str(d / 'y.py'), t)
    where = sx.choice('where', ['own', 'file', 'two', 'other'])
    content = {'own': 'p' + s, 'file': 'x.py', 'two': '\nx.py\n\n y.py \n'
               if sx.choice('spaces', [False, True]) else 'y.py\nx.py',
               'other': 'z.py'}[where]
    want = {'own': 'p' + s, 'file': s, 'other': 'z.py',
            'two': s + '\n' + t if content.startswith('\n') else
            t + '\n' + s}[where]
    files = {'own': [], 'other': [], 'file': ['x.py'],
             'two': ['x.py', 'y.py'] if content.startswith('\n') else
             ['y.py', 'x.py']}[where]
    name, attr, lexer = sx.choice('language', [
        ('code', 'python', 'Python'), ('code', 'ruby', 'Ruby'),
        ('python', '', 'Python'), ('html', '', 'HTML'), ('ruby', '', 'Ruby'),
        ('java', '', 'Java'), ('javascript', '', 'JavaScript'),
        ('code', 'class="q" java', 'Java')])
    ctx = util.context(paths=[d])
    tag = TagFactory.tag(tag_name=name, tag_content=content,
                         tag_attributes=attr, context=ctx)
    tag.paragraph_role = sx.choice('role', ['block', 'inline'])
    sx.check_eq([str(p) for p in tag.filepaths], [str(d / f) for f in files],
                'files of the listing')
    fmt = sx.choice('fmt', ['html', 'xhtml', 'tex'])
    if fmt == 'tex':
        got = tag.tex_fmt()
    else:
        e = walk(getattr(tag, fmt + '_fmt')(level=2))
    if tag.paragraph_role == 'inline':
        sx.check(len(calls) == 0, 'listing in a paragraph')
        if fmt != 'tex':
            sx.check_eq(e[0], 'code', 'element of the listing')
            sx.check_eq(texts(e), want, 'text of the listing')
        return
    sx.check(len(calls) == 1, 'times the listing is formatted', got=len(calls))
    sx.check_eq(calls[0][0], want, 'text of the listing')
    sx.check(calls[0][1].name == lexer, 'language of the listing',
             got=calls[0][1].name)
    kind = {'tex': 'LaTeX'}.get(fmt, 'HTML')
    sx.check(calls[0][2].name == kind, 'format of the listing',
             got=calls[0][2].name)
    if fmt == 'tex':
        sx.check_eq(got, '<p>kk</p>', 'listing in tex')
    else:
        sx.check_eq(texts(e).strip(), 'kk', 'listing in html')
