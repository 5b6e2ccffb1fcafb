"""C12: tex rendering: commands, environments, arguments and texts."""
from symex.api import harness, PRINT
from symex import util
from disseminate import settings
from disseminate.formats import tex_cmd, tex_env, tex_verb, TexFormatError
from disseminate.tags.tag import Tag
from disseminate.tags.text import Body

WRAP = frozenset(PRINT) - frozenset('@{}"\'-')

CMDS = {'b': ('\\textbf{', '}'), 'bold': ('\\textbf{', '}'),
        'i': ('\\textit{', '}'),
        'sup': ('\\ensuremath{^{', '}}'), 'sub': ('\\ensuremath{_{', '}}'),
        'marginnote': ('\\marginnote{', '}'), 'unknown': ('', ''),
        'h6': ('\\paragraph{', '}'),
        'featurebox': ('\n\\begin{featurebox}\n', '\n\\end{featurebox}\n'),
        'examplebox': ('\n\\begin{examplebox}\n', '\n\\end{examplebox}\n'),
        'fig': ('\n\\begin{figure}\n', '\n\\end{figure}\n'),
        'ffig': ('\n\\begin{figure*}\n', '\n\\end{figure*}\n'),
        'verbatim': ('\n\\begin{verbatim}\n', '\n\\end{verbatim}\n')}


@harness('C12', [dict(n=1), dict(n=2)], [dict(n=3), dict(n=4)])
def text(sx, n):
    """The text of a tag is the text of its command or environment"""
    s = sx.str('s', n, WRAP)
    name = sx.choice('name', sorted(CMDS))
    ctx = util.context()
    src = 'p@' + name + '{' + s + '}q'
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    a, z = CMDS[name]
    got = tag.tex
    sx.check_eq(got, 'p' + a + s + z + 'q', 'tex of the tag')
    sx.check_eq(tag.txt, 'p' + s + 'q', 'plain text of the tag')
    sx.check_eq(tag.default, 'p' + s + 'q', 'plain text of the tag')
    sx.observe(got)


@harness('C12', [dict(a=1, b=1, c=1), dict(a=0, b=2, c=0)],
         [dict(a=2, b=2, c=1), dict(a=0, b=3, c=1)])
def nested(sx, a, b, c):
    """Texts and commands are in the order of the source, at each level"""
    A = sx.str('a', a, WRAP)
    B = sx.str('b', b, WRAP)
    C = sx.str('c', c, WRAP)
    inner = sx.choice('inner', ['i', 'unknown', 'sup'])
    ctx = util.context()
    src = A + '@b{' + B + '@' + inner + '{' + A + '}@sub{' + C + '@b{' + B + \
        '}}' + C + '}@x{' + C + '@b{' + B + '}}' + B
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    p, z = CMDS[inner]
    want = A + '\\textbf{' + B + p + A + z + '\\ensuremath{_{' + C + \
        '\\textbf{' + B + '}}}' + C + '}' + C + '\\textbf{' + B + '}' + B
    sx.check_eq(tag.tex, want, 'tex of the tag')
    sx.check_eq(tag.txt, A + B + A + C + B + C + C + B + B,
                'plain text of the tag')
    sx.observe(want)


@harness('C12', [dict(a=1, b=1), dict(a=2, b=0)],
         [dict(a=2, b=1), dict(a=2, b=2)])
def math(sx, a, b):
    """Tags in an equation are rendered for math mode, in one wrapper"""
    A = sx.str('a', a, 'xY1+ ')
    B = sx.str('b', b, 'xY1+')
    inner = sx.choice('inner', ['sup', 'sub', 'symbol', 'b', 'eq', 'supsub'])
    attr = sx.choice('attr', ['', '[bold]', '[color=blue]',
                              '[bold color=red]', '[env=align]',
                              '[env=align*]', '[bold.tex]', '[bold.html]'])
    name = sx.choice('name', ['eq', 'term', 'termb'])
    if inner == 'supsub':
        body = '@supsub{ ' + B + '&&k }'
        innertex = '^{' + B + '}_{k}'
    elif inner == 'symbol':
        body = '@symbol{alpha' + B.replace('+', 'p') + '}'
        innertex = '\\alpha' + B.replace('+', 'p')
    else:
        body = '@' + inner + '{k' + B + '}'
        p, z = {'sup': ('^{', '}'), 'sub': ('_{', '}'),
                'b': ('\\textbf{', '}'), 'eq': ('', '')}[inner]
        innertex = p + 'k' + B + z
    ctx = util.context()
    ctx['process_paragraphs'] = set()
    src = 'p@' + name + attr + '{a' + A + body + 'z}q'
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    want = 'a' + A + innertex + 'z'
    if 'color' in attr:
        want = '\\textcolor{' + ('blue' if 'blue' in attr else 'red') + \
            '}{' + want + '}'
    if attr in ('[bold]', '[bold color=red]') or name == 'termb':
        want = '\\boldsymbol{' + want + '}'
    if attr == '[bold.tex]':
        # written for this target only
        sx.assume(name != 'termb')
        return
    if 'env' in attr:
        env = attr[5:-1]
        want = '\\begin{' + env + '} %\n' + want + '\n\\end{' + env + '}'
    else:
        want = '\\ensuremath{' + want + '}'
    sx.check_eq(tag.tex, 'p' + want + 'q', 'tex of the equation')
    sx.observe(want)


@harness('C12', [dict(n=1), dict(n=2)], [dict(n=3)])
def arguments(sx, n):
    """Required and optional arguments of commands and environments: those
    for tex, in the order of the settings"""
    v = sx.str('v', n, 'ab0.*|')
    w = sx.str('w', 1, '019')
    sx.assume(len(v.strip('.*|')) > 0 and v[-1] != '.')
    sx.assume('.' not in v)
    kind = sx.choice('kind', ['width', 'height', 'both', 'other', 'word',
                              'number', 'word number', 'number word'])
    name = sx.choice('name', ['includegraphics', 'textbf', 'textcolor',
                              'setcounter', 'href', 'unlisted',
                              'tabular', 'alignat', 'figure', 'table',
                              'easylist', 'panel'])
    suffix = sx.choice('suffix', ['', '.tex', '.html'])
    entries = {'width': [('width', v)], 'height': [('height', v)],
               'both': [('height', w), ('width', v)],
               'other': [('title', v)], 'word': [('x' + v, None)],
               'number': [('1' + w, None)],
               'word number': [('x' + v, None), ('1' + w, None)],
               'number word': [('1' + w, None), ('x' + v, None)]}[kind]
    src = ' '.join([k + suffix + ('="' + x + '"' if x is not None else '')
                    for k, x in entries])
    for_tex = entries if suffix != '.html' else []
    words = [k for k, x in for_tex if x is None and k[0] == 'x']
    numbers = [k for k, x in for_tex if x is None and k[0] == '1']
    kws = {k: x for k, x in for_tex if x is not None}
    env = name in ('tabular', 'alignat', 'figure', 'table', 'easylist',
                   'panel')
    missing = False
    args = opts = ''
    if name in ('textcolor', 'href', 'tabular', 'panel'):
        missing = not words
        args = ''.join(['{' + x + '}' for x in words])
    elif name == 'setcounter':
        missing = not words or not numbers
        if not missing:
            args = '{' + words[0] + '}{' + numbers[0] + '}'
    elif name == 'alignat':
        missing = not numbers
        args = ''.join(['{' + x + '}' for x in numbers])
    elif name == 'unlisted':
        missing = True
    elif name == 'includegraphics':
        opts = [k + '=' + x for k, x in kws.items() if k != 'title']
        opts = '[' + ', '.join(opts) + ']' if opts else ''
    elif name in ('figure', 'easylist'):
        opts = '[' + words[0] + ']' if words else ''
    try:
        if env:
            got = tex_env(name, src, 'text')
        else:
            got = tex_cmd(name, src, 'text')
    except TexFormatError:
        sx.check(missing, 'an error for missing arguments and names which '
                 'are not permitted only')
        return
    sx.check(not missing, 'missing arguments are an error', got=got)
    if env:
        want = '\n\\begin{' + name + '}' + args + opts + '\ntext\n\\end{' + \
            name + '}\n'
    else:
        want = '\\' + name + args + opts + '{text}'
    if kind == 'both' and name == 'includegraphics' and opts:
        # in any order
        opts = '[width=' + v + ', height=' + w + ']'
        sx.check(sx.any(sx.eq(got, want), sx.eq(
            got, '\\' + name + opts + '{text}')),
            'options of the tex command', got=got, want=want)
    else:
        sx.check_eq(got, want, 'arguments of the tex command')
    sx.observe(got)


@harness('C12', [dict(n=1), dict(n=2)], [dict(n=3)])
def wrapping(sx, n):
    """Contents of commands and environments: newlines and indents"""
    s = sx.str('s', (0, n), 'a \n')
    minimal = sx.bool('min_newlines')
    indent = sx.choice('indent', [None, 0, 3])
    got = tex_env('center', '', s, min_newlines=minimal, indent=indent)
    want = '\\begin{center}' + (' %' if minimal else '') + \
        ('' if s[:1] == '\n' else '\n') + s
    if want[-1] != '\n':
        want = want + '\n'
    want = want + '\\end{center}'
    pad = ' ' * (indent or 0)
    want = '\n'.join([pad + x for x in want.split('\n')])
    if not minimal:
        want = '\n' + want + '\n'
    sx.check_eq(got, want, 'environment')
    got = tex_cmd('textbf', '', s, indent=indent)
    sx.check_eq(got, '\n'.join([pad + x for x in
                                ('\\textbf{' + s + '}').split('\n')]),
                'command')
    sx.check_eq(tex_cmd('hfill'), '\\hfill', 'command without contents')


@harness('C12', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def verb(sx, n):
    """Verbatim text: pieces with a delimiter which is not in the piece"""
    s = sx.str('s', n, frozenset(PRINT) - frozenset('{}'))
    pieces(sx, tex_verb(s), s)
    ctx = util.context()
    tag = Tag(name='root', content='@v{' + s + '}', attributes='',
              context=ctx)
    pieces(sx, tag.tex, s)


@harness('C12', [dict(n=4), dict(n=5)], [dict(n=6), dict(n=7)])
def delimiters(sx, n):
    """Verbatim text with the delimiters in it"""
    s = sx.str('s', n, '|!^a')
    pieces(sx, tex_verb(s), s)


def pieces(sx, tex, s):
    out = ''
    rest = tex
    while len(rest):
        sx.check(rest[:5] == '\\verb' and len(rest) > 6,
                 'verbatim text is in verb commands')
        d = rest[5]
        sx.check(not (d.isalnum() or d == '*' or d == ' '),
                 'delimiter of a verb command')
        rest = rest[6:]
        i = 0
        while i < len(rest) and rest[i] != d:
            i += 1
        sx.check(i < len(rest), 'the verb command is closed')
        out = out + rest[:i]
        rest = rest[i + 1:]
    sx.check_eq(out, s, 'verbatim text')


@harness('C12', [dict(a=2, b=1), dict(a=1, b=2)],
         [dict(a=2, b=2), dict(a=3, b=2)])
def paragraphs(sx, a, b):
    """Paragraphs are separated by blank lines in tex"""
    A = sx.str('a', a, 'x.,')
    B = sx.str('b', b, 'y.,')
    name = sx.choice('name', ['b', 'i', 'unknown'])
    ctx = util.context()
    ctx['process_paragraphs'] = {'body'}
    src = A + '@' + name + '{' + B + '}\n\n' + B + '\n\n@featurebox{' + A + \
        '}'
    body = Body(name='body', content=src, attributes='', context=ctx)
    p, z = CMDS[name]
    sx.check_eq(body.tex, '\n' + A + p + B + z + '\n\n' + B + '\n\n'
                '\\begin{featurebox}\n' + A + '\n\\end{featurebox}\n',
                'tex of the paragraphs')


@harness('C12', [dict(n=1), dict(n=2)], [dict(n=3)])
def headings(sx, n):
    """Headings without labels: their texts in each format"""
    s = sx.str('s', n, WRAP - frozenset(' '))
    name = sx.choice('name', ['title', 'part', 'chapter', 'section',
                              'subsection', 'subsubsection', 'h1', 'h3'])
    cls = {'h1': 'title', 'h3': 'section'}.get(name, name)
    ctx = util.context()
    src = 'p@' + name + '[nolabel]{' + s + '@b{' + s + '}}q'
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    sx.check_eq(tag.txt, 'p' + s + s + 'q', 'text of the heading')
    sx.check_eq(tag.tex, 'p\\' + cls + '{' + s + '\\textbf{' + s + '}}q',
                'tex of the heading')
    from harness.c10 import walk
    html = {'title': 'h1', 'part': 'h1', 'chapter': 'h2', 'section': 'h3',
            'subsection': 'h4', 'subsubsection': 'h5'}[cls]
    sx.check_eq(walk(tag.html_fmt(level=2)), [
        'span', {'class': 'root'}, ['p', [html, {}, [
            s, ['strong', {}, [s]]]], 'q']], 'html of the heading')
