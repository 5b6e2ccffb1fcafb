"""C08: paragraphs: split at blank lines, nothing lost, in order."""
from symex.api import harness
from symex import util
from disseminate.tags.tag import Tag
from disseminate.tags.text import Body


def separators(s):
    """Pieces of a text between runs of blanks with two or more newlines"""
    pieces = ['']
    i = 0
    n = len(s)
    while i < n:
        if s[i].isspace():
            j = i
            lines = 0
            while j < n and s[j].isspace():
                if s[j] == '\n':
                    lines += 1
                j += 1
            if lines >= 2:
                pieces.append('')
            else:
                pieces[-1] = pieces[-1] + s[i:j]
            i = j
        else:
            pieces[-1] = pieces[-1] + s[i]
            i += 1
    return pieces


def reference(items):
    """items: texts, ('tag', name, text), ('block', name, text). Returns a
    list of ['p', elements] and blocks"""
    out = []
    cur = []

    def close():
        if cur and not all(isinstance(x, str) and len(x.strip()) == 0
                           for x in cur):
            out.append(['p', list(cur)])
        cur.clear()
    for x in items:
        if isinstance(x, tuple):
            if x[0] == 'tag':
                cur.append(list(x[1:]))
            else:
                close()
                out.append(list(x[1:]))
        else:
            for i, p in enumerate(separators(x)):
                if i:
                    close()
                if len(p):
                    cur.append(p)
    close()
    return out


def shape(c):
    if isinstance(c, str):
        return [c] if len(c) else []
    if isinstance(c, list):
        return [y for x in c for y in shape(x)]
    return [[c.name, shape(c.content)] if c.name == 'p' else
            [c.name, c.content]]


def build(sx, s, inactive=('section',)):
    ctx = util.context()
    ctx['process_paragraphs'] = {'body'}
    ctx['paths'] = []
    return Body(name='body', content=s, attributes='', context=ctx)


@harness('C08', [dict(n=i) for i in range(0, 6)],
         [dict(n=i) for i in range(0, 9)])
def text(sx, n):
    """A body of text alone"""
    s = sx.str('s', n, 'ab \n\t')
    body = build(sx, s)
    want = reference([s])
    sx.check_eq(shape(body.content), want, 'paragraphs of the text')
    sx.observe(shape(body.content))


@harness('C08', [dict(a=2, b=2), dict(a=3, b=0), dict(a=0, b=3),
                 dict(a=1, b=3)],
         [dict(a=3, b=2), dict(a=3, b=3), dict(a=4, b=1), dict(a=1, b=4)])
def with_tag(sx, a, b):
    """Text, tag, text: tags in the text belong to the paragraph, block
    tags end it"""
    A = sx.str('a', a, 'x \n\t')
    B = sx.str('b', b, 'x \n\t')
    kind = sx.choice('kind', ['b', 'verb'])
    s = A + '@' + kind + '{t}' + B
    body = build(sx, s)
    tag = ('tag' if kind == 'b' else 'block', kind, 't')
    want = reference([A, tag, B])
    got = shape(body.content)
    sx.check_eq(got, want, 'paragraphs around a tag')
    if kind == 'b':
        p = [w for w in want if w[0] == 'p' and
             any(isinstance(x, list) for x in w[1])][0][1]
        alone = all(isinstance(x, list) or len(x.strip()) == 0 for x in p)
        role = [t for t in body.flatten() if t.name == 'b'][0].paragraph_role
        sx.check(role == ('block' if alone else 'inline'),
                 'a tag alone in its paragraph is a block', role=role)
    sx.observe(got)


@harness('C08', [dict(a=1, b=2, c=1), dict(a=0, b=3, c=0)],
         [dict(a=2, b=2, c=2), dict(a=1, b=3, c=2), dict(a=0, b=5, c=0)])
def two_tags(sx, a, b, c):
    """Two tags in a body"""
    A = sx.str('a', a, 'x \n')
    B = sx.str('b', b, 'x \n')
    C = sx.str('c', c, 'x \n')
    k1 = sx.choice('k1', ['b', 'i', 'verb'])
    k2 = sx.choice('k2', ['b', 'verb'])
    s = A + '@' + k1 + '{t}' + B + '@' + k2 + '{u}' + C
    body = build(sx, s)

    def item(k, t):
        return ('block' if k == 'verb' else 'tag', k, t)
    want = reference([A, item(k1, 't'), B, item(k2, 'u'), C])
    got = shape(body.content)
    sx.check_eq(got, want, 'paragraphs around two tags')
    for t in body.flatten():
        if t.name in ('b', 'i'):
            p = [w for w in want if w[0] == 'p' and any(
                isinstance(x, list) and x[1] == t.content
                for x in w[1])][0][1]
            alone = all(isinstance(x, list) or len(x.strip()) == 0
                        for x in p) and len(
                            [x for x in p if isinstance(x, list)]) == 1
            sx.check(t.paragraph_role == ('block' if alone else 'inline'),
                     'role of a tag', role=t.paragraph_role)
    sx.observe(got)


@harness('C08', [dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def blanks(sx, n):
    """Blank lines have blanks of any kind"""
    s = 'x' + sx.str('s', n, 'a\n\r\t\x0b\x0c\xa0\u2003') + '\ny'
    body = build(sx, s)
    sx.check_eq(shape(body.content), reference([s]),
                'paragraphs of the text')


@harness('C08', [dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def other_tags(sx, n):
    """Only the configured tags are split into paragraphs"""
    s = sx.str('s', n, 'a\n')
    ctx = util.context()
    ctx['process_paragraphs'] = {sx.choice('which', ['body', 'featurebox',
                                                     'other'])}
    which = 'body' in ctx['process_paragraphs']
    text = 'x' + s + 'y'
    body = Body(name='body', content=text, attributes='', context=ctx)
    if which:
        sx.check_eq(shape(body.content), reference([text]), 'paragraphs')
    else:
        sx.check_eq(body.content, text, 'the text is kept')
    inner = Tag(name='other', content=text, attributes='', context=util.context(
        process_paragraphs={'body'}))
    sx.check_eq(inner.content, text, 'the text is kept')
    sx.observe(shape(body.content))
