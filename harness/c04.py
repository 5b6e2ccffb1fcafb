"""C04: macros are replaced by their values, everywhere and completely."""
from symex.api import harness
from symex import util
from disseminate.utils.string import replace_macros
from disseminate.tags.tag import Tag


def isword(c):
    return c.isalnum() or c == '_'


def expand(s, macros, depth=0):
    """Reference: scan for @name(.name)*, replace known names"""
    out = ''
    i = 0
    n = len(s)
    while i < n:
        if s[i] == '@':
            j = i + 1
            while j < n and (isword(s[j]) or s[j] == '.'):
                j += 1
            if j > i + 1:
                pieces = s[i:j].split('.')
                value = None
                for k, v in macros:
                    if pieces[0] == k:
                        value = v
                        break
                # an empty pair of braces ends the name
                e = j
                if e < n and s[e] == '{':
                    k = e + 1
                    while k < n and s[k].isspace():
                        k += 1
                    if k < n and s[k] == '}':
                        e = k + 1
                if value is None:
                    out = out + s[i:e]
                else:
                    rest = pieces[1:]
                    while rest and not isinstance(value, str) and hasattr(
                            value, rest[0]):
                        value = getattr(value, rest[0])
                        rest = rest[1:]
                    out = out + expand(''.join(
                        [str(value)] + ['.' + p for p in rest]), macros,
                        depth + 1)
                i = e
                continue
        out = out + s[i]
        i += 1
    return out


TEXT = '@abx.{} \n'
VALUE = 'bx {}'


@harness('C04', [dict(n=3, m=2), dict(n=4, m=1), dict(n=5, m=0)],
         [dict(n=4, m=2), dict(n=5, m=1), dict(n=6, m=0)])
def text(sx, n, m):
    """Every macro in a text is replaced by its value and all other text is
    kept; unknown names are kept"""
    s = sx.str('s', n, TEXT)
    va = sx.str('va', m, VALUE)
    vb = sx.str('vb', m, 'xy .')
    macros = [('@a', va), ('@b', vb)]
    got = replace_macros(s, dict(macros))
    want = expand(s, macros)
    sx.check_eq(got, want, 'the text with its macros replaced')
    sx.observe(got)


@harness('C04', [dict(depth=d, m=1) for d in (1, 2, 3, 4, 5)],
         [dict(depth=d, m=2) for d in range(1, 8)])
def chains(sx, depth, m):
    """A macro whose value uses other macros, over several levels"""
    names = ['@m%d' % i for i in range(depth)]
    macros = []
    plain = ''
    for i in range(depth):
        pre = sx.str('pre%d' % i, m, 'xy .{')
        post = sx.str('post%d' % i, m, ' ,-(')
        nxt = names[i + 1] if i + 1 < depth else ''
        macros.append((names[i], pre + nxt + post))
    value = ''
    for k, v in reversed(macros):
        i = int(k[2:])
        nxt = names[i + 1] if i + 1 < depth else ''
        value = v[:m] + (value if nxt else '') + v[len(v) - m:]
    s = 'p ' + names[0] + ' q'
    order = sx.choice('order', [False, True])
    got = replace_macros(s, dict(reversed(macros) if order else macros))
    sx.check_eq(got, 'p ' + value + ' q', 'no macro is left')
    sx.observe(got)


@harness('C04', [dict(n=1), dict(n=2)], [dict(n=3), dict(n=4)])
def first_dict(sx, n):
    """The first dict with the name gives the value"""
    d1, d2 = {}, {}
    k1 = '@' + sx.str('k1', 1, 'ab')
    k2 = '@' + sx.str('k2', 1, 'ab')
    d1[k1] = sx.str('v1', n, 'xy')
    d2[k2] = sx.str('v2', n, 'xy')
    k = '@' + sx.str('k', 1, 'abc')
    got = replace_macros('(' + k + ')', d1, d2)
    want = d1[k1] if k == k1 else d2[k2] if k == k2 else k
    sx.check_eq(got, '(' + want + ')', 'value of the first dict')
    sx.observe(got)


class Person:
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


@harness('C04', [dict(n=1), dict(n=2)], [dict(n=3)])
def entries(sx, n):
    """@friend.name is the entry of an object; other parts are text"""
    name = sx.str('name', n, 'xy ')
    p = Person(name)
    rest = sx.str('rest', n, '.nz ')
    got = replace_macros('a @friend.name' + rest, {'@friend': p})
    sx.check_eq(got, expand('a @friend.name' + rest, [('@friend', p)]),
                'entry of the object')
    got = replace_macros('a @friend' + rest, {'@friend': p})
    sx.check_eq(got, expand('a @friend' + rest, [('@friend', p)]),
                'the object')
    sx.observe(got)


@harness('C04', [dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def in_tags(sx, n):
    """Macros of the context are replaced in the contents of tags before
    these are parsed"""
    v = sx.str('v', n, 'xy @{}')
    ctx = util.context(inactive=True)
    ctx['@a'] = v
    sx.assume(sx.neg(any(v[i] == '@' for i in range(n))))
    s = 'p@b{@a}'
    plain = util.context(inactive=True)
    try:
        want = Tag(name='root', content='p@b{' + v + '}', attributes='',
                   context=plain)
    except Exception as e:
        want = type(e).__name__
    try:
        got = Tag(name='root', content=s, attributes='', context=ctx)
    except Exception as e:
        got = type(e).__name__
    if isinstance(want, str) or isinstance(got, str):
        sx.check(got == want, 'the same error')
        return
    sx.check_eq(shape(got.content), shape(want.content), 'same tags')
    sx.observe(shape(got.content))


def shape(c):
    if isinstance(c, str):
        return c
    if isinstance(c, list):
        return [shape(x) for x in c]
    return [c.name, shape(c.content)]
