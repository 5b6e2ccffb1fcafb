"""C03: target-specific attributes."""
from symex.api import harness, LOWER, WORD
from symex import util
from harness.c10 import walk
from disseminate.formats import tex_cmd
from disseminate.tags.tag import Tag
from disseminate.attributes import Attributes
from disseminate.utils.types import (PositionalValue, StringPositionalValue,
                                     IntPositionalValue)

TARGETS = ('html', 'xhtml', 'tex', 'css')
NAMES = ('a', 'b')


def split(k):
    """(name, target or None)"""
    for t in TARGETS:
        if len(k) > len(t) + 1 and k.endswith('.' + t):
            return k[:len(k) - len(t) - 1], t
    return k, None


def build(sx, n, targets, pos, pre=''):
    """n attributes with names from a small set (so that they collide)"""
    items = []
    a = Attributes()
    for i in range(n):
        k = pre + sx.str('k%d' % i, 1, 'ab')
        t = sx.choice('t%d' % i, (None,) + tuple(targets))
        key = k if t is None else k + '.' + t
        p = pos and sx.choice('p%d' % i, [False, True])
        v = StringPositionalValue if p else sx.str('v%d' % i, 1, 'xyz')
        a[key] = v
        for j, it in enumerate(items):
            if it[0] == key:
                items[j] = (key, k, t, v)
                break
        else:
            items.append((key, k, t, v))
    return a, items


def value(items, name, target):
    for key, k, t, v in items:
        if target is not None and t == target and k == name:
            return key, v
    for key, k, t, v in items:
        if t is None and k == name:
            return key, v
    return None


def same(sx, got, want):
    return sx.all(len(got) == len(want),
                  *[sx.all(sx.eq(g[0], w[0]), g[1] is w[1] or
                           sx.eq(g[1], w[1])) for g, w in zip(got, want)])


@harness('C03', [dict(n=2, targets=['html', 'tex'], pos=True),
                 dict(n=2, targets=['html', 'xhtml'], pos=False),
                 dict(n=2, targets=['html', 'tex'], pos=False, pre='x.'),
                 dict(n=2, targets=['html', 'tex'], pos=False, pre='tex.')],
         [dict(n=3, targets=['html', 'tex'], pos=False),
          dict(n=3, targets=['html', 'xhtml'], pos=True),
          dict(n=2, targets=['html', 'xhtml', 'tex', 'css'], pos=True)])
def lookup(sx, n, targets, pos, pre=''):
    """get and find_item prefer the entry of the target over the general one
    and never give the entry of another target"""
    a, items = build(sx, n, targets, pos, pre)
    before = list(a.items())
    t = sx.choice('target', [None] + list(targets))
    dot = sx.choice('dot', ['', '.'])
    name = pre + sx.str('name', 1, 'abc')
    tt = None if t is None else dot + t
    want = value(items, name, t)
    got = a.find_item(name, target=tt)
    if want is None:
        sx.check(got is None, 'no entry is found', got=got)
        sx.check(a.get(name, target=tt, default=7) == 7, 'default')
    else:
        sx.check(got is not None, 'the entry is found')
        sx.check(same(sx, [got], [want]), 'the entry of the target, or the '
                 'general one', got=got, expected=want)
        g = a.get(name, target=tt)
        sx.check(g is want[1] or sx.eq(g, want[1]), 'the value', got=g)
    sx.check(same(sx, list(a.items()), before), 'a lookup changes nothing')
    sx.observe(got)


@harness('C03', [dict(n=3, targets=['html', 'tex']),
                 dict(n=2, targets=['html', 'xhtml']),
                 dict(n=2, targets=['html', 'tex'], pre='x.'),
                 dict(n=2, targets=['html', 'tex'], pre='tex.')],
         [dict(n=3, targets=['html', 'xhtml', 'tex']),
          dict(n=4, targets=['html', 'tex'])])
def filtered(sx, n, targets, pre=''):
    """filter gives each attribute once, with the value for the target, in
    the order of the attributes"""
    a, items = build(sx, n, targets, n < 4, pre)
    before = list(a.items())
    t = sx.choice('target', [None] + list(targets))
    want = []
    for key, k, et, v in items:
        if et is not None and et != t:
            continue
        if et is None and any(k2 == k and t2 == t for _, k2, t2, _ in items
                              if t is not None):
            continue
        want.append((k, v))
    got = a.filter(target=t)
    sx.check(same(sx, list(got.items()), want), 'filtered attributes',
             got=list(got.items()), expected=want)
    sx.check(same(sx, list(a.items()), before), 'filter changes nothing')
    if t is not None:
        again = a.filter(target='.' + t)
        sx.check(same(sx, list(again.items()), want), 'target with a dot')
    sx.observe(list(got.items()))


@harness('C03', [dict(n=2, targets=['html', 'tex'], m=2)],
         [dict(n=3, targets=['html', 'xhtml'], m=2)])
def selected(sx, n, targets, m):
    """filter of given names: only these names, with the value for the
    target, in the requested order if so asked"""
    a, items = build(sx, n, targets, False)
    t = sx.choice('target', [None] + list(targets))
    names = []
    for i in range(m):
        names.append(sx.str('name%d' % i, 1, 'abc'))
    by = sx.choice('by', [False, True])
    uniq = []
    for x in names:
        if not any(x == y for y in uniq):
            uniq.append(x)
    want = []
    for x in uniq:
        v = value(items, x, t)
        if v is not None:
            want.append((x, v[1], v[0]))
    got = a.filter(attrs=list(names), target=t, sort_by_attrs=by)
    got = list(got.items())
    sx.check(len(got) == len(want), 'number of attributes', got=got,
             expected=want)
    if by:
        sx.check(same(sx, got, want), 'in the requested order', got=got,
                 expected=want)
    else:
        for k, v, _ in want:
            sx.check(sx.any(*[same(sx, [g], [(k, v)]) for g in got]),
                     'each requested attribute', got=got, expected=want)
        # general entries keep the order of the attributes
        if t is None:
            order = [k for _, k, et, _ in items if et is None]
            pos = [[i for i, o in enumerate(order) if o == g[0]][0]
                   for g in got]
            sx.check(pos == sorted(pos), 'order of the attributes')
    sx.observe(got)


@harness('C03', [dict(m=3, n=2), dict(m=4, n=1), dict(m=5, n=1)],
         [dict(m=4, n=2), dict(m=5, n=2), dict(m=3, n=3)])
def positional(sx, m, n):
    """a positional value for a target is the one which has the target as its
    suffix, otherwise a general one"""
    a = Attributes()
    keys = []
    for i in range(n):
        w = sx.str('w%d' % i, m, 'htmlxe')
        key = w + sx.choice('s%d' % i, ['', '.tex', '.html'])
        if not any(key == k for k in keys):
            keys.append(key)
        a[key] = StringPositionalValue
    t = sx.choice('target', [None, 'tex', 'html'])
    own = [k for k in keys if t is not None and split(k)[1] == t]
    general = [k for k in keys if split(k)[1] is None]
    got = a.get(StringPositionalValue, target=t)
    want = own or general
    if want:
        sx.check_eq(got, split(want[0])[0], 'the value for the target')
    else:
        sx.check(got is None, 'no value of another target', got=got)
    only = list(a.filter(attrs=[StringPositionalValue], target=t).keys())
    sx.check_eq(only, [split(k)[0] for k in want[:1]],
                'filtered values for the target')
    sx.observe(got)


ELEMENTS = {'p': ('p', ['class'], []), 'a': ('a', ['class'], ['href']),
            'x': ('span', ['class', 'id'], []), 'td': ('td', ['class'], [])}


@harness('C03', [dict(n=2, names=['p', 'a']), dict(n=2, names=['x'])],
         [dict(n=3, names=['p']), dict(n=2, names=['a', 'x', 'td'])])
def rendered(sx, n, names):
    """A rendered tag has the attributes of the target it is rendered for"""
    name = sx.choice('name', names)
    element, opts, reqs = ELEMENTS[name]
    target = sx.choice('target', ['html', 'xhtml', 'tex'])
    items, texts = [], []
    for i in range(n):
        k = sx.choice('k%d' % i, opts + reqs if target != 'tex' else
                      ['width', 'height'])
        t = sx.choice('t%d' % i, [None, 'html', 'xhtml', 'tex'])
        v = sx.str('v%d' % i, 1, WORD)
        key = k if t is None else k + '.' + t
        if any(it[0] == key for it in items):
            return
        items.append((key, k, t, v))
        texts.append(key + '=' + v)
    if target == 'tex':
        got = tex_cmd('includegraphics', attributes=' '.join(texts),
                      formatted_content='f')
        want = []
        for k in ('width', 'height'):
            found = value(items, k, target)
            if found is not None:
                want.append(k + '=' + found[1])
        texts = ['\\includegraphics' + (
            '[' + ', '.join(w) + ']' if w else '') + '{f}'
            for w in (want, want[::-1])]
        sx.check(sx.any(*[sx.eq(got, t) for t in texts]),
                 'attributes in tex', got=got, want=texts[0])
        return
    want = {}
    for k in opts + reqs:
        found = value(items, k, target)
        if found is not None:
            want[k] = found[1]
    if any(k not in want for k in reqs):
        return
    if element == 'span' and 'class' not in want:
        want['class'] = name
    tag = Tag(name='root', content='c@' + name + '[' + ' '.join(texts) + ']'
              '{d}', attributes='', context=util.context())
    fmt = target + '_fmt'
    got = walk(getattr(tag, fmt)(level=2))[2][1]
    sx.check(got[0] == element and len(got[1]) == len(want) and
             sx.all(*[k in got[1] and sx.eq(got[1][k], want[k])
                      for k in want]),
             'attributes of the element', got=got, want=want)
