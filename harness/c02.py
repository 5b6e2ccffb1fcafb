"""C02: attribute strings are read faithfully and can be written back."""
from symex.api import harness, ASCII, WORD, LOWER
from disseminate.attributes import Attributes
from disseminate.utils.types import (IntPositionalValue, FloatPositionalValue,
                                     StringPositionalValue)

QUOTED = frozenset(ASCII) - frozenset('"\'')
INQ = frozenset(ASCII) - frozenset('"')
INA = frozenset(ASCII) - frozenset("'")
BARE = frozenset(c for c in ASCII if c not in '"\'=,[]' and not c.isspace())
SPACED = BARE | frozenset(' ,=[]\'')
SPACE = ' \n\t'


def postype(s):
    """The type of a positional value"""
    try:
        int(s)
        return IntPositionalValue
    except ValueError:
        pass
    try:
        float(s)
        return FloatPositionalValue
    except ValueError:
        return StringPositionalValue


def put(items, k, v):
    """The last value wins, the first position is kept"""
    for i, (a, b) in enumerate(items):
        if a == k:
            items[i] = (a, v)
            return
    items.append((k, v))


def entry(sx, i, kind, nk, nv):
    """source text and (key, value) of an attribute"""
    if kind.startswith('k'):
        k = sx.str('k%d' % i, nk, WORD)
    if kind == 'kd':        # key="value"
        v = sx.str('v%d' % i, nv, INQ)
        return k + '="' + v + '"', (k, v)
    if kind == 'ka':        # key='value'
        v = sx.str('v%d' % i, nv, INA)
        return k + "='" + v + "'", (k, v)
    if kind == 'kb':        # key=value
        v = sx.str('v%d' % i, nv, BARE)
        return k + '=' + v, (k, v)
    if kind == 'ks':        # key = value
        v = sx.str('v%d' % i, nv, BARE)
        return k + ' =  ' + v, (k, v)
    if kind == 'pd':        # "value"
        v = sx.str('v%d' % i, nv, INQ)
        return '"' + v + '"', (v, None)
    if kind == 'pa':
        v = sx.str('v%d' % i, nv, INA)
        return "'" + v + "'", (v, None)
    v = sx.str('v%d' % i, nv, BARE)     # value
    return v, (v, None)


def check(sx, got, want):
    got = [(k, v) for k, v in got.items()]
    sx.check(len(got) == len(want), 'number of attributes', got=got,
             expected=want)
    for (k, v), (wk, wv) in zip(got, want):
        sx.check_eq(k, wk, 'the attribute name')
        if wv is None:
            sx.check(v is postype(wk), 'the type of a positional attribute')
        else:
            sx.check_eq(v, wv, 'the attribute value')


@harness('C02',
         [dict(kinds=[a], nk=2, nv=n, sep='') for a in
          ('kd', 'ka', 'kb', 'ks', 'pd', 'pa', 'pb') for n in (1, 2, 3)] +
         [dict(kinds=[a], nk=1, nv=0, sep='') for a in
          ('kd', 'ka', 'pd', 'pa')] +
         [dict(kinds=[a, 'kd'], nk=1, nv=0, sep=' ') for a in ('kd', 'pa')] +
         [dict(kinds=[a, b], nk=1, nv=1, sep=s)
          for a in ('kd', 'ka', 'kb', 'pd', 'pa', 'pb')
          for b in ('kd', 'kb', 'pa', 'pb') for s in (' ', ', ')],
         [dict(kinds=[a], nk=3, nv=n, sep='') for a in
          ('kd', 'ka', 'kb', 'ks', 'pd', 'pa', 'pb') for n in range(1, 6)] +
         [dict(kinds=[a, b], nk=1, nv=2, sep=s)
          for a in ('kd', 'ka', 'kb', 'ks', 'pd', 'pa', 'pb')
          for b in ('kd', 'ka', 'kb', 'ks', 'pd', 'pa', 'pb')
          for s in (' ', '\n', ', ')])
def read(sx, kinds, nk, nv, sep):
    """[k1="v1" v2 ...]: every entry with its name, value, order and type of
    positional value, whichever way it is quoted"""
    parts = []
    want = []
    for i, kind in enumerate(kinds):
        text, (k, v) = entry(sx, i, kind, nk, nv)
        parts.append(text)
        put(want, k, v)
    if kinds[0] == 'kb' and sep.startswith(','):
        # a comma directly after an unquoted value belongs to the value
        sep = ' , '
    s = '[' + sep.join(parts) + ']'
    a = Attributes(s)
    check(sx, a, want)
    t = a.totuple()
    sx.check_eq(list(t), [(k, v) if v is not None else k for k, v in want],
                'the tuple of the attributes')
    sx.observe(t)


@harness('C02', [dict(n=1, nv=2), dict(n=2, nv=1)],
         [dict(n=1, nv=3), dict(n=2, nv=2), dict(n=3, nv=1)])
def write(sx, n, nv):
    """Arguments and options in TeX, attributes in HTML: every attribute once,
    in order"""
    items = []
    a = Attributes()
    for i in range(n):
        k = sx.str('k%d' % i, 1, LOWER)
        v = sx.str('v%d' % i, nv, BARE)
        w = sx.str('w%d' % i, nv, SPACED)
        kind = sx.choice('p%d' % i, ['bare', 'quoted', 'key'])
        if kind == 'bare':
            a.load(v)
            put(items, v, None)
        elif kind == 'quoted':
            sx.assume(w != '')
            a.load('"' + w + '"')
            put(items, w, None)
        else:
            a.load(k + '="' + w + '"')
            put(items, k, w)
    args = opts = ''
    for k, v in items:
        args = args + '{' + (k if v is None else v) + '}'
        opts = opts + (', ' if opts else '') + (
            k if v is None else k + '=' + v)
    sx.check_eq(a.tex_arguments, args, 'TeX arguments')
    sx.check_eq(a.tex_optionals, '[' + opts + ']', 'TeX options')
    # reading what was written gives the same attributes
    b = Attributes(a.html)
    sx.check_eq(list(b.totuple()), list(a.totuple()), 'round trip')
    sx.observe(args, opts)
