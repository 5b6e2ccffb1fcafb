"""Engine self-test: operations on symbolic values against the real ones."""
import csv
import io
import re
import regex
from symex.api import harness, ASCII, WIDE
from disseminate.utils import string as us
from disseminate.tags.receivers import typography as ty, content as co
from disseminate.attributes.attributes import re_attrs

OPS = [
    lambda s: s.strip(), lambda s: s.split(), lambda s: s.split(None, 1),
    lambda s: s.split(','), lambda s: s.split('ab', 1), lambda s: s.rsplit(',', 1),
    lambda s: s.rsplit(None, 1), lambda s: s.splitlines(),
    lambda s: s.splitlines(True), lambda s: s.partition('='),
    lambda s: s.rpartition('='), lambda s: s.replace('aa', 'b'),
    lambda s: s.replace('', '-'), lambda s: s.replace('a', '', 1),
    lambda s: s.find('ab'), lambda s: s.rfind('a'), lambda s: s.count('aa'),
    lambda s: s.count(''), lambda s: s.startswith(('ab', '-')), lambda s: s.endswith('.'),
    lambda s: s.strip('"').strip("'"), lambda s: s.lower(), lambda s: s.title(),
    lambda s: s.capitalize(), lambda s: s.isdigit(), lambda s: s.isalnum(), lambda s: s.islower(),
    lambda s: '{}-{:>5}|{a}'.format(s, s, a=s), lambda s: '%s %r' % (s, s),
    lambda s: f'{s!r:}x{s}', lambda s: ','.join([s, 'x', s]), lambda s: s in 'abcab',
    lambda s: 'a' in s, lambda s: {s: 1, 'ab': 2}, lambda s: {'ab': 1}.get(s),
    lambda s: s < 'b', lambda s: sorted([s, 'ab', 'b']), lambda s: [s] == ['ab'],
    lambda s: s.zfill(4), lambda s: s.isidentifier(), lambda s: dict(a=1).get(s, s),
    lambda s: list(s)[::-1], lambda s: s[1:], lambda s: s[::-1], lambda s: s[-1:],
]

def _int(s):
    try:
        return int(s)
    except ValueError:
        return None

def _float(s):
    try:
        return float(s)
    except ValueError:
        return None

OPS += [_int, _float]

RX = [re_attrs, co.re_open_tag, co.re_brace, ty.re_endash, ty.re_emdash, ty.re_apostrophe,
      ty.re_single_start, ty.re_single_end, us._re_entry, us._re_macro, us._re_newline_space,
      us._re_find_capitals, regex.compile('x*'), re.compile('x*'), re.compile(r'(a|ab)(c|bcd)*?$'),
      regex.compile(r'\b\w+\b'), re.compile(r'(?i)(?P<q>["\'])(.*?)(?P=q)'), re.compile(r'(?m)^\s*[-*]'),
      re.compile(r'^(-{2,})\s*\n(.*?)(\n\s*\1)\n?', re.S), regex.compile(r'(?<!\:)//'), ]

A1 = frozenset('ab,=.- \n"\'1A_@{')

@harness('T00', [dict(n=i, k=k) for i in range(0, 4) for k in range(len(OPS))])
def ops(sx, n, k):
    s = sx.str('s', n, A1)
    r = OPS[k](s)
    sx.observe(r)
    sx.check(True, '')

@harness('T00', [dict(n=i, k=k) for i in range(0, 4) for k in range(len(RX))])
def rxs(sx, n, k):
    s = sx.str('s', n, A1 | frozenset('@-\u2014:x/[]}'))
    p = RX[k]
    r = [(m.span(), m.groups(), m.groupdict()) for m in p.finditer(s)]
    m = p.match(s)
    sx.observe(r, m and m.span(), p.sub('<>', s), p.split(s), p.findall(s), p.sub(r'[\g<0>]', s))
    sx.check(True, '')

@harness('T00', [dict(n=i) for i in range(0, 5)])
def tables(sx, n):
    s = sx.str('s', n, frozenset('a," \n\r'))
    try:
        sx.observe(list(csv.reader(io.StringIO(s), skipinitialspace=True)))
    except csv.Error:
        sx.observe('error')
    sx.check(True, '')
