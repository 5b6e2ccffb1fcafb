"""C05: the header block of a document is read completely and exactly."""
from symex.api import harness, LINE
from symex import util
from disseminate.context import BaseContext
from disseminate.context.utils import load_from_string
from disseminate.utils.string import (str_to_dict, str_to_list,
                                      strip_end_quotes)


# ------------------------------------------------------------ header block

def isblank(s):
    for c in s:
        if not c.isspace():
            return False
    return True


def split_header(s):
    """(header, rest) or None"""
    i = 0
    n = len(s)
    while i < n and s[i].isspace():
        i += 1
    j = i
    while j < n and s[j] == '-':
        j += 1
    dashes = s[i:j]
    if len(dashes) < 3:
        return None
    # the first line has only the dashes
    k = j
    while k < n and s[k] != '\n':
        if not s[k].isspace():
            return None
        k += 1
    if k == n:
        return None
    # blank lines after it belong to the opening
    m = k + 1
    last = m
    while m < n and s[m].isspace():
        if s[m] == '\n':
            last = m + 1
        m += 1
    starts = [x + 1 for x in range(k, last) if s[x] == "\n"]
    for start in reversed(starts):
        e = start + 1
        while e < n:
            if s[e] == '\n':
                q = e + 1
                while q < n and s[q].isspace():
                    q += 1
                if s[q:q + len(dashes)] == dashes:
                    rest = s[q + len(dashes):]
                    if rest[:1] == '\n':
                        rest = rest[1:]
                    return s[start:e], rest
            e += 1
    return None


@harness('C05', [dict(dashes=3, head=3, sep=1, rest=2),
                 dict(dashes=3, head=2, sep=2, rest=2),
                 dict(dashes=4, head=2, sep=1, rest=2)],
         [dict(dashes=3, head=4, sep=2, rest=2),
          dict(dashes=4, head=3, sep=2, rest=3),
          dict(dashes=5, head=3, sep=1, rest=2)])
def block(sx, dashes, head, sep, rest):
    """Header and body of a document with a header block"""
    d = '-' * dashes
    h = sx.str('head', head, 'a:- \n')
    w = sx.str('sep', sep, ' \n-')
    r = sx.str('rest', rest, 'a\n- ')
    lead = sx.choice('lead', ['', '\n', ' '])
    s = lead + d + '\na' + h + w + d + r
    want = split_header(s)
    rest, entries = load_from_string(s)
    if want is None:
        sx.check(rest is None, 'a document without header block is kept')
    else:
        sx.check_eq(rest, want[1], 'the body is all after the header block')
        sx.check_eq(entries, str_to_dict(want[0]),
                    'entries are those of the header')
    ctx = BaseContext()
    body = ctx.load(s)
    sx.check_eq(body, s if want is None else want[1],
                'the body of a loaded document')
    sx.observe(rest, entries)


@harness('C05', [dict(n=4), dict(n=5)], [dict(n=6), dict(n=7)])
def any_start(sx, n):
    """Documents that start with something like a header block"""
    s = sx.str('s', n, '-\n a')
    s = '--' + s + '\n---\nx'
    want = split_header(s)
    rest, entries = load_from_string(s)
    if want is None:
        sx.check(rest is None, 'a document without header block is kept')
    else:
        sx.check_eq(rest, want[1], 'the body is all after the header block')
        sx.check_eq(entries, str_to_dict(want[0]),
                    'entries are those of the header')
    sx.observe(rest)


# ----------------------------------------------------------------- entries

def lines_of(s):
    """Lines, without a last empty one"""
    out = ['']
    for c in s:
        if c == '\n':
            out.append('')
        else:
            out[-1] = out[-1] + c
    if out[-1] == '':
        out.pop()
    return out


def unescape(s):
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] == ':':
            out = out + ':'
            i += 2
        else:
            out = out + s[i]
            i += 1
    return out


def entry_of(line):
    """(level, key, value) if the line is an entry"""
    i = 0
    while i < len(line) and line[i].isspace():
        i += 1
    k = i
    while k < len(line):
        if line[k] == ':' and k > i and line[k - 1] != '\\':
            v = k + 1
            while v < len(line) and line[v].isspace():
                v += 1
            return i, line[i:k].strip(), line[v:]
        k += 1
    return None


def ref_dict(s):
    """Entries of a header, without quotes processed. Lines before the
    first entry are ignored"""
    entries = []
    level = None
    cur = None
    for line in lines_of(s):
        e = entry_of(line)
        if e is not None and (level is None or e[0] <= level):
            level = e[0]
            for other in entries:
                if other[0] == e[1]:
                    cur = other[1]
                    break
            else:
                cur = []
                entries.append((e[1], cur))
            cur.append(e[2])
        elif cur is not None:
            cur.append(unescape(line[level:]))
    return [(k, '\n'.join(v).strip('\n')) for k, v in entries]


@harness('C05', [dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)],
         [dict(n=6), dict(n=7)])
def entries(sx, n):
    """Header text to entries: keys, values, continuation lines"""
    s = sx.str('s', n, 'ab: \n\\')
    sx.assume(in_scope(s))
    got = list(str_to_dict(s, strip_quotes=False).items())
    sx.check_eq(got, ref_dict(s), 'entries of the text')
    sx.observe(got)


@harness('C05', [dict(n=3), dict(n=4)], [dict(n=5), dict(n=6)])
def continued(sx, n):
    """Any lines after the first entry: entries, or lines of its value"""
    s = sx.choice('first', ['k: v', ' k: v', 'k:']) + '\n' + \
        sx.str('s', n, 'b: \n\\')
    sx.assume(in_scope(s))
    got = list(str_to_dict(s, strip_quotes=False).items())
    sx.check_eq(got, ref_dict(s), 'entries of the text')
    sx.observe(got)


def in_scope(s):
    """Values keep their escapes; a key starts after the indent; lines less
    indented than the entries have only blanks before the indent's end"""
    level = None
    for line in lines_of(s):
        i = 0
        while i < len(line) and line[i].isspace():
            i += 1
        if i < len(line) and line[i] == ':':
            return False
        e = entry_of(line)
        if e is None:
            if level is None or (level > i and len(line) > i):
                return False
        elif level is None or e[0] <= level:
            level = e[0]
            if '\\' in line:
                return False
    return True


@harness('C05', [dict(n=2, m=1, levels=2), dict(n=1, m=2, levels=2)],
         [dict(n=3, m=1, levels=2), dict(n=2, m=2, levels=3)])
def nested(sx, n, m, levels):
    """key:/indented block: the block is the value of the key, verbatim,
    and its entries can be read in turn"""
    k1 = sx.str('k1', n, 'ab \\')
    v1 = sx.str('v1', m, 'cd .')
    v2 = sx.str('v2', m, 'cd :')
    ind = ' ' * sx.choice('indent', [1, 2, 4])
    key = 'k' + k1 + 'e'
    text = 'first: ' + 'x' + v1 + '\n' + 'top:\n' + ind + key + ': y' + v1 + \
        '\n' + ind + 'z' + v2 + ':w\nlast: q' + v2 + 'r'
    d = str_to_dict(text)
    sx.check_eq(list(d.keys()), ['first', 'top', 'last'], 'the entries')
    sx.check_eq(d['first'], 'x' + v1, 'value of the first entry')
    sx.check_eq(d['last'], 'q' + v2 + 'r', 'value of the last entry')
    sx.check_eq(d['top'], ind + key + ': y' + v1 + '\n' + ind + 'z' + v2 +
                ':w', 'the block is the value')
    sub = str_to_dict(d['top'])
    sx.check_eq(sub[key.strip()], 'y' + v1, 'entry of the block')
    sx.observe(d)


@harness('C05', [dict(n=i) for i in range(0, 6)],
         [dict(n=6), dict(n=7)])
def quotes(sx, n):
    """A pair of quotes around a value is removed; other quotes are kept"""
    v = sx.str('v', n, 'a\'" ')
    got = str_to_dict('k: ' + 'x' + v)['k']
    sx.check_eq(got, ('x' + v), 'quotes within a value are kept')
    q = sx.choice('q', ['"', "'"])
    other = "'" if q == '"' else '"'
    sx.assume(not any(c == q for c in v))
    got = str_to_dict('k: ' + q + v + q)['k']
    inner = v
    sx.check(got == inner or got == strip_end_quotes(inner) and
             other in inner, 'quotes around a value are removed')
    sx.observe(got)


@harness('C05', [dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
         [dict(n=5), dict(n=6)])
def lists(sx, n):
    """Lists: separated by semicolons, otherwise newlines, otherwise commas;
    every item is kept, without blanks around it"""
    s = sx.str('s', n, 'ab,;\n ')
    got = str_to_list(s)

    def split(text, sep):
        out = ['']
        for c in text:
            if c == sep:
                out.append('')
            else:
                out[-1] = out[-1] + c
        return [o.strip() for o in out]
    if any(c == ';' for c in s):
        want = split(s, ';')
    else:
        want = [x for x in split(s, '\n') if len(x)]
        if len(want) < 2:
            want = split(s, ',')
            if len(want) < 2:
                want = [s.strip()]
    sx.check_eq(got, want, 'items of the list')
    sx.observe(got)
