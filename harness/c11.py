"""C11: lists: items, order and nesting."""
from symex.api import harness
from symex import util
from disseminate.formats import xhtml_list, xhtml_tag
from disseminate.tags.list import (List, OrderedList, parse_string_list,
                                   clean_string_list, normalize_levels)
from harness.c10 import walk


def ref_items(s):
    """[(indent, text)] of the lines which start with a bullet; other lines
    belong to the item before"""
    items = []
    lines = ['']
    for c in s:
        if c == '\n':
            lines.append('')
        else:
            lines[-1] = lines[-1] + c
    for line in lines:
        i = 0
        while i < len(line) and line[i] == ' ':
            i += 1
        if i < len(line) and (line[i] == '-' or line[i] == '*'):
            items.append([i, [line[i + 1:]]])
        elif items:
            items[-1][1].append(line)
    return [(i, '\n'.join(t).strip()) for i, t in items]


@harness('C11', [dict(n=3), dict(n=4), dict(n=5)], [dict(n=6), dict(n=7)])
def items(sx, n):
    """The items of a source and their indents"""
    s = sx.str('s', n, '-a \n')
    got = parse_string_list('- x' + s + 'y')
    want = ref_items('- x' + s + 'y')
    sx.check_eq([list(x) for x in got], [list(x) for x in want],
                'items of the list')
    sx.observe(got)


def tree(levels):
    """Nesting by indent: the parent of an item is the nearest item before
    it with a lower level. [[index, children]]"""
    root = []
    stack = []          # (level, children)
    for i, level in enumerate(levels):
        while stack and not (stack[-1][0] < level):
            stack.pop()
        node = [i, []]
        (stack[-1][1] if stack else root).append(node)
        stack.append((level, node[1]))
    return root


def html_tree(e, kind):
    """The same of an element"""
    out = []
    for x in e[2]:
        if isinstance(x, str):
            continue
        if x[0] == 'li':
            out.append([x[2], []])
        elif x[0] == kind:
            if not out:
                return None
            out[-1][1] = out[-1][1] + html_tree(x, kind)
    return out


def number(t):
    return [[['t%d' % i], number(c)] for i, c in t]


def nlists(t):
    return 1 + sum(nlists(c) for _, c in t if c)


def count(e, kind):
    return 0 if isinstance(e, str) else (e[0] == kind) + sum(
        count(x, kind) for x in e[2])


@harness('C11', [dict(n=0), dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
         [dict(n=5), dict(n=6)])
def nesting(sx, n):
    """Elements of any levels: nesting of the (x)html list"""
    levels = [sx.int('l%d' % i, 0, 4) for i in range(n)]
    kind = sx.choice('kind', ['ol', 'ul'])
    method = sx.choice('method', ['html', 'xhtml'])
    elements = [(l, xhtml_tag('li', formatted_content='t%d' % i, level=2))
                for i, l in enumerate(levels)]
    e = walk(xhtml_list(*elements, attributes='class=c', listtype=kind,
                        level=2, method=method))
    sx.check_eq(e[0], kind, 'kind of the list')
    sx.check_eq(e[1], {'class': 'c'}, 'attributes of the list')
    want = tree(levels)
    got = html_tree(e, kind)
    sx.check(got == number(want), 'nesting of the items', got=got)
    sx.check(count(e, kind) == nlists(want), 'items of a parent are in one '
             'list')
    sx.observe(e)


@harness('C11', [dict(n=2, m=2), dict(n=3, m=1)],
         [dict(n=3, m=2), dict(n=4, m=1)])
def source(sx, n, m):
    """A list tag: items with their indents to nested elements and to tex"""
    cls, name, kind = sx.choice('cls', [(List, 'list', 'ul'),
                                        (OrderedList, 'orderedlist', 'ol')])
    indents = [sx.int('i%d' % i, 0, 2) for i in range(n)]
    text = [sx.str('t%d' % i, m, 'ab -' if i == 0 else 'ab')
            for i in range(n)]
    src = ''
    inds = []
    for i in range(n):
        k = 0
        while indents[i] > k:
            k += 1
        k = k * 2
        inds.append(k)
        src = src + '\n' + ' ' * k + sx.choice('b%d' % i, ['-', '*']) + \
            ' x' + text[i] + 'y'
    ctx = util.context()
    tag = cls(name=name, content=src, attributes='', context=ctx)
    low = min(inds)
    levels = [(k - low) // 2 for k in inds]
    sx.check_eq([t.attributes['level'] for t in tag.content], levels,
                'levels of the items')
    got = walk(tag.html_fmt(level=2))
    texts = ['x' + t + 'y' for t in text]
    texts[0] = typo(texts[0])

    def filled(t):
        return [[[texts[i]], filled(c)] for i, c in t]
    sx.check_eq(html_tree(got, kind), filled(tree(levels)),
                'nesting of the items')
    tex = tag.tex_fmt()
    style = 'itemize' if kind == 'ul' else 'enumerate'
    body = ''.join('\u00a7' * (l + 1) + ' ' + t + '\n'
                   for l, t in zip(levels, texts))
    sx.check_eq(tex, '\n\\begin{easylist}[' + style + ']\n' + body +
                '\\end{easylist}\n', 'items in tex')
    sx.observe(got, tex)


def typo(s):
    from harness.c07 import reference
    return reference(s)


@harness('C11', [dict(n=2), dict(n=3)], [dict(n=4)])
def levels(sx, n):
    """Levels of indents: the least is 0, more blanks are never a lower
    level, the list's unit of blanks is one level"""
    ind = [sx.int('i%d' % i, 0, 9) for i in range(n)]
    got = [l for l, _ in normalize_levels([(i, 't') for i in ind])]
    for i in range(n):
        for j in range(n):
            sx.check(sx.implies(ind[i] <= ind[j], got[i] <= got[j]),
                     'order of the levels')
            sx.check(sx.implies(sx.eq(ind[i] + 2, ind[j]),
                                sx.eq(got[i] + 1, got[j])),
                     'one level per unit of blanks')
    sx.check(sx.any(*[sx.eq(g, 0) for g in got]), 'the least level is 0')
    sx.observe(got)


@harness('C11', [dict(n=3), dict(n=4)], [dict(n=5), dict(n=6)])
def multiline(sx, n):
    """The lines of an item are joined by a blank"""
    s = sx.str('s', n, 'a \n')
    got = clean_string_list(parse_string_list('- x' + s + 'y'))
    out = ''
    i = 0
    t = 'x' + s + 'y'
    while i < len(t):
        j = i
        lines = 0
        while j < len(t) and t[j].isspace():
            lines += t[j] == '\n'
            j += 1
        if j > i:
            # a line break followed by an indent
            if lines and not (lines == 1 and t[j - 1] == '\n'):
                out = out + ' '
            else:
                out = out + t[i:j]
            i = j
        else:
            out = out + t[i]
            i += 1
    sx.check_eq(got[0][1], out, 'text of the item')
    sx.observe(got)


@harness('C11', [dict(n=2, deep=8)], [dict(n=3, deep=12)])
def deep(sx, n, deep):
    """Levels of any depth: an item at each level down to the deepest and
    items at any level after them"""
    levels = list(range(deep)) + [sx.int('l%d' % i, 0, deep)
                                  for i in range(n)]
    src = ''
    for i, l in enumerate(levels):
        k = 0
        while l > k:
            k += 1
        src = src + '  ' * k + '- t%d' % i + '\n'
    tag = List(name='list', content=src, attributes='', context=util.context())
    sx.check_eq([t.attributes['level'] for t in tag.content], levels,
                'levels of the items')
    tex = ''
    for i, l in enumerate(levels):
        k = 0
        while l > k:
            k += 1
        tex = tex + '\u00a7' * (k + 1) + ' t%d' % i + '\n'
    sx.check_eq(tag.tex_fmt(), '\n\\begin{easylist}[itemize]\n' + tex +
                '\\end{easylist}\n', 'items in tex')
    got = walk(tag.html_fmt(level=2))
    sx.check(html_tree(got, 'ul') == number(tree(levels)),
             'nesting of the items', got=got)
