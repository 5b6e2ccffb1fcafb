"""C21: tables have every cell of their data, in its row and column."""
from symex.api import harness
from symex import util
from disseminate.paths import utils as path_utils
from disseminate.tags.data import Data
from disseminate.tags.table import BaseTable
from disseminate.tags.tag import Tag
from harness.c10 import walk

CELL = 'a1&. '


def table_of(sx, src, paths=(), files=False):
    if not files:
        # the contents are not the name of a file
        sx.patch(path_utils, 'find_file', lambda *a, **kw: None)
    ctx = util.context(paths=list(paths))
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    tags = tag.flatten(filter_tags=True)
    data = [t for t in tags if isinstance(t, Data)]
    tables = [t for t in tags if isinstance(t, BaseTable)]
    sx.check(len(data) == 1 and len(tables) == 1, 'a table with its data')
    tag.context_ = ctx
    return tables[0], data[0], tag


def cells_of(sx, rows, cols, n, alpha=CELL):
    out = []
    for r in range(rows):
        row = []
        for c in range(cols):
            s = sx.str('cell %d %d' % (r, c), n, alpha)
            if n:
                # blanks at the ends of cells are not part of the contents
                sx.assume(s[0] != ' ')
                sx.assume(s[-1] != ' ')
            row.append(s)
        out.append(row)
    return out


def check_table(sx, table, data, names, rows, cols, html=True):
    """The data and the tables made from it"""
    got = [list(r) for r in data.rows_transpose]
    sx.check_eq(got, rows, 'rows of the data')
    columns = [list(r) for r in data.rows]
    sx.check_eq(columns, [[r[i] for r in rows] for i in range(cols)],
                'columns of the data')
    sx.check_eq(data.num_cols, cols, 'number of columns')
    sx.check_eq(data.num_rows, len(rows), 'number of rows')
    if names is not None:
        sx.check_eq(list(data.headers), names, 'names of the columns')
    if not html:
        return
    kinds = {'table': ('table', 'table'), 'tbl': ('table', 'table'),
             'margintable': ('margintable', 'margintbl'),
             'fulltable': ('table*', 'fulltable')}
    env, cls = kinds[table.name]

    def row(name, texts):
        return ['tr', {}, [[name, {}, [t] if len(t) else []] for t in texts]]

    head = [] if names is None else [['thead', {}, [row('th', names)]]]
    want = head + [['tbody', {}, [row('td', r) for r in rows]]]
    for found in (table.html_fmt(level=2), table.xhtml_fmt(level=2)):
        found = walk(found)
        sx.check_eq(found[0], 'table', 'element of the table')
        sx.check_eq(found[1], {'class': cls}, 'attributes of the table')
        sx.check_eq([x for x in found[2] if not isinstance(x, str)], want,
                    'rows of the table')
        sx.observe(found)

    def line(texts):
        return ' & '.join([t.replace('&', '\\&') for t in texts]) + \
            ' \\\\\n'
    tex = '\n\\begin{tabular}{' + 'l' * cols + '}\n\\toprule\n'
    if names is not None:
        tex = tex + line(names) + '\\midrule\n'
    for r in rows:
        tex = tex + line(r)
    tex = tex + '\\bottomrule\n\\end{tabular}\n'
    got = table.tex
    a = '\n\\begin{' + env + '}\n'
    z = '\n\\end{' + env + '}\n'
    sx.check_eq(got, a + tex.strip('\n') + z, 'tex of the table')
    sx.observe(got)


@harness('C21', [dict(rows=2, cols=2, n=1), dict(rows=1, cols=2, n=2),
                 dict(rows=3, cols=1, n=1)],
         [dict(rows=3, cols=2, n=1), dict(rows=2, cols=3, n=1),
          dict(rows=2, cols=2, n=2)])
def cells(sx, rows, cols, n):
    """Each cell is in its row and column, and the first row has the names of
    the columns, unless there is none"""
    cs = cells_of(sx, rows, cols, n)
    name = sx.choice('table', ['table', 'margintable', 'fulltable'])
    kind = sx.choice('data', ['csv', 'tsv'])
    header = sx.choice('header', [True, False])
    sep = {'csv': ',', 'tsv': '\t'}[kind]
    src = '\n'.join([sep.join(r) for r in cs])
    src = '@' + name + '{@' + kind + ('' if header else '[noheader]') + \
        '{' + src + '}}'
    table, data, root = table_of(sx, src)
    check_table(sx, table, data, cs[0] if header else None,
                cs[1:] if header else cs, cols)


@harness('C21', [dict(lead=2, mid=2, tail=1), dict(lead=1, mid=1, tail=2)],
         [dict(lead=3, mid=2, tail=2), dict(lead=2, mid=3, tail=3)])
def blanks(sx, lead, mid, tail):
    """Blank lines, and blanks before a cell, are not part of the data"""
    a = sx.str('lead', (0, lead), ' \n')
    b = sx.str('mid', (0, mid), ' \n')
    c = sx.str('tail', (0, tail), ' \n')
    cols = sx.choice('columns', [1, 2])
    cs = [['x', 'y'][:cols], ['1', '2'][:cols], ['3', '4'][:cols]]
    header = sx.choice('header', [True, False])
    rows = [', '.join(r) for r in cs]
    src = a + rows[0] + '\n' + b + rows[1] + '\n' + b + rows[2] + '\n' + c
    src = '@table{' + ('' if header else '\n ') + '@csv' + \
        ('' if header else '[noheader]') + '{' + src + '}}'
    table, data, root = table_of(sx, src)
    check_table(sx, table, data, cs[0] if header else None,
                cs[1:] if header else cs, cols, html=False)


@harness('C21', [dict(n=1, m=1), dict(n=2, m=0)],
         [dict(n=2, m=1), dict(n=3, m=0)])
def quotes(sx, n, m):
    """Quoted cells have any text, also the separator, new lines and doubled
    quotes"""
    s = sx.str('s', n, 'a,"\n ')
    t = sx.str('t', m, 'a,"\n ')
    where = sx.choice('where', ['name', 'cell', 'last'])

    def quoted(x):
        return '"' + x.replace('"', '""') + '"'
    cs = [['x', 'y'], ['1', '2']]
    src = [['x', 'y'], ['1', '2']]
    for text, (i, j) in ((s, {'name': (0, 0), 'cell': (1, 0),
                              'last': (1, 1)}[where]), (t, (0, 1))):
        cs[i][j] = text
        src[i][j] = quoted(text)
    src = '@table{@csv{' + '\n'.join([','.join(r) for r in src]) + '}}'
    table, data, root = table_of(sx, src)
    check_table(sx, table, data, cs[0], cs[1:], 2, html=False)


def ref_rows(s):
    """Rows of a text without quotes"""
    rows = []
    for line in s.split('\n'):
        row = [x.lstrip(' ') for x in line.split(',')]
        if len(row) > 1 or len(row[0]):
            rows.append(row)
    return rows


@harness('C21', [dict(n=3), dict(n=4)], [dict(n=5), dict(n=6)])
def any_text(sx, n):
    """Any text: no cell is lost; missing cells are empty"""
    s = sx.str('s', n, 'a, \n')
    header = sx.choice('header', [True, False])
    rows = ref_rows('x' + s)
    cols = max([len(r) for r in rows])
    rows = [r + [''] * (cols - len(r)) for r in rows]
    src = '@table{@csv' + ('' if header else '[noheader]') + '{x' + s + '}}'
    table, data, root = table_of(sx, src)
    check_table(sx, table, data, rows[0] if header else None,
                rows[1:] if header else rows, cols, html=False)


@harness('C21', [dict(n=1)], [dict(n=2)])
def files(sx, n):
    """Data from a file is the same as its contents"""
    cs = cells_of(sx, 2, 2, n, 'a1.')
    kind = sx.choice('data', ['csv', 'tsv'])
    header = sx.choice('header', [True, False])
    sep = {'csv': ',', 'tsv': '\t'}[kind]
    d = sx.scratch()
    sx.file(d + '/data.txt', '\n'.join([sep.join(r) for r in cs]) + '\n')
    import pathlib
    src = '@table{@' + kind + ('' if header else '[noheader]') + \
        '{data.txt}}'
    table, data, root = table_of(sx, src, [pathlib.Path(d)], True)
    check_table(sx, table, data, cs[0] if header else None,
                cs[1:] if header else cs, 2)


@harness('C21', [dict(n=1)], [dict(n=2), dict(n=3)])
def formatted(sx, n):
    """The tags in cells are formatted"""
    s = sx.str('s', n, 'a1.')
    t = sx.str('t', n, 'a1.')
    src = '@table{@csv{x@b{' + s + '},y\n@i{' + t + '}z, @sup{' + s + '}}}'
    table, data, root = table_of(sx, src)
    found = walk(table.html_fmt(level=2))
    sx.check_eq(found[2], [
        ['thead', {}, [['tr', {}, [
            ['th', {}, ['x', ['strong', {}, [s]]]], ['th', {}, ['y']]]]]],
        ['tbody', {}, [['tr', {}, [
            ['td', {}, [['i', {}, [t]], 'z']],
            ['td', {}, [['sup', {}, [s]]]]]]]]], 'rows of the table')
    got = table.tex
    sx.check(('x\\textbf{' + s + '} & y \\\\\n') in got, 'tex of the names')
    sx.check(('\\textit{' + t + '}z & \\ensuremath{^{' + s + '}} \\\\\n')
             in got, 'tex of the cells')
    sx.observe(got)
