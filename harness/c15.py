"""C15: tables of contents and navigation between documents."""
from symex.api import harness
from disseminate.tags.tag import Tag
from disseminate.tags.navigation import set_navigation_labels
from harness.c10 import walk
from harness.c14 import project

LEVELS = {'t': 'title', 'p': 'part', 'c': 'chapter', 's': 'section',
          'u': 'subsection', 'v': 'subsubsection'}
ORDER = 'tpcsuv'


def nested(items):
    """[(level, element)]: items with a higher level than the item before
    are in a list of their own after it"""
    out = []
    i = 0
    while i < len(items):
        level = items[i][0]
        out.append(items[i][1])
        j = i + 1
        while j < len(items) and items[j][0] > level:
            j += 1
        if j > i + 1:
            out.append(['ol', {}, nested(items[i + 1:j])])
        i = j
    return out


def texts(kind, title, number):
    if kind == 'c':
        return 'Chapter %d. ' % number + title
    if kind == 'p':
        return 'Part %d. ' % number + title
    return title


@harness('C15', [dict(n=3, kinds='csu', contents='few'),
                 dict(n=2, kinds='tpcsuvd', contents='few'),
                 dict(n=2, kinds='csd', contents='all'),
                 dict(n=3, kinds='cd', contents='both')],
         [dict(n=4, kinds='csud', contents='few'),
          dict(n=3, kinds='tpcsuvd', contents='few'),
          dict(n=3, kinds='csd', contents='all'),
          dict(n=4, kinds='cd', contents='both')])
def toc(sx, n, kinds, contents):
    """A table of contents lists each label of its kinds, of the document or
    of all documents, once and in order, nested by its level, with a link to
    the label"""
    man, ctxs = project('a.dm', 'sub/b.dm')
    content = sx.choice('content', ['headings', 'all headings abbreviated']
                        if contents == 'few' else
                        ['all documents headings abbreviated',
                         'all headings documents abbreviated']
                        if contents == 'both' else [
        'heading', 'all heading', 'headings all', 'documents',
        'all documents', 'all documents headings', 'all documents expanded',
        'all documents headings abbreviated', 'figures'])
    where = sx.choice('where', [0, 1])
    split = sx.choice('split', list(range(n + 1)))
    labels = []
    numbers = {'p': 0, 'c': 0}
    s = sx.str('s', 1, 'x<&')
    # labels of different documents may have the same id
    same = 0 < split < n and sx.choice('same ids', [False, True])
    for i in range(n):
        doc = 0 if i < split else 1
        id = 'l%d' % (i - split if doc and same else i)
        k = sx.choice('k%d' % i, list(kinds))
        title = s + str(i)
        if k == 'd':
            man.add_document_label(id=id, kind=(
                'document', 'document-level-%d' % (doc + 1)), title=title,
                context=ctxs[doc])
        else:
            man.add_content_label(id=id, kind=('heading', LEVELS[k]),
                                  title=title, context=ctxs[doc])
        if k in numbers:
            numbers[k] += 1
            if k == 'p':
                numbers['c'] = 0
        labels.append((doc, id, k, texts(k, title, numbers.get(k))))
    words = content.split()
    got = []
    for group in ('heading', 'document'):
        if group in words or group + 's' in words:
            got += [x for x in labels if (x[2] == 'd') ==
                    (group == 'document')]
    if 'all' not in words:
        got = [x for x in got if x[0] == where]
    if 'abbreviated' in words:
        got = [x for i, x in enumerate(got) if x[0] == where or i == 0 or
               got[i - 1][0] != x[0]]
    tag = Tag(name='root', content='@toc{' + content + '}', attributes='',
              context=ctxs[where])
    tag = tag.content
    items = []
    tex = ''
    level = 1
    for doc, id, k, text in got:
        if k != 'd':
            level = ORDER.index(k)
        for target in ('html', 'pdf'):
            path = '' if doc == where else \
                ('sub/b.' if doc == 1 else '../a.') + target
            url = path + ('#' + id if k != 'd' else '')
            if target == 'html':
                items.append((level, ['li', {'class': 'toc-level-%d' % level},
                                      [['a', {'class': 'ref', 'href': url},
                                        [text]]]]))
            else:
                tex = tex + '\u00a7' * level + ' ' + (
                    '\\href{' + url + '}{' + text + '}' if url else text) + \
                    '\n'
    found = walk(tag.html_fmt(level=2))
    sx.check_eq(drop_empty(found), drop_empty(
        ['ol', {'class': 'toc'}, nested(items)]), 'items of the list')
    sx.check_eq(tag.tex, '\n\\begin{easylist}[booktoc]\n'
                '\\ListProperties(Hide=2)\n' + tex + '\\end{easylist}\n',
                'tex of the list')
    sx.observe(tex)


def drop_empty(e):
    """Sorted attributes, without the href of links to the document itself
    """
    if isinstance(e, str):
        return e
    return [e[0], {k: e[1][k] for k in sorted(e[1]) if len(e[1][k])},
            [drop_empty(x) for x in e[2]]]


TARGETS = (['.html'], ['.html', '.tex'], ['.tex', '.html'], ['.tex'], [])


@harness('C15', [dict(n=2, steps=1), dict(n=3, steps=1)],
         [dict(n=2, steps=2), dict(n=3, steps=1), dict(n=4, steps=1)])
def navigation(sx, n, steps):
    """The links to the next and the previous document of each target are
    those of the neighbours in the list of documents with that target, also
    after documents, targets or headings change"""
    ids = ['a.dm', 'sub/b.dm', 'c.dm', 'd.dm'][:n]
    man, ctxs = project(*ids)
    root = ctxs[0].document
    docs = [c.document for c in ctxs]
    for d, c in zip(docs, ctxs):
        d.context = c
    for step in range(steps):
        if step:
            docs = [docs[i] for i in sx.choice('order', [[0], [0, 1], [1, 0]])]
            root.docs = docs
        root.documents_list = lambda only_subdocuments, recursive: docs
        man.reset()
        targets = []
        heads = []
        for i, d in enumerate(docs):
            t = sx.choice('t%d%d' % (step, i), list(
                TARGETS if n < 4 else TARGETS[1:4]))
            d.targets = {x: None for x in t}
            targets.append(t)
            h = sx.choice('h%d%d' % (step, i), [True, False])
            heads.append(h)
            man.add_document_label(id='doc%d' % i, kind=('document', 'x'),
                                   title='D', context=d.context)
            if h:
                man.add_content_label(id='h%d' % i, kind=('heading',
                                                          'section'),
                                      title='H%d' % i, context=d.context)
                man.add_content_label(id='i%d' % i, kind=('heading',
                                                          'section'),
                                      title='I%d' % i, context=d.context)
        set_navigation_labels(root_document=root)
        for target in ('.html', '.tex'):
            row = [i for i in range(len(docs)) if target in targets[i]]
            for i, d in enumerate(docs):
                for name, rel in (('prev', -1), ('curr', 0), ('next', 1)):
                    key = name + '_' + target[1:]
                    other = None
                    if i in row:
                        j = row.index(i) + rel
                        if 0 <= j < len(row) and heads[row[j]]:
                            other = row[j]
                    ref = d.context.get(key, None)
                    label = ref() if ref is not None else None
                    if not row:
                        # not rendered for this target
                        continue
                    sx.check_eq(
                        None if label is None else [label.doc_id, label.id],
                        None if other is None else
                        [docs[other].doc_id, 'h%d' % other],
                        'heading of the ' + name + ' document for ' + target)
                    if name == 'curr':
                        continue
                    tag = Tag(name='root', content='@' + name,
                              attributes='', context=d.context)
                    got = tag.content.html_fmt(level=2) if \
                        target == '.html' else tag.tex
                    if other is None:
                        sx.check_eq(got, '', 'no link without a document')
                        continue
                    a, b = d.doc_id, docs[other].doc_id
                    up = '../' if a[:4] == 'sub/' else ''
                    if target == '.tex':
                        sx.check_eq(got, '\\href{' + up + b[:-3] + '.pdf#h%d'
                                    '}{H%d}' % (other, other),
                                    'link to the ' + name + ' document')
                        continue
                    down = b[:-3] + '.html'
                    sx.check_eq(drop_empty(walk(got)), ['a', {
                        'class': 'ref', 'href': up + down + '#h%d' % other},
                        ['H%d' % other]], 'link to the ' + name + ' document')
        sx.observe(targets, heads)
