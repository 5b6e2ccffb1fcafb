"""C13: numbering of labels: order, counters, headings, purging."""
from symex.api import harness
from disseminate import settings
from disseminate.context import BaseContext
from disseminate.label_manager import LabelManager, LabelNotFound
from disseminate.label_manager.exceptions import DuplicateLabel
from disseminate.label_manager.types import ContentLabel, DocumentLabel

HEADINGS = ('part', 'chapter', 'section', 'subsection', 'subsubsection')
KINDS = {'p': ('heading', 'part'), 'c': ('heading', 'chapter'),
         's': ('heading', 'section'), 'u': ('heading', 'subsection'),
         'v': ('heading', 'subsubsection'), 'f': ('caption', 'figure'),
         't': ('caption', 'table'), 'x': ('other',), 'n': ()}


class Doc(object):
    doc_ids = None


class RootContext(BaseContext):
    """A root context with a document which has the given doc_ids"""
    root_document = None
    validation_types = {'doc_id': str}


def root(ids, resets=True):
    c = RootContext()
    if ids is not None:
        d = Doc()
        d.doc_ids = ids
        c.root_document = d
    if resets:
        c['label_resets'] = settings.default_context['label_resets']
    return c


RESETS = {'part': 'csuv', 'chapter': 'suvft', 'section': 'uv',
          'subsection': 'v'}


def expected(labels, docs):
    """labels: [(doc, id, kind letter)] in order of creation. Returns
    [(doc, id, order, heading ids)] in the order of the documents"""
    out = []
    general = {}
    count = {}
    heads = {}
    for d in docs:
        for doc, i, k in labels:
            if not doc == d:
                continue
            kind = KINDS[k]
            order = []
            for name in kind:
                counter = general if name in ('heading', 'caption') else count
                counter[name] = counter.get(name, 0) + 1
                order.append(counter[name])
                for letter in RESETS.get(name, ''):
                    count[KINDS[letter][-1]] = 0
            if kind and kind[-1] in HEADINGS:
                n = HEADINGS.index(kind[-1])
                heads[kind[-1]] = (i, order[-1])
                for h in HEADINGS[n + 1:]:
                    heads.pop(h, None)
            out.append((d, i, tuple(order), dict(heads)))
    return out


def check(sx, manager, labels, docs):
    want = expected(labels, docs)
    got = manager.get_labels_by_kind()
    sx.check(len(list(got)) == len(want), 'number of labels')
    for g, (doc, i, order, heads) in zip(list(got), want):
        sx.check_eq([g.doc_id, g.id], [doc, i], 'order of the labels')
        sx.check_eq(g.order, order, 'numbers of a label')
        sx.check_eq(g.number, order[-1] if order else None,
                    'number of a label')
        numbers = []
        for h in HEADINGS:
            label = getattr(g, h + '_label')
            if h in heads:
                sx.check(label is not None, 'heading of a label', label=i)
                sx.check_eq(label.id, heads[h][0], 'heading of a label')
                sx.check_eq(getattr(g, h + '_number'), heads[h][1],
                            'number of the heading of a label')
                sx.check_eq(getattr(g, h + '_title'), 'T' + heads[h][0],
                            'title of the heading of a label')
                numbers.append(str(heads[h][1]))
            else:
                sx.check(label is None, 'a label has only the headings '
                         'above it', label=i, heading=h,
                         got=None if label is None else label.id)
                sx.check_eq(getattr(g, h + '_number'), '',
                            'number without a heading')
                sx.check_eq(getattr(g, h + '_title'), '',
                            'title without a heading')
        sx.check_eq(g.tree_number, '.'.join(numbers),
                    'number in the tree of headings')
    sx.observe(want)


def add(m, labels, doc, i, k):
    c = RootContext()
    c['doc_id'] = doc
    m.add_content_label(id=i, kind=KINDS[k], title='T' + i, context=c)
    labels.append((doc, i, k))


@harness('C13', [dict(n=1, kinds='pcsuvftxn'), dict(n=3, kinds='pcsf'),
                 dict(n=3, kinds='csuv'), dict(n=3, kinds='cfx')],
         [dict(n=4, kinds='pcsuf'), dict(n=5, kinds='csf'),
          dict(n=4, kinds='csuv'), dict(n=3, kinds='pcsuvftxn')])
def one_document(sx, n, kinds):
    """Any sequence of labels in a document"""
    ctx = root(None)
    m = LabelManager(ctx)
    labels = []
    for i in range(n):
        add(m, labels, 'd', 'l%d' % i, sx.choice('k%d' % i, list(kinds)))
    check(sx, m, labels, ['d'])


@harness('C13', [dict(n=2, kinds='cs'), dict(n=3, kinds='cf')],
         [dict(n=3, kinds='csf'), dict(n=4, kinds='cf')])
def documents(sx, n, kinds):
    """Labels of several documents, in the order of the project's documents,
    whatever the order of creation; labels of documents which are not in the
    project are removed"""
    ids = [sx.str('d%d' % i, 1, 'abc') for i in range(n)]
    order = sx.choice('order', ['abc', 'cab', 'ba', 'b'])
    ctx = root(list(order))
    m = LabelManager(ctx)
    labels = []
    for i in range(n):
        add(m, labels, ids[i], 'l%d' % i, sx.choice('k%d' % i, list(kinds)))
    check(sx, m, labels, list(order))
    # numbering again changes nothing
    m.registered = False
    m.register()
    check(sx, m, labels, list(order))


@harness('C13', [dict(n=2, m=1, kinds='cs'), dict(n=3, m=0, kinds='cs')],
         [dict(n=3, m=1, kinds='csf'), dict(n=3, m=2, kinds='cs')])
def reloaded(sx, n, m, kinds):
    """After any documents are loaded again with other labels, or the
    documents are reordered or removed, numbers and headings are those of the
    current labels alone"""
    ctx = root(['a', 'b'])
    man = LabelManager(ctx)
    labels = []
    for i in range(n):
        add(man, labels, sx.choice('d%d' % i, ['a', 'b']), 'l%d' % i,
            sx.choice('k%d' % i, list(kinds)))
    check(sx, man, labels, ['a', 'b'])
    keep = man.labels.copy()
    doc = sx.choice('doc', ['a', 'b', None])
    if doc is not None:
        man.reset(doc_ids=sx.choice('form', [doc, [doc], {doc}]))
        labels = [x for x in labels if x[0] != doc]
        for i in range(m):
            add(man, labels, doc, 'm%d' % i, sx.choice('j%d' % i,
                                                       list(kinds)))
    else:
        man.registered = False
    docs = sx.choice('docs', ['ab', 'ba', 'b'])
    ctx.root_document.doc_ids = list(docs)
    check(sx, man, labels, list(docs))
    sx.check(keep is not None, 'labels of before are still alive')


@harness('C13', [dict(n=2), dict(n=3)], [dict(n=4)])
def custom_resets(sx, n):
    """Counters are reset by the kinds in the settings only"""
    ctx = root(None, resets=False)
    resets = {}
    for k in ('a', 'b'):
        r = [x for x in ('a', 'b', 'c') if x != k and
             sx.choice(k + x, [False, True])]
        if r:
            resets[k] = set(r)
    if sx.choice('with', [True, False]):
        ctx['label_resets'] = resets
    else:
        resets = {}
    man = LabelManager(ctx)
    c = RootContext()
    c['doc_id'] = 'd'
    count = {}
    want = []
    for i in range(n):
        k = sx.choice('k%d' % i, ['a', 'b', 'c', 'all'])
        kind = k if k != 'all' else ['a', 'c', 'b']
        man.add_content_label(id='l%d' % i, kind=kind, title='t', context=c)
        order = []
        for x in kind:
            count[x] = count.get(x, 0) + 1
            for y in resets.get(x, ()):
                count[y] = 0
            order.append(count[x])
        want.append(tuple(order))
    man.register()
    got = [x.order for x in man.labels.values()]
    sx.check_eq(got, want, 'numbers of the labels')
    sx.observe(got)


@harness('C13', [dict(n=12, k=2)], [dict(n=24, k=3), dict(n=110, k=2)])
def many(sx, n, k):
    """Many labels in two documents: any k of them have other kinds and
    documents"""
    ctx = root(['a', 'b'])
    m = LabelManager(ctx)
    at = [sx.int('at%d' % i, 0, n - 1) for i in range(k)]
    for i in range(1, k):
        sx.assume(at[i - 1] < at[i])
    labels = []
    j = 0
    for i in range(n):
        if j < k and at[j] == i:
            j += 1
            add(m, labels, sx.choice('d%d' % j, ['a', 'b']), 'l%d' % i,
                sx.choice('k%d' % j, ['c', 'f']))
        else:
            add(m, labels, 'ab'[i % 3 == 0], 'l%d' % i, 's')
    check(sx, m, labels, ['a', 'b'])


@harness('C13', [dict(n=2, m=2, kinds='csf')], [dict(n=3, m=3, kinds='csf')])
def added(sx, n, m, kinds):
    """Labels added after the labels were numbered or looked up are numbered
    too; those of documents whose names start alike are told apart"""
    docs = ['a', 'ab']
    ctx = root(docs)
    ctx['doc_id'] = 'a'
    man = LabelManager(ctx)
    labels = []
    for i in range(n):
        add(man, labels, sx.choice('d%d' % i, docs), 'l%d' % i,
            sx.choice('k%d' % i, list(kinds)))
    first = sx.choice('first', ['register', 'get', 'ids'])
    if first == 'register':
        man.register()
    elif first == 'get':
        man.get_label(id='l0')
    else:
        man.get_labels_by_id(ids=['l0'])
    for i in range(m):
        add(man, labels, sx.choice('e%d' % i, docs), 'm%d' % i,
            sx.choice('j%d' % i, list(kinds)))
    want = expected(labels, docs)
    at = {str(w[1]): w[2] for w in want}
    for i in range(m):
        sx.check_eq(man.get_label(id='m%d' % i).order, at['m%d' % i],
                    'numbers of the label which was added')
    check(sx, man, labels, docs)
    drop = sx.choice('drop', docs)
    man.reset(doc_ids=drop)
    check(sx, man, [x for x in labels if x[0] != drop], docs)
