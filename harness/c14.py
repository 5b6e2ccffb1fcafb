"""C14: labels are found by their identifiers; tags show their own labels."""
from symex.api import harness
from symex import util
from disseminate import settings
from disseminate.context import BaseContext
from disseminate.document.exceptions import TargetNotFound
from disseminate.label_manager import LabelManager, LabelNotFound
from disseminate.label_manager.exceptions import DuplicateLabel
from disseminate.label_manager.types import ContentLabel, DocumentLabel
from disseminate.paths import TargetPath
from disseminate.tags.tag import Tag
from disseminate.utils.dict import find_entry
from harness.c10 import walk


class Ctx(BaseContext):
    validation_types = {'doc_id': str, 'label_manager': LabelManager,
                        'root_document': None}
    document = None
    root_document = None


class Doc(object):
    """A document with targets in known places"""

    missing = ()

    def __init__(self, doc_id):
        self.doc_id = doc_id

    def target_filepath(self, target):
        target = target.strip('.')
        if target in self.missing:
            raise TargetNotFound('no ' + target)
        return TargetPath(target_root='/root', target=target,
                          subpath=self.doc_id[:-3] + '.' + target)


class Root(Doc):
    docs = ()

    @property
    def doc_ids(self):
        return [d.doc_id for d in self.docs]

    def documents_by_id(self, recursive=True):
        return {d.doc_id: d for d in self.docs}


def project(*ids):
    """A label manager and the contexts of documents with the ids"""
    ctxs = []
    root = Root(ids[0])
    docs = [root] + [Doc(i) for i in ids[1:]]
    root.docs = docs
    manager = None
    for d in docs:
        c = Ctx()
        if manager is None:
            manager = LabelManager(c)
        for k in ('label_fmts', 'label_resets'):
            c[k] = settings.default_context[k]
        c['doc_id'] = d.doc_id
        c['label_manager'] = manager
        d.context = c
        c.document = d
        c.root_document = root
        c['document'] = d
        c['root_document'] = lambda: root
        ctxs.append(c)
    return manager, ctxs


@harness('C14', [dict(n=2, m=1)],
         [dict(n=2, m=1), dict(n=2, m=2)])
def lookup(sx, n, m):
    """Labels are found by their ids, with or without the id of the document;
    an id is used once in a document"""
    man, (c1, c2) = project('a.dm', 'b.dm')
    ctxs = {'a.dm': c1, 'b.dm': c2}
    labels = {}
    for i in range(n):
        doc = sx.choice('doc%d' % i, ['a.dm', 'b.dm'])
        other = sx.choice('in%d' % i, [None, 'a.dm', 'b.dm'])
        s = sx.str('id%d' % i, m, 'xy:')
        sx.assume('::' not in s)
        key = (other or doc, s)
        kind = ['figure', ('heading', 'figure')][i % 2]
        name = s if other is None else other + '::' + s
        known = sx.any(*[sx.all(k[0] == key[0], sx.eq(k[1], s))
                         for k in labels])
        known = bool(known)
        add = [man.add_content_label, man.add_document_label][i // 2 % 2]
        try:
            label = add(id=name, kind=kind, title='t', context=ctxs[doc])
            sx.check(not known, 'an id is used once in a document', id=name)
        except DuplicateLabel:
            sx.check(known, 'ids which were not used are accepted', id=name)
            continue
        sx.check_eq([label.doc_id, label.id, label.title],
                    [key[0], s, 't'], 'ids of a label')
        sx.check_eq(label.kind, ('figure',) if kind == 'figure' else kind,
                    'kind of a label')
        labels[key] = label
    # document order
    order = [k for k in labels if k[0] == 'a.dm'] + \
        [k for k in labels if k[0] == 'b.dm']
    query = sx.choice('query', ['id', 'kind', 'reset'])
    if query == 'kind':
        by_kind(sx, man, labels, order)
        return
    if query == 'reset':
        reset(sx, man, labels, order)
        return
    q = sx.str('q', m, 'xy:')
    sx.assume('::' not in q)
    doc = sx.choice('doc', [None, 'a.dm', 'b.dm', 'c.dm'])
    found = [labels[k] for k in order if k[1] == q and
             (doc is None or k[0] == doc)]
    name = q if doc is None else doc + '::' + q
    try:
        got = man.get_label(name)
        sx.check(len(found) > 0, 'labels which were not added are an error',
                 id=name)
        sx.check(got is found[0], 'the label with an id', id=name,
                 got=[got.doc_id, got.id])
        both = man.get_labels_by_id([name, name])
        sx.check(len(both) == 2 and both[0] is got and both[1] is got and
                 man.get_labels_by_id(name)[0] is got,
                 'the labels with the ids')
    except LabelNotFound:
        sx.check(len(found) == 0, 'a label which was added is found',
                 id=name)


def by_kind(sx, man, labels, order):
    doc = sx.choice('by', [None, 'a.dm', 'b.dm', 'c.dm'])
    kind = sx.choice('kind', [None, 'figure', 'heading', 'fig'])
    got = list(man.get_labels_by_kind(doc_id=doc, kinds=kind))
    want = [labels[k] for k in order if (doc is None or k[0] == doc) and
            (kind is None or kind in labels[k].kind)]
    sx.check(len(got) == len(want) and all(
        x is y for x, y in zip(got, want)), 'the labels of a kind, in order')


def reset(sx, man, labels, order):
    docs = sx.choice('reset', [None, 'a.dm', ['b.dm'], ('a.dm', 'b.dm')])
    man.reset(doc_ids=docs)
    gone = ['a.dm', 'b.dm'] if docs is None else \
        [docs] if docs == 'a.dm' else list(docs)
    got = list(man.get_labels_by_kind())
    want = [labels[k] for k in order if k[0] not in gone]
    sx.check(len(got) == len(want) and all(
        x is y for x, y in zip(got, want)),
        'exactly the labels of the reset documents are removed')


@harness('C14', [dict(n=1), dict(n=2)], [dict(n=3)])
def entries(sx, n):
    """The entry with the most specific keys, with the suffix first, of the
    first dict which has one"""
    keys = ['k%d' % i for i in range(n)]
    names = []
    for i in range(n, 0, -1):
        s = '_'.join(keys[:i])
        names.append(s + '_html')
        names.append(s)
    dicts = []
    for d in range(2):
        e = {'other': 'other', 'k1': 'x', 'k0_tex': 'y', 'html': 'z'}
        for s in names:
            if sx.choice('%d %s' % (d, s), [True, False]):
                e[s] = '%d %s' % (d, s)
        dicts.append(e)
    suffix = sx.choice('suffix', ['html', None])
    search = sx.choice('dicts', ['first', 'both'])
    want = None
    for d in dicts[:2 if search == 'both' else 1]:
        for s in names:
            if want is None and s in d and (
                    suffix is not None or s[-5:] != '_html'):
                want = d[s]
    try:
        got = find_entry(dicts if search == 'both' else dicts[0], *keys,
                         suffix=suffix)
    except KeyError:
        sx.check(want is None, 'the entry is found', keys=keys)
        return
    sx.check_eq(got, want, 'the most specific entry')


KINDS = {'part': 'Part {} ', 'chapter': 'Chapter {} ', 'section': '{}. '}


@harness('C14', [dict(n=1, k=2), dict(n=2, k=1)],
         [dict(n=1, k=2), dict(n=3, k=1)])
def own(sx, n, k):
    """A heading shows its own number and title in each document, also if
    the documents use the same ids; its anchor is its id"""
    man, (c1, c2) = project('a.dm', 'b.dm')
    tags = []
    chapter = section = 0
    for i, c in enumerate((c1, c2)):
        for j in range(k):
            s = sx.str('s%d%d' % (i, j), n, 'ab1&')
            name = sx.choice('name%d%d' % (i, j), ['chapter', 'section'])
            short = sx.choice('short%d%d' % (i, j), ['', ' short="c<"'])
            tag = Tag(name='root', content='@%s[id=i%d%s]{' % (
                name, j, short) + s + '}', attributes='', context=c)
            if name == 'chapter':
                chapter += 1
                section = 0
                prefix = 'Chapter %d. ' % chapter
            else:
                section += 1
                prefix = ('%d.' % chapter if chapter else '') + \
                    '%d. ' % section
            tags.append((tag, name, prefix + ('c<' if short else s),
                         'i%d' % j, chapter if name == 'chapter'
                         else section))
    for tag, name, text, id, number in tags:
        sx.check_eq(walk(tag.html_fmt(level=2)), [
            'span', {'class': 'root'}, [
                ['h2' if name == 'chapter' else 'h3', {'id': id},
                 [['span', {'class': 'label'}, [text]]]]]],
            'html of a heading')
        sx.check_eq(tag.txt, text, 'text of a heading')
        sx.check_eq(tag.tex, '\\setcounter{%s}{%d}\n\\%s{' % (
            name, number - 1, name) + text + '} \\label{' + id + '}',
            'tex of a heading')


@harness('C14', [dict(n=1)], [dict(n=2)])
def refs(sx, n):
    """A reference shows the number and title of the label it names and links
    to its document and anchor"""
    man, (c1, c2) = project('a.dm', 'sub/b.dm')
    ids = ('a.dm', 'sub/b.dm')
    s = sx.str('s', n, 'ab1&')
    t = sx.str('t', n, 'ab1&')
    same = sx.choice('same', [True, False])
    names = [sx.choice('n%d' % i, ['chapter', 'section', 'figure', 'table',
                                   'document']) for i in range(2)]
    extra = sx.choice('extra', [0, 1])
    labels = ['x', 'x' if same else 'y']
    counts = {}
    for c, name, title, id in zip((c1, c2), names, (s, t), labels):
        for j in range(extra):
            man.add_content_label(id='z', kind=('heading', 'chapter'),
                                  title='zz', context=c)
        if name == 'document':
            man.add_document_label(id=id, kind=('document', 'document-1'),
                                   title=title, context=c)
        else:
            man.add_content_label(
                id=id, kind=('heading' if name in ('chapter', 'section')
                             else 'caption', name), title=title, context=c)
    src = sx.choice('src', [0, 1])
    which = sx.choice('which', [0, 1])
    form = sx.choice('form', ['id', 'doc', 'blanks'])
    if same and form != 'doc':
        sx.assume(which == 0)
    ref = labels[which] if form == 'id' else ' ' + labels[which] + '\n' if \
        form == 'blanks' else ids[which] + '::' + labels[which]
    tag = Tag(name='root', content='@ref{' + ref + '}', attributes='',
              context=(c1, c2)[src])
    # the number
    number = 0
    chapters = 0
    for i in range(which + 1):
        if extra:
            chapters += 1
            number = 0
        if names[i] == 'chapter':
            chapters += 1
            if names[which] != 'chapter':
                number = 0
        if names[i] == names[which]:
            number += 1
    title = (s, t)[which]
    name = names[which]
    plain = {'chapter': 'Chapter %d. ' % chapters + title,
             'section': title, 'document': title,
             'figure': 'Fig. %d' % number, 'table': 'Table %d' % number}[name]
    inner = [['strong', {}, [plain]]] if name in ('figure', 'table') else \
        [plain]
    tex = '\\textbf{' + plain + '}' if name in ('figure', 'table') else plain
    sx.check_eq(tag.txt, plain, 'text of a reference')
    # the document which does not have the targets
    lacks = sx.choice('lacks', [None, 0, 1])
    if lacks is not None:
        (c1, c2)[lacks].document.missing = ('html', 'xhtml', 'pdf')
        if src == which:
            lacks = None
    anchor = '#' + labels[which] if name != 'document' else ''
    for target in ('html', 'xhtml', 'pdf'):
        if src == which:
            path = ''
        elif src == 0:
            path = 'sub/b.' + target
        else:
            path = '../a.' + target
        url = path + anchor
        if target == 'pdf':
            if url and lacks is None:
                sx.check_eq(tag.tex, '\\href{' + url + '}{' + tex + '}',
                            'tex of a reference')
            else:
                sx.check_eq(tag.tex, tex, 'tex of a reference')
            continue
        got = walk(getattr(tag, target + '_fmt')(level=2))
        sx.check_eq(got[2][0][2], inner, 'html text of a reference')
        sx.check_eq(got[2][0][0], 'span' if lacks is not None else 'a',
                    'reference')
        sx.check_eq(got[2][0][1].get('class'), 'ref', 'reference')
        if lacks is not None:
            sx.check('href' not in got[2][0][1], 'there is no link to a '
                     'document without the target')
            continue
        sx.check_eq(got[2][0][1].get('href') or '', url,
                    'link of a reference')
    sx.observe(plain)


@harness('C14', [dict(n=2)], [dict(n=3)])
def captions(sx, n):
    """Captions show their own numbers in each document, also if they have
    the same text"""
    man, (c1, c2) = project('a.dm', 'b.dm')
    tags = []
    count = {'figure': 0, 'table': 0}
    for i in range(n):
        c = sx.choice('doc%d' % i, [c1, c2])
        if tags and tags[-1][0].context is c2:
            sx.assume(c is c2)
        tag = sx.choice('tag%d' % i, ['marginfig', 'fig', 'ffig',
                                      'margintbl', 'tbl', 'ftbl'])
        text = sx.choice('text%d' % i, ['one', 'two'])
        kind = 'figure' if 'fig' in tag else 'table'
        try:
            r = Tag(name='root', content='@%s{@caption{%s}}' % (tag, text),
                    attributes='', context=c)
        except DuplicateLabel:
            # the same text twice in a document
            sx.check(any(x[0].context is c and x[2] == text for x in tags),
                     'different captions have different labels')
            return
        sx.check(not any(x[0].context is c and x[2] == text for x in tags),
                 'labels are unique')
        count[kind] += 1
        tags.append((r, '%s %d' % ('Fig.' if kind == 'figure' else 'Table',
                                   count[kind]), text))
    for r, number, text in tags:
        sx.check_eq(r.txt, number + '. ' + text, 'text of a caption')
        got = walk(r.html_fmt(level=2))[2][0]
        caption = [x for x in got[2] if not isinstance(x, str)][0]
        sx.check_eq(caption[2], [['span', {'class': 'label'}, [
            ['strong', {}, [number]], '. ']], text], 'html of a caption')
        tex = r.tex
        sx.check('\\caption{\\textbf{' + number + '}. ' + text + '} \\label{'
                 in tex, 'tex of a caption', got=tex)
        sx.check(caption[1].get('id') is not None and
                 '\\label{' + caption[1].get('id') + '}' in tex,
                 'anchor of a caption')


@harness('C14', [dict(n=1, m=2), dict(n=2, m=1)], [dict(n=2, m=2),
                                                   dict(n=1, m=3)])
def document_ids(sx, n, m):
    """Labels of documents with any ids: resetting a document and finding
    labels by document do not mix up documents"""
    a = sx.str('a', n, 'xy/.')
    b = sx.str('b', m, 'xy/.')
    man, (c1, c2) = project('a.dm', 'b.dm')
    c1['doc_id'] = a
    c2['doc_id'] = b
    c1.root_document.docs[0].doc_id = a
    c1.root_document.docs[1].doc_id = b
    sx.assume(sx.neg(sx.eq(a, b)))
    one = man.add_content_label(id='i', kind='figure', title='', context=c1)
    two = man.add_content_label(id='i', kind='figure', title='', context=c2)
    three = man.add_content_label(id='j', kind='figure', title='', context=c2)
    sx.check(man.get_label(a + '::i') is one and
             man.get_label(b + '::i') is two and
             man.get_label(b + '::j') is three and
             man.get_label('i', context=c2) is two and
             man.get_label('i') is one, 'the label with an id')
    try:
        man.get_label(a + '::j')
        sx.fail('labels of other documents are not found')
    except LabelNotFound:
        pass
    got = man.get_labels_by_kind(doc_id=b, kinds='figure')
    sx.check(len(got) == 2 and got[0] is two and got[1] is three,
             'labels of a document')
    which = sx.choice('reset', ['a', 'b'])
    form = sx.choice('form', ['str', 'list', 'set'])
    ids = a if which == 'a' else b
    man.reset(doc_ids=ids if form == 'str' else [ids] if form == 'list' else
              {ids})
    left = list(man.labels.values())
    want = [two, three] if which == 'a' else [one]
    sx.check(len(left) == len(want) and all(
        x is y for x, y in zip(left, want)), 'a reset removes the labels of '
        'its documents only', got=[x.doc_id for x in left])


@harness('C14', [dict(n=1), dict(n=2)], [dict(n=3)])
def own_ids(sx, n):
    """Headings without ids have labels of their own when their titles
    differ, or are empty; anchors and links use those"""
    man, (c1, c2) = project('a.dm', 'a.dm.dm')
    c = sx.choice('doc', [c1, c2])
    kind = sx.choice('kind', ['title', 'empty', 'short'])
    s = sx.str('s', n, 'ab')
    t = sx.str('t', n, 'ab')
    sx.assume(sx.neg(sx.eq(s, t)))
    if kind == 'title':
        titles = ['The ' + sx.choice('long', ['', 'very ' * 15]) +
                  'introduction of ']
        titles = [titles[0] + x for x in (s, t)]
        texts = ['@section{' + x + '}' for x in titles]
    elif kind == 'empty':
        texts = ['@section{}', '@section{' + ' ' * n + '}']
        titles = ['', ' ' * n]
    else:
        texts = ['@section[short="Number ' + x + '"]{Same}' for x in (s, t)]
        titles = ['Number ' + x for x in (s, t)]
    tags = [Tag(name='root', content=x, attributes='', context=c)
            for x in texts]
    labels = man.get_labels_by_kind(kinds='section')
    sx.check(len(labels) == 2, 'number of labels')
    sx.check(sx.neg(sx.eq(labels[0].id, labels[1].id)),
             'the ids of the labels differ')
    other = c2 if c is c1 else c1
    for i, (tag, title) in enumerate(zip(tags, titles)):
        label = labels[i]
        if kind != 'empty':
            sx.check_eq(label.title, title, 'title of the label')
        sx.check_eq(label.doc_id, c['doc_id'], 'document of the label')
        got = walk(tag.html_fmt(level=2))[2][0]
        sx.check_eq(got[1]['id'], label.id, 'anchor of the heading')
        sx.check(tag.tex.endswith('\\label{' + label.id + '}'),
                 'label of the heading in tex', got=tag.tex)
        ref = Tag(name='root', content='@ref{' + label.id + '}',
                  attributes='', context=c)
        got = walk(ref.html_fmt(level=2))[2][0]
        sx.check_eq(got[1].get('href'), '#' + label.id,
                    'link of the reference')
        ref = Tag(name='root', content='@ref{' + label.id + '}',
                  attributes='', context=other)
        got = walk(ref.html_fmt(level=2))[2][0]
        sx.check_eq(got[1].get('href'),
                    ('a.dm.html' if c is c2 else 'a.html') + '#' + label.id,
                    'link of the reference of another document')
    sx.observe([x.id for x in labels])


@harness('C14', [dict(n=1), dict(n=2)], [dict(n=3)])
def caption_contents(sx, n):
    """A caption shows all of its contents after its label; its id is its
    anchor and its references' target"""
    man, (c1, c2) = project('a.dm', 'b.dm')
    s = sx.str('s', n, 'aB1')
    id = 'Fig:' + sx.str('id', n, 'aB1')
    pieces = [sx.choice('p%d' % i, ['x', 'b', 'i']) for i in range(4)]
    src = ''
    want = []
    text = ''
    for i, p in enumerate(pieces):
        if p == 'x':
            src += s
            text += s
            if want and not isinstance(want[-1], list):
                want[-1] = want[-1] + s
            else:
                want.append(s)
        else:
            src += '@' + p + '{' + s + '}'
            text += s
            want.append([{'b': 'strong', 'i': 'i'}[p], {}, [s]])
    tag = Tag(name='root', content='@marginfig{@caption[id="' + id + '"]{' +
              src + '}}', attributes='', context=c1)
    label = man.get_label(id)
    sx.check_eq(tag.txt, 'Fig. 1. ' + text, 'text of a caption')
    got = walk(tag.html_fmt(level=2))[2][0]
    caption = [x for x in got[2] if not isinstance(x, str)][0]
    sx.check_eq(caption[1].get('id'), id, 'anchor of a caption')
    sx.check_eq(caption[2], [['span', {'class': 'label'}, [
        ['strong', {}, ['Fig. 1']], '. ']]] + want, 'html of a caption')
    sx.check('\\label{' + id + '}' in tag.tex, 'label of a caption')
    ref = Tag(name='root', content='@ref{' + id + '}', attributes='',
              context=c1)
    sx.check_eq(walk(ref.html_fmt(level=2))[2][0][1].get('href'), '#' + id,
                'link of the reference')
    sx.observe(label.id)
