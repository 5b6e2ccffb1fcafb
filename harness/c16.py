"""C16: the documents of a project and their reload."""
import os
import types
import posixpath

from symex.api import harness
from disseminate.builders.environment import Environment
from disseminate.document.document_context import DocumentContext
from disseminate.label_manager.exceptions import DuplicateLabel
from disseminate.paths import SourcePath
from disseminate import settings

FILES = ('a', 'sub/b', 'c', 'd')


def source(includes, entries, body):
    lines = ['---', 'targets: txt', 'template: x/y'] + entries
    if includes:
        lines.append('include:')
        lines += ['  ' + x for x in includes]
    return '\n'.join(lines + ['---', body])


def rel(frm, to):
    """Path of an include in one file for another one"""
    if frm.startswith('sub/'):
        return (to[len('sub/'):] if to.startswith('sub/') else
                '../' + to) + '.dm'
    return to + '.dm'


def tree(root, includes):
    """The documents of a project: each file once, where it is included
    first; [(file, level, parent)] in document order"""
    out = []
    seen = set()

    def visit(k, level, parent):
        seen.add(k)
        out.append((k, level, parent))
        for x in includes[k]:
            if x not in seen:
                visit(x, level + 1, k)
    visit(root, 1, None)
    return out


def check_project(sx, root, includes, entries, bodies):
    """Compare the documents of a project with the sources"""
    expected = tree('a', includes)
    docs = root.documents_list(recursive=True)
    ids = [d.doc_id for d in docs]
    sx.check(ids == [k + '.dm' for k, _, _ in expected], 'the documents of '
             'the project are not the included files in document order',
             got=ids, expected=expected)
    sx.check(root.doc_ids == ids, 'doc_ids differ from the documents')
    by_id = root.documents_by_id(recursive=True)
    sx.check(list(by_id.items()) == list(zip(ids, docs)),
             'documents_by_id differs from the documents')
    sub = [d.doc_id for d in root.documents_list(only_subdocuments=True)]
    sx.check(sub == [k + '.dm' for k, n, p in expected if p == 'a'],
             'the sub-documents of the root document are wrong', got=sub)
    byname = dict(zip([k for k, _, _ in expected], docs))
    labels = [x.doc_id for x in
              root.context['label_manager'].get_labels_by_kind(
                  kinds='document')]
    sx.check(labels == ids, 'the labels of documents differ from the '
             'documents', got=labels, expected=ids)
    values = {None: 'none'}
    for k, level, parent in expected:
        doc = byname[k]
        ctx = doc.context
        sx.check(ctx['level'] == level, 'a document has the wrong level',
                 file=k, got=ctx['level'], expected=level)
        sx.check(ctx.is_root_document is (parent is None) and
                 ctx.root_document is root, 'a document does not know its '
                 'root document', file=k)
        sx.check(ctx.document is doc and ctx['src_filepath'].match(
            '*' + k + '.dm'), 'a context does not know its document', file=k)
        values[k] = entries[k] if k in entries else values[parent]
        sx.check(sx.eq(ctx.get('note', 'none'), values[k]), 'an entry of the '
                 'header is not inherited', file=k, got=ctx.get('note'),
                 expected=values[k])
        body = ctx[settings.body_attr]
        sx.check(sx.eq(body.default_fmt().strip(), bodies[k]),
                 'the body of a document is not that of its file', file=k,
                 got=body.default_fmt(), expected=bodies[k])
        short = ctx.get('short', 'none')
        sx.check(sx.eq(short, 'none'), 'a short title is inherited', file=k)


class Project:
    def __init__(self, sx, files):
        self.sx = sx
        self.dir = sx.scratch()
        os.mkdir(self.dir + '/sub')
        self.files = files
        self.includes = {k: () for k in files}
        self.entries = {}
        self.bodies = {}
        self.version = 0
        self.stamp = {}
        real = SourcePath.__mixclass__.stat if SourcePath.__mixclass__ else (
            type(SourcePath(project_root=self.dir)).stat)
        cls = type(SourcePath(project_root=self.dir))
        stamps = self.stamp

        def stat(path, *a, **kw):
            st = real(path, *a, **kw)
            s = str(path)
            if s in stamps:
                st = types.SimpleNamespace(st_mode=st.st_mode,
                                           st_size=st.st_size,
                                           st_mtime=stamps[s])
            return st
        sx.patch(cls, 'stat', stat)
        # the bodies are the only tags of the documents
        default = dict(settings.default_context)
        default['process_context_tags'] = {settings.body_attr}
        default['process_paragraphs'] = set()
        for k in ('prev', 'next', 'toc', 'srclink', 'txtlink', 'texlink',
                  'pdflink', 'epublink', 'label_fmts', 'label_resets'):
            default.pop(k, None)
        sx.patch(settings, 'default_context', default)

    def write(self, k, mtime):
        self.version += 1
        body = 'text%d' % self.version
        self.bodies[k] = body
        entries = (['note: ' + self.entries[k]] if k in self.entries else [])
        s = source([rel(k, x) for x in self.includes[k]], entries, body)
        path = '%s/%s.dm' % (self.dir, k)
        with open(path, 'w') as f:
            f.write(s)
        self.stamp[path] = mtime

    def load(self):
        self.env = Environment(src_filepath=SourcePath(
            project_root=self.dir, subpath='a.dm'))
        return self.env.root_document

    def check(self, root):
        check_project(self.sx, root, self.includes, self.entries,
                      self.bodies)


def sequences(items, n):
    out = [()]
    last = [()]
    for _ in range(n):
        last = [x + (i,) for x in last for i in items]
        out += last
    return out


@harness('C16', [dict(n=3, inc=(2, 2, 1)), dict(n=4, inc=(1, 1, 1, 1))],
         [dict(n=3, inc=(3, 2, 2)), dict(n=4, inc=(2, 1, 1, 1))])
def graph(sx, n, inc):
    """Every file reached by includes is one document, owned by the first
    document to include it, whatever cycles and repetitions there are"""
    files = FILES[:n]
    p = Project(sx, files)
    t = sx.int('mtime', 1, 9)
    for k, m in zip(files, inc):
        # an order of the other files is a renaming for all but the first
        p.includes[k] = sx.choice('include ' + k, sequences(files, m))
    for k in files:
        p.entries[k] = 'n' + k
        p.write(k, t)
    root = p.load()
    p.check(root)
    sx.check(root.load() is False, 'a project is loaded again without a '
             'change')
    p.check(root)


@harness('C16', [dict(n=3, steps=1), dict(n=2, steps=2)],
         [dict(n=3, steps=2), dict(n=2, steps=3)])
def reload(sx, n, steps):
    """After edits of the files at any time a load brings all documents, and
    what they inherit, up to date (the times of edits are later than the load
    before)"""
    files = FILES[:n]
    p = Project(sx, files)
    shapes = {2: [{'a': ('sub/b',)}, {}],
              3: [{'a': ('sub/b', 'c')}, {'a': ('sub/b',),
                                          'sub/b': ('c',)},
                  {'a': ('c',), 'c': ('sub/b', 'a')}]}[n]
    p.includes.update(sx.choice('shape', shapes))
    where = sx.choice('entries', [('a',), ('a', 'sub/b')])
    for k in where:
        p.entries[k] = 'n0' + k
    now = sx.int('load0', 1, 1000)
    for i, k in enumerate(files):
        m = sx.int('t0' + k, 1, 1000)
        sx.assume(m <= now)
        p.write(k, m)
    root = p.load()
    p.check(root)
    for s in range(1, steps + 1):
        # the files edited since the last load
        edited = sx.choice('edited%d' % s, [
            x for x in ([k for i, k in enumerate(files) if b >> i & 1]
                        for b in range(1 << n))])
        latest = sx.int('load%d' % s, 1, 1000 * (s + 1))
        sx.assume(latest >= now)
        for k in edited:
            m = sx.int('t%d%s' % (s, k), 1, 1000 * (s + 1))
            sx.assume(m > now)
            sx.assume(m <= latest)
            if k in p.entries:
                p.entries[k] = 'n%d%s' % (s, k)
            if s == steps:
                p.includes[k] = sx.choice('include%d%s' % (s, k), [
                    p.includes[k], tuple(x for x in files if x != k) if
                    k == 'a' else ()])
            p.write(k, m)
        now = latest
        project = {k for k, _, _ in tree('a', p.includes)}
        changed = root.load()
        p.check(root)
        if not edited:
            sx.check(changed is False, 'a project is loaded again without '
                     'a change')
        elif 'a' in edited:
            sx.check(changed is True, 'a reload is not reported')
        sx.check(root.load() is False, 'a project is loaded again without '
                 'a change')


def fake_context(**entries):
    ctx = DocumentContext.__new__(DocumentContext)
    for k, v in entries.items():
        ctx[k] = v
    return ctx


@harness('C16', [dict(n=4, alpha='a/.\n'), dict(n=3, alpha='a/.\n \t')],
         [dict(n=5, alpha='a/.\n'), dict(n=4, alpha='a/.\n \t')])
def includes(sx, n, alpha):
    """Each nonempty line of an include entry is the path of a file relative
    to the folder of the document"""
    s = sx.str('s', (0, n), alpha)
    sub = sx.choice('folder', ['', 'sub/'])
    key = sx.choice('key', ['include', 'includes'])
    ctx = fake_context(src_filepath=SourcePath('/p', sub + 'x.dm'))
    lines = [x.strip() for x in s.split('\n')]
    lines = [x for x in lines if x]
    for x in lines:
        sx.assume(not x.startswith('/'))
    ctx[key] = s
    got = ctx.includes
    sx.check(len(got) == len(lines), 'the number of included files is not '
             'that of the lines', s=s, got=[str(x) for x in got])
    for x, path in zip(lines, got):
        want = posixpath.normpath(sub + str(x))
        sx.check(str(path.subpath) == want, 'an included path is wrong',
                 s=s, got=str(path.subpath), expected=want)
        sx.check(str(path) == posixpath.normpath('/p/' + want) or
                 want.startswith('..'), 'an included path is wrong', s=s,
                 got=str(path))


@harness('C16', [dict(n=3)], [dict(n=4)])
def targets(sx, n):
    """The targets of a document are the extensions which its target or
    targets entry lists, with a period, unless it lists 'none'"""
    s = sx.str('s', (0, n), 'ht.; ')
    sep = sx.choice('sep', ';,\n')
    s = s.replace(';', sep)
    extra = sx.choice('extra', ['', 'none', 'html'])
    key = sx.choice('key', ['target', 'targets', 'targets set', 'both'])
    text = s + sep + extra if extra else s
    # the header removes the spaces around an entry
    sx.assume(sep in text or text.strip() == text)
    names = [x.strip() for x in text.split(sep)]
    names = [x for x in names if x]
    if key == 'targets set':
        ctx = fake_context(targets=set(str(x) for x in names))
    elif key == 'both':
        ctx = fake_context(target=text, targets={'pdf'})
    else:
        ctx = fake_context(**{key: text})
    got = ctx.targets
    if 'none' in names:
        want = set()
    else:
        want = set(x if x.startswith('.') else '.' + x for x in names)
    got = sorted(str(x) for x in got)
    want = sorted(set(str(x) for x in want))
    sx.check(got == want, 'the targets are not those of the entry', s=text,
             got=got, expected=want)


@harness('C16', [dict(n=2, steps=2)], [dict(n=2, steps=3),
                                       dict(n=3, steps=2)])
def live(sx, n, steps):
    """After edits at any small intervals the labels, their numbers and the
    labels of the previous and next documents are those of the files"""
    files = FILES[:n]
    p = Project(sx, files)
    version = {k: 0 for k in files}
    shape = {k: () for k in files}
    now = 1000.0

    def write(k, copies=1):
        version[k] += 1
        head = ['---', 'targets: html']
        if shape[k]:
            head.append('include:')
            head += ['  ' + rel(k, x) for x in shape[k]]
        path = '%s/%s.dm' % (p.dir, k)
        text = '\n'.join(head + ['---', '@chapter[id=%s-%d]{Title}' % (
            k.replace('/', '-'), version[k]) * copies])
        sx.file(path, text)
        p.stamp[path] = now

    def check(root):
        order = ['a'] + list(shape['a'])
        want = ['%s-%d' % (k.replace('/', '-'), version[k]) for k in order]
        docs = root.documents_list(recursive=True)
        labels = root.label_manager.get_labels_by_kind(kinds='chapter')
        sx.check_eq([x.id for x in labels], want, 'labels of the project')
        sx.check_eq([x.order for x in labels],
                    [(i + 1, i + 1) for i in range(len(want))],
                    'numbers of the labels')
        sx.check(len(docs) == len(order), 'number of documents')
        for i, doc in enumerate(docs):
            for name, j in (('prev', i - 1), ('curr', i), ('next', i + 1)):
                label = doc.context.get(name + '_html')
                label = label() if label is not None else None
                exp = want[j] if 0 <= j < len(want) else None
                sx.check_eq(label.id if label is not None else None, exp,
                            'label of the %s document' % name)
    first = sx.choice('first', [(), tuple(files[1:])])
    shape['a'] = first
    for k in files:
        write(k)
    root = p.load()
    check(root)
    for s in range(steps):
        now += sx.choice('after %d' % s, [0.25, 1])
        edit = sx.choice('edit %d' % s, ['a'] + list(files[1:]) + ['include'])
        if edit == 'include':
            shape['a'] = () if shape['a'] else tuple(files[1:])
            edit = 'a'
        if s == 0 and sx.choice('broken', [False, True]):
            # a document which cannot be loaded is not forgotten
            write(edit, copies=2)
            used = edit == 'a' or edit in shape['a']
            for i in range(2):
                try:
                    root.load()
                    sx.check(not used, 'an error in a document is reported',
                             load=i)
                except DuplicateLabel:
                    sx.check(used, 'documents of the project only are loaded')
            now += 0.25
        write(edit)
        root.load()
        check(root)
    sx.observe([x.id for x in root.label_manager.get_labels_by_kind()])
