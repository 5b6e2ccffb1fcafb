"""C17: builds are up to date."""
import os
import pathlib

from symex.api import harness
from disseminate.builders import jinja_render
from disseminate.builders.builder import Builder
from disseminate.builders.copy import Copy
from disseminate.builders.environment import Environment
from disseminate.builders.deciders import Md5Decider
from disseminate.builders.deciders.utils_hash import hash_items, hash_pdf
from disseminate.paths import SourcePath, TargetPath
from disseminate import settings


class Db(dict):
    """A database of hashes"""

    def close(self):
        pass


class Env:
    """The environment of a decider: real databases outside of the engine"""

    def __init__(self, sx):
        self.cache_path = pathlib.Path(sx.scratch()) / '.cache'
        os.mkdir(self.cache_path)
        self.symbolic = sx.symbolic

    def decider(self):
        d = Md5Decider(env=self)
        if self.symbolic:
            d._db = Db()
        return d


def state(sx, tag, files, args, lens):
    """Symbolic contents of files and values of arguments"""
    return ([sx.str('%s %s' % (tag, f), lens, 'ab\n') for f in files],
            [sx.str('%s %s' % (tag, a), lens, 'az') for a in args])


@harness('C17', [dict(nfiles=1, nargs=1, n=2), dict(nfiles=2, nargs=0, n=1),
                 dict(nfiles=2, nargs=1, n=1)],
         [dict(nfiles=2, nargs=1, n=(0, 1)), dict(nfiles=1, nargs=1, n=(0, 2)),
          dict(nfiles=2, nargs=2, n=1), dict(nfiles=3, nargs=0, n=1)])
def decision(sx, nfiles, nargs, n):
    """After a build was recorded, another one is needed if and only if an
    input, an argument or the output is not the one recorded"""
    env = Env(sx)
    decider = env.decider()
    d = sx.scratch()
    files = ['f%d' % i for i in range(nfiles)]
    args = ['v%d' % i for i in range(nargs)]
    out = TargetPath(target_root=d, target='html', subpath='out')
    os.mkdir(d + '/html')

    def write(contents, output):
        for f, c in zip(files, contents):
            sx.file(d + '/' + f, c)
        sx.file(str(out), output)

    def inputs(values):
        paths = [SourcePath(project_root=d, subpath=f) for f in files]
        named = [(a, v) if i % 2 else v
                 for i, (a, v) in enumerate(zip(args, values))]
        return named[:1] + paths + named[1:]
    c1, v1 = state(sx, 'first', files, args, n)
    o1 = sx.str('output', 1, 'ab')
    write(c1, o1)
    one = decider.decision
    sx.check(one.build_needed(inputs(v1), out) is True,
             'a build which was never made is not needed')
    sx.check(one.build_needed(inputs(v1), out, reset=True) is False,
             'a build which was made is needed')
    sx.check(one.build_needed(inputs(v1), out) is False,
             'a build which was made is needed')
    c2, v2 = state(sx, 'second', files, args, n)
    o2 = sx.str('output 2', 1, 'ab')
    write(c2, o2)
    again = sx.choice('decision', ['same', 'other'])
    two = one if again == 'same' else decider.decision
    need = two.build_needed(inputs(v2), out)
    same = sx.all(*([sx.eq(x, y) for x, y in zip(c1 + v1, c2 + v2)] +
                    [sx.eq(o1, o2)]))
    sx.check(sx.eq(need, sx.neg(same)), 'the need for a build is wrong',
             got=need, first=(c1, v1, o1), second=(c2, v2, o2))


@harness('C17', [dict(n=1)], [dict(n=2)])
def shared(sx, n):
    """Builds which share inputs do not disturb the records of each other,
    and a build is needed if a file is missing"""
    env = Env(sx)
    decider = env.decider()
    d = sx.scratch()
    src = SourcePath(project_root=d, subpath='f')
    outs = [TargetPath(target_root=d, target='', subpath='out%d' % i)
            for i in range(2)]
    c = sx.str('input', n, 'ab')
    sx.file(str(src), c)
    o = [sx.str('output %d' % i, n, 'ab') for i in range(2)]
    for p, x in zip(outs, o):
        sx.file(str(p), x)
    ds = [decider.decision for p in outs]
    order = sx.choice('order', [(0, 1), (1, 0), (0, 1, 0)])
    for i in order:
        ds[i].build_needed([src], outs[i], reset=True)
    for i in (0, 1):
        sx.check(ds[i].build_needed([src], outs[i]) is False,
                 'a build which was made is needed')
    lost = sx.choice('missing', ['none', 'input', 'output'])
    if lost == 'input':
        os.remove(str(src))
    elif lost == 'output':
        os.remove(str(outs[1]))
    sx.check(ds[0].build_needed([src], outs[0]) is (lost == 'input'),
             'a build is needed if and only if a file is missing')
    sx.check(ds[1].build_needed([src], outs[1]) is (lost != 'none'),
             'a build is needed if and only if a file is missing')


@harness('C17', [dict(n=3, chunk=(1, 4)), dict(n=4, chunk=(2, 3))],
         [dict(n=5, chunk=(1, 6)), dict(n=6, chunk=(2, 5))])
def hashes(sx, n, chunk):
    """The hash of a file stands for its contents, whatever the size of the
    chunks it is read in"""
    d = sx.scratch()
    a = sx.file(d + '/a', sx.str('a', (n - 1, n), 'ab'))
    b = sx.file(d + '/b', sx.str('b', n, 'ab'))
    k = sx.choice('chunk', list(range(chunk[0], chunk[1] + 1)))
    ha = hash_items(a, chunk_size=k)
    sx.check(sx.eq(ha, hash_items(a)), 'the hash of a file depends on the '
             'size of the chunks')
    hb = hash_items(b, chunk_size=k)
    sx.check(sx.eq(sx.eq(ha, hb), sx.eq(a.read_text(), b.read_text())),
             'the hashes of files and their contents differ')


class Run(Builder):
    """A builder with a command"""
    action = 'run {builder.infilepaths} {builder.outfilepath}'
    active_requirements = None
    scan_parameters_on_init = False
    outfilepath_ext = '.out'


class Other(Run):
    action = 'other {builder.infilepaths} {builder.outfilepath}'


@harness('C17', [dict(n=1)], [dict(n=2)])
def arguments(sx, n):
    """A builder is done if and only if its command, its input files and all
    its arguments are those of the build that was recorded"""
    env = Env(sx)
    env.decider = env.decider()
    d = sx.scratch()
    src = SourcePath(project_root=d, subpath='f')
    out = TargetPath(target_root=d, target='html', subpath='out')
    os.mkdir(d + '/html')
    sx.file(str(out), 'o')
    state = []
    for i in range(2):
        text = sx.str('input %d' % i, n, 'ab')
        scale = sx.str('scale %d' % i, n, '12')
        arg = sx.str('argument %d' % i, n, 'xy')
        cls = (Run, Other)[sx.choice('class %d' % i, [0, 1])]
        few = sx.choice('few %d' % i, [False, True])
        sx.file(str(src), text)
        b = cls(env=env, parameters=[src] + (
            [] if few else [('scale', scale), arg]), outfilepath=out)
        state.append([text, cls.action] + ([] if few else [scale, arg]))
        if i == 0:
            sx.check_eq(b.status, 'ready', 'a build was not made before')
            b.build_needed(reset=True)
            sx.check_eq(b.status, 'done', 'a build was made')
        else:
            same = sx.eq(*state)
            sx.check(sx.eq(b.status == 'done', same),
                     'a build is done if nothing has changed', first=state[0],
                     second=state[1])


def shown(e):
    """The text of an html element or list of elements"""
    if isinstance(e, (list, tuple)):
        return ''.join([shown(x) for x in e])
    if isinstance(e, str):
        return e
    out = '<' + e.tag
    for k in sorted(e.attrib):
        out = out + ' ' + k + '=' + e.attrib[k]
    out = out + '>' + (e.text or '')
    for x in e:
        out = out + shown(x) + (x.tail or '')
    return out + '</>'


class Template:
    """A template which shows everything that a document has"""

    name = 'x/y.txt'

    def __init__(self, path):
        self.path = path
        self.filename = str(path)

    def render(self, *args, **kwargs):
        context = dict(*args, **kwargs)
        target = context.pop('target')
        body = context[settings.body_attr]
        out = [self.path.read_text(), context.get('title', ''),
               context.get('note', '')]
        if 'html' in target:
            out.append(shown(body.html_fmt(level=2)))
        else:
            out.append(body.tex if 'tex' in target else body.txt)
        return '|'.join(out)


class Project:
    def __init__(self, sx, target, shared=None):
        self.sx = sx
        self.dir = sx.scratch()
        self.src = self.dir + '/src'
        os.mkdir(self.src)
        self.target = target
        self.time = 1000
        self.db = shared.db if shared else {}
        self.template = pathlib.Path(self.dir) / 'y.txt'

    def write(self, name, text):
        path = (str(self.template) if name == 'template' else
                '%s/%s.dm' % (self.src, name))
        self.sx.file(path, text)
        self.time += 10
        os.utime(path, (self.time, self.time))

    def use(self):
        """Use the template of this project"""
        t = Template(self.template)
        sp = SourcePath(project_root=self.dir, subpath='y.txt')
        self.sx.patch(jinja_render.JinjaRender, 'template', lambda s: t)
        self.sx.patch(jinja_render, 'template_filepaths',
                      lambda template, environment: [sp])

    def load(self):
        self.use()
        env = Environment(src_filepath=SourcePath(
            project_root=self.src, subpath='a.dm'))
        if self.sx.symbolic:
            self.db = getattr(self, 'store', None) or Db()
            self.store = self.db
            env.decider._db = self.db
        self.env = env
        return env.root_document

    def outputs(self, root):
        out = []
        for doc in root.documents_list(recursive=True):
            for target in sorted(doc.targets):
                out.append(doc.targets[target].read_text())
        return out


def source(target, body, title='', note='', macro='', include=''):
    lines = ['---', 'targets: ' + target, 'template: x/y']
    if len(title):
        lines.append('title: ' + title)
    if len(note):
        lines.append('note: ' + note)
    if len(macro):
        lines.append('@m: ' + macro)
    if include:
        lines += ['include:', '  ' + include]
    return '\n'.join(lines + ['---', body])


def slim(sx):
    """Only the bodies of documents are tags"""
    default = dict(settings.default_context)
    default['process_context_tags'] = {settings.body_attr}
    default['process_paragraphs'] = set()
    for k in ('prev', 'next', 'toc', 'srclink', 'txtlink', 'texlink',
              'pdflink', 'epublink'):
        default.pop(k, None)
    sx.patch(settings, 'default_context', default)


PARTS = ['a body', 'a title', 'a note', 'a macro', 'b body', 'b heading',
         'b second', 'template']


@harness('C17', [dict(target='txt', steps=1), dict(target='tex', steps=1)],
         [dict(target='txt', steps=2), dict(target='tex', steps=1)])
def incremental(sx, target, steps):
    """A build after edits has the outputs of a build from nothing, and
    nothing is left to build"""
    slim(sx)
    p = Project(sx, target)
    v = {k: sx.str(k, 1, 'pq') for k in PARTS}

    def files(v):
        return {'a': source(target, v['a body'] + ' @m @ref{x} @ref{y}',
                            title=v['a title'], note=v['a note'],
                            macro=v['a macro'], include='b.dm'),
                'b': source(target, v['b body'] + ' @m @section[id=x]{' +
                            v['b heading'] + '} @section[id=y]{' +
                            v['b second'] + '}'),
                'template': v['template']}
    for k, s in files(v).items():
        p.write(k, s)
    root = p.load()
    sx.check(root.build() == 'done', 'a build does not end')
    for i in range(1, steps + 1):
        part = sx.choice('edit %d' % i, PARTS)
        v[part] = sx.str('%s %d' % (part, i), 1, 'pq')
        name = part.split()[0]
        p.write(name, files(v)[name])
        if sx.choice('restart %d' % i, [False, True]):
            root = p.load()
        sx.check(root.build() == 'done', 'a build does not end')
    got = p.outputs(root)
    sx.check(p.env.create_root_builder(root).status == 'done',
             'a build is needed after a build')
    q = Project(sx, target)
    for k, s in files(v).items():
        q.write(k, s)
    root = q.load()
    sx.check(root.build() == 'done', 'a build does not end')
    want = q.outputs(root)
    sx.check_eq(got, want, 'the outputs of a build after edits differ from '
                'those of a fresh build')
    sx.observe(got)


#: Tags which use a file
USES = {'image': ('i.svg', '@img{i.svg}'),
        'nested image': ('i.svg', '@b{x @i{@img{i.svg}}}'),
        'caption': ('i.svg', '@marginfig{@img{i.svg} @caption{c}}'),
        'code': ('c.py', '@code{c.py}'),
        'nested code': ('c.py', '@b{x @python{c.py}}'),
        'table': ('d.csv', '@margintable{@csv{d.csv}}')}


@harness('C17', [dict(kinds=['image', 'code', 'table'], steps=1)],
         [dict(kinds=sorted(USES), steps=1), dict(kinds=['image', 'code'],
                                                  steps=2)])
def used(sx, kinds, steps):
    """A build after edits of the files that tags use has the outputs of a
    build from nothing"""
    slim(sx)
    kind = sx.choice('kind', kinds)
    name, body = USES[kind]
    extra = 'h,k\n' if name == 'd.csv' else ''

    def build(p):
        root = p.load()
        sx.check(root.build(complete=True) == 'done', 'a build does not end')
        return root

    def write(p, text):
        path = sx.file(p.src + '/' + name, extra + text)
        p.time += 10
        os.utime(str(path), (p.time, p.time))

    def outputs(root, p):
        media = pathlib.Path(p.dir) / 'html' / 'media' / name
        if kind in ('image', 'nested image', 'caption'):
            sx.check(media.is_file(), 'the image is missing')
            return p.outputs(root) + [media.read_text()]
        return p.outputs(root)
    p = Project(sx, 'html')
    p.write('template', 't')
    p.write('a', source('html', body))
    text = sx.str('file', 1, 'pq')
    write(p, text)
    root = build(p)
    for i in range(steps):
        text = sx.str('file %d' % i, 1, 'pq')
        write(p, text)
        if sx.choice('restart %d' % i, [False, True]):
            root = p.load()
        sx.check(root.build(complete=True) == 'done', 'a build does not end')
    got = outputs(root, p)
    sx.check(p.env.create_root_builder(root).status == 'done',
             'a build is needed after a build')
    q = Project(sx, 'html')
    q.write('template', 't')
    q.write('a', source('html', body))
    write(q, text)
    want = outputs(build(q), q)
    sx.check_eq(got, want, 'the outputs of a build after edits differ from '
                'those of a fresh build')
    sx.observe(got)


def entries(s):
    """The lines of a pdf, apart from those with dates and ids"""
    lines = ['']
    for c in s:
        if c == '\n':
            lines.append('')
        else:
            lines[-1] = lines[-1] + c
    if lines[-1] == '':
        lines.pop()
    return [l for l in lines
            if not any(l.startswith(k) for k in
                       ('/CreationDate', '/ModDate', '/ID'))]


@harness('C17', [dict(n=1, m=1), dict(n=2, m=0)],
         [dict(n=2, m=1), dict(n=1, m=2)])
def pdf(sx, n, m):
    """The hash of a pdf stands for its lines without those that start with
    its dates or id, whatever the size of the chunks it is read in"""
    d = sx.scratch()
    texts = []
    for x in 'ab':
        key = sx.choice('key ' + x, ['/ModDate', '/ID', '/Title'])
        texts.append(sx.str('before ' + x, n, '<\n') + key +
                     sx.str('after ' + x, m, '1\n') + '\nt')
    a = sx.file(d + '/a.pdf', texts[0])
    b = sx.file(d + '/b.pdf', texts[1])
    k = sx.choice('chunk', [1, 2, 7, 4096])
    ha = hash_items(a, chunk_size=k)
    sx.check(sx.eq(ha, hash_items(a)), 'the hash of a file depends on the '
             'size of the chunks')
    one, two = entries(texts[0]), entries(texts[1])
    sx.check(sx.eq(sx.eq(ha, hash_items(b)), sx.eq(one, two)),
             'the hashes of pdfs and their lines differ', one=one, two=two)
