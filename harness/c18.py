"""C18: paths of files, outputs, commands and links."""
import pathlib

import pathvalidate

from symex.api import harness
from symex import util
from disseminate.paths import SourcePath, TargetPath
from disseminate.paths.utils import rename, find_file, find_files
from disseminate.builders.builder import Builder
from disseminate.builders import environment as environment_module
from disseminate.builders.environment import Environment
from disseminate.context import BaseContext
from disseminate.document.document_context import DocumentContext
from disseminate.tags import navigation
from disseminate.builders.utils import (generate_outfilepath,
                                        generate_mock_parameters)
from disseminate.tags import Tag, img as img_module

STDLIB = ('pathlib', 'posixpath', 'string')

CHARS = 'ab. -'


def name_of(sx, key, n, alpha=CHARS):
    """The name of a file"""
    s = sx.str(key, n, alpha)
    sx.assume(s != '.')
    sx.assume(s[:2] != '..')
    return s


def split(name):
    """stem and extension"""
    i = name.rfind('.')
    if 0 < i < len(name) - 1:
        return name[:i], name[i:]
    return name, ''


@harness('C18', [dict(n=1, m=1), dict(n=3, m=1)], [dict(n=4, m=1),
                                                   dict(n=3, m=2)])
def renamed(sx, n, m):
    """The new name, with the text appended and the extension"""
    name = name_of(sx, 'name', n)
    d = sx.choice('dir', ['', 'a', '/a/b.c'])
    filename = append = extension = None
    if sx.choice('filename', [False, True]):
        filename = 'x' + sx.str('f', m, CHARS) + 'x'
    if sx.choice('append', [False, True]):
        append = '_' + sx.str('p', m, CHARS)
    ext = sx.choice('extension', [None, 'x', '.x'])
    if ext is not None:
        extension = ext + sx.str('e', m, 'ab')
    path = pathlib.PurePosixPath(d, name)
    got = rename(path, filename=filename, append=append, extension=extension)
    stem, suffix = split(name)
    want = (stem if filename is None else filename) + \
        ('' if append is None else append) + \
        (suffix if extension is None else
         ('' if extension[0] == '.' else '.') + extension)
    sx.check_eq(str(got.parent), d or '.', 'directory of the file')
    sx.check_eq(got.name, want, 'name of the file')
    sx.observe(str(got))


@harness('C18', [dict(n=2, m=1), dict(n=3, m=0)], [dict(n=3, m=2)])
def kept(sx, n, m):
    """Source and target paths know their root (and target) and the path in
    it, also with another name, extension or path in it"""
    name = name_of(sx, 'name', n)
    sub = sx.choice('sub', ['', 'a', 'a/b'])
    path = sub + '/' + name if sub else name
    source = sx.choice('kind', ['source', 'target']) == 'source'
    if source:
        p = SourcePath(project_root='/root', subpath=path)
    else:
        target = sx.choice('target', ['', 'html', '.html'])
        p = TargetPath(target_root='/root', target=target, subpath=path)
    how = sx.choice('how', ['path', 'name', 'suffix', 'subpath', 'copy'])
    want = path
    if how == 'name':
        new = 'n' + sx.str('new', m, CHARS)
        p = p.use_name(new)
        want = sub + '/' + new if sub else new
    elif how == 'suffix':
        ext = sx.choice('ext', ['', '.x'])
        p = p.use_suffix(ext)
        want = path[:len(path) - len(split(name)[1])] + ext
    elif how == 'subpath':
        want = 'c/' + name
        p = p.use_subpath(want)
    elif how == 'copy':
        p = p.__copy__()
    sx.check_eq(str(p.subpath), want, 'path in the root')
    if source:
        sx.check_eq(str(p.project_root), '/root', 'root of the project')
        sx.check_eq(str(p), '/root/' + want, 'path')
        sx.check(isinstance(p, SourcePath), 'kind of path')
    else:
        t = target.strip('.')
        sx.check_eq(str(p.target_root), '/root', 'root of the targets')
        sx.check_eq(str(p.target), t or '.', 'target of the path')
        sx.check_eq(str(p), '/root/' + (t + '/' if t else '') + want, 'path')
        sx.check(isinstance(p, TargetPath), 'kind of path')
    sx.observe(str(p))


class Doc:
    def __init__(self, path):
        self.path = path

    def target_filepath(self, target):
        return TargetPath('/root', target, self.path)


def resolve(base, rel):
    """The path which a relative link stands for"""
    parts = [x for x in base.split('/') if x != '']
    for x in rel.split('/'):
        if x == '..':
            if not parts:
                return None
            parts.pop()
        elif x != '.' and x != '':
            parts.append(x)
    return '/' + '/'.join(parts)


@harness('C18', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def links(sx, n):
    """A link leads to the file: from the document with relative links, from
    the root of the targets otherwise"""
    name = name_of(sx, 'name', n, 'ab.-')
    sub = sx.choice('sub', ['', 'a', 'a/b', '.a'])
    path = sub + '/' + name if sub else name
    target = sx.choice('target', ['html', ''])
    p = TargetPath('/root', target, path)
    kind = sx.choice('kind', ['none', 'absolute', 'base', 'relative'])
    full = '/' + (target + '/' if target else '') + path
    if kind == 'none':
        sx.check_eq(p.get_url(), full, 'absolute link')
        return
    context = {}
    if kind == 'absolute':
        context['relative_links'] = False
        sx.check_eq(p.get_url(context), full, 'absolute link')
        return
    if kind == 'base':
        context['relative_links'] = False
        context['base_url'] = 'https://x.com/{target}/{subpath}'
        sx.check_eq(p.get_url(context), 'https://x.com' + full,
                    'absolute link')
        return
    doc = name_of(sx, 'doc', n, 'ab') if sx.choice('docname', [0, 1]) else 'a'
    docdir = sx.choice('docdir', ['', 'a', 'a/b', 'c'])
    context['document'] = Doc(docdir + '/' + doc if docdir else doc)
    of = sx.choice('of', [None, '.html', 'tex'])
    url = p.get_url(context, of)
    t = of.strip('.') if of else target
    base = '/root/' + (t + '/' if t else '') + docdir
    sx.check_eq(resolve(base, url), '/root' + full,
                'the file which a relative link leads to')
    sx.observe(url)


@harness('C18', [dict(n=1), dict(n=2)], [dict(n=3)])
def found(sx, n):
    """A file is the first of those with its path in the directories of the
    context, in their order"""
    name = name_of(sx, 'name', n)
    sx.assume(name.strip() == name)
    sub = sx.choice('sub', ['', 'a'])
    path = sub + '/' + name if sub else name
    exists = [sx.choice('exists %d' % i, [False, True]) for i in range(4)]
    dirs = [SourcePath('/root', 'sub'), pathlib.Path('/other'),
            TargetPath('/t', 'html', '')]
    want = [path, '/root/sub/' + path, '/other/' + path, '/t/html/' + path]

    def is_file(self):
        s = str(self)
        for w, e in zip(want, exists):
            if s == w:
                return e
        return False
    sx.patch(pathlib.Path, 'is_file', is_file)
    context = {'paths': dirs}
    how = sx.choice('how', ['str', 'path', 'files', 'lines'])
    there = [w for w, e in zip(want, exists) if e]
    if how in ('files', 'lines'):
        got = find_files(path if how == 'files' else
                         '\n' + path + '\nno\n\n' + path + ' \n',
                         context=context)
        sx.check_eq([str(x) for x in got],
                    there[:1] * (1 if how == 'files' else 2), 'files found')
        return
    try:
        got = find_file(' ' + path + '\nsecond' if how == 'str' else
                        pathlib.Path(path), context=context)
    except FileNotFoundError:
        sx.check(not there, 'a file which exists is found')
        return
    sx.check(len(there) > 0, 'a file which does not exist is an error')
    sx.check_eq(str(got), there[0], 'file found')
    if exists[1] and not exists[0]:
        sx.check_eq([str(got.project_root), str(got.subpath)],
                    ['/root', 'sub/' + path], 'root of the file found')
    sx.observe(str(got))


class Formats(DocumentContext):
    """The context of a document, with the paths of its targets"""

    path = 'a'
    root_document = None

    def __init__(self):
        pass

    def target_filepath(self, target):
        return TargetPath('/root', target.strip('.'), self.path + target)


FORMATS = {'txtlink': '.txt', 'texlink': '.tex', 'pdflink': '.pdf',
           'srclink': '.dm', 'epublink': '.epub'}


@harness('C18', [dict(n=1), dict(n=2)], [dict(n=3)])
def formats(sx, n):
    """A link to another format (or the source) of a document leads to its
    file if the document has this target, and it is empty otherwise"""
    name = 'a' + sx.str('name', n, 'ab.- ')
    sub = sx.choice('sub', ['', 'a', 'a/b'])
    path = sub + '/' + name if sub else name
    kind = sx.choice('kind', sorted(FORMATS))
    fmt = sx.choice('fmt', ['html', 'tex', 'txt'])
    here = [t for t in ('.html', '.tex', FORMATS[kind])
            if sx.choice('has ' + t, [False, True])]
    context = Formats()
    context.path = path
    context['targets'] = ', '.join(here)
    if kind == 'srclink':
        context['src_filepath'] = SourcePath('/src', path + '.dm')
    root = context
    if kind == 'epublink':
        # the epub is that of the root document
        root = Formats()
        root.path = 'root'
        root['targets'] = 'html ' if '.epub' not in here else '.epub\nhtml'
        context['targets'] = ', '.join([t for t in here if t != '.epub'])

        class Root:
            context = root
        context.root_document = Root()
    cls = getattr(navigation, kind.capitalize())
    tag = cls(name=kind, content='', attributes='', context=context)
    got = getattr(tag, 'default_fmt' if fmt == 'txt' else fmt + '_fmt')()
    other = FORMATS[kind]
    there = kind == 'srclink' or other in here
    me = '.' + fmt
    if fmt == 'txt' or me not in here or not there or me == other:
        sx.check_eq(got, '', 'no link to a format without a file')
        return
    sx.check(len(got) > 0, 'there is a link to the other format')
    base = '/root/' + fmt + ('/' + sub if sub else '')
    want = '/src/' + path + '.dm' if kind == 'srclink' else \
        '/root/' + other.strip('.') + '/' + \
        ('root' if kind == 'epublink' else path) + other
    sx.check_eq(resolve(base, str(got)), want,
                'the file which a link to another format leads to')
    sx.observe(str(got))


@harness('C18', [dict(n=1, m=1), dict(n=2, m=1)], [dict(n=3, m=2)])
def targets(sx, n, m):
    """The targets of a document are those it lists, each once and with a
    point, unless it has none"""
    names = ['h' + sx.str('name %d' % i, m, 'ab') for i in range(n)]
    dots = [sx.choice('dot %d' % i, ['', '.']) for i in range(n)]
    entries = [d + x for d, x in zip(dots, names)]
    if sx.choice('none', [False, True]):
        entries.append('none')
    context = Formats()
    sep = sx.choice('separator', [', ', '\n', ' ; ', ',', None])
    value = list(entries) if sep is None else sep.join(entries)
    key = sx.choice('key', ['target', 'targets', 'both', 'neither'])
    if key == 'both':
        context['targets'] = 'other'
    if key == 'neither':
        entries = []
    else:
        context['target' if key == 'both' else key] = value
    got = list(context.targets)
    if 'none' in entries:
        sx.check(len(got) == 0, 'a document has no targets', got=got)
        return
    want = ['.' + x for x in names] if entries else []
    for w in want:
        sx.check(sum([1 if g == w else 0 for g in got]) == 1,
                 'a target of a document', got=got)
    for g in got:
        sx.check(sx.any(*[sx.eq(g, w) for w in want]),
                 'a target that the document does not list', got=got)


class Env:
    target_root = pathlib.Path('/root')
    cache_path = pathlib.Path('/root/.cache')
    media_path = 'media'
    project_root = pathlib.Path('/src')


@harness('C18', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4)])
def outputs(sx, n):
    """The path of an output: the path of the first input file in its root,
    in the directory of the target (and media), with the appended text and
    the extension"""
    name = name_of(sx, 'name', n)
    sub = sx.choice('sub', ['', 'a', 'media', 'mediaa', 'a/media'])
    path = sub + '/' + name if sub else name
    kind = sx.choice('kind', ['source', 'target', 'path', 'absolute'])
    if kind == 'source':
        infile = SourcePath('/src', path)
    elif kind == 'target':
        infile = TargetPath('/root', 'tex', path)
    elif kind == 'path':
        infile = pathlib.Path(path)
    else:
        infile = pathlib.Path('/usr', path)
        sub = ''
    target = sx.choice('target', [None, 'html', '.html'])
    append = sx.choice('append', [None, '_crop'])
    ext = sx.choice('ext', [None, '.x'])
    use_cache = sx.choice('cache', [False, True])
    use_media = sx.choice('media', [False, True])
    parameters = ['text', ('a', 1), infile, SourcePath('/src', 'other')]
    got = generate_outfilepath(Env(), parameters, target=target,
                               append=append, ext=ext, use_cache=use_cache,
                               use_media=use_media)
    stem, suffix = split(name)
    want = stem + (append or '') + (suffix if ext is None else ext)
    want = sub + '/' + want if sub else want
    if use_media and sub != 'media':
        want = 'media/' + want
    t = target.strip('.') if target is not None else \
        'tex' if kind == 'target' else ''
    sx.check_eq(str(got.subpath), want, 'path of the output')
    sx.check_eq(str(got), '/root/' + ('.cache/' if use_cache else '') +
                (t + '/' if t else '') + want, 'path of the output')
    sx.observe(str(got))


@harness('C18', [dict(n=1), dict(n=2)], [dict(n=3)])
def distinct(sx, n):
    """The outputs of two different files of a project are different files"""
    names = [name_of(sx, 'name %d' % i, n) for i in range(2)]
    pair = sx.choice('pair', ['names', 'directories', 'media', 'extensions',
                              'absolute'])
    ext = sx.choice('ext', [None, '.png'])
    if pair == 'names':
        # an extension that is replaced is the same
        sx.assume(names[0] != names[1])
        a, b = [SourcePath('/src', 'a/' + x + '.tif') for x in names]
    elif pair == 'directories':
        dirs = [sx.choice('dir %d' % i, ['', 'a', 'a/a', 'a/media', 'mediaa'])
                for i in range(2)]
        sx.assume(dirs[0] != dirs[1])
        a, b = [SourcePath('/src', d + '/' + x + '.tif' if d else x + '.tif')
                for d, x in zip(dirs, names)]
    elif pair == 'media':
        a, b = [SourcePath('/src', d + names[0] + '.tif')
                for d in ('', 'media/')]
    elif pair == 'extensions':
        sx.assume(ext is not None)
        a, b = [SourcePath('/src', names[0] + e) for e in ('.tif', '.svg')]
    else:
        a, b = [pathlib.Path('/usr', d, names[0] + '.tif')
                for d in ('a', 'b')]
    use_media = sx.choice('media', [False, True])
    sx.assume(pair != 'media' or use_media)
    outs = [generate_outfilepath(Env(), [x], target='html', ext=ext,
                                 use_media=use_media) for x in (a, b)]
    sx.check(str(outs[0]) != str(outs[1]), 'two files have the same output',
             outs=[str(x) for x in outs])


class Root:
    """The root document of a project"""

    def __init__(self, src_filepath, **kwargs):
        self.src_filepath = src_filepath
        self.context = {}


PLACES = ['', 'a/', 'a/b/', 'c/']


@harness('C18', [dict(n=2), dict(n=3)], [dict(n=4)])
def roots(sx, n):
    """The projects of a directory: a document in a directory is the root of
    a project if there are none in the directories above it"""
    root = sx.scratch()
    files = []
    for i in range(n):
        d = sx.choice('directory %d' % i, PLACES)
        (pathlib.Path(root) / d).mkdir(parents=True, exist_ok=True)
        ext = sx.choice('ext %d' % i, ['.dm', '.txt'])
        path = d + 'f%d' % i + ext
        sx.file(root + '/' + path, 'x')
        files.append((d, path, ext == '.dm'))
    docs = [(d, path) for d, path, is_doc in files if is_doc]
    want = [(d, path) for d, path in docs
            if not [1 for e, _ in docs if e != d and d.startswith(e)]]
    sx.patch(environment_module, 'Document', Root)
    envs = Environment.create_environments(root_path=root)
    got = [env.root_document.src_filepath for env in envs]
    sx.check_eq(sorted([str(f) for f in got]),
                sorted([root + '/' + path for _, path in want]),
                'the roots of the projects')
    for f in got:
        d = [d for d, path in want if str(f) == root + '/' + path][0]
        sx.check_eq(str(f.project_root), (root + '/' + d).rstrip('/'),
                    'the directory of a project')
        sx.check_eq(str(f.project_root) + '/' + str(f.subpath), str(f),
                    'the path of a document in its project')


def clean(path, platform):
    return path


class Move(Builder):
    action = 'move -x {builder.infilepaths} {builder.outfilepath}'
    priority = 1
    required_execs = ()
    scan_parameters_on_init = False


@harness('C18', [dict(n=1), dict(n=2)], [dict(n=3)])
def commands(sx, n):
    """The command of a builder has each path as one argument"""
    names = ['a' + sx.str('name %d' % i, n, 'b ' if i else 'b .{') + 'a'
             for i in range(2)]
    sx.assume(sx.neg(sx.eq(*names)))
    paths = [SourcePath('/src', x) for x in names]
    action = sx.choice('action', [
        'move -x {builder.infilepaths} {builder.outfilepath}',
        'move -o={builder.outfilepath}  {builder.infilepaths}',
        'move {builder.infilepaths[0]}.x {builder.infilepaths[1]}'])
    out = TargetPath('/root', 'html', names[1])
    if sx.symbolic:
        # the paths have no characters to clean (checked by the replays)
        sx.patch(pathvalidate, 'sanitize_filepath', clean)
    b = Move(Env(), parameters=['text', paths[0], ('a', 1), paths[1]],
             outfilepath=out)
    b.action = action
    got = b.run_cmd_args()
    ins = ['/src/' + x for x in names]
    o = '/root/html/' + names[1]
    if 'o=' in action:
        want = ['move', '-o=' + o] + ins
    elif '-x' in action:
        want = ['move', '-x'] + ins + [o]
    else:
        want = ['move', ins[0] + '.x', ins[1]]
    sx.check_eq(list(got), want, 'arguments of the command')
    sx.observe(list(got))


@harness('C18', [dict(n=1, m=1), dict(n=2, m=1)], [dict(n=3, m=1),
                                                   dict(n=2, m=2)])
def generated(sx, n, m):
    """The path for a render without an input file is in the directory of the
    document (or first file), with its name and the extension; it is the same
    path exactly for the same items"""
    name = name_of(sx, 'name', n)
    sub = sx.choice('sub', ['', 'a'])
    path = sub + '/' + name if sub else name
    src = SourcePath('/src', path + '.dm')
    context = {'src_filepath': src}
    ext = sx.choice('ext', [None, '.render'])
    paths, items = [], []
    for i in range(2):
        ps = [sx.str('item %d %d' % (i, j), m, 'ab') for j in range(2)]
        items.append(ps)
        paths.append(generate_mock_parameters(Env(), list(ps), ext=ext,
                                              context=context))
    a, b = items
    same = sx.any(sx.all(sx.eq(a[0], b[0]), sx.eq(a[1], b[1])),
                  sx.all(sx.eq(a[0], b[1]), sx.eq(a[1], b[0])))
    outs = [generate_outfilepath(Env(), p, target='html', ext='.svg',
                                 use_media=True) for p in paths]
    for p, ex in ((paths, ext or ''), (outs, '.svg')):
        if p is outs and ext is None:
            # the name of the path may have an extension
            continue
        sx.check(sx.implies(same, sx.eq(str(p[0]), str(p[1]))),
                 'one path for the same items')
        sx.check(sx.implies(sx.eq(str(p[0]), str(p[1])), same),
                 'different paths for different items')
        for q in p:
            sx.check_eq(str(q.subpath)[-len(ex):] if ex else '', ex,
                        'extension of the path')
    sx.check_eq(str(paths[0].parent), '/src/' + sub if sub else '/src',
                'directory of the path')
    sx.check_eq(paths[0].name[:len(name) + 1], name + '_', 'name of the path')
    sx.observe(len(paths))


class AddFile:
    """Stands for the signal which creates the builder of an image"""

    def __init__(self):
        self.parameters = []

    def emit(self, parameters, context, in_ext, target, use_cache):
        self.is_file = isinstance(parameters[0], pathlib.Path)
        self.parameters.append([str(p) for p in parameters])
        return [TargetPath('/root', target, 'x.svg')]


def same_items(sx, a, b):
    """the lists have the same items (as the hashes of their files)"""
    if len(a) != len(b):
        return False
    return sx.eq(sorted(a), sorted(b))


@harness('C18', [dict(n=1), dict(n=2)], [dict(n=3)])
def equations(sx, n):
    """Equations (and terms) have the same image only if they are the same
    equation in tex, and equal tags have the same image"""
    ctx = util.context(doc_id='d', paths=[])
    stub = AddFile()
    sx.patch(img_module, 'add_file', stub)
    tags = []
    sources = []
    for i in range(2):
        name = sx.choice('tag %d' % i, ['eq', 'term', 'termb'])
        attrs = sx.choice('attributes %d' % i,
                          ['', '[bold]', '[color=b]', '[bold color=b]',
                           '[color=a]', '[env=align]'])
        text = sx.str('text %d' % i, n, 'ab^')
        sources.append([name, attrs, text])
        root = Tag(name='root', content='@' + name + attrs + '{' + text + '}',
                   attributes='', context=ctx)
        tag = root.content
        tag.paragraph_role = sx.choice('role %d' % i, [None, 'block'])
        sources[-1].append(tag.paragraph_role or '')
        tags.append(tag)
    exists = sx.choice('file', [False, True])
    sx.patch(pathlib.Path, 'is_file', lambda self: exists)
    for tag in tags:
        tag.html_fmt(level=2)
        sx.check(not stub.is_file, 'the text of an equation is no file')
    a, b = stub.parameters
    same = same_items(sx, a, b)
    sx.check(sx.implies(same, sx.eq(tags[0].tex, tags[1].tex)),
             'equations which differ have different images')
    equal = sources[0][0] == sources[1][0] and \
        sources[0][1] == sources[1][1] and sources[0][3] == sources[1][3]
    sx.check(sx.implies(sx.all(equal, sx.eq(sources[0][2], sources[1][2])),
                        same), 'equal equations have the same image')
    sx.observe(a)
