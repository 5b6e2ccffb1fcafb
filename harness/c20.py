"""C20: epubs are complete and up to date."""
import os
import pathlib
import re
import sys
import unicodedata

import jinja2

from symex.api import harness
from symex import util
from disseminate.builders import xhtml2epub
from disseminate.builders.composite_builders import SequentialBuilder
from disseminate.builders.deciders import Md5Decider
from disseminate.builders.scanners import Scanner
from disseminate.builders.scanners.html_scanner import HtmlScanner
from disseminate.builders.target_builders.epub_builder import EpubBuilder
from disseminate.builders.xhtml2epub import XHtml2Epub
from disseminate.paths import SourcePath, TargetPath

STDLIB = ('pathlib', 'posixpath', 'slugify.slugify')


class Db(dict):
    """A database of hashes"""

    def close(self):
        pass


class Env:
    """The environment of builders"""

    def __init__(self, sx, d, db):
        self.project_root = pathlib.Path(d)
        self.target_root = pathlib.Path(d) / 'out'
        self.cache_path = SourcePath(self.target_root, '.cache')
        self.cache_path.mkdir(parents=True, exist_ok=True)
        self.media_path = None
        self.context = {}
        self.scanner = HtmlScanner
        self.decider = Md5Decider(env=self)
        if db is not None:
            self.decider._db = db


def ascii_slugs(sx):
    """Use the slugify module as it is encoded: the names are in ascii, for
    which the conversion to ascii is the same text"""
    module = sys.modules['slugify.slugify']
    if sx.symbolic:
        sx.patch(module.unidecode, 'unidecode', lambda s: s)
        sx.patch(unicodedata, 'normalize', lambda f, s: s)
    sx.patch(xhtml2epub, 'slugify', module.slugify)


class Named(XHtml2Epub):
    """The names of files"""

    def __init__(self):
        pass

    def __del__(self):
        pass


@harness('C20', [dict(n=2, alpha='a-1'), dict(n=1, alpha="aB1_~")],
         [dict(n=3, alpha='a-_1'), dict(n=2, alpha="aB1' ~")])
def ids(sx, n, alpha):
    """Each file has one id, which is a valid id of its own, its path, and is
    the table of contents if it is the toc.xhtml of the epub"""
    ascii_slugs(sx)
    suffix = sx.choice('suffix', ['.xhtml', '.svg'])
    paths = []
    for i in range(3):
        sub = sx.choice('sub %d' % i, ['', 'c/', 'c/../'])
        name = 'toc' if i == 2 and sx.choice('toc', [False, True]) else \
            sx.str('name %d' % i, (1, n) if i < 2 else 1, alpha)
        sx.assume(name[0] != '.')
        sx.assume(name[-1] != '.')
        paths.append((sub + name).replace('c/../', '') + suffix)
        if i == 0:
            fps = []
        fps.append(TargetPath('/r', 'xhtml', sub + name + suffix))
    for i in range(3):
        for j in range(i):
            sx.assume(paths[i] != paths[j])
    fps.append(TargetPath('/r', 'xhtml', 'x.css'))
    got = Named().filepath_dict_list(fps, suffix)
    sx.check_eq([x['subpath'] for x in got], paths, 'paths of the files')
    sx.check_eq([x['is_toc'] for x in got],
                [sx.eq(p, 'toc.xhtml') for p in paths], 'table of contents')
    for i, x in enumerate(got):
        for y in got[:i]:
            sx.check(x['id'] != y['id'], 'two files have the same id',
                     id=x['id'], paths=paths)
        c = x['id'][0]
        sx.check(sx.any('a' <= c and c <= 'z', 'A' <= c and c <= 'Z',
                        c == '_'), 'an id starts with another character',
                 id=x['id'])
        for c in x['id']:
            sx.check(sx.any('a' <= c and c <= 'z', 'A' <= c and c <= 'Z',
                            c == '_', c == '-', c == '.',
                            '0' <= c and c <= '9'), 'character of an id',
                     id=x['id'])
    sx.observe([x['id'] for x in got])


class Zip:
    """Stands for the zip file: writes the names and texts of its files"""
    sx = None
    made = []

    def __init__(self, path, mode, compression=None):
        self.path = path
        self.files = []

    def __enter__(self):
        return self

    def __exit__(self, *args):
        if args[0] is None:
            Zip.made.append(self)
            self.sx.file(str(self.path), self.text())

    def text(self):
        return '|'.join([a + ':' + t for a, t, c in self.files])

    def writestr(self, arcname, data, compress_type=None):
        self.files.append((arcname, data.decode(), compress_type))

    def write(self, path, arcname):
        # as zipfile.ZipInfo.from_file
        arcname = os.path.normpath(str(arcname))
        self.files.append((arcname, pathlib.Path(path).read_text(), None))


def template(cache=[]):
    """The template of the content.opf"""
    if not cache:
        path = pathlib.Path(xhtml2epub.__file__).parent.parent / \
            'templates/default/xhtml/content.opf'
        cache.append(jinja2.Template(path.read_text()))
    return cache[0]


def opf_builder(sx):
    class Opf:
        """Stands for the render of the content.opf"""

        def __init__(self, env, context, outfilepath, render_ext, use_cache):
            self.context = context
            self.outfilepath = outfilepath

        @property
        def status(self):
            # its template does not change
            return 'done' if self.outfilepath.is_file() else 'ready'

        def text(self):
            # the names of files are not symbolic here
            c = {k: self.context[k] for k in self.context if k != 'epub'}
            return template().render(**c) + self.context['epub']

        def build(self, complete=False):
            Opf.last = self
            sx.file(str(self.outfilepath), self.text())
            return 'done'
    return Opf


class Context(dict):
    def filter(self, names):
        return {k: self[k] for k in names if k in self}


#: The media files of epubs and their names in the xhtml files
MEDIA = ['media/i.svg', 'media/p.png', 'media/css/e.css']


TYPES = {'xhtml': 'application/xhtml+xml', 'svg': 'image/svg+xml',
         'png': 'image/png', 'css': 'text/css'}


def reference(doc, media):
    up = '../' * doc.count('/')
    if media.endswith('.css'):
        return '<link rel="stylesheet" href="' + up + media + '"/>'
    return '<img src="' + up + media + '"/>'


class Project:
    def __init__(self, sx, d):
        self.sx = sx
        self.dir = d
        self.root = TargetPath(d + '/out/.cache', 'xhtml', '')
        self.opf = opf_builder(sx)
        Zip.sx = sx
        Zip.made = []
        sx.patch(xhtml2epub.zipfile, 'ZipFile', Zip)
        sx.file(d + '/container.xml', 'container')
        sx.patch(xhtml2epub, 'find_file', lambda p, context:
                 pathlib.Path(d) / 'container.xml')
        opf = self.opf
        sx.patch(XHtml2Epub, 'find_builder_cls', classmethod(
            lambda cls, **kw: opf))

        self.set_header(sx.str('header', 1, 'pq'))

    def set_header(self, text):
        self.header = text
        self.sx.file(self.dir + '/a.dm', text)

    def path(self, name):
        return TargetPath(self.dir + '/out/.cache', 'xhtml', name)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(str(p.parent), exist_ok=True)
        self.sx.file(str(p), text)

    def builder(self, env, names):
        context = Context(title='t', uuid='u', date='d', epub=self.header,
                          src_filepath=SourcePath(self.dir, 'a.dm'))
        self.context = context
        return XHtml2Epub(env, context, target='epub', use_cache=True,
                          parameters=[self.path(n) for n in names],
                          use_media=False)


def check_epub(sx, p, texts, refs):
    """The epub has each of its files, and lists them in its manifest"""
    made = Zip.made[-1]
    names = [a for a, t, c in made.files]
    sx.check_eq(names[:3], ['mimetype', 'META-INF/container.xml',
                            'xhtml/content.opf'], 'first files of the epub')
    sx.check_eq(made.files[0][1:], ('application/epub+zip', 0), 'mimetype')
    sx.check_eq(sorted(set(names)), sorted(names), 'a file is in the epub '
                'once')
    want = sorted(list(refs) + [m for ms in refs.values() for m in ms
                                if m not in refs])
    want = sorted(set(want))
    sx.check_eq(sorted(names[3:]), ['xhtml/' + n for n in want],
                'files of the epub')
    sx.check_eq(made.files[2][1][-1], p.header, 'header entry')
    for a, t, c in made.files[3:]:
        sx.check_eq(t, texts[a[len('xhtml/'):]], 'content of a file')
    opf = str(made.files[2][1][:-1])
    items = [dict(re.findall(r'([\w-]+)="([^"]*)"', item))
             for item in re.findall(r'<item\s([^>]*)/>', opf)]
    sx.check_eq(sorted([i['href'] for i in items]), want,
                'files of the manifest')
    for i in items:
        sx.check_eq(i['media-type'], TYPES[i['href'].split('.')[-1]],
                    'type of a file')
        sx.check_eq(i.get('properties', ''), 'nav' if i['href'] ==
                    'toc.xhtml' else '', 'properties of a file')
    hrefs = {i['id']: i['href'] for i in items}
    sx.check(len(hrefs) == len(items), 'two files have the same id')
    sx.check_eq([hrefs[r] for r in
                 re.findall(r'<itemref idref="([^"]*)"/>', opf)],
                ['toc.xhtml'] + [d for d in refs if d != 'toc.xhtml'],
                'order of the documents')


@harness('C20', [dict(docs=2, media=2, steps=1)],
         [dict(docs=2, media=3, steps=1), dict(docs=3, media=1, steps=1),
          dict(docs=2, media=1, steps=2)])
def contents(sx, docs, media, steps):
    """An epub has the current documents and the files that they use, and is
    made again exactly when one of them changes"""
    d = sx.scratch()
    p = Project(sx, d)
    db = Db() if sx.symbolic else None
    env = Env(sx, d, db)
    names = ['a.xhtml', 'c/b.xhtml', 'c/toc.xhtml'][:docs] + ['toc.xhtml']
    first = sx.choice('listed media', [0, 1])
    texts = {m: sx.str('text ' + m, 1, 'pq') for m in MEDIA[:media]}
    for m in MEDIA[:media]:
        p.write(m, texts[m])
    body, refs = {}, {}

    def write(n):
        texts[n] = body[n] + ''.join([reference(n, m) for m in refs[n]])
        p.write(n, texts[n])
    for n in names:
        body[n] = sx.str('text ' + n, 1, 'pq') if n != 'toc.xhtml' else 'toc'
        refs[n] = [m for m in MEDIA[:media]
                   if n != 'toc.xhtml' and
                   sx.choice(n + ' ' + m, [False, True])]
        write(n)
    used = [m for m in MEDIA[:first]]
    params = names + used

    def all_refs():
        r = dict(refs)
        r['toc.xhtml'] = used
        return r

    def run(b, what):
        sx.check_eq(b.build(complete=True), 'done', 'status of the build')
        check_epub(sx, p, texts, all_refs())
        sx.check_eq(b.status, 'done', 'status after the build')
    b = p.builder(env, params)
    sx.check_eq(b.status, 'ready', 'status of an epub never made')
    run(b, 'first')
    for i in range(steps):
        kind = sx.choice('edit %d' % i, names[:-1] + MEDIA[:media] +
                         ['image', 'header', 'none'])
        changed = False
        if kind == 'image':
            n = names[0]
            old = refs[n]
            refs[n] = [m for m in MEDIA[:media]
                       if sx.choice('%s %s %d' % (n, m, i), [False, True])]
            changed = old != refs[n]
            write(n)
        elif kind in MEDIA:
            t = sx.str('text %s %d' % (kind, i), 1, 'pq')
            if kind in used or any(kind in r for r in refs.values()):
                changed = sx.neg(sx.eq(t, texts[kind]))
            texts[kind] = t
            p.write(kind, t)
        elif kind not in ('none', 'header'):
            t = sx.str('text %s %d' % (kind, i), 1, 'pq')
            changed = sx.neg(sx.eq(t, body[kind]))
            body[kind] = t
            write(kind)
        if kind == 'header':
            # an entry, like the layout of pages, in the source
            t = sx.str('header %d' % i, 1, 'pq')
            changed = sx.neg(sx.eq(t, p.header))
            p.set_header(t)
        # new builders are created for documents which were edited
        if kind in ('image', 'header') or \
                sx.choice('restart %d' % i, [False, True]):
            env = Env(sx, d, db)
            b = p.builder(env, params)
        sx.check(sx.eq(b.status == 'ready', changed),
                 'the need for a build is wrong', edit=kind)
        if b.status == 'ready':
            run(b, kind)
    sx.observe(len(Zip.made))


class Made:
    """A builder which was created"""

    def __init__(self, env=None, parameters=(), outfilepath=None, **kwargs):
        self.parameters = list(parameters)
        self.outfilepath = outfilepath
        self.subbuilders = []


class Epub(EpubBuilder):
    """The creation of the builders of an epub"""

    env = context = None
    outfilepath = TargetPath('/r', 'epub', 'a.epub')

    def __init__(self):
        self.subbuilders = []

    def __del__(self):
        pass

    def find_or_create_xhtml_builders(self, **kwargs):
        return self.docs

    def create_toc_xhtml_builder(self, context=None):
        return Made(outfilepath=TargetPath('/r/.cache', 'xhtml',
                                           'toc.xhtml'))

    def find_builder_cls(self, in_ext, out_ext):
        return Made


@harness('C20', [dict(n=2, docs=2)], [dict(n=2, docs=3), dict(n=3, docs=1)])
def builders(sx, n, docs):
    """The epub is made of all documents and their files, and of one
    toc.xhtml, after they are made, and copied to its place"""
    e = Epub()
    e.docs = []
    want = []
    has = False
    for i in range(docs):
        sub = sx.choice('sub %d' % i, ['', 'c/'])
        name = sx.str('name %d' % i, n, 'to') + \
            sx.choice('end %d' % i, ['c', ''])
        b = Made(outfilepath=TargetPath('/r/.cache', 'xhtml',
                                        sub + name + '.xhtml'))
        if sub == '':
            has = sx.any(has, sx.eq(name, 'toc'))
        b._parallel_builder = Made()
        want.append(str(b.outfilepath))
        sx.assume(sx.all(*[sx.neg(sx.eq(w, want[-1])) for w in want[:-1]]))
        e.docs.append(b)
    media = sx.choice('media', [[], ['i.svg'], ['p.png', 'e.css'],
                                ['i.svg', 'x.asy']])
    owner = sx.choice('owner', list(range(docs)))
    e.docs[owner]._parallel_builder.subbuilders = [
        Made(outfilepath=TargetPath('/r/.cache', 'xhtml', m)) for m in media]
    e.create_subbuilders()
    toc = [] if has else ['/r/.cache/xhtml/toc.xhtml']
    epub, copy = e.subbuilders[-2:]
    sx.check_eq(sorted([str(p) for p in epub.parameters]),
                sorted(want + ['/r/.cache/xhtml/' + m for m in media
                               if m != 'x.asy'] + toc), 'files of the epub')
    sx.check_eq([str(b.outfilepath) for b in e.subbuilders[:-2]], want + toc,
                'builders before the one of the epub')
    sx.check_eq([str(p) for p in copy.parameters], [str(epub.outfilepath)],
                'the file to copy')
    sx.check_eq(str(copy.outfilepath), '/r/epub/a.epub', 'the epub')
    sx.observe(len(e.subbuilders))
