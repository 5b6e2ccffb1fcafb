"""C22: the preview server serves the files of its directory only."""
import os
import pathlib

import tornado.web
from tornado.web import HTTPError, StaticFileHandler

from symex.api import harness
from disseminate.server import urls
from disseminate.server.handlers import (pygmentize, server_static_path,
                                         PygmentizeHandler)

STDLIB = ('pathlib', 'posixpath')


def resolve(root, path):
    """The parts of a path in a directory"""
    parts = [] if path[:1] == '/' else root.split('/')[1:]
    for part in path.split('/'):
        if len(part) == 0 or part == '.':
            continue
        if part == '..':
            parts = parts[:-1]
        else:
            parts = parts + [part]
    return parts


class Files:
    """Stand-in of a file system: files with their contents"""

    def __init__(self, sx, root, files):
        self.sx = sx
        self.root = root
        self.files = files
        self.read = []

    def find(self, path):
        parts = resolve(self.root, str(path))
        for f in sorted(self.files):
            if parts == f.split('/')[1:]:
                return f
        return None

    def isfile(self, path):
        return self.find(path) is not None

    def read_text(self, path, *a, **kw):
        f = self.find(path)
        if f is None:
            raise FileNotFoundError(path)
        self.read.append(f)
        return self.files[f]


def page(sx, cls, path, files):
    """The page of a handler, or the number of its error"""
    out = []
    h = object.__new__(cls)
    h.write = out.append
    sx.patch(os, 'getcwd', lambda: files.root)
    sx.patch(os.path, 'isfile', files.isfile)
    sx.patch(pathlib.Path, 'is_file', lambda p: files.isfile(p))
    sx.patch(pathlib.Path, 'exists', lambda p: files.isfile(p))
    sx.patch(pathlib.Path, 'read_text',
             lambda p, *a, **kw: files.read_text(p))
    sx.patch(pygmentize, 'get_lexer_for_filename', lambda p, **kw: 'lexer')
    sx.patch(pygmentize, 'HtmlFormatter', lambda **kw: 'formatter')
    sx.patch(pygmentize, 'highlight', lambda code, lexer, fmt: '[' + code)
    try:
        h.get(path)
    except HTTPError as e:
        return e.status_code
    sx.check(len(out) == 1, 'the page is written once')
    return out[0]


@harness('C22', [dict(n=4), dict(n=5), dict(n=6)], [dict(n=7), dict(n=8)])
def sources(sx, n):
    """A source page is that of the file with its path, if this is in the
    current directory, and an error otherwise"""
    root = sx.choice('root', ['/h/p', '/h'])
    ext = sx.choice('ext', ['.dm', '.tex'])
    files = {f + ext: 'text of ' + f for f in (
        '/a', '/h/a', '/h/p/a', '/h/p/s/a', '/h/ps/a', '/h/p/.a', '/s/a',
        '/h/pa', '/h/s')}
    fs = Files(sx, root, files)
    path = sx.choice('start', ['', root + '/', root + 's/', '../']) + \
        sx.str('path', n, './sap') + ext
    got = page(sx, PygmentizeHandler, path, fs)
    want = fs.find(path)
    inside = want is not None and want.startswith(root + '/')
    for f in fs.read:
        sx.check(f.startswith(root + '/'), 'a file which is not in the '
                 'directory of the server is read', file=f)
    if inside:
        sx.check_eq(got, '[' + files[want], 'page of the file')
    else:
        parts = resolve(root, path)
        r = root.split('/')[1:]
        in_root = len(parts) > len(r) and parts[:len(r)] == r
        sx.check_eq(got, 404 if in_root else 403, 'error of the request')
    sx.observe(got)


@harness('C22', [dict(n=4), dict(n=5)], [dict(n=6), dict(n=7)])
def routes(sx, n):
    """A request is for a page of the server, a source page, or a static file
    in the current directory or the server's media"""
    path = '/' + sx.str('path', n, 'am./')
    kind = sx.choice('end', ['', '.dm', '.tex', '.html', '.epub', '.css'])
    head = sx.choice('start', ['', 'media/', 'checkers', 'signals'])
    path = path[:1] + head + path[1:] + kind
    served = None
    for pattern in urls.url_patterns:
        m = pattern.regex.match(path)
        if m is not None:
            served = pattern
            break
    sx.check(served is not None, 'a request has a handler')
    cls = served.handler_class
    args = m.groups()
    kw = served.kwargs
    if head == 'media/':
        sx.check(issubclass(cls, StaticFileHandler) and
                 kw['path'] == server_static_path,
                 'the media of the server are static files')
        sx.check_eq(list(args), [path[len('/media/'):]], 'path of the file')
        return
    if issubclass(cls, StaticFileHandler):
        sx.check_eq(kw['path'], '.', 'root of the static files')
        sx.check(cls.get_absolute_path.__func__ is
                 StaticFileHandler.get_absolute_path.__func__ and
                 cls.validate_absolute_path is
                 StaticFileHandler.validate_absolute_path,
                 'static files are validated')
    if issubclass(cls, (StaticFileHandler, PygmentizeHandler)):
        sx.check_eq(list(args), [path[1:]], 'path of the file')
        source = kind in ('.dm', '.tex')
        sx.check(issubclass(cls, PygmentizeHandler) == source,
                 'sources have a source page')
        if kind in ('.html', '.epub', '.tex'):
            sx.check(kw.get('reload_projects') is True,
                     'documents are up to date')
    else:
        sx.check(path == '/' or path == '/checkers' or path == '/signals',
                 'the pages of the server')
    sx.observe(cls.__name__)
