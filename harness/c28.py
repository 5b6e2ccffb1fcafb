"""C28: starters are copied in full and projects are built to their end."""
import importlib

import click

from symex.api import harness
from disseminate.cli import term
from disseminate.cli.utils import progressbar

build_module = importlib.import_module('disseminate.cli.build')
init_module = importlib.import_module('disseminate.cli.init')


class Disk(object):
    """Files, directories and their contents"""

    def __init__(self):
        self.files = {}
        self.dirs = []

    def add(self, path, text=''):
        self.files[path] = text
        parts = path.split('/')
        for i in range(1, len(parts)):
            d = '/'.join(parts[:i])
            if d not in self.dirs:
                self.dirs.append(d)


class Path(object):
    """Stand-in of a path on a disk"""

    disk = None

    def __init__(self, path):
        self.path = path.path if isinstance(path, Path) else path

    def __str__(self):
        return self.path

    def __truediv__(self, other):
        other = other.path if isinstance(other, Path) else other
        return Path(other if self.path == '.' else self.path + '/' + other)

    @property
    def parts(self):
        return tuple(self.path.split('/'))

    @property
    def name(self):
        return self.parts[-1]

    @property
    def suffix(self):
        at = self.name.rfind('.')
        return self.name[at:] if at > 0 else ''

    @property
    def stem(self):
        at = self.name.rfind('.')
        return self.name[:at] if at > 0 else self.name

    def exists(self):
        return self.is_file() or self.is_dir()

    def joinpath(self, *others):
        path = self
        for o in others:
            path = path / o
        return path

    @property
    def parent(self):
        return Path('/'.join(self.parts[:-1]) or '.')

    def is_file(self):
        return self.path in self.disk.files

    def is_dir(self):
        return self.path in self.disk.dirs

    def inside(self):
        start = self.path + '/'
        return [p for p in list(self.disk.dirs) + list(self.disk.files)
                if p.startswith(start)]

    def iterdir(self):
        start = self.path + '/'
        return iter([Path(p) for p in self.inside()
                     if '/' not in p[len(start):]])

    def glob(self, pattern):
        if pattern == '**/*':
            return [Path(p) for p in self.inside()]
        assert pattern.startswith('**/')
        return [Path(p) for p in self.inside()
                if Path(p).name == pattern[3:]]

    def rglob(self, pattern):
        return self.glob('**/' + pattern)

    def relative_to(self, other):
        start = other.path + '/'
        if not self.path.startswith(start):
            raise ValueError(self.path)
        return Path(self.path[len(start):])

    def mkdir(self, parents=False, exist_ok=False):
        if self.is_dir():
            if not exist_ok:
                raise FileExistsError(self.path)
            return
        up = self.parent
        if up.path != '.' and not up.is_dir():
            if not parents:
                raise FileNotFoundError(up.path)
            up.mkdir(parents=True, exist_ok=True)
        self.disk.dirs.append(self.path)

    def read_text(self):
        return self.disk.files[self.path]


class Wrapper(object):
    """Stand-in of the wrapping of lines"""

    def __init__(self, **kwargs):
        pass

    def fill(self, text):
        return text


class Answers(object):
    """Stand-in of the terminal"""

    BadParameter = click.BadParameter

    def __init__(self, answer=False):
        self.answer = answer
        self.asked = 0

    def style(self, text, **kwargs):
        return text

    def confirm(self, msg):
        self.asked += 1
        return self.answer


class Exit(Exception):
    pass


def leave(*a):
    raise Exit()


def stand_ins(sx, disk, terminal):
    Path.disk = disk
    printed = []
    namespace = type('pathlib', (), {'Path': Path})
    sx.patch(init_module, 'pathlib', namespace)
    sx.patch(init_module, 'click', terminal)
    sx.patch(init_module, 'TextWrapper', Wrapper)
    sx.patch(init_module, 'exit', leave)
    sx.patch(init_module, 'print', lambda *a: printed.append(' '.join(a)))
    width = sx.int('width', 20, 100)
    sx.patch(init_module, 'term_width', lambda: width)
    sx.patch(init_module, 'template_path', Path('t'))
    return printed


def some_files(sx, n):
    """Files of a starter"""
    known = ['description.yaml', 'a.dm', 'aa/description.dm', 'aa/b/c.dm',
             'ba/a.dm']
    names = []
    for k in known[:n]:
        if k == 'description.yaml' or sx.choice(k, [True, False]):
            names.append(k)
    return names + [sx.str('dir', 1, 'abc') + '/' + sx.str('name', 2, 'abm.')]


@harness('C28', [dict(n=3), dict(n=4)], [dict(n=5)])
def clone(sx, n):
    """All the files of a starter are copied to where they are in the starter,
    or none of them if this is declined"""
    disk = Disk()
    names = some_files(sx, n)
    root = 't/books/x/starters/s'
    disk.add('t/books/x/other.html')
    for k in names:
        if root + '/' + k not in disk.files:
            disk.add(root + '/' + k, 'text of ' + k)
    state = sx.choice('out', ['none', 'missing', 'empty', 'file', 'directory'])
    out = None if state == 'none' else 'w/out'
    disk.dirs.append('w')
    disk.dirs.append('.')
    if state in ('empty', 'file', 'directory'):
        disk.dirs.append('w/out')
    if state == 'file':
        disk.files['w/out/' + sx.str('there', 1, 'a.') + 'z'] = 'z'
    if state == 'directory':
        disk.dirs.append('w/out/aa')
    non_interactive = sx.bool('non_interactive')
    answer = sx.bool('answer')
    terminal = Answers(answer)
    copied = []

    def copy(src, dest):
        if not dest.parent.is_dir() and dest.parent.path != '.':
            raise FileNotFoundError(dest.path)
        copied.append((src.path, dest.path))

    stand_ins(sx, disk, terminal)
    sx.patch(init_module, 'copy2', copy)
    starter = {'_path': Path(root + '/description.yaml')}
    before = dict(disk.files)
    try:
        init_module.clone_starter(name='s', starter=starter, out_dir=out,
                                  non_interactive=non_interactive)
        left = False
    except Exit:
        left = True
    ask = not non_interactive and state != 'empty'
    if state in ('none', 'missing'):
        # a directory which isn't there may be asked about, or not
        sx.check(terminal.asked <= (0 if non_interactive else 1),
                 'questions which are asked')
        ask = terminal.asked == 1
    else:
        sx.check(terminal.asked == (1 if ask else 0),
                 'questions which are asked', got=terminal.asked)
    declined = ask and not answer
    sx.check(left == declined, 'stops if it is declined', got=left)
    want = []
    if not declined:
        p = '' if out is None else 'w/out/'
        for k in names:
            if k != 'description.yaml' and not k.endswith('/description.yaml'):
                item = (root + '/' + k, p + k)
                if item not in want:
                    want.append(item)
    sx.check_eq(len(copied), len(want), 'number of files which are copied')
    for w in want:
        sx.check(sx.any(*[sx.eq(list(c), list(w)) for c in copied]),
                 'file which is copied', want=w)
    sx.check_eq(disk.files, before, 'files of the starter')


@harness('C28', [dict(n=1, m=2)], [dict(n=2, m=2), dict(n=1, m=3)])
def starters(sx, n, m):
    """Each starter is found, by a name of its own, with its template, the
    entries of its description and its files"""
    disk = Disk()
    terminal = Answers()
    printed = stand_ins(sx, disk, terminal)
    have = []
    for i in range(m):
        depth = sx.choice('depth %d' % i, [1, 2])
        parts = [sx.str('p%d%d' % (i, j), n, 'abs') for j in range(depth)]
        name = sx.str('n%d' % i, n, 'abc')
        d = '/'.join(['t'] + parts + ['starters', name])
        sx.assume(sx.neg(sx.any(*[sx.eq(d, h[0]) for h in have]))
                  if have else True)
        sx.assume('/'.join(parts + [name]) not in [h[1] for h in have])
        desc = sx.str('d%d' % i, 1, 'ab') + ' k'
        disk.add(d + '/main.dm', 'x')
        disk.add(d + '/description.yaml', 'title: T%d\ndescription: %s\n'
                 % (i, desc))
        have.append((d, '/'.join(parts + [name]), '/'.join(parts), desc, i))
    found = init_module.generate_starters_dict()
    sx.check_eq(len(found), m, 'number of starters')
    for d, name, template, desc, i in have:
        sx.check(name in found, 'name of a starter', got=list(found))
        s = found[name]
        sx.check_eq([s['template'], s['description'], s['title'],
                     str(s['_path'])],
                    [template, desc, 'T%d' % i,
                     d + '/description.yaml'], 'entries of a starter')
        files = init_module.starter_filepaths(s)
        sx.check_eq([[k, str(v)] for k, v in files.items()],
                    [['main.dm', d + '/main.dm']], 'files of a starter')
    init_module.print_starters_list(found)
    sx.check_eq(len(printed), m, 'lines of the list of starters')
    for d, name, template, desc, i in have:
        sx.check(sx.any(*[sx.all(x.startswith(name),
                                 x.endswith(desc))
                          for x in printed]), 'line of a starter', got=printed)
    which = sx.choice('which', list(range(m)))
    del printed[:]
    name = have[which][1]
    init_module.print_starter_info(name=name, starter=found[name])
    text = '\n'.join(printed)
    for w in (name, 'T%d' % which, have[which][3].strip(), 'main.dm',
              have[which][2]):
        sx.check(w in text, 'information about a starter', want=w, got=text)


class Root(object):
    """A root builder with the statuses it has"""

    def __init__(self, statuses):
        self.statuses = statuses
        self.at = 0

    @property
    def status(self):
        return self.statuses[self.at]

    def build(self, complete=False):
        self.at += 1
        return self.status

    def flatten(self):
        return [self]


class Document(object):
    def documents_list(self, only_subdocuments=True, recursive=False):
        return [1, 2]


class Env(object):
    def __init__(self, name, statuses):
        self.name = name
        self.root_document = Document()
        self.root = Root(statuses)

    def create_root_builder(self):
        return self.root


class Environments(object):
    envs = ()
    args = None

    def create_environments(self, root_path, target_root=None):
        self.args = (root_path, target_root)
        return self.envs


@harness('C28', [dict(n=1, m=2), dict(n=2, m=2), dict(n=3, m=1)],
         [dict(n=3, m=3), dict(n=2, m=4)])
def projects(sx, n, m):
    """Each project is built until its builders end, in the output directory
    which is given, unless this is for several projects"""
    printed = []
    sx.patch(build_module, 'print', lambda *a: printed.append(' '.join(a)))
    sx.patch(progressbar, 'print', lambda *a: None)
    envs = []
    ends = []
    for i in range(n):
        statuses = []
        k = sx.int('steps %d' % i, 0, m)
        for j in range(m):
            if j < k:
                statuses.append(sx.choice('status %d %d' % (i, j),
                                          ['ready', 'building']))
        statuses.append(sx.choice('end %d' % i, ['done', 'missing']))
        ends.append((statuses[-1], len(statuses) - 1))
        envs.append(Env('p%d' % i, statuses))
    made = Environments()
    made.envs = envs
    sx.patch(build_module, 'Environment', made)
    out = sx.choice('out', [None, 'w'])
    progress = sx.bool('progress')
    try:
        build_module.build.callback(in_path='in', out_dir=out, progress=progress)
        ok = True
    except click.BadParameter:
        ok = False
    sx.check(ok == (n == 1 or out is None),
             'projects in the same output directory')
    sx.check_eq(list(made.args), ['in', out], 'paths of the projects')
    for e, (end, steps) in zip(envs, ends):
        sx.check_eq(e.root.at, steps if ok else 0, 'steps of a build')
    if ok:
        sx.check_eq(printed, ['Build: ' + end for end, steps in ends],
                    'results of the builds')


class Status(object):
    def __init__(self, status):
        self.status = status


@harness('C28', [dict(n=1, m=3), dict(n=2, m=4)],
         [dict(n=3, m=6), dict(n=14, m=2)])
def progress(sx, n, m):
    """The progress has the number of builders that are done, and its columns
    are below their titles"""
    printed = []
    sx.patch(progressbar, 'print', lambda *a: printed.append(' '.join(a)))
    name = sx.str('name', n, 'ab')
    env = Env(name, ['done'])
    table = progressbar.ProgressTable(environment=env)
    builders = []
    done = 0
    for i in range(m):
        s = sx.choice('s%d' % i, ['done', 'ready', 'building', 'missing'])
        done += 1 if s == 'done' else 0
        builders.append(Status(s))
    sx.check_eq(list(progressbar.progress_builders(builders)), [done, m],
                'progress of the builders')
    table.print_hdr()
    table.print_row(builders)
    hdr, bar, row = printed
    places = [hdr.find(h) for h in table.hdrs]
    sx.check(places[0] == 0 and places[1] > len(name), 'titles of columns')
    for h, p in zip(table.hdrs, places):
        sx.check_eq(bar[p:p + len(h)], '-' * len(h), 'line below a title')
    sx.check_eq(row[:places[1]].rstrip(), name, 'name in the row')
    sx.check_eq(row[places[1]:places[2]].strip(), '2', 'documents in the row')
    want = '%d / %d (%.1f%%)' % (done, m, 100. * done / m)
    sx.check_eq(row[places[2]:].rstrip(), want, 'progress in the row')


@harness('C28', [dict(n=2), dict(n=3)], [dict(n=5), dict(n=6)])
def lines(sx, n):
    """Texts on the terminal keep their lines, and fill them"""
    s = sx.str('s', n, 'a \n')
    got = term.wrap_with_newlines(s, wrapper=Wrapper())
    sx.check_eq(got, '\n'.join(x for x in s.split('\n') if x != ''),
                'lines of a text')
    a = sx.str('a', (0, n), 'ab')
    b = sx.str('b', (0, n), 'ab')
    w = sx.int('w', 2 * n, 2 * n + 3)
    got = term.fill_string(a, b, width=w, spacer='.')
    sx.check(len(got) == w, 'width of a line', got=got)
    sx.check_eq(got, a + '.' * (len(got) - len(a) - len(b)) + b,
                'texts at both ends of a line')
