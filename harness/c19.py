"""C19: builds run completely and in order."""
import os
import pathlib
import subprocess

from symex.api import harness
from disseminate.builders import builder as builder_module
from disseminate.builders.builder import Builder
from disseminate.builders.copy import Copy
from disseminate.builders.composite_builders import (SequentialBuilder,
                                                     ParallelBuilder)
from disseminate.builders.deciders import Md5Decider
from disseminate.builders.exceptions import BuildError
from disseminate.builders.executor import PopenResult, run as run_command
from disseminate.paths import SourcePath, TargetPath


class Db(dict):
    """A database of hashes"""

    def close(self):
        pass


class Scanner:
    def scan(self, parameters):
        return []


class Env:
    """The environment of builders"""

    def __init__(self, sx, d, db):
        self.project_root = pathlib.Path(d)
        self.target_root = pathlib.Path(d) / 'out'
        self.cache_path = SourcePath(self.target_root, '.cache')
        self.cache_path.mkdir(parents=True, exist_ok=True)
        self.media_path = None
        self.context = {}
        self.scanner = Scanner()
        self.decider = Md5Decider(env=self)
        if db is not None:
            self.decider._db = db


class Stop(Exception):
    """The process is killed"""


class Future:
    """A command which runs until a symbolic number of polls later"""

    def __init__(self, pool, args, i):
        self.pool = pool
        self.args = args
        self.i = i
        self.polls = 0
        self.ended = False

    def done(self):
        if not self.ended:
            self.polls += 1
            if (self.polls > self.pool.polls or
                    self.pool.sx.bool('ended %d %d' % (self.i, self.polls))):
                self.ended = True
                self.result_ = self.pool.effect(self)
        return self.ended

    def cancelled(self):
        return False

    def exception(self):
        return None

    def result(self):
        return self.result_


class Pool:
    """Stands for the executor of commands: a command reads its inputs when
    it starts, and writes its output (the name of the command around what it
    read) when it ends"""

    def __init__(self, sx, polls=1, bad=None, how=None, stop=None):
        self.sx = sx
        self.polls = polls
        self.bad = bad
        self.how = how
        self.stop = stop
        self.events = []

    def event(self, *e):
        self.events.append(e)
        if len(self.events) == self.stop:
            raise Stop()

    def submit(self, f, args, timeout):
        name, ins, out = args[0], args[1:-1], args[-1]
        fut = Future(self, args, len([e for e in self.events
                                      if e[0] == 'start']))
        fut.text = '+'.join([pathlib.Path(x).read_text() for x in ins])
        self.event('start', name)
        return fut

    def effect(self, fut):
        name, out = fut.args[0], fut.args[-1]
        code = 0
        if name == self.bad:
            if self.how == 'code':
                code = 1
            if self.how == 'partial':
                code = 1
                self.sx.file(out, 'partial')
        else:
            self.sx.file(out, name + '(' + fut.text + ')')
        self.event('end', name)
        return PopenResult(code, fut.args, '', '')

    def started(self):
        return [e[1] for e in self.events if e[0] == 'start']


STEPS = {}


def step(name):
    """The class of the builder for a step"""
    if name not in STEPS:
        STEPS[name] = type('Step' + name, (Builder,), dict(
            action=name + ' {builder.infilepaths} {builder.outfilepath}',
            priority=1, required_execs=(), infilepath_ext='.x',
            outfilepath_append='_' + name))
    return STEPS[name]


class Sequence(SequentialBuilder):
    outfilepath_append = '_seq'


TREES = {
    # a command
    'one': 'a',
    # one after the other
    'seq2': ['seq', 'a', 'b'],
    'seq3': ['seq', 'a', 'b', 'c'],
    # at the same time
    'par2': ['par', 'a', 'b'],
    'par3': ['par', 'a', 'b', 'c'],
    # both
    'parseq': ['par', ['seq', 'a', 'b'], 'c'],
    'seqseq': ['seq', 'a', ['seq', 'b', 'c']],
    'parpar': ['par', 'a', ['par', 'b', 'c']],
    'seqpar': ['list', ['par', 'a', 'b'], 'c'],
}


def make(env, tree, source):
    """The builders of a tree"""
    src = SourcePath(env.project_root, source)
    if isinstance(tree, str):
        return step(tree)(env, parameters=[src, ('name', tree)],
                          target='html')
    kind, subs = tree[0], [make(env, t, source) for t in tree[1:]]
    out = TargetPath(env.target_root, 'html', 'all_' + names(tree) + '.x')
    if kind == 'seq':
        return Sequence(env, parameters=[src], subbuilders=subs,
                        outfilepath=out, target='html')
    if kind == 'list':
        # not chained, like the builders of documents
        b = type('List', (SequentialBuilder,),
                 dict(chain_on_creation=False, copy=False))
        return b(env, parameters=[src], subbuilders=subs, outfilepath=out,
                 target='html')
    return ParallelBuilder(env, parameters=[src], subbuilders=subs,
                           target='html')


def names(tree):
    return tree if isinstance(tree, str) else \
        ''.join(names(t) for t in tree[1:])


def chains(tree):
    """The pairs (x, y) of commands: y starts after the end of x"""
    if isinstance(tree, str):
        return []
    out = []
    for t in tree[1:]:
        out += chains(t)
    if tree[0] != 'par':
        for i, t in enumerate(tree[1:]):
            for u in tree[i + 2:]:
                out += [(x, y) for x in names(t) for y in names(u)]
    return out


def outputs(tree, text, d, outfile=None):
    """The output files of a tree and their contents, and the contents at the
    end of the tree"""
    if isinstance(tree, str):
        return {}, tree + '(' + text + ')'
    out = {}
    if tree[0] == 'seq':
        for t in tree[1:]:
            if not isinstance(t, str):
                # its commands are chained too
                more, text = outputs(t, text, d)
                more.pop('all_' + names(t), None)
            else:
                text = t + '(' + text + ')'
        out['all_' + names(tree)] = text
        return out, text
    for t in tree[1:]:
        more, last = outputs(t, text, d)
        out.update(more)
        if isinstance(t, str):
            out['s_' + t] = last
    return out, None


def run(sx, pool, builder, complete):
    """Build; returns the status or the name of the error"""
    sx.patch(builder_module, 'executor', pool)
    try:
        if complete:
            return builder.build(complete=True)
        status = 'ready'
        while status in ('ready', 'building'):
            status = builder.build()
        return status
    except BuildError:
        return 'error'
    except Stop:
        return 'stop'


def check_order(sx, pool, tree, first=False):
    ev = pool.events
    for x, y in chains(tree):
        if ('start', y) in ev and (first or ('start', x) in ev):
            sx.check(('end', x) in ev and
                     ev.index(('end', x)) < ev.index(('start', y)),
                     'a command starts before the end of the one before it',
                     first=x, second=y, events=ev)
    sx.check_eq(sorted(set(pool.started())), sorted(pool.started()),
                'a command is run once')


def check_outputs(sx, tree, text, d):
    want, last = outputs(tree, text, d)
    if isinstance(tree, str):
        want = {'s_' + tree: last}
    for f in sorted(want):
        p = pathlib.Path(d) / 'out' / 'html' / (f + '.x')
        sx.check(p.is_file(), 'an output is missing', output=f)
        sx.check_eq(p.read_text(), want[f], 'output of the build')


@harness('C19', [dict(trees=['one', 'seq2', 'par2'], polls=3),
                 dict(trees=['seq3', 'par3', 'parseq', 'seqseq', 'parpar',
                             'seqpar'], polls=2)],
         [dict(trees=['one', 'seq2', 'par2'], polls=5),
          dict(trees=['seq3', 'par3', 'parseq', 'seqseq', 'parpar',
                      'seqpar'], polls=3)])
def schedules(sx, trees, polls):
    """Commands run once and in order, whatever their speed, and all outputs
    are made; nothing is run by a build after it"""
    name = sx.choice('tree', trees)
    tree = TREES[name]
    d = sx.scratch()
    db = Db() if sx.symbolic else None
    text = sx.str('text', 1, 'pq')
    sx.file(d + '/s.x', text)
    env = Env(sx, d, db)
    complete = sx.choice('complete', [False, True])
    pool = Pool(sx, polls)
    b = make(env, tree, 's.x')
    sx.check(b.status == 'ready', 'the build is ready')
    sx.check_eq(run(sx, pool, b, complete), 'done', 'status of the build')
    sx.check_eq(b.status, 'done', 'status after the build')
    check_order(sx, pool, tree, first=True)
    sx.check_eq(''.join(sorted(pool.started())), names(tree),
                'the commands which are run')
    check_outputs(sx, tree, text, d)
    # again
    pool = Pool(sx, 0)
    b = make(env, tree, 's.x')
    sx.check_eq(run(sx, pool, b, complete), 'done', 'status of a build again')
    sx.check(not pool.events, 'commands are run again')
    sx.observe(len(pool.events))


@harness('C19', [dict(trees=['one', 'seq2', 'par2'], polls=1),
                 dict(trees=['seq3', 'seqpar', 'parseq', 'seqseq'],
                      polls=0)],
         [dict(trees=['one', 'seq2', 'par2', 'seqpar'], polls=3),
          dict(trees=['seq3', 'parseq', 'seqseq', 'parpar'], polls=2)])
def failures(sx, trees, polls):
    """A command which fails, or does not make its output, is an error or a
    status of the build, nothing that needs its output is run, and the next
    build makes all outputs"""
    name = sx.choice('tree', trees)
    tree = TREES[name]
    d = sx.scratch()
    db = Db() if sx.symbolic else None
    text = sx.str('text', 1, 'pq')
    sx.file(d + '/s.x', text)
    env = Env(sx, d, db)
    how = sx.choice('how', ['code', 'partial', 'no output', 'stop'])
    if how == 'stop':
        stop = 1 + sx.choice('stop', list(range(2 * len(names(tree)))))
        pool = Pool(sx, polls, stop=stop)
        bad = None
    else:
        bad = sx.choice('bad', list(names(tree)))
        pool = Pool(sx, polls, bad=bad, how=how)
    complete = sx.choice('complete', [False, True])
    status = run(sx, pool, make(env, tree, 's.x'), complete)
    sx.check_eq(status, 'stop' if how == 'stop' else 'missing (outfilepath)'
                if how == 'no output' else 'error', 'status of the build')
    check_order(sx, pool, tree, first=True)
    for x, y in chains(tree):
        sx.check(x != bad or y not in pool.started(),
                 'a command is run after one which failed')
    # repaired
    if sx.choice('restart', [False, True]):
        env = Env(sx, d, db)
    if sx.choice('edit', [False, True]):
        text = sx.str('text 2', 1, 'pq')
        sx.file(d + '/s.x', text)
    pool = Pool(sx, 0)
    status = run(sx, pool, make(env, tree, 's.x'), complete)
    sx.check_eq(status, 'done', 'status of the build after it')
    check_order(sx, pool, tree)
    check_outputs(sx, tree, text, d)


@harness('C19', [dict(trees=['one', 'seq2', 'par2', 'seqpar', 'seq3',
                             'parseq', 'seqseq', 'parpar'])],
         [dict(trees=['one', 'seq2', 'par2', 'seqpar', 'seq3', 'parseq',
                      'seqseq', 'parpar', 'par3'])])
def again(sx, trees):
    """A build after an edit makes all outputs for the edited input, runs each
    command at most once, and nothing without an edit"""
    name = sx.choice('tree', trees)
    tree = TREES[name]
    d = sx.scratch()
    db = Db() if sx.symbolic else None
    env = Env(sx, d, db)
    text = sx.str('text', 1, 'pq')
    sx.file(d + '/s.x', text)
    sx.check_eq(run(sx, Pool(sx, 0), make(env, tree, 's.x'), True), 'done',
                'status of the build')
    lost = sx.choice('removed', [False, True])
    if lost:
        out = pathlib.Path(d) / 'out' / 'html'
        for f in sorted(os.listdir(str(out))):
            os.remove(str(out / f))
    text2 = sx.str('text 2', 1, 'pq')
    sx.file(d + '/s.x', text2)
    if sx.choice('restart', [False, True]):
        env = Env(sx, d, db)
    pool = Pool(sx, 1)
    sx.check_eq(run(sx, pool, make(env, tree, 's.x'), True), 'done',
                'status of the second build')
    check_order(sx, pool, tree)
    check_outputs(sx, tree, text2, d)
    if not lost:
        sx.check(sx.implies(sx.eq(text, text2), len(pool.events) == 0),
                 'commands are run without an edit')


class Output:
    """What a command writes: a number of bytes"""

    def __init__(self, name, n):
        self.name = name
        self.n = n

    def __len__(self):
        return self.n

    def decode(self, *args, **kwargs):
        return self


#: The bytes a pipe can hold before its writer has to wait
PIPE = 65536


class Pipe:
    """The reading end of a pipe of a command"""

    def __init__(self, command, name):
        self.command = command
        self.name = name

    def read(self):
        command = self.command
        for name, n in command.left.items():
            if name != self.name and n > PIPE:
                raise command.hang()
        command.left[self.name] = 0
        return Output(self.name, command.written[self.name])

    def close(self):
        pass


class Command:
    """A command that writes on its pipes: it waits when these are full, and
    ends once everything is written"""

    sizes = {}
    code = 0

    def __init__(self, args=None, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self.returncode = None
        self.written = dict(self.sizes)
        self.left = {k: n for k, n in self.written.items()
                     if kwargs.get(k) == subprocess.PIPE}
        self.stdout = Pipe(self, 'stdout') if 'stdout' in self.left else None
        self.stderr = Pipe(self, 'stderr') if 'stderr' in self.left else None

    def hang(self):
        return subprocess.TimeoutExpired(self.args, 1)

    def end(self):
        self.returncode = self.code
        return self.returncode

    def poll(self):
        for n in self.left.values():
            if n > PIPE:
                return None
        return self.end()

    def wait(self, timeout=None):
        for n in self.left.values():
            if n > PIPE:
                raise self.hang()
        return self.end()

    def communicate(self, input=None, timeout=None):
        out = [Output(k, self.written[k]) if k in self.left else None
               for k in ('stdout', 'stderr')]
        self.left = {}
        self.end()
        return tuple(out)

    def kill(self):
        self.left = {}

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


class Done:
    """The future of a function that was run"""

    def __init__(self, value):
        self.value = value

    def done(self):
        return True

    def result(self, timeout=None):
        return self.value


@harness('C19', [dict(most=1 << 20)], [dict(most=1 << 40)])
def commands(sx, most):
    """A command ends with however much output, and fails with the output and
    code that it had"""
    sizes = {'stdout': sx.int('stdout', 0, most),
             'stderr': sx.int('stderr', 0, most)}
    code = sx.int('code', -15, 255)
    sx.patch(Command, 'sizes', sizes)
    sx.patch(Command, 'code', code)
    sx.patch(subprocess, 'Popen', Command)
    args = ['pdflatex', 'a.tex']
    try:
        result = run_command(timeout=100, args=args)
    except subprocess.TimeoutExpired:
        sx.fail('a command with much output does not end')
    sx.check_eq(list(result.args), args, 'the command that ran')
    sx.check_eq(result.returncode, code, 'the code of the command')
    sx.check_eq(result.stdout.name, 'stdout', 'the output of a command')
    sx.check_eq(result.stdout.n, sizes['stdout'], 'the output of a command')
    sx.check_eq(result.stderr.name, 'stderr', 'the errors of a command')
    sx.check_eq(result.stderr.n, sizes['stderr'], 'the errors of a command')
    future = Done(result)
    good = Builder.runtime_success(future=future)
    sx.check(sx.eq(bool(good), code == 0), 'a command succeeds with code 0')
    if not good:
        try:
            Builder.runtime_error(future=future)
        except BuildError as e:
            sx.check_eq(e.returncode, code, 'the code of the failed command')
            sx.check_eq(e.cmd, 'pdflatex a.tex', 'the failed command')
            sx.check(e.shell_out is result.stdout and
                     e.shell_err is result.stderr,
                     'the output of the failed command')
            return
        sx.fail('a failed command raises no error')
