"""C23: dependencies are reported as they are installed."""
import shutil
import subprocess

from symex.api import harness
from disseminate.checkers import checker as checker_module
from disseminate.checkers import (Checker, PythonChecker, PdfChecker, All,
                                  Any, Optional)
from disseminate.checkers import python as python_module
from disseminate.checkers.types import (SoftwareDependency,
                                        SoftwareDependencyList)

KINDS = {'all': All, 'any': Any, 'optional': Optional}
OPS = ['', '==', '>=', '<=', '>', '<', '!=']


def installed(sx, text):
    """Stand-in of pip"""
    sx.patch(python_module.subprocess, 'check_output',
             lambda *a, **kw: text.encode('utf-8'))


def compare(op, a, b):
    """Compare two versions, which are lists of numbers"""
    n = max(len(a), len(b))
    a = list(a) + [0] * (n - len(a))
    b = list(b) + [0] * (n - len(b))
    lt = gt = False
    for x, y in zip(a, b):
        if x < y:
            lt = True
            break
        if x > y:
            gt = True
            break
    return {'==': not lt and not gt, '!=': lt or gt, '<': lt, '>': gt,
            '<=': not gt, '>=': not lt}[op]


def version(sx, key, digits):
    """A version with numbers of the given digits"""
    parts = [sx.str('%s %d' % (key, i), n, '0129')
             for i, n in enumerate(digits)]
    return '.'.join(parts), [int(p) for p in parts]


@harness('C23', [dict(a=(1, 1), b=(1, 1)), dict(a=(1,), b=(1, 1)),
                 dict(a=(1, 1), b=(1,)), dict(a=(2,), b=(1,)),
                 dict(a=(1,), b=(2,))],
         [dict(a=(1, 1), b=(1, 1)), dict(a=(1, 2), b=(1, 1)),
          dict(a=(1, 1), b=(1, 2)), dict(a=(1, 1, 1), b=(1, 1)),
          dict(a=(1, 1), b=(1, 1, 1)), dict(a=(3,), b=(2,))])
def versions(sx, a, b):
    """A package is available if its version satisfies the condition"""
    op = sx.choice('op', OPS[1:])
    space = sx.choice('space', ['', ' '])
    suffix = sx.choice('suffix', ['', '.post1', 'rc1', '.dev0'])
    need, need_nums = version(sx, 'need', a)
    have, have_nums = version(sx, 'have', b)
    installed(sx, 'other==1.0\nname==' + have + suffix + '\nzz==9\n')
    deps = All('python', All('packages', 'Name' + space + op + space + need))
    c = PythonChecker(deps)
    c.check_packages()
    want = compare(op, have_nums, need_nums)
    got = c['packages'][0].available is True
    sx.check_eq(got, want, 'the package is available')
    sx.check_eq(c.available, want, 'the packages are available')
    sx.observe(got)


@harness('C23', [dict(n=1, m=2), dict(n=2, m=1)],
         [dict(n=2, m=2), dict(n=1, m=3)])
def names(sx, n, m):
    """A package is available if one with its name is installed"""
    need = sx.str('need', n, 'ab1', tail='ab1-_.')
    have = [sx.str('have %d' % i, k, 'abA1', tail='abA1-_.')
            for i, k in enumerate((m, n))]
    for s in have + [need]:
        # names end with letters or digits
        sx.assume(s[-1] not in '-_.')
    ver = sx.choice('version', ['', '>=1.0'])
    installed(sx, ''.join([h + '==1.2\n' for h in have]))
    deps = All('python', All('packages', need + ver))
    c = PythonChecker(deps)
    c.check_packages()
    got = c['packages'][0].available is True
    want = sx.any(*[sx.eq(h.lower(), need.lower()) for h in have])
    sx.check_eq(got, want, 'the package is available')
    sx.observe(got)


def leaves_of(tree):
    if isinstance(tree, str):
        return [tree]
    return [x for t in tree[1] for x in leaves_of(t)]


def deps_of(sx, tree, key=''):
    """Dependencies of a tree, with symbolic kinds of the nodes"""
    if isinstance(tree, str):
        return tree, (lambda have: have[tree])
    kind = sx.choice('kind ' + tree[0], sorted(KINDS))
    sub = [deps_of(sx, t) for t in tree[1]]
    dep = KINDS[kind](tree[0], *[d for d, f in sub])

    def available(have):
        xs = [f(have) for d, f in sub]
        return (all(xs) if kind == 'all' else any(xs) if kind == 'any'
                else True)
    return dep, available


TREES = {'flat': ('executables', ['a', 'b', 'c']),
         'two': ('executables', ['a', ('x', ['b', 'c'])]),
         'deep': ('executables', [('x', ['a', ('y', ['b'])]), 'c']),
         'empty': ('executables', [('x', [])]),
         'wide': ('executables', ['a', 'b', 'c', 'd', 'e', 'f', 'g'])}


@harness('C23', [dict(trees=['flat', 'two', 'deep', 'empty'])],
         [dict(trees=['flat', 'two', 'deep', 'empty', 'wide'])])
def executables(sx, trees):
    """Executables are those on the path; lists need all, any or none"""
    tree = TREES[sx.choice('tree', trees)]
    have = {x: sx.bool(x) for x in leaves_of(tree)}
    sx.patch(checker_module.shutil, 'which',
             lambda name: '/bin/' + name if have[name] else None)
    dep, available = deps_of(sx, tree)
    c = Checker('test', dep)
    got = c.check()
    want = available({k: bool(v) for k, v in have.items()})
    sx.check_eq(got, want, 'the dependencies are available')
    for level, item in c.flatten():
        if isinstance(item, SoftwareDependency):
            sx.check_eq(item.available, bool(have[item.name]),
                        'an executable is available')
            sx.check_eq(item.path, '/bin/' + item.name if have[item.name]
                        else None, 'path of an executable')
    names = [i.name for level, i in c.flatten()
             if isinstance(i, SoftwareDependency)]
    sx.check_eq(names, leaves_of(tree), 'all dependencies are listed')
    sx.observe(got)


@harness('C23', [dict(n=3), dict(n=6)], [dict(n=8), dict(n=11)])
def latex(sx, n):
    """Packages, fonts and classes of latex are those which kpsewhich finds"""
    what = sx.choice('what', ['packages', 'fonts', 'classes'])
    ext = {'packages': '.sty', 'fonts': '.tfm', 'classes': '.cls'}[what]
    items = ['p%d' % i for i in range(n)]
    have = {x + ext: sx.bool(x) for x in items}
    ran = []

    class Process:
        def __init__(self, args, **kw):
            self.name = args[1]
            ran.append(args)

        def communicate(self):
            return b'', b''

        @property
        def returncode(self):
            return 0 if have[self.name] else 1

        def wait(self, *a, **kw):
            return self.returncode

    sx.patch(subprocess, 'Popen', Process)
    sx.patch(checker_module.shutil, 'which', lambda name: '/bin/' + name)
    nested = sx.choice('nested', [False, True])
    dep = (All(what, items[0], Any('sub', *items[1:])) if nested
           else All(what, *items))
    c = PdfChecker(All('pdf', dep))
    got = c.check()
    xs = [bool(have[x + ext]) for x in items]
    sx.check_eq(got, xs[0] and any(xs[1:]) if nested else all(xs),
                'the dependencies are available')
    found = [i.available for level, i in c.flatten()
             if isinstance(i, SoftwareDependency)]
    sx.check_eq(found, xs, 'what is available')
    sx.check_eq(sorted([a[1] for a in ran]), sorted(have),
                'each one is looked for')
    sx.observe(found)
