"""C25: signals reach their receivers, in order; what reports of them list."""
import gc

from symex.api import harness
from disseminate.signals.exceptions import DuplicateSignal
from disseminate.signals.signals import Namespace, Signal
from disseminate.checkers import All, Any, Optional
from disseminate.checkers.types import SoftwareDependency
from disseminate.server.handlers.checkers import CheckerHandler
from disseminate.server.handlers.signals import SignalHandler
from disseminate.server.handlers.tree import TreeHandler
from disseminate.cli.setup import signals as cli_signals


def receiver(name, log, result, doc=None):
    def run(**kwargs):
        log.append((name, kwargs))
        return result
    run.__name__ = name
    run.__doc__ = doc
    return run


def connected(sx, signal, n, hows):
    """Connect receivers with any numbers: the list of numbers and receivers
    that were accepted, and the log of the calls"""
    log = []
    good = []
    kept = []
    for i in range(n):
        order = sx.int('order %d' % i, 7, 11)
        how = sx.choice('how %d' % i, hows)
        result = sx.int('result %d' % i, 0, 5)
        f = receiver('r%d' % i, log, result)
        kept.append((f, result))
        taken = sx.any(*[order == o for o, _ in good])
        try:
            if how == 'via':
                sx.check(signal.connect_via(order=order)(f) is f,
                         'a decorated receiver is the same function')
            else:
                signal.connect(f, order=order, weak=how == 'weak')
            sx.check(sx.neg(taken), 'a number is used by one receiver only')
            good.append((order, f))
        except DuplicateSignal:
            sx.check(taken, 'a receiver with a new number is connected')
    return good, log, kept


@harness('C25', [dict(n=2, hows=['weak', 'strong', 'via']),
                 dict(n=3, hows=['via'])], [dict(n=4, hows=['via'])])
def emit(sx, n, hows):
    """When a signal is sent each receiver runs once, in the order of their
    numbers, with the values sent; the results are in that order"""
    signal = Signal('test')
    good, log, kept = connected(sx, signal, n, hows)
    for turn in range(2):
        del log[:]
        value = sx.int('value %d' % turn, 0, 3)
        results = signal.emit(value=value, turn=turn)
        sx.check_eq(len(results), len(good), 'a result for each receiver')
        sx.check_eq(len(log), len(good), 'each receiver is run once')
        numbers = []
        for name, kwargs in log:
            found = [(o, f) for o, f in good if f.__name__ == name]
            sx.check(len(found) == 1, 'receivers are connected', name=name)
            numbers.append(found[0][0])
            sx.check(len(kwargs) == 2 and kwargs['turn'] == turn,
                     'the receiver has the values sent', kwargs=kwargs)
            sx.check_eq(kwargs['value'], value,
                        'the receiver has the values sent')
        sx.check(sx.all(*[a < b for a, b in zip(numbers, numbers[1:])]),
                 'receivers run in the order of their numbers',
                 numbers=numbers)
        for (name, _), result in zip(log, results):
            i = int(name[1:])
            sx.check_eq(result, kept[i][1],
                        'the results are in the order of the receivers')
    d = signal.receivers_dict()
    sx.check_eq(len(d), len(good), 'the map lists each receiver')
    for order, f in good:
        sx.check(d[order] is f, 'the map lists each receiver')
    signal.reset()
    sx.check_eq(signal.emit(value=1, turn=0), [], 'a reset signal is empty')


@harness('C25', [dict(n=3)])
def dead(sx, n):
    """Receivers that no longer exist are skipped, the others still run in
    their order"""
    signal = Signal('test')
    log = []
    kept = []
    alive = []
    for i in range(n):
        f = receiver('r%d' % i, log, i)
        weak = sx.choice('weak %d' % i, [True, False])
        keep = sx.choice('keep %d' % i, [True, False])
        signal.connect(f, order=10 * (n - i), weak=weak)
        if keep:
            kept.append(f)
        if keep or not weak:
            alive.insert(0, 'r%d' % i)
        f = None
    gc.collect()
    gc.collect()
    results = signal.emit()
    sx.check_eq([i[0] for i in log], alive, 'the receivers that exist run')
    sx.check_eq([r for r in results if r is not None],
                [int(a[1:]) for a in alive], 'their results')
    sx.check_eq([signal.receivers_dict()[k].__name__ for k in
                 sorted(signal.receivers_dict())], alive,
                'the map lists the receivers that exist')


@harness('C25', [dict(n=2), dict(n=3)])
def namespace(sx, n):
    """A name has one signal; the lists of signals have every signal with its
    receivers in their order"""
    space = Namespace()
    names = []
    made = {}
    log = []
    kept = []
    expected = {}
    for i in range(n):
        name = sx.choice('name %d' % i, ['a', 'b'])
        doc = sx.choice('doc %d' % i, [None, 'First\n    line.\n\n    Other'])
        s = space.signal(name, doc) if doc is not None else \
            space.signal(name)
        if name in made:
            sx.check(s is made[name], 'a name has one signal')
        else:
            sx.check(all(s is not m for m in made.values()),
                     'signals of different names differ')
            names.append(name)
            made[name] = s
        order = sx.int('order %d' % i, 1, 4)
        f = receiver('r%d' % i, log, i, 'Run %d.\n\nMore' % i)
        kept.append(f)
        try:
            s.connect(f, order=order)
            expected.setdefault(name, []).append((order, 'r%d' % i))
        except DuplicateSignal:
            pass
    listed = SignalHandler.signals_to_dict(None, signal_namespace=space)
    sx.check_eq([d['name'] for d in listed], names, 'every signal is listed')
    for d in listed:
        want = expected.get(d['name'], [])
        got = d['receivers']
        sx.check_eq(len(got), len(want), 'every receiver is listed')
        for r in got:
            o = [o for o, name in want if name == r['name']]
            sx.check(len(o) == 1, 'the receivers of the signal', name=r)
            sx.check_eq(r['order'], o[0], 'the number of a receiver')
            sx.check_eq(r['doc'], 'Run %s.' % r['name'][1:],
                        'the first line of the documentation')
        sx.check(sx.all(*[a['order'] < b['order']
                          for a, b in zip(got, got[1:])]),
                 'receivers are listed in order', got=got)
    lines = []
    sx.patch(cli_signals, 'print', lines.append)
    sx.patch(cli_signals, 'style', lambda text, **kw: text)
    cli_signals.print_signals(space)
    sx.check_eq(len(lines), len(names), 'every signal is printed')
    for line, name in zip(lines, names):
        for order, r in expected.get(name, []):
            sx.check(r in line, 'every receiver is printed', line=line)


class Doc:
    def __init__(self, title, subs, targets, base):
        self.title = title
        self.targets = {t: base + t for t in targets}
        self.project_root = '/p'
        self.src_filepath = self
        self.subdocuments = subs

    def stat(self):
        self.st_mtime = 0.0
        return self

    def target_filepath(self, target):
        return self.targets[target]


def tree_docs(sx, n, label, level=1):
    out = []
    if n == 0:
        return out
    for i in range(sx.int('%s count' % label, 0 if level > 1 else 1, n)):
        name = '%s.%d' % (label, i)
        subs = tree_docs(sx, n - 1, name, level + 1) if \
            sx.choice('%s has' % name, [True, False]) else None
        targets = sx.choice('%s targets' % name,
                            [[], ['.html'], ['.pdf', '.html']])
        out.append(Doc(name, subs if subs is None
                       else dict(enumerate(subs)), targets, name))
    return out


@harness('C25', [dict(n=2)])
def tree(sx, n):
    """The tree of documents has each document once, below the document that
    includes it, with its targets"""
    docs = tree_docs(sx, n, 'd')

    def compare(listed, docs, level):
        sx.check_eq(len(listed), len(docs), 'every document is listed')
        for d, doc in zip(listed, docs):
            sx.check_eq(d['title'], doc.title, 'documents are in order')
            sx.check_eq(d['level'], level, 'the level of a document')
            sx.check_eq(d['targets'], doc.targets, 'targets have their files')
            sx.check(d['src_filepath'] is doc, 'the source of a document')
            if doc.subdocuments is None:
                sx.check(not d.get('subdocs'), 'no other documents')
            else:
                compare(d['subdocs'], list(doc.subdocuments.values()),
                        level + 1)

    handler = TreeHandler.__new__(TreeHandler)
    compare(TreeHandler.tree_to_dict(handler, docs), docs, 1)


def checker(sx, n, label, wide=True):
    kinds = ['leaf'] if n == 0 else ['leaf', 'all', 'any', 'optional']
    kind = sx.choice(label + ' kind', kinds)
    if kind == 'leaf':
        item = SoftwareDependency(label)
        item.available = sx.choice(label + ' available', [True, False, None])
        return item
    cls = dict(all=All, any=Any, optional=Optional)[kind]
    return cls(label, *[checker(sx, n - 1 if wide or i == 0 else 0,
                                '%s.%d' % (label, i), wide)
                        for i in range(2)])


@harness('C25', [dict(n=1, wide=True), dict(n=2, wide=False)],
         [dict(n=2, wide=True), dict(n=3, wide=False)])
def dependencies(sx, n, wide):
    """The list of dependencies has each of them with its state: missing ones
    are failures only where they are required"""
    item = checker(sx, n, 'c', wide)
    handler = CheckerHandler.__new__(CheckerHandler)

    def compare(d, item, required, level):
        sx.check_eq(d['level'], level, 'the level of a dependency')
        state = {True: 'ok', None: 'unknown',
                 False: 'fail' if required else 'missing'}[item.available]
        sx.check_eq(d['status'], state, 'the state of a dependency')
        name = item.category if isinstance(item, (All, Any, Optional)) \
            else item.name
        sx.check_eq(d['name'], name, 'the name of a dependency')
        sx.check(name in d['msg'], 'the text has the name')
        items = list(item) if isinstance(item, (All, Any, Optional)) else []
        sx.check_eq(len(d.get('subcheckers', [])), len(items),
                    'every dependency is listed')
        for s, i in zip(d.get('subcheckers', []), items):
            compare(s, i, isinstance(item, All), level + 1)

    compare(CheckerHandler.checker_to_dict(handler, item), item, True, 1)
