"""C06: contexts: typed updates, inheritance and reset."""
from symex.api import harness
from disseminate.context import BaseContext
from disseminate.utils.string import str_to_list, str_to_dict

KINDS = ['missing', 'list', 'dict', 'true', 'false', 'int', 'float', 'str']


def original(kind):
    return {'missing': None, 'list': ['x', 'y'], 'dict': {'p': 'q', 'a': ['z']},
            'true': True, 'false': False, 'int': 7, 'float': 2.5,
            'str': 'orig'}[kind]


def same(sx, a, b):
    if type(a) is bool or type(b) is bool:
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        return type(a) == type(b) and a == b
    return sx.eq(a, b)


def as_int(s):
    """The int of a text of digits, blanks and a sign; None otherwise"""
    t = s.strip()
    if t[:1] == '-' or t[:1] == '+':
        body = t[1:]
    else:
        body = t
    if len(body) == 0:
        return None
    v = 0
    for c in body:
        if not c.isdigit():
            return None
        v = v * 10 + '0123456789'.index(c)
    return -v if t[:1] == '-' else v


@harness('C06', [dict(n=1), dict(n=2), dict(n=3)],
         [dict(n=4), dict(n=5)])
def update_text(sx, n):
    """An entry updated with a text keeps its type"""
    kind = sx.choice('kind', KINDS)
    v = sx.str('v', n, '12 -ab,;\n')
    overwrite = sx.choice('overwrite', [True, False])
    c = BaseContext()
    if kind != 'missing':
        c['k'] = original(kind)
    c['other'] = 'kept'
    c.match_update({'k': v}, overwrite=overwrite)
    if kind == 'missing':
        want = v
    elif not overwrite:
        want = original(kind)
    elif kind == 'list':
        want = str_to_list(v) + ['x', 'y']
    elif kind == 'int':
        want = as_int(v)
        if want is None:
            want = 7
    elif kind == 'str':
        want = v
    elif kind in ('true', 'false'):
        want = original(kind)
    elif kind == 'float':
        got = c['k']
        sx.check(isinstance(got, float), 'the type of the entry is kept')
        sx.check(as_int(v) is None or got == as_int(v),
                 'number read from the text')
        want = got
    else:
        want = dict(original('dict'))
        for k, x in str_to_dict(v).items():
            if k == 'a':
                want[k] = str_to_list(x) + ['z']
            else:
                want[k] = x
    sx.check(same(sx, c['k'], want), 'the updated entry', got=c['k'],
             want=want)
    sx.check_eq(c['other'], 'kept', 'other entries are kept')
    sx.observe(c['k'])


@harness('C06', [dict(n=4), dict(n=5)], [dict(n=6)])
def update_bool(sx, n):
    """A bool entry changes only for the texts true and false"""
    old = sx.choice('old', [True, False])
    v = sx.str('v', n, 'trueFALSEfalsTRU ')
    c = BaseContext()
    c['k'] = old
    c.match_update({'k': v})
    t = v.strip().lower()
    want = True if t == 'true' else False if t == 'false' else old
    sx.check(c['k'] is want, 'value of the bool entry')
    sx.observe(c['k'])


def values(sx, name, n):
    kind = sx.choice(name + 'kind', KINDS[1:])
    v = sx.str(name, n, 'abc')
    if kind == 'list':
        return [v, 'l']
    if kind == 'dict':
        return {v: 'e', 'd': [v]}
    if kind == 'str':
        return v
    if kind == 'int':
        return sx.int(name + 'i', -3, 3)
    return original(kind)


@harness('C06', [dict(n=1)], [dict(n=2)])
def update_values(sx, n):
    """An entry updated with a value of any type keeps its own type"""
    old = values(sx, 'old', n)
    new = values(sx, 'new', n)
    c = BaseContext()
    c['k'] = copy_of(old)
    before = copy_of(new)
    lists = isinstance(old, list)
    try:
        c.match_update({'k': new})
    except (TypeError, ValueError):
        # a mapping cannot be made of other values
        sx.check(isinstance(old, dict) and not isinstance(new, (dict, str)) or
                 lists and not isinstance(new, (list, dict, str)),
                 'values that fit are taken')
        return
    got = c['k']
    if isinstance(old, bool):
        want = new if isinstance(new, bool) else old
        if isinstance(new, str) and new.lower() in ('true', 'false'):
            return
    elif isinstance(old, list):
        want = (list(new) if not isinstance(new, str) else [new]) + old
    elif isinstance(old, dict):
        if not isinstance(new, dict):
            return
        want = dict(old)
        for k in new:
            if k not in old:
                want[k] = new[k]
            elif isinstance(old[k], list):
                x = new[k]
                want[k] = (x if isinstance(x, list) else [x]) + old[k]
            elif isinstance(new[k], str):
                want[k] = new[k]
    elif isinstance(old, str):
        want = new if isinstance(new, str) else old
    elif isinstance(old, float):
        want = float(new) if isinstance(new, (int, float)) else old
    else:
        want = int(new) if isinstance(new, (int, float)) else old
    sx.check(same(sx, got, want), 'the updated entry', got=got, want=want)
    sx.check(same(sx, new, before), 'the new value itself is not changed')
    sx.observe(got)


def copy_of(v):
    if isinstance(v, list):
        return [copy_of(x) for x in v]
    if isinstance(v, dict):
        return {k: copy_of(x) for k, x in v.items()}
    return v


class Child(BaseContext):
    do_not_inherit = {'own', 'a'}
    exclude_from_reset = {'keep', 'b'}


class GrandChild(Child):
    do_not_inherit = {'c'}
    replace = {'r'}


@harness('C06', [dict(n=1)], [dict(n=2)])
def inherit(sx, n):
    """A child starts with the entries of the parent, apart from those not to
    inherit, updated with its own; its changes never reach the parent, and
    reset brings back the start"""
    cls = sx.choice('cls', [BaseContext, Child, GrandChild])
    banned = {'own', 'a'} if cls is Child else \
        {'own', 'a', 'c'} if cls is GrandChild else set()
    key = sx.str('key', n, 'abcd')
    v1 = sx.str('v1', 1, 'xy')
    v2 = sx.str('v2', 1, 'xy')
    kind = sx.choice('kind', ['list', 'dict', 'str'])

    def make(v):
        return {'list': [v], 'dict': {'e' + v: 'f'}, 'str': v}[kind]
    parent = BaseContext()
    parent[key] = make(v1)
    parent['fixed'] = [v1]
    own = sx.choice('own', ['none', 'same', 'other'])
    kwargs = {}
    if own == 'same':
        kwargs[str(key)] = make(v2)
    elif own == 'other':
        kwargs['zz'] = make(v2)
    child = cls(parent_context=parent, **kwargs)
    inherited = key not in banned
    want = {}
    if inherited:
        want[key] = make(v1)
    want['fixed'] = [v1]
    if own == 'other':
        want['zz'] = make(v2)
    elif own == 'same':
        if not inherited or kind == 'str':
            want[key] = make(v2)
        elif kind == 'list':
            want[key] = [v2, v1]
        elif kind == 'dict':
            want[key] = make(v1)
            for k, x in make(v2).items():
                want[key][k] = x
    check_same(sx, child, want, 'entries at the start')
    # changes of the child
    for k in list(child.keys()):
        x = child[k]
        if isinstance(x, list):
            x.append('changed')
        elif isinstance(x, dict):
            x['changed'] = 'x'
        else:
            child[k] = 'changed'
    child['new'] = 'n'
    sx.check_eq(parent[key], make(v1), 'the parent is not changed')
    sx.check_eq(parent['fixed'], [v1], 'the parent is not changed')
    sx.check(len(parent.keys()) == 2, 'the parent has no new entries')
    kept = key in child.keys() and cls is not BaseContext and key == 'b'
    child.reset()
    sx.check('new' not in child, 'reset removes new entries')
    if not kept:
        check_same(sx, child, want, 'entries after reset')
    sx.observe(list(child.values()))


def check_same(sx, c, want, msg):
    sx.check(len(c.keys()) == len(want), msg + ': count', got=dict(c),
             want=want)
    for k, v in want.items():
        sx.check(k in c and same(sx, c[k], v), msg, key=k, got=dict(c))


class Replacing(BaseContext):
    replace = {'a'}


@harness('C06', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4)])
def replaced(sx, n):
    """Entries which replace those of the parent"""
    key = sx.str('key', 1, 'ab')
    text = sx.str('v', n, 'xy,')
    parent = BaseContext()
    parent[key] = ['p', 'q']
    c = Replacing(parent_context=parent)
    c.match_update({key: text})
    want = str_to_list(text) + ([] if key == 'a' else ['p', 'q'])
    sx.check_eq(c[key], want, 'list after the update')
    sx.check_eq(parent[key], ['p', 'q'], 'the parent is not changed')
    sx.observe(c[key])


def same_entry(sx, a, b, msg):
    sx.check(type(a) is type(b), msg + ': type')
    if isinstance(a, set):
        a, b = sorted(a), sorted(b)
    sx.check_eq(a, b, msg)


@harness('C06', [dict(n=1)], [dict(n=2)])
def own_copies(sx, n):
    """A context has its own copies of all mutable entries, empty ones
    included: neither its parent, nor its sibling, nor its initial values,
    nor the values it was updated with see its changes"""
    kind = sx.choice('kind', ['list', 'dict', 'set'])
    size = sx.choice('size', [0, 1])
    v = sx.choice('v', ['x', 'y' * n])
    way = sx.choice('way', ['parent', 'initial', 'update', 'grandparent',
                            'filter'])
    name = sx.choice('name', ['k', '_k'])

    def make():
        if kind == 'list':
            return [v] * size
        if kind == 'dict':
            return {v: 'e'} if size else {}
        return {v} if size else set()
    value = make()
    sibling = BaseContext()
    if way in ('parent', 'grandparent'):
        top = BaseContext()
        top[name] = value
        mid = BaseContext(parent_context=top)
        sibling = BaseContext(parent_context=mid)
        c = BaseContext(parent_context=mid if way == 'grandparent' else top)
    elif way == 'initial':
        c = BaseContext(**{name: value})
    elif way == 'update':
        c = BaseContext()
        c.match_update({name: value})
        sibling.match_update({name: value})
    else:
        full = BaseContext()
        full[name] = value
        full['other'] = 'o'
        c = full.filter([name, 'none'])
        sibling = full.filter([name])
        sx.check(len(c.keys()) == 1, 'entries of the filtered context')
    same_entry(sx, c[name], make(), 'the entry at the start')

    def change(x, y):
        if kind == 'list':
            x.append(y)
        elif kind == 'dict':
            x[y] = y
        else:
            x.add(y)
    change(c[name], 'changed')
    same_entry(sx, value, make(), 'the value itself is not changed')
    if name in sibling:
        same_entry(sx, sibling[name], make(), 'other contexts are not changed')
    if way in ('parent', 'grandparent', 'initial'):
        c['_new'] = 'n'
        c.reset()
        same_entry(sx, c[name], make(), 'the entry after reset')
        sx.check('_new' not in c, 'new entries are removed by reset')
    if way == 'parent':
        change(top[name], 'later')
        same_entry(sx, c[name], make(), 'later changes of the parent are seen '
                    'after a reset only')
        c.reset()
        same_entry(sx, c[name], top[name], 'changes of the parent after a reset')
    sx.observe(sorted(c[name]))


class Replaces(BaseContext):
    replace = {'k'}


@harness('C06', [dict(n=1)], [dict(n=2)])
def replaced_values(sx, n):
    """Entries to replace have the new items only; no items when the update
    has none. Those of other entries are joined"""
    kind = sx.choice('kind', ['list', 'dict', 'set'])
    cls = sx.choice('cls', [BaseContext, Replaces])
    old = [sx.choice('o%d' % i, ['a', 'b' * n]) for i in range(sx.choice('no',
                                                               [0, 1, 2]))]
    new = [sx.choice('n%d' % i, ['a', 'c' * n]) for i in range(sx.choice('nn',
                                                               [0, 1, 2]))]

    def make(items):
        if kind == 'list':
            return list(items)
        if kind == 'dict':
            return {x: 'e' for x in items}
        return {x for x in items}
    parent = BaseContext()
    parent['k'] = make(old)
    c = cls(parent_context=parent)
    value = make(new)
    if kind != 'dict' and new and sx.choice('text', [False, True]):
        value = ', '.join(new)
    c.match_update({'k': value})
    if kind == 'list' or cls is Replaces:
        want = make(new + (old if cls is BaseContext else []))
    else:
        want = make(old + new)
    same_entry(sx, c['k'], want, 'the entry after the update')
    same_entry(sx, parent['k'], make(old), 'the parent is not changed')
    sx.observe(sorted(c['k']))


@harness('C06', [dict(n=2)], [dict(n=3)])
def depth(sx, n):
    """Entries are joined at each level down to the largest depth, and
    a deeper update is refused"""
    from disseminate import settings
    from disseminate.context.context import ContextException
    levels = sx.int('levels', 1, settings.context_max_depth + 1)
    v = sx.str('v', n, 'ab')
    old, new, want = {'x': ['o']}, {'x': [v], 'y': v}, {'x': [v, 'o'], 'y': v}
    for i in range(int(levels) - 1):
        old, new, want = {'d': old, 'o': i}, {'d': new}, {'d': want, 'o': i}
    c = BaseContext(**old)
    try:
        c.match_update(new)
    except ContextException:
        sx.check(levels >= settings.context_max_depth,
                 'contexts within the depth are updated', levels=int(levels))
        return
    sx.check(levels < settings.context_max_depth,
             'contexts beyond the depth are refused')
    sx.check_eq(dict(c), want, 'the updated entries')
    sx.observe(dict(c))


@harness('C06', [dict(n=1)], [dict(n=2)])
def valid(sx, n):
    """A context is valid when all entries asked for are there (unless they
    may be missing) and have their types"""
    class Typed(BaseContext):
        validation_types = {'a': str, 'b': int, 'c': list}
    right = {'a': 's', 'b': 3, 'c': ['x']}
    wrong = {'a': 3, 'b': 's', 'c': 's'}
    state = {}
    c = Typed()
    for k in 'abc':
        state[k] = sx.choice(k, ['right', 'wrong', 'missing'])
        if state[k] == 'right':
            c[k] = right[k]
        elif state[k] == 'wrong':
            c[k] = wrong[k]
    must = sx.choice('must', [True, False])
    keys = [sx.str('key%d' % i, n, 'abcd')
            for i in range(sx.choice('nk', [0, 1, 2]))]
    got = c.is_valid(*keys, must_exist=must)
    ok = True
    for k in (keys or ['a', 'b', 'c']):
        s = state.get(str(k), 'unknown')
        if s == 'wrong' or must and s in ('missing', 'unknown'):
            ok = False
    sx.check(got is ok, 'whether the context is valid', got=got)
    sx.observe(got)


@harness('C06', [dict(n=1)], [dict(n=2)])
def loaded(sx, n):
    """The header of a text is loaded, over the existing entries or not, and
    removed or kept; without a header the text is itself read as entries"""
    v = sx.str('v', n, 'ab1')
    over = sx.choice('overwrite', [True, False])
    strip = sx.choice('strip', [True, False])
    key = sx.choice('key', ['k', 'l', 'new'])
    body = sx.choice('body', ['', 'text\n', 'a: b'])
    c = BaseContext(k='old', l=['x'])
    text = '---\n' + key + ': ' + v + '\n---\n' + body
    got = c.load(text, strip_header=strip, overwrite=over)
    want = {'k': 'old', 'l': ['x']}
    if key == 'new':
        want['new'] = v
    elif over:
        want[key] = v if key == 'k' else [v, 'x']
    check_same(sx, c, want, 'entries after loading')
    sx.check_eq(got, body if strip else text, 'the text after loading')
    sx.observe(got)


@harness('C06', [dict(n=1)], [dict(n=2)])
def tag_entries(sx, n):
    """Tags of a context: copies with the new context, updated with tags or
    with texts, which become the content of a tag of the same type"""
    from disseminate.tags import Tag
    from disseminate.tags.text import Bold
    cls = sx.choice('cls', [Tag, Bold])
    v = sx.str('v', n, 'ab')
    parent = BaseContext()
    parent['k'] = cls(name='t', content='old', attributes='', context=parent)
    c = BaseContext(parent_context=parent)
    sx.check(c['k'] is not parent['k'] and c['k'].context is c and
             type(c['k']) is cls, 'the tag is copied for the context')
    sx.check(parent['k'].context is parent, 'context of the tag of the parent')
    kind = sx.choice('kind', ['text', 'tag', 'list'])
    other = Bold(name='o', content=v, attributes='', context=parent)
    if kind == 'text':
        c.match_update({'k': v})
        want, want_cls = v, cls
    elif kind == 'tag':
        c.match_update({'k': other})
        sx.check(c['k'] is not other, 'the new tag is copied')
        want, want_cls = v, Bold
    else:
        c.match_update({'k': [v]})
        want, want_cls = 'old', cls
    sx.check_eq(c['k'].content, want, 'content of the tag')
    sx.check(type(c['k']) is want_cls, 'type of the tag')
    sx.check(c['k'].context is c, 'context of the tag')
    sx.check(other.context is parent, 'context of the other tag')
    sx.check_eq(parent['k'].content, 'old', 'the tag of the parent')
    sx.observe(c['k'].content)
