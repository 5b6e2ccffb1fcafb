"""C10: (x)html rendering: allowed elements and attributes, text as text."""
from symex.api import harness, PRINT
from symex import util
from lxml import etree
from disseminate import settings
from disseminate.attributes import Attributes
from disseminate.formats import xhtml_tag, xhtml_entity, XHtmlFormatError
from disseminate.formats import xhtml
from disseminate.tags.tag import Tag

WRAP = frozenset(PRINT) - frozenset('@{}"\'-')


def walk(e):
    """[tag, attributes, [texts and elements]] of an element"""
    if isinstance(e, str):
        return e
    if not isinstance(e.tag, str):
        return ['entity', {}, [e.text]]
    out = []
    if e.text is not None and len(e.text):
        out.append(e.text)
    for c in e:
        out.append(walk(c))
        if c.tail is not None and len(c.tail):
            out.append(c.tail)
    return [e.tag, dict(e.items()), out]


TAGS = {'b': 'strong', 'i': 'i', 'sup': 'sup', 'sub': 'sub', 'verb': 'code',
        'p': 'p', 'unknown': 'span', 'marginnote': 'span'}


@harness('C10', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4), dict(n=5)])
def text(sx, n):
    """The text of a tag is the text of its element"""
    s = sx.str('s', n, WRAP)
    name = sx.choice('name', sorted(TAGS))
    fmt = sx.choice('fmt', ['html_fmt', 'xhtml_fmt'])
    ctx = util.context()
    src = 'p@' + name + '{' + s + '}q'
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    got = walk(getattr(tag, fmt)(level=2))
    attrs = {'class': tag.content[1].name if name != 'marginnote' else
             'sidenote'} if TAGS[name] == 'span' else {}
    sx.check_eq(got, ['span', {'class': 'root'}, [
        'p', [TAGS[name], attrs, [s]], 'q']],
        'element of the tag')
    sx.observe(got)


@harness('C10', [dict(a=1, b=1, c=1), dict(a=0, b=2, c=0),
                 dict(a=2, b=0, c=1)],
         [dict(a=2, b=2, c=1), dict(a=0, b=3, c=2), dict(a=1, b=1, c=2)])
def nested(sx, a, b, c):
    """Texts and elements are in the order of the source, at each level"""
    A = sx.str('a', a, WRAP)
    B = sx.str('b', b, WRAP)
    C = sx.str('c', c, WRAP)
    fmt = sx.choice('fmt', ['html_fmt', 'xhtml_fmt'])
    ctx = util.context()
    src = A + '@b{' + B + '@i{' + A + '}@sup{' + C + '}' + C + '}@x{' + \
        C + '@b{' + B + '}}' + B
    tag = Tag(name='root', content=src, attributes='', context=ctx)
    got = walk(getattr(tag, fmt)(level=2))

    def ts(*xs):
        return [x for x in xs if len(x)]
    want = ['span', {'class': 'root'}, ts(
        A, ['strong', {}, ts(B, ['i', {}, ts(A)], ['sup', {}, ts(C)], C)],
        ['span', {'class': 'x'}, ts(C, ['strong', {}, ts(B)])], B)]
    sx.check_eq(got, want, 'element of the tag')
    sx.observe(got)


@harness('C10', [dict(n=0), dict(n=1), dict(n=2)], [dict(n=3)])
def attributes(sx, n):
    """Only the attributes permitted for an element, with their values"""
    v = sx.str('v', n, frozenset(PRINT) - frozenset('"\']['))
    name = sx.choice('name', ['a', 'img', 'p', 'strong', 'figure', 'span',
                              'other', 'td', 'link'])
    key = sx.choice('key', ['class', 'id', 'href', 'src', 'style', 'width',
                            'rel', 'onclick', 'alt'])
    extra = sx.choice('extra', ['', 'href=u', 'src=u', 'rel=u', 'class=u'])
    target = sx.choice('target', [None, 'html'])
    suffix = sx.choice('suffix', ['', '.html', '.tex'])
    attrs = key + suffix + '="' + v + '"'
    if extra:
        if extra.startswith(key):
            extra = ''
        attrs = attrs + ' ' + extra
    fmt = sx.choice('method', ['html', 'xhtml'])
    reqs = settings.xhtml_tag_arguments.get(name, ())
    allowed = name in settings.xhtml_tag_optionals or \
        name in settings.xhtml_tag_arguments
    opts = settings.xhtml_tag_optionals.get(name if allowed else 'span', ())
    want = {}
    for k, x, s in ((key, v, suffix), (extra[:-2], 'u', '')):
        if len(k) and (k in reqs or k in opts):
            if s == '' or target is not None and '.' + target == s:
                want[k] = x
    if not allowed and 'class' not in want:
        want['class'] = name
    if suffix and target is None:
        # without a target, attributes of targets have no meaning
        sx.assume(False)
    missing = [r for r in reqs if r not in want]
    try:
        e = xhtml_tag(name, attributes=attrs, formatted_content='t', level=2,
                      target=target, method=fmt)
    except XHtmlFormatError:
        sx.check(len(missing) > 0, 'an error for missing attributes only')
        return
    sx.check(not missing, 'missing attributes are an error')
    got = walk(e)
    sx.check_eq(got[0], name if allowed else 'span', 'name of the element')
    sx.check(len(got[1]) == len(want) and sx.all(*[
        k in got[1] and sx.eq(got[1][k], want[k]) for k in want]),
        'attributes of the element', got=got[1], want=want)
    sx.check_eq(got[2], ['t'], 'contents of the element')
    sx.observe(got)


@harness('C10', [dict(n=1), dict(n=2)], [dict(n=3)])
def contents(sx, n):
    """Texts and elements given as contents: in order, empty ones skipped"""
    a = sx.str('a', (0, n), '<a&>')
    b = sx.str('b', (0, n), 'b"&;')
    level = sx.choice('fn', ['xhtml', 'html', 'xml'])
    fn = {'xhtml': xhtml_tag, 'html': xhtml.html_tag,
          'xml': xhtml.xml_tag}[level]
    inner = xhtml_tag('i', formatted_content=b, level=3)
    e = fn('p', formatted_content=[a, None, inner, '', b, a], level=2)
    got = walk(e)
    want = [x for x in (a, ['i', {}, [b] if len(b) else []]) if len(x)]
    if len(a) + len(b):
        want.append(b + a)
    sx.check_eq(got, ['p', {}, want], 'contents of the element')
    sx.observe(got)


@harness('C10', [dict(n=2), dict(n=3)], [dict(n=4)])
def markup(sx, n):
    """The markup of an element: text and values are escaped"""
    s = sx.str('s', n, '<&>a')
    v = sx.str('v', 1, '<&"a')
    method = sx.choice('method', ['html', 'xhtml'])
    a = Attributes()
    a['class'] = v
    got = str(xhtml_tag('p', attributes=a, formatted_content=[
        s, xhtml_tag('b', formatted_content=s, level=2)], method=method))
    if method == 'html':
        e = etree.HTML(got)[0][0]
    else:
        e = etree.XML(got)
    back = walk(e)
    sx.check_eq(back[:2] + back[2][:2], ['p', {'class': str(v)}, str(s), [
        'span', {'class': 'b'}, [str(s)]]],
        'the markup of the element, read again')
    sx.observe(got)


@harness('C10', [dict(n=1), dict(n=2)], [dict(n=3)])
def entity(sx, n):
    """A symbol is an entity reference of its name"""
    s = 'a' + sx.str('s', n, 'abcxyzABC19')
    method = sx.choice('method', ['html', 'xhtml'])
    e = xhtml_entity(' ' + s + ' ', level=2, method=method)
    sx.check_eq(e.text, '&' + s + ';', 'the entity reference')
    ctx = util.context()
    tag = Tag(name='root', content='x@symbol{' + s + '}y', attributes='',
              context=ctx)
    got = walk(tag.html_fmt(level=2))
    sx.check_eq(got, ['span', {'class': 'root'}, [
        'x', ['entity', {}, ['&' + s + ';']], 'y']], 'symbol in a text')
    sx.observe(got)
