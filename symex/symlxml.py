"""Model of the part of lxml used to build elements. Elements are created as
model elements during symbolic execution, so that texts and attribute values
may be symbolic; serialisation is done by lxml itself, with concrete values.
The model is validated against lxml on every run (observed values of sampled
paths are compared with a run of the unmodified code)."""
import lxml.builder
import lxml.etree as etree

from . import core
from .symstr import SymStr, is_str, concretise

Comment = etree.Comment


def _bad(c):
    o = ord(c)
    return o < 32 and c not in '\t\n\r' or 0xd800 <= o < 0xe000 or \
        o in (0xfffe, 0xffff)


def check_text(s):
    """lxml refuses texts which cannot be in an XML document"""
    if type(s) is SymStr:
        for c in s:
            if type(c) is SymStr:
                from .symstr import ch_is
                if ch_is(c.chars[0], '_xmlbad', _bad):
                    raise ValueError('All strings must be XML compatible')
            elif _bad(c):
                raise ValueError('All strings must be XML compatible')
    elif any(_bad(c) for c in s):
        raise ValueError('All strings must be XML compatible: Unicode or '
                         'ASCII, no NULL bytes or control characters')


class Attrib(dict):
    pass


class MElement:
    def __init__(self, tag, nsmap=None):
        self.tag = tag
        self.nsmap = nsmap
        self.attrib = {}
        self._text = None
        self._tail = None
        self.children = []
        self.parent = None

    def _set_text(self, v):
        if v is not None:
            check_text(v)
        self._text = v

    def _set_tail(self, v):
        if v is not None:
            check_text(v)
        self._tail = v

    text = property(lambda self: self._text, _set_text)
    tail = property(lambda self: self._tail, _set_tail)

    def set(self, k, v):
        if not is_str(v):
            raise TypeError('Argument must be bytes or unicode')
        check_text(v)
        if type(k) is SymStr:
            k = concretise(k, 'lxml attribute name')
        # the name is checked by lxml
        etree.Element('a').set(k, 'x')
        self.attrib[k] = v

    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib)

    def append(self, e):
        if not isinstance(e, MElement):
            e = model(e)
        if e.parent is not None:
            e.parent.children = [x for x in e.parent.children if x is not e]
        e.parent = self
        self.children.append(e)

    def extend(self, es):
        for e in es:
            self.append(e)

    def remove(self, e):
        self.children = [x for x in self.children if x is not e]
        e.parent = None

    def getparent(self):
        return self.parent

    def getchildren(self):
        return list(self.children)

    def __iter__(self):
        return iter(list(self.children))

    def __len__(self):
        return len(self.children)

    def __bool__(self):
        return len(self.children) > 0

    def __getitem__(self, i):
        return self.children[i]

    def iter(self):
        yield self
        for c in self.children:
            yield from c.iter()


class MEntity(MElement):
    """An entity reference: tag is etree.Entity, text is &name;"""

    def __init__(self, name):
        MElement.__init__(self, etree.Entity)
        self.name = name
        self._text = '&' + name + ';'


def model(e):
    """Model element of a real one"""
    if isinstance(e, MElement):
        return e
    if isinstance(e, etree._Entity):
        m = MEntity(e.name)
        m._tail = e.tail
        return m
    m = MElement(e.tag)
    m.nsmap = dict(e.nsmap)
    m._text, m._tail = e.text, e.tail
    for k, v in e.items():
        m.attrib[k] = v
    for c in e:
        m.append(model(c))
    return m


def conc(s):
    return concretise(s, 'lxml.etree.tostring') if type(s) is SymStr else s


def real(m):
    """Real element of a model one"""
    if not isinstance(m, MElement):
        return m
    if isinstance(m, MEntity):
        e = etree.Entity(conc(m.name))
    else:
        e = etree.Element(m.tag, nsmap=m.nsmap)
        e.text = conc(m.text)
    e.tail = conc(m.tail)
    for k, v in m.attrib.items():
        e.set(k, conc(v))
    for c in m.children:
        e.append(real(c))
    return e


class Maker:
    def __init__(self, namespace=None, nsmap=None, **kw):
        self.nsmap = nsmap
        self.namespace = namespace

    def __call__(self, tag, *children, **attrib):
        if type(tag) is SymStr:
            tag = concretise(tag, 'lxml element name')
        if self.namespace is not None and tag[:1] != '{':
            tag = '{%s}%s' % (self.namespace, tag)
        etree.Element(tag)      # the name is checked by lxml
        e = MElement(tag, self.nsmap)
        for k, v in attrib.items():
            e.set(k, v)
        for c in children:
            add(e, c)
        return e

    def __getattr__(self, tag):
        if tag[:1] == '_':
            raise AttributeError(tag)
        return lambda *a, **kw: self(tag, *a, **kw)


def add(e, c):
    if callable(c):
        c = c()
    if is_str(c):
        check_text(c)
        if len(e.children):
            last = e.children[-1]
            last._tail = (last._tail or '') + c
        else:
            e._text = (e._text or '') + c
    elif isinstance(c, MElement) or isinstance(c, etree._Element):
        e.append(c)
    elif isinstance(c, dict):
        for k, v in c.items():
            e.set(k, v)
    else:
        raise TypeError('bad argument type: %s(%r)' % (
            type(c).__name__, '...'))


def m_entity(name):
    if type(name) is SymStr:
        name = concretise(name, 'lxml entity name')
    etree.Entity(name)      # checks the name
    return MEntity(name)


def m_element(tag, attrib=None, nsmap=None, **kw):
    return Maker(nsmap=nsmap)(tag, **dict(attrib or {}, **kw))


def m_subelement(parent, tag, attrib=None, nsmap=None, **kw):
    e = m_element(tag, attrib, nsmap, **kw)
    parent.append(e)
    return e


def m_tostring(e, **kw):
    return etree.tostring(real(e), **kw)


def m_fromstring(s, *a, **kw):
    return model(etree.fromstring(conc(s), *a, **kw))


def models():
    out = {lxml.builder.E: Maker(), lxml.builder.ElementMaker: Maker,
           etree.Entity: m_entity, etree.Element: m_element,
           etree.SubElement: m_subelement, etree.tostring: m_tostring,
           etree.fromstring: m_fromstring, etree.XML: m_fromstring}
    return out
