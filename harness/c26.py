"""C26: what is put in the pages that are made with the templates."""
import jinja2
import markupsafe
from markupsafe import Markup

from symex import rt
from symex.api import harness
from disseminate.builders.jinja_render import JinjaRender
from disseminate.context import BaseContext
from disseminate.paths import TargetPath

STDLIB = ('pathlib', 'posixpath')


def escape(s):
    """A model of markupsafe.escape for texts"""
    for a, b in (('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;'),
                 ("'", '&#39;'), ('"', '&#34;')):
        s = s.replace(a, b)
    return s


def escape_model(s):
    if rt.is_sym(s):
        return escape(s)
    return s.__html__() if hasattr(s, '__html__') else escape(str(s))


def default_model(value, default_value='', boolean=False):
    if isinstance(value, jinja2.Undefined) or (boolean and not value):
        return default_value
    return value


def compile_template(self, source, filename):
    """Templates are compiled to python by jinja: the python is executed
    symbolically"""
    from symex import xform
    return xform.transform_source('import symex.rt as _sx_rt\n' + source,
                                  filename, 'jinja', cover=False)


def new_context(self, vars=None, shared=False, locals=None):
    """The context of a template is made without its values, then gets them"""
    context = jinja2.runtime.new_context(self.environment, self.name,
                                         self.blocks, {}, True, self.globals,
                                         {})
    values = {}
    if not shared:
        values.update(self.globals)
    values.update(vars or {})
    for k, v in (locals or {}).items():
        if v is not jinja2.runtime.missing:
            values[k] = v
    context.parent = values
    return context


def render(self, *args, **kwargs):
    context = self.new_context(dict(*args, **kwargs))
    return ''.join(list(self.root_render_func(context)))


def templates(sx):
    """The code of the templates is part of the code that is executed"""
    if not sx.symbolic:
        return
    sx.patch(jinja2.Environment, '_compile', compile_template)
    sx.patch(jinja2.Template, 'render', render)
    sx.patch(jinja2.Template, 'new_context', new_context)
    rt.MODELS[markupsafe.escape] = escape_model
    rt.MODELS[jinja2.filters.do_default] = default_model


class Env:
    context = None


class Page(JinjaRender):
    """The builder of a page without its decider"""

    available = False
    status = 'done'

    def build_needed(self, reset=False):
        return False


class Document:
    """The document of a page: it has a path for its targets"""

    def __init__(self, path):
        self.path = path

    def target_filepath(self, target):
        assert target == self.path.suffix
        return self.path


class Piece:
    """A tag: it has a text for each of the formats"""

    def __init__(self, name, html=None):
        self.html = Markup('<i>%s html</i>' % name) if html is None else html
        self.xhtml = Markup('<i>%s xhtml</i>' % name)
        self.tex = '\\emph{%s tex}' % name
        self.txt = '%s txt' % name


def page(sx, target, template, values, inherited=None, files=(), name=None):
    """The text of the page of a document with the values in its context"""
    templates(sx)
    d = sx.scratch()
    parent = BaseContext(**(inherited or {}))
    out = TargetPath(d, target, name or ('sub/doc.' + target))
    context = BaseContext(parent_context=parent, template=template,
                          document=Document(out), **values)
    for f in files:
        p = TargetPath(d, target, f)
        p.parent.mkdir(parents=True, exist_ok=True)
        sx.file(str(p), 'x')
    builder = Page(env=Env(), context=context, render_ext='.' + target,
                   outfilepath=out)
    builder.build(complete=True)
    return out.read_text()


def cut(text, start, end):
    """The texts between two texts (which end at the first end)"""
    out = []
    for part in text.split(start)[1:]:
        out.append(part.split(end)[0])
    return out


NAMED = (('&amp;', '&'), ('&lt;', '<'), ('&gt;', '>'), ('&#34;', '"'),
         ('&quot;', '"'), ('&#39;', "'"), ('&apos;', "'"), ('&#x27;', "'"))


def read(text):
    """The characters of a text in xml: None if it is not well formed"""
    out = ''
    i = 0
    while i < len(text):
        c = text[i]
        if c == '<' or c == '"':
            return None
        if c == '&':
            for entity, char in NAMED:
                if text[i:i + len(entity)] == entity:
                    out = out + char
                    i += len(entity)
                    break
            else:
                return None
        else:
            out = out + c
            i += 1
    return out


HTML = '<&">\'a'


def given(sx, name, n, alpha):
    """A value which may be absent, in the document or inherited"""
    where = sx.choice(name + ' is', ['absent', 'own', 'inherited'])
    if where == 'absent':
        return where, None
    return where, sx.str(name, (1, n), alpha)


TEMPLATES = {'tufte': 'books/tufte', 'novel': 'books/novel',
             'article': 'articles/basic'}


@harness('C26', [dict(n=2, template='default'), dict(n=1, template='tufte'),
                 dict(n=1, template='novel'), dict(n=1, template='article')],
         [dict(n=3, template='default'), dict(n=2, template='tufte')])
def html(sx, n, template):
    """A page in html has the title, description and author, and the contents
    of the document"""
    template = TEMPLATES.get(template, template)
    values = {'body': Piece('body'), 'toc': Piece('toc')}
    inherited = {}
    key = sx.choice('key', ['title', 'description', 'author'])
    where, text = given(sx, 'value', n, HTML)
    if where == 'own':
        values[key] = text
    elif where == 'inherited':
        inherited[key] = text
    out = page(sx, 'html', template, values, inherited)
    for k, start, end in (('title', '<title>', '</title>'),
                          ('description',
                           '<meta name="description" content="', '">'),
                          ('author', '<meta name="author" content="', '">')):
        got = cut(out, start, end)
        want = text if k == key else None
        if want is None:
            sx.check_eq(got, [], 'a page without a ' + k)
            continue
        sx.check(len(got) == 1, 'a page has its %s once' % k, got=got)
        sx.check_eq(read(got[0]), want, 'the %s of a page' % k)
    sx.check_eq(out.count('<i>body html</i>'), 1, 'the page has its contents')
    sx.check_eq(out.count('<i>toc html</i>'), 1, 'the page has its contents')
    sx.check(out.find('<i>body html</i>') > out.find('<body'),
             'the contents are in the body')


@harness('C26', [dict(template='default'), dict(template='tufte'),
                 dict(template='novel'), dict(template='article')])
def styles(sx, template):
    """A page in html has its style sheets, with links to their files"""
    template = TEMPLATES.get(template, template)
    values = {'body': Piece('body')}
    sheets = ['base', 'default', 'bootstrap.min', 'pygments']
    if template.startswith('books'):
        sheets.append(template[len('books/'):])
    found = [i for i in sheets
             if sx.choice(i, ['missing', 'found']) == 'found']
    relative = sx.choice('relative links', [True, False])
    values['relative_links'] = relative
    values['base_url'] = '/{target}/{subpath}'
    # The 'target' entry of a header may be used to list targets
    targets = sx.choice('target', [None, 'html', 'tex, html'])
    if targets is not None:
        values['target'] = targets
    out = page(sx, 'html', template, values,
               files=['media/css/%s.css' % i for i in found])
    links = cut(out, '<link rel="stylesheet" href="', '"')
    for i in sheets:
        mine = [k for k in links if k.endswith('/%s.css' % i)]
        sx.check(len(mine) == 1, 'the page has its style sheet', links=links)
        if i not in found:
            continue
        start = '../' if relative else '/html/'
        sx.check_eq(mine[0], start + 'media/css/%s.css' % i,
                    'the link to a style sheet leads to its file')


@harness('C26', [dict()])
def menu(sx):
    """The menu has a link to each of the other formats of the document"""
    values = {'body': Piece('body')}
    want = []
    for name in ('srclink', 'txtlink', 'texlink', 'pdflink', 'epublink'):
        how = sx.choice(name, ['none', 'empty', 'link'])
        if how != 'none':
            values[name] = Piece(name, '' if how == 'empty' else
                                 Markup('../x/' + name + '.x'))
        if how == 'link':
            want.append('../x/' + name + '.x')
    toc = sx.choice('toc', [False, True])
    if toc:
        values['toc'] = Piece('toc')
    out = page(sx, 'html', 'default', values)
    got = [i for i in cut(out, '<a href="', '"') if i != '/']
    sx.check_eq(got, want, 'the links to the formats')
    sx.check_eq(out.count('toc html'), 1 if toc else 0,
                'the table of contents')


@harness('C26', [dict(n=2, template='default'),
                 dict(n=1, template='books/tufte')],
         [dict(n=3, template='default')])
def xhtml(sx, n, template):
    """A page of an epub is well formed, with its title and contents"""
    values = {'body': Piece('body')}
    inherited = {}
    where, text = given(sx, 'title', n, HTML)
    if where == 'own':
        values['title'] = text
    elif where == 'inherited':
        inherited['title'] = text
    out = page(sx, 'xhtml', template, values, inherited)
    got = cut(out, '<title>', '</title>')
    sx.check(len(got) == 1, 'a page has its title once', got=got)
    if text is None:
        sx.check(len(got[0]) > 0, 'a page of an epub needs a title')
    else:
        sx.check_eq(read(got[0]), text, 'the title of a page')
    sx.check_eq(out.count('<i>body xhtml</i>'), 1, 'the page has its contents')


class File:
    def __init__(self, subpath, id, is_toc=False):
        self.subpath = subpath
        self.id = id
        self.is_toc = is_toc


@harness('C26', [dict(n=1), dict(n=2)], [dict(n=3)])
def package(sx, n):
    """The package of an epub has its title, each file once with its type and
    the pages in their order"""
    kinds = dict(xhtml='application/xhtml+xml', css='text/css',
                 svg='image/svg+xml', png='image/png')
    title = sx.str('title', 1, HTML)
    files = {k: [] for k in kinds}
    for i in range(n):
        kind = sx.choice('kind %d' % i, ['xhtml', 'xhtml', 'css', 'svg',
                                         'png'][i % 2:])
        name = 'f%d' % i + (sx.str('name', 1, "&'a ") if i == 0 else '')
        files[kind].append(File(name + '.' + kind, 'id%d' % i,
                                kind == 'xhtml' and
                                sx.choice('toc %d' % i, [False, True])))
    values = dict(title=title, uuid='u-1', date='2020', body=Piece('body'))
    for kind in kinds:
        values[kind + '_files'] = files[kind]
    out = page(sx, 'opf', 'default/xhtml/content.opf', values)
    sx.check_eq([read(i) for i in cut(out, '<dc:title>', '</dc:title>')],
                [title], 'the title of an epub')
    sx.check_eq(cut(out, 'urn:uuid:', '<'), ['u-1'], 'the id of an epub')
    items = cut(cut(out, '<manifest>', '</manifest>')[0], '<item ', '/>')
    every = [(f, kinds[k]) for k in ('xhtml', 'css', 'svg', 'png')
             for f in files[k]]
    sx.check_eq(len(items), len(every), 'each file is listed once')
    for f, kind in every:
        mine = [i for i in items if 'id="%s"' % f.id in i]
        sx.check(len(mine) == 1, 'each file is listed once', items=items)
        sx.check_eq([read(i) for i in cut(mine[0], 'href="', '"')],
                    [f.subpath], 'the path of a file')
        sx.check_eq(cut(mine[0], 'media-type="', '"'), [kind],
                    'the type of a file')
        sx.check_eq('properties="nav"' in mine[0], f.is_toc,
                    'the navigation of an epub is marked')
    sx.check_eq(cut(cut(out, '<spine>', '</spine>')[0], 'idref="', '"'),
                [f.id for f in files['xhtml']], 'the order of the pages')


def options(text):
    """The keys and values of a list of options in tex (without comments)"""
    clean = ''
    comment = blank = False
    for c in text:
        if comment:
            if c == '\n':
                comment = False
                blank = True
            continue
        if blank and c == ' ':
            continue
        blank = False
        if c == '%':
            comment = True
            continue
        clean = clean + c
    depth = 0
    parts = ['']
    for c in clean:
        if c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
            if depth < 0:
                break
        elif c == ',' and depth == 0:
            parts.append('')
            continue
        parts[-1] = parts[-1] + c
    out = {}
    for part in parts:
        part = part.strip()
        if len(part) == 0:
            continue
        key = part.split('=')[0].strip()
        value = part[part.find('=') + 1:].strip() if '=' in part else None
        if value is not None and value[:1] == '{' and value[-1:] == '}':
            value = value[1:-1]
        out[key] = value
    return out


def tex_page(sx, n, template):
    """A page in tex with a title or author, and these"""
    values = {'body': Piece('body')}
    inherited = {}
    key = sx.choice('key', ['title', 'author'])
    where, text = given(sx, 'value', n, ',=a;')
    if where == 'own':
        values[key] = text
    elif where == 'inherited':
        inherited[key] = text
    return page(sx, 'tex', template, values, inherited), {key: text}


@harness('C26', [dict(n=2, template='default'),
                 dict(n=1, template='books/tufte'),
                 dict(n=1, template='reports/basic')],
         [dict(n=3, template='default')])
def tex(sx, n, template):
    """A document in tex has its title and authors, and its contents in the
    document environment; what it has not is not among the options"""
    out, sets = tex_page(sx, n, template)
    opts = options(cut(out, '\\hypersetup{', '\n\n')[0])
    for k, option in (('title', 'pdftitle'), ('author', 'pdfauthor')):
        want = sets.get(k)
        got = cut(out, '\\%s{' % k, '}')
        if want is None:
            sx.check(option not in opts, 'a document without ' + k, opts=opts)
            continue
        sx.check(len(got) == 1, 'the %s of the document' % k, got=got)
        sx.check_eq(got[0].strip(), want, 'the %s of the document' % k)
    sx.check_eq(opts['pdfcreator'], 'Disseminate', 'the other options')
    body = cut(out, '\\begin{document}', '\\end{document}')
    sx.check(len(body) == 1, 'the document is in its environment', body=body)
    sx.check_eq(body[0].count('\\emph{body tex}'), 1,
                'the document has its contents')


@harness('C26', [dict(n=1)])
def pdfinfo(sx, n):
    """The title and authors of a document are those of its pdf"""
    out, sets = tex_page(sx, n, 'default')
    opts = options(cut(out, '\\hypersetup{', '\n\n')[0])
    for k, option in (('title', 'pdftitle'), ('author', 'pdfauthor')):
        if sets.get(k) is None:
            continue
        sx.check(option in opts, 'the pdf has no ' + k, opts=opts)
        sx.check_eq(opts[option], sets[k], 'another %s of the pdf' % k)


@harness('C26', [dict(template='default'), dict(template='reports/basic')])
def txt(sx, template):
    """A document in txt has its contents"""
    out = page(sx, 'txt', template, {'body': Piece('body'), 'title': 'x'})
    sx.check_eq(out.strip(), 'body txt', 'the document has its contents')
