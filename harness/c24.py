"""C24: images, equations and panels: the files and widths they ask for."""
import pathlib

from symex.api import harness
from symex import util
from harness.c10 import walk
from disseminate import settings
from disseminate.builders import builder as builder_module
from disseminate.builders.builder import Builder
from disseminate.builders.asy_builders import Asy2pdf, Asy2svg, SaveAsySvg
from disseminate.builders.composite_builders import ParallelBuilder
from disseminate.builders.copy import Copy
from disseminate.builders.pdf2svg import Pdf2SvgCropScale
from disseminate.builders.pdflatex import Pdflatex
from disseminate.builders.pdfrender import PdfRender
from disseminate.builders.save_temp import SaveTempFile
from disseminate.builders.svgrender import SvgRender
from disseminate.context import BaseContext
from disseminate.builders.exceptions import BuildError
from disseminate.builders.target_builders import receivers  # noqa: F401
from disseminate.paths import SourcePath, TargetPath
from disseminate.tags.tag import Tag
from disseminate.tags.img import Img

STDLIB = ('pathlib', 'posixpath')

#: The columns: the widths up to and including one, in tenths of a percent
#: (thirds are rounded up to 34 and 67 %), its html class and its tex width
COLUMNS = ((250, 'w25', '0.24'), (340, 'w33', '0.32'), (500, 'w50', '0.49'),
           (670, 'w66', '0.65'), (750, 'w75', '0.74'), (1000, 'w100', '0.99'))


def column(sx, tenths):
    for top, cls, tex in COLUMNS:
        if tenths <= top:
            return cls, tex


class Scanner:
    def scan(self, parameters):
        return []


class Env:
    scanner = Scanner()
    target_root = pathlib.Path('/root')
    cache_path = pathlib.Path('/root/.cache')
    media_path = 'media'
    project_root = pathlib.Path('/src')
    context = None


class Asked:
    """A builder class which only records what it is made for"""

    suffix = '.svg'
    last = None

    def __init__(self, env=None, parameters=None, outfilepath=None,
                 context=None, target=None, **kwargs):
        Asked.last = self
        self.parameters = list(parameters)
        self.target = target
        self.context = context
        self.outfilepath = TargetPath('/root', target, 'media/o' +
                                      Asked.suffix)


class Target:
    """The target builder of a document"""

    def __init__(self, found, **kwargs):
        self.par = ParallelBuilder(env=Env(), **kwargs)
        self.found = found

    def add_build(self, **kwargs):
        return self.par.add_build(**kwargs)


class Doc:
    """A document (of its links)"""

    def target_filepath(self, target):
        return TargetPath('/root', target, 'a.html')


def project(sx, target, exists, suffix='.svg'):
    """A context in which the files of the list exist; the builders that are
    looked for are in the returned list"""
    looked = []

    def is_file(self):
        s = str(self)
        return sx.any(*[sx.eq(s, e) for e in exists]) if exists else False

    def find(cls, in_ext, out_ext=None, target=None, raise_error=True):
        looked.append((in_ext, out_ext, target))
        return Asked
    Asked.suffix = suffix
    Asked.last = None
    sx.patch(pathlib.Path, 'is_file', is_file)
    sx.patch(Builder, 'find_builder_cls', classmethod(find))
    context = util.context(paths=[SourcePath('/src', 'sub'),
                                  pathlib.Path('/other')])
    context['builders'] = {'.' + t: Target(looked)
                           for t in ('html', 'xhtml', 'tex')}
    doc = Doc()
    context['document'] = doc
    return context, looked, doc


def number(sx, n, form):
    """The text of a width and its tenths of percent"""
    d = sx.str('digits', n, '0123456789')
    if form == 'percent':
        return d + '%', int(d) * 10
    if form == 'tenths':
        e = sx.str('tenth', 1, '0123456789')
        return d + '.' + e + '%', int(d) * 10 + int(e)
    # hundredths of the width
    e = sx.str('hundredths', 2, '0123456789')
    return d[:1] + '.' + e, int(d[:1]) * 1000 + int(e) * 10


@harness('C24', [dict(n=2, form='percent'), dict(n=2, form='tenths'),
                 dict(n=1, form='ratio')],
         [dict(n=3, form='percent'), dict(n=3, form='tenths'),
          dict(n=1, form='ratio')])
def widths(sx, n, form):
    """A width in percent of a panel or image is that of its column, for the
    targets it is given for"""
    text, tenths = number(sx, n, form)
    sx.assume(tenths > 0)
    sx.assume(tenths <= 1000)
    cls, tex = column(sx, tenths)
    target = sx.choice('target', ['html', 'xhtml', 'tex'])
    of = sx.choice('of', ['', '.' + target, '.html' if target == 'tex'
                          else '.tex'])
    what = sx.choice('what', ['panel', 'img'])
    fallback = sx.choice('fallback', [False, True])
    attrs = 'width' + of + '="' + text + '"'
    if fallback and of:
        attrs = 'width=100% ' + attrs
    extra = ''
    if what == 'img' and target != 'tex':
        extra = sx.choice('class', ['', 'class', 'class.' + target])
        if extra:
            attrs += ' ' + extra + '=c'
    used = of == '' or of == '.' + target
    if not used:
        cls, tex = ('w100', '0.99') if fallback else (None, None)
    context, looked, doc = project(sx, target, ['/src/sub/x.svg'],
                                   suffix='.pdf' if target == 'tex'
                                   else '.svg')
    src = 'a@' + what + '[' + attrs + ']{x.svg}b'
    if what == 'panel' and target == 'tex' and not used and not fallback:
        return
    tag = Tag(name='root', content=src, attributes='', context=context)
    if target == 'tex':
        got = tag.tex
        if what == 'panel':
            want = 'a\\begin{panel}{%s\\textwidth}\nx.svg\n\\end{panel}b' % tex
        elif tex is None:
            want = 'a\\includegraphics{{/root/tex/media/o}.pdf}b'
        else:
            want = ('a\\includegraphics[width=%s\\textwidth]'
                    '{{/root/tex/media/o}.pdf}b' % tex)
        sx.check_eq(got, want, 'the width in tex')
    else:
        got = walk(getattr(tag, target + '_fmt')(level=2))[2][1]
        names = ['panel'] if what == 'panel' else ['c'] if extra else []
        if cls is not None:
            names.append(cls)
        sx.check_eq(got[1].get('class', ''), ' '.join(names),
                    'the classes of the width')
    sx.observe(got)


@harness('C24', [dict(n=1), dict(n=2)], [dict(n=3)])
def images(sx, n):
    """An image is the first file with its name in the paths of the document,
    converted for the target with the attributes for the target"""
    name = 'f' + sx.str('name', n, 'ab. -')
    sx.assume(name.strip() == name)
    ext = sx.choice('ext', ['.svg', '.png', '.pdf'])
    path = name + ext
    target = sx.choice('target', ['html', 'xhtml', 'tex'])
    there = [p for i, p in enumerate(['/src/sub/', '/other/'])
             if sx.choice('exists %d' % i, [False, True])]
    sx.assume(len(there) > 0)
    attrs = sx.choice('attributes', ['', 'scale=2', 'scale.html=2 page=1',
                                     'page=1 scale.tex=3 scale=4'])
    want = {'': [], 'scale=2': [('scale', '2')],
            'scale.html=2 page=1': ([('scale', '2')] if target == 'html'
                                    else []) + [('page', '1')],
            'page=1 scale.tex=3 scale=4': [
                ('page', '1'), ('scale', '3' if target == 'tex' else '4')]
            }[attrs]
    body = sx.choice('body', ['plain', 'spaces', 'lines'])
    content = {'plain': path, 'spaces': ' ' + path + '\t',
               'lines': '\n\n  ' + path + '\n '}[body]
    suffix = sx.choice('out', ['.svg', '.png'])
    context, looked, doc = project(sx, target, [d + path for d in there],
                                   suffix=suffix)
    tag = Tag(name='root', content='a@img' + ('[' + attrs + ']' if attrs
                                              else '') + '{' + content + '}b',
              attributes='', context=context)
    img = tag.content[1]
    sx.check_eq([str(p) for p in img.filepaths], [there[0] + path],
                'files of an image')
    if target == 'tex':
        got = tag.tex
        sx.check_eq(got, 'a\\includegraphics{{/root/tex/media/o}%s}b' % suffix,
                    'image in tex')
    else:
        got = walk(getattr(tag, target + '_fmt')(level=2))
        sx.check(got[2][0] == 'a' and got[2][2] == 'b', 'texts', got=got)
        sx.check_eq(got[2][1], ['img', {'src': 'media/o' + suffix}, []],
                    'image in html')
    sx.check_eq(looked, [(ext, None, '.' + target)],
                'builder looked for an image')
    asked = Asked.last
    sx.check_eq(str(asked.parameters[0]), there[0] + path,
                'file of an image')
    sx.check_eq(sorted(asked.parameters[1:]), sorted(want),
                'parameters of an image')
    sx.observe(got)


@harness('C24', [dict(n=1), dict(n=2)], [dict(n=3)])
def equations(sx, n):
    """An equation has its contents: in tex inline or in its environment, for
    html in an image of them"""
    A = sx.str('a', n, 'xy\\_ ^=')
    B = sx.str('b', n, 'z+ &')
    sx.assume(A.strip(' ') == A)
    sx.assume(B.strip(' ') == B)
    name = sx.choice('name', ['eq', 'term', 'termb'])
    attrs = sx.choice('attributes', ['', 'bold', 'color=red', 'env=align',
                                     'color=red bold', 'env.tex=align'])
    inner = sx.choice('inner', ['', 'termb', 'term', 'sup'])
    target = sx.choice('target', ['tex', 'html', 'xhtml'])
    content = A
    want = A
    if inner:
        content = A + '@' + inner + '{' + B + '}' + A
        want = A + {'termb': '\\boldsymbol{%s}', 'term': '%s',
                    'sup': '^{%s}'}[inner].replace('%s', B) + A
    context, looked, doc = project(sx, target, [])
    src = 'p@' + name + ('[' + attrs + ']' if attrs else '') + '{ ' + \
        content + '\n}q'
    tag = Tag(name='root', content=src, attributes='', context=context)
    body = want
    if 'color' in attrs:
        body = '\\textcolor{red}{' + body + '}'
    if 'bold' in attrs or name == 'termb':
        body = '\\boldsymbol{' + body + '}'
    if attrs.startswith('env'):
        block = True
        if '.tex' in attrs:
            return
        tex = ('\\begin{align} %\n' + body + '\n\\end{align}')
    else:
        block = False
        tex = '\\ensuremath{' + body + '}'
    sx.check_eq(tag.tex, 'p' + tex + 'q', 'equation in tex')
    if target == 'tex':
        return
    got = walk(getattr(tag, target + '_fmt')(level=2))
    eq = tag.content[1]
    sx.check(got[2][0] == 'p' and got[2][2] == 'q', 'texts', got=got)
    tagname, attributes, contents = got[2][1]
    sx.check_eq([tagname, sorted(attributes.items()), contents], [
        'img', [('class', 'eq blockeq' if block else 'eq'),
                ('src', 'media/o.svg')], []], 'equation in html')
    sx.check_eq(looked, [('.render', None, '.' + target)],
                'builder looked for an equation')
    asked = Asked.last
    sx.check_eq(asked.parameters[0], want, 'contents of an equation')
    ps = dict([p if isinstance(p, tuple) else (p, True)
               for p in asked.parameters[1:]])
    sx.check('crop' in ps, 'the image of an equation is cropped')
    sx.check('color' in attrs and ps.get('color') == 'red' or
             'color' not in attrs and 'color' not in ps,
             'color of an equation', got=ps)
    sx.check(('bold' in attrs or name == 'termb') == ('bold' in ps),
             'bold equation', got=ps)
    sx.check(asked.context['eq'] is eq, 'equation of the image')
    sx.check(asked.context['template'] == 'default/tex/eq',
             'template of the image')
    sx.observe(got)


EXTS = ['.svg', '.png', '.pdf', '.tif']


@harness('C24', [dict(n=2, targets=['.html', 'tex']),
                 dict(n=3, targets=['.html', 'tex', None])],
         [dict(n=4, targets=['html', '.tex', '.xhtml', '.css', None])])
def converters(sx, n, targets):
    """The builder for a file: the copy of a file that the target takes,
    otherwise the active builder with the highest priority for the first of
    the formats of the target there is one for"""
    classes = [type('Copy', (), dict(
        infilepath_ext='.*', outfilepath_ext='.*', available=True, priority=1,
        active=classmethod(lambda cls: True)))]
    real = []
    for i in range(n):
        available = sx.choice('available %d' % i, [True, False])
        active = sx.choice('active %d' % i, [True, False]) \
            if available else True
        ext = sx.choice('in %d' % i, ['.pdf', '.tif'])
        out = sx.choice('out %d' % i, ['.svg', '.png'])
        prio = sx.int('priority %d' % i, 0, 3)
        c = type('B%d' % i, (), dict(
            infilepath_ext=ext, outfilepath_ext=out, available=available,
            priority=prio, active=classmethod(lambda cls, x=active: x)))
        classes.append(c)
        if available and active:
            real.append(c)
    sx.patch(builder_module, 'all_subclasses', lambda cls: list(classes))
    sx.patch(Builder, '_available_builders', dict())
    in_ext = sx.choice('in', ['.pdf', '.tif', '.svg'])
    target = sx.choice('target', targets)
    out_ext = sx.choice('out', ['.svg', '.png', None]) if target is None \
        else None
    formats = [out_ext]
    if target is not None:
        t = '.' + target.strip('.')
        formats = settings.tracked_deps[t]
    for turn in range(2):
        try:
            got = Builder.find_builder_cls(in_ext=in_ext, out_ext=out_ext,
                                           target=target)
        except BuildError:
            got = None
        if target is not None and in_ext in formats:
            sx.check(got is classes[0], 'a file of a format of the target is '
                     'copied', got=got)
            continue
        for f in formats:
            ok = [c for c in real if c.infilepath_ext == in_ext and
                  c.outfilepath_ext == f]
            if ok:
                sx.check(got in ok, 'the builder for the first format',
                         got=got, ok=ok)
                sx.check(sx.all(*[got.priority >= c.priority for c in ok]),
                         'the builder with the highest priority', got=got)
                break
        else:
            sx.check(got is None, 'there is no builder', got=got)
        sx.check(Builder.find_builder_cls(in_ext=in_ext, out_ext=out_ext,
                                          target=target, raise_error=False)
                 is got, 'the builder found without an error')


class Render(Builder):
    """The rendering of contents with a template: the name of its file is
    that of the contents (their hash)"""

    infilepath_ext = '.render'
    priority = 1
    scan_parameters_on_init = False
    active_requirements = None
    action = 'render'
    available = False

    def __init__(self, env, context=None, render_ext=None, template=None,
                 **kwargs):
        self.outfilepath_ext = render_ext
        super().__init__(env, **kwargs)


def conversion(sx, kind, crop, scale, offset, target, name):
    """The composite builder, the file it starts with and the programs the
    result has to be made with (first to last)"""
    extra = []
    if crop is not None:
        extra.append(('crop', crop))
    if offset is not None:
        extra.append(('offset', offset))
    if scale is not None:
        extra.append(('scale', scale))
    context = BaseContext()
    context['src_filepath'] = SourcePath('/src', 'd/doc.dm')
    kwargs = dict(env=Env(), target=target, use_cache=False)
    steps = [('pdf2svg', ())]
    cropped = []
    if crop is not None:
        cropped.append('-p' if isinstance(crop, int) else '-p4')
        cropped += [str(i) for i in (crop if isinstance(crop, tuple)
                                     else (crop,))]
        if offset is not None:
            cropped += ['-a4'] + [str(i) for i in offset]
        steps.insert(0, ('pdf-crop-margins', tuple(cropped)))
    if scale is not None:
        steps.append(('rsvg-convert', ('-z', scale)))
    if kind == 'pdf':
        first = SourcePath('/src', 'd/' + name + '.pdf')
        builder = Pdf2SvgCropScale(parameters=[first] + extra, **kwargs)
    elif kind == 'asy file':
        first = SourcePath('/src', 'd/' + name + '.asy')
        builder = Asy2svg(parameters=[first] + extra, **kwargs)
        steps.insert(0, ('asy', ()))
    elif kind == 'asy':
        first = 'dot(a);'
        builder = SaveAsySvg(parameters=[first] + extra, context=context,
                             **kwargs)
        steps[:0] = [('save', ()), ('asy', ())]
    elif kind == 'eq':
        first = 'x+y'
        builder = SvgRender(parameters=[first] + extra, context=context,
                            **kwargs)
        steps[:0] = [('render', ()), ('pdflatex', ())]
    return builder, first, steps


#: For the programs: the options with the number of values that go to the
#: output, the options that have an effect (others only set the format)
KNOWN = {'pdf-crop-margins': (('-p', 1), ('-p4', 4), ('-a4', 4)),
         'rsvg-convert': (('-z', 1),)}


def leaves(builder):
    if hasattr(builder, 'subbuilders'):
        return [i for s in builder.subbuilders for i in leaves(s)]
    return [builder]


def execute(sx, builder, files):
    """The effect of a builder without subbuilders on files (a map of paths
    to what they were made with)"""
    out = str(builder.outfilepath)
    if isinstance(builder, (SaveTempFile, Render)):
        program = 'save' if isinstance(builder, SaveTempFile) else 'render'
        texts = [p for p in builder.parameters if isinstance(p, str)]
        sx.check(len(texts) > 0, 'there are contents to save')
        files[out] = (texts[0], (program, ()))
        return
    given = builder.infilepaths
    sx.check(len(given) > 0, 'a conversion has a file to convert',
             builder=type(builder).__name__)
    path = str(given[0])
    sx.check(path in files, 'the file to convert was made before',
             builder=type(builder).__name__, path=path, files=list(files))
    if isinstance(builder, Copy):
        files[out] = files[path]
        return
    args = list(builder.run_cmd_args())
    sx.check(any(a == path for a in args), 'the command has its file',
             args=args, path=path)
    if isinstance(builder, Pdflatex):
        sx.check(any(str(builder.outfilepath.parent) in a for a in args),
                 'the command has the directory of its output', args=args)
        # pdflatex names the pdf after the tex file
        out = str(builder.outfilepath.parent / given[0].stem) + '.pdf'
        files[out] = files[path] + (('pdflatex', ()),)
        return
    sx.check(any(a == out for a in args), 'the command has its output',
             args=args, out=out)
    options = []
    for option, values in KNOWN.get(args[0], ()):
        if option in args:
            i = args.index(option)
            options += args[i:i + 1 + values]
    files[out] = files[path] + ((args[0], tuple(options)),)


@harness('C24', [dict(kinds=['pdf', 'asy file']), dict(kinds=['asy', 'eq'])])
def conversions(sx, kinds):
    """The file of an image or equation is made from its contents with each
    of the conversions that are needed, once and in their order, with the
    crop, offset and scale that are given"""
    kind = sx.choice('kind', kinds)
    target = sx.choice('target', ['.html', '.xhtml'])
    crop = sx.choice('crop', [None, 7, (1, 20, 0, 100)])
    offset = None if crop is None else \
        sx.choice('offset', [None, (0, 0, -1, 0)])
    scale = sx.choice('scale', [None, '2.0', '0.5'])
    name = sx.choice('name', ['f', 'f g', 'doc', 'f_crop'])
    sx.patch(pathlib.Path, 'is_dir', lambda self: True)
    sx.patch(Builder, '_available_builders', {
        ('.pdf', '.svg'): Pdf2SvgCropScale, ('.asy', '.pdf'): Asy2pdf,
        ('.asy', '.svg'): Asy2svg, ('.save', '.svg'): SaveAsySvg,
        ('.render', None): Render, ('.render', '.pdf'): PdfRender,
        ('.render', '.svg'): SvgRender, ('.tex', '.pdf'): Pdflatex,
        ('.*', '.*'): Copy})
    builder, first, steps = conversion(sx, kind, crop, scale, offset, target,
                                       name)
    files = {} if isinstance(first, str) else {str(first): (str(first),)}
    for leaf in leaves(builder):
        execute(sx, leaf, files)
        if not isinstance(leaf, Copy):
            sx.check(not str(leaf.outfilepath).startswith('/root' + target
                                                          .replace('.', '/')),
                     'files in between are not put in the target',
                     path=str(leaf.outfilepath))
    out = str(builder.outfilepath)
    sx.check(out in files, 'the output is made', out=out, files=list(files))
    sx.check(out.startswith('/root' + target.replace('.', '/')) and
             out.endswith('.svg'), 'the output is in the target', out=out)
    made = files[out]
    sx.check_eq(made[0], str(first), 'the output is made from the contents')
    sx.check_eq([i[0] for i in made[1:]], [i[0] for i in steps],
                'the conversions of the output')
    for have, want in zip(made[1:], steps):
        h, w = list(have[1]), list(want[1])
        if h and w and h[0] != w[0]:
            i = h.index(w[0])
            h = h[i:] + h[:i]
        sx.check_eq(h, w, 'the options of a conversion')
