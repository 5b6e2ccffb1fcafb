"""Load modules through an AST transformation which lets symbolic values flow
through the real code.

The transformation keeps the control flow and the data flow of the source as
they are. It only routes operations which Python would hand to C code without
asking the operands (calls, `in`, subscripts, f-strings, `%`, dict and set
displays, `**kwargs`) through symex.rt, which performs the same operation, or a
model of it when an operand is symbolic.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

SKIP_NAMES = {'super', 'locals', 'globals', 'vars', 'eval', 'exec'}
RT = '_sx_rt'


def _rt(name, *args, keywords=()):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()),
                                       attr=name, ctx=ast.Load()),
                    args=list(args), keywords=list(keywords))


class Transformer(ast.NodeTransformer):

    def __init__(self, modname, cover=True):
        self.modname = modname
        self.stack = []
        self.cover = cover

    # ---- functions
    def _function(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        body = node.body
        pre = []
        if self.cover:
            k = rt.new_cov(self.modname + ':' + '.'.join(self.stack))
            pre.append(ast.Expr(_rt('enter', ast.Constant(k))))
        if node.args.kwarg is not None:
            kw = node.args.kwarg.arg
            pre.append(ast.Assign(
                targets=[ast.Name(id=kw, ctx=ast.Store())],
                value=_rt('fixkw', ast.Name(id=kw, ctx=ast.Load()))))
        i = 0
        if (body and isinstance(body[0], ast.Expr) and
           isinstance(body[0].value, ast.Constant) and
           isinstance(body[0].value.value, str)):
            i = 1
        node.body = body[:i] + pre + body[i:]
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_While(self, node):
        node = self.generic_visit(node)
        node.body.insert(0, ast.Expr(_rt('tick')))
        return node

    # ---- calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_NAMES:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            fn, pre = 'mcall', [f.value, ast.Constant(self._mangle(f.attr))]
        else:
            fn, pre = 'call', [f]
        if any(k.arg is None for k in node.keywords):
            # f(*a, **kw): keyword names may be symbolic
            d = ast.Dict(keys=[], values=[])
            for k in node.keywords:
                d.keys.append(None if k.arg is None else ast.Constant(k.arg))
                d.values.append(k.value)
            return _rt(fn + '_kw', *pre,
                       ast.Tuple(elts=node.args, ctx=ast.Load()),
                       self._dict(d))
        return _rt(fn, *pre, *node.args, keywords=node.keywords)

    def _mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            raise SyntaxError('private name')
        return name

    # ---- operators
    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return _rt('contains', node.left, node.comparators[0])
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=_rt(
                    'contains', node.left, node.comparators[0]))
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _rt('mod', node.left, node.right)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and not (
                isinstance(node.right, ast.Constant)):
            return _rt('setop', ast.Constant(type(node.op).__name__),
                       node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                value = self.visit(v.value)
                spec = (self.visit(v.format_spec) if v.format_spec is not None
                        else ast.Constant(''))
                parts.append(_rt('fval', value, ast.Constant(v.conversion),
                                 spec))
        return _rt('fjoin', *parts)

    # ---- subscripts
    def _key(self, s):
        # python 3.9: slices are expressions
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(func=ast.Name(id='slice', ctx=ast.Load()),
                            args=[s.lower or none, s.upper or none,
                                  s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._key(x) for x in s.elts],
                             ctx=ast.Load())
        if isinstance(s, ast.Index):        # pragma: no cover
            return s.value
        return s

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _rt('getitem', node.value, self._key(node.slice))
        return node

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            # the value is evaluated first, as Python does
            return ast.Expr(_rt('setitem_v', node.value, t.value,
                                self._key(t.slice)))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.Expr(_rt('augset', t.value, self._key(t.slice),
                                ast.Constant(type(node.op).__name__),
                                node.value))
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign(
                targets=[node.target],
                value=_rt('mod', ast.Name(id=node.target.id, ctx=ast.Load()),
                          node.value))
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and \
                isinstance(node.target, ast.Name):
            return ast.Assign(
                targets=[node.target],
                value=_rt('setiop', ast.Constant(type(node.op).__name__),
                          ast.Name(id=node.target.id, ctx=ast.Load()),
                          node.value))
        return node

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_rt('delitem', t.value,
                                        self._key(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    # ---- displays
    def _dict(self, node):
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return _rt('mkdict', ast.Tuple(elts=elts, ctx=ast.Load()))

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return self._dict(node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        g = ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)
        return _rt('mkdict', g)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return _rt('mkset', ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return _rt('mkset', ast.GeneratorExp(elt=node.elt,
                                             generators=node.generators))


def transform_source(source, filename, modname, cover=True):
    tree = ast.parse(source, filename)
    tree = Transformer(modname, cover).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, cover):
        self.path = path
        self.cover = cover

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = transform_source(src, self.path, module.__name__, self.cover)
        rt.TRANSFORMED.add(module.__name__)
        setattr(module, RT, rt)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """prefixes: top-level package names to transform -> root directory"""

    def __init__(self, roots, cover):
        self.roots = roots
        self.cover = cover

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base) and os.path.exists(base + '/__init__.py'):
            p = base + '/__init__.py'
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, self.cover(name)),
                submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p, self.cover(name)))
        return None


def install(roots, cover=lambda name: name.startswith('disseminate')):
    sys.meta_path.insert(0, Finder(roots, cover))


def transform_stdlib(names):
    """Replace modules of the standard library by transformed copies, for the
    modules imported from now on"""
    import types
    for name in names:
        old = importlib.import_module(name)
        with open(old.__file__, encoding='utf-8') as f:
            src = f.read()
        new = types.ModuleType(name)
        new.__file__ = old.__file__
        new.__dict__[RT] = rt
        rt.TRANSFORMED.add(name)
        exec(transform_source(src, old.__file__, name, False), new.__dict__)
        if name == 'posixpath':
            # os.path stays: route its functions to the copies
            for k, v in vars(old).items():
                if isinstance(v, types.FunctionType) and \
                        not rt._is_builtin_func(v) and \
                        v.__module__ == 'posixpath':
                    rt.MODELS[v] = getattr(new, k)
        else:
            sys.modules[name] = new
        if name == 'pathlib':
            rt.use_pathlib(new)


def stdlib_of(path):
    """The modules of the standard library which a harness needs transformed:
    its STDLIB assignment"""
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == 'STDLIB'
                for t in node.targets):
            return ast.literal_eval(node.value)
    return ()
