"""Load the current sources of the project (and a few pure-Python stdlib modules) instrumented for symbolic execution.

The rewriting is purely syntactic and semantics preserving on concrete values: calls, f-strings, `in`,
subscripts and `%` go through helpers in `models` that only act when a symbolic value is involved.
"""
from __future__ import annotations
import ast
import sys
import importlib
import importlib.abc
import importlib.util
import importlib.machinery
import os
from . import models

RUNTIME = '__sx__'
NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', '__import__', 'exec'}
ENCODED = {}       # module -> set of function qualnames executed
_current = []


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []

    def rt(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id=RUNTIME, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        # annotations and decorators stay native
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = [self.visit(s) for s in node.body]
        flat = []
        for b in body:
            flat += b if isinstance(b, list) else [b]
        qn = '.'.join(self.scope)
        mark = ast.Expr(self.rt('enter', ast.Constant(self.module), ast.Constant(qn)))
        i = 1 if (flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant)
                  and isinstance(flat[0].value.value, str)) else 0
        flat.insert(i, mark)
        node.body = flat
        self.scope.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.Call(func=ast.Attribute(value=ast.Name(id=RUNTIME, ctx=ast.Load()), attr='call', ctx=ast.Load()),
                        args=[node.func] + node.args, keywords=node.keywords)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
        return self.rt('fstr', ast.List(elts=parts, ctx=ast.Load()))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if any(isinstance(op, (ast.In, ast.NotIn)) for op in node.ops):
            if len(node.ops) == 1:
                r = self.rt('contains', node.left, node.comparators[0])
                return ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(node.ops[0], ast.NotIn) else r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(func=ast.Attribute(value=ast.Name(id=RUNTIME, ctx=ast.Load()), attr='slice',
                                                 ctx=ast.Load()),
                              args=[sl.lower or ast.Constant(None), sl.upper or ast.Constant(None),
                                    sl.step or ast.Constant(None)], keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) for x in sl.elts):
                return node
            return self.rt('getitem', node.value, sl)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            return ast.Expr(self.rt('setitem_rev', self.visit(node.value), self.visit(t.value), self.visit(t.slice)))
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.rt('mod', node.left, node.right)
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self.rt('tick')))
        return node

    visit_While = _loop
    visit_For = _loop


class Runtime:
    call = staticmethod(models.call)
    fstr = staticmethod(models.fstr)
    contains = staticmethod(models.contains)
    getitem = staticmethod(models.getitem)
    mod = staticmethod(models.mod)
    slice = slice
    tick = staticmethod(models.tick)

    @staticmethod
    def setitem_rev(v, o, k):
        models.setitem(o, k, v)

    @staticmethod
    def enter(module, qualname):
        s = ENCODED.get(module)
        if s is None:
            s = ENCODED[module] = set()
        s.add(qualname)


def compile_source(source, filename, module):
    tree = ast.parse(source, filename)
    tree = Rewriter(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return compile_source(data, path, self.name)

    codes = {}

    def get_code(self, fullname):      # never use cached bytecode
        path = self.get_filename(fullname)
        code = self.codes.get(path)
        if code is None:               # a module may be executed again under another configuration
            code = self.codes[path] = self.source_to_code(self.get_data(path), path)
        return code

    def exec_module(self, module):
        module.__dict__[RUNTIME] = Runtime
        Runtime.enter(self.name, '<module>')
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, packages, root):
        self.packages = packages
        self.root = root

    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + '.') for p in self.packages):
            return None
        parts = fullname.split('.')
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=Loader(fullname, base + '.py'))
        return None


def install(root, packages=('hypershell',)):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(packages, root))
    instrument_stdlib()


def load_instrumented(modname):
    """Private instrumented copy of a pure-Python stdlib module."""
    spec = importlib.util.find_spec(modname)
    origin = spec.origin
    if origin == 'frozen':
        origin = os.path.join(os.path.dirname(os.__file__), modname + '.py')
    with open(origin, encoding='utf-8') as f:
        src = f.read()
    import types
    m = types.ModuleType('sx_' + modname)
    m.__file__ = origin
    m.__dict__[RUNTIME] = Runtime
    m.__package__ = modname.rpartition('.')[0]
    sys.modules[m.__name__] = m
    exec(compile_source(src, origin, modname), m.__dict__)
    return m


def instrument_stdlib():
    """Route os.path and shlex functions over symbolic text to instrumented copies of their own source."""
    import posixpath
    import genericpath
    import shlex
    gp = load_instrumented('genericpath')
    pp = load_instrumented('posixpath')
    pp.genericpath = gp
    for name in ('commonprefix', '_splitext', '_check_arg_types'):
        if hasattr(gp, name):
            setattr(pp, name, getattr(gp, name)) if hasattr(pp, name) else None
    for name in ('normcase', 'isabs', 'join', 'split', 'splitext', 'splitdrive', 'basename', 'dirname', 'normpath',
                 'splitroot', 'commonpath'):
        if hasattr(posixpath, name) and isinstance(getattr(pp, name, None), type(install)):
            models.BUILTINS[getattr(posixpath, name)] = getattr(pp, name)
    models.BUILTINS[posixpath.normpath] = _normpath(pp)
    models.BUILTINS[genericpath._splitext] = gp._splitext
    sh = load_instrumented('shlex')
    models.BUILTINS[shlex.split] = sh.split
    models.BUILTINS[shlex.quote] = sh.quote
    models.BUILTINS[shlex.join] = sh.join


def _normpath(pp):
    def normpath(path):
        comps = []
        initial = 0
        if path.startswith('/'):
            initial = 2 if path.startswith('//') and not path.startswith('///') else 1
        for c in path.split('/'):
            if not c or c == '.':
                continue
            if c != '..' or (not initial and not comps) or (comps and comps[-1] == '..'):
                comps.append(c)
            elif comps:
                comps.pop()
        r = '/'.join(comps) if all(isinstance(c, str) and not models.is_sym(c) for c in comps) \
            else models.SymStr(['/']).join(comps)
        return ('/' * initial + r) or '.'
    return normpath
