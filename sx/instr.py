# -*- coding: utf-8 -*-
"""AST instrumentation of the code under test, loaded from its source."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec',
          '__import__'}

HOOKS = {
    '__sx_call__': rt.sx_call,
    '__sx_getitem__': rt.sx_getitem,
    '__sx_setitem__': rt.sx_setitem,
    '__sx_delitem__': rt.sx_delitem,
    '__sx_in__': rt.sx_contains,
    '__sx_mod__': rt.sx_mod,
    '__sx_fstr__': rt.sx_fstr,
    '__sx_enter__': rt.sx_enter,
}


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname, enter=True):
        self.modname = modname
        self.enter = enter
        self.stack = []

    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def _call(self, hook, args, keywords=()):
        return ast.Call(func=self._n(hook), args=args,
                        keywords=list(keywords))

    # -- functions
    def _fn(self, node):
        self.stack.append(node.name)
        qn = '.'.join(self.stack)
        # decorators and defaults are evaluated outside
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = [self.visit(s) for s in node.body]
        flat = []
        for s in body:
            flat.extend(s if isinstance(s, list) else [s])
        if self.enter:
            e = ast.Expr(self._call('__sx_enter__', [
                ast.Constant('%s:%s' % (self.modname, qn))]))
            i = 0
            if flat and isinstance(flat[0], ast.Expr) and isinstance(
                    flat[0].value, ast.Constant) and isinstance(
                    flat[0].value.value, str):
                i = 1
            flat.insert(i, e)
        node.body = flat
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._fn(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.Call(func=self._n('__sx_call__'),
                        args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._call('__sx_getitem__',
                              [node.value, self._index(node.slice)])
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            c = ast.Constant(None)
            return ast.Call(func=self._n('slice'),
                            args=[s.lower or c, s.upper or c, s.step or c],
                            keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice)
                                            for x in s.elts):
            raise NotImplementedError('extended slice')
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            # value is evaluated first, as in python
            return ast.Expr(self._call('__sx_assign__', [
                node.value, t.value, self._index(t.slice)]))
        if len(node.targets) > 1 and any(isinstance(t, ast.Subscript)
                                         for t in node.targets):
            tmp = '__sx_tmp__'
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                              value=node.value)]
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.Expr(self._call('__sx_assign__', [
                        self._n(tmp), t.value, self._index(t.slice)])))
                else:
                    out.append(ast.Assign(targets=[t], value=self._n(tmp)))
            return out
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript):
            return ast.Expr(self._call('__sx_augitem__', [
                t.value, self._index(t.slice),
                ast.Constant(type(node.op).__name__), node.value]))
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.Assign(
                targets=[t], value=self._call('__sx_mod__', [
                    ast.Name(id=t.id, ctx=ast.Load()), node.value]))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(self._call('__sx_delitem__', [
                    t.value, self._index(t.slice)])))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0],
                                             (ast.In, ast.NotIn)):
            return self._call('__sx_in__', [
                node.left, node.comparators[0],
                ast.Constant(isinstance(node.ops[0], ast.NotIn))])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', [node.left, node.right])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                conv = {-1: '', 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec \
                    else ast.Constant('')
                parts.append(ast.Tuple(elts=[val, ast.Constant(conv), spec],
                                       ctx=ast.Load()))
            else:
                parts.append(v)
        return self._call('__sx_fstr__', parts)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = self._n('Exception')
        elif isinstance(node.type, ast.Name) and \
                node.type.id == 'BaseException':
            node.type = self._n('Exception')
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(x) for x in node.defaults]
        node.kw_defaults = [x and self.visit(x) for x in node.kw_defaults]
        return node


import operator  # noqa

_AUG = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'BitOr': operator.ior, 'BitAnd': operator.iand,
        'BitXor': operator.ixor, 'LShift': operator.ilshift,
        'RShift': operator.irshift, 'FloorDiv': operator.ifloordiv,
        'Mod': rt.sx_mod, 'Div': operator.itruediv, 'Pow': operator.ipow}


def sx_augitem(obj, i, op, v):
    rt.sx_setitem(obj, i, _AUG[op](rt.sx_getitem(obj, i), v))


def sx_assign(v, obj, i):
    rt.sx_setitem(obj, i, v)


HOOKS['__sx_augitem__'] = sx_augitem
HOOKS['__sx_assign__'] = sx_assign


def instrument(source, filename, modname, enter=True):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname, enter).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):

    def __init__(self, fullname, path, enter):
        self.fullname = fullname
        self.path = path
        self.enter = enter

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        code = instrument(src, self.path, self.fullname, self.enter)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """instrument packages: {prefix: root directory}"""

    def __init__(self, roots, enter=('hwp5',)):
        self.roots = roots
        self.enter = enter

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split('.'))
        ent = top in self.enter
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, ent),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            p = base + '.py'
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, ent))
        return None


_twins = {}


def twin(f):
    """instrumented twin of a pure-python library function"""
    modname = f.__module__
    m = _twins.get(modname)
    if m is None:
        real = sys.modules[modname]
        m = type(sys)('sxtwin_' + modname.replace('.', '_'))
        m.__dict__.update(HOOKS)
        m.__file__ = real.__file__
        m.__package__ = getattr(real, '__package__', None)
        with open(real.__file__, 'rb') as fp:
            src = fp.read()
        exec(instrument(src, real.__file__, modname, False), m.__dict__)
        _twins[modname] = m
    o = m
    for p in f.__qualname__.split('.'):
        o = getattr(o, p)
    return o


rt.set_twin_loader(twin)


def install(roots, enter=('hwp5',)):
    sys.meta_path.insert(0, Finder(roots, enter))
