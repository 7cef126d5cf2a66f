"""Loads the agentspeak package from /repo's current source through an AST pass
that routes a handful of builtins (int, float, str, repr, hash, set, frozenset,
% formatting, str.join, f-strings, set displays) to symbolic-aware versions.
Nothing else about the code changes."""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import hooks
from .text import RE, OS

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"

CALLS = {"int", "float", "str", "repr", "hash", "ord", "set", "frozenset"}


METHODS = {"find", "rfind", "index", "rindex", "count", "replace", "startswith", "endswith",
           "split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip"}


class Pass(ast.NodeTransformer):
    def visit_Call(self, node):
        isinst = isinstance(node.func, ast.Name) and node.func.id in ("isinstance", "issubclass")
        if isinstance(node.func, ast.Name) and node.func.id in CALLS:
            name = node.func.id
            self.generic_visit_args(node)
            node.func = ast.copy_location(ast.Name("__sx_" + name + "__", ast.Load()), node.func)
            return node
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join":
            self.generic_visit(node)
            return ast.copy_location(ast.Call(
                ast.Name("__sx_join__", ast.Load()), [node.func.value] + node.args,
                node.keywords), node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in METHODS and node.args \
                and not node.keywords and not any(isinstance(a, ast.Starred) for a in node.args):
            self.generic_visit(node)
            return ast.copy_location(ast.Call(
                ast.Name("__sx_method__", ast.Load()),
                [ast.Constant(node.func.attr), node.func.value] + node.args, []), node)
        self.generic_visit(node)
        if not isinst:
            node.args = [self._name(a) for a in node.args]
            for k in node.keywords:
                k.value = self._name(k.value)
        return node

    def _name(self, a):
        if isinstance(a, ast.Name) and a.id in ("set", "frozenset", "hash"):
            return ast.copy_location(ast.Name("__sx_" + a.id + "__", ast.Load()), a)
        return a

    def generic_visit_args(self, node):
        node.args = [self.visit(a) for a in node.args]
        node.keywords = [self.visit(k) for k in node.keywords]

    def visit_Import(self, node):
        out = [node]

        def assign(name, value):
            out.append(ast.copy_location(ast.Assign(
                [ast.Name(name, ast.Store())], ast.Name(value, ast.Load())), node))
        for a in node.names:
            if a.name == "re":
                assign(a.asname or "re", "__sx_re__")
            elif a.name == "os" or (a.name == "os.path" and not a.asname):
                assign(a.asname or "os", "__sx_os__")
            elif a.name == "os.path":
                assign(a.asname, "__sx_os_path__")
        return out

    def visit_ImportFrom(self, node):
        out = [node]
        if node.module == "os" and not node.level:
            for a in node.names:
                if a.name == "path":
                    out.append(ast.copy_location(ast.Assign(
                        [ast.Name(a.asname or "path", ast.Store())], ast.Name("__sx_os_path__", ast.Load())), node))
        if node.module in ("io", "StringIO") and not node.level:
            for a in node.names:
                if a.name == "StringIO":
                    out.append(ast.copy_location(ast.Assign(
                        [ast.Name(a.asname or "StringIO", ast.Store())], ast.Name("__sx_StringIO__", ast.Load())), node))
        return out

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()),
                                          [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__sx_set__", ast.Load()),
                                          [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(ast.Name("__sx_in__", ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__sx_mod__", ast.Load()),
                                              [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                args.append(ast.Tuple([v.value, ast.Constant(v.conversion),
                                       v.format_spec if v.format_spec is not None
                                       else ast.Constant(None)], ast.Load()))
            else:
                args.append(v)
        return ast.copy_location(ast.Call(ast.Name("__sx_fstr__", ast.Load()), args, []), node)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Pass().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update(hooks.HOOKS)
        module.__dict__["__sx_re__"] = RE
        module.__dict__["__sx_os__"] = OS
        module.__dict__["__sx_os_path__"] = OS.path
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root == "agentspeak":
            base = os.path.join(REPO, *name.split("."))
        elif name == "simse_helper":
            base = os.path.join(REPO, "simse", "helper")
        else:
            return None
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p), submodule_search_locations=[base])
        p = base + ".py"
        if not os.path.exists(p):
            return None
        return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p))


def paths():
    if VENV not in sys.path:
        sys.path.append(VENV)
    try:
        import colorama  # noqa
    except ImportError:
        import types
        m = types.ModuleType("colorama")

        class _A(object):
            def __getattr__(self, n):
                return ""
        m.Fore = m.Back = m.Style = _A()

        class AnsiToWin32(object):
            def __init__(self, s, *a, **k):
                self.stream = s

            def should_wrap(self):
                return False
        import contextlib
        m.AnsiToWin32 = AnsiToWin32
        m.colorama_text = contextlib.nullcontext
        sys.modules["colorama"] = m


def install():
    paths()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
