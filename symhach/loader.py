"""Import hook: loads hachoir.* (and the harness modules) from source through
an AST transformation, with the shims as builtins.  Nothing is cached on disk."""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import os
import sys

METHODS = frozenset(
    "join find rfind index rindex startswith endswith replace split rsplit "
    "strip lstrip rstrip count partition rpartition removeprefix removesuffix "
    "ljust rjust format encode decode get setdefault "
    "issuperset issubset isdisjoint".split())

LOADED = {}          # file -> sha256


class Transform(ast.NodeTransformer):
    def _call(self, name, args, node):
        return ast.copy_location(
            ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args,
                     keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("_sh_mod", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node)
            return ast.copy_location(
                ast.Assign(targets=[node.target],
                           value=self._call("_sh_mod", [load, node.value], node)), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Constant):
            return node
        if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
            return node
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return self._call("_sh_slice", [node.value, s.lower or none,
                                            s.upper or none, s.step or none], node)
        return self._call("_sh_getitem", [node.value, s], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = "_sh_in" if isinstance(node.ops[0], ast.In) else "_sh_notin"
            return self._call(n, [node.left, node.comparators[0]], node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and \
                node.comparators[0].value in (True, False) and type(node.comparators[0].value) is bool:
            # a symbolic boolean is True or False
            left = self._call("_sh_bool", [node.left], node)
            return ast.copy_location(ast.Compare(left=left, ops=node.ops, comparators=node.comparators), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and \
                not (isinstance(f.value, ast.Call) and
                     isinstance(f.value.func, ast.Name) and
                     f.value.func.id == "super"):
            return ast.copy_location(
                ast.Call(func=ast.Name(id="_sh_callm", ctx=ast.Load()),
                         args=[f.value, ast.Constant(value=f.attr)] + node.args,
                         keywords=node.keywords), node)
        return node

    def visit_JoinedStr(self, node):
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                val = self.visit(v.value)
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(value="")
                args.append(ast.Tuple(elts=[val, ast.Constant(value=conv), spec],
                                      ctx=ast.Load()))
        return self._call("_sh_fstr", args, node)


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        LOADED[path] = hashlib.sha256(data).hexdigest()
        tree = ast.parse(data, path)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from symhach import shims
        module.__dict__["__builtins__"] = shims.BUILTINS
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.prefixes:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec.loader = SymLoader(fullname, spec.origin)
        spec.cached = None
        return spec


def install(repo, prefixes=("hachoir", "harness")):
    sys.dont_write_bytecode = True
    if repo not in sys.path:
        sys.path.insert(0, repo)
    sys.meta_path.insert(0, Finder(prefixes))


def stub_logging():
    """Logging gets an empty body in symbolic runs."""
    from hachoir.core import log
    log.Log.newMessage = lambda self, *a, **k: None
