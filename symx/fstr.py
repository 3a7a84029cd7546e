"""Import hook: formatted strings and substring tests of the checked modules keep symbolic strings.

CPython formats f-strings into plain strings without consulting the class of the
values.  Modules whose names start with an installed prefix are compiled from
their source with f-strings, `x in y` and the methods of strings replaced by
calls that behave the same on ordinary values and keep symbolic characters.
"""
import ast
import importlib.machinery
import sys

from .symstr import SymStr, chars, mk
from .values import is_sym


def is_str(x):
    return type(x) is SymStr


def fmt(*parts):
    """parts: strings or (value, conversion, spec)"""
    out, sym = [], False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if is_str(v) and conv in (-1, ord("s")) and not spec:
                out.append(v)
                sym = True
                continue
            if conv == ord("r"):
                v = repr(v)
            elif conv == ord("s"):
                v = str(v)
            elif conv == ord("a"):
                v = ascii(v)
            p = format(v, spec)
        out.append(p)
    if not sym:
        return "".join(out)
    return mk([c for p in out for c in chars(p)])


def contains(a, b):
    if is_str(a) and isinstance(b, str):
        return mk_sym(b).__contains__(a)
    return a in b


def mk_sym(s):
    return s if is_str(s) else SymStr([ord(c) for c in s])


METHODS = {"join", "startswith", "endswith", "find", "rfind", "index", "count", "replace", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "removeprefix", "removesuffix"}


def method(obj, name, *args, **kw):
    if type(obj) is str and (obj or args):
        if name == "join" and len(args) == 1:
            args = (list(args[0]),)
        if any(map(is_str, args[0] if args and type(args[0]) in (list, tuple) else args)):
            obj = mk_sym(obj)
    return getattr(obj, name)(*args, **kw)


class T(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        args = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                args.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.Call(ast.Name("_symx_fmt", ast.Load()), args, [])

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("_symx_contains", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not any(k.arg is None for k in n.keywords):
            return ast.Call(ast.Name("_symx_method", ast.Load()), [f.value, ast.Constant(f.attr), *n.args], n.keywords)
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = T().visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module._symx_fmt, module._symx_contains, module._symx_method = fmt, contains, method
        super().exec_module(module)


class Finder:
    def __init__(self, prefixes):
        self.prefixes = tuple(prefixes)

    def find_spec(self, name, path=None, target=None):
        if not name.startswith(self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(*prefixes):
    """Compile modules imported from now on whose names start with one of the prefixes this way."""
    late = [m for m in sys.modules if m.startswith(tuple(prefixes))]
    if late:
        raise RuntimeError("already imported: %s" % late)
    sys.meta_path.insert(0, Finder(prefixes))
