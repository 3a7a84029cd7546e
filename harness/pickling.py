"""The pickle protocol on symbolic content: dumps freezes an object graph, loads rebuilds it.

Follows copyreg / object.__reduce_ex__(4) exactly as pickle does: __getstate__ runs when dumping,
__new__ / __setstate__ when loading; functions and classes are stored by reference and must be
importable; symbolic values are immutable atoms.  Counterexamples are replayed with the real pickle.
"""
import copyreg
import datetime as _d
import pickle as _pickle
import sys
import types
import zoneinfo
from fractions import Fraction

from symx.values import is_sym

HIGHEST_PROTOCOL = _pickle.HIGHEST_PROTOCOL
DEFAULT_PROTOCOL = _pickle.DEFAULT_PROTOCOL
PicklingError = _pickle.PicklingError
UnpicklingError = _pickle.UnpicklingError
ATOMS = (type(None), bool, int, float, complex, str, bytes, bytearray, _d.datetime, _d.date, _d.time, _d.timedelta, _d.timezone,
         zoneinfo.ZoneInfo, Fraction, type(Ellipsis), type(NotImplemented))


class Blob:
    """What a dump returned; stands for bytes."""

    def __init__(self, node, memo):
        self.node, self.memo = node, memo

    def __len__(self):
        return 100

    def __bytes__(self):
        raise TypeError("symbolic bytes")

    def __repr__(self):
        return "<pickle>"


def _global(x):
    mod, name = getattr(x, "__module__", None), getattr(x, "__qualname__", getattr(x, "__name__", None))
    if mod is None:
        mod = "builtins"
    try:
        o = sys.modules.get(mod) or __import__(mod, fromlist=["x"])
        for part in name.split("."):
            o = getattr(o, part)
    except (ImportError, AttributeError):
        raise PicklingError("Can't pickle %r: not found as %s.%s" % (x, mod, name)) from None
    if o is not x:
        # a stand-in installed for the time of the run is the same global
        if getattr(o, "__name__", None) != getattr(x, "__name__", None):
            raise PicklingError("Can't pickle %r: it's not the same object as %s.%s" % (x, mod, name))
    return ("global", x)


class _Freezer:
    def __init__(self):
        self.memo = {}
        self.keep = []

    def run(self, x):
        t = type(x)
        if is_sym(x) or t in ATOMS or isinstance(x, (_d.tzinfo,)):
            return ("atom", x)
        if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, type)) and not isinstance(x, types.MethodType):
            if isinstance(x, types.BuiltinFunctionType) and not isinstance(x.__self__, (types.ModuleType, type(None))):
                return ("call", id(x), getattr, [("atom", None)], None, None, None) if False else self._reduce(x)
            return _global(x)
        if id(x) in self.memo:
            return ("ref", id(x))
        self.memo[id(x)] = True
        self.keep.append(x)
        if t is list:
            return ("list", id(x), [self.run(i) for i in x])
        if t is tuple:
            return ("tuple", id(x), [self.run(i) for i in x])
        if t is dict:
            return ("dict", id(x), [(self.run(k), self.run(v)) for k, v in x.items()])
        if t in (set, frozenset):
            return ("set", id(x), t, [self.run(i) for i in x])
        return self._reduce(x)

    def _reduce(self, x):
        red = copyreg.dispatch_table.get(type(x))
        rv = red(x) if red else x.__reduce_ex__(4)
        if isinstance(rv, str):
            return _global(x)
        func, args, state, li, di = (tuple(rv) + (None,) * 5)[:5]
        if getattr(func, "__name__", "") == "__newobj__":
            _global(args[0])
            f = ("new", args[0])
            args = args[1:]
        elif getattr(func, "__name__", "") == "__newobj_ex__":
            _global(args[0])
            f = ("newex", args[0])
            args = args[1:]
        else:
            f = ("func", func)
            if not isinstance(func, (types.BuiltinMethodType,)):
                _global(func)
        return ("obj", id(x), f, [self.run(a) for a in args], None if state is None else self.run(state),
                None if li is None else [self.run(i) for i in li], None if di is None else [(self.run(k), self.run(v)) for k, v in di])


class _Thawer:
    def __init__(self):
        self.memo = {}

    def run(self, n):
        k = n[0]
        if k in ("atom", "global"):
            return n[1]
        if k == "ref":
            return self.memo[n[1]]
        if k == "list":
            out = self.memo[n[1]] = []
            out.extend(self.run(i) for i in n[2])
            return out
        if k == "tuple":
            out = tuple(self.run(i) for i in n[2])
            self.memo[n[1]] = out
            return out
        if k == "dict":
            out = self.memo[n[1]] = {}
            for a, b in n[2]:
                out[self.run(a)] = self.run(b)
            return out
        if k == "set":
            out = n[2](self.run(i) for i in n[3])
            self.memo[n[1]] = out
            return out
        _, oid, (kind, f), args, state, li, di = n
        args = [self.run(a) for a in args]
        if kind == "new":
            obj = f.__new__(f, *args)
        elif kind == "newex":
            obj = f.__new__(f, *args[0], **args[1])
        else:
            obj = f(*args)
        self.memo[oid] = obj
        if li:
            for i in li:
                obj.append(self.run(i))
        if di:
            for a, b in di:
                obj[self.run(a)] = self.run(b)
        if state is not None:
            s = self.run(state)
            setter = getattr(obj, "__setstate__", None)
            if setter is not None:
                setter(s)
            else:
                slots = None
                if isinstance(s, tuple) and len(s) == 2:
                    s, slots = s
                if s:
                    obj.__dict__.update(s)
                if slots:
                    for a, b in slots.items():
                        setattr(obj, a, b)
        return obj


def dumps(obj, protocol=None, **kw):
    f = _Freezer()
    node = f.run(obj)
    return Blob(node, f.keep)


def loads(data, **kw):
    if not isinstance(data, Blob):
        if isinstance(data, (bytes, bytearray)):
            return _pickle.loads(data)
        raise TypeError("a bytes-like object is required, not %r" % type(data).__name__)
    return _Thawer().run(data.node)
