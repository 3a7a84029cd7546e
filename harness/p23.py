"""P23 argument checking accepts exactly the calls that would bind."""
import functools
import inspect

import asyncz.tasks.base  # noqa: F401
import asyncz.utils  # noqa: F401
from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import And, Eq, Not, Or
from symx.values import SymInt

BOUNDS = "all signatures of up to three (thorough: four) parameters of any kind, with and without defaults, and all calls with up to one positional argument more than parameters and keyword arguments named like any subset of the parameters or otherwise; the same for bound methods, classes, callable objects, partial objects and decorated functions"
OUTSIDE = "callables without a retrievable signature; argument values (binding does not look at them)"
ASSUMPTIONS = ["inspect.signature describes the call the interpreter makes (confirmed on every replay by making the call)"]
KINDS = [inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.VAR_POSITIONAL, inspect.Parameter.KEYWORD_ONLY, inspect.Parameter.VAR_KEYWORD]
PO, PK, VP, KO, VK = range(5)
NAMES = ["a", "b", "c", "d"]


class SParam:
    """inspect.Parameter with a symbolic kind."""

    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = KINDS
    empty = inspect.Parameter.empty

    def __init__(self, name, kind, default):
        self.name, self.kind = name, kind
        self.default = 0 if default else self.empty
        self.annotation = self.empty


class SSig:
    empty = inspect.Signature.empty

    def __init__(self, params):
        self.parameters = {p.name: p for p in params}
        self.hp = params

    def bind(self, *args, **kwargs):
        if not binds([(p.kind, p.default is not p.empty, p.name) for p in self.hp], len(args), list(kwargs)):
            raise TypeError("cannot bind")


class Inspect:
    def signature(self, f, **kw):
        s = getattr(f, "hsig", None)
        return s if s is not None else inspect.signature(f, **kw)

    def __getattr__(self, n):
        return getattr(inspect, n)


def binds(params, nargs, kw):
    """The binding rules of the language reference, as a formula.  params: (kind, has default, name)"""
    conds = []
    varpos = Or(False, *[k == VP for k, _, _ in params])
    varkw = Or(False, *[k == VK for k, _, _ in params])
    npos = 0
    taken = {n: False for n in kw}
    for k, d, n in params:
        positional = k <= PK
        filled = And(positional, npos < nargs)
        named = And(n in kw, Or(Eq(k, PK), Eq(k, KO)))
        if n in kw:
            taken[n] = named
        conds.append(Not(And(filled, named)))
        conds.append(Or(Eq(k, VP), Eq(k, VK), filled, named, d))
        npos = npos + ite(positional)
    conds.append(Or(varpos, nargs <= npos))
    for n in kw:
        conds.append(Or(varkw, taken[n]))
    return And(True, *conds)


def ite(c):
    if isinstance(c, bool):
        return int(c)
    import z3

    return SymInt(z3.If(c.t, z3.IntVal(1), z3.IntVal(0)))


def source(params):
    """The text of a function with these parameters."""
    out, slash, star = [], False, False
    for i, (k, d, n) in enumerate(params):
        if k != PO and i and params[i - 1][0] == PO:
            out.append("/")
        if k == KO and not any(p[0] in (VP, KO) for p in params[:i]):
            out.append("*")
        out.append({VP: "*", VK: "**"}.get(k, "") + n + ("=0" if d else ""))
    if params and params[-1][0] == PO:
        out.append("/")
    return ", ".join(out)


def shape(ctx, n):
    kinds, flags = [], []
    for i in range(n):
        k = ctx.int("kind%d" % i, 0, 4)
        if i:
            ctx.assume(Or(k > kinds[-1], And(Eq(k, kinds[-1]), Not(Eq(k, VP)), Not(Eq(k, VK)))))
        kinds.append(k)
        d = ctx.flag("default%d" % i)
        if d:
            ctx.assume(And(Not(Eq(k, VP)), Not(Eq(k, VK))))
        elif any(flags):
            # no parameter without default after one with a default among the positional ones
            ctx.assume(Or(k > PK, *[]))
        flags.append(d)
    return kinds, flags


def check(ctx, n, nargs):
    from asyncz.utils import check_callable_args

    kinds, flags = shape(ctx, n)
    names = NAMES[:n]
    kw = [x for x in names + ["z"] if ctx.flag("kw " + x)]
    args = list(range(nargs))
    ns = {}
    conc = [int(k) if isinstance(k, int) else None for k in kinds]
    concrete = all(c is not None for c in conc) and not ctx.symbolic
    if concrete:
        exec("def f(%s): pass" % source(list(zip(conc, flags, names))), ns)
        fn = ns["f"]
    else:
        def fn(*a, **k):
            pass

        fn.hsig = SSig([SParam(a, b, c) for a, b, c in zip(names, kinds, flags)])
    want = binds(list(zip(kinds, flags, names)), nargs, kw)
    if concrete:
        try:
            fn(*args, **{k: 0 for k in kw})
            real = True
        except TypeError:
            real = False
        assert real == bool(want), "the oracle disagrees with the interpreter"
    given = args if ctx.flag("list") else tuple(args)
    try:
        check_callable_args(fn, given, {k: 0 for k in kw})
        ok = True
    except ValueError:
        ok = False
    ctx.reach("accepted" if ok else "rejected")
    ctx.check(Eq(want, ok), "a call that binds is rejected, or one that does not is accepted")
    ctx.check(list(given) == args, "checking the arguments changes them")


def f_ab(a, b=0):
    return None


def deco(f):
    @functools.wraps(f)
    def w(*args, **kwargs):
        return f(*args, **kwargs)

    return w


class K:
    def __init__(self, a, b=0):
        pass

    def m(self, a, b=0):
        pass

    @classmethod
    def c(cls, a, b=0):
        pass

    @staticmethod
    def s(a, b=0):
        pass

    def __call__(self, a, b=0):
        pass


# callable -> (accepts(nargs, kw))
def shapes():
    def plain(n, kw):
        return n <= 2 and set(kw) <= {"a", "b"} and ("a" in kw) != (n >= 1) and not ("b" in kw and n == 2)

    return {
        "function": (f_ab, plain),
        "method": (K(1).m, plain),
        "class method": (K.c, plain),
        "static method": (K.s, plain),
        "class": (K, plain),
        "callable object": (K(1), plain),
        "partial": (functools.partial(f_ab, 1), lambda n, kw: n <= 1 and set(kw) <= {"b"} and not ("b" in kw and n == 1)),
        "partial kw": (functools.partial(f_ab, a=1), lambda n, kw: n == 0 and set(kw) <= {"a", "b"}),
        "decorated": (deco(f_ab), lambda n, kw: True),
    }


def task(ctx, what, via):
    """The task, its update and the scheduler accept exactly what binds; what is rejected leaves nothing behind."""
    from asyncz.tasks import Task

    fn, accepts = shapes()[what]
    n = ctx.split(ctx.int("args", 0, 3))
    kw = {x: 0 for x in ("a", "b", "z") if ctx.flag("kw " + x)}
    args = [ctx.int("v%d" % i, 0, 9) for i in range(n)]
    form = ctx.choice("given as", ["list", "tuple"] + ([] if via == "task" else ["iterator", "generator"]))
    given = dict(list=lambda: list(args), tuple=lambda: tuple(args), iterator=lambda: iter(args), generator=lambda: (x for x in args))[form]()
    log = W.Log()
    s = W.scheduler(log)
    want = accepts(n, kw)
    t = exc = None
    if via == "update":
        t = s.add_task(lambda *a, **k: None, make_trigger([]), id="x", name="x")
    del log[:]
    try:
        if via == "add":
            t = s.add_task(fn, make_trigger([]), given, dict(kw), id="x", name="x")
        elif via == "task":
            t = Task(fn=fn, args=given, kwargs=dict(kw), id="x", name="x")
        else:
            s.update_task("x", fn=fn, args=given, kwargs=dict(kw))
    except (ValueError, TypeError) as e:
        exc = e
    ctx.check(Eq(exc is None, want), "a call that binds is rejected, or one that does not is accepted")
    if exc is None:
        ctx.check(t.fn is fn or t.fn == fn, "the task calls something else")
        ctx.check(len(list(t.args)) == n, "arguments are lost")
        for a, b in zip(t.args, args):
            ctx.check(Eq(a, b), "arguments are changed")
        ctx.check(dict(t.kwargs) == kw, "keyword arguments are changed")
        ctx.check(len(list(t.args)) == n, "arguments are lost")
        ctx.reach("accepted")
    else:
        ctx.reach("rejected")
        if via == "add":
            ctx.check(s.get_tasks() == [], "a rejected task is added")
        elif via == "update":
            ctx.check(t.fn is not fn and list(t.args) == [] and t.kwargs == {}, "a rejected update changes the task")


def instances(tier):
    q = tier == "quick"
    out = []
    x = [("asyncz.utils", "inspect", Inspect())]
    opts = dict(seconds=700 if q else 5000, extra=x)
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        for nargs in range(n + 2):
            out.append(dict(name="%d parameters, %d arguments" % (n, nargs), fn=check, reach=["rejected"] + (["accepted"] if n or not nargs else []), weight=n * n,
                            params=dict(n=n, nargs=nargs), opts=opts))
    for what in shapes():
        for via in ("add", "task", "update"):
            out.append(dict(name="%s %s" % (via, what), fn=task, reach=["accepted"] + (["rejected"] if what != "decorated" else []), params=dict(what=what, via=via), opts=dict(seconds=700)))
    return out
