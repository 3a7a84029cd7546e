"""P12 task updates are validated and all or nothing."""
import functools
import warnings

from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "every subset of the ten attributes given with valid values (numbers and instants symbolic), combined with every class of invalid value of every attribute"
OUTSIDE = "updates with two invalid values are explored pairwise only in the thorough tier; stores other than memory"
ASSUMPTIONS = []
LO, HI = T0, T0 + 4 * DAY
warnings.filterwarnings("ignore", module="pydantic")
GRACE = 86399999999999  # the executors compare with timedeltas
ATTRS = ["args", "kwargs", "name", "mistrigger_grace_time", "coalesce", "store_alias", "max_instances", "trigger", "executor", "next_run_time"]


def target(a, b=2, *, key=None):
    return None


def replacement(a, b=2, *, key=None):
    return 1


part = functools.partial(target, 1)


def valid(ctx, attr, now):
    """(value to pass, expected value)"""
    if attr == "args":
        v = (ctx.int("arg", 0, 9), 5)
        return v, v
    if attr == "kwargs":
        v = dict(key=ctx.int("kwarg", 0, 9))
        return v, v
    if attr == "name":
        return "other name", "other name"
    if attr == "mistrigger_grace_time":
        k = ctx.choice("grace kind", ["none", "int", "float"])
        if k == "none":
            return None, None
        v = ctx.int("grace", 1, GRACE) if k == "int" else ctx.real("grace", "0.001", 100, 1000)
        return v, v
    if attr == "coalesce":
        v = ctx.choice("coalesce", [False, True, 0, 1])
        return v, bool(v)
    if attr == "store_alias":
        return "two", "two"
    if attr == "max_instances":
        v = ctx.int("limit", 1, None)
        return v, v
    if attr == "trigger":
        v = make_trigger([now])
        return v, v
    if attr == "executor":
        return "ex2", "ex2"
    if attr == "next_run_time":
        k = ctx.choice("time kind", ["none", "aware", "text"])
        if k == "none":
            return None, None
        if k == "text":
            import datetime

            return "2024-02-03 04:05:06", datetime.datetime(2024, 2, 3, 4, 5, 6, tzinfo=UTC)
        v = ctx.dt("next", LO, HI, UTC)
        return v, v


INVALID = {
    "args": ["text", "number", "too many", "missing"],
    "kwargs": ["text", "list", "unexpected", "duplicate"],
    "name": ["empty", "number"],
    "mistrigger_grace_time": ["not positive", "not positive float", "too long", "endless", "no number", "text"],
    "store_alias": ["number", "none"],
    "max_instances": ["not positive", "float", "text", "none"],
    "trigger": ["text", "class", "none"],
    "executor": ["number", "none"],
    "next_run_time": ["bad text", "number"],
    "id": ["same", "other"],
    "fn": ["bad module", "bad name", "no colon", "number"],
    "scheduler": ["other"],
    "frobnicate": ["any"],
    "pending": ["any"],
    "fn_reference": ["any"],
}


def invalid(ctx, attr, kind):
    if attr == "args":
        return {"text": "ab", "number": 5, "too many": (1, 2, 3), "missing": ()}[kind]
    if attr == "kwargs":
        return {"text": "ab", "list": ["key"], "unexpected": dict(other=1), "duplicate": dict(a=1)}[kind]
    if attr == "name":
        return {"empty": "", "number": 5}[kind]
    if attr == "mistrigger_grace_time":
        if kind == "not positive":
            return ctx.int("grace", None, 0)
        if kind == "not positive float":
            return ctx.real("grace", -100, 0, 1000)
        if kind == "too long":
            return ctx.int("grace", GRACE + 1, None)
        return {"endless": float("inf"), "no number": float("nan"), "text": "5"}[kind]
    if attr == "store_alias":
        return {"number": 5, "none": None}[kind]
    if attr == "max_instances":
        if kind == "not positive":
            return ctx.int("limit", None, 0)
        return {"float": 2.5, "text": "3", "none": None}[kind]
    if attr == "trigger":
        from asyncz.triggers import DateTrigger

        return {"text": "date", "class": DateTrigger, "none": None}[kind]
    if attr == "executor":
        return {"number": 5, "none": None}[kind]
    if attr == "next_run_time":
        return {"bad text": "tomorrow", "number": 5}[kind]
    if attr == "id":
        return {"same": "t", "other": "u"}[kind]
    if attr == "fn":
        return {"bad module": "no_such_module_x:f", "bad name": "harness.p12:nope", "no colon": "harness.p12", "number": 5}[kind]
    if attr == "scheduler":
        return W.scheduler(W.Log(), identity="foreign")
    return 1


FIELDS = ["id", "name", "fn", "fn_reference", "args", "kwargs", "mistrigger_grace_time", "coalesce", "max_instances", "trigger", "executor",
          "store_alias", "next_run_time", "scheduler", "pending", "submitted"]


def snap(t):
    d = {k: getattr(t, k) for k in FIELDS}
    d["#args"] = tuple(t.args)
    d["#kwargs"] = dict(t.kwargs)
    return d


def identical(a, b):
    return all(a[k] is b[k] if not k.startswith("#") else a[k] == b[k] for k in a)


def make(ctx, level, now):
    log = W.Log()
    s = W.scheduler(log)
    s.add_store("memory", "default")
    s.add_executor(W.executor(log, "default"), "default")
    ctx.fixed_clock(now)
    first = ctx.dt("first", LO, HI, UTC)
    t = s.add_task(target, make_trigger([first]), id="t", args=(1,), kwargs=dict(key=3), name="task t", max_instances=2, coalesce=True,
                   mistrigger_grace_time=7, next_run_time=first)
    if level != "pending":
        s.start()
    W.listen(s)
    del log[:]
    return s, t, log


def refuse(ctx, attr, kind, others, level):
    """One invalid value, any subset of valid other ones: nothing changes."""
    now = ctx.dt("now", LO, HI, UTC)
    s, t, log = make(ctx, level, now)
    before = snap(t)
    updates = {attr: invalid(ctx, attr, kind)}
    for o in others:
        if o != attr and not (attr in ("args", "kwargs", "fn") and o in ("args", "kwargs")) and ctx.flag(o + " given"):
            updates[o] = valid(ctx, o, now)[0]
    if ctx.flag("invalid last"):
        updates[attr] = updates.pop(attr)
    raised = None
    try:
        if level == "task":
            t.update_task(**updates)
        else:
            if attr == "scheduler":
                return
            s.update_task("t", **updates)
    except Exception as e:  # noqa: BLE001
        raised = e
    ctx.reach("refused")
    ctx.check(raised is not None, "an invalid update is accepted")
    ctx.check(identical(before, snap(t)), "a refused update changed the task")
    ctx.check(not log.kinds("event", "wakeup"), "a refused update is announced")
    ctx.check(s.get_task("t") is t, "a refused update changed the store")
    if level != "pending":
        ctx.check(s.stores["default"].get_due_tasks(before["next_run_time"]) == [t], "a refused update changed the schedule")


def accept(ctx, others, fn_kind, level):
    now = ctx.dt("now", LO, HI, UTC)
    s, t, log = make(ctx, level, now)
    before = snap(t)
    updates, expected = {}, {}
    for o in others:
        if ctx.flag(o + " given"):
            updates[o], expected[o] = valid(ctx, o, now)
    if fn_kind == "callable":
        updates["fn"], expected["fn"], expected["fn_reference"] = replacement, replacement, "harness.p12:replacement"
    elif fn_kind == "text":
        updates["fn"], expected["fn"], expected["fn_reference"] = "harness.p12:replacement", replacement, "harness.p12:replacement"
    elif fn_kind == "lambda":
        f = lambda a, b=2, *, key=None: 3  # noqa: E731
        updates["fn"], expected["fn"], expected["fn_reference"] = f, f, None
    if level == "task":
        t.update_task(**updates)
    else:
        s.update_task("t", **updates)
    ctx.reach("applied")
    after = snap(t)
    for k in FIELDS:
        if k in expected:
            v = expected[k]
            ok = after[k] is v
            if not ok:
                ok = W.same(ctx, after[k], v) if k == "next_run_time" else (tuple(after[k]) == v if k == "args" else Eq(after[k], v) if type(v) is not str else after[k] == v)
            ctx.check(ok, "an update was not applied: " + k)
        else:
            ctx.check(after[k] is before[k] or after[k] == before[k], "an update changed another attribute: " + k)
    ctx.check(type(after["coalesce"]) is bool, "coalesce is not a bool")
    # an iterable that can be read once keeps its content
    if level == "scheduler":
        from asyncz.events.constants import TASK_MODIFIED

        ctx.check([e.code for _, e in log.kinds("event")] == [TASK_MODIFIED], "an update is not announced once")


def reference(ctx):
    """A task given by text reference stays restorable through updates of its arguments."""
    from asyncz.tasks import Task

    ref = ctx.choice("ref", ["harness.p12:target", "harness.p12:part"])
    t = Task(ref, id="t", args=(1,))
    ctx.check(t.fn_reference == ref and t.fn is {"harness.p12:target": target, "harness.p12:part": part}[ref], "a text reference is not resolved")
    n = ctx.int("arg", 0, 9)
    what = ctx.choice("what", ["args", "kwargs", "name"])
    t.update_task(**{what: {"args": (n,), "kwargs": dict(key=n), "name": "x"}[what]})
    ctx.check(t.fn_reference == ref, "updating the arguments loses the text reference")
    ctx.check(t.__getstate__().fn == ref, "the task cannot be stored any more")
    ctx.reach("ok")


def construct(ctx):
    """Creation obeys the same limits."""
    from asyncz.tasks import Task

    kind = ctx.choice("kind", ["limit", "grace", "real grace", "args"])
    raised = None
    kw = {}
    if kind == "limit":
        v = kw["max_instances"] = ctx.int("limit", -5, 5)
        bad = v <= 0
    elif kind == "grace":
        v = kw["mistrigger_grace_time"] = ctx.int("grace", -5, 5)
        bad = v <= 0
    elif kind == "real grace":
        v = kw["mistrigger_grace_time"] = ctx.real("grace", -5, 5, 1000)
        bad = v <= 0
    else:
        n = ctx.split(ctx.int("count", 0, 4), 8)
        kw["args"] = tuple(range(n))
        bad = n not in (1, 2)
    kw.setdefault("args", (1,))
    try:
        t = Task(target, id="t", **kw)
    except Exception as e:  # noqa: BLE001
        raised = e
    ctx.reach(kind)
    ctx.check(Eq(bool(bad), raised is not None), "creation accepts an invalid value or refuses a valid one")


def instances(tier):
    out = []
    for attr, kinds in INVALID.items():
        for kind in kinds:
            for level in ("task", "scheduler", "pending"):
                if attr == "scheduler" and level != "task":
                    continue
                others = ["name", "max_instances", "next_run_time", "trigger", "args"] if tier == "quick" else ATTRS
                out.append(dict(name="%s: %s, on %s" % (attr, kind, level), fn=refuse, params=dict(attr=attr, kind=kind, others=others, level=level),
                                reach=["refused"]))
    for level in ("task", "scheduler", "pending"):
        for fk in (None, "callable", "text", "lambda"):
            for part_, others in (("odd", ATTRS[::2]), ("even", ATTRS[1::2])) if tier == "quick" else (("all", ATTRS),):
                out.append(dict(name="valid updates (%s), fn %s, on %s" % (part_, fk, level), fn=accept, reach=["applied"], weight=5,
                                params=dict(others=others, fn_kind=fk, level=level), opts=dict(seconds=5000)))
    out.append(dict(name="text reference", fn=reference, reach=["ok"]))
    out.append(dict(name="creation", fn=construct, reach=["limit", "grace", "real grace", "args"]))
    return out
