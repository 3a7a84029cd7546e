"""P30 adding tasks: conflicts, replacement, defaults, first run time."""
import warnings

import asyncz.schedulers.datastructures  # noqa: F401
import asyncz.stores.memory  # noqa: F401
import asyncz.triggers.interval  # noqa: F401
from harness import p19
from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "every combination of given and omitted options (arbitrary numbers and times), up to two existing tasks and up to three additions, in two stores, with the scheduler stopped, running or paused, by function, text reference, task object and decorator"
OUTSIDE = "concurrent additions (serialised by the store lock); stores other than memory (P14-P17)"
ASSUMPTIONS = ["generated ids (uuid4) do not repeat"]
LO, HI = T0, T0 + 4 * DAY
warnings.filterwarnings("ignore")


def fn1(*a, **k):
    return 1


def fn2(*a, **k):
    return 2


def setup(ctx, log, state, defaults):
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    dflt = dict(mistrigger_grace_time=1, coalesce=True, max_instances=1)
    if defaults:
        dflt = dict(mistrigger_grace_time=ctx.opt("dgrace", lambda: ctx.int("dgrace", 1, 900)), coalesce=ctx.flag("dcoalesce"), max_instances=ctx.int("dmax", 1, 90))
    s = p19.build(ctx, "base", log, stores=("default", "two"), **(dict(task_defaults=dict(dflt)) if defaults else {}))
    if state != "stopped":
        p19.call(s, "start", state == "paused")
    return s, now, dflt


def first(times, now):
    for x in times:
        if x >= now:
            return x
    return None


def tasks(s):
    return {(st, t.id): t for st in ("default", "two") for t in s.get_tasks(st)}


def options(ctx, state, defaults, how, given):
    """One task with any combination of options: stored once, where asked, with the options given and defaults otherwise."""
    log = W.Log()
    s, now, dflt = setup(ctx, log, state, defaults)
    times = [ctx.dt("f%d" % i, LO, HI + DAY, UTC) for i in range(2)]
    ctx.assume(times[1] > times[0])
    trig = make_trigger(times)
    kw, want = {}, dict(dflt)
    if "limits" in given:
        if ctx.flag("grace given"):
            kw["mistrigger_grace_time"] = want["mistrigger_grace_time"] = ctx.opt("grace", lambda: ctx.int("grace", 1, 900))
        if ctx.flag("coalesce given"):
            kw["coalesce"] = want["coalesce"] = ctx.flag("coalesce")
        if ctx.flag("max given"):
            kw["max_instances"] = want["max_instances"] = ctx.int("max", 1, 90)
    want.update(executor="default", store="default", name="fn1", id=None, args=(), kwargs={})
    if "place" in given:
        if ctx.flag("store given"):
            kw["store"] = want["store"] = ctx.choice("store", ["default", "two"])
        if ctx.flag("executor given"):
            kw["executor"] = want["executor"] = ctx.choice("executor", ["default", "other"])
        if ctx.flag("id given"):
            kw["id"] = want["id"] = "x"
        if ctx.flag("name given"):
            kw["name"] = want["name"] = "label"
    if "args" in given:
        v = ctx.int("arg", 0, 9)
        if ctx.flag("args given"):
            kw["args"], want["args"] = [v], (v,)
        if ctx.flag("kwargs given"):
            kw["kwargs"] = want["kwargs"] = {"k": v}
    run = "trigger"
    if "time" in given:
        run = ctx.choice("time", ["trigger", "none", "given"])
        if run == "none":
            kw["next_run_time"] = None
        elif run == "given":
            kw["next_run_time"] = ctx.dt("given", LO, HI + DAY, UTC)
    if how == "alias":
        args, trig = ("interval",), None
        kw.update(hours=1, start_at=times[0], end_at=ctx.mkdt(ctx.us(times[0]) + 3 * HOUR))
    else:
        args = (trig,)
    del log[:]
    if how == "task":
        from asyncz.tasks import Task

        pre = {}
        tid = kw.pop("id", None)
        # options given when constructing or when submitting
        for k in list(kw):
            if k in ("mistrigger_grace_time", "coalesce", "max_instances", "args", "kwargs", "name") and ctx.flag("construct " + k):
                pre[k] = kw.pop(k)
        t0 = Task(fn=fn1, **dict({} if tid is None else dict(id=tid), **pre))
        for k in ("mistrigger_grace_time", "coalesce", "max_instances"):
            if k not in pre and k not in kw:
                want[k] = getattr(t0, k)
        t, exc = p19.call(s, "add_task", t0, *args, **kw)
        ctx.check(exc is None and t is t0, "adding a task object fails")
    elif how == "late id":
        from asyncz.tasks import Task

        t0 = Task()
        t0.update_task(fn=fn1)
        ctx.check(t0.id is None, "a task without function gets an id")
        kw["id"] = want["id"] = "x"
        for k in ("mistrigger_grace_time", "coalesce", "max_instances"):
            if k not in kw:
                want[k] = getattr(t0, k)
        t, exc = p19.call(s, "add_task", t0, *args, **kw)
        ctx.check(exc is None and t is t0, "submitting a task with an id fails")
    elif how == "decorator":
        r, exc = p19.call(s, "add_task", None, *args, **kw)
        ctx.check(exc is None and not s.get_tasks() and not log.kinds("event"), "a decorator alone adds a task")
        ctx.check(r(fn1) is fn1, "the decorator does not return the function")
        t = s.get_tasks()[0] if s.get_tasks() else None
        if hasattr(fn1, "asyncz_tasks"):
            del fn1.asyncz_tasks
    else:
        f = {"reference": "harness.p30:fn1"}.get(how, fn1)
        t, exc = p19.call(s, "add_task", f, *args, **kw)
        ctx.check(exc is None, "adding a task fails: %r" % (exc,))
    if state == "stopped":
        ctx.check(log.kinds("sadd", "event", "wakeup") == [], "adding to a stopped scheduler has effects")
        p19.call(s, "start")
    got = s.get_tasks()
    ctx.check(len(got) == 1 and len(log.kinds("sadd")) == 1, "the task is not stored exactly once")
    g = got[0]
    ctx.check(log.kinds("sadd") == [("sadd", want["store"], g.id)], "the task is stored elsewhere")
    ctx.check(g.store_alias == want["store"] and g.executor == want["executor"], "the task has another store or executor")
    ctx.check(bool(g.id) and isinstance(g.id, str) and want["id"] in (None, g.id) and t.id == g.id, "the task has another id")
    ctx.check(g.name == want["name"] and g.fn is fn1, "the task has another name or function")
    ctx.check(len(g.args) == len(want["args"]) and all(bool(a == b) for a, b in zip(g.args, want["args"])), "the task has other arguments")
    ctx.check(g.kwargs == want["kwargs"], "the task has other arguments")
    ctx.check(g.coalesce == want["coalesce"], "an option is not as given or configured")
    ctx.check(Eq(g.max_instances, want["max_instances"]), "an option is not as given or configured")
    a, b = g.mistrigger_grace_time, want["mistrigger_grace_time"]
    ctx.check(Eq(a, b) if a is not None and b is not None else a is b, "an option is not as given or configured")
    ctx.check(g.pending is False and g.submitted is True, "the task's flags are wrong")
    if trig is not None:
        ctx.check(g.trigger is trig, "the task has another trigger")
    if run == "none":
        if how != "decorator":
            ctx.check(g.next_run_time is None, "a task added as paused is scheduled")
    elif run == "given":
        ctx.check(W.same(ctx, g.next_run_time, kw["next_run_time"]), "the task is not scheduled at the time given")
    elif how == "alias":
        slots = [ctx.mkdt(ctx.us(times[0]) + k * HOUR) for k in range(4)]
        ctx.check(W.same(ctx, g.next_run_time, first(slots, now)), "the task is not scheduled at its trigger's first time")
    else:
        ctx.check(W.same(ctx, g.next_run_time, first(times, now)), "the task is not scheduled at its trigger's first time")
    if state == "running" and run != "none":
        ctx.check(len(log.kinds("wakeup")) >= 1, "the scheduler is not woken")
    ctx.reach(run)


KEYS = ["name", "executor", "max_instances", "next_run_time"]


def conflicts(ctx, state, steps):
    """Additions under equal and different ids and stores."""
    from asyncz.events.constants import TASK_ADDED
    from asyncz.exceptions import ConflictIdError

    log = W.Log()
    s, now, _ = setup(ctx, log, state, False)
    model = {}
    order = []
    for i in range(steps):
        tid = ctx.choice("id", ["x", "y"]) if i else "x"
        store = ctx.choice("store", ["default", "two"]) if i else "default"
        replace = ctx.flag("replace")
        d = ctx.dt("f%d" % i, LO, HI + DAY, UTC)
        ctx.assume(d > now)
        obj = ctx.flag("object")
        kw = dict(store=store, executor="e%d" % i, max_instances=i + 1, replace_existing=replace, name="n%d" % i)
        f = (fn1, fn2)[i % 2]
        del log[:]
        if obj:
            from asyncz.tasks import Task

            t, exc = p19.call(s, "add_task", Task(fn=f, id=tid), make_trigger([d]), **kw)
        else:
            t, exc = p19.call(s, "add_task", f, make_trigger([d]), id=tid, **kw)
        key = (store, tid)
        new = dict(name="n%d" % i, executor="e%d" % i, max_instances=i + 1, next=d, fn=f)
        if state == "stopped":
            ctx.check(exc is None, "adding to a stopped scheduler fails")
            order.append((key, replace, new))
            ctx.check(len(s.get_tasks()) == i + 1, "a pending task is lost")
            continue
        if key in model and not replace:
            ctx.check(isinstance(exc, ConflictIdError), "a conflict goes unnoticed")
            ctx.check(not log.kinds("event", "wakeup"), "a rejected addition is announced")
            ctx.reach("conflict")
        else:
            ctx.check(exc is None, "adding a task fails")
            ctx.check([e[1].code for e in log.kinds("event")] == [TASK_ADDED], "an addition is not announced once")
            ctx.reach("replaced" if key in model else "added")
            model[key] = new
        verify(ctx, s, model)
    if state == "stopped":
        _, exc = p19.call(s, "start")
        for key, replace, new in order:
            if key in model and not replace:
                # kept as it is, like the tasks of earlier runs in persistent stores
                ctx.reach("conflict")
                continue
            model[key] = new
        ctx.check(exc is None, "start fails")
        verify(ctx, s, model)
        ctx.reach("added")


def verify(ctx, s, model):
    got = tasks(s)
    ctx.check(sorted(got) == sorted(model), "a task is lost, duplicated or replaced")
    for k, m in model.items():
        t = got[k]
        ctx.check((t.name, t.executor, t.max_instances) == (m["name"], m["executor"], m["max_instances"]) and t.fn is m["fn"], "another task is touched, or a replacement is incomplete")
        ctx.check(W.same(ctx, t.next_run_time, m["next"]), "a task's run time is wrong")
        st = s.stores[k[0]]
        ctx.check(W.same(ctx, [x for x in st.get_all_tasks() if x.id == k[1]][0].next_run_time, m["next"]), "the store disagrees")
    for alias in ("default", "two"):
        nxt = s.stores[alias].get_next_run_time()
        ts = [m["next"] for k, m in model.items() if k[0] == alias]
        ctx.check((nxt is None) == (not ts) and all(bool(nxt <= x) for x in ts), "the store's next run time is wrong")


def failing(ctx, state, what):
    """An addition that fails leaves no trace."""
    log = W.Log()
    s, now, _ = setup(ctx, log, state, False)
    d = ctx.dt("f", LO, HI, UTC)
    p19.call(s, "add_task", fn1, make_trigger([d]), id="x", next_run_time=None)
    del log[:]
    n = len(s.get_tasks())
    kw = dict(id="y")
    trig = make_trigger([d])
    if what == "grace":
        v = ctx.int("grace", -5, 5)
        kw["mistrigger_grace_time"] = v
        bad = v <= 0
    elif what == "max":
        v = ctx.int("max", -5, 5)
        kw["max_instances"] = v
        bad = v <= 0
    elif what == "store":
        v = ctx.choice("store", ["default", "nowhere"])
        kw["store"] = v
        bad = v == "nowhere" and state != "stopped"
    elif what == "trigger":
        trig = ctx.choice("trigger", [3, "unknown", object()])
        bad = True
    elif what == "args":
        kw["args"] = ctx.choice("args", [5, (1,)])
        bad = kw["args"] == 5
    elif what == "fn":
        bad = True
    elif what == "time":
        kw["next_run_time"] = ctx.choice("time", [5, "never", None])
        bad = kw["next_run_time"] is not None
    t, exc = p19.call(s, "add_task", 7 if what == "fn" else fn1, trig, **kw)
    ctx.check(Eq(exc is not None, bad), "an invalid task is accepted, or a valid one rejected")
    ctx.check(len(s.get_tasks()) == n + (exc is None), "a failing addition leaves a task, or a successful one does not")
    if exc is not None:
        ctx.check(not log.kinds("event", "wakeup"), "a failing addition is announced")
        ctx.reach("rejected")
    else:
        ctx.reach("accepted")


def instances(tier):
    q = tier == "quick"
    out = []
    opts = dict(seconds=700 if q else 5000, extra=p19.PATCH, extra_concrete=p19.PATCH)
    groups = [("limits",), ("place",), ("args", "time"), ("time", "place")] + ([] if q else [("limits", "time"), ("limits", "place", "args")])
    for state in ("stopped", "running", "paused"):
        for how in ("function", "reference", "task", "late id", "decorator", "alias"):
            for g in groups:
                for defaults in (False, True):
                    if defaults and "limits" not in g:
                        continue
                    if how == "reference" and "args" not in g and q:
                        continue
                    out.append(dict(name="%s %s: %s%s" % (state, how, " ".join(g), " defaults" if defaults else ""), fn=options, reach=["trigger"], weight=3,
                                    params=dict(state=state, defaults=defaults, how=how, given=g), opts=opts))
        for n in (2, 3) if q else (2, 3, 4):
            out.append(dict(name="%s %d additions" % (state, n), fn=conflicts, reach=["conflict", "added"] + (["replaced"] if state != "stopped" else []), weight=n * 2,
                            params=dict(state=state, steps=n), opts=opts))
        for what in ("grace", "max", "store", "trigger", "args", "fn", "time"):
            out.append(dict(name="%s failing %s" % (state, what), fn=failing, reach=["rejected"] if what in ("trigger", "fn") else ["accepted"] if what == "store" and state == "stopped" else ["rejected", "accepted"],
                            params=dict(state=state, what=what), opts=opts))
    return out
