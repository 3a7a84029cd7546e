"""P22 inspection: filters, orders, counts, previews; nothing is modified."""
import asyncz.schedulers.inspection  # noqa: F401
import asyncz.stores.memory  # noqa: F401
import asyncz.tasks.inspection  # noqa: F401
import asyncz.triggers.combination  # noqa: F401
import asyncz.triggers.date  # noqa: F401
import asyncz.triggers.interval  # noqa: F401
from harness import p19
from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "up to three (thorough: four) tasks in two stores and arbitrary states, names and search terms of up to two (thorough: three) arbitrary characters of a small alphabet, every filter, sort key and direction; previews of up to four runs over arbitrary fire times and real interval / date / combination triggers"
OUTSIDE = "pydantic's own validation of the snapshots; triggers with jitter (their next run is random by definition)"
ASSUMPTIONS = ["triggers answer by their contract (P01-P04)"]
LO, HI = T0, T0 + 4 * DAY
FIELDS = ["id", "name", "executor", "store_alias", "next_run_time", "coalesce", "max_instances", "mistrigger_grace_time", "pending", "submitted"]
SORTS = ["id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger"]


def low(x):
    return x.lower() if x else ""


def world(ctx, n, log, started, names=None, aliases=False, vary=("executor", "store", "state")):
    """n tasks in arbitrary states -> (scheduler, facts)"""
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = p19.build(ctx, "base", log, executors=("default", "Ex2"), stores=("default", "Two"))
    facts = {}
    ids = ["b", "A", "c", "B2"][:n]
    for i, tid in enumerate(ids):
        state = ctx.choice("state", ["scheduled", "paused"]) if "state" in vary else "scheduled"
        d = ctx.dt("next", LO, HI + DAY, UTC)
        name = names(i) if names else "t%d" % (n - i)
        ex = ctx.choice("executor", ["default", "Ex2"]) if "executor" in vary else ["default", "Ex2"][i % 2]
        store = ctx.choice("store", ["default", "Two"]) if "store" in vary else ["default", "Two", "Two"][i % 3]
        alias = ctx.choice("alias", ["cron", "Other"]) if aliases else "cron"
        t, exc = p19.call(s, "add_task", W.noop, make_trigger([d], alias=alias), id=tid, name=name, executor=ex, store=store,
                          next_run_time=d if state == "scheduled" else None, max_instances=i + 1, coalesce=bool(i % 2), mistrigger_grace_time=i or None, args=(i,), kwargs={"k": i})
        ctx.check(exc is None, "adding a task fails")
        facts[tid] = dict(id=tid, name=name, executor=ex, store=store, trigger=alias, next=d if state == "scheduled" else None,
                          state=state if started else "pending", task=t, n=i)
    if started:
        p19.call(s, "start", True)
    del log[:]
    return s, facts, now


def freeze(s):
    out = {}
    for t in s.get_tasks():
        out[t.id] = ({f: getattr(t, f) for f in FIELDS}, t.trigger, t.fn, tuple(t.args), dict(t.kwargs))
    return out


def unchanged(ctx, s, before):
    after = freeze(s)
    ctx.check(list(after) == list(before), "inspecting changes the set of tasks")
    for k, (f, trig, fn, args, kw) in before.items():
        f2, trig2, fn2, args2, kw2 = after[k]
        ctx.check(all(f2[x] is f[x] or bool(f2[x] == f[x]) for x in FIELDS) and trig2 is trig and fn2 is fn and args == args2 and kw == kw2, "inspecting changes a task")


def contains(hay, needle):
    return hay is not None and needle in low(hay)


def infos(ctx, n, started, filt, sort, desc, strlen):
    log = W.Log()
    chars = ctx.strlen if strlen else None

    def names(i):
        return chars("name%d" % i, 1, strlen, "aAbBs")

    s, facts, now = world(ctx, n, log, started, names if filt == "q" or sort == "name" else None, aliases=filt == "trigger" or sort == "trigger",
                          vary=dict(all=("executor", "store", "state") if n < 3 else ("executor", "state")).get(filt, (filt, sort, "state" if sort in ("default", "next_run_time", "schedule_state") else "")))
    before = freeze(s)
    kw = {}
    keep = lambda f: True  # noqa: E731
    store = None
    if filt == "store":
        store = ctx.choice("in store", ["default", "Two", "none"])
        keep = lambda f: f["store"] == store  # noqa: E731
    elif filt == "state":
        want = ctx.choice("in state", ["scheduled", "paused", "pending"])
        from asyncz.enums import TaskScheduleState

        kw["schedule_state"] = ctx.choice("as", [want, TaskScheduleState(want), " %s " % want.upper()])
        keep = lambda f: f["state"] == want  # noqa: E731
    elif filt == "executor":
        kw["executor"] = ctx.choice("in executor", ["default", "Ex2", "ex2", "x"])
        keep = lambda f: f["executor"] == kw["executor"]  # noqa: E731
    elif filt == "trigger":
        tr = ctx.choice("in trigger", ["cron", "CRON ", "other", "StubTrigger", "stubtrigger", "stub"])
        kw["trigger"] = tr
        keep = lambda f: tr.strip().lower() in (f["trigger"].lower(), "stubtrigger")  # noqa: E731
    elif filt == "q":
        q = ctx.choice("term", ["a", "AB", " bb", "s", "t", "sched", "TWO", "default", "2", "stubT", "world:n", "cro"])
        kw["q"] = q
        lq = q.strip().lower()
        keep = lambda f: Or(*[contains(f[x], lq) for x in ("id", "name", "executor", "store", "state", "trigger")] + [contains("noop", lq), contains("harness.world:noop", lq), contains("StubTrigger", lq), contains("stub", lq)])  # noqa: E731
    elif filt == "all":
        store = ctx.choice("in store", [None, "Two"])
        kw = dict(schedule_state=ctx.choice("in state", [None, "paused"]), executor=ctx.choice("in executor", [None, "Ex2"]), q=ctx.choice("term", [None, "A", "c"]))
        keep = lambda f: And(store in (None, f["store"]), kw["schedule_state"] in (None, f["state"]), kw["executor"] in (None, f["executor"]), kw["q"] is None or any(contains(f[x], low(kw["q"])) for x in ("id", "name", "executor", "store", "state", "trigger")) or contains("harness.world:noop stubtrigger", low(kw["q"])))  # noqa: E731
    if sort != "default":
        kw["sort_by"] = sort
    if desc:
        kw["descending"] = True
    got = s.get_task_infos(store, **kw)
    ids = [g.id for g in got]
    ctx.check(len(set(ids)) == len(ids), "a task is listed twice")
    for tid, f in facts.items():
        ctx.check(Eq(bool(keep(f)), tid in ids), "the tasks listed are not those satisfying the filters")
    ctx.reach("some" if got else "empty")

    def le(x, y):
        """x may stand before y (ascending, by the chosen key alone)"""
        a, b = facts[x], facts[y]
        if sort in ("default", "next_run_time"):
            if a["next"] is None or b["next"] is None:
                return b["next"] is None
            return a["next"] <= b["next"]
        if sort == "schedule_state":
            return a["state"] <= b["state"]
        return low(a[sort]) <= low(b[sort])

    for x, y in zip(ids, ids[1:]):
        ctx.check(le(y, x) if desc else le(x, y), "the tasks are not listed in the requested order")
    for g in got:
        f = facts[g.id]
        ctx.check(g.name is f["name"] or bool(g.name == f["name"]), "a snapshot tells another name")
        ctx.check(W.same(ctx, g.next_run_time, f["next"]), "a snapshot tells another run time")
        ctx.check(g.schedule_state.value == f["state"] and g.paused == (f["state"] == "paused") and g.pending == (not started), "a snapshot tells another state")
        ctx.check((g.executor, g.store_alias, g.trigger_alias, g.max_instances, g.coalesce, g.mistrigger_grace_time) == (f["executor"], f["store"], f["trigger"], f["n"] + 1, bool(f["n"] % 2), f["n"] or None), "a snapshot tells other settings")
        ctx.check(g.args == (f["n"],) and g.kwargs == {"k": f["n"]} and g.callable_name == "noop" and g.callable_reference == "harness.world:noop", "a snapshot tells another call")
        g.kwargs["new"] = 1
    unchanged(ctx, s, before)
    ctx.check(len(log) == 0, "inspecting tasks dispatches events or wakes the scheduler")


def invalid(ctx, what):
    log = W.Log()
    s, facts, now = world(ctx, 1, log, True)
    try:
        if what == "sort":
            s.get_task_infos(sort_by=ctx.choice("by", ["", "Name", "state", "__class__"]))
        elif what == "state":
            s.get_task_infos(schedule_state=ctx.choice("state", ["", "running", "done"]))
        else:
            n = ctx.int("count", -100, 200)
            ctx.assume(Or(n < 1, n > 50))
            s.preview_task_runs("b", count=n)
    except ValueError:
        ctx.reach("rejected")
        return
    ctx.check(False, "invalid inspection arguments are accepted")


def counts(ctx, n, started):
    log = W.Log()
    s, facts, now = world(ctx, n, log, started, vary=('state', 'store') if n < 3 else ('state',))
    before = freeze(s)
    t1 = ctx.dt("later", LO, HI + DAY, UTC)
    for tid, f in facts.items():
        f["submitted"] = ctx.flag("submitted")
        s.get_task(tid).submitted = before[tid][0]["submitted"] = f["submitted"]
    ctx.fixed_clock(t1)
    i = s.get_scheduler_info()
    by = lambda v: sum(1 for f in facts.values() if f["state"] == v)  # noqa: E731
    ctx.check(i.task_count == n, "the number of tasks is wrong")
    ctx.check((i.scheduled_task_count, i.paused_task_count, i.pending_task_count) == (by("scheduled"), by("paused"), by("pending")), "the number of tasks in a state is wrong")
    ctx.check(i.submitted_task_count == sum(1 for f in facts.values() if f.get("submitted")), "the number of submitted tasks is wrong")
    ctx.check(i.running == started and i.identity == "s" and i.executor_aliases == ("Ex2", "default") and i.store_aliases == ("Two", "default"), "the scheduler's state is reported wrongly")
    ctx.check(i.state_label == ("paused" if started else "stopped"), "the scheduler's state is reported wrongly")
    if started:
        el = ctx.us(t1) - ctx.us(now)
        want = el if el > 0 else 0
        ctx.check(Eq(i.uptime_seconds * SEC, want), "the uptime is wrong")
        ctx.check(W.same(ctx, i.started_at, now), "the start time is wrong")
        ctx.reach("up")
    else:
        ctx.check(i.uptime_seconds is None and i.started_at is None, "a stopped scheduler has an uptime")
    (inst,) = s.get_scheduler_instance_infos()
    ctx.check(inst.task_count == n and inst.paused_task_count == by("paused") and inst.scheduled_task_count == by("scheduled") and inst.pending_task_count == by("pending"), "the instance's counts are wrong")
    ctx.check(inst.active == started and inst.stale == (not started) and W.same(ctx, inst.last_seen_at, t1), "the instance's liveness is wrong")
    for tid in facts:
        g = s.get_task_info(tid)
        ctx.check(g is not None and g.id == tid, "a known task is not found")
        other = "Two" if facts[tid]["store"] == "default" else "default"
        ctx.check(s.get_task_info(tid, other) is None and s.get_task_info(tid, facts[tid]["store"]) is not None, "a task is found in another store")
    ctx.check(s.get_task_info("unknown") is None, "an unknown task is found")
    unchanged(ctx, s, before)
    ctx.check(len(log) == 0, "inspecting the scheduler dispatches events or wakes it")
    ctx.reach("done")


def trigger(ctx, kind, now):
    import datetime as D

    from asyncz.triggers import AndTrigger, DateTrigger, IntervalTrigger, OrTrigger

    if kind == "stub":
        n = ctx.split(ctx.int("fires", 0, 4))
        ts = [ctx.dt("f%d" % i, LO, HI + DAY, UTC) for i in range(n)]
        for a, b in zip(ts, ts[1:]):
            ctx.assume(b > a)
        return make_trigger(ts)
    if kind == "interval":
        start = ctx.dt("start", LO, HI, UTC)
        return IntervalTrigger(hours=5, start_at=start, end_at=ctx.mkdt(ctx.us(start) + 13 * HOUR), timezone=UTC)
    if kind == "endless":
        return IntervalTrigger(hours=5, start_at=ctx.dt("start", LO, HI, UTC), timezone=UTC)
    if kind == "date":
        return DateTrigger(run_at=ctx.dt("run", LO, HI, UTC), timezone=UTC)
    a = [ctx.dt("a%d" % i, LO, HI + DAY, UTC) for i in range(2)]
    b = [ctx.dt("b%d" % i, LO, HI + DAY, UTC) for i in range(2)]
    ctx.assume(And(a[1] > a[0], b[1] > b[0]))
    if kind == "or":
        return OrTrigger([make_trigger(a), make_trigger(b)])
    ctx.assume(a[1] == b[1])
    return AndTrigger([make_trigger(a), make_trigger(b)])


def preview(ctx, kind, state):
    """What is previewed is what a scheduler that is never late runs; previewing modifies nothing."""
    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = p19.build(ctx, "base", log)
    trig = trigger(ctx, kind, now)
    kw = {}
    if state == "paused":
        kw["next_run_time"] = None
    elif state == "given":
        kw["next_run_time"] = ctx.dt("given", LO, HI + DAY, UTC)
    t, exc = p19.call(s, "add_task", W.noop, trig, id="x", max_instances=9, coalesce=False, mistrigger_grace_time=None, **kw)
    ctx.check(exc is None, "adding fails")
    if state != "pending":
        p19.call(s, "start", True)
    del log[:]
    before = freeze(s)
    count = ctx.split(ctx.int("count", 1, 4))
    explicit = ctx.flag("explicit now")
    later = ctx.dt("later", LO, HI, UTC)
    ctx.assume(later >= now)
    if not explicit:
        ctx.fixed_clock(later)
    p = s.preview_task_runs("x", count=count, **({"now": later} if explicit else {}))
    q = s.preview_task_runs("x", count=count, **({"now": later} if explicit else {}))
    times = list(p.run_times)
    ctx.check(len(q.run_times) == len(times), "two previews differ")
    for a, b in zip(times, q.run_times):
        ctx.check(W.same(ctx, a, b), "two previews differ")
    ctx.check(len(times) <= count and p.requested_count == count, "more runs are previewed than requested")
    ctx.check(W.same(ctx, p.generated_at, later), "the preview does not tell its time")
    for a, b in zip(times, times[1:]):
        ctx.check(b > a, "previewed runs do not increase")
    unchanged(ctx, s, before)
    ctx.check(len(log) == 0, "previewing dispatches events or wakes the scheduler")
    ctx.check(p.task.id == "x" and s.preview_task_runs("unknown", count=1) is None, "another task is previewed")
    # what a punctual scheduler does from here
    ctx.fixed_clock(later)
    if state == "pending":
        p19.call(s, "start", True)
    elif state == "paused":
        try:
            p19.call(s, "resume_task", "x")
        except Exception:
            pass
    p19.call(s, "resume")
    real = []
    while len(real) < count:
        t = s.get_task("x")
        d = t.next_run_time if t is not None else None
        if d is None:
            break
        real.append(d)
        if len(real) < count:
            ctx.fixed_clock(d)
            n0 = len(log.kinds("run"))
            s.process_tasks()
            ctx.check(len(log.kinds("run")) == n0 + 1, "the scheduler does not run the task")
    more = None
    t = s.get_task("x")
    if t is not None and t.next_run_time is not None:
        ctx.fixed_clock(t.next_run_time)
        s.process_tasks()
        t = s.get_task("x")
        more = t is not None and t.next_run_time is not None
    ctx.check(len(times) == len(real), "other runs are previewed than the scheduler makes")
    for a, b in zip(times, real):
        ctx.check(W.same(ctx, a, b), "other runs are previewed than the scheduler makes")
    ctx.reach("full" if len(times) == count else "short")
    if len(times) < count:
        ctx.check(p.exhausted is True, "an exhausted preview does not tell so")
    else:
        ctx.check(p.exhausted == (not more), "the preview tells wrongly whether more runs follow")


def instances(tier):
    q = tier == "quick"
    out = []
    opts = dict(seconds=700 if q else 5000, extra=p19.PATCH, extra_concrete=p19.PATCH)
    for started in (False, True):
        w = "running" if started else "stopped"
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            for desc in (False, True):
                for sort in ["default"] + SORTS:
                    if n > 1:
                        out.append(dict(name="%s %d by %s%s" % (w, n, sort, " desc" if desc else ""), fn=infos, reach=["some"], weight=n,
                                        params=dict(n=n, started=started, filt=None, sort=sort, desc=desc, strlen=1 if q else 2), opts=opts))
            for filt in ("store", "state", "executor", "trigger", "q", "all"):
                if n == 3 and q and filt in ("q", "trigger"):
                    continue
                out.append(dict(name="%s %d with %s" % (w, n, filt), fn=infos, reach=["some"] + (["empty"] if filt != "q" else []), weight=n * 3,
                                params=dict(n=n, started=started, filt=filt, sort="default", desc=False, strlen=2 if q else 3), opts=opts))
            out.append(dict(name="%s %d counts" % (w, n), fn=counts, reach=["done"] + (["up"] if started else []), params=dict(n=n, started=started), opts=opts))
    for what in ("sort", "state", "count"):
        out.append(dict(name="invalid %s" % what, fn=invalid, reach=["rejected"], params=dict(what=what), opts=opts))
    for kind in ("stub", "interval", "endless", "date", "or", "and"):
        for state in ("scheduled", "pending", "paused", "given"):
            out.append(dict(name="preview %s %s" % (kind, state), fn=preview, weight=4, reach=["full"] + (["short"] if kind != "endless" else []),
                            params=dict(kind=kind, state=state), opts=opts))
    return out
