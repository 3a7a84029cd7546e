"""The store contract, checked on a store given by a factory (shared by P13..P17)."""
import itertools

from harness import world as W
from harness.stubs import make_trigger
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

LO, HI = T0, T0 + 4 * DAY
OLD = T0 - 55 * 366 * DAY
IDS = ["a", "b", "c", "d", "e"]


def new_task(ctx, s, tid, time, name=None):
    import datetime

    from asyncz.tasks import Task
    from asyncz.triggers import DateTrigger

    return Task(W.noop, id=tid, scheduler=s, trigger=DateTrigger(run_at=datetime.datetime(2030, 1, 1, tzinfo=UTC)), next_run_time=time, name=name or "task " + tid, executor="default",
                store_alias="default", max_instances=2, coalesce=False, mistrigger_grace_time=5)


def any_time(ctx, name, grid, lo=LO):
    return ctx.opt(name, lambda: ctx.dt(name, lo, HI, UTC, grid))


def order(model):
    """ids by run time, paused last; ties are unordered -> comparison key list."""
    return model


def verify(ctx, store, model, probe):
    """The store's answers are those of the map `model`: id -> (time, name)."""
    every = store.get_all_tasks()
    ids = [t.id for t in every]
    ctx.check(sorted(ids) == sorted(model), "the store does not hold exactly the tasks added and not removed")
    for t in every:
        time, name = model[t.id]
        ctx.check(W.same(ctx, t.next_run_time, time) and t.name == name, "a stored task differs from the last version written")
    for x, y in zip(every, every[1:]):
        if x.next_run_time is None:
            ctx.check(y.next_run_time is None, "a paused task is listed before a scheduled one")
        elif y.next_run_time is not None:
            ctx.check(x.next_run_time <= y.next_run_time, "tasks are not listed in run time order")
    for tid in IDS:
        got = store.lookup_task(tid)
        ctx.check((got is not None) == (tid in model), "lookup disagrees with the store's content")
        if got is not None:
            ctx.check(got.id == tid and W.same(ctx, got.next_run_time, model[tid][0]) and got.name == model[tid][1], "lookup returns another version")
    times = [m[0] for m in model.values() if m[0] is not None]
    nxt = store.get_next_run_time()
    if not times:
        ctx.check(nxt is None, "a next run time without scheduled tasks")
    else:
        ctx.check(nxt is not None, "no next run time although a task is scheduled")
        ctx.check(And(*[nxt <= x for x in times]), "the next run time is not the earliest")
        ctx.check(Or(*[W.same(ctx, nxt, x) for x in times]), "the next run time belongs to no task")
    if probe is not None:
        due = store.get_due_tasks(probe)
        dids = [t.id for t in due]
        ctx.check(len(set(dids)) == len(dids), "a task is due twice")
        for tid, (time, _) in model.items():
            want = False if time is None else time <= probe
            ctx.check(Eq(want, tid in dids), "the due tasks are not exactly those whose time has come")
        ctx.check(all(d in model for d in dids), "a removed task is due")
        for x, y in zip(due, due[1:]):
            ctx.check(x.next_run_time <= y.next_run_time, "due tasks are not in run time order")


OPS = ["add", "update", "delete", "clear", "none"]


def step(ctx, factory, n, ops, perm, grid, tolerant_update, lo=LO):
    from asyncz.exceptions import ConflictIdError, TaskLookupError

    log = W.Log()
    s = W.scheduler(log)
    now = ctx.dt("now", LO, HI, UTC, grid)
    ctx.fixed_clock(now)
    store = factory(ctx, s)
    store.start(s, "default")
    model = {}
    for k in perm:
        time = any_time(ctx, IDS[k], grid, lo)
        store.add_task(new_task(ctx, s, IDS[k], time))
        model[IDS[k]] = (time, "task " + IDS[k])
    for i, op in enumerate(ops):
        if op == "none":
            continue
        tid = ctx.choice("id", IDS[: n + 1]) if op != "clear" else None
        raised = None
        if op == "add":
            time = any_time(ctx, "new", grid, lo)
            try:
                store.add_task(new_task(ctx, s, tid, time, "added"))
            except ConflictIdError as e:
                raised = e
            if tid in model:
                ctx.reach("conflict")
                ctx.check(raised is not None, "adding an existing id is accepted")
            else:
                ctx.reach("added")
                ctx.check(raised is None, "adding a new id is refused")
                model[tid] = (time, "added")
        elif op == "update":
            time = any_time(ctx, "new", grid, lo)
            in_place = tid in model and ctx.flag("in place")
            if in_place:
                t = store.lookup_task(tid)
                t.update_task(next_run_time=time, name="updated")
            else:
                t = new_task(ctx, s, tid, time, "updated")
            try:
                store.update_task(t)
            except TaskLookupError as e:
                raised = e
            if tid in model:
                ctx.reach("updated")
                ctx.check(raised is None, "updating a stored task fails")
                model[tid] = (time, "updated")
            elif tolerant_update:
                ctx.check(raised is None, "update fails")
                model[tid] = (time, "updated")
            else:
                ctx.reach("unknown")
                ctx.check(raised is not None, "updating an unknown task is accepted")
        elif op == "delete":
            try:
                store.delete_task(tid)
            except TaskLookupError as e:
                raised = e
            if tid in model:
                ctx.reach("deleted")
                ctx.check(raised is None, "removing a stored task fails")
                del model[tid]
            else:
                ctx.reach("unknown")
                ctx.check(raised is not None, "removing an unknown task is accepted")
        else:
            store.remove_all_tasks()
            model = {}
            ctx.reach("cleared")
        if i < len(ops) - 1:
            verify(ctx, store, model, None)
    verify(ctx, store, model, ctx.dt("probe", lo, HI, UTC, grid))


def unreadable(ctx, factory, n, which, grid, corrupt, lookup_drops, ask):
    """A record that cannot be restored is dropped, the others stay."""
    log = W.Log()
    s = W.scheduler(log)
    now = ctx.dt("now", LO, HI, UTC, grid)
    ctx.fixed_clock(now)
    store = factory(ctx, s)
    store.start(s, "default")
    model = {}
    for k in range(n):
        time = any_time(ctx, IDS[k], grid)
        store.add_task(new_task(ctx, s, IDS[k], time))
        model[IDS[k]] = (time, "task " + IDS[k])
    bad = IDS[which]
    corrupt(store, bad)
    time = model.pop(bad)[0]
    if ask == "list":
        got = store.get_all_tasks()
        ctx.check(sorted(t.id for t in got) == sorted(model), "an unreadable record affects the listing of the others")
    elif ask == "due":
        probe = ctx.dt("probe", LO, HI, UTC, grid)
        got = [t.id for t in store.get_due_tasks(probe)]
        for tid, (t, _) in model.items():
            ctx.check(Eq(False if t is None else t <= probe, tid in got), "an unreadable record affects the due tasks")
        ctx.check(bad not in got, "an unreadable record is due")
        if time is None or not (time <= probe):
            store.get_all_tasks()
    elif ask == "lookup":
        got = store.lookup_task(bad)
        ctx.check(got is None, "an unreadable record is returned")
    ctx.reach("dropped")
    verify(ctx, store, model, ctx.dt("probe2", LO, HI, UTC, grid))
    # its id is free again
    store.add_task(new_task(ctx, s, bad, time))
    ctx.check(store.lookup_task(bad) is not None, "the id of a dropped record cannot be used again")


def faulty(ctx, factory, n, op, grid, backend):
    """The back end fails at any of its commands: the operation happened entirely or not at all."""
    log = W.Log()
    s = W.scheduler(log)
    now = ctx.dt("now", LO, HI, UTC, grid)
    ctx.fixed_clock(now)
    store = factory(ctx, s)
    store.start(s, "default")
    old = {}
    for k in range(n):
        time = any_time(ctx, IDS[k], grid)
        store.add_task(new_task(ctx, s, IDS[k], time))
        old[IDS[k]] = (time, "task " + IDS[k])
    be = backend(store)
    be.count = 0
    be.fail_at = ctx.split(ctx.int("fails at", 1, 4), 8)
    new = dict(old)
    tid = IDS[n] if op == "add" else ctx.choice("id", IDS[:n])
    time = any_time(ctx, "new", grid)
    failed = False
    try:
        if op == "add":
            new[tid] = (time, "added")
            store.add_task(new_task(ctx, s, tid, time, "added"))
        elif op == "update":
            new[tid] = (time, "updated")
            store.update_task(new_task(ctx, s, tid, time, "updated"))
        elif op == "delete":
            del new[tid]
            store.delete_task(tid)
        elif op == "clear":
            new = {}
            store.remove_all_tasks()
    except ConnectionError:
        failed = True
    ctx.reach("failed" if failed else "done")
    be.fail_at = None
    names = {t.id: t.name for t in store.get_all_tasks()}
    is_new = names == {k: v[1] for k, v in new.items()}
    ctx.check(is_new or names == {k: v[1] for k, v in old.items()}, "a failed operation leaves neither the old nor the new content")
    if not failed:
        ctx.check(is_new, "an operation that succeeded has no effect")
    verify(ctx, store, new if is_new else old, ctx.dt("probe", LO, HI, UTC, grid))


def perms(n, tier):
    return list(itertools.permutations(range(n)))


def clocks(ctx, factory, zone, around, grid, n):
    """Run times in a zone whose clocks are changed are ordered and due as the instants they are."""
    from zoneinfo import ZoneInfo

    tz = ZoneInfo(zone)
    lo, hi = around - 2 * HOUR, around + 2 * HOUR
    log = W.Log()
    s = W.scheduler(log, timezone=tz)
    now = ctx.dt("now", lo, hi, tz, grid)
    ctx.fixed_clock(now)
    store = factory(ctx, s)
    store.start(s, "default")
    model = {}
    for k in range(n):
        time = ctx.dt(IDS[k], lo, hi, tz, grid)
        store.add_task(new_task(ctx, s, IDS[k], time))
        model[IDS[k]] = ctx.us(time)
    every = [(t.id, ctx.us(t.next_run_time)) for t in store.get_all_tasks()]
    ctx.check(sorted(i for i, _ in every) == sorted(model), "the store does not hold exactly the tasks added")
    ctx.check(And(*[Eq(u, model[i]) for i, u in every]), "a stored run time differs")
    ctx.check(And(*[a[1] <= b[1] for a, b in zip(every, every[1:])]), "tasks are not listed in run time order")
    first = ctx.us(store.get_next_run_time())
    ctx.check(And(*[first <= u for u in model.values()]), "the next run time is not the earliest")
    due = [t.id for t in store.get_due_tasks(now)]
    for i, u in model.items():
        ctx.check(Eq(u <= ctx.us(now), i in due), "the due tasks are not exactly those whose time has come")
    ctx.reach("due" if due else "not due")


def instances(tier, factory, tolerant_update=False, tops=(3, 4), grid=1, two=True, corrupt=None, lookup_drops=False, extra=(), lo=LO, label="", window=None,
              extra_concrete=(), backend=None):
    out = []
    opts = dict(seconds=5000 if tier != "quick" else 700, extra=list(extra), extra_concrete=list(extra_concrete))
    if window:
        opts["window"] = window
    top = tops[0] if tier == "quick" else tops[1]
    common = dict(factory=factory, grid=grid, tolerant_update=tolerant_update, lo=lo)
    for n in range(0, top + 1):
        for perm in perms(n, tier):
            for op in OPS[:-1] if n else ["add", "delete", "update", "clear", "none"]:
                if n == top and n > 2 and op == "clear" and perm != perms(n, tier)[0]:
                    continue
                reach = {"add": ["added"] + (["conflict"] if n else []), "delete": ["unknown"] + (["deleted"] if n else []),
                         "update": ["updated"] if n else [], "clear": ["cleared"], "none": []}[op]
                out.append(dict(name="%s%s on %s" % (label, op, "".join(IDS[k] for k in perm) or "empty"), fn=step, reach=reach, weight=n,
                                params=dict(common, n=n, ops=[op], perm=list(perm)), opts=opts))
    if two:
        m = 1 if tier == "quick" else 2
        for perm in perms(m, tier):
            for o1 in OPS[:-1]:
                for o2 in OPS[:-1]:
                    out.append(dict(name="%s%s, %s on %s" % (label, o1, o2, "".join(IDS[k] for k in perm)), fn=step, reach=[],
                                    params=dict(common, n=m, ops=[o1, o2], perm=list(perm)), opts=opts))
    for zone, name, around in (("Europe/Berlin", "autumn", 1729990800 * SEC), ("Europe/Berlin", "spring", 1711846800 * SEC)):
        if not label:
            out.append(dict(name="in %s, %s" % (zone, name), fn=clocks, reach=["due", "not due"], params=dict(factory=factory, zone=zone, around=around, grid=grid, n=2), opts=dict(opts, window=(2024, 2025))))
    if backend:
        for n in (1, 2):
            for op in OPS[:-1]:
                out.append(dict(name="fault during %s of %d" % (op, n), fn=faulty, reach=["failed", "done"], weight=n,
                                params=dict(factory=factory, n=n, op=op, grid=grid, backend=backend), opts=opts))
    if corrupt:
        for n in range(1, top + 1):
            for which in range(n):
                for ask in ["list", "due"] + (["lookup"] if lookup_drops else []):
                    out.append(dict(name="unreadable record %d of %d, %s" % (which + 1, n, ask), fn=unreadable, reach=["dropped"], weight=n,
                                    params=dict(factory=factory, n=n, which=which, grid=grid, corrupt=corrupt, lookup_drops=lookup_drops, ask=ask), opts=opts))
    return out
