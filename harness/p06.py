"""P06 one processing round of the scheduler."""
from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Ite, Not, Or

BOUNDS = "up to three tasks in one or two stores, two to four fire times per task, up to three rounds, every executor outcome"
OUTSIDE = "more tasks; listeners or task functions that modify the store during the round"
ASSUMPTIONS = ["triggers return strictly increasing fire times", "the memory store (P13) as back end"]
LO, HI = T0, T0 + 4 * DAY
IDS = ["alpha", "beta", "gamma"]


def build(ctx, log, stores, tasks, now, rich):
    """tasks: list of (store, number of fire times)"""
    from asyncz.exceptions import MaximumInstancesError

    s = W.scheduler(log)
    outcome = {}

    def out(task, run_times):
        o = outcome[task.id]
        if o == "max":
            return MaximumInstancesError(task.id, 1)
        if o == "error":
            return RuntimeError("executor down")
        return None

    s.add_executor(W.executor(log, "default", out), "default")
    s.add_executor(W.executor(log, "other", out), "other")
    for a in stores:
        s.add_store("memory", a)
    W.listen(s)
    ts = []
    for k, (store, n) in enumerate(tasks):
        tid = IDS[k]
        times = schedule(ctx, tid, n, LO, HI)
        coalesce = ctx.flag(tid + ".coalesce") if rich[k] else False
        paused = ctx.flag(tid + ".paused") if rich[k] else False
        ex = ctx.choice(tid + ".executor", ["default", "other", "gone"]) if rich[k] else "default"
        outcome[tid] = ctx.choice(tid + ".outcome", ["ok", "max", "error"]) if rich[k] else "ok"
        s.add_task(W.noop, make_trigger(times, relative=True), id=tid, store=store, coalesce=coalesce, executor=ex,
                   next_run_time=None if paused else times[0], mistrigger_grace_time=None)
        ts.append(dict(id=tid, store=store, times=times, coalesce=coalesce, paused=paused, ex=ex))
    ctx.fixed_clock(now)
    s.start()
    for t in ts:
        if t["paused"]:
            s.pause_task(t["id"])
    del log[:]
    return s, ts, outcome


def one_round(ctx, stores, tasks, rich):
    from asyncz.events.constants import TASK_MAX_INSTANCES, TASK_SUBMITTED

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    s, ts, outcome = build(ctx, log, stores, tasks, now, rich)
    # nothing was started before the first round
    ctx.check(not log.kinds("send"), "a task was submitted before the first round")
    s.process_tasks()
    sends = log.kinds("send")
    first_ev = min([i for i, x in enumerate(log) if x[0] == "event" and x[1].code in (TASK_SUBMITTED, TASK_MAX_INSTANCES)], default=len(log))
    last_send = max([i for i, x in enumerate(log) if x[0] == "send"], default=-1)
    ctx.check(last_send < first_ev, "a submission event was dispatched during the round")
    evs = [e for _, e in log.kinds("event")]
    ctx.observe("sends", [(x[1], x[2], x[3]) for x in sends])
    for t in ts:
        mine = [x for x in sends if x[2] == t["id"]]
        tev = [e for e in evs if getattr(e, "task_id", None) == t["id"]]
        sub = [e for e in tev if e.code == TASK_SUBMITTED]
        mx = [e for e in tev if e.code == TASK_MAX_INSTANCES]
        stored = s.get_task(t["id"], t["store"])
        if t["paused"]:
            ctx.reach("paused")
            ctx.check(not mine and stored is not None and stored.next_run_time is None and not tev, "a paused task was touched")
            continue
        due = bool(t["times"][0] <= now)
        if not due:
            ctx.reach("not due")
            ctx.check(not mine and not tev, "a task that is not due was submitted")
            ctx.check(stored is not None and W.same(ctx, stored.next_run_time, t["times"][0]), "a task that is not due was changed")
            continue
        if t["ex"] == "gone":
            ctx.reach("gone")
            ctx.check(stored is None, "a due task without executor stays in its store")
            ctx.check(not mine and not sub and not mx, "a task without executor was submitted")
            continue
        ctx.reach("due")
        ctx.check(len(mine) == 1, "a due task was not submitted exactly once")
        ctx.check(mine[0][1] == t["ex"], "submitted to another executor")
        elapsed = [x for x in t["times"] if x <= now]
        exp = elapsed[-1:] if t["coalesce"] else elapsed
        got = mine[0][3]
        ctx.check(len(got) == len(exp), "wrong run times submitted")
        for a, b in zip(got, exp):
            ctx.check(W.same(ctx, a, b), "wrong run times submitted")
        o = outcome[t["id"]]
        ctx.reach(o)
        ctx.check(len(sub) == (1 if o == "ok" else 0), "wrong number of submitted events")
        ctx.check(len(mx) == (1 if o == "max" else 0), "wrong number of max-instances events")
        for e in sub + mx:
            ctx.check(e.store == t["store"] and len(e.scheduled_run_times) == len(exp), "the event describes another submission")
            for a, b in zip(e.scheduled_run_times, exp):
                ctx.check(W.same(ctx, a, b), "the event describes another submission")
            ctx.check(e.coalesced_run_count == len(elapsed) - len(exp), "wrong coalesced count in the event")
        rest = t["times"][len(elapsed):]
        if rest:
            ctx.reach("re-armed")
            ctx.check(stored is not None, "a task whose trigger still fires was removed")
            ctx.check(W.same(ctx, stored.next_run_time, rest[0]), "the task was not re-armed with the next fire time")
            ctx.check(stored.executor == t["ex"] and stored.id == t["id"], "the task was changed otherwise")
        else:
            ctx.reach("finished")
            ctx.check(stored is None, "a finished task stays in its store")
    ctx.check(len(s.get_tasks()) == sum(1 for t in ts if s.get_task(t["id"], t["store"]) is not None), "foreign tasks in the stores")


def rounds(ctx, ntimes, nrounds, coalesce):
    """Over several rounds every fire time is submitted exactly once, in order."""
    log = W.Log()
    now0 = ctx.dt("now", LO, HI, UTC)
    s, ts, outcome = build(ctx, log, ["default"], [("default", ntimes)], now0, [False])
    t = ts[0]
    if coalesce:
        s.update_task(t["id"], coalesce=True)
    now = now0
    nows = []
    for r in range(nrounds):
        if r:
            nxt = ctx.dt("now", LO, HI, UTC)
            ctx.assume(nxt >= now)
            now = nxt
        nows.append(now)
        ctx.fixed_clock(now)
        s.process_tasks()
    got = [x for e in log.kinds("send") for x in e[3]]
    elapsed = [x for x in t["times"] if x <= now]
    ctx.observe("got", got)
    if coalesce:
        # exactly the last fire time elapsed in each round
        exp = []
        for k, x in enumerate(t["times"]):
            for r, n in enumerate(nows):
                lo = nows[r - 1] if r else None
                if x <= n and (lo is None or x > lo):
                    if not any(y <= n for y in t["times"][k + 1:k + 2]):
                        exp.append(x)
                    break
        ctx.check(len(got) == len(exp), "over several rounds: not one coalesced run per round with elapsed fire times")
        for a, b in zip(got, exp):
            ctx.check(W.same(ctx, a, b), "over several rounds: wrong coalesced run")
    else:
        ctx.check(len(got) == len(elapsed), "over several rounds a fire time was lost or submitted twice")
        for a, b in zip(got, elapsed):
            ctx.check(W.same(ctx, a, b), "over several rounds the fire times are submitted out of order")
    ctx.reach("ok")
    stored = s.get_task(t["id"])
    ctx.check((stored is None) == (len(elapsed) == len(t["times"])), "task kept or removed wrongly after several rounds")


def lookup_order(ctx):
    """Same id in two stores: each is processed for itself."""
    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    s = W.scheduler(log)
    s.add_executor(W.executor(log, "default"), "default")
    s.add_store("memory", "default")
    s.add_store("memory", "second")
    a = schedule(ctx, "a", 2, LO, HI)
    b = schedule(ctx, "b", 2, LO, HI)
    ctx.fixed_clock(now)
    s.add_task(W.noop, make_trigger(a, relative=True), id="x", next_run_time=a[0], coalesce=False, mistrigger_grace_time=None)
    s.add_task(W.noop, make_trigger(b, relative=True), id="x", store="second", next_run_time=b[0], coalesce=False, mistrigger_grace_time=None)
    s.start()
    s.process_tasks()
    for times, store in ((a, "default"), (b, "second")):
        st = s.get_task("x", store)
        rest = [t for t in times if t > now]
        ctx.check((st is None) == (not rest), "equal ids in two stores are mixed up")
        if rest:
            ctx.reach("rest")
            ctx.check(W.same(ctx, st.next_run_time, rest[0]), "equal ids in two stores are mixed up")


def clocks(ctx, zone, around, k):
    """In a zone whose clocks are changed: what has elapsed is submitted, and the wait is what is to elapse."""
    from datetime import timedelta
    from zoneinfo import ZoneInfo

    from asyncz.triggers.interval import IntervalTrigger

    tz = ZoneInfo(zone)
    lo, hi = around - 100 * MIN, around + 100 * MIN
    log = W.Log()
    now = ctx.dt("now", lo, hi, tz)
    n = ctx.us(now)
    ctx.fixed_clock(now)
    s = W.scheduler(log, timezone=tz)
    s.add_executor(W.executor(log, "default"), "default")
    firsts = []
    for i in range(k):
        f = ctx.dt("first", lo, hi, tz)
        s.add_task(W.noop, IntervalTrigger(minutes=70, start_at=f), id=IDS[i], next_run_time=f, coalesce=False, mistrigger_grace_time=None)
        firsts.append(f)
    s.start()
    wait = s.process_tasks()
    left = []
    for i, f in enumerate(firsts):
        u, got = ctx.us(f), [x for e in log.kinds("send") if e[2] == IDS[i] for x in e[3]]
        due = 0
        while bool(u <= n):
            ctx.check(len(got) > due and Eq(ctx.us(got[due]), u), "an elapsed run is not submitted")
            due += 1
            u = u + 70 * MIN
        ctx.check(len(got) == due, "a run is submitted before it is due")
        ctx.check(Eq(ctx.us(s.get_task(IDS[i]).next_run_time), u), "the task is not armed with its next run time")
        ctx.reach("due" if due else "not due")
        left.append(u)
    for u in left:
        ctx.check(wait is not None and wait >= 0 and wait * SEC <= u - n + 0.9, "the scheduler waits beyond the next run time")
    ctx.check(Or(*[wait * SEC >= u - n - 0.9 for u in left]), "the scheduler wakes up before the next run time")


def instances(tier):
    big = tier != "quick"
    out = [
        dict(name="one rich task", fn=one_round, params=dict(stores=["default"], tasks=[("default", 3)], rich=[True]),
             reach=["due", "not due", "paused", "gone", "ok", "max", "error", "re-armed", "finished"], weight=3),
        dict(name="two tasks, rich first", fn=one_round, params=dict(stores=["default"], tasks=[("default", 2), ("default", 2)], rich=[True, False]),
             reach=["due", "not due", "paused", "gone", "finished"], weight=6, opts=dict(seconds=600)),
        dict(name="two tasks, rich second", fn=one_round, params=dict(stores=["default"], tasks=[("default", 2), ("default", 2)], rich=[False, True]),
             reach=["due", "not due", "paused", "gone", "finished"], weight=6, opts=dict(seconds=600)),
        dict(name="two stores", fn=one_round, params=dict(stores=["default", "second"], tasks=[("default", 2), ("second", 2)], rich=[False, True]),
             reach=["due", "not due", "finished", "gone"], weight=6, opts=dict(seconds=600)),
        dict(name="three tasks", fn=one_round, params=dict(stores=["default"], tasks=[("default", 1), ("default", 2), ("default", 1)], rich=[False] * 3),
             reach=["due", "not due", "finished", "re-armed"], weight=8, opts=dict(seconds=600)),
        dict(name="same id in two stores", fn=lookup_order, reach=["rest"]),
        dict(name="two rounds", fn=rounds, params=dict(ntimes=4, nrounds=2, coalesce=False), reach=["ok"]),
        dict(name="three rounds", fn=rounds, params=dict(ntimes=3, nrounds=3, coalesce=False), reach=["ok"]),
        dict(name="three rounds coalesced", fn=rounds, params=dict(ntimes=4, nrounds=3, coalesce=True), reach=["ok"]),
    ]
    if big:
        out += [dict(name="two rich tasks", fn=one_round, params=dict(stores=["default"], tasks=[("default", 2), ("default", 2)], rich=[True, True]),
                     reach=["due"], weight=20, opts=dict(seconds=3600)),
                dict(name="three tasks in two stores", fn=one_round,
                     params=dict(stores=["default", "second"], tasks=[("default", 2), ("second", 2), ("default", 2)], rich=[False, True, False]),
                     reach=["due"], weight=20, opts=dict(seconds=3600)),
                dict(name="five rounds", fn=rounds, params=dict(ntimes=5, nrounds=5, coalesce=False), reach=["ok"], opts=dict(seconds=3600))]
    for zone, name, around in (("Europe/Berlin", "autumn", 1729990800 * SEC), ("Europe/Berlin", "spring", 1711846800 * SEC), ("America/New_York", "autumn", 1730613600 * SEC)):
        for k in (1, 2) if tier == "quick" else (1, 2, 3):
            out.append(dict(name="%d tasks in %s, %s" % (k, zone, name), fn=clocks, params=dict(zone=zone, around=around, k=k), reach=["due", "not due"], opts=dict(seconds=300, window=(2024, 2025))))
    return out
