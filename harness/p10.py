"""P10 running a task by hand."""
from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "one task with up to three fire times (thorough: five) plus a bystander task in two stores, every flag combination, task state and executor outcome; the trigger's answer after the run is arbitrary"
OUTSIDE = "more than five missed runs; listeners that modify the task"
ASSUMPTIONS = ["the trigger answers the due-run questions with strictly increasing times", "the memory store (P13) as back end"]
LO, HI = T0, T0 + 4 * DAY


def trigger_after(ctx, times, log, answer):
    """Fire times `times` until something was submitted, then the arbitrary answer."""
    base = make_trigger(times, relative=True)

    class T(type(base)):
        def get_next_trigger_time(self, timezone, previous_time, now=None):
            if log.kinds("send"):
                log.append(("ask", previous_time, now))
                return answer
            return super().get_next_trigger_time(timezone, previous_time, now)

    return T()


def run(ctx, n, style, by_object=False):
    from asyncz.events.constants import TASK_ADDED, TASK_MAX_INSTANCES, TASK_MODIFIED, TASK_REMOVED, TASK_SUBMITTED
    from asyncz.exceptions import MaximumInstancesError

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    s = W.scheduler(log)
    o = ctx.choice("outcome", ["ok", "max", "error"])

    def out(task, run_times):
        return dict(ok=None, max=MaximumInstancesError(task.id, 1), error=RuntimeError("executor down"))[o]

    s.add_executor(W.executor(log, "default", out), "default")
    s.add_store("memory", "default")
    s.add_store("memory", "other")
    coalesce = ctx.flag("coalesce")
    force = ctx.flag("force")
    remove = ctx.flag("remove_finished")
    times = schedule(ctx, "t", n, LO, HI)
    ex = ctx.choice("executor", ["default", "gone"])
    home = ctx.choice("store", ["default", "other"])
    answer = ctx.opt("answer", lambda: ctx.dt("answer", LO, HI, UTC))
    exact = None
    if style == "arbitrary":
        trig = trigger_after(ctx, times, log, answer)
    else:
        trig = make_trigger(times, relative=True)
    s.add_task(W.noop, trig, id="t", store=home, coalesce=coalesce, executor=ex, next_run_time=times[0], mistrigger_grace_time=None)
    other = ctx.dt("bystander", LO, HI, UTC)
    s.add_task(W.noop, make_trigger([other]), id="u", store="default", next_run_time=other)
    ctx.fixed_clock(now)
    s.start()
    paused = ctx.flag("paused")
    if paused:
        s.pause_task("t")
    W.listen(s)
    del log[:]
    arg = s.get_task("t") if by_object else "t"
    st = ctx.choice("given store", [None, home])
    raised = None
    res = "nothing"
    try:
        res = s.run_task(arg, st, force=force, remove_finished=remove)
    except Exception as e:  # noqa: BLE001
        raised = e
    sends = log.kinds("send")
    evs = [e for _, e in log.kinds("event")]
    sub = [e for e in evs if e.code == TASK_SUBMITTED]
    mx = [e for e in evs if e.code == TASK_MAX_INSTANCES]
    stored = s.get_task("t", home)
    u = s.get_task("u", "default")
    ctx.check(u is not None and W.same(ctx, u.next_run_time, other), "another task was changed")
    ctx.check(s.get_task("t", "other" if home == "default" else "default") is None, "the task appeared in another store")
    elapsed = [] if paused else [x for x in times if x <= now]
    ctx.observe("sends", [x[3] for x in sends])
    before = None if paused else times[0]

    def untouched(msg):
        ctx.check(stored is not None and W.same(ctx, stored.next_run_time, before), msg)

    if not elapsed and not force:
        ctx.reach("nothing due")
        ctx.check(raised is None and not sends and not evs, "an unforced run of a task that is not due did something")
        untouched("an unforced run of a task that is not due changed its schedule")
        ctx.check(res is not None and res != "nothing" and res.id == "t", "the task is not returned")
        return
    exp = elapsed or [now]
    dropped = 0
    if coalesce and elapsed:
        exp, dropped = elapsed[-1:], len(elapsed) - 1
    if ex == "gone":
        ctx.reach("no executor")
        ctx.check(raised is not None and not sends and not sub and not mx, "a run without executor is not reported")
        untouched("a run that failed changed the schedule")
        return
    ctx.check(len(sends) == 1 and sends[0][2] == "t", "the task was not submitted exactly once")
    got = sends[0][3]
    ctx.check(len(got) == len(exp), "wrong run times submitted")
    for a, b in zip(got, exp):
        ctx.check(W.same(ctx, a, b), "wrong run times submitted")
    for e in sub + mx:
        ctx.check(e.store == home and e.task_id == "t" and e.source == "manual", "the event describes another submission")
        ctx.check(len(e.scheduled_run_times) == len(exp) and e.coalesced_run_count == dropped, "the event describes another submission")
        for a, b in zip(e.scheduled_run_times, exp):
            ctx.check(W.same(ctx, a, b), "the event describes another submission")
    if o != "ok":
        ctx.reach(o)
        ctx.check(raised is not None, "the executor's failure is not reported to the caller")
        ctx.check(isinstance(raised, MaximumInstancesError if o == "max" else RuntimeError), "another error is reported")
        ctx.check(len(mx) == (1 if o == "max" else 0) and not sub, "wrong events for a failed submission")
        untouched("a run that failed changed the schedule")
        return
    ctx.check(raised is None, "a successful manual run raises")
    ctx.check(len(sub) == 1 and not mx, "wrong events for a manual run")
    if style == "arbitrary":
        ask = log.kinds("ask")
        ctx.check(len(ask) >= 1 and W.same(ctx, ask[-1][1], exp[-1]) and W.same(ctx, ask[-1][2], now),
                  "the next run is not asked for after the last submitted one")
        nxt = answer
    else:
        rest = [x for x in times if x > exp[-1]]
        nxt = rest[0] if rest else None
    if nxt is None:
        if remove:
            ctx.reach("removed")
            ctx.check(stored is None and res is None, "a finished task was kept")
            ctx.check(len([e for e in evs if e.code == TASK_REMOVED]) == 1, "the removal is not announced once")
        else:
            ctx.reach("kept paused")
            ctx.check(stored is not None and stored.next_run_time is None and stored.id == "t", "a finished task was not kept paused")
        return
    ctx.check(stored is not None and stored.next_run_time is not None, "a task that still fires was dropped")
    ctx.check(stored.next_run_time > now, "the next run time does not lie in the future")
    ctx.check(W.same(ctx, res.next_run_time, stored.next_run_time), "the returned task differs from the stored one")
    if nxt > now:
        ctx.reach("re-armed")
        ctx.check(W.same(ctx, stored.next_run_time, nxt), "the task was not re-armed with the trigger's answer")
    else:
        ctx.reach("pushed")
        ctx.check(ctx.us(stored.next_run_time) <= ctx.us(now) + SEC, "a late answer was pushed far into the future")
    s2 = s.stores[home].get_due_tasks(stored.next_run_time)
    ctx.check(any(x.id == "t" for x in s2), "the store's schedule does not know the new run time")


def refused(ctx):
    """stopped scheduler / unknown task: an error and nothing else."""
    from asyncz.exceptions import SchedulerNotRunningError, TaskLookupError

    log = W.Log()
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    s = W.scheduler(log)
    s.add_executor(W.executor(log, "default"), "default")
    t = ctx.dt("t", LO, HI, UTC)
    s.add_task(W.noop, make_trigger([t]), id="t", next_run_time=t)
    started = ctx.flag("started")
    if started:
        s.start()
    tid = ctx.choice("id", ["t", "x"])
    st = ctx.choice("store", [None, "default", "nowhere"])
    raised = None
    try:
        s.run_task(tid, st, force=ctx.flag("force"))
    except Exception as e:  # noqa: BLE001
        raised = e
    if not started:
        ctx.reach("stopped")
        ctx.check(isinstance(raised, SchedulerNotRunningError) and not log.kinds("send"), "ran a task on a stopped scheduler")
    elif tid == "x" or st == "nowhere":
        ctx.reach("unknown")
        ctx.check(isinstance(raised, TaskLookupError) and not log.kinds("send"), "an unknown task is not reported")
    else:
        ctx.check(raised is None, "a known task is refused")


def instances(tier):
    out = []
    full = ["nothing due", "no executor", "max", "error", "removed", "kept paused", "re-armed"]
    top = 3 if tier == "quick" else 5
    for style in ("arbitrary", "relative"):
        for n in range(1, top + 1):
            for bo in (False, True):
                if bo and n != 2:
                    continue
                out.append(dict(name="%s answers, %d times%s" % (style, n, ", by object" if bo else ""), fn=run,
                                params=dict(n=n, style=style, by_object=bo), weight=n,
                                reach=full + (["pushed"] if style == "arbitrary" else []) if n > 1 or style == "arbitrary" else full))
    out.append(dict(name="refused", fn=refused, reach=["stopped", "unknown"]))
    return out
