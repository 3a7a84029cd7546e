"""P05 due run times and coalescing."""
from harness import world as W
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "up to five (quick) / eight (thorough) fire times of an arbitrary, interval or cron trigger; all next run times and current times"
OUTSIDE = "longer backlogs"
ASSUMPTIONS = ["triggers return strictly increasing fire times"]
LO, HI = T0, T0 + 4 * DAY


def setup(ctx, trigger, nrt, coalesce):
    log = W.Log()
    s = W.scheduler(log)
    s.add_executor(W.executor(log, "default"), "default")
    W.listen(s)
    s.add_task(W.noop, trigger, id="t", next_run_time=nrt, coalesce=coalesce, mistrigger_grace_time=None)
    s.start()
    return s, log


def judge(ctx, s, log, expected_all, coalesce, via):
    """expected_all: list of (time, condition that it is due) in order"""
    from asyncz.events.constants import TASK_SUBMITTED

    sends = log.kinds("send")
    n_due = sum_conds(ctx, [c for _, c in expected_all])
    if not sends:
        ctx.reach("not due")
        ctx.check(Eq(n_due, 0), "a due task was not submitted")
        return
    ctx.check(len(sends) == 1, "submitted more than once in one round")
    times = sends[0][3]
    ev = [e for _, e in log.kinds("event") if e.code == TASK_SUBMITTED]
    ctx.check(len(ev) == 1, "not exactly one submission event")
    ctx.check(len(ev[0].scheduled_run_times) == len(times), "the event reports other run times")
    for a, b in zip(ev[0].scheduled_run_times, times):
        ctx.check(W.same(ctx, a, b), "the event reports other run times")
    ctx.observe("times", times)
    if coalesce:
        ctx.reach("coalesced")
        ctx.check(len(times) == 1, "coalescing submits exactly one run")
        # the last due time
        for i, (t, due) in enumerate(expected_all):
            nxt = expected_all[i + 1][1] if i + 1 < len(expected_all) else False
            ctx.check(Or(Not(And(due, Not(nxt))), W.same(ctx, times[0], t)), "coalescing keeps another run than the most recent one")
        ctx.check(Eq(n_due - 1, ev[0].coalesced_run_count), "wrong number of coalesced runs reported")
    else:
        ctx.reach("all")
        ctx.check(Eq(n_due, len(times)), "not every elapsed fire time is submitted, or too many are")
        for t, (e, due) in zip(times, expected_all):
            ctx.check(And(due, W.same(ctx, t, e)), "a submitted run time is not the next elapsed fire time")
        ctx.check(Eq(ev[0].coalesced_run_count, 0), "coalesced runs reported without coalescing")


def sum_conds(ctx, conds):
    from symx.ctx import Ite

    n = 0
    for c in conds:
        n = n + Ite(c, 1, 0)
    return n


def arbitrary(ctx, n, coalesce, own_next, manual=False):
    times = schedule(ctx, "t", n, LO, HI)
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    if own_next:  # a next run time set by the user, off the trigger's schedule
        nrt = ctx.dt("next", LO, HI, UTC)
        exp = [(nrt, nrt <= now)] + [(t, And(t > nrt, t <= now)) for t in times]
        # reference order: only the times after nrt; compact below
        later = [t for t in times if t > nrt]
        exp = [(nrt, nrt <= now)] + [(t, And(nrt <= now, t <= now)) for t in later]
    else:
        nrt = times[0]
        exp = [(t, t <= now) for t in times]
    s, log = setup(ctx, make_trigger(times, relative=True), nrt, coalesce)
    if manual:
        s.run_task("t", force=False)
    else:
        s.process_tasks()
    judge(ctx, s, log, exp, coalesce, None)


def interval(ctx, args, n, coalesce):
    from datetime import timedelta

    from asyncz.triggers.interval import IntervalTrigger

    nrt = ctx.dt("next", LO, LO + DAY, UTC)
    now = ctx.dt("now", LO, LO + DAY, UTC)
    iv = timedelta(**args)
    ius = (iv.days * 86400 + iv.seconds) * SEC
    ctx.assume(ctx.us(now) < ctx.us(nrt) + n * ius)
    ctx.fixed_clock(now)
    end = ctx.opt("end", lambda: ctx.dt("end", LO, LO + DAY, UTC))
    if end is not None:
        ctx.assume(end >= nrt)
    t = IntervalTrigger(start_at=nrt, end_at=end, timezone=UTC, **args)
    s, log = setup(ctx, t, nrt, coalesce)
    s.process_tasks()
    exp = [(nrt + k * iv, And(nrt + k * iv <= now, True if end is None else nrt + k * iv <= end)) for k in range(n)]
    judge(ctx, s, log, exp, coalesce, None)


def cron(ctx, spec, step, n, coalesce):
    """A cron trigger that fires every `step` microseconds."""
    from asyncz.triggers.cron import CronTrigger

    base = ctx.dtf("base", LO, LO + DAY - 1, UTC, MIN)
    k = ctx.int("missed", -1, n - 1)
    nrt = base
    ctx.assume(Eq(nrt.minute % (step // MIN), 0))
    off = ctx.int("off", 0, step - 1)
    now = nrt + ctx.mktd(ctx.split(k, 16) * step + off)
    ctx.fixed_clock(now)
    s, log = setup(ctx, CronTrigger(timezone=UTC, **spec), nrt, coalesce)
    s.process_tasks()
    exp = [(nrt + ctx.mktd(i * step), nrt + ctx.mktd(i * step) <= now) for i in range(n)]
    judge(ctx, s, log, exp, coalesce, None)


def direct(ctx, n):
    """Task.get_run_times without a scheduler round."""
    times = schedule(ctx, "t", n, LO, HI)
    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    paused = ctx.flag("paused")
    s, log = setup(ctx, make_trigger(times, relative=True), None if paused else times[0], False)
    r = s.get_task("t").get_run_times(UTC, now)
    ctx.observe("r", r)
    if paused:
        ctx.reach("paused")
        ctx.check(r == [], "a paused task has run times")
        return
    ctx.reach("run")
    exp = [t for t in times if t <= now]
    ctx.check(len(r) == len(exp), "wrong number of run times")
    for a, b in zip(r, exp):
        ctx.check(W.same(ctx, a, b), "wrong run time")


def instances(tier):
    n = 5 if tier == "quick" else 8
    out = []
    for c in (True, False):
        for own in (True, False):
            out.append(dict(name="arbitrary coalesce=%s own_next=%s" % (c, own), fn=arbitrary, params=dict(n=n, coalesce=c, own_next=own),
                            reach=["not due", "coalesced" if c else "all"], weight=3))
        out.append(dict(name="manual coalesce=%s" % c, fn=arbitrary, params=dict(n=3, coalesce=c, own_next=False, manual=True),
                        reach=["not due", "coalesced" if c else "all"], weight=3))
        for a in (dict(seconds=1), dict(minutes=7, seconds=30), dict(hours=2)):
            out.append(dict(name="interval %s coalesce=%s" % (a, c), fn=interval, params=dict(args=a, n=n, coalesce=c),
                            reach=["not due", "coalesced" if c else "all"], weight=2))
        out.append(dict(name="cron coalesce=%s" % c, fn=cron, params=dict(spec=dict(minute="*/15"), step=15 * MIN, n=3, coalesce=c),
                        reach=["not due", "coalesced" if c else "all"], weight=5, opts=dict(window=(2023, 2026), seconds=300)))
    out.append(dict(name="direct", fn=direct, params=dict(n=3), reach=["paused", "run"]))
    return out
