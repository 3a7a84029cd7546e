"""P04 date, shutdown and combination triggers."""
from harness.stubs import make_trigger, schedule
from symx.ctx import DAY, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "two or three sub-triggers with up to three symbolic fire times each, interval-like or cron-like; any previous time, now and run date"
OUTSIDE = "sub-triggers that never agree and never end; jitter on sub-triggers"
ASSUMPTIONS = ["sub-triggers follow the trigger contract: strictly increasing fire times, the answer to (previous, now) is the earliest one after previous"]

LO, HI = T0, T0 + 4 * DAY


def date(ctx, tz):
    from asyncz.triggers.date import DateTrigger

    run = ctx.dt("run_at", LO, HI, tz)
    now = ctx.dt("now", LO, HI, UTC)
    prev = ctx.opt("prev", lambda: ctx.dt("prev", LO, HI, UTC))
    t = DateTrigger(run_at=run)
    r = t.get_next_trigger_time(UTC, prev, now)
    ctx.observe("r", r)
    if prev is None:
        ctx.reach("first")
        ctx.check(r is not None, "a date trigger does not yield its run date")
        ctx.check(Eq(ctx.us(r), ctx.us(run)), "a date trigger yields another date")
    else:
        ctx.reach("again")
        ctx.check(r is None, "a date trigger runs more than once")


def date_now(ctx):
    from asyncz.triggers.date import DateTrigger

    now = ctx.dt("now", LO, HI, UTC)
    ctx.fixed_clock(now)
    t = DateTrigger(timezone=UTC)
    r = t.get_next_trigger_time(UTC, None, ctx.dt("later", LO, HI, UTC))
    ctx.check(r is not None and Eq(ctx.us(r), ctx.us(now)), "a date trigger without a date does not run at its creation time")
    ctx.check(t.allow_mistrigger_by_default, "a date trigger without a date may be dropped as late")
    ctx.reach("ok")


def shutdown(ctx):
    from asyncz.triggers.shutdown import ShutdownTrigger

    t = ShutdownTrigger()
    prev = ctx.opt("prev", lambda: ctx.dt("prev", LO, HI, UTC))
    ctx.check(t.get_next_trigger_time(UTC, prev, ctx.dt("now", LO, HI, UTC)) is None, "a shutdown trigger yields a run time")
    ctx.reach("ok")


def member(ctx, t, times):
    return Or(*[Eq(ctx.us(t), ctx.us(x)) for x in times])


def and_trigger(ctx, sizes, relative, first, jitter=False):
    from asyncz.triggers.combination import AndTrigger

    scheds = [schedule(ctx, "t%d_" % k, n, LO, HI) for k, n in enumerate(sizes)]
    subs = [make_trigger(s, relative=rel) for s, rel in zip(scheds, relative)]
    now = ctx.dt("now", LO, HI, UTC)
    prev = None
    if not first:
        prev = ctx.dt("prev", LO, HI, UTC)
    j = ctx.int("jitter", 1, 60) if jitter else None
    t = AndTrigger(triggers=subs, jitter=j)
    r = t.get_next_trigger_time(UTC, prev, now)
    ctx.observe("r", r)
    common = [And(*[member(ctx, c, s) for s in scheds[1:]]) for c in scheds[0]]
    late = [And(c >= now, True if first else c > prev) for c in scheds[0]]
    if r is None:
        ctx.reach("finished")
        for c, m, l in zip(scheds[0], common, late):
            ctx.check(Not(And(m, l)), "finished although the sub-triggers still agree on a later time")
        return
    ctx.reach("run")
    if jitter:
        u = ctx.us(r)
        ctx.check(Or(*[And(m, u >= ctx.us(c), u <= ctx.us(c) + j * SEC, *([] if first else [c > prev]))
                       for c, m in zip(scheds[0], common)]), "a run more than `jitter` seconds away from the agreed time")
        return
    for s in scheds:
        ctx.check(member(ctx, r, s), "a time on which the sub-triggers do not agree")
    if not first:
        ctx.check(r > prev, "run time not after the previous one")
    else:
        ctx.check(r >= now, "run time in the past")
    for c, m, l in zip(scheds[0], common, late):
        ctx.check(Not(And(m, l, c < r)), "an agreed time was skipped")


def or_trigger(ctx, sizes, relative, first, jitter=False):
    from asyncz.triggers.combination import OrTrigger

    scheds = [schedule(ctx, "t%d_" % k, n, LO, HI) for k, n in enumerate(sizes)]
    subs = [make_trigger(s, relative=rel) for s, rel in zip(scheds, relative)]
    now = ctx.dt("now", LO, HI, UTC)
    prev = None if first else ctx.dt("prev", LO, HI, UTC)
    j = ctx.int("jitter", 1, 60) if jitter else None
    t = OrTrigger(triggers=subs, jitter=j)
    r = t.get_next_trigger_time(UTC, prev, now)
    ctx.observe("r", r)

    def ok(c, rel):
        """c is a remaining fire time of its trigger"""
        a = [] if first else [c > prev]
        if first or not rel:
            a.append(c >= now)
        return And(*a) if a else True

    if r is None:
        ctx.reach("finished")
        for s, rel in zip(scheds, relative):
            for c in s:
                ctx.check(Not(ok(c, rel)), "finished although a sub-trigger still fires")
        return
    ctx.reach("run")
    u = ctx.us(r)
    js = j * SEC if jitter else 0
    ctx.check(Or(*[And(u >= ctx.us(c), u <= ctx.us(c) + js, ok(c, rel)) for s, rel in zip(scheds, relative) for c in s]),
              "a time at which no sub-trigger fires")
    for s, rel in zip(scheds, relative):
        for c in s:
            ctx.check(Not(And(ok(c, rel), ctx.us(c) + js < u)), "an earlier fire time of a sub-trigger was skipped")


def real_and(ctx, a, b):
    """and[interval a s, interval b s] on a common start: every lcm-th second."""
    from math import lcm

    from asyncz.triggers.combination import AndTrigger
    from asyncz.triggers.interval import IntervalTrigger

    start = ctx.dt("start", LO, LO + DAY, UTC)
    k = ctx.int("slot", 0, 3)
    L = lcm(a, b)
    t = AndTrigger(triggers=[IntervalTrigger(seconds=a, start_at=start, timezone=UTC), IntervalTrigger(seconds=b, start_at=start, timezone=UTC)])
    prev = start + ctx.mktd(ctx.split(k) * L * SEC)
    r = t.get_next_trigger_time(UTC, prev, prev)
    ctx.check(r is not None, "finished")
    ctx.check(Eq(ctx.us(r), ctx.us(prev) + L * SEC), "two agreeing intervals: not the next common slot")
    ctx.reach("ok")
    now = ctx.dt("now", LO, LO + DAY, UTC)
    ctx.assume(And(now >= start, ctx.us(now) <= ctx.us(start) + 2 * L * SEC))
    f = t.get_next_trigger_time(UTC, None, now)
    u = ctx.us(f)
    ctx.check(And(u >= ctx.us(now), u - L * SEC < ctx.us(now), Eq((u - ctx.us(start)) % (L * SEC), 0)), "first run of two agreeing intervals: not the earliest common slot")


def clocks(ctx, zone, around, kind):
    """Combinations of runs in a zone whose clocks are changed."""
    from zoneinfo import ZoneInfo

    from asyncz.triggers.combination import AndTrigger, OrTrigger
    from asyncz.triggers.date import DateTrigger

    tz = ZoneInfo(zone)
    lo, hi = around - 7200 * SEC, around + 7200 * SEC
    a, b, now = (ctx.dt(n, lo, hi, tz) for n in ("a", "b", "now"))
    t = (AndTrigger if kind == "and" else OrTrigger)(triggers=[DateTrigger(run_at=a, timezone=tz), DateTrigger(run_at=b, timezone=tz)])
    r = t.get_next_trigger_time(tz, None, now)
    ctx.observe("r", r)
    u, v = ctx.us(a), ctx.us(b)
    if r is None:
        ctx.reach("none")
        ctx.check(And(kind == "and", Not(Eq(u, v))), "no run time although the triggers have one")
        return
    ctx.reach("run")
    w = ctx.us(r)
    ctx.check(And(Eq(w, u), Eq(w, v)) if kind == "and" else Or(And(Eq(w, u), u <= v), And(Eq(w, v), v <= u)), "not the earliest run time of the triggers")


def instances(tier):
    from datetime import timedelta, timezone

    out = [dict(name="date", fn=date, params=dict(tz=UTC), reach=["first", "again"]),
           dict(name="date +05:30", fn=date, params=dict(tz=timezone(timedelta(hours=5, minutes=30))), reach=["first", "again"]),
           dict(name="date now", fn=date_now, reach=["ok"]), dict(name="shutdown", fn=shutdown, reach=["ok"])]
    n = 2 if tier == "quick" else 3
    for rel in ((False, False), (True, True), (True, False), (False, True)):
        for first in (True, False):
            for fn in (and_trigger, or_trigger):
                out.append(dict(name="%s %s first=%s" % (fn.__name__, rel, first), fn=fn, weight=5,
                                params=dict(sizes=(n, n), relative=rel, first=first), reach=["run", "finished"],
                                opts=dict(seconds=500, path_seconds=20, max_decisions=300)))
        out.append(dict(name="or jitter %s" % (rel,), fn=or_trigger, params=dict(sizes=(2, 2), relative=rel, first=False, jitter=True),
                        reach=["run", "finished"], weight=2))
        out.append(dict(name="and jitter %s" % (rel,), fn=and_trigger, params=dict(sizes=(2, 2), relative=rel, first=True, jitter=True),
                        reach=["run", "finished"], weight=2))
    for fn in (and_trigger, or_trigger):
        for first in (True, False):
            out.append(dict(name="%s of three first=%s" % (fn.__name__, first), fn=fn, weight=9,
                            params=dict(sizes=(2, 1, 2), relative=(True, False, True), first=first), reach=["run", "finished"],
                            opts=dict(seconds=500, path_seconds=20, max_decisions=300)))
    for a, b in ((2, 3), (2, 4), (5, 5)):
        out.append(dict(name="and[interval %d, interval %d]" % (a, b), fn=real_and, params=dict(a=a, b=b), reach=["ok"],
                        opts=dict(path_seconds=20, max_decisions=400), weight=3))
    for kind in ("and", "or"):
        for name, around in (("autumn", 1729990800 * SEC), ("spring", 1711846800 * SEC)):
            out.append(dict(name="%s in Europe/Berlin, %s" % (kind, name), fn=clocks, params=dict(zone="Europe/Berlin", around=around, kind=kind), reach=["run"] + (["none"] if kind == "and" else []), opts=dict(window=(2024, 2025))))
    return out
