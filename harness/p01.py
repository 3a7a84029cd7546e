"""P01 interval trigger."""
from datetime import timedelta, timezone
from zoneinfo import ZoneInfo

from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Implies, Not, Or, Iff, Eq

ASSUMPTIONS = [
    "float arithmetic (timestamp(), timedelta_seconds, ceil) is modelled as exact rationals; for whole-second intervals and instants less than 140 years apart the double-precision result has the same ceiling",
    "random.uniform(0, j) is any microsecond-grid value in [0, j]",
]


def first_run(ctx, args, tz, end, jitter, far=400 * DAY):
    from asyncz.triggers.interval import IntervalTrigger

    iv = timedelta(**args)
    ius = ((iv.days * 86400 + iv.seconds) or 1) * SEC
    start = ctx.dt("start", T0 - far, T0 + far, tz)
    now = ctx.dt("now", T0 - far, T0 + far, tz)
    endv = ctx.dt("end", T0 - far, T0 + far, tz) if end else None
    j = ctx.int("jitter", 0, 600) if jitter else None
    t = IntervalTrigger(start_at=start, end_at=endv, timezone=tz, jitter=j, **args)
    r = t.get_next_trigger_time(UTC, None, now)
    ctx.observe("r", r)
    n, s = ctx.us(now), ctx.us(start)
    if r is None:
        ctx.reach("finished")
        ctx.check(end, "a trigger without end never finishes")
        e = ctx.us(endv)
        # some slot + jitter lies past the end: the last slot at or before the end is already gone
        lastjit = (j * SEC) if jitter else 0
        ctx.check(Or(s + lastjit > e, n - e > 0 - ius - lastjit), "finished although a run fits before end_at")
        return
    ctx.reach("run")
    u = ctx.us(r)
    if end:
        ctx.check(u <= ctx.us(endv), "run time after end_at")
    ctx.check(u >= n, "first run time lies in the past")
    ctx.check(u >= s, "first run time before start_at")
    if jitter:
        # some grid slot b in [u - j, u], with b the earliest slot >= now
        ctx.check(Or(u - j * SEC <= s, u - j * SEC - ius < n), "jitter moved the run by more than `jitter`")
        ctx.check(Or(u <= s + j * SEC, u < n + ius + j * SEC), "a grid slot was skipped")
    else:
        ctx.check(Eq((u - s) % ius, 0), "run time off the start_at + k*interval grid")
        ctx.check(Or(Eq(u, s), u - ius < n), "a grid slot was skipped")


def next_run(ctx, args, tz, end, jitter, far=400 * DAY):
    from asyncz.triggers.interval import IntervalTrigger

    iv = timedelta(**args)
    ius = ((iv.days * 86400 + iv.seconds) or 1) * SEC
    start = ctx.dt("start", T0 - far, T0 + far, tz)
    prev = ctx.dt("prev", T0 - far, T0 + far, tz)
    now = ctx.dt("now", T0 - far, T0 + far, tz)
    endv = ctx.dt("end", T0 - far, T0 + far, tz) if end else None
    j = ctx.int("jitter", 0, 600) if jitter else None
    t = IntervalTrigger(start_at=start, end_at=endv, timezone=tz, jitter=j, **args)
    r = t.get_next_trigger_time(UTC, prev, now)
    ctx.observe("r", r)
    p = ctx.us(prev)
    js = j * SEC if jitter else 0
    if r is None:
        ctx.reach("finished")
        ctx.check(end, "a trigger without end never finishes")
        ctx.check(p + ius + js > ctx.us(endv), "finished although a run fits before end_at")
        return
    ctx.reach("run")
    u = ctx.us(r)
    ctx.check(u > p, "next run time not strictly after the previous one")
    ctx.check(And(u >= p + ius, u <= p + ius + js), "next run time is not previous + interval (+ jitter)")
    if end:
        ctx.check(u <= ctx.us(endv), "run time after end_at")


def zones(ctx, args, host, zone, kind, end, far=400 * DAY):
    """Without time zone of its own a trigger uses that of the scheduler, wherever the host is.

    kind: "now": the trigger starts an interval after its creation, "naive": start_at is a wall time
    """
    from asyncz.triggers.interval import IntervalTrigger

    ius = int(timedelta(**args).total_seconds()) * SEC
    created = ctx.dt("created", T0 - far, T0 + far, host)
    ctx.fixed_clock(created)
    now = ctx.dt("now", T0 - far, T0 + far, zone)
    o = {}
    if kind == "now":
        s = ctx.us(created) + ius
        ctx.assume(ctx.us(now) >= ctx.us(created))
    else:
        start = ctx.dt("start", T0 - far, T0 + far, zone)
        s = ctx.us(start)
        o["start_at"] = start.replace(tzinfo=None)
    e = None
    if end:
        endv = ctx.dt("end", T0 - far, T0 + far, zone)
        o["end_at"] = endv.replace(tzinfo=None)
        e = ctx.us(endv)
    t = IntervalTrigger(**args, **o)
    r = t.get_next_trigger_time(zone, None, now)
    ctx.observe("r", r)
    n = ctx.us(now)
    if r is None:
        ctx.check(end, "a trigger without end never finishes")
        ctx.check(Or(s > e, n - e > 0 - ius), "finished although a run fits before end_at")
        ctx.reach("finished")
        return
    u = ctx.us(r)
    ctx.check(And(u >= n, u >= s), "first run time lies in the past or before the start")
    ctx.check(Eq((u - s) % ius, 0), "run time off the start + k*interval grid")
    ctx.check(Or(Eq(u, s), u - ius < n), "a grid slot was skipped")
    ctx.check(not end or u <= e, "run time after end_at")
    ctx.reach("run")
    r2 = t.get_next_trigger_time(zone, r, r)
    ctx.check(r2 is None if end and bool(u + ius > e) else r2 is not None and Eq(ctx.us(r2), u + ius), "the next run is not an interval later")


def instances(tier):
    out = []
    east, west = timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8))
    for host, zone in ((UTC, east), (east, UTC), (west, east), (UTC, UTC)):
        for kind in ("now", "naive"):
            for a in (dict(hours=1), dict(minutes=45, seconds=30)):
                for end in (False, True):
                    out.append(dict(name="zones %s on %s, %s %s end=%s" % (zone, host, kind, a, end), fn=zones, params=dict(args=a, host=host, zone=zone, kind=kind, end=end), reach=["run"] + (["finished"] if end else [])))
    ivs = [dict(seconds=1), dict(seconds=7), dict(minutes=45, seconds=30), dict(days=1), dict(weeks=2, hours=1)]
    for a in ivs:
        for end in (False, True):
            for jit in (False, True):
                for f in (first_run, next_run):
                    out.append(dict(name="%s %s end=%s jitter=%s" % (f.__name__, a, end, jit), fn=f,
                                    params=dict(args=a, tz=UTC, end=end, jitter=jit), reach=["run"] + (["finished"] if end else [])))
    out.append(dict(name="first_run without interval", fn=first_run, params=dict(args={}, tz=UTC, end=True, jitter=False), reach=["run", "finished"]))
    out.append(dict(name="next_run without interval", fn=next_run, params=dict(args={}, tz=UTC, end=True, jitter=False), reach=["run", "finished"]))
    for z in ("Europe/Berlin", "America/New_York", "Australia/Lord_Howe"):
        for a in (dict(minutes=15), dict(hours=1), dict(days=1)):
            for end in (False, True):
                for f in (first_run, next_run):
                    out.append(dict(name="%s %s in %s end=%s" % (f.__name__, a, z, end), fn=f,
                                    params=dict(args=a, tz=ZoneInfo(z), end=end, jitter=False), reach=["run"] + (["finished"] if end else [])))
    return out
