"""P02 cron trigger: the next fire time is the earliest matching second."""
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from harness.cronref import match
from symx import dt as sdt
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Implies, Ite, Not, Or

LO, HI = T0, T0 + 1096 * DAY


def cron(ctx, spec, mode, lo=LO, hi=HI, horizon=None, tz=UTC):
    from asyncz.triggers.cron import CronTrigger

    now = ctx.dtf("now", lo, hi, tz)
    kw = {}
    start = end = None
    if "start" in mode:
        start = kw["start_at"] = ctx.dtf("start", lo, hi, tz)
    if "end" in mode:
        end = kw["end_at"] = ctx.dtf("end", lo, hi, tz)
    prev = None
    if "prev" in mode:
        prev = ctx.dtf("prev", lo, hi, tz)
        ctx.assume(prev <= now)
    other = ctx.dtf("other", (lo // SEC) * SEC, ((horizon or hi + 800 * DAY) // SEC) * SEC, tz, grid=SEC)
    t = CronTrigger(timezone=tz, **spec, **kw)
    r = t.get_next_trigger_time(tz, prev, now)
    ctx.observe("r", r)
    lower = [other > prev if prev is not None else other >= now]
    if start is not None and prev is None:
        lower.append(other >= start)
    if end is not None:
        lower.append(other <= end)
    if r is None:
        ctx.reach("none")
        ctx.check(Not(And(*lower, match(spec, other))), "no run time returned although one exists")
        return
    ctx.reach("run")
    ctx.check(r > prev if prev is not None else r >= now, "run time not after the previous run / before now")
    if start is not None and prev is None:
        ctx.check(r >= start, "run time before start_at")
    if end is not None:
        ctx.check(r <= end, "run time after end_at")
    ctx.check(Eq(r.microsecond, 0), "run time not on a whole second")
    ctx.check(match(spec, r), "run time does not match the expression")
    ctx.check(Not(And(*lower, other < r, match(spec, other))), "an earlier matching time was skipped")


def clocks(ctx, spec, mode, zone, around, before, after, horizon):
    """The same in a time zone while its clocks are changed.

    A wall time which is skipped may be moved forward; a wall time which is repeated matches twice.
    """
    from asyncz.triggers.cron import CronTrigger

    tz = ZoneInfo(zone)
    change = to_us(*around)
    a, b = (sdt.td_us(sdt.from_us(change + x).replace(tzinfo=UTC).astimezone(tz).utcoffset()) for x in (-1, 0))
    gap, wall = b - a, change + b  # what clocks show right after the change
    lo, hi = change - before, change + after

    def moment(name):
        return ctx.dt(name, lo, hi, tz, grid=SEC)

    now = moment("now")
    kw, prev = {}, None
    n = ctx.us(now)
    lower = n
    if mode == "prev":
        prev = now
        if ctx.flag("late"):
            now = ctx.mkdt(hi, tz)
        lower = n + 1
    elif mode == "start":
        start = kw["start_at"] = moment("start")
        s = ctx.us(start)
        lower = Ite(s > n, s, n)
    elif mode == "end":
        kw["end_at"] = moment("end")
        e = ctx.us(kw["end_at"])
    other = ctx.dt("other", lo, hi + horizon, tz, grid=SEC)
    o = ctx.us(other)
    between = [o >= lower] + ([o <= e] if mode == "end" else [])
    t = CronTrigger(timezone=tz, **spec, **kw)
    r = t.get_next_trigger_time(tz, prev, now)
    ctx.observe("r", r)
    if r is None:
        ctx.reach("none")
        ctx.check(Not(And(*between, match(spec, other))), "no run time returned although one exists")
        return
    u = ctx.us(r)
    ctx.check(u >= lower, "run time not after the previous run, before now or before start_at")
    ctx.check(mode != "end" or u <= e, "run time after end_at")
    ctx.check(Eq(u % SEC, 0), "run time not on a whole second")
    if gap > 0 and bool(And(u >= change, u < change + gap)):
        ctx.reach("after the gap")
        # what clocks would show had they not been changed
        ctx.check(Or(match(spec, r), match(spec, ctx.mkdt(u + a).replace(tzinfo=None))), "run time does not match the expression")
    else:
        ctx.reach("run")
        ctx.check(match(spec, r), "run time does not match the expression")
    ctx.check(Not(And(*between, o < u, match(spec, other))), "an earlier matching time was skipped")


CLOCKS = [
    (dict(minute="*/30"), 100 * MIN, 100 * MIN, HOUR),
    (dict(hour="2", minute="30"), 26 * HOUR, 2 * HOUR, DAY),
    (dict(hour="1-3", minute="15"), 3 * HOUR, 3 * HOUR, DAY),
    (dict(hour="*/8"), 10 * HOUR, 10 * HOUR, DAY),
    (dict(hour="0"), 30 * HOUR, 3 * HOUR, 2 * DAY),
    (dict(day="1"), 20 * DAY, 3 * DAY, 40 * DAY),
]
ZONES = [
    ("Europe/Berlin", (2024, 3, 31, 1), "spring"), ("Europe/Berlin", (2024, 10, 27, 1), "autumn"),
    ("Australia/Lord_Howe", (2024, 4, 6, 15), "autumn"), ("America/Havana", (2024, 3, 10, 5), "spring"),
]


SPECS = [
    dict(),
    dict(second="*/15"),
    dict(minute="5"),
    dict(minute="10-50/20", second="30"),
    dict(hour="*/6"),
    dict(hour="8-17", minute="0,45"),
    dict(day="last"),
    dict(day="2nd tue", hour="3"),
    dict(day="last fri"),
    dict(day="5th mon", hour="1", minute="2"),
    dict(day="31"),
    dict(day="1-10/4,25", hour="12"),
    dict(month="feb", day="29"),
    dict(month="jan-mar,jun"),
    dict(month="*/5", day="3"),
    dict(day_of_week="mon-wed", hour="7"),
    dict(day_of_week="sun,4"),
    dict(year="2025", month="11", day="30", hour="23", minute="59", second="59"),
    dict(year="2024-2026/2", month="12"),
    dict(day="13", day_of_week="fri"),
    dict(minute="*/15", hour="*/2", day="15"),
    dict(second="7,9-11"),
]


def to_us(*a):
    return sdt.to_us(datetime(*a))


def uses_weekday(sp):
    return "day_of_week" in sp or (" " in str(sp.get("day", "")))


def instances(tier):
    out = []
    for sp in SPECS:
        days = 1096
        years = (2024, 2030)
        if uses_weekday(sp):
            days = 100 if tier == "quick" else 366
            years = (2024, 2025) if tier == "quick" else (2024, 2027)
            if sp.get("day_of_week") == "fri":
                years = (2024, 2026)
        elif "day" in sp and sp.get("month") != "feb":
            years = (2024, 2028)
        lo = to_us(2024, 8, 1) if sp.get("day_of_week") == "fri" else LO
        for mode in ("", "prev", "start", "end"):
            hi = lo + days * DAY
            hor = min(hi + 800 * DAY, sdt.to_us(datetime(years[1], 1, 1)) - SEC)
            out.append(dict(name="%s %s" % (sp, mode or "first"), fn=cron, params=dict(spec=sp, mode=mode, lo=lo, hi=hi, horizon=hor), reach=["run"],
                            weight=5 if uses_weekday(sp) else 1, opts=dict(seconds=300, path_seconds=120, window=years)))
    for n, (sp, before, after, horizon) in enumerate(CLOCKS):
        for zone, around, season in ZONES if tier == "thorough" else ZONES[:2]:
            for mode in ("", "prev"):
                out.append(dict(name="%s %s in %s, %s" % (sp, mode or "first", zone, season), fn=clocks, params=dict(spec=sp, mode=mode, zone=zone, around=around, before=before, after=after, horizon=horizon),
                                reach=["run"], opts=dict(seconds=300, path_seconds=120, window=(2024, 2025))))
    return out
