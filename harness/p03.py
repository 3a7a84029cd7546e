"""P03 cron field expressions: parsed from (symbolic) text, judged through the trigger."""
from datetime import datetime, timedelta

from harness.cronref import LIM, MONTHS, WD, dim, value
from symx import dt as sdt
from symx.ctx import DAY, HOUR, MIN, SEC, T0, UTC, And, Eq, Implies, Ite, Not, Or

BOUNDS = "numbers of one or two digits (years 2000-2039, steps up to 9), all current field values; names, positions: all; one or two list members"
OUTSIDE = "non-ASCII digits, longer numbers, lists of three and more members"

LOW = ["year", "month", "day", "day_of_week", "hour", "minute", "second"]


def us(*a):
    return sdt.to_us(datetime(*a))


# windows of the current time: the field under test varies, everything below it is zero
WINDOW = dict(
    second=(us(2024, 5, 17, 12, 34, 0), us(2024, 5, 17, 12, 34, 59), SEC, us(2024, 5, 17, 12, 36, 0)),
    minute=(us(2024, 5, 17, 12, 0), us(2024, 5, 17, 12, 59), MIN, us(2024, 5, 17, 14, 0)),
    hour=(us(2024, 5, 17), us(2024, 5, 17, 23), HOUR, us(2024, 5, 19)),
    day=(us(2024, 5, 1), us(2024, 5, 31), DAY, us(2024, 8, 1)),
    month=(us(2024, 1, 1), us(2024, 12, 31), DAY, us(2026, 1, 1)),
    day_of_week=(us(2024, 5, 13), us(2024, 5, 19), DAY, us(2024, 5, 28)),
    year=(us(2024, 1, 1), us(2027, 12, 31), DAY, us(2045, 1, 1)),
)


def number(ctx, field, name, n):
    """-> (text, value)"""
    s = ctx.str(name, 1, [("0", "3")]) + ctx.str(name + "u", n - 1, [("0", "9")]) if field == "year" else ctx.str(name, n, [("0", "9")])
    v = 0
    for ch in s:
        v = v * 10 + (ctx.digit(ch))
    return ("20" + s if field == "year" else s), (2000 + v if field == "year" else v)


def numeric(ctx, field, form, digits):
    from asyncz.triggers.cron import CronTrigger

    lo, hi = LIM[field]
    first = last = step = None
    text = ""
    if form.startswith("*"):
        text = "*"
    else:
        t, first = number(ctx, field, "first", digits)
        text = text + t
        if "-" in form:
            t, last = number(ctx, field, "last", digits)
            text = text + "-" + t
    if "/" in form:
        st = ctx.str("step", 1 if field == "year" else digits, [("0", "9")])
        step = 0
        for ch in st:
            step = step * 10 + ctx.digit(ch)
        text = text + "/" + st
    # reference validity
    top = hi if (last is None and (step is not None or form.startswith("*"))) else (first if last is None else last)
    bottom = lo if form.startswith("*") else first
    bad = []
    if first is not None:
        bad += [first < lo, first > hi]
    if last is not None:
        bad += [last > hi, first > last]
    if step is not None:
        bad += [Eq(step, 0), step > top - bottom]
    bad = Or(*bad) if bad else False
    try:
        t = CronTrigger(timezone=UTC, **{field: text})
    except ValueError:
        ctx.reach("rejected")
        ctx.check(bad, "a valid expression was rejected")
        return
    ctx.check(Not(bad), "an expression outside the field's limits was accepted")
    ctx.reach("accepted")
    if step is not None:
        step = ctx.split(step, 99)

    def ok(v):
        c = [v >= bottom, v <= top]
        if step is not None:
            c.append(Eq((v - bottom) % step, 0))
        return And(*c)

    judge(ctx, t, field, ok)


def judge(ctx, t, field, ok):
    a, b, grid, hor = WINDOW[field]
    now = ctx.dtf("now", a, b, UTC, grid)
    other = ctx.dtf("other", a, hor, UTC, grid)
    r = t.get_next_trigger_time(UTC, None, now)
    ctx.observe("r", r)
    if r is None:
        ctx.reach("none")
        ctx.check(Not(And(other >= now, ok(value(field, other)), aligned(field, other))), "no run time although an allowed value remains")
        return
    ctx.reach("run")
    ctx.check(r >= now, "run time in the past")
    ctx.check(ok(value(field, r)), "run time whose field value is not allowed by the expression")
    for f in ("hour", "minute", "second"):
        if LOW.index(f) > LOW.index(field):
            ctx.check(Eq(getattr(r, f), 0), "less significant field not at its minimum")
    ctx.check(Not(And(other >= now, other < r, ok(value(field, other)), aligned(field, other))), "an allowed value was skipped")


def aligned(field, d):
    """Fields below `field` at their minimum."""
    c = []
    if field in ("year",):
        c.append(Eq(d.month, 1))
    if field in ("year", "month"):
        c.append(Eq(d.day, 1))
    return And(*c) if c else True


def names(ctx, field, form):
    from asyncz.triggers.cron import CronTrigger

    tab = MONTHS if field == "month" else WD
    off = 1 if field == "month" else 0
    i = ctx.int("i", 0, len(tab) - 1)
    a = ctx.pick(tab, i)
    text = a.upper() if form == "upper" else a
    last = i
    j = None
    if form == "range":
        j = ctx.int("j", 0, len(tab) - 1)
        text = text + "-" + ctx.pick(tab, j)
        last = j
    try:
        t = CronTrigger(timezone=UTC, **{field: text})
    except ValueError:
        ctx.reach("rejected")
        ctx.check(j is not None and j < i, "a valid name expression was rejected")
        return
    ctx.check(j is None or j >= i, "an inverted range was accepted")
    judge(ctx, t, field, lambda v: And(v >= i + off, v <= last + off))


def pos(ctx, which):
    from asyncz.triggers.cron import CronTrigger

    w = ctx.int("weekday", 0, 6)
    text = which + " " + ctx.pick(WD, w)
    t = CronTrigger(timezone=UTC, day=text)
    a, b = T0, T0 + 430 * DAY
    now = ctx.dtf("now", a, b, UTC, DAY)
    other = ctx.dtf("other", a, us(2025, 12, 31), UTC, DAY)
    r = t.get_next_trigger_time(UTC, None, now)
    ctx.observe("r", r)

    def ok(d):
        if which == "last":
            return And(Eq(d.weekday(), w), d.day + 7 > dim(d.year, d.month))
        n = int(which[0]) - 1
        return And(Eq(d.weekday(), w), d.day > 7 * n, d.day <= 7 * n + 7)

    ctx.check(r is not None, "no run time for a recurring weekday position")
    ctx.reach("run")
    ctx.check(And(r >= now, ok(r)), "run time is not the requested weekday position")
    ctx.check(Not(And(other >= now, other < r, ok(other))), "a matching day was skipped")


def lists(ctx, field):
    from asyncz.triggers.cron import CronTrigger

    d = 2
    t1, a1 = number(ctx, field, "a", d)
    t2, a2 = number(ctx, field, "b", d)
    t3, b2 = number(ctx, field, "c", d)
    lo, hi = LIM[field]
    sep = ctx.choice("sep", [",", ", ", " , "])
    bad = Or(a1 < lo, a1 > hi, a2 < lo, b2 > hi, a2 > b2)
    try:
        t = CronTrigger(timezone=UTC, **{field: t1 + sep + t2 + "-" + t3})
    except ValueError:
        ctx.check(bad, "a valid list was rejected")
        return
    ctx.check(Not(bad), "an invalid list was accepted")
    judge(ctx, t, field, lambda v: Or(Eq(v, a1), And(v >= a2, v <= b2)))


GARBAGE = ["day", "month", "day_of_week", "hour"]


def garbage(ctx, field, n):
    """Any text over a small alphabet: accepted only if it is in the documented grammar."""
    from asyncz.triggers.cron import CronTrigger

    s = ctx.str("text", n, ["*", "/", "-", "1", "x", "m", "o", "n"] if n < 4 else ["/", "-", "1", "m", "o", "n"])
    try:
        CronTrigger(timezone=UTC, **{field: s})
    except ValueError:
        ctx.reach("rejected")
        return
    ctx.reach("accepted")
    ctx.check(in_grammar(s, field), "text outside the documented grammar was accepted")


def in_grammar(s, field):
    forms = ["*", "1", "11", "*/1", "1/1", "1-1", "*/11", "11/1", "1/11", "1-11", "11-1", "1-1/1", "1-11/1", "11-11"]
    if field == "day_of_week":
        forms += ["mon", "mon-mon"]
    return Or(*[Eq(s, f) for f in forms if len(f) == len(s)]) if any(len(f) == len(s) for f in forms) else False


def suffix(ctx, field, base, n):
    """A complete expression followed by anything that does not continue it is an error."""
    from asyncz.triggers.cron import CronTrigger

    s = base + ctx.str("tail", n, ["/", "-", "x", "2", " ", "!"])
    try:
        CronTrigger(timezone=UTC, **{field: s})
    except ValueError:
        ctx.reach("rejected")
        return
    ctx.check(Eq(s.strip(), base), "trailing text after a complete expression was accepted")


def instances(tier):
    out = []
    for field in LOW:
        for form in ("*", "*/s", "f", "f-l", "f/s", "f-l/s"):
            for digits in ((1, 2) if field not in ("year",) and form != "*" else (2,)):
                if field == "day_of_week" and digits == 2 and tier == "quick":
                    continue
                heavy = "/s" in form
                reach = ["accepted"] + (["rejected"] if form != "*" else [])
                if form == "f" and (digits == 1 and field in ("hour", "minute", "second") or field == "year"):
                    reach = ["accepted"]
                out.append(dict(name="%s %s %d digits" % (field, form, digits), fn=numeric,
                                params=dict(field=field, form=form, digits=digits), reach=reach, weight=4 if heavy else 1,
                                opts=dict(seconds=400, path_seconds=120, window=(2024, 2052) if field == "year" else (2024, 2027))))
    for field in ("month", "day_of_week"):
        for form in ("single", "upper", "range"):
            out.append(dict(name="%s names %s" % (field, form), fn=names, params=dict(field=field, form=form), reach=["run"], weight=2,
                            opts=dict(seconds=300, window=(2024, 2027))))
    for w in ("1st", "2nd", "3rd", "4th", "5th", "last"):
        out.append(dict(name="%s weekday" % w, fn=pos, params=dict(which=w), reach=["run"], weight=3, opts=dict(seconds=400, window=(2024, 2027))))
    for field in ("hour", "minute", "day"):
        out.append(dict(name="%s list" % field, fn=lists, params=dict(field=field), reach=["run"], weight=2, opts=dict(seconds=400, window=(2024, 2027))))
    for field in ("day_of_week", "hour"):
        for n in (1, 2, 3, 4):
            out.append(dict(name="%s text of %d" % (field, n), fn=garbage, params=dict(field=field, n=n), reach=["rejected"],
                            opts=dict(seconds=300, window=(2024, 2027))))
    for field, base in (("month", "jan"), ("month", "jan-mar"), ("day_of_week", "mon-fri"), ("day", "last"), ("day", "last fri"), ("day", "2nd mon")):
        for n in (1, 2):
            out.append(dict(name="%s %s + %d" % (field, base, n), fn=suffix, params=dict(field=field, base=base, n=n), reach=["rejected"],
                            opts=dict(seconds=300, window=(2024, 2027))))
    return out
