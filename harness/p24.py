"""P24 dates given as text or objects denote the instants they say."""
import datetime as D
from zoneinfo import ZoneInfo

import asyncz.triggers.date  # noqa: F401
import asyncz.triggers.interval  # noqa: F401
import asyncz.utils
from symx.ctx import DAY, HOUR, SEC, T0, UTC, And, Eq, Not, Or

BOUNDS = "all digits of date strings with years 2020 to 2031, one or two digits per field, no to six fraction digits, every offset of whole hours plus 0, 30, 45, 59 or 60 minutes up to 24 h, fixed-offset and DST default time zones; arbitrary strings of up to 12 characters (thorough: 22) out of a 9-character alphabet for rejection; all instants of a year for conversions"
OUTSIDE = "non-ASCII digits; pytz zones; binary rounding of float timestamps (floats are exact rationals in the model)"
ASSUMPTIONS = ["datetime, timezone and ZoneInfo behave as documented"]
NUM = [("0", "9")]
BERLIN = ZoneInfo("Europe/Berlin")
LO, HI = T0, T0 + 365 * DAY


def number(ctx, s):
    v = 0
    for ch in s:
        v = v * 10 + ctx.digit(ch)
    return v


def dim(y, m):
    """Days of the month, by the calendar's definition."""
    leap = And(Eq(y % 4, 0), Or(Not(Eq(y % 100, 0)), Eq(y % 400, 0)))
    return leap, Or(Eq(m, 4), Eq(m, 6), Eq(m, 9), Eq(m, 11))


def valid_day(y, m, d):
    leap, short = dim(y, m)
    feb = Eq(m, 2)
    return And(m >= 1, m <= 12, d >= 1, d <= 31, Or(Not(short), d <= 30), Or(Not(feb), d <= 28, And(leap, d <= 29)))


def pad(ctx, name, n):
    return ctx.str(name, n, NUM)


def parse(ctx, form, frac, zone, via="to_datetime"):
    """A well-formed string: the instant of its digits, or an error when there is no such date."""
    from asyncz.exceptions import AsynczException

    y = pad(ctx, "year", 2)
    ctx.assume(And(number(ctx, y) >= 20, number(ctx, y) <= 31))
    w = 2 if form != "short" else 1
    mo, da = pad(ctx, "month", w), pad(ctx, "day", w)
    text = "20" + y + "-" + mo + "-" + da
    Y, M, Dy = number(ctx, y) + 2000, number(ctx, mo), number(ctx, da)
    h = mi = se = us = 0
    offset = None
    ok = valid_day(Y, M, Dy)
    if form != "date":
        hh, mm, ss = pad(ctx, "hour", w), pad(ctx, "minute", w), pad(ctx, "second", w)
        text = text + (ctx.choice("separator", [" ", "T"]) if zone != "offset" else "T") + hh + ":" + mm + ":" + ss
        h, mi, se = number(ctx, hh), number(ctx, mm), number(ctx, ss)
        ok = And(ok, h <= 23, mi <= 59, se <= 59)
        if frac:
            f = pad(ctx, "fraction", frac)
            text = text + "." + f
            us = number(ctx, f) * 10 ** (6 - frac)
        if zone == "Z":
            text, offset = text + "Z", 0
        elif zone == "offset":
            sign = ctx.choice("sign", ["+", "-"])
            oh = ctx.split(ctx.int("offset hours", 0, 24))
            om = ctx.choice("offset minutes", [0, 30, 45, 59, 60])
            text = text + "%s%02d:%02d" % (sign, oh, om)
            offset = (oh * 60 + om) * (1 if sign == "+" else -1)
            if abs(offset) >= 24 * 60:
                ok = False
    default = D.timezone(D.timedelta(hours=-3)) if zone == "offset" else ctx.choice("default zone", [UTC, D.timezone(D.timedelta(hours=5, minutes=30)), D.timezone(D.timedelta(hours=-3))])
    err = r = None
    try:
        if via == "to_datetime":
            r = asyncz.utils.to_datetime(text, default, "x")
        elif via == "date trigger":
            from asyncz.triggers.date import DateTrigger

            r = DateTrigger(text, timezone=default).run_at
        else:
            from asyncz.triggers.interval import IntervalTrigger

            t = IntervalTrigger(days=1, start_at=text, timezone=default)
            r = t.start_at
    except (AsynczException, ValueError) as e:
        err = e
    if err is not None:
        ctx.check(Not(ok), "a valid date string is rejected")
        ctx.reach("rejected")
        return
    ctx.check(ok, "a date that does not exist is accepted")
    local = r
    want = offset if offset is not None else int(default.utcoffset(None).total_seconds()) // 60
    if via != "to_datetime":
        local = r.astimezone(D.timezone(D.timedelta(minutes=want)))
    else:
        ctx.check(Eq(local.utcoffset(), D.timedelta(minutes=want)), "a date string is given the wrong time zone")
    for got, w_, what in ((local.year, Y, "year"), (local.month, M, "month"), (local.day, Dy, "day"), (local.hour, h, "hour"), (local.minute, mi, "minute"), (local.second, se, "second"), (local.microsecond, us, "fraction")):
        ctx.check(Eq(got, w_), "the %s of a date string is read wrongly" % what)
    ctx.reach("accepted")


def grammar(ctx, s):
    """Is s of the documented form?  (recognised character by character)"""
    n = len(s)

    def digits(i, lo, hi):
        """positions after lo..hi digits"""
        out = []
        c = True
        for k in range(hi):
            if i + k >= n:
                break
            c = And(c, s[i + k] >= "0", s[i + k] <= "9")
            if k + 1 >= lo:
                out.append((i + k + 1, c))
        return out

    def step(states, f):
        out = []
        for i, c in states:
            for j, d in f(i):
                out.append((j, And(c, d)))
        return out

    def lit(chars):
        return lambda i: [(i + 1, Or(*[Eq(s[i], ch) for ch in chars]))] if i < n else []

    def dig(lo, hi):
        return lambda i: digits(i, lo, hi)

    st = [(0, True)]
    for f in (dig(4, 4), lit("-"), dig(1, 2), lit("-"), dig(1, 2)):
        st = step(st, f)
    done = [c for i, c in st if i == n]
    for f in (lit(" T"), dig(1, 2), lit(":"), dig(1, 2), lit(":"), dig(1, 2)):
        st = step(st, f)
    more = step(step(st, lit(".")), dig(1, 6))
    st = st + more
    done += [c for i, c in st if i == n]
    z = step(st, lit("Z"))
    off = st
    for f in (lit("+-"), dig(2, 2), lit(":"), dig(2, 2)):
        off = step(off, f)
    done += [c for i, c in z + off if i == n]
    return Or(*done) if done else False


def wild(ctx, n, mask=None):
    """Any other string is rejected with an error."""
    from asyncz.exceptions import AsynczException

    if mask is None:
        s = ctx.str("text", n, ["-", ":", ".", " ", "T", "Z", "+", "x", ("0", "9")])
    else:
        s = ""
        for k, ch in enumerate(mask):
            s = s + (ctx.str("c%d" % k, 1, ["-", ":", ".", " ", "T", "Z", "+", "x", ("0", "9")]) if ch == "?" else ch)
    if len(s) >= 4:  # years in the window of the model
        year = And(*[And(c >= "0", c <= "9") for c in s[:4]])
        ctx.assume(Or(Not(year), And(Eq(s[0], "2"), Eq(s[1], "0"), Eq(s[2], "2"))))
    ok = grammar(ctx, s)
    try:
        r = asyncz.utils.to_datetime(s, UTC, "x")
    except AsynczException:
        ctx.check(Not(ok), "a string of the documented form is not recognised")
        ctx.reach("not a date")
        return
    except ValueError:  # digits of the right form, but no such date
        ctx.check(ok, "a malformed string is taken for a date")
        return
    ctx.check(ok, "a malformed string is taken for a date")
    ctx.reach("date")


def objects(ctx):
    from asyncz.exceptions import AsynczException

    tz = ctx.choice("tz", [UTC, D.timezone(D.timedelta(hours=2)), BERLIN, None, "Europe/Berlin", "UTC"])
    require = ctx.flag("require tz")
    kind = ctx.choice("value", ["naive", "aware", "none", "empty", "number", "list"])
    f = asyncz.utils.to_datetime
    if kind in ("none", "empty"):
        ctx.check(f(None if kind == "none" else "", tz, "x", require) is None, "no value is not answered with none")
        return
    if kind in ("number", "list"):
        try:
            f(12 if kind == "number" else [1], tz, "x", require)
        except AsynczException:
            ctx.reach("refused")
            return
        ctx.check(False, "a value that is no date is accepted")
    if kind == "aware":
        v = ctx.dt("value", LO, HI, ctx.choice("own zone", [UTC, D.timezone(D.timedelta(hours=-5)), BERLIN]))
        r = f(v, tz, "x", require)
        ctx.check(And(Eq(ctx.us(r), ctx.us(v)), Eq(r.utcoffset(), v.utcoffset())), "an aware datetime is changed")
        ctx.reach("aware")
        return
    v = ctx.dt("value", LO, HI, None)
    try:
        r = f(v, tz, "x", require)
    except AsynczException:
        ctx.check(And(tz is None, require), "a naive datetime is refused though a time zone is given")
        ctx.reach("tz missing")
        return
    ctx.check(not (tz is None and require), "a naive datetime is accepted without a time zone")
    if tz is None:
        ctx.check(And(r.tzinfo is None, Eq(ctx.us(r), ctx.us(v))), "a naive datetime is changed")
        return
    ctx.check(r.tzinfo is not None, "the result has no time zone")
    localized(ctx, v, r, str(tz))


def localized(ctx, v, r, tz):
    """r is the wall time v in the zone: same wall clock, or moved forward by the gap."""
    off = r.utcoffset()
    wall = ctx.us(v)
    inst = ctx.us(r)
    if "Berlin" not in tz:
        want = {"UTC": 0, "UTC+02:00": 2}[tz] * HOUR
        ctx.check(Eq(inst, wall - want), "a naive datetime is placed at the wrong instant")
        return
    # 2024: gap on 2024-03-31 02:00-03:00 (to 03:00), fold on 2024-10-27 02:00-03:00; T0 is 2024-01-01
    gap = T0 + (31 + 29 + 30) * DAY + 2 * HOUR
    fold = T0 + (31 + 29 + 31 + 30 + 31 + 30 + 31 + 31 + 30 + 26) * DAY + 2 * HOUR
    summer = And(wall >= gap + HOUR, wall < fold + HOUR)  # the first of two equal wall times
    ctx.check(Eq(inst, wall - ctx_if(ctx, summer, 2 * HOUR, HOUR)), "a naive datetime is placed at the wrong instant")
    in_gap = And(wall >= gap, wall < gap + HOUR)
    ctx.check(Or(And(in_gap, Eq(ctx.wall(r), wall + HOUR)), And(Not(in_gap), Eq(ctx.wall(r), wall))), "the wall clock of the result is wrong")


def ctx_if(ctx, c, a, b):
    return a if c else b


def dates(ctx):
    """Plain dates: midnight in the zone."""
    d0 = D.date(2024, 1, 1) + D.timedelta(days=ctx.split(ctx.int("day", 0, 366), 500))
    tz = ctx.choice("tz", [D.timezone(D.timedelta(hours=2)), ZoneInfo("Asia/Beirut")])
    r = asyncz.utils.to_datetime(d0, tz, "x")
    want = D.datetime(d0.year, d0.month, d0.day, tzinfo=tz)
    ctx.check(Eq(ctx.us(r), int(want.timestamp()) * SEC), "a date is not midnight of its day")


def conversions(ctx, what):
    U = asyncz.utils
    if what == "timestamp":
        v = ctx.dt("value", LO, HI, ctx.choice("zone", [UTC, D.timezone(D.timedelta(hours=-5)), BERLIN]))
        ts = U.datetime_to_utc_timestamp(v)
        r = U.utc_timestamp_to_datetime(ts)
        ctx.check(Eq(ctx.us(r), ctx.us(v)), "an instant is not its timestamp's instant")
        w = ctx.dt("other", LO, HI, UTC)
        ctx.check(Eq(U.datetime_to_utc_timestamp(w) < ts, ctx.us(w) < ctx.us(v)), "timestamps are ordered differently from their instants")
        ctx.check(And(U.datetime_to_utc_timestamp(None) is None, U.utc_timestamp_to_datetime(None) is None), "none is not kept")
    elif what == "ceil":
        v = ctx.dt("value", LO, HI, ctx.choice("zone", [UTC, D.timezone(D.timedelta(hours=-5))]))
        r = U.datetime_ceil(v)
        ctx.check(And(Eq(ctx.us(r) % SEC, 0), ctx.us(r) >= ctx.us(v), ctx.us(r) < ctx.us(v) + SEC), "the next whole second is wrong")
    elif what == "seconds":
        u = ctx.int("us", -400 * DAY, 400 * DAY)
        r = U.timedelta_seconds(ctx.mktd(u))
        ctx.check(Eq(r * SEC, u), "the seconds of a time span are wrong")
    elif what == "normalize":
        v = ctx.dt("value", LO, HI, BERLIN)
        r = U.normalize(v)
        ctx.check(And(Eq(ctx.us(r), ctx.us(v)), Eq(r.utcoffset(), v.utcoffset())), "normalizing changes an existing time")
    ctx.reach("end")


def zones(ctx):
    U = asyncz.utils
    k = ctx.choice("value", ["Europe/Berlin", "UTC", UTC, BERLIN, None, 5, "No/Such", b"UTC"])
    try:
        r = U.to_timezone(k)
    except TypeError:
        ctx.check(k in (5, b"UTC"), "a time zone is refused")
        return
    except Exception:
        ctx.check(k == "No/Such", "a time zone is refused")
        return
    ctx.check(k not in (5, b"UTC", "No/Such"), "a value that is no time zone is accepted")
    if isinstance(k, str):
        ctx.check(r.key == k, "a time zone name is read wrongly")
    else:
        ctx.check(r is k, "a time zone is replaced")
    fb = U.to_timezone_with_fallback(k)
    ctx.check(fb is not None and (k is None or fb is r or fb.key == k), "the fallback replaces a given time zone")


def instances(tier):
    quick = tier == "quick"
    out = [dict(name="date only", fn=parse, params=dict(form="date", frac=0, zone=None), reach=["accepted", "rejected"], weight=2)]
    for form in ("full", "short"):
        for frac in range(0, 7):
            for zone in (None, "Z", "offset"):
                if quick and zone == "offset" and frac not in (0, 3):
                    continue
                out.append(dict(name="%s fraction=%d zone=%s" % (form, frac, zone), fn=parse, params=dict(form=form, frac=frac, zone=zone), reach=["accepted"] + (["rejected"] if form == "full" or zone == "offset" or True else []), weight=4, opts=dict(seconds=600)))
    for via in ("date trigger", "interval trigger"):
        out.append(dict(name="%s from text" % via, fn=parse, params=dict(form="full", frac=3, zone=None, via=via), reach=["accepted", "rejected"], weight=4))
    for n in range(1, 13 if quick else 16):
        out.append(dict(name="any %d characters" % n, fn=wild, params=dict(n=n), reach=["not a date"] + (["date"] if 8 <= n <= 10 else []), weight=n, opts=dict(seconds=700 if quick else 4000)))
    for m in ("2024-0?-01?", "2024-01-0??", "2024-01-01?1?:02:03", "2024-01-01 01?02?03", "2024-01-01 01:02:03????", "2024-01-01 01:02:03.??????", "2024-01-01 01:02:03???:00", "2024-01-01 01:02:03??3:5?", "2024-01-01 01:02:03+0?:?0", "2024-01-01 01:02:03?2??00", "2024-01-01T01:02:03.123456?2?:0?", "2024-01-01T01:02:03.12?Z", "2024-01-01T01:02:03Z?", "?2024-01-01", "2024-01-01??", "2024-01-01 01:02:03.1234567?", "?????-01-01", "2024-1-1 1:2:3?????") + (() if quick else ("2024-01-01 01:02:03??????", "2024-01-01T01:02:03.123456??????")):
        out.append(dict(name="text like %s" % m, fn=wild, params=dict(n=0, mask=m), reach=[], weight=6, opts=dict(seconds=700 if quick else 4000)))
    out.append(dict(name="objects", fn=objects, reach=["refused", "aware", "tz missing"], weight=4))
    out.append(dict(name="plain dates", fn=dates, reach=[], weight=3))
    for w in ("timestamp", "ceil", "seconds", "normalize"):
        out.append(dict(name="conversion " + w, fn=conversions, params=dict(what=w), reach=["end"], weight=2))
    out.append(dict(name="zones", fn=zones, reach=[], weight=1))
    return out
